package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// The conservation oracle: walks the tree and the content side by side and demands that every
// character outside white space and comments is accounted for by the tree, in order. It has its
// own notion of white space, comments and string literals and never calls the code under test.

type conserveErr struct{ msg string }

type matcher struct {
	s        string
	pos      int
	comments map[string]int // comments of the content by raw text
	where    string
	last     int // where the last token begins

	mark func(e interface{}, x meta.Meta, first, last int) string // judges the place of an element
}

// begin returns where the next token begins.
func (m *matcher) begin() int {
	m.skip()
	return m.pos
}

// done judges the place of an element whose last token was just matched.
func (m *matcher) done(e interface{}, x meta.Meta, first int) {
	if m.mark != nil {
		if msg := m.mark(e, x, first, m.last); msg != "" {
			m.fail("%s", msg)
		}
	}
}

// conserve returns "" if tree accounts for content, else what is wrong.
func conserve(tree *parser.Proto, content []byte) string {
	return conserveAt(tree, content, nil)
}

func conserveAt(tree *parser.Proto, content []byte, mark func(e interface{}, x meta.Meta, first, last int) string) (msg string) {
	m := &matcher{s: string([]rune(string(content))), comments: map[string]int{}, mark: mark}
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(conserveErr)
			if !ok {
				panic(p)
			}
			msg = e.msg
		}
	}()
	if tree == nil {
		return "no tree"
	}
	// A byte order mark goes unrecorded if it is the first token.
	m.skip()
	if strings.HasPrefix(m.s[m.pos:], "\ufeff") {
		m.pos += len("\ufeff")
	}
	m.proto(tree)
	inTree := map[string]int{}
	for _, c := range commentsOf(tree) {
		inTree[c.Raw]++
		if m.comments[c.Raw] < inTree[c.Raw] {
			m.fail("comment %q is in the tree %d times, in the content %d times", c.Raw, inTree[c.Raw], m.comments[c.Raw])
		}
	}
	return ""
}

func (m *matcher) fail(format string, a ...interface{}) {
	lo, hi := m.pos-30, m.pos+40
	if lo < 0 {
		lo = 0
	}
	if hi > len(m.s) {
		hi = len(m.s)
	}
	p := m.pos
	if p > len(m.s) {
		p = len(m.s)
	}
	panic(conserveErr{fmt.Sprintf(format, a...) + fmt.Sprintf(" (offset %d in %s, content %q | %q)", m.pos, m.where, m.s[lo:p], m.s[p:hi])})
}

// skip passes white space and comments.
func (m *matcher) skip() {
	for m.pos < len(m.s) {
		r, n := utf8.DecodeRuneInString(m.s[m.pos:])
		if unicode.IsSpace(r) {
			m.pos += n
			continue
		}
		if strings.HasPrefix(m.s[m.pos:], "//") {
			e := strings.IndexByte(m.s[m.pos:], '\n')
			if e < 0 {
				e = len(m.s) - m.pos
			}
			m.comments[m.s[m.pos:m.pos+e]]++
			m.pos += e
			continue
		}
		if strings.HasPrefix(m.s[m.pos:], "/*") {
			e := strings.Index(m.s[m.pos+2:], "*/")
			if e < 0 {
				return // not a comment
			}
			m.comments[m.s[m.pos:m.pos+e+4]]++
			m.pos += e + 4
			continue
		}
		return
	}
}

// nesting returns how deep brackets are nested in content.
func nesting(content []byte) int {
	m := &matcher{s: string([]rune(string(content))), comments: map[string]int{}}
	now, max := 0, 0
	for {
		m.skip()
		if m.pos >= len(m.s) {
			return max
		}
		switch c := m.s[m.pos]; c {
		case '{', '[', '(', '<':
			now++
			if now > max {
				max = now
			}
		case '}', ']', ')', '>':
			if now > 0 {
				now--
			}
		case '"', '\'':
			if e := literal(m.s, m.pos); e > m.pos {
				m.pos = e
				continue
			}
		}
		m.pos++
	}
}

func (m *matcher) at(tok string) bool {
	m.skip()
	if !strings.HasPrefix(m.s[m.pos:], tok) {
		return false
	}
	if tok != "" && isWordByte(tok[len(tok)-1]) {
		rest := m.s[m.pos+len(tok):]
		if rest != "" && isIdentByte(rest[0]) && isIdentByte(tok[0]) && !isDigit(tok[0]) {
			return false // only the beginning of a longer name
		}
		if rest != "" && isDigit(rest[0]) && isDigit(tok[0]) {
			return false // only the beginning of a longer number
		}
	}
	return true
}

func isDigit(b byte) bool     { return '0' <= b && b <= '9' }
func isIdentByte(b byte) bool { return isWordByte(b) && b < 0x80 }

func (m *matcher) tok(tok string) {
	if tok == "" {
		m.fail("the tree has an empty token")
	}
	if !m.at(tok) {
		m.fail("the tree says %q", tok)
	}
	m.last = m.pos
	m.pos += len(tok)
}

func (m *matcher) opt(tok string) bool {
	if m.at(tok) {
		m.pos += len(tok)
		return true
	}
	return false
}

// pieces matches a stored text that was put together from several tokens (names, dots, ...).
func (m *matcher) pieces(stored string) {
	if stored == "" {
		m.fail("the tree has an empty name")
	}
	for i := 0; i < len(stored); {
		j := i + 1
		if isIdentByte(stored[i]) {
			for j < len(stored) && isIdentByte(stored[j]) {
				j++
			}
		}
		m.tok(stored[i:j])
		i = j
	}
}

// literal returns the end of the string literal of s that begins at i, or -1.
func literal(s string, i int) int {
	if i >= len(s) || (s[i] != '"' && s[i] != '\'') {
		return -1
	}
	q := s[i]
	for j := i + 1; j < len(s); j++ {
		switch s[j] {
		case '\\':
			j++
		case '\n', 0:
			return -1
		case q:
			return j + 1
		}
	}
	return -1
}

// chars is the characters of a literal with the escapes of quotes taken away.
func chars(lit string) string {
	if len(lit) < 2 {
		return lit
	}
	lit = lit[1 : len(lit)-1]
	var b strings.Builder
	for i := 0; i < len(lit); i++ {
		if lit[i] == '\\' && i+1 < len(lit) {
			if lit[i+1] == '"' || lit[i+1] == '\'' {
				b.WriteByte(lit[i+1])
			} else {
				b.WriteByte(lit[i])
				b.WriteByte(lit[i+1])
			}
			i++
			continue
		}
		b.WriteByte(lit[i])
	}
	return b.String()
}

func (m *matcher) str(stored string) {
	m.skip()
	e := literal(m.s, m.pos)
	if e < 0 || m.s[m.pos:e] != stored {
		m.fail("the tree says string %q", stored)
	}
	m.pos = e
}

// joined matches one stored literal with one or several adjacent literals of the content.
func (m *matcher) joined(stored string) {
	m.skip()
	e := literal(m.s, m.pos)
	if e < 0 {
		m.fail("the tree says string %q", stored)
	}
	first := m.s[m.pos:e]
	m.pos = e
	parts := []string{first}
	for {
		m.skip()
		e := literal(m.s, m.pos)
		if e < 0 {
			break
		}
		parts = append(parts, m.s[m.pos:e])
		m.pos = e
	}
	if len(parts) == 1 {
		if first != stored {
			m.fail("the tree says string %q instead of %q", stored, first)
		}
		return
	}
	var want strings.Builder
	for _, p := range parts {
		want.WriteString(chars(p))
	}
	if literal(stored, 0) != len(stored) || chars(stored) != want.String() {
		m.fail("the tree says string %q for the literals %q", stored, parts)
	}
}

// constant matches a stored constant.
func (m *matcher) constant(stored string) {
	if strings.TrimSpace(stored) == "" {
		m.fail("the tree has an empty constant")
	}
	depth := 0
	for i := 0; i < len(stored); {
		c := stored[i]
		if c == '\n' || c == ' ' || c == '\t' {
			i++
			continue
		}
		if c == '"' || c == '\'' {
			e := literal(stored, i)
			if e < 0 {
				m.fail("the tree says constant %q", stored)
			}
			m.seps(depth, "")
			m.joined(stored[i:e])
			i = e
			continue
		}
		j := i + 1
		switch {
		case isDigit(c) || c == '.' && j < len(stored) && isDigit(stored[j]) && (i == 0 || !isIdentByte(stored[i-1])):
			// a number, up to the end of the number or name characters (and the sign of an exponent)
			for j < len(stored) {
				x := stored[j]
				if isIdentByte(x) || x == '.' {
					j++
					continue
				}
				if (x == '+' || x == '-') && (stored[j-1] == 'e' || stored[j-1] == 'E') && !strings.HasPrefix(stored[i:], "0x") && !strings.HasPrefix(stored[i:], "0X") {
					j++
					continue
				}
				break
			}
		case isIdentByte(c):
			for j < len(stored) && isIdentByte(stored[j]) {
				j++
			}
		}
		p := stored[i:j]
		m.seps(depth, p)
		if isDigit(p[0]) || p[0] == '.' && len(p) > 1 {
			m.number(p)
		} else {
			m.tok(p)
		}
		switch p {
		case "{", "[":
			depth++
		case "}", "]":
			depth--
		}
		i = j
	}
}

// number matches a number that may be glued to a following name in the stored text ("0b" for 0 b).
func (m *matcher) number(p string) {
	m.skip()
	for i := 0; i < len(p); {
		if i > 0 {
			m.skip()
		}
		n := 0
		for i+n < len(p) && m.pos+n < len(m.s) && p[i+n] == m.s[m.pos+n] {
			n++
		}
		if n == 0 {
			m.fail("the tree says number %q", p)
		}
		m.pos += n
		i += n
	}
	if m.pos < len(m.s) && isDigit(m.s[m.pos]) && isDigit(p[len(p)-1]) {
		m.fail("the tree says number %q", p)
	}
}

// seps passes separators of an aggregate that the tree does not record.
func (m *matcher) seps(depth int, next string) {
	if depth == 0 || next == "," || next == ";" {
		return
	}
	for m.at(",") || m.at(";") {
		m.pos++
	}
}

func (m *matcher) fieldOptions(n int, at func(i int) (string, string)) {
	if n == 0 {
		return
	}
	m.tok("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			m.tok(",")
		}
		name, constant := at(i)
		m.pieces(name)
		m.tok("=")
		m.constant(constant)
	}
	m.tok("]")
}

func (m *matcher) fopts(os []*parser.FieldOption) {
	m.fieldOptions(len(os), func(i int) (string, string) {
		if os[i] == nil {
			m.fail("nil field option")
		}
		return os[i].OptionName, os[i].Constant
	})
}

func (m *matcher) quoted(keyword, version, quote string) {
	m.tok(keyword)
	m.tok("=")
	if len(quote) != len(version)+2 || quote[1:len(quote)-1] != version {
		m.fail("the tree says %s %q and %q", keyword, version, quote)
	}
	m.tok(quote[:1])
	m.tok(version)
	m.tok(quote[len(quote)-1:])
	m.tok(";")
}

func (m *matcher) proto(p *parser.Proto) {
	m.where = "file"
	if p.Syntax != nil {
		b := m.begin()
		m.quoted("syntax", p.Syntax.ProtobufVersion, p.Syntax.ProtobufVersionQuote)
		m.done(p.Syntax, p.Syntax.Meta, b)
	}
	if p.Edition != nil {
		b := m.begin()
		m.quoted("edition", p.Edition.Edition, p.Edition.EditionQuote)
		m.done(p.Edition, p.Edition.Meta, b)
	}
	m.body(p.ProtoBody, "file")
	m.skip()
	if m.pos != len(m.s) {
		m.fail("content that the tree does not hold")
	}
}

func (m *matcher) body(els []parser.Visitee, where string) {
	for i, e := range els {
		m.where = fmt.Sprintf("%s element %d", where, i)
		m.element(e, els[i+1:])
	}
}

// blockEnd matches } and the one semicolon behind it that may go unrecorded. rest are the
// elements that follow in the same body.
func (m *matcher) blockEnd(rest []parser.Visitee) {
	m.tok("}")
	e := 0
	for _, r := range rest {
		if _, ok := r.(*parser.EmptyStatement); ok {
			e++
			continue
		}
		if _, ok := r.(*parser.Comment); ok {
			continue
		}
		break
	}
	save := m.pos
	saved := m.comments
	m.comments = map[string]int{}
	k := 0
	for m.opt(";") {
		k++
	}
	m.pos = save
	m.comments = saved
	if k == e+1 {
		m.tok(";")
	}
}

func (m *matcher) stars() {
	for m.opt(";") {
	}
}

func (m *matcher) ranges(rs []*parser.Range) {
	for i, r := range rs {
		if r == nil {
			m.fail("nil range")
		}
		if i > 0 {
			m.tok(",")
		}
		m.tok(r.Begin)
		if r.End != "" {
			m.tok("to")
			m.tok(r.End)
		}
	}
}

func (m *matcher) label(rep, req, opt bool) {
	n := 0
	if rep {
		m.tok("repeated")
		n++
	}
	if req {
		m.tok("required")
		n++
	}
	if opt {
		m.tok("optional")
		n++
	}
	if n > 1 {
		m.fail("several labels")
	}
}

func (m *matcher) element(e parser.Visitee, rest []parser.Visitee) {
	if isNilVisitee(e) {
		m.fail("the body holds a nil element")
	}
	if _, ok := e.(*parser.Comment); ok {
		return
	}
	b := m.begin()
	switch t := e.(type) {
	case *parser.EmptyStatement:
		m.tok(";")
	case *parser.Import:
		m.tok("import")
		switch t.Modifier {
		case parser.ImportModifierPublic:
			m.tok("public")
		case parser.ImportModifierWeak:
			m.tok("weak")
		case parser.ImportModifierNone:
		default:
			m.fail("import modifier %d", t.Modifier)
		}
		m.str(t.Location)
		m.tok(";")
	case *parser.Package:
		m.tok("package")
		m.pieces(t.Name)
		m.tok(";")
	case *parser.Option:
		m.option(t)
	case *parser.Message:
		m.tok("message")
		m.pieces(t.MessageName)
		m.tok("{")
		m.body(t.MessageBody, "message "+t.MessageName)
		m.blockEnd(rest)
	case *parser.GroupField:
		m.label(t.IsRepeated, t.IsRequired, t.IsOptional)
		m.tok("group")
		m.pieces(t.GroupName)
		m.tok("=")
		m.tok(t.FieldNumber)
		m.tok("{")
		m.body(t.MessageBody, "group "+t.GroupName)
		m.blockEnd(rest)
	case *parser.Enum:
		m.tok("enum")
		m.pieces(t.EnumName)
		m.tok("{")
		m.body(t.EnumBody, "enum "+t.EnumName)
		m.blockEnd(rest)
	case *parser.EnumField:
		m.pieces(t.Ident)
		m.tok("=")
		num := t.Number
		if strings.HasPrefix(num, "-") {
			m.tok("-")
			num = num[1:]
		}
		m.tok(num)
		m.fieldOptions(len(t.EnumValueOptions), func(i int) (string, string) {
			if t.EnumValueOptions[i] == nil {
				m.fail("nil enum value option")
			}
			return t.EnumValueOptions[i].OptionName, t.EnumValueOptions[i].Constant
		})
		m.tok(";")
	case *parser.Service:
		m.tok("service")
		m.pieces(t.ServiceName)
		m.tok("{")
		m.body(t.ServiceBody, "service "+t.ServiceName)
		m.blockEnd(rest)
	case *parser.RPC:
		m.rpc(t, rest)
	case *parser.Extend:
		m.tok("extend")
		m.pieces(t.MessageType)
		m.tok("{")
		m.body(t.ExtendBody, "extend "+t.MessageType)
		m.blockEnd(rest)
	case *parser.Field:
		m.label(t.IsRepeated, t.IsRequired, t.IsOptional)
		m.pieces(t.Type)
		m.pieces(t.FieldName)
		m.tok("=")
		m.tok(t.FieldNumber)
		m.fopts(t.FieldOptions)
		m.tok(";")
	case *parser.MapField:
		m.tok("map")
		m.tok("<")
		m.pieces(t.KeyType)
		m.tok(",")
		m.pieces(t.Type)
		m.tok(">")
		m.pieces(t.MapName)
		m.tok("=")
		m.tok(t.FieldNumber)
		m.fopts(t.FieldOptions)
		m.tok(";")
	case *parser.Oneof:
		m.oneof(t, rest)
	case *parser.Reserved:
		m.tok("reserved")
		if len(t.Ranges) > 0 && len(t.FieldNames) > 0 || len(t.Ranges)+len(t.FieldNames) == 0 {
			m.fail("reserved with %d ranges and %d names", len(t.Ranges), len(t.FieldNames))
		}
		m.ranges(t.Ranges)
		for i, n := range t.FieldNames {
			if i > 0 {
				m.opt(",")
			}
			if n != "" && (n[0] == '"' || n[0] == '\'') {
				m.str(n)
			} else {
				m.pieces(n)
			}
		}
		m.tok(";")
	case *parser.Extensions:
		m.tok("extensions")
		m.ranges(t.Ranges)
		if len(t.Declarations) > 0 {
			m.tok("[")
			for i, d := range t.Declarations {
				if i > 0 {
					m.tok(",")
				}
				m.declaration(d)
			}
			m.tok("]")
		}
		m.tok(";")
	default:
		m.fail("unexpected element %T", e)
	}
	var x meta.Meta
	if f := reflect.ValueOf(e).Elem().FieldByName("Meta"); f.IsValid() {
		x, _ = f.Interface().(meta.Meta)
	}
	m.done(e, x, b)
}

func (m *matcher) option(t *parser.Option) {
	if t == nil {
		m.fail("nil option")
	}
	m.tok("option")
	m.pieces(t.OptionName)
	m.tok("=")
	m.constant(t.Constant)
	m.tok(";")
}

// innerOption matches an option that is not an element of a body.
func (m *matcher) innerOption(t *parser.Option) {
	b := m.begin()
	m.option(t)
	m.done(t, t.Meta, b)
}

func (m *matcher) rpc(t *parser.RPC, rest []parser.Visitee) {
	m.tok("rpc")
	m.pieces(t.RPCName)
	if t.RPCRequest == nil || t.RPCResponse == nil {
		m.fail("rpc without request or response")
	}
	b := m.begin()
	m.tok("(")
	if t.RPCRequest.IsStream {
		m.tok("stream")
	}
	m.pieces(t.RPCRequest.MessageType)
	m.tok(")")
	m.done(t.RPCRequest, t.RPCRequest.Meta, b)
	m.tok("returns")
	b = m.begin()
	m.tok("(")
	if t.RPCResponse.IsStream {
		m.tok("stream")
	}
	m.pieces(t.RPCResponse.MessageType)
	m.tok(")")
	m.done(t.RPCResponse, t.RPCResponse.Meta, b)
	if m.opt("{") {
		for _, o := range t.Options {
			m.stars()
			m.innerOption(o)
		}
		m.stars()
		m.blockEnd(rest)
		return
	}
	if len(t.Options) > 0 {
		m.fail("rpc with options but without block")
	}
	m.tok(";")
}

func (m *matcher) oneof(t *parser.Oneof, rest []parser.Visitee) {
	m.tok("oneof")
	m.pieces(t.OneofName)
	m.tok("{")
	// fields and options are kept in two lists; each list is in source order
	fi, oi := 0, 0
	for fi < len(t.OneofFields) || oi < len(t.Options) {
		m.stars()
		takeOption := fi >= len(t.OneofFields)
		if !takeOption && oi < len(t.Options) {
			if t.Options[oi] == nil || t.OneofFields[fi] == nil {
				m.fail("nil in oneof")
			}
			takeOption = m.at("option")
		}
		if takeOption {
			m.innerOption(t.Options[oi])
			oi++
			continue
		}
		f := t.OneofFields[fi]
		if f == nil {
			m.fail("nil oneof field")
		}
		b := m.begin()
		m.pieces(f.Type)
		m.pieces(f.FieldName)
		m.tok("=")
		m.tok(f.FieldNumber)
		m.fopts(f.FieldOptions)
		m.tok(";")
		m.done(f, f.Meta, b)
		fi++
	}
	m.stars()
	m.blockEnd(rest)
}

func (m *matcher) declaration(d *parser.Declaration) {
	if d == nil {
		m.fail("nil declaration")
	}
	b := m.begin()
	m.tok("declaration")
	m.tok("=")
	m.tok("{")
	seen := map[string]bool{}
	for {
		m.opt(",")
		if m.at("}") {
			m.tok("}")
			break
		}
		key := ""
		for _, k := range []string{"number", "full_name", "type", "repeated", "reserved"} {
			if m.at(k) {
				key = k
			}
		}
		if key == "" || seen[key] {
			m.fail("declaration key that the tree cannot hold")
		}
		seen[key] = true
		m.tok(key)
		m.tok(":")
		switch key {
		case "number":
			m.tok(d.Number)
		case "full_name":
			m.str(d.FullName)
		case "type":
			m.str(d.Type)
		case "repeated":
			m.tok(fmt.Sprint(d.Repeated))
		case "reserved":
			m.tok(fmt.Sprint(d.Reserved))
		}
	}
	if !seen["number"] && d.Number != "" || !seen["full_name"] && d.FullName != "" || !seen["type"] && d.Type != "" || !seen["repeated"] && d.Repeated || !seen["reserved"] && d.Reserved {
		m.fail("the declaration holds what is not in the content")
	}
	m.done(d, d.Meta, b)
}

// commentsOf returns every comment reachable from v.
func commentsOf(v interface{}) []*parser.Comment {
	var out []*parser.Comment
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if c, ok := v.Interface().(*parser.Comment); ok {
				out = append(out, c)
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	sort.SliceStable(out, func(i, j int) bool { return out[i].Meta.Pos.Offset < out[j].Meta.Pos.Offset })
	return out
}
