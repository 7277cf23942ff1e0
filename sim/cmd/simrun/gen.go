package main

import (
	"fmt"
	"strings"
)

// generator writes files of the documented grammar (plus the permissive relaxations if it is
// told so), as a token list that is rendered with arbitrary white space and comments.
type generator struct {
	r      *rng
	strict bool
	toks   []string
	budget int
	depth  int
	maxDep int
	names  *[]string   // the names used so far
	opts   *[][]string // and the names of options

	// style
	comments int  // chance in percent of a comment at a token boundary
	inline   int  // chance of a comment behind ; { }
	loose    int  // chance of white space that is not needed
	pretty   bool // line breaks behind ; { }
	exotic   bool // unusual white space
	crlf     bool
	unicode  bool
	longTok  bool
	plainNm  bool
	few      int       // different names, if not 0
	fewNum   int       // different numbers, if not 0
	dense    bool      // several comments at a token boundary
	burst    int       // chance in percent of very many comments at one token boundary
	nums     *[]string // the numbers used so far
	stem     string    // a long word of which twins are used
}

func newGenerator(r *rng, strict bool) *generator {
	g := &generator{r: r, strict: strict, names: new([]string), opts: new([][]string), nums: new([]string)}
	r.focus = r.p(15)
	if r.p(10) {
		g.few = 1 + r.n(3)
	}
	if r.p(15) {
		g.fewNum = 1 + r.n(3)
	}
	g.dense = r.p(4)
	if r.p(4) {
		g.burst = 100
	}
	g.budget = []int{3, 8, 20, 50}[r.n(4)]
	if r.p(4) {
		g.budget = 250
	}
	g.maxDep = []int{1, 2, 3, 5}[r.n(4)]
	if r.p(2) {
		g.maxDep = 40
	}
	switch r.n(5) {
	case 0:
		g.comments, g.inline = 0, 0
	case 1:
		g.comments, g.inline = 2, 10
	case 2:
		g.comments, g.inline = 10, 40
	case 3:
		g.comments, g.inline = 30, 50
	default:
		g.comments, g.inline = 1, 30
	}
	g.loose = []int{0, 30, 70}[r.n(3)]
	g.pretty = r.p(80)
	g.exotic = r.p(15)
	g.crlf = r.p(15)
	g.unicode = r.p(40)
	g.longTok = r.p(4)
	g.plainNm = r.p(60)
	if r.p(7) {
		g.stem = genStem(r)
	}
	return g
}

// genStem makes a long word.
func genStem(r *rng) string {
	b := make([]byte, r.in(9, []int{20, 40, 70, 140, 280}[r.n(5)]))
	alphabet := r.pick("ab", "abcdefghijklmnopqrstuvwxyz", "aB_9", "x")
	for i := range b {
		b[i] = alphabet[r.n(len(alphabet))]
	}
	b[0] = 'T'
	return string(b)
}

// twin returns the long word, often with one byte of it exchanged. All twins are equally long.
func (g *generator) twin() string {
	b := []byte(g.stem)
	if g.r.p(75) {
		b[1+g.r.n(len(b)-1)] = "abcxyz_0189XYZ"[g.r.n(14)]
	}
	return string(b)
}

// genText makes the text of a file that Parse accepts in the given mode.
func genText(r *rng, strict bool) []byte {
	g := newGenerator(r, strict)
	g.file()
	return g.render()
}

func (g *generator) t(toks ...string) { g.toks = append(g.toks, toks...) }

var words = []string{"a", "b", "foo", "bar", "Name", "user_id", "Outer", "Inner", "x1", "_y", "value", "M", "E", "V2", "request", "Response", "ID", "some_field"}
var kwNames = []string{"message", "enum", "option", "service", "rpc", "returns", "stream", "syntax", "import", "package", "public", "weak", "map", "oneof", "reserved", "extensions", "extend", "repeated", "optional", "required", "group", "to", "max", "inf", "nan", "true", "false", "int32", "string", "bool", "number", "full_name", "type", "declaration", "edition", "double"}
var builtin = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var keyTypes = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

// ident makes a name; banned names are not used.
func (g *generator) ident(banned ...string) string {
	for {
		s := dictIdent(g.r)
		switch {
		case s != "":
		case g.stem != "" && g.r.p(30):
			s = g.twin()
		case g.few > 0 && len(*g.names) >= g.few && g.r.p(85):
			s = (*g.names)[g.r.n(g.few)]
		case len(*g.names) > 0 && g.r.p(8):
			s = (*g.names)[g.r.n(len(*g.names))]
		case len(*g.names) > 0 && g.r.p(4):
			s = near(g.r, (*g.names)[g.r.n(len(*g.names))])
		case g.r.p(2):
			s = near(g.r, words[g.r.n(len(words))])
		case g.r.p(2):
			s = words[g.r.n(len(words))] + strings.Repeat(g.r.pick("x", "ab", "_q9"), g.r.logn(100))
		case g.longTok && g.r.p(5):
			s = "L" + strings.Repeat("o", g.r.in(4000, 4200)) + "ng"
		case !g.plainNm && g.r.p(25):
			s = kwNames[g.r.n(len(kwNames))]
		case g.r.p(30):
			s = fmt.Sprintf("%s%d", words[g.r.n(len(words))], g.r.n(1000))
		default:
			s = words[g.r.n(len(words))]
		}
		ok := true
		for _, b := range banned {
			if s == b {
				ok = false
			}
		}
		if ok {
			if len(*g.names) < 64 {
				*g.names = append(*g.names, s)
			}
			return s
		}
	}
}

// near returns a name that is almost the same.
func near(r *rng, s string) string {
	if r.p(40) {
		if b := reshape(r, []byte(s)); isName(b) {
			return string(b)
		}
	}
	b := []byte(s)
	i := r.n(len(b))
	switch r.n(4) {
	case 0:
		b = append(b, byte('0'+r.n(10)))
	case 1:
		b = append(b[:i:i], append([]byte{'_'}, b[i:]...)...)
	default:
		c := "abcdefghijklmnopqrstuvwxyzABCXYZ_0189"[r.n(37)]
		if i == 0 && c >= '0' && c <= '9' {
			c = 'q'
		}
		b[i] = c
	}
	return string(b)
}

func (g *generator) dotted(banned ...string) {
	g.t(g.ident(banned...))
	for g.r.p(35) {
		g.t(".", g.ident())
	}
}

var stmtKeywords = []string{"enum", "message", "option", "oneof", "map", "extend", "reserved", "extensions", "repeated", "optional", "required", "group"}

// typ makes a field type. Its first name is not a statement keyword.
func (g *generator) typ() {
	if g.r.p(55) {
		g.t(builtin[g.r.n(len(builtin))])
		return
	}
	if g.r.p(4) {
		g.t("google", ".", "protobuf", ".", g.r.pick("Any", "Timestamp", "Empty", "Struct", "Int32Value"))
		return
	}
	if g.r.p(25) {
		g.t(".")
	}
	g.dotted(append(append([]string{}, stmtKeywords...), builtin...)...)
}

func (g *generator) intLit() string {
	if g.fewNum > 0 {
		if g.r.p(50) {
			return fmt.Sprint(1 + g.r.n(g.fewNum))
		}
		if n := len(*g.nums); n > 0 && g.r.p(60) {
			return (*g.nums)[g.r.n(n)]
		}
	}
	s := g.anyInt()
	*g.nums = append(*g.nums, s)
	return s
}

func (g *generator) anyInt() string {
	if g.r.p(4) {
		if m := magic(g.r, 200000); m > 0 {
			return fmt.Sprint(m)
		}
	}
	switch g.r.n(8) {
	case 0:
		return fmt.Sprintf("0x%X", g.r.n(1<<20))
	case 1:
		return fmt.Sprintf("0X%x", g.r.n(1<<10))
	case 2:
		return fmt.Sprintf("0%o", g.r.n(1<<10))
	case 3:
		return "0"
	case 4:
		return "536870911"
	}
	return fmt.Sprint(1 + g.r.n(5000))
}

func (g *generator) floatLit() string {
	return g.r.pick("1.5", ".5", "1.", "0.25", "1e5", "1E-7", "2.5e+10", "0e0", "inf", "nan", "12345678901234567890.5", ".0e1", "0.")
}

var textBits = []string{"a", "hello", " ", "x y", "//no comment", "/*", "*/", "{", "}", ";", "[", "]", "=", ",", "\t", "proto3", "/v1/{name=*}", "http://x/y?z=1", "%d", "^[a-z]+$", "1", "."}
var uniBits = []string{"é", "日本語", "😀", "\u00a0", "ß", "ключ", "\u2028", "\ufeff", "\u0301"}

// tinyLit returns a string literal of at most two characters, of any kind.
func (g *generator) tinyLit() string {
	q := g.r.pick("\"", "\"", "\"", "'")
	var b strings.Builder
	b.WriteString(q)
	for i := g.r.n(3); i > 0; i-- {
		c := byte(g.r.in(' ', '~'))
		switch {
		case c == q[0] || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteString(q)
	return b.String()
}

func (g *generator) strLit() string {
	if g.r.p(10) {
		return g.tinyLit()
	}
	q := g.r.pick("\"", "\"", "\"", "'")
	other := "'"
	if q == "'" {
		other = "\""
	}
	var b strings.Builder
	b.WriteString(q)
	n := g.r.n(5)
	if g.longTok && g.r.p(10) {
		b.WriteString(strings.Repeat("s", g.r.in(4080, 4110)))
	}
	if g.stem != "" && g.r.p(50) {
		b.WriteString(g.twin())
		n = 0
	}
	if w := dictText(g.r); w != "" && !strings.ContainsAny(w, "\n\\\"'\x00") {
		b.WriteString(w)
		n = g.r.n(2) * n
	}
	for i := 0; i < n; i++ {
		switch g.r.n(8) {
		case 0:
			b.WriteString(g.r.pick("\\n", "\\t", "\\\\", "\\\"", "\\'", "\\x41", "\\X4", "\\101", "\\7", "\\a", "\\r", "\\q", "\\u00e9"))
		case 1:
			b.WriteString(other)
		case 2:
			if g.unicode {
				b.WriteString(uniBits[g.r.n(len(uniBits))])
			}
		default:
			b.WriteString(textBits[g.r.n(len(textBits))])
		}
	}
	b.WriteString(q)
	return b.String()
}

func (g *generator) constant(depth int) {
	k := g.r.n(12)
	if !g.strict && depth < 4 {
		if k == 0 {
			g.aggregate(depth + 1)
			return
		}
		if k == 1 {
			g.t("[")
			n := g.r.n(4)
			for i := 0; i < n; i++ {
				if i > 0 {
					g.t(",")
				}
				g.constant(depth + 1)
			}
			g.t("]")
			return
		}
	}
	switch k {
	case 2, 3:
		g.t(g.r.pick("true", "false"))
	case 4:
		if g.r.p(30) {
			g.t(g.r.pick("-", "+"))
		}
		g.t(g.intLit())
	case 5:
		if g.r.p(30) {
			g.t(g.r.pick("-", "+"))
		}
		g.t(g.floatLit())
	case 6, 7:
		g.dotted("true", "false", "inf", "nan")
	default:
		g.t(g.strLit())
		if !g.strict {
			tiny := g.r.p(40)
			for g.r.p(20) || tiny && g.r.p(60) {
				if tiny {
					g.t(g.tinyLit())
				} else {
					g.t(g.strLit())
				}
			}
		}
	}
}

func (g *generator) aggregate(depth int) {
	g.t("{")
	n := g.r.n(4)
	if depth > 3 && n > 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.t(g.ident())
		if g.r.p(20) {
			if g.r.p(30) {
				g.t("{", "}")
			} else {
				g.aggregate(depth + 1)
			}
		} else {
			g.t(":")
			g.constant(depth)
		}
		switch g.r.n(4) {
		case 0:
			g.t(",")
		case 1:
			g.t(";")
		case 2:
			if i < n-1 {
				g.t(",")
			}
		}
	}
	g.t("}")
}

// wellKnown are the options of descriptor.proto.
var wellKnown = []string{"deprecated", "deprecated", "packed", "json_name", "default", "lazy", "ctype", "jstype", "java_package", "go_package", "optimize_for", "allow_alias", "map_entry", "java_multiple_files", "cc_enable_arenas", "message_set_wire_format", "debug_redact", "retention", "idempotency_level", "deprecated_legacy_json_field_conflicts", "objc_class_prefix", "weak"}

var customOptions = [][]string{
	{"(", "google", ".", "api", ".", "http", ")"},
	{"(", "google", ".", "api", ".", "field_behavior", ")"},
	{"(", "validate", ".", "rules", ")", ".", "string", ".", "min_len"},
	{"(", "buf", ".", "validate", ".", "field", ")", ".", "cel"},
	{"(", "gogoproto", ".", "customname", ")"},
	{"(", "grpc", ".", "gateway", ".", "protoc_gen_openapiv2", ".", "options", ".", "openapiv2_operation", ")"},
	{"(", "com", ".", "example", ".", "company", ".", "annotations", ".", "sensitive_data_classification", ")"},
}

func (g *generator) optionName() {
	if g.r.p(8) {
		o := append([]string(nil), customOptions[g.r.n(len(customOptions))]...)
		i := len(o) - 2
		switch g.r.n(4) {
		case 0:
			o[i] = g.ident()
		case 1:
			b := []byte(o[i])
			if c := &b[len(b)-1]; isIdentTok(o[i]) {
				*c = 'a' + byte(g.r.n(26))
			}
			o[i] = string(b)
		}
		g.t(o...)
		return
	}
	if g.r.p(25) {
		g.t(wellKnown[g.r.n(len(wellKnown))])
		return
	}
	begin := len(g.toks)
	defer func() {
		if len(*g.opts) < 32 {
			*g.opts = append(*g.opts, append([]string(nil), g.toks[begin:]...))
		}
	}()
	part := func() {
		if g.r.p(40) {
			g.t("(")
			if !g.strict && g.r.p(20) {
				g.t(".")
			}
			g.dotted()
			g.t(")")
		} else {
			g.t(g.ident())
		}
	}
	if n := len(*g.opts); n > 0 && g.r.p(20) { // one of the last names again, or as the first part
		g.t((*g.opts)[n-1-g.r.logn(n)%n]...)
		if g.r.p(30) {
			return
		}
		g.t(".")
	}
	part()
	for g.r.p(25) {
		g.t(".")
		part()
	}
}

func (g *generator) option() {
	g.t("option")
	g.optionName()
	g.t("=")
	g.constant(0)
	g.t(";")
}

func (g *generator) fieldOptions() {
	if !g.r.p(30) {
		return
	}
	g.t("[")
	n := 1 + g.r.n(3)
	if g.r.p(3) {
		n = 20
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.optionName()
		g.t("=")
		g.constant(0)
	}
	g.t("]")
}

// empties makes an empty statement or some.
func (g *generator) empties() {
	g.t(";")
	for g.r.p(30) {
		g.t(";")
	}
}

func (g *generator) field() {
	if g.r.p(40) {
		g.t(g.r.pick("repeated", "optional", "required"))
	}
	g.typ()
	g.t(g.ident(), "=", g.intLit())
	g.fieldOptions()
	g.t(";")
}

func (g *generator) mapField() {
	g.t("map", "<", keyTypes[g.r.n(len(keyTypes))], ",")
	g.typ()
	g.t(">", g.ident(), "=", g.intLit())
	g.fieldOptions()
	g.t(";")
}

func (g *generator) oneof() {
	g.t("oneof", g.ident(), "{")
	n := 1 + g.r.n(4)
	for i := 0; i < n; i++ {
		for g.r.p(10) {
			g.t(";")
		}
		if g.r.p(20) {
			g.option()
		} else {
			g.oneofField()
		}
	}
	g.t("}")
	g.afterBlock()
}

func (g *generator) oneofField() {
	if g.r.p(50) {
		g.t(builtin[g.r.n(len(builtin))])
	} else {
		if g.r.p(25) {
			g.t(".")
		}
		g.dotted(append([]string{"option"}, builtin...)...)
	}
	g.t(g.ident(), "=", g.intLit())
	g.fieldOptions()
	g.t(";")
}

func (g *generator) afterBlock() {
	if g.r.p(12) {
		g.t(";")
	}
}

func (g *generator) ranges() {
	n := 1 + g.r.n(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.t(g.intLit())
		if g.r.p(40) {
			g.t("to")
			if g.r.p(40) {
				g.t("max")
			} else {
				g.t(g.intLit())
			}
		}
	}
}

func (g *generator) reserved() {
	g.t("reserved")
	if g.r.p(50) {
		g.ranges()
	} else {
		n := 1 + g.r.n(4)
		for i := 0; i < n; i++ {
			if i > 0 && g.r.p(75) {
				g.t(",")
			}
			if g.r.p(70) {
				g.t(g.strLit())
			} else {
				g.t(g.ident())
			}
		}
	}
	g.t(";")
}

func (g *generator) extensions() {
	g.t("extensions")
	g.ranges()
	if g.r.p(35) {
		g.t("[")
		n := 1 + g.r.n(3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.t(",")
			}
			g.t("declaration", "=", "{")
			keys := []string{"number", "full_name", "type", "repeated", "reserved"}
			for j := range keys {
				k := j + g.r.n(len(keys)-j)
				keys[j], keys[k] = keys[k], keys[j]
			}
			keys = keys[:g.r.n(len(keys)+1)]
			for j, k := range keys {
				if j > 0 && g.r.p(85) {
					g.t(",")
				}
				g.t(k, ":")
				switch k {
				case "number":
					g.t(g.intLit())
				case "full_name", "type":
					g.t(g.strLit())
				default:
					g.t(g.r.pick("true", "false"))
				}
			}
			g.t("}")
		}
		g.t("]")
	}
	g.t(";")
}

func (g *generator) group() {
	if g.r.p(80) {
		g.t(g.r.pick("repeated", "optional", "required"))
	}
	g.t("group", "G"+g.ident(), "=", g.intLit())
	g.messageBody()
}

func (g *generator) message() {
	g.t("message", g.ident())
	g.messageBody()
}

func (g *generator) count() int {
	if g.budget <= 0 {
		return 0
	}
	n := g.r.n(6)
	if g.r.p(3) {
		n = 30
	}
	return n
}

// favourite returns the kind of n that most statements of a body have, or -1.
func (g *generator) favourite(n int) int {
	if g.r.p(15) {
		return g.r.n(n)
	}
	return -1
}

// kind returns a kind of n, with a preference.
func (g *generator) kind(n, fav int) int {
	if fav >= 0 && g.r.p(75) {
		return fav
	}
	return g.r.n(n)
}

func (g *generator) messageBody() {
	g.t("{")
	g.depth++
	n := g.count()
	fav := g.favourite(22)
	if g.maxDep > 10 && g.depth < g.maxDep && g.r.p(90) {
		g.message()
	}
	for i := 0; i < n && g.budget > 0; i++ {
		g.budget--
		k := g.kind(22, fav)
		if g.depth >= g.maxDep && (k == 8 || k == 9 || k == 10 || k == 11) {
			k = 0
		}
		switch k {
		case 8:
			g.message()
		case 9:
			g.enum()
		case 10:
			g.group()
		case 11:
			g.extend()
		case 12, 13:
			g.mapField()
		case 14, 15:
			g.oneof()
		case 16:
			g.reserved()
		case 17:
			g.extensions()
		case 18, 19:
			g.option()
		case 20:
			g.empties()
		default:
			g.field()
		}
	}
	g.depth--
	g.t("}")
	g.afterBlock()
}

func (g *generator) enum() {
	g.t("enum", g.ident(), "{")
	n, fav := g.count(), g.favourite(3)
	for i := 0; i < n; i++ {
		g.budget--
		switch g.kind(10, fav) {
		case 0:
			g.option()
		case 1:
			g.reserved()
		case 2:
			g.empties()
		default:
			g.enumField()
		}
	}
	g.t("}")
	g.afterBlock()
}

func (g *generator) enumField() {
	g.t(g.ident("option", "reserved"), "=")
	if g.r.p(20) {
		g.t("-")
	}
	g.t(g.intLit())
	g.fieldOptions()
	g.t(";")
}

func (g *generator) extend() {
	g.t("extend")
	if g.r.p(25) {
		g.t(".")
	}
	g.dotted()
	g.t("{")
	n := g.count()
	for i := 0; i < n; i++ {
		g.budget--
		if g.r.p(15) {
			g.empties()
		} else {
			g.field()
		}
	}
	g.t("}")
	g.afterBlock()
}

func (g *generator) service() {
	g.t("service", g.ident(), "{")
	n := g.count()
	for i := 0; i < n; i++ {
		g.budget--
		switch g.r.n(8) {
		case 0:
			g.option()
		case 1:
			g.empties()
		default:
			g.rpc()
		}
	}
	g.t("}")
	g.afterBlock()
}

func (g *generator) rpc() {
	g.t("rpc", g.ident())
	io := func() {
		g.t("(")
		if g.r.p(30) {
			g.t("stream")
		}
		if g.r.p(25) {
			g.t(".")
		}
		g.dotted("stream")
		g.t(")")
	}
	io()
	g.t("returns")
	io()
	if g.r.p(50) {
		g.t(";")
		return
	}
	g.t("{")
	m := g.r.n(4)
	for j := 0; j < m; j++ {
		if g.r.p(20) {
			g.empties()
		} else {
			g.option()
		}
	}
	g.t("}")
	g.afterBlock()
}

func (g *generator) file() {
	if g.r.p(6) {
		g.t("\ufeff")
	}
	switch g.r.n(8) {
	case 0:
	case 1:
		g.t("edition", "=", g.r.pick("\"2023\"", "'2024'"), ";")
	case 2:
		if g.r.p(40) {
			g.t("syntax", "=", "\"proto2\"", ";", "edition", "=", "\"2023\"", ";")
			break
		}
		fallthrough
	default:
		g.t("syntax", "=", g.r.pick("\"proto3\"", "\"proto2\"", "'proto3'", "'proto2'"), ";")
	}
	n := 1 + g.r.n(6)
	if g.r.p(5) {
		n = 0
	}
	if g.r.p(5) {
		n = 25
	}
	fav := g.favourite(13)
	for i := 0; i < n && g.budget > 0; i++ {
		g.budget--
		switch g.kind(14, fav) {
		case 0:
			g.t("import")
			if g.r.p(40) {
				g.t(g.r.pick("public", "weak"))
			}
			if g.r.p(30) {
				g.t(g.r.pick("\"google/protobuf/any.proto\"", "'google/protobuf/descriptor.proto'", "\"a/b.proto\""), ";")
			} else {
				g.t(g.strLit(), ";")
			}
		case 1:
			g.t("package")
			g.dotted()
			g.t(";")
		case 2, 3:
			g.option()
		case 4, 5, 6, 7:
			g.message()
		case 8:
			g.enum()
		case 9, 10:
			g.service()
		case 11:
			g.extend()
		case 12:
			g.empties()
		default:
			g.message()
		}
	}
}

func (g *generator) nl() string {
	if g.crlf {
		return "\r\n"
	}
	return "\n"
}

func (g *generator) ws() string {
	if g.exotic && g.r.p(30) {
		return g.r.pick("\t", "\v", "\f", "\r", "\u0085", "\u00a0", "\u2003", "\u3000", " \t ", "\n\n")
	}
	if g.r.p(15) {
		return g.nl()
	}
	if g.r.p(10) {
		return "  "
	}
	return " "
}

var commentBits = []string{"c", "note", "TODO: x", "message Fake { }", "\"", "'", "/*", "//", "* *", "a;b", "{", "}", "http://x", "", "=", "@deprecated", "\\"}

func (g *generator) commentText() string {
	s := commentBits[g.r.n(len(commentBits))]
	if w := dictText(g.r); w != "" && !strings.ContainsAny(w, "\n\x00") && !strings.Contains(w, "*/") {
		s = w
		if g.r.p(50) {
			return s
		}
	}
	if g.stem != "" && g.r.p(50) {
		return g.twin()
	}
	if g.unicode && g.r.p(30) {
		s += uniBits[g.r.n(len(uniBits))]
	}
	if g.r.p(20) {
		s += fmt.Sprintf(" %d", g.r.n(100))
	}
	if g.longTok && g.r.p(10) {
		s += strings.Repeat("-", g.r.in(4000, 4200))
		if g.r.p(60) {
			s += g.r.pick("\t", "é", "\t-\t", " x", "\\", "😀", "\"")
		}
	}
	return s
}

func (g *generator) comment() string {
	s := g.commentText()
	switch g.r.n(5) {
	case 0, 1:
		return "//" + s + g.nl()
	case 2:
		return "/*" + strings.ReplaceAll(s, "*/", "* /") + "*/"
	case 3:
		return "/**" + g.nl() + " * " + strings.ReplaceAll(s, "*/", "") + g.nl() + " */"
	}
	return "/* " + strings.ReplaceAll(s, "*/", "") + " */"
}

func needSep(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	return (isWordByte(x) || x == '.') && (isWordByte(y) || y == '.') && !(isIdentTok(a) && b == ".") && !(a == "." && isIdentTok(b))
}

func isIdentTok(s string) bool {
	c := s[0]
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// crowded returns the index of the token in front of which very many comments stand, or -1.
func (g *generator) crowded() int {
	if g.burst == 0 || !g.r.p(g.burst) || len(g.toks) == 0 {
		return -1
	}
	i := 1 + g.r.n(len(g.toks))
	if g.r.p(50) { // inside the head of an rpc, if there is one
		for j := range g.toks {
			k := (i + j) % len(g.toks)
			if g.toks[k] == "returns" {
				return k + g.r.in(-4, 4)
			}
		}
	}
	return i
}

func (g *generator) render() []byte {
	var b strings.Builder
	indent := 0
	line := true // at the beginning of a line
	prev := ""
	crowded := g.crowded()
	for i, t := range g.toks {
		if t == "\ufeff" && i == 0 {
			b.WriteString(t)
			continue
		}
		if t == "}" && indent > 0 {
			indent--
		}
		if line && g.pretty && b.Len() > 0 {
			b.WriteString(strings.Repeat("  ", indent))
		}
		sep := needSep(prev, t)
		done := false
		crowd := 0
		if i == crowded {
			crowd = g.r.in(10, 120)
		}
		for crowd > 0 || g.r.n(100) < g.comments {
			crowd--
			c := g.comment()
			if prev != "" && !line && (sep || g.r.p(50)) {
				b.WriteString(g.ws())
			}
			b.WriteString(c)
			done = true
			if g.r.p(50) {
				b.WriteString(g.ws())
			}
			if crowd <= 0 && g.r.p(50) && !(g.dense && g.r.p(75)) {
				break
			}
		}
		if !done && !line && prev != "" && (sep || g.r.n(100) < g.loose) {
			b.WriteString(g.ws())
		} else if sep && !done && !(line && g.pretty) {
			b.WriteString(" ")
		}
		line = false
		b.WriteString(t)
		prev = t
		if t == "{" {
			indent++
		}
		if t == ";" || t == "{" || t == "}" {
			if g.r.n(100) < g.inline {
				if g.r.p(60) {
					b.WriteString(" ")
				}
				c := g.comment()
				b.WriteString(c)
				if strings.HasSuffix(c, "\n") {
					line = true
					prev = ""
					continue
				}
			}
			if g.pretty && g.r.p(92) {
				b.WriteString(g.nl())
				if g.r.p(10) {
					b.WriteString(g.nl())
				}
				line = true
				prev = ""
			}
		}
	}
	if g.r.n(100) < g.comments+5 {
		c := g.comment()
		if g.r.p(50) {
			c = strings.TrimSuffix(strings.TrimSuffix(c, "\n"), "\r")
		}
		b.WriteString(c)
	}
	if g.r.p(10) {
		s := b.String()
		return []byte(strings.TrimRight(s, " \t\r\n"))
	}
	return []byte(b.String())
}
