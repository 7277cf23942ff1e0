package main

import (
	"bytes"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func init() {
	register(&property{id: "C17", gen: genC17, run: runC17})
	register(&property{id: "C18", gen: genC18, run: runC18})
}

// --- C17 -----------------------------------------------------------------------------------

// A case of C17 holds pieces: texts of whole declarations (records). Each call is a file that
// has some of them, possibly lost, repeated or in another order: the operations with At equal
// to the number of the call name the pieces in order N is the piece, Mode "line" puts it on the line of
// the one before if there is no comment in between.

const header = "syntax = \"proto2\";\n"

// wrapper puts records into a body and finds them there.
type wrapper struct {
	pre, post string
	gen       func(g *generator)
	get       func(p *parser.Proto) interface{} // the list of elements, nil if there is anything else
}

func only(p *parser.Proto) parser.Visitee {
	if len(p.ProtoBody) != 1 {
		return nil
	}
	return p.ProtoBody[0]
}

func messageStatement(g *generator) {
	switch g.r.n(12) {
	case 0:
		g.message()
	case 1:
		g.enum()
	case 2:
		g.group()
	case 3:
		g.extend()
	case 4:
		g.mapField()
	case 5:
		g.oneof()
	case 6:
		g.reserved()
	case 7:
		g.extensions()
	case 8:
		g.option()
	default:
		g.field()
	}
}

var wrappers = map[string]wrapper{
	"file": {"", "", func(g *generator) {
		switch g.r.n(9) {
		case 0:
			g.t("import")
			if g.r.p(40) {
				g.t(g.r.pick("public", "weak"))
			}
			g.t(g.strLit(), ";")
		case 1:
			g.t("package")
			g.dotted()
			g.t(";")
		case 2:
			g.option()
		case 3:
			g.enum()
		case 4, 5:
			g.service()
		case 6:
			g.extend()
		default:
			g.message()
		}
	}, func(p *parser.Proto) interface{} { return p.ProtoBody }},
	"message": {"message W {\n", "\n}\n", messageStatement, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Message); ok {
			return m.MessageBody
		}
		return nil
	}},
	"inner": {"message W {\nmessage W {\n", "\n}\n}\n", messageStatement, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Message); ok && len(m.MessageBody) == 1 {
			if n, ok := m.MessageBody[0].(*parser.Message); ok {
				return n.MessageBody
			}
		}
		return nil
	}},
	"group": {"message W {\noptional group W = 1 {\n", "\n}\n}\n", messageStatement, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Message); ok && len(m.MessageBody) == 1 {
			if n, ok := m.MessageBody[0].(*parser.GroupField); ok {
				return n.MessageBody
			}
		}
		return nil
	}},
	"enum": {"enum W {\n", "\n}\n", func(g *generator) {
		switch g.r.n(6) {
		case 0:
			g.option()
		case 1:
			g.reserved()
		default:
			g.enumField()
		}
	}, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Enum); ok {
			return m.EnumBody
		}
		return nil
	}},
	"service": {"service W {\n", "\n}\n", func(g *generator) {
		if g.r.p(25) {
			g.option()
		} else {
			g.rpc()
		}
	}, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Service); ok {
			return m.ServiceBody
		}
		return nil
	}},
	"extend": {"extend W {\n", "\n}\n", func(g *generator) { g.field() }, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Extend); ok {
			return m.ExtendBody
		}
		return nil
	}},
	"oneof options": {"message W {\noneof W {\n", "\nint32 w = 1;\n}\n}\n", func(g *generator) { g.option() }, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Message); ok && len(m.MessageBody) == 1 {
			if n, ok := m.MessageBody[0].(*parser.Oneof); ok && len(n.OneofFields) == 1 {
				return n.Options
			}
		}
		return nil
	}},
	"oneof": {"message W {\noneof W {\n", "\n}\n}\n", func(g *generator) { g.oneofField() }, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Message); ok && len(m.MessageBody) == 1 {
			if n, ok := m.MessageBody[0].(*parser.Oneof); ok && len(n.Options) == 0 {
				return n.OneofFields
			}
		}
		return nil
	}},
	"rpc": {"service W {\nrpc W (W) returns (W) {\n", "\n}\n}\n", func(g *generator) { g.option() }, func(p *parser.Proto) interface{} {
		if m, ok := only(p).(*parser.Service); ok && len(m.ServiceBody) == 1 {
			if n, ok := m.ServiceBody[0].(*parser.RPC); ok {
				return n.Options
			}
		}
		return nil
	}},
}

var wrapperNames = []string{"file", "file", "file", "message", "message", "inner", "group", "enum", "service", "extend", "oneof", "oneof options", "rpc"}

func genC17(r *rng, _ bool) *Case {
	c := &Case{Prop: "C17", Mode: wrapperNames[r.n(len(wrapperNames))]}
	w := wrappers[c.Mode]
	strict := r.p(30)
	n := r.in(2, 5)
	names, opts := new([]string), new([][]string)
	stem := ""
	if r.p(15) {
		stem = genStem(r)
	}
	for i := 0; i < n; i++ {
		g := newGenerator(r, strict)
		if stem != "" {
			g.stem = stem
		}
		if g.budget > 20 {
			g.budget = 20
		}
		g.names, g.opts = names, opts
		w.gen(g)
		c.Texts = append(c.Texts, g.render())
	}
	o := genOpts(r, strict)
	lines := []int{0, 0, 50, 100}[r.n(4)]
	add := func(order []int) {
		k := Call{Kind: "parse", Opts: o}
		size := 0
		for _, j := range order {
			op := Op{Do: "record", At: len(c.Calls), N: j}
			if r.p(lines) {
				op.Mode = "line"
			}
			c.Ops = append(c.Ops, op)
			size += len(c.Texts[j])
		}
		if r.p(40) {
			k.Delivery = genDelivery(r, make([]byte, size+40))
		}
		c.Calls = append(c.Calls, k)
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	add(all)
	for m := r.in(1, 4); m > 0; m-- {
		o := append([]int(nil), all...)
		for f := r.in(1, 3); f > 0; f-- {
			i, j := r.n(len(o)+1), r.n(len(o)+1)
			switch r.n(4) {
			case 0: // lost
				if i < len(o) && len(o) > 1 {
					o = append(o[:i], o[i+1:]...)
				}
			case 1: // repeated somewhere
				if i < len(o) {
					x := o[i]
					o = append(o[:j:j], append([]int{x}, o[j:]...)...)
				}
			case 2: // exchanged
				if i < len(o) && j < len(o) {
					o[i], o[j] = o[j], o[i]
				}
			default: // repeated many times in place
				if i < len(o) && r.p(30) {
					k := r.logn(200)
					if m := magic(r, 3000); m > 0 && r.p(50) {
						k = m
					}
					if k*len(c.Texts[o[i]]) > 100000 {
						k = 2
					}
					rep := make([]int, k)
					for q := range rep {
						rep[q] = o[i]
					}
					o = append(o[:i:i], append(rep, o[i:]...)...)
				}
			}
		}
		add(o)
	}
	return c
}

// whole tells whether the text is one or more whole declarations with nothing loose around them:
// balanced, ended by ; or } and at most a comment on the same line, and not begun with a ; that
// could belong to what stands in front.
func whole(b []byte) bool {
	ok, _ := wholeUntil(b)
	return ok
}

// wholeUntil also returns where the last token ends if nothing but white space is behind it,
// otherwise 0.
func wholeUntil(b []byte) (bool, int) {
	if !utf8.Valid(b) || bytes.IndexByte(b, 0) >= 0 {
		return false, 0
	}
	m := &matcher{s: string(b), comments: map[string]int{}}
	depth, first := 0, true
	last := byte(0)
	end := 0
	for {
		m.skip()
		if m.pos >= len(b) {
			break
		}
		if strings.HasPrefix(m.s[m.pos:], "/*") {
			return false, 0
		}
		last = b[m.pos]
		e := m.pos + 1
		switch last {
		case ';':
			if first {
				return false, 0
			}
		case '{':
			depth++
		case '}':
			if depth--; depth < 0 {
				return false, 0
			}
		case '"', '\'':
			if e = literal(m.s, m.pos); e <= 0 {
				return false, 0
			}
		}
		first = false
		m.pos = e
		end = e
	}
	if depth != 0 || last != ';' && last != '}' {
		return false, 0
	}
	tail := strings.TrimLeft(m.s[end:], " \t")
	if strings.TrimSpace(tail) == "" {
		return true, end
	}
	// one comment that starts on this line
	switch {
	case strings.HasPrefix(tail, "//"):
		i := strings.IndexByte(tail, '\n')
		return i < 0 || strings.TrimSpace(tail[i:]) == "", 0
	case strings.HasPrefix(tail, "/*"):
		i := indexFrom(tail, "*/", 2)
		return i >= 0 && strings.TrimSpace(tail[i+2:]) == "", 0
	}
	return false, 0
}

type record struct {
	els   []interface{}
	tail  string // a comment behind the last one
	valid bool
}

func elements(list interface{}) []interface{} {
	v := reflect.ValueOf(list)
	if v.Kind() != reflect.Slice {
		return nil
	}
	out := []interface{}{}
	for i := 0; i < v.Len(); i++ {
		out = append(out, v.Index(i).Interface())
	}
	return out
}

func runC17(c *Case) *Violation {
	w, ok := wrappers[c.Mode]
	if !ok {
		return nil
	}
	pre := header + w.pre
	alone := map[string]map[int]*record{}
	single := func(o Opts, j int) *record {
		id := dump(o)
		if alone[id] == nil {
			alone[id] = map[int]*record{}
		}
		if x := alone[id][j]; x != nil {
			return x
		}
		x := &record{}
		alone[id][j] = x
		b := []byte(c.Texts[j])
		if !whole(b) {
			return x
		}
		out := parseSolo([]byte(pre+string(b)+"\n"+w.post), o, plain, nil, 0)
		if !out.ok() || out.tree.Edition != nil || out.tree.Syntax == nil {
			return x
		}
		x.els = elements(w.get(out.tree))
		x.valid = len(x.els) > 0
		return x
	}
	for i := range c.Calls {
		k := &c.Calls[i]
		type want struct {
			el interface{}
			by shift
		}
		var wants []want
		data := []byte(pre)
		line0 := bytes.Count(data, []byte("\n"))
		skip, n := false, 0
		bare := 0 // length of the data without the white space behind the last record
		for _, op := range c.Ops {
			if op.At != i || op.N < 0 || op.N >= len(c.Texts) {
				continue
			}
			x := single(k.Opts, op.N)
			if !x.valid {
				skip = true
				break
			}
			b := []byte(c.Texts[op.N])
			by := shift{only: line0 + 1}
			if op.Mode == "line" && bare > 0 && n > 0 && !strings.HasPrefix(strings.TrimSpace(string(b)), "/") {
				data = append(data[:bare], ' ')
				by.col = utf8.RuneCount(data[bytes.LastIndexByte(data, '\n')+1:])
			}
			by.off, by.line = len(data)-len(pre), bytes.Count(data, []byte("\n"))-line0
			for _, e := range x.els {
				wants = append(wants, want{e, by})
			}
			if _, bare = wholeUntil(b); bare > 0 {
				bare += len(data)
			}
			data = append(append(data, b...), '\n')
			n++
		}
		if skip || n == 0 {
			continue
		}
		data = append(data, w.post...)
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		got.account(data)
		nontrivial = true
		if i > 0 {
			st.fault("records lost, repeated or exchanged")
		}
		if !got.ok() {
			return violf("rejected", "call %d: %d declarations that are accepted one by one are rejected together (in a %s): %s", i, n, c.Mode, got.short())
		}
		els := elements(w.get(got.tree))
		if len(els) != len(wants) {
			return violf("number", "call %d: %d elements instead of %d (in a %s)", i, len(els), len(wants), c.Mode)
		}
		for j, x := range wants {
			a, b := dumpShifted(x.el, x.by), dumpShifted(els[j], shift{})
			if a != b {
				return violf("influenced", "call %d: element %d of %d (in a %s) is not what it is alone: %s", i, j, len(els), c.Mode, firstDiff(a, b))
			}
		}
	}
	return nil
}

// --- C18 -----------------------------------------------------------------------------------

func genC18(r *rng, _ bool) *Case {
	c := &Case{Prop: "C18"}
	strict := r.p(30)
	text := genBase(r, strict)
	c.Texts = []Blob{text}
	var other []byte
	if r.p(30) {
		other = genSmall(r, strict, 300)
	}
	o := genOpts(r, strict)
	for i := 0; i < 8; i++ {
		k := Call{Kind: "parse", Opts: o}
		if r.p(50) {
			k.Faults = genFaults(r, text, other)
		} else {
			k.Faults = genSoftFaults(r, text)
		}
		if r.p(30) {
			k.Delivery = genDelivery(r, applyFaults(text, k.Faults))
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func startOf(v interface{}) int {
	e := reflect.ValueOf(v)
	if e.Kind() != reflect.Ptr || e.IsNil() {
		return -1
	}
	f := e.Elem().FieldByName("Meta")
	if !f.IsValid() {
		return -1
	}
	p := f.FieldByName("Pos")
	if !p.IsValid() || p.FieldByName("Line").Int() == 0 {
		return -1
	}
	return int(p.FieldByName("Offset").Int())
}

func endOf(v interface{}) int {
	e := reflect.ValueOf(v)
	if e.Kind() != reflect.Ptr || e.IsNil() {
		return -1
	}
	f := e.Elem().FieldByName("Meta")
	if !f.IsValid() {
		return -1
	}
	p := f.FieldByName("LastPos")
	if !p.IsValid() || p.FieldByName("Line").Int() == 0 {
		return -1
	}
	return int(p.FieldByName("Offset").Int())
}

// bodyLists returns the lists of elements in the body of v.
func bodyLists(v interface{}) [][]interface{} {
	switch t := v.(type) {
	case *parser.Message:
		return [][]interface{}{elements(t.MessageBody)}
	case *parser.GroupField:
		return [][]interface{}{elements(t.MessageBody)}
	case *parser.Enum:
		return [][]interface{}{elements(t.EnumBody)}
	case *parser.Service:
		return [][]interface{}{elements(t.ServiceBody)}
	case *parser.Extend:
		return [][]interface{}{elements(t.ExtendBody)}
	case *parser.Oneof:
		return [][]interface{}{elements(t.OneofFields), elements(t.Options)}
	case *parser.RPC:
		return [][]interface{}{elements(t.Options)}
	}
	return nil
}

// settled tells whether everything about an element whose last token is at end is decided in
// front of lo: behind it is a line break outside of comments or another token.
func settled(text []byte, end, lo int) bool {
	if end < 0 || end+1 >= lo || lo > len(text) || text[end] != ';' && text[end] != '}' {
		return false
	}
	for i := end + 1; i < lo; {
		r, n := utf8.DecodeRune(text[i:])
		switch {
		case r == '\n':
			return true
		case unicode.IsSpace(r):
			i += n
		case bytes.HasPrefix(text[i:], []byte("/*")):
			n := indexFrom(string(text[i:lo]), "*/", 2)
			if n < 0 {
				return false
			}
			i += n + 2
		case bytes.HasPrefix(text[i:], []byte("//")):
			return bytes.IndexByte(text[i:lo], '\n') >= 0
		default:
			return r != ';' || text[end] == ';'
		}
	}
	return false
}

// ended tells whether the last token of x, at e, is in front of lo.
func ended(x interface{}, e int, text []byte, lo int) bool {
	if _, ok := x.(*parser.Comment); ok {
		return false
	}
	return e >= 0 && e < lo && e < len(text) && (text[e] == ';' || text[e] == '}')
}

// ends returns the offset of the last token of each element, -1 if unknown. Empty statements have
// no position: they are the semicolons behind the element in front of them.
func ends(a []interface{}, text []byte) []int {
	var out []int
	prev := -1
	for _, x := range a {
		e := endOf(x)
		switch x.(type) {
		case *parser.Comment:
			out = append(out, -1)
			continue
		case *parser.EmptyStatement:
			e = -1
			if prev >= 0 && prev < len(text) {
				m := &matcher{s: string(text), comments: map[string]int{}, pos: prev + 1}
				m.skip()
				if m.pos < len(text) && text[m.pos] == ';' {
					e = m.pos
				}
			}
		}
		prev = e
		out = append(out, e)
	}
	return out
}

// inFront returns the number of elements of a that are wholly in front of offset lo of text.
func inFront(a []interface{}, ea []int, text []byte, lo int) int {
	m := 0
	for j, x := range a {
		if _, ok := x.(*parser.Comment); ok {
			break // belongs to an element behind it if there is one
		}
		if s := startOf(x); s >= 0 && s < lo {
			m = j // a later one begins in front, too
		}
		if settled(text, ea[j], lo) {
			m = j + 1
		}
	}
	return m
}

// intactPart compares the elements of two contents that end in front of offset lo, up to which
// the contents are the same.
func intactPart(a, b []interface{}, ta, tb []byte, lo int, where string) *Violation {
	ea, eb := ends(a, ta), ends(b, tb)
	m, mb := inFront(a, ea, ta, lo), inFront(b, eb, tb, lo)
	if mb > m {
		m = mb
	}
	for j := 0; j < m; j++ {
		if j >= len(b) || j >= len(a) {
			return violf("missing", "%s: element %d, which is in front of the damage, is missing (%d, %d elements)", where, j, len(a), len(b))
		}
		if j == m-1 && ea[j] != eb[j] && (semicolonAt(ta, ea[j], lo) || semicolonAt(tb, eb[j], lo)) {
			break // the optional semicolon of a block
		}
		if x, y := dump(a[j]), dump(b[j]); x != y {
			return violf("altered", "%s: element %d, which is in front of the damage, is altered: %s", where, j, firstDiff(x, y))
		}
	}
	// the next one, whose last token is in front, but not all that could follow on its line
	da, db := m < len(a) && ended(a[m], ea[m], ta, lo), m < len(b) && ended(b[m], eb[m], tb, lo)
	if (da || db) && (m >= len(a) || m >= len(b)) {
		return violf("missing", "%s: element %d, whose last token is in front of the damage, is missing (%d, %d elements)", where, m, len(a), len(b))
	}
	if da || db {
		st.probe("intact: last token in front")
		semi := semicolonAt(ta, ea[m], 0) != semicolonAt(tb, eb[m], 0) // the optional one of a block
		skip := func(t reflect.Type, name string, depth int) bool {
			return depth == 1 && (name == "InlineComment" || name == "Meta" && semi)
		}
		x, y := dumpSkip(a[m], skip), dumpSkip(b[m], skip)
		if x != y {
			return violf("altered", "%s: element %d, which is in front of the damage but for what may follow on its line, is altered: %s", where, m, firstDiff(x, y))
		}
	}
	if m < len(a) && m < len(b) && reflect.TypeOf(a[m]) == reflect.TypeOf(b[m]) && startOf(a[m]) >= 0 && startOf(a[m]) == startOf(b[m]) && startOf(a[m]) < lo {
		st.probe("intact: inside a body")
		la, lb := bodyLists(a[m]), bodyLists(b[m])
		for i := range la {
			if v := intactPart(la[i], lb[i], ta, tb, lo, where+", in element "+itoa(m)); v != nil {
				return v
			}
		}
	}
	return nil
}

// semicolonAt tells whether there is a semicolon at or behind lo.
func semicolonAt(t []byte, at, lo int) bool {
	return at >= lo && at < len(t) && t[at] == ';'
}

func runC18(c *Case) *Violation {
	fulls := map[string]*outcome{}
	for i := range c.Calls {
		k := &c.Calls[i]
		text := []byte(c.Texts[k.Text])
		id := dump(k.Opts) + itoa(k.Text)
		full := fulls[id]
		if full == nil {
			full = parseSolo(text, k.Opts, plain, nil, 0)
			fulls[id] = full
		}
		if !full.ok() {
			return nil
		}
		data := c.content(k)
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		got.account(data)
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		if !got.ok() {
			continue
		}
		d := 0
		for d < len(text) && d < len(data) && text[d] == data[d] {
			d++
		}
		if d == len(text) && d == len(data) {
			continue
		}
		if !utf8.Valid(text[:d]) {
			for d > 0 && !utf8.RuneStart(text[d-1]) {
				d--
			}
			if d > 0 {
				d--
			}
			if !utf8.Valid(text[:d]) {
				continue
			}
		}
		nontrivial = true
		st.probe("damaged content accepted")
		lo := intactUntil(text, d)
		var a, b []interface{}
		for _, x := range items(full.tree) {
			a = append(a, x.v)
		}
		for _, x := range items(got.tree) {
			b = append(b, x.v)
		}
		if v := intactPart(a, b, text, data, lo, "call "+itoa(i)+": the content is intact up to offset "+itoa(lo)); v != nil {
			return v
		}
	}
	return nil
}
