package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// property ties a property to its generator of cases and its check of one case.
type property struct {
	id   string
	gen  func(r *rng, thorough bool) *Case
	run  func(c *Case) *Violation
	race bool // a part of the runs is made in the race build
}

// nontrivial is set by a run that exercised its property.
var nontrivial bool

// schedHash is set by runs with several tasks.
var schedHash uint64

// curTrace is the schedule of the last multi-task run.
var curTrace []Seg

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

func init() {
	register(&property{id: "C01", gen: genC01, run: runC01})
	register(&property{id: "C02", gen: genC02, run: runC02})
	register(&property{id: "C03", gen: genC03, run: runC03})
	register(&property{id: "C04", gen: genC04, run: runC04})
	register(&property{id: "C05", gen: genC05, run: runC05})
	register(&property{id: "C06", gen: genC06, run: runC06})
	register(&property{id: "C11", gen: genC11, run: runC11})
	register(&property{id: "C12", gen: genC12, run: runC12})
}

func genOpts(r *rng, strict bool) Opts {
	o := Opts{Strict: strict, BodyComments: r.p(35)}
	if r.p(25) {
		o.Filename = r.pick("a.proto", "dir/x y.proto", "ファイル.proto", "%d%s", "-", "<stdin>", "google/protobuf/descriptor.proto", "/dev/stdin", "a.PROTO", ".", " ")
		if w := dictText(r); w != "" {
			o.Filename = w
		}
	}
	return o
}

// --- C01 -----------------------------------------------------------------------------------

func genC01(r *rng, _ bool) *Case {
	strict := r.p(25)
	text := genBase(r, strict)
	c := &Case{Prop: "C01", Texts: []Blob{text}}
	if r.p(10) {
		strict = !strict
	}
	o := genOpts(r, strict)
	var fs []Fault
	if r.p(35) {
		fs = genFaults(r, text, nil)
	}
	data := applyFaults(text, fs)
	for i := r.in(2, 4); i > 0; i-- {
		c.Calls = append(c.Calls, Call{Kind: "parse", Opts: o, Faults: fs, Delivery: genDelivery(r, data)})
	}
	return c
}

func runC01(c *Case) *Violation {
	var want string
	var have bool
	var wantFor string
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		if id := fmt.Sprintf("%q %v", data, k.Opts); !have || id != wantFor {
			want = parseSolo(data, k.Opts, plain, nil, 0).key()
			have, wantFor = true, id
		}
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		if got.rd.reads > 1 || len(data) == 0 {
			nontrivial = true
		}
		if g := got.key(); g != want {
			return violf("delivery", "call %d: the outcome depends on the delivery: %s", i, firstDiff(want, g))
		}
	}
	return nil
}

// --- C02 -----------------------------------------------------------------------------------

func genStop(r *rng, data []byte, kind string) *Stop {
	s := &Stop{Kind: kind, With: r.p(40), After: r.pick("more", "sticky", "err")}
	n := len(data)
	b := tokenBounds(data)
	switch r.n(6) {
	case 0:
		s.At = r.n(n + 1)
	case 1:
		s.At = n
	case 2:
		s.At = r.n(r.logn(n+1) + 1)
	case 3: // right behind a ; or }: between declarations
		s.At = n
		for try := 0; try < 30; try++ {
			i := r.n(n + 1)
			if i > 0 && (data[i-1] == ';' || data[i-1] == '}' || data[i-1] == '\n') {
				s.At = i
				break
			}
		}
	default:
		s.At = b[r.n(len(b))]
	}
	if r.p(10) {
		if m := magic(r, n); m > 0 {
			s.At = m
		}
	}
	if kind == "err" || kind == "stall" {
		s.Err = errNames[r.n(len(errNames))]
	}
	return s
}

func genC02(r *rng, _ bool) *Case {
	strict := r.p(25)
	text := genBase(r, strict)
	c := &Case{Prop: "C02", Texts: []Blob{text}}
	var fs []Fault
	if r.p(15) {
		fs = genFaults(r, text, nil)
	}
	data := applyFaults(text, fs)
	o := genOpts(r, strict)
	for i := 0; i < 5; i++ {
		c.Calls = append(c.Calls, Call{Kind: "parse", Opts: o, Faults: fs, Delivery: genDelivery(r, data), Stop: genStop(r, data, "err")})
	}
	return c
}

func runC02(c *Case) *Violation {
	var okFor map[string]bool = map[string]bool{}
	for i := range c.Calls {
		k := &c.Calls[i]
		if k.Stop == nil || k.Stop.Kind != "err" {
			continue
		}
		data := c.content(k)
		id := fmt.Sprintf("%q %v", data, k.Opts)
		acceptable, known := okFor[id]
		if !known {
			acceptable = parseSolo(data, k.Opts, plain, nil, 0).ok()
			okFor[id] = acceptable
		}
		got := parseSolo(data, k.Opts, k.Delivery, k.Stop, 0)
		if !got.rd.fired || got.fail != "" {
			continue // the error was never delivered, or the call did not return (C06)
		}
		nontrivial = true
		st.fault("read error " + k.Stop.Err)
		what := fmt.Sprintf("call %d: read error %q at byte %d of %d", i, k.Stop.Err, k.Stop.At, len(data))
		if got.err == nil {
			return violf("swallowed", "%s is reported as success: %s", what, got.short())
		}
		if got.tree != nil {
			return violf("tree", "%s gives a tree: %s", what, got.short())
		}
		if acceptable && !errors.Is(got.err, got.rd.cause) {
			return violf("cause", "%s in an acceptable file: the returned error %q does not match the reader's", what, got.err)
		}
	}
	return nil
}

// --- C03 -----------------------------------------------------------------------------------

func genC03(r *rng, _ bool) *Case {
	strict := r.p(25)
	text := genBase(r, strict)
	c := &Case{Prop: "C03", Texts: []Blob{text}}
	var fs []Fault
	if r.p(20) {
		fs = genFaults(r, text, nil)
	}
	data := applyFaults(text, fs)
	o := genOpts(r, strict)
	for i := 0; i < 5; i++ {
		kind := "eof"
		if r.p(35) {
			kind = "err"
		}
		s := genStop(r, data, kind)
		s.After = r.pick("more", "more", "more", "err", "panic", "stall", "sticky")
		c.Calls = append(c.Calls, Call{Kind: "parse", Opts: o, Faults: fs, Delivery: genDelivery(r, data), Stop: s})
	}
	return c
}

func runC03(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		if k.Stop == nil || (k.Stop.Kind != "eof" && k.Stop.Kind != "err") {
			continue
		}
		data := c.content(k)
		got := parseSolo(data, k.Opts, k.Delivery, k.Stop, 0)
		if !got.rd.fired {
			continue
		}
		nontrivial = true
		st.fault("after the end: " + k.Stop.After)
		what := fmt.Sprintf("call %d: %s at byte %d of %d, then %q", i, k.Stop.Kind, got.rd.stop.At, len(data), k.Stop.After)
		if got.rd.afterEnd > 0 {
			return violf("read-after-end", "%s: %d more reads", what, got.rd.afterEnd)
		}
		s := *k.Stop
		s.After = "sticky"
		s.At = got.rd.stop.At
		want := parseSolo(data[:s.At], k.Opts, plain, &s, 0)
		if w, g := want.key(), got.key(); w != g {
			return violf("outcome", "%s: not the outcome of the bytes before: %s", what, firstDiff(w, g))
		}
	}
	return nil
}

// --- C04 -----------------------------------------------------------------------------------

func genC04(r *rng, _ bool) *Case {
	strict := r.p(30)
	text := genBase(r, strict)
	c := &Case{Prop: "C04", Texts: []Blob{text}}
	o := genOpts(r, strict)
	for i := 0; i < 8; i++ {
		s := genStop(r, text, "eof")
		s.After = "sticky"
		k := Call{Kind: "parse", Opts: o, Stop: s}
		if r.p(40) {
			k.Delivery = genDelivery(r, text)
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

type item struct {
	name string
	v    interface{}
}

func items(p *parser.Proto) []item {
	var out []item
	if p.Syntax != nil {
		out = append(out, item{"syntax", p.Syntax})
	}
	if p.Edition != nil {
		out = append(out, item{"edition", p.Edition})
	}
	for i, b := range p.ProtoBody {
		out = append(out, item{fmt.Sprintf("declaration %d", i), b})
	}
	for len(out) > 0 {
		if _, ok := out[len(out)-1].v.(*parser.Comment); !ok {
			break
		}
		out = out[:len(out)-1]
	}
	return out
}

func isBlock(v interface{}) bool {
	switch v.(type) {
	case *parser.Message, *parser.Enum, *parser.Service, *parser.Extend:
		return true
	}
	return false
}

// dumpLast renders a declaration without what may be cut behind it.
func dumpLast(v interface{}) string {
	block := isBlock(v)
	return dumpSkip(v, func(t reflect.Type, field string, depth int) bool {
		// depth 1 is the struct of the declaration itself, depth 2 its Meta
		return depth == 1 && field == "InlineComment" || block && depth == 2 && t.Name() == "Meta" && field == "LastPos"
	})
}

func runC04(c *Case) *Violation {
	fullOf := map[string]*outcome{}
	for i := range c.Calls {
		k := &c.Calls[i]
		if k.Stop == nil || k.Stop.Kind != "eof" {
			continue
		}
		data := c.content(k)
		id := fmt.Sprintf("%q %v", data, k.Opts)
		full := fullOf[id]
		if full == nil {
			full = parseSolo(data, k.Opts, plain, nil, 0)
			fullOf[id] = full
			if full.ok() {
				st.probe("full file accepted")
			}
		}
		if !full.ok() {
			continue
		}
		got := parseSolo(data, k.Opts, k.Delivery, k.Stop, 0)
		at := got.rd.stop.At
		nontrivial = true
		what := fmt.Sprintf("call %d: cut at byte %d of %d", i, at, len(data))
		if at < len(data) {
			st.fault("torn file")
		}
		if got.fail != "" {
			continue // C06
		}
		if got.err != nil {
			st.probe("torn: error")
			if got.tree != nil {
				return violf("both", "%s: tree and error: %s", what, got.short())
			}
			continue
		}
		if got.tree == nil {
			return violf("neither", "%s: no tree and no error", what)
		}
		st.probe("torn: prefix")
		a, b := items(full.tree), items(got.tree)
		if len(b) > len(a) {
			return violf("invented", "%s: %d declarations instead of at most %d", what, len(b), len(a))
		}
		for j := range b {
			x, y := dump(a[j].v), dump(b[j].v)
			if j == len(b)-1 {
				x, y = dumpLast(a[j].v), dumpLast(b[j].v)
			}
			if x != y || a[j].name != b[j].name {
				return violf("altered", "%s: %s is altered: %s", what, b[j].name, firstDiff(x, y))
			}
		}
		if x, y := dump(full.tree.Meta), dump(got.tree.Meta); x != y {
			return violf("altered", "%s: meta information is altered: %s", what, firstDiff(x, y))
		}
		if msg := conserve(got.tree, data[:at]); msg != "" {
			return violf("half", "%s: accepted, but %s", what, msg)
		}
	}
	return nil
}

// --- C05 -----------------------------------------------------------------------------------

func genC05(r *rng, _ bool) *Case {
	strict := r.p(30)
	text := genBase(r, strict)
	other := genBase(r, strict)
	c := &Case{Prop: "C05", Texts: []Blob{text}}
	if r.p(10) {
		strict = !strict
	}
	o := genOpts(r, strict)
	n := 12
	if len(text) > 3000 {
		n = 5
	}
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Opts: o}
		if i > 0 {
			k.Faults = genFaults(r, text, other)
		}
		if r.p(15) {
			k.Delivery = genDelivery(r, text)
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC05(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		if !got.ok() {
			if len(k.Faults) == 0 {
				st.probe("intact: rejected")
			} else {
				st.probe("damaged: rejected")
			}
			continue
		}
		nontrivial = true
		if len(k.Faults) == 0 {
			st.probe("intact: accepted")
		} else {
			st.probe("damaged: accepted")
		}
		if msg := conserve(got.tree, data); msg != "" {
			return violf("unaccounted", "call %d: accepted, but %s", i, msg)
		}
	}
	return nil
}

// --- C06 -----------------------------------------------------------------------------------

var soup = []string{"message", "enum", "service", "rpc", "returns", "oneof", "map", "option", "reserved", "extensions", "extend", "group", "import", "package", "syntax", "edition", "repeated", "optional", "stream", "to", "max", "declaration", "number", "full_name", "A", "b", "1", "0x1", "-", "+", ".5", "1e3", "1e", "0x", "inf", "true", "\"s\"", "'t'", "\"", "'", "\"proto3\"", "{", "}", "{", "}", "[", "]", "(", ")", "<", ">", "=", ";", ";", ",", ".", ":", "/", "//", "/*", "*/", "// c\n", "/* c */", "\n", " ", "\t", "\\", "\x00", "\ufeff", "\u00a0", "\xff", "é", "$", "@", "#", "&", "|", "!"}

func genSoup(r *rng) []byte {
	n := r.logn(300)
	var b []byte
	sp := r.p(70)
	starts := []string{"", "syntax = \"proto3\";", "message A {", "enum A {", "service A { rpc B (C) returns (D) {", "message A { oneof B {", "option a = {", "option a = [", "message A { extensions 1 [", "message A { reserved ", "extend A {", "message A { optional group B = 1 {", "/*", "//", "message A { map<"}
	b = append(b, starts[r.n(len(starts))]...)
	for i := 0; i < n; i++ {
		if w := dictText(r); w != "" && r.p(20) {
			b = append(b, w...)
		} else {
			b = append(b, soup[r.n(len(soup))]...)
		}
		if sp {
			b = append(b, ' ')
		}
	}
	return b
}

func genNoise(r *rng) []byte {
	n := r.logn(2000)
	b := make([]byte, n)
	m := r.n(3)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte(r.n(256))
		case 1:
			b[i] = byte(32 + r.n(95))
		default:
			const marks = "{}[]();=\"'/*\\\n .,a1:-\x00"
			b[i] = marks[r.n(len(marks))]
		}
	}
	return b
}

func genFlood(r *rng, thorough bool) *Flood {
	big := 1 << 20
	if thorough {
		big = 4 << 20
	}
	f := &Flood{}
	switch r.n(14) {
	case 0:
		f.Unit = r.pick(" ", "\n", "\t", "\r\n", "\u00a0")
		f.N = big / len(f.Unit) / (1 + r.n(3))
		f.Head = r.pick("", "message A {", "syntax = \"proto3\";", "option a =", "message A { int32 b")
		f.Tail = r.pick("", ";", "}", "x")
	case 1:
		f.Unit, f.N = "// c\n", 30000
		f.Head = r.pick("", "message A {", "option a =", "service S {")
		f.Tail = r.pick("", "}", "1;")
	case 2:
		f.Unit, f.N = r.pick("/**/", "/* */ ", "/*\n*/"), 30000
		f.Head = r.pick("", "message A { int32", "message A {", "enum E {")
		f.Tail = r.pick("", " b = 1; }", "}")
	case 3:
		f.Head, f.Unit, f.N = "message A {", "message A {", r.in(10, 1500)
		f.Tail = r.pick("", "*}", "*};")
		f.Tail = map[string]string{"": "", "*}": "*}", "*};": "*};"}[f.Tail]
	case 4:
		f.Head, f.Unit, f.N = "option a = ", r.pick("[", "{a:", "{a ", "{a:["), r.in(10, 3000)
		f.Tail = r.pick("", ";", "}", "]")
	case 5:
		f.Unit, f.N = r.pick(";", "; ", "message A{}", "enum E{}", "import \"x\";", "; // c\n"), 20000
	case 6:
		f.Head, f.Unit, f.N, f.Tail = "message A {", r.pick("int32 a = 1;", ";", "reserved 1;", "oneof o { int32 a = 1; }"), 5000, "}"
	case 7:
		f.Head, f.Unit, f.N, f.Tail = "message A { reserved 1", r.pick(", 2", ", 2 to 3", ",", " to 2"), 10000, "; }"
	case 8:
		f.Head, f.Unit, f.N, f.Tail = "message A { reserved \"a\"", r.pick(", \"b\"", " \"b\"", " b", ",b"), 10000, "; }"
	case 9:
		f.Head, f.Unit, f.N = r.pick("", "message ", "option a = ", "option a = \"", "//", "/*", "option a = 1", "option a = 0x"), r.pick("a", "1", "\"", "*", "/", "\\", "é", "\x00"), r.in(1000, 20000)
		f.Tail = r.pick("", "\"", "*/", ";", " {}")
	case 10:
		f.Head, f.Unit, f.N = "package a", ".b", 10000
		f.Tail = r.pick("", ";", ".")
	case 11:
		f.Head, f.Unit, f.N, f.Tail = "option a = \"x\"", " \"y\"", 5000, ";"
	case 12:
		f.Head, f.Unit, f.N = "service S {", r.pick("rpc A (B) returns (C);", "rpc A(B) returns (C) { ; }", ";"), 1500
		f.Tail = r.pick("}", "")
	default:
		f.Head, f.Unit, f.N = "message A { int32 a = 1 [a = 1", ", b = 2", 5000
		f.Tail = r.pick("]; }", "", "]")
	}
	return f
}

func genC06(r *rng, thorough bool) *Case {
	c := &Case{Prop: "C06"}
	flood := 1500
	if thorough {
		flood = 400
	}
	if r.n(flood) == 0 {
		c.Spec = genFlood(r, thorough)
		c.Texts = []Blob{Blob("")}
		o := genOpts(r, r.p(20))
		c.Calls = append(c.Calls, Call{Kind: "parse", Opts: o})
		return c
	}
	if r.n(100) == 0 { // a small one: the depth of the stack shows what repeats too deeply
		c.Spec = genFlood(r, false)
		if m := r.in(300, 1500); c.Spec.N > m {
			c.Spec.N = m
		}
		c.Texts = []Blob{Blob("")}
		c.Calls = append(c.Calls, Call{Kind: "parse", Opts: genOpts(r, r.p(20))})
		return c
	}
	n := 10
	var text []byte
	switch r.n(10) {
	case 0, 1, 2:
		text = genSoup(r)
	case 3:
		text = genNoise(r)
	default:
		text = genBase(r, r.p(20))
	}
	if len(text) > 3000 {
		n = 4
	}
	other := genBase(r, false)
	c.Texts = []Blob{text}
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Opts: genOpts(r, r.p(20))}
		if r.p(75) {
			k.Faults = genFaults(r, text, other)
		}
		if r.p(30) {
			k.Delivery = genDelivery(r, text)
		}
		if r.p(30) {
			k.Stop = genStop(r, text, r.pick("eof", "err", "err", "zeros"))
			k.Stop.After = r.pick("more", "err", "sticky")
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC06(c *Case) *Violation {
	defer func() { maxFrames = 0 }()
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		if c.Spec != nil {
			st.fault("flood")
		}
		maxFrames = 250 + 60*nesting(data)
		got := parseSolo(data, k.Opts, k.Delivery, k.Stop, 0)
		nontrivial = true
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		what := fmt.Sprintf("call %d (%d bytes)", i, len(data))
		if got.fail != "" {
			return violf("fail", "%s: Parse ends with %s\n%s", what, got.fail, trimStack(got.stack))
		}
		if (got.tree == nil) == (got.err == nil) {
			return violf("xor", "%s: tree %v, error %v", what, got.tree != nil, got.err)
		}
		if max := int64(200000 + 300*len(data)); got.rd.reads > max {
			return violf("reads", "%s: %d reads", what, got.rd.reads)
		}
		if got.tree == nil {
			continue
		}
		x := buildIndex(got.tree)
		v := newVisitor(x, k, nil, got.tree)
		lim := stepLimit(data)
		if t := solo(lim, func() { got.tree.Accept(v) }); t.failure() != "" {
			return violf("accept", "%s: Accept on the result ends with %s\n%s", what, t.failure(), trimStack(t.stack))
		}
		if t := solo(lim, func() { _, _ = protoparser.UnorderedInterpret(got.tree) }); t.failure() != "" {
			return violf("interpret", "%s: UnorderedInterpret of the result ends with %s\n%s", what, t.failure(), trimStack(t.stack))
		}
	}
	return nil
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// --- C11 -----------------------------------------------------------------------------------

type simLog struct {
	script []string
	i      int
	clk    *int64
	writes int
}

func (l *simLog) Write(p []byte) (int, error) {
	l.writes++
	do := "ok"
	if len(l.script) > 0 {
		do = l.script[l.i%len(l.script)]
		l.i++
	}
	if do != "ok" {
		st.fault("log: " + do)
	}
	switch do {
	case "short":
		return len(p) / 2, nil
	case "zero":
		return 0, nil
	case "err":
		return 0, errors.New("log is broken")
	case "full":
		return 0, &ptrErr{"no space left on device"}
	case "shorterr":
		return len(p) / 3, io.ErrShortWrite
	case "slow":
		*l.clk += 5e9
	case "scribble":
		for i := range p {
			p[i] = '#'
		}
	}
	return len(p), nil
}

func genC11(r *rng, _ bool) *Case {
	strict := r.p(25)
	var text []byte
	if r.p(12) {
		text = genSoup(r)
	} else {
		g := newGenerator(r, strict)
		if g.budget > 20 {
			g.budget = 20
		}
		g.file()
		text = g.render()
	}
	c := &Case{Prop: "C11", Texts: []Blob{text}}
	o := genOpts(r, strict)
	for i := 0; i < 2; i++ {
		k := Call{Kind: "parse", Opts: o}
		if r.p(60) {
			k.Faults = genFaults(r, text, nil)
		}
		if r.p(50) {
			k.Delivery = genDelivery(r, text)
		}
		if r.p(25) {
			k.Stop = genStop(r, text, r.pick("eof", "err"))
			k.Stop.After = "sticky"
		}
		k.Sub = r.n(1 << 6) // log flags
		c.Calls = append(c.Calls, k)
	}
	n := r.n(5)
	for i := 0; i < n; i++ {
		c.Log = append(c.Log, r.pick("ok", "short", "zero", "err", "full", "shorterr", "slow", "scribble"))
	}
	return c
}

func runC11(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		o := k.Opts
		o.Debug = false
		want := parseSolo(data, o, k.Delivery, k.Stop, 0)
		w := stripOccurred(want.key())
		for pass := 0; pass < 2; pass++ {
			var clk int64
			l := &simLog{script: c.Log, clk: &clk}
			withLog(l, k.Sub)
			o.Debug = pass == 0
			got := parseSolo(data, o, k.Delivery, k.Stop, 0)
			withLog(nil, 0)
			st.SimNanos += clk
			if l.writes > 0 {
				nontrivial = true
			}
			st.probeN("log lines", l.writes)
			if g := stripOccurred(got.key()); g != w {
				return violf("debug", "call %d: outcome with debug=%v and log script %q differs: %s", i, o.Debug, c.Log, firstDiff(w, g))
			}
		}
	}
	return nil
}
