package main

import (
	"bytes"
	"runtime"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

func init() {
	register(&property{id: "C28", gen: genC28, run: runC28})
}

// --- C28 -----------------------------------------------------------------------------------

// lists are contents with a part that can be repeated: head, part, what closes all parts, what
// closes one part, tail.
var lists = [][5]string{
	{"message A { reserved 1", ", 2 to 3", "; }", "", ""},
	{"message A { reserved \"a\"", ", \"b\"", "; }", "", ""},
	{"message A { extensions 4", ", 5 to 6", "; }", "", ""},
	{"enum A { reserved 4", ", -5 to 6", "; B = 0; }", "", ""},
	{"message A { int32 a = 1 [a = 1", ", (b).c = \"d\"", "]; }", "", ""},
	{"enum A { B = 0 [a = 1", ", (b).c = \"d\"", "]; }", "", ""},
	{"message A { map<int32, B> a = 1 [a = 1", ", /* c */ b = 1.5", "]; }", "", ""},
	{"option a = ", "\"b\" ", ";", "", ""},
	{"option a = { ", "b: 1 ", "};", "", ""},
	{"option a = { ", "b: { ", "", "} ", "};"},
	{"message A { int32 a = 1 [b = [1", ", 2", "]]; }", "", ""},
	{"option a", ".b", " = 1;", "", ""},
	{"package a", ".b", ";", "", ""},
	{"message A { a", ".b", " c = 1; }", "", ""},
	{"service S { rpc R (a", ".b", ") returns (A); }", "", ""},
	{"message A { extensions 1 to 9 [declaration = { number: 1 }", ", declaration = { number: 2, full_name: \".a\", type: \"b\" }", "]; }", "", ""},
	{"", "message A { ", "", "} ", ""},
	{"", "message A { int32 a = 1; // c\n ", "// d\n", "} // e\n", ""},
	{"message M { ", "optional group G = 1 { ", "", "} ", "}"},
	{"message A { oneof o { ", "int32 a = 1; ", "} }", "", ""},
	{"message A { oneof o { int32 a = 1; ", "; ", "} }", "", ""},
	{"service S { rpc R (A) returns (B) { ", "; ", "} }", "", ""},
	{"service S { rpc R (A) returns (B) { ", "option a = 1; // c\n", "} }", "", ""},
	{"service S { rpc ", "// c\n", "R (A) returns (B); } ", "", ""},
	{"message A { ", "// c\n", "} ", "/* d */ ", ""},
	{"", "// c\n", "message A { }", "\n// d", ""},
	{"", "/* c\n */", "message A { }", "/* d */", ""},
	{"message A { int32 ", "/* c */ ", "a = 1 ", "/* d */ ", "; }"},
	{"", ";", "message A { }", ";", ""},
	{"", "\n", "message A { }", "\n", ""},
	{"", " ", "message A { }", " ", ""},
	{"// ", "c", "\nmessage A { }", "", ""},
	{"/* ", "* c\n", "*/message A { }", "", ""},
	{"option a = \"", "b", "\";", "", ""},
	{"option a = '", "\\n", "';", "", ""},
	{"message A", "b", " { }", "", ""},
	{"option a = 1", "0", ";", "", ""},
	{"option a = 1.", "0", ";", "", ""},
	{"message A { int32 a = ", "1", "; }", "", ""},
	{"message A { int32 a = 0x", "a", "; }", "", ""},
	{"import \"", "a/", "b\";", "", ""},
	{"", "import \"a\"; // c\n", "message A { }", "", ""},
	{"\ufeff", "import public \"a\";\n", "message A { }", "", ""},
	{"", "syntax = \"proto3\";", "", "", ""},
	{"syntax = \"proto2\";", "extend A { int32 a = 1; } ", "", "", ""},
	{"message A { ", "repeated int32 a = 1 ", "", "", "; }"},
	{"", "{", "", "}", ""},
	{"", "message A { int32 a = ", "", "", ""},
}

// joined are the parts of tokens, dotted names and aggregates: their text is put together piece by
// piece, at a cost of memory that is not in proportion.
var joined = []string{"b: 1 ", "b: { ", ".b", "c", "* c\n", "b", "\\n", "0", "1", "a", "a/"}

func genC28(r *rng, thorough bool) *Case {
	c := &Case{Prop: "C28"}
	strict := r.p(30)
	k := Call{Kind: "parse", Opts: genOpts(r, strict)}
	var head, unit, mid, unit2, tail []byte
	switch n := r.n(10); {
	case n < 6: // declarations of a body
		c.Mode = "declarations"
		w := wrappers[wrapperNames[r.n(len(wrapperNames))]]
		g := newGenerator(r, strict)
		if g.budget > 20 {
			g.budget = 20
		}
		for m := 1 + r.n(3); m > 0; m-- {
			w.gen(g)
		}
		head, unit, mid = []byte(w.pre), append(g.render(), '\n'), []byte(w.post)
		if len(unit) > 3000 {
			unit = []byte("// c\n;\n")
		}
		if r.p(20) {
			unit2, tail = unit, mid
			mid = append([]byte(w.post), w.pre...)
		}
	case n < 8: // parts of a declaration, and nesting
		l := lists[r.n(len(lists))]
		c.Mode = "list"
		for _, x := range joined {
			if l[1] == x {
				c.Mode = "text"
			}
		}
		head, unit, mid, unit2, tail = []byte(l[0]), []byte(l[1]), []byte(l[2]), []byte(l[3]), []byte(l[4])
		if r.p(30) && unit2 == nil {
			unit = append(unit, r.pick(" ", "/* c */", "// c\n", "\n")...)
		}
	default: // any part of a file
		text := genText(r, strict)
		b := tokenBounds(text)
		i := r.n(len(b))
		j := i + 1 + r.n(1+r.logn(60))
		if j >= len(b) {
			j = len(b) - 1
		}
		if i >= j {
			i = 0
		}
		head, unit, mid = text[:b[i]], text[b[i]:b[j]], text[b[j]:]
		if r.p(30) { // again behind it
			unit = append(append([]byte(nil), unit...), ' ')
		}
		if len(unit) > 3000 {
			unit = unit[:3000]
		}
	}
	if len(unit) == 0 {
		unit = []byte(" ")
	}
	if r.p(15) { // rejected in the end
		tail = append(tail, r.pick("}", "message", "\"", "/*", "@", ";;;", "{", "option a = ", "1")...)
	}
	size := r.in(1500, 6000)
	switch {
	case r.p(2):
		size = r.in(20000, 50000)
	case r.p(15):
		size = r.in(6000, 15000)
	}
	k.Times = 1 + size/(len(unit)+len(unit2))
	c.Texts = []Blob{head, unit, mid, unit2, tail}
	c.Calls = []Call{k}
	return c
}

// repeated returns the content in which the part stands n times.
func (c *Case) repeated(n int) []byte {
	t := c.Texts
	out := append([]byte(nil), t[0]...)
	out = append(out, bytes.Repeat(t[1], n)...)
	out = append(out, t[2]...)
	out = append(out, bytes.Repeat(t[3], n)...)
	return append(out, t[4]...)
}

// work is what the library did for a content.
type work struct {
	ok                      bool
	parse, visit, interpret uint64 // steps
	memory                  uint64
}

func workOf(data []byte, o Opts) (work, string) {
	var w work
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	out := parseSolo(data, o, plain, nil, 0)
	runtime.ReadMemStats(&b)
	if out.fail != "" {
		return w, "Parse of " + itoa(len(data)) + " bytes ends with " + out.fail
	}
	w.parse, w.memory = out.steps, b.TotalAlloc-a.TotalAlloc
	w.ok = out.ok()
	if !w.ok {
		return w, ""
	}
	v := newVisitor(buildIndex(out.tree), &Call{}, nil, out.tree)
	t := solo(stepLimit(data), func() { out.tree.Accept(v) })
	if f := t.failure(); f != "" {
		return w, "Accept ends with " + f
	}
	w.visit = t.h.Steps
	if !hasComment(out.tree.ProtoBody) {
		t = solo(stepLimit(data), func() { _, _ = protoparser.UnorderedInterpret(out.tree) })
		if f := t.failure(); f != "" {
			return w, "UnorderedInterpret ends with " + f
		}
		w.interpret = t.h.Steps
	}
	return w, ""
}

// steep tells whether the second increase is out of proportion to the first, which half the
// additional content has caused.
func steep(a, b, c uint64, factor float64, slack float64) bool {
	return float64(c)-float64(b) > factor*(float64(b)-float64(a))+slack
}

func runC28(c *Case) *Violation {
	if len(c.Calls) == 0 || len(c.Texts) < 5 || len(c.Texts[1]) == 0 {
		return nil
	}
	k := &c.Calls[0]
	if k.Times < 1 {
		k.Times = 1
	}
	var w [4]work
	measure := func(i int) *Violation {
		what := ""
		if w[i], what = workOf(c.repeated(k.Times<<i), k.Opts); what != "" {
			return violf("endless", "the part %d times: %s", k.Times<<i, what)
		}
		return nil
	}
	for i := 0; i < 3; i++ {
		if v := measure(i); v != nil {
			return v
		}
	}
	nontrivial = true
	if w[0].ok != w[1].ok || w[1].ok != w[2].ok {
		return nil
	}
	for _, x := range []struct {
		what    string
		a, b, c uint64
	}{
		{"Parse", w[0].parse, w[1].parse, w[2].parse},
		{"Accept", w[0].visit, w[1].visit, w[2].visit},
		{"UnorderedInterpret", w[0].interpret, w[1].interpret, w[2].interpret},
	} {
		if steep(x.a, x.b, x.c, 2.1, 500) {
			return violf("steps", "%s takes %d, %d and %d steps for the part %d, %d and %d times", x.what, x.a, x.b, x.c, k.Times, 2*k.Times, 4*k.Times)
		}
	}
	if (c.Mode == "declarations" || c.Mode == "list") && steep(w[0].memory, w[1].memory, w[2].memory, 2.6, 200000) {
		if v := measure(3); v != nil {
			return v
		}
		// a slice that grows by doubling can double once more in one of the two, not in both
		if steep(w[1].memory, w[2].memory, w[3].memory, 2.6, 200000) {
			return violf("memory", "what Parse allocates grows more than 2.6 times when the increase of the content doubles, up to %d bytes", len(c.repeated(k.Times<<3)))
		}
	}
	return nil
}
