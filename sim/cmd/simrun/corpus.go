package main

import (
	"bytes"
	"embed"
	"sort"
)

//go:embed corpus/*.proto
var corpusFS embed.FS

var corpus = func() [][]byte {
	es, err := corpusFS.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	var out [][]byte
	for _, n := range names {
		b, err := corpusFS.ReadFile("corpus/" + n)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return out
}()

// genBase makes the text of a well-formed file: generated, or taken from the corpus.
func genBase(r *rng, strict bool) []byte {
	switch r.n(500) {
	case 0:
		return genLarge(r, strict)
	case 1, 2, 3:
		return genDeep(r, strict)
	case 4, 5, 6, 7, 8, 9, 10, 11:
		if b := genMagic(r, strict); b != nil {
			return b
		}
	}
	if !strict && r.p(8) {
		return corpus[r.n(len(corpus))]
	}
	b := genText(r, strict)
	if r.p(10) {
		b = withAkin(r, b)
	}
	return b
}

// withAkin adds a statement that is akin to one of the text behind it or in front of it.
func withAkin(r *rng, b []byte) []byte {
	_, stmts := spans(b)
	if len(stmts) == 0 {
		return b
	}
	s := pickStmt(r, b, stmts)
	if b[s[1]-1] != ';' {
		return b
	}
	at := s[r.n(2)]
	x := akin(r, b[s[0]:s[1]])
	if r.p(30) {
		x = genKindred(r, b)
	}
	return append(append(append([]byte(nil), b[:at]...), x...), b[at:]...)
}

// genLarge makes a text that is larger than the buffers that are in use somewhere.
func genLarge(r *rng, strict bool) []byte {
	size := r.in(66000, 140000)
	if r.p(40) {
		size = r.in(8000, 20000)
	}
	b := append([]byte(nil), genText(r, strict)...)
	switch r.n(5) {
	case 0: // a very long line
		for piece := []byte(r.pick("message A { int32 a = 1; /* c */ } ", "enum E { A = 0; } ", "/* a comment */ ", " ")); len(b) < size; {
			b = append(b, piece...)
		}
		return append(b, r.pick("message B { string b = 2; /* d */ } // e", "service S { rpc A (B) returns (C) { } } /* e */", "enum F { G = 1 [a = \"x\"]; } ")...)
	case 1: // very many lines
		b = append(b, bytes.Repeat([]byte("\n"), size)...)
		return append(b, r.pick("message B { string b = 2; } // e", "service S { rpc A (B)\nreturns (C) { } } /* e */", "enum F { G = 1; // g\n } ")...)
	}
	for len(b) < size {
		switch r.n(5) {
		case 0:
			b = append(b, "\nenum E { A = 0; B = -1 [deprecated = true]; }\n"...)
		case 1:
			b = append(b, "// \xc3\xa9 a comment\nmessage A { int32 a = 1; // b\n repeated B.C d = 0x2; }\n"...)
		case 2:
			b = append(b, "extend A { string b = 3 [default = \"x\"]; }\n"...)
		case 3:
			b = append(b, bytes.Repeat([]byte("message M { message N { oneof o { int32 a = 1; } map<int32, string> m = 2; } }\n"), 1+r.n(80))...)
		default:
			b = append(b, bytes.Repeat([]byte{" \n\t"[r.n(3)]}, 1+r.n(5000))...)
		}
	}
	return b
}

// genDeep makes a text of deep nesting.
func genDeep(r *rng, strict bool) []byte {
	return genDeepOf(r, strict, 5+r.logn(300))
}

func genDeepOf(r *rng, strict bool, n int) []byte {
	var b []byte
	rep := func(open, in, close string) {
		for i := 0; i < n; i++ {
			b = append(b, open...)
		}
		b = append(b, in...)
		for i := 0; i < n; i++ {
			b = append(b, close...)
		}
	}
	k := r.n(6)
	if strict && k > 2 {
		k = r.n(3)
	}
	switch k {
	case 0:
		rep("message A {\n", "int32 a = 1;", "}\n")
	case 1:
		rep("message A { int32 a = 1; // c\n", "", "\nint32 b = 2; }")
	case 2:
		b = append(b, "message M {\n"...)
		rep("optional group G = 1 { int32 a = 1;\n", "", " }\n")
		b = append(b, "}"...)
	case 3:
		b = append(b, "option (a) = "...)
		rep("{a: ", "1", "}")
		b = append(b, ";"...)
	case 4:
		b = append(b, "message A { int32 a = 1 [b = "...)
		rep("[", "1, 2", "]")
		b = append(b, "]; }"...)
	default:
		b = append(b, "option a = "...)
		rep("{a {", "b: \"c\"", "}}")
		b = append(b, ";\nmessage B {}"...)
	}
	return b
}
