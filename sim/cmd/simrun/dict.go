package main

import (
	"bytes"
	_ "embed"
	"regexp"
	"strconv"
	"strings"
)

// The literals of the code under test, filled by the file that the instrumenter generates. A
// branch on a particular text or number is reached by inputs that contain it. Words that the
// library had when this was written are in baseline_words.txt: the generators know them already.
var (
	dictWords []string
	dictInts  []int

	dictReady  bool
	newWords   []string
	newIdents  []string
	magicSizes []int
)

//go:embed baseline_words.txt
var baselineWords string

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

func dictInit() {
	if dictReady {
		return
	}
	dictReady = true
	old := map[string]bool{}
	for _, l := range strings.Split(baselineWords, "\n") {
		if w, err := strconv.Unquote(l); err == nil {
			old[w] = true
		}
	}
	seen := map[string]bool{}
	for _, w := range kwNames {
		seen[w] = true
	}
	for _, w := range dictWords {
		if old[w] {
			continue
		}
		newWords = append(newWords, w)
		for _, id := range identRe.FindAllString(w, -1) {
			if !seen[id] && len(newIdents) < 60 {
				seen[id] = true
				newIdents = append(newIdents, id)
			}
		}
	}
	for _, i := range dictInts {
		if i > 3 {
			magicSizes = append(magicSizes, i)
		}
	}
}

// dictIdent returns a name of the dictionary, or "".
func dictIdent(r *rng) string {
	dictInit()
	rate := 12
	if r.focus {
		rate = 60
	}
	if len(newIdents) == 0 || !r.p(rate) {
		return ""
	}
	return newIdents[r.n(len(newIdents))]
}

// dictText returns a text of the dictionary, or "".
func dictText(r *rng) string {
	dictInit()
	rate := 20
	if r.focus {
		rate = 60
	}
	if len(newWords) == 0 || !r.p(rate) {
		return ""
	}
	return newWords[r.n(len(newWords))]
}

// commonSizes are bounds that code often has, whatever numbers the code under test contains.
var commonSizes = []int{64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384, 32768, 65536}

// magic returns a number near one that the code under test contains or that code often contains,
// or 0.
func magic(r *rng, max int) int {
	dictInit()
	from := magicSizes
	if len(from) == 0 || r.p(30) {
		from = commonSizes
	}
	m := from[r.n(len(from))] + r.n(4) - 1
	if m > max {
		return 0
	}
	return m
}

// genMagic makes a text in which something has a size near a number of the code under test.
func genMagic(r *rng, strict bool) []byte {
	n := magic(r, 70000)
	if n == 0 {
		return nil
	}
	var b []byte
	b = append(b, genSmall(r, strict, 60)...)
	b = append(b, '\n')
	rep := func(s string, n int) string { return strings.Repeat(s, n) }
	k := r.n(22)
	switch {
	case k < 9:
	case k < 13 && n > 30000, k >= 13 && n > 4000:
		k = r.n(9)
	}
	add := func(parts ...string) {
		for _, p := range parts {
			b = append(b, p...)
		}
	}
	switch k {
	case 0: // at an offset
		for len(b) < n-20 {
			b = append(b, bytes.Repeat([]byte{' '}, r.in(1, 60))...)
			add("message A{}\n")
		}
		if len(b) < n {
			add(rep(" ", n-len(b)))
		}
		add(r.pick("message B { int32 a = 1; }", "enum E { A = 0; }", "// c\nservice S { rpc R (A) returns (B); }", "option a = \"b\";"))
	case 1: // on a line
		add(rep("\n", n), "message A { // c\n int32 b = 1; }")
	case 2: // in a column
		add(rep(" ", n), "message A { int32 b = 1; }")
	case 3:
		add("message L", rep("o", n), " { int32 a = 1; }")
	case 4:
		add("option a = \"", rep("s", n), "\";")
	case 5:
		add(r.pick("//", "// a\n//"), rep("c", n), "\nmessage A {}")
	case 6:
		add("/*", rep("c", n), "*/message A {}")
	case 7:
		add("message A { int32 a = ", strconv.Itoa(n), "; reserved ", strconv.Itoa(n), " to max; }\nenum E { A = ", strconv.Itoa(n), "; }")
	case 8:
		add("package a", rep(".b", n), ";")
	case 9:
		add(rep("// c\n", n), "message A {}")
	case 10:
		add(rep("message A {}\n", n))
	case 11:
		add("enum E { A = 0; ", rep("B = 1;", n), "}")
	case 12:
		add("message A {", rep(" int32 a = 1;", n), " }")
	case 13:
		add(rep("message A { ", n), rep("}", n))
	case 14:
		add("message A { int32 a = 1 [a = 1", rep(", b = 2", n), "]; }")
	case 15:
		add("message A { reserved 1", rep(", 2 to 3", n), "; extensions 5", rep(", 6", n), "; }")
	case 16:
		add("service S {", rep(" rpc R (A) returns (B);", n), " }")
	case 17:
		add("message A { oneof o { int32 a = 1;", rep(" string b = 2;", n), " } }")
	case 18:
		add("service S { rpc R (A) returns (B) {", rep(" option a = 1;", n), "} }")
	case 19:
		add("extend A {", rep(" int32 a = 1;", n), " }")
	case 20:
		add("message A { reserved \"a\"", rep(", \"b\"", n), "; }")
	default:
		if strict {
			add("message A {", rep(" // c\n", n), " int32 a = 1; }")
		} else {
			add("option a = {", rep("b: 1 ", n), "};")
		}
	}
	return b
}
func itoa(i int) string { return strconv.Itoa(i) }
