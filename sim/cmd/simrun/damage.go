package main

import "bytes"

// genDelivery makes a legal delivery of n bytes.
func genDelivery(r *rng, data []byte) Delivery {
	n := len(data)
	var d Delivery
	d.WithEnd = r.p(40)
	if r.p(40) {
		d.Scribble = 1 + r.n(len(garbage)-1)
	}
	if r.p(30) {
		k := 1 + r.n(4)
		for i := 0; i < k; i++ {
			d.Lat = append(d.Lat, r.logn(10000000))
		}
	}
	switch r.n(10) {
	case 0: // whole
	case 1: // byte by byte
		d.Rest = 1
	case 2: // constant small
		d.Rest = r.in(2, 9)
	case 3: // around the usual buffer size
		d.Rest = []int{4095, 4096, 4097, 2048, 1024, 512, 100}[r.n(7)]
		d.Chunks = []int{r.logn(4100)}
	case 4: // inside every multi-byte character
		last := 0
		for i := 1; i < n && len(d.Chunks) < 400; i++ {
			if data[i]&0xC0 == 0x80 {
				d.Chunks = append(d.Chunks, i-last)
				last = i
			}
		}
		d.Rest = r.logn(64)
	case 5: // with empty reads
		left := n
		for left > 0 && len(d.Chunks) < 300 {
			z := 0
			if r.p(40) {
				z = 1 + r.n(5)
				if r.p(5) {
					z = 20
				}
			}
			for j := 0; j < z; j++ {
				d.Chunks = append(d.Chunks, 0)
			}
			k := r.logn(200)
			d.Chunks = append(d.Chunks, k)
			left -= k
		}
	case 6: // at token boundaries
		last := 0
		for i := 1; i < n && len(d.Chunks) < 400; i++ {
			if (isWordByte(data[i]) != isWordByte(data[i-1])) && r.p(50) {
				d.Chunks = append(d.Chunks, i-last)
				last = i
			}
		}
	case 7: // two pieces
		d.Chunks = []int{r.in(1, n+1)}
	case 8: // the end arrives in an empty read after all data
		d.Chunks = []int{n, 0, 0}
		d.WithEnd = false
	default: // random sizes
		left := n
		max := []int{3, 16, 100, 5000}[r.n(4)]
		for left > 0 && len(d.Chunks) < 300 {
			k := r.logn(max)
			d.Chunks = append(d.Chunks, k)
			left -= k
		}
	}
	if r.p(10) {
		if m := magic(r, n); m > 0 {
			d.Chunks, d.Rest = []int{m}, []int{0, m, 1}[r.n(3)]
		}
	}
	if r.p(15) {
		d.Wrap = 1 + r.n(8)
	}
	return d
}

func isWordByte(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || b >= 0x80
}

// tokenBounds returns offsets of word/punctuation boundaries.
func tokenBounds(b []byte) []int {
	out := []int{0}
	for i := 1; i < len(b); i++ {
		if !isWordByte(b[i]) || !isWordByte(b[i-1]) {
			out = append(out, i)
		}
	}
	return append(out, len(b))
}

// genFaults makes a list of storage faults for text.
func genFaults(r *rng, text []byte, other []byte) []Fault {
	k := 1
	if r.p(35) {
		k = r.in(2, 4)
	}
	var out []Fault
	for i := 0; i < k; i++ {
		cur := applyFaults(text, out)
		out = append(out, genFault(r, cur, other))
	}
	return out
}

func tokAt(b []byte, bounds []int, i int) (int, int) {
	if i+1 >= len(bounds) {
		return len(b), 0
	}
	return bounds[i], bounds[i+1] - bounds[i]
}

var snippets = []string{";", ";;", "{", "}", "[", "]", "(", ")", "=", ",", ".", "\"", "'", "/", "//", "/*", "*/", "\\", "\x00", "-", "+", "<", ">", ":", "0", "1", "0x", "1e", "inf", "to", "max", "true", "option", "message", "enum", "oneof", "map", "group", "reserved", "extensions", "extend", "service", "rpc", "returns", "stream", "repeated", "optional", "required", "import", "public", "weak", "package", "syntax", "edition", "declaration", "number", "\ufeff", "\u00a0", "\xff", "\xe2\x82", "é", "\n", "\r", "\t", "\"x\"", "'y'", "1.5", "a", "_", "a.b", "{}", "[]", "= 1", "= ;", "a = 1;", "int32 a = 1;", "// c\n", "/* c */", "option a = 1;", "reserved 1;", "message M {}", "enum E { A = 0; }", "; // c"}

func genFault(r *rng, b []byte, other []byte) Fault {
	n := len(b)
	if n == 0 {
		return Fault{Op: "insert", B: Blob(snippets[r.n(len(snippets))])}
	}
	bounds := tokenBounds(b)
	pos := func() int {
		if r.p(70) {
			return bounds[r.n(len(bounds))]
		}
		return r.n(n + 1)
	}
	size := func() int {
		switch r.n(4) {
		case 0:
			return r.in(1, 4)
		case 1:
			return []int{8, 16, 32, 64, 128, 512}[r.n(6)]
		}
		return r.logn(n)
	}
	switch r.n(18) {
	case 14, 15, 16, 17: // records of the file's own structure lost, repeated or out of place
		if f, ok := genStructural(r, b, other); ok {
			return f
		}
	case 0:
		if r.p(25) { // the file begins like a file of another kind
			s := signatures[r.n(len(signatures))]
			if r.p(70) {
				return Fault{Op: "insert", At: 0, B: Blob(s)}
			}
			return Fault{Op: "replace", At: 0, B: Blob(s)}
		}
		return Fault{Op: "bit", At: r.n(n), To: r.n(8)}
	case 1:
		return Fault{Op: "zero", At: pos(), N: size()}
	case 2:
		return Fault{Op: "delete", At: pos(), N: size()}
	case 3, 4: // one or some tokens lost
		i := r.n(len(bounds))
		at, l := tokAt(b, bounds, i)
		if r.p(40) {
			j := i + 1 + r.n(6)
			if j >= len(bounds) {
				j = len(bounds) - 1
			}
			l = bounds[j] - at
			if l < 0 {
				l = 0
			}
		}
		return Fault{Op: "delete", At: at, N: l}
	case 5:
		at := pos()
		return Fault{Op: "dup", At: at, N: size(), To: pos()}
	case 6: // some tokens repeated in place
		i := r.n(len(bounds))
		at := bounds[i]
		j := i + 1 + r.n(4)
		if j >= len(bounds) {
			j = len(bounds) - 1
		}
		l := bounds[j] - at
		if l < 0 {
			l = 0
		}
		return Fault{Op: "dup", At: at, N: l, To: at + l}
	case 7:
		return Fault{Op: "swap", At: pos(), N: size()}
	case 8, 9, 10:
		s := snippets[r.n(len(snippets))]
		if r.p(30) { // a word again, or a token on its own
			at, l := tokAt(b, bounds, r.n(len(bounds)))
			if l > 0 && isWordByte(b[at]) && r.p(60) {
				s = string(b[at : at+l])
				if r.p(70) {
					return Fault{Op: "insert", At: at + l, B: Blob(" " + s)}
				}
			}
			s = " " + s + " "
		}
		return Fault{Op: "insert", At: pos(), B: Blob(s)}
	case 11: // a token overwritten by another one
		at, l := tokAt(b, bounds, r.n(len(bounds)))
		at2, l2 := tokAt(b, bounds, r.n(len(bounds)))
		x := append([]byte(nil), b[at2:at2+l2]...)
		if len(x) > l && l > 0 {
			x = x[:l]
		}
		return Fault{Op: "replace", At: at, B: x}
	case 12: // a stale or foreign block
		src := other
		if len(src) == 0 {
			src = b
		}
		at := r.n(len(src))
		l := size()
		if at+l > len(src) {
			l = len(src) - at
		}
		x := append([]byte(nil), src[at:at+l]...)
		return Fault{Op: "replace", At: pos(), B: x}
	}
	if i := bytes.IndexByte(b, '\n'); i > 0 && r.p(50) { // a whole line lost
		lines := bytes.Split(b, []byte("\n"))
		k := r.n(len(lines))
		at := 0
		for j := 0; j < k; j++ {
			at += len(lines[j]) + 1
		}
		return Fault{Op: "delete", At: at, N: len(lines[k]) + 1}
	}
	return Fault{Op: "truncate", At: pos()}
}

// signatures are the first bytes of byte order marks and of other kinds of files.
var signatures = []string{"\xff\xfe", "\xfe\xff", "\xef\xbb\xbf\xef\xbb\xbf", "\xef\xbb", "\xef", "\xff\xfe\x00\x00", "\x00\x00\xfe\xff", "+/v8", "\x0e\xfe\xff", "\x00", "\x1f\x8b\x08\x00", "#!/bin/sh\n", "\x7fELF", "PK\x03\x04", "\n", "\r\n", "\v", "\u2028", "\u200b", "#", "<?xml?>", "{", "\x1a", "\xff", "\xfe", "// -*- mode: protobuf -*-\n", "\ufffe"}

var isKeyword = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range [][]string{kwNames, builtin} {
		for _, w := range l {
			m[w] = true
		}
	}
	return m
}()

// variant returns a text of the same length in which some letters or digits of words differ.
func variant(r *rng, b []byte) []byte {
	out := append([]byte(nil), b...)
	bounds := tokenBounds(b)
	n := 1 + r.n(3)
	if r.p(30) {
		n = r.logn(30)
	}
	for try := 0; try < 100 && n > 0; try++ {
		at, l := tokAt(b, bounds, r.n(len(bounds)))
		if l == 0 || !isWordByte(b[at]) || l < 6 && r.p(50) || isKeyword[string(b[at:at+l])] && r.p(97) {
			continue
		}
		if at+l < len(b) && r.p(50) { // an end of a word rather than its middle
			at, l = at+l-1, 1
		}
		i := at + r.n(l)
		switch c := out[i]; {
		case '0' <= c && c <= '8' && i > 0 && b[i-1] != '0' && !isWordByte(b[i-1]):
			out[i] = '1' + byte(r.n(9))
		case '1' <= c && c <= '9':
			out[i] = '1' + byte(r.n(7))
		case 'a' <= c && c <= 'z':
			out[i] = 'a' + byte(r.n(26))
		case 'A' <= c && c <= 'Z':
			out[i] = 'A' + byte(r.n(26))
		default:
			continue
		}
		n--
	}
	return out
}

// spans returns the bracketed groups and the statements of b as byte ranges.
func spans(b []byte) (groups, stmts [][2]int) {
	m := &matcher{s: string(b), comments: map[string]int{}}
	var open []int
	begin := -1
	for {
		m.skip()
		if m.pos >= len(b) {
			return groups, stmts
		}
		if begin < 0 {
			begin = m.pos
		}
		end := m.pos + 1
		switch c := b[m.pos]; c {
		case '{', '[', '(', '<':
			open = append(open, m.pos)
			if c == '{' {
				stmts = append(stmts, [2]int{begin, end})
				begin = -1
			}
		case '}', ']', ')', '>':
			if n := len(open); n > 0 {
				groups = append(groups, [2]int{open[n-1], end})
				open = open[:n-1]
			}
			if c == '}' {
				begin = -1
			}
		case ';':
			stmts = append(stmts, [2]int{begin, end})
			begin = -1
		case '"', '\'':
			if e := literal(m.s, m.pos); e > 0 {
				end = e
			}
		}
		m.pos = end
	}
}

var statements = []string{"edition = \"2023\";", "syntax = \"proto3\";", "package a.b;", "import \"x\";", "import public \"y\";", "option a = 1;", "int32 a = 1;", "repeated .a.B c = 0x2;", "map<int32, a.B> m = 3;", "reserved 1, 2 to max;", "reserved \"a\", \"b\";", "extensions 100 to 200;", "optional group G = 1 { int32 a = 1; }", "oneof o { int32 a = 1; }", "rpc A (B) returns (stream C);", "rpc A (B) returns (C) { option a = 1; }", "A = 1 [a = 1];", "message M { int32 a = 1; }", "enum E { A = 0; }", "extend E { int32 a = 1; }", "service S { rpc A (B) returns (C); }", "extensions 1 [declaration = { number: 1, full_name: \".a\", type: \".b\" }];"}

// genStructural makes a fault that respects the boundaries of groups and statements.
func genStructural(r *rng, b, other []byte) (Fault, bool) {
	groups, stmts := spans(b)
	place := func() int {
		if len(stmts) == 0 || r.p(15) {
			return 0
		}
		s := stmts[r.n(len(stmts))]
		return s[r.n(2)]
	}
	piece := func(x [2]int) Blob { return append(Blob(nil), b[x[0]:x[1]]...) }
	switch r.n(9) {
	case 0, 1: // a group again, right behind itself or anywhere
		if len(groups) == 0 {
			return Fault{}, false
		}
		g := groups[r.n(len(groups))]
		to := g[1]
		if r.p(30) {
			to = groups[r.n(len(groups))][r.n(2)]
		}
		return Fault{Op: "dup", At: g[0], N: g[1] - g[0], To: to}, true
	case 2: // a group lost
		if len(groups) == 0 {
			return Fault{}, false
		}
		g := groups[r.n(len(groups))]
		return Fault{Op: "delete", At: g[0], N: g[1] - g[0]}, true
	case 3: // a statement again
		if len(stmts) == 0 {
			return Fault{}, false
		}
		s := stmts[r.n(len(stmts))]
		return Fault{Op: "dup", At: s[0], N: s[1] - s[0], To: place()}, true
	case 4: // a statement lost
		if len(stmts) == 0 {
			return Fault{}, false
		}
		s := stmts[r.n(len(stmts))]
		return Fault{Op: "delete", At: s[0], N: s[1] - s[0]}, true
	case 5: // a statement of another file
		_, so := spans(other)
		if len(so) == 0 {
			return Fault{}, false
		}
		s := so[r.n(len(so))]
		return Fault{Op: "insert", At: place(), B: append(Blob(nil), other[s[0]:s[1]]...)}, true
	case 6: // a group of one place at another
		if len(groups) < 2 {
			return Fault{}, false
		}
		return Fault{Op: "insert", At: groups[r.n(len(groups))][r.n(2)], B: piece(groups[r.n(len(groups))])}, true
	}
	// some statement, whole or damaged
	s := []byte(statements[r.n(len(statements))])
	if r.p(30) {
		s = genKindred(r, b)
	}
	if r.p(60) {
		bs := tokenBounds(s)
		at, l := tokAt(s, bs, r.n(len(bs)))
		var with []byte
		if r.p(60) {
			with = []byte(snippets[r.n(len(snippets))])
		}
		s = append(append(append([]byte{}, s[:at]...), with...), s[at+l:]...)
	}
	return Fault{Op: "insert", At: place(), B: s}, true
}

// genSoftFaults makes faults that often leave the text acceptable: names, numbers and white space
// changed, whole statements lost, repeated or exchanged.
func genSoftFaults(r *rng, text []byte) []Fault {
	var out []Fault
	for k := 1 + r.n(2)*r.n(3); k > 0; k-- {
		out = append(out, genSoftFault(r, applyFaults(text, out)))
	}
	return out
}

// pickStmt picks a statement, often of a kind that is rare in the text.
func pickStmt(r *rng, b []byte, stmts [][2]int) [2]int {
	s := stmts[r.n(len(stmts))]
	if r.p(40) {
		return s
	}
	first := func(s [2]int) string {
		i, j := s[0], s[0]
		for j < s[1] && isWordByte(b[j]) {
			j++
		}
		return string(b[i:j])
	}
	// a keyword of a statement, then a statement that begins with it
	kw := make([]string, 0, 8)
	for _, k := range []string{"import", "package", "option", "message", "enum", "service", "extend", "oneof", "map", "reserved", "extensions", "rpc", "optional", "repeated", "required", "syntax", "edition"} {
		if bytes.Contains(b, []byte(k)) {
			kw = append(kw, k)
		}
	}
	if len(kw) == 0 {
		return s
	}
	k := kw[r.n(len(kw))]
	at := r.n(len(stmts))
	for i := range stmts {
		if x := stmts[(at+i)%len(stmts)]; first(x) == k {
			return x
		}
	}
	return s
}

// akin returns a copy of a statement in which a word has become another one of the statement.
func akin(r *rng, s []byte) Blob {
	bounds := tokenBounds(s)
	type word struct{ at, l int }
	var ws []word
	for i := range bounds {
		if at, l := tokAt(s, bounds, i); l > 0 && isWordByte(s[at]) && s[at] < 0x80 {
			ws = append(ws, word{at, l})
		}
	}
	out := append(Blob(nil), s...)
	if len(ws) < 2 {
		return out
	}
	for try := 0; try < 8; try++ {
		x, y := ws[r.n(len(ws))], ws[r.n(len(ws))]
		if x == y || (s[x.at] <= '9') != (s[y.at] <= '9') {
			continue
		}
		w := s[y.at : y.at+y.l]
		if r.p(20) {
			w = []byte(itoa(1 + r.n(9)))
			if s[x.at] > '9' {
				w = append([]byte("x"), w...)
			}
		}
		return append(append(append(out[:0:0], s[:x.at]...), w...), s[x.at+x.l:]...)
	}
	return out
}

// kindred are statements that tell of another one: W, V stand for words of the text, N for a number.
var kindred = []string{"reserved \"W\";", "reserved W;", "reserved N;", "reserved N to N;", "reserved \"W\", \"V\";", "option W = V;", "option (W).V = N;", "option allow_alias = true;", "W = N;", "W = N [V = N];", "int32 W = N;", "V W = N;", "repeated V W = N;", "map<V, V> W = N;", "extensions N to N;", "extensions N;", "rpc W (V) returns (V);", "import \"W\";", "package W;", "package W.V;", "message W { }", "message W { int32 V = N; }", "enum W { V = N; }", "extend W { int32 V = N; }", "service W { }", "oneof W { V W = N; }"}

// genKindred makes a statement of the words and numbers of b.
func genKindred(r *rng, b []byte) Blob {
	bounds := tokenBounds(b)
	word := func(digits bool) []byte {
		for try := 0; try < 60; try++ {
			at, l := tokAt(b, bounds, r.n(len(bounds)))
			if l == 0 || !isWordByte(b[at]) || b[at] >= 0x80 || (b[at] <= '9') != digits {
				continue
			}
			if w := b[at : at+l]; digits || !isKeyword[string(w)] || r.p(5) {
				return w
			}
		}
		if digits {
			return []byte(itoa(1 + r.n(9)))
		}
		return []byte(words[r.n(len(words))])
	}
	var out Blob
	k := kindred[r.n(len(kindred))]
	if r.p(25) {
		k = kindred[r.n(5)]
	}
	for i := 0; i < len(k); i++ {
		alone := (i == 0 || !isWordByte(k[i-1])) && (i+1 == len(k) || !isWordByte(k[i+1]))
		switch {
		case alone && (k[i] == 'W' || k[i] == 'V'):
			out = append(out, word(false)...)
		case alone && k[i] == 'N':
			if r.p(20) {
				out = append(out, itoa(r.n(10))...)
			} else {
				out = append(out, word(true)...)
			}
		default:
			out = append(out, k[i])
		}
	}
	return out
}

func genSoftFault(r *rng, b []byte) Fault {
	bounds := tokenBounds(b)
	_, stmts := spans(b)
	for try := 0; try < 20; try++ {
		switch r.n(7) {
		case 0, 1: // a word becomes another one
			i := r.n(len(bounds))
			at, l := tokAt(b, bounds, i)
			if l == 0 || !isWordByte(b[at]) || b[at] >= 0x80 {
				continue
			}
			w := words[r.n(len(words))]
			if b[at] <= '9' {
				w = itoa(r.logn(100000))
				if r.p(30) {
					w = itoa(1 + r.n(5))
				}
			} else if r.p(30) {
				w = string(b[at:at+l]) + r.pick("x", "1", "_")
			}
			if r.p(45) {
				j := r.n(len(bounds))
				if r.p(60) { // one of the words in front
					if j = i - 1 - r.n(40); j < 0 {
						j = 0
					}
				}
				if a2, l2 := tokAt(b, bounds, j); l2 > 0 && isWordByte(b[a2]) && b[a2] < 0x80 && (b[a2] <= '9') == (b[at] <= '9') {
					w = string(b[a2 : a2+l2])
				}
			}
			if len(w) == l {
				return Fault{Op: "replace", At: at, B: Blob(w)}
			}
			return Fault{Op: "overwrite", At: at, N: l, B: Blob(w)}
		case 2: // white space or a comment more or less
			at := bounds[r.n(len(bounds))]
			if at < len(b) && (b[at] == ' ' || b[at] == '\n') && r.p(50) {
				return Fault{Op: "overwrite", At: at, N: 1, B: Blob(r.pick("\n", " ", "\n\n", "\t", " // c\n", "/* c */"))}
			}
			return Fault{Op: "insert", At: at, B: Blob(r.pick("\n", " ", "\n// c\n", " /* c */ ", "// c\n"))}
		case 3, 4: // a statement lost
			if len(stmts) == 0 {
				continue
			}
			s := stmts[r.n(len(stmts))]
			if b[s[1]-1] != ';' && r.p(80) {
				continue
			}
			return Fault{Op: "delete", At: s[0], N: s[1] - s[0]}
		case 5: // a statement again, or at another place
			if len(stmts) == 0 {
				continue
			}
			s := pickStmt(r, b, stmts)
			to := stmts[r.n(len(stmts))]
			if r.p(50) {
				to = s
			}
			if b[s[1]-1] != ';' {
				i := bytes.IndexByte(b[s[0]:s[1]], '{')
				if i < 0 || b[s[1]-1] != '}' || r.p(60) {
					continue
				}
				if r.p(40) {
					return Fault{Op: "dup", At: s[0], N: s[1] - s[0], To: s[1]}
				}
				return Fault{Op: "insert", At: s[r.n(2)], B: append(append(Blob(nil), b[s[0]:s[0]+i+1]...), '}')}
			}
			if r.p(30) {
				return Fault{Op: "insert", At: to[r.n(2)], B: genKindred(r, b)}
			}
			if r.p(50) {
				return Fault{Op: "insert", At: to[r.n(2)], B: akin(r, b[s[0]:s[1]])}
			}
			return Fault{Op: "dup", At: s[0], N: s[1] - s[0], To: to[r.n(2)]}
		default: // cut off behind a statement or in front of one
			if len(stmts) == 0 {
				continue
			}
			return Fault{Op: "truncate", At: stmts[r.n(len(stmts))][r.n(2)]}
		}
	}
	return genFault(r, b, nil)
}
