package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
)

func init() {
	register(&property{id: "C29", gen: genC29, run: runC29})
}

// --- C29 -----------------------------------------------------------------------------------

func genC29(r *rng, thorough bool) *Case {
	c := genC13(r, thorough)
	c.Prop = "C29"
	if r.p(15) {
		c.Texts[0] = genBase(r, r.p(30))
		k := &c.Calls[0]
		if k.Faults != nil {
			k.Faults = genFaults(r, c.Texts[0], nil)
		}
		k.Delivery = genDelivery(r, c.Texts[0])
		if k.Stop != nil {
			k.Stop = genStop(r, c.Texts[0], k.Stop.Kind)
			k.Stop.After = "sticky"
		}
	}
	if r.p(30) {
		c.Texts[0] = genDense(r)
		c.Calls[0].Faults = nil
		k := &c.Calls[0]
		k.Delivery = genDelivery(r, c.Texts[0])
		if k.Stop != nil {
			k.Stop = genStop(r, c.Texts[0], k.Stop.Kind)
			k.Stop.After = "sticky"
		}
		mode := r.pick("lit", "number", "strlit", "comment")
		for i := range c.Ops {
			if r.p(70) {
				c.Ops[i].Mode = mode
			}
		}
	}
	none := r.p(40)
	ops := c.Ops[:0]
	for _, op := range c.Ops {
		if op.Do == "next" || op.Ins && !none {
			ops = append(ops, op)
		}
	}
	if len(ops) == 0 {
		ops = append(ops, Op{Do: "next", Mode: "lit"})
	}
	c.Ops = ops
	if r.p(30) {
		// the scanner itself, with any combination of modes
		c.Calls[0].Sub = 1
		same := r.n(64)
		for i := range c.Ops {
			c.Ops[i].At = same
			if r.p(60) {
				c.Ops[i].At = r.n(64)
			}
		}
	}
	return c
}

// genDense returns text made of the parts of one or two kinds of literals.
func genDense(r *rng) []byte {
	kinds := [][]string{
		{"0", "1", "7", "8", "9", "00", "12", ".", ".", "e", "E", "+", "-", "x", "X", "a", "f", "g", "inf", "nan", "0x", "_", "1e5", "1.5", "\uff11"},
		{"\"", "'", "\\", "\\x", "\\\"", "\\'", "\\\\", "\\0", "\\777", "\\u", "\\n", "1", "a", "\n", "\u00e9", "\x00"},
		{"/", "/", "*", "*", "//", "/*", "*/", "/**/", "**", "\n", "\r", "\r\n", "a", "\u00e9", "\u2028", "\\"},
		{"a", "_", ".", "true", "false", "inf", "nan", "message", "0", "-", "\u00e9", "A", "rpc"},
		{" ", "\t", "\n", "\r", "\v", "\f", "\u00a0", "\u0085", "\ufeff", "\u200b", ";", "{", "}", "=", "\x00"},
	}
	if r.p(40) {
		return genNearMiss(r)
	}
	main, other := kinds[r.n(len(kinds))], kinds[r.n(len(kinds))]
	if r.p(70) {
		// few parts, so that each stands beside each
		few := make([]string, r.in(2, 6))
		for i := range few {
			few[i] = main[r.n(len(main))]
		}
		main = few
	}
	var b []byte
	for n := 2 + r.logn(60); n > 0; n-- {
		k := main
		if r.p(15) {
			k = other
		}
		b = append(b, k[r.n(len(k))]...)
		if r.p(12) {
			b = append(b, r.pick(" ", "\n", ";", "\"", "'")...)
		}
	}
	return b
}

// genNearMiss returns literals and comments of one kind, most of them with a character too many, missing or exchanged.
func genNearMiss(r *rng) []byte {
	g := newGenerator(r, false)
	g.unicode = true
	kind := r.n(5)
	var b []byte
	for n := 1 + r.logn(12); n > 0; n-- {
		var lit string
		switch kind {
		case 0, 1:
			lit = g.floatLit()
			if r.p(50) {
				lit = g.anyInt()
			}
			if r.p(30) {
				lit = fmt.Sprintf("%d%s%s%d", r.n(20), r.pick("e", "E", ".5e", ".E"), r.pick("+", "-", ""), r.n(20))
			}
		case 2:
			lit = g.strLit()
			if len(lit) > 60 {
				lit = g.tinyLit()
			}
		case 3:
			lit = r.pick("// c", "/* c */", "/**/", "//", "/***/", "/* // */", "// /* */", "/* c\n*/", "/*\r\n*/") + r.pick("\n", " ", "")
		default:
			lit = r.pick("true", "false", "inf", "nan", "message", "a.b", "_a", "A1", "-inf", "+1")
		}
		cs := []rune(lit)
		for e := r.n(3); e > 0 && len(cs) > 0; e-- {
			i := r.n(len(cs))
			switch r.n(6) {
			case 0:
				cs = append(cs[:i:i], cs[i+1:]...)
			case 1:
				cs[i] = rune(r.pick("0", "8", "e", "+", "-", ".", "x", "\\", "\"", "'", "*", "/", "\n", "a", "\u00e9")[0])
			case 2:
				if i > 0 {
					cs[i], cs[i-1] = cs[i-1], cs[i]
				}
			default:
				cs = append(cs[:i+1:i+1], cs[i:]...)
			}
		}
		b = append(b, string(cs)...)
		b = append(b, r.pick(" ", "\n", ";", "", "\t", ",")...)
	}
	return b
}

// front is what the tokens come from: the lexer, or the scanner behind it.
type front struct {
	lex *lexer.Lexer
	sc  *scanner.Scanner

	token scanner.Token
	text  string
	raw   []rune
	pos   scanner.Position
	errs  int
}

func (f *front) load() {
	f.token, f.text, f.raw, f.pos = f.lex.Token, f.lex.Text, f.lex.RawText, f.lex.Pos
}

func (f *front) scan(mode int) {
	f.sc.Mode = scanner.Mode(mode)
	var err error
	f.token, f.text, f.pos, err = f.sc.Scan()
	f.errs = 0
	if err != nil {
		f.errs = 1
	}
	f.raw = f.sc.LastScanRaw()
}

func (f *front) next(mode string, mask int) {
	if f.sc != nil {
		f.scan(mask)
		return
	}
	lexErrs = 0
	nextMode(f.lex, mode)
	f.load()
	f.errs = lexErrs
}

// run performs the operations; each says when tokens have been taken.
func (f *front) run(ops []Op, each func(op Op)) {
	if f.lex != nil {
		lexRun(f.lex, ops, true, func(i int, extra string) {
			if !ops[i].Ins {
				f.load()
				f.errs = lexErrs
				each(ops[i])
			}
		})
		return
	}
	for _, op := range ops {
		if !op.Ins {
			f.scan(op.At)
			each(op)
			continue
		}
		n := op.N
		if n < 1 || op.Do == "nextun" {
			n = 1
		}
		var raws [][]rune
		for i := 0; i < n; i++ {
			f.scan((op.At + i*7) % 64)
			raws = append(raws, f.raw)
		}
		for i := n - 1; i >= 0; i-- {
			f.sc.SetLastScanRaw(raws[i])
			f.sc.UnScan()
		}
	}
}

// gap tells what is wrong with the text between two tokens, "" if it is white space and comments.
func gap(s string) string {
	for s != "" {
		r, n := utf8.DecodeRuneInString(s)
		switch {
		case unicode.IsSpace(r):
			s = s[n:]
		case strings.HasPrefix(s, "//"):
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				i = len(s)
			}
			s = s[i:]
		case strings.HasPrefix(s, "/*"):
			i := strings.Index(s[2:], "*/")
			if i < 0 {
				return s
			}
			s = s[i+4:]
		default:
			return s
		}
	}
	return ""
}

func runC29(c *Case) *Violation {
	if len(c.Calls) == 0 {
		return nil
	}
	k := &c.Calls[0]
	data := c.content(k)
	rd := newReader(data, k.Delivery, k.Stop, nil, new(int64))
	delivered := data
	if k.Stop != nil && k.Stop.At < len(data) {
		delivered = data[:k.Stop.At]
	}
	if k.Stop != nil && k.Stop.Kind != "eof" {
		// a character that an error cuts off is not delivered
		for n := 1; n < utf8.UTFMax && n <= len(delivered); n++ {
			if tail := delivered[len(delivered)-n:]; utf8.RuneStart(tail[0]) {
				if !utf8.FullRune(tail) {
					delivered = delivered[:len(delivered)-n]
				}
				break
			}
		}
	}
	chars := []rune(string(delivered))
	valid := utf8.Valid(delivered)
	f := &front{}
	if k.Sub == 1 {
		f.sc = scanner.NewScanner(readerOf(rd, k), scanner.WithFilename(k.Opts.Filename))
	} else {
		f.lex = lexer.NewLexer(readerOf(rd, k), lexer.WithFilename(k.Opts.Filename), lexer.WithDebug(k.Opts.Debug))
	}
	at, offset, line, col := 0, 0, 1, 1
	advance := func(rs []rune) {
		for _, x := range rs {
			offset += utf8.RuneLen(x)
			if x == '\n' {
				line, col = line+1, 1
			} else {
				col++
			}
		}
	}
	ends := 0
	check := func() string {
		raw := f.raw
		if bad := f.token == scanner.TILLEGAL && f.text == ""; bad != (f.errs == 1) || f.errs > 1 {
			return fmt.Sprintf("token %d %q comes with %d reported errors", f.token, f.text, f.errs)
		}
		if len(raw) > len(chars)-at || string(raw) != string(chars[at:at+len(raw)]) {
			return fmt.Sprintf("token %d %q has the raw text %q at character %d, which is not what stands there", f.token, f.text, cutText([]byte(string(raw))), at)
		}
		at += len(raw)
		if f.token == scanner.TEOF {
			ends++
			if at < len(chars) {
				return fmt.Sprintf("the end is reported at character %d of %d", at, len(chars))
			}
			if g := gap(string(raw)); g != "" {
				return fmt.Sprintf("skipped at the end: %q", g)
			}
			advance(raw)
		} else if len(raw) == 0 {
			return fmt.Sprintf("token %d %q has no raw text, at character %d of %d", f.token, f.text, at, len(chars))
		} else if f.text == "" {
			if f.token != scanner.TILLEGAL {
				return fmt.Sprintf("token %d without a text", f.token)
			}
			st.probe("lexical error")
			advance(raw)
			return ""
		} else {
			text := []rune(f.text)
			if f.token == scanner.TCOMMENT && strings.HasPrefix(f.text, "//") && raw[len(raw)-1] == '\n' {
				text = append(text, '\n') // the line break ends the comment, but is not in its text
			}
			if !strings.HasSuffix(string(raw), string(text)) {
				return fmt.Sprintf("token %d is %q, its raw text is %q", f.token, f.text, cutText([]byte(string(raw))))
			}
			lead := raw[:len(raw)-len(text)]
			if g := gap(string(lead)); g != "" {
				return fmt.Sprintf("skipped in front of token %d %q: %q", f.token, f.text, g)
			}
			advance(lead)
			defer advance(text)
		}
		if p := f.pos.Position; valid && (p.Offset != offset || p.Line != line || p.Column != col || p.Filename != k.Opts.Filename) {
			return fmt.Sprintf("token %d %q at %d (%d:%d) has the position %+v", f.token, f.text, offset, line, col, p)
		}
		return ""
	}
	bad := ""
	t := solo(stepLimit(data)*uint64(2+len(c.Ops)), func() {
		mode, mask := "lit", 0
		f.run(c.Ops, func(op Op) {
			if bad == "" {
				mode, mask = op.Mode, op.At
				bad = check()
			}
		})
		for n := 0; bad == "" && ends < 2; n++ {
			if n > len(chars)+4 {
				bad = "the end is not reported"
				return
			}
			f.next(mode, mask)
			bad = check()
		}
	})
	o := &outcome{rd: rd, steps: t.h.Steps}
	o.account(data)
	nontrivial = len(chars) > 0
	for _, d := range k.Faults {
		st.fault("storage: " + d.Op)
	}
	if t.failure() != "" {
		return nil // the operations themselves do not end: C06
	}
	if bad != "" {
		return violf("tokens", "%s", bad)
	}
	return nil
}
