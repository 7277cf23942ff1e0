package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	register(&property{id: "C21", gen: genC21, run: runC21})
}

// --- C21 -----------------------------------------------------------------------------------

func genC21(r *rng, _ bool) *Case {
	strict := r.p(30)
	text := genBase(r, strict)
	other := genBase(r, strict)
	c := &Case{Prop: "C21", Texts: []Blob{text}}
	n := 8
	if len(text) > 3000 {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Opts: genOpts(r, strict)}
		if i > 0 {
			if r.p(60) {
				k.Faults = genSoftFaults(r, text)
			} else {
				k.Faults = genFaults(r, text, other)
			}
		}
		if r.p(30) {
			k.Delivery = genDelivery(r, applyFaults(text, k.Faults))
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

// placer knows lines and columns of a content.
type placer struct {
	t    []byte
	file string
	at   map[int][2]int
}

func newPlacer(t []byte, file string) *placer {
	p := &placer{t: t, file: file, at: make(map[int][2]int, len(t)+1)}
	line, col := 1, 1
	for i := 0; i < len(t); {
		p.at[i] = [2]int{line, col}
		r, n := utf8.DecodeRune(t[i:])
		i += n
		col++
		if r == '\n' {
			line++
			col = 1
		}
	}
	return p
}

func (p *placer) wrong(what string, pos meta.Position, off int) string {
	at := p.at[off]
	if want := (meta.Position{Filename: p.file, Offset: off, Line: at[0], Column: at[1]}); pos != want {
		return fmt.Sprintf("%s is %+v instead of %+v", what, pos, want)
	}
	return ""
}

func (p *placer) mark(e interface{}, x meta.Meta, first, last int) string {
	if _, ok := e.(*parser.EmptyStatement); ok {
		return "" // has no position
	}
	if m := p.wrong(fmt.Sprintf("the position of a %T", e), x.Pos, first); m != "" {
		return m
	}
	return p.wrong(fmt.Sprintf("the last position of a %T", e), x.LastPos, last)
}

func runC21(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		if !utf8.Valid(data) {
			continue
		}
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		if !got.ok() {
			continue
		}
		nontrivial = true
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		p := newPlacer(data, k.Opts.Filename)
		if msg := conserveAt(got.tree, data, p.mark); msg != "" {
			return violf("misplaced", "call %d: %s", i, msg)
		}
		for _, x := range commentsOf(got.tree) {
			o := x.Meta.Pos.Offset
			if o < 0 || o+len(x.Raw) > len(data) || string(data[o:o+len(x.Raw)]) != x.Raw {
				return violf("misplaced", "call %d: comment %q does not stand at its place %+v", i, x.Raw, x.Meta.Pos)
			}
			m := p.wrong(fmt.Sprintf("the position of comment %q", x.Raw), x.Meta.Pos, o)
			if m == "" {
				m = p.wrong(fmt.Sprintf("the last position of comment %q", x.Raw), x.Meta.LastPos, o+lastRune([]byte(x.Raw)))
			}
			if m != "" {
				return violf("misplaced", "call %d: %s", i, m)
			}
		}
	}
	return nil
}
