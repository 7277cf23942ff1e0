package main

import (
	"bytes"
	"errors"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	register(&property{id: "C16", gen: genC16, run: runC16})
}

// --- C16 -----------------------------------------------------------------------------------

func genC16(r *rng, _ bool) *Case {
	c := &Case{Prop: "C16"}
	strict := r.p(40)
	text := genBase(r, strict)
	switch r.n(12) {
	case 0:
		text = genSoup(r)
	case 1:
		text = genNoise(r)
	}
	c.Texts = []Blob{text}
	var other []byte
	if r.p(30) {
		other = genSmall(r, strict, 300)
	}
	o := genOpts(r, strict)
	for i := 0; i < 4; i++ {
		k := Call{Kind: "parse", Opts: o}
		if r.p(90) {
			k.Faults = genFaults(r, text, other)
		}
		data := applyFaults(text, k.Faults)
		if r.p(40) {
			k.Delivery = genDelivery(r, data)
		}
		if r.p(15) {
			k.Stop = genStop(r, data, "eof")
			k.Stop.After = "sticky"
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

var posRe = regexp.MustCompile(`Pos=(.*?):(-?\d+):(-?\d+)\)`)

var foundRe = regexp.MustCompile(`found ("(?:[^"\\]|\\.)*") but expected`)

// place is a position an error mentions.
type place struct {
	file      string
	off       int // -1: not given
	line, col int
	found     string // what the error says is there
	has       bool
}

// foundText returns the token text that the error's Found names.
func foundText(found string) string {
	if i := strings.LastIndex(found, "(Token="); i > 0 {
		if q, err := strconv.Unquote(found[:i]); err == nil {
			return q
		}
	}
	return found
}

func errorPlaces(err error) []place {
	var ps []place
	// also the errors in the fields of errors that hold several
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(meta.Error{}) {
				p := v.FieldByName("Pos")
				ps = append(ps, place{p.FieldByName("Filename").String(), int(p.FieldByName("Offset").Int()), int(p.FieldByName("Line").Int()), int(p.FieldByName("Column").Int()), foundText(v.FieldByName("Found").String()), true})
			}
		}
	}
	var me *meta.Error
	if errors.As(err, &me) {
		walk(reflect.ValueOf(me), 0)
	}
	for _, q := range foundRe.FindAllStringSubmatch(err.Error(), -1) {
		found, e := strconv.Unquote(q[1])
		if e != nil {
			continue
		}
		if m := posRe.FindStringSubmatch(found); m != nil && strings.Contains(found, "(Token=") {
			l, e1 := strconv.Atoi(m[2])
			c, e2 := strconv.Atoi(m[3])
			if e1 == nil && e2 == nil {
				ps = append(ps, place{m[1], -1, l, c, foundText(found), true})
			}
		}
	}
	for _, m := range posRe.FindAllStringSubmatch(err.Error(), -1) {
		l, e1 := strconv.Atoi(m[2])
		c, e2 := strconv.Atoi(m[3])
		if e1 == nil && e2 == nil {
			ps = append(ps, place{m[1], -1, l, c, "", false})
		}
	}
	return ps
}

// offsetOf returns the byte offset of a line and column of data, -1 if there is none.
func offsetOf(data []byte, line, col int) int {
	l, c := 1, 1
	for i := 0; ; {
		if l == line && c == col {
			return i
		}
		if i >= len(data) {
			return -1
		}
		r, n := utf8.DecodeRune(data[i:])
		i += n
		if r == '\n' {
			l, c = l+1, 1
		} else {
			c++
		}
	}
}

// intactUntil returns the offset at which the first token (or comment) starts that the byte at k
// can have an influence on: the one that ends at k or holds it.
func intactUntil(text []byte, k int) int {
	m := &matcher{s: string(text), comments: map[string]int{}}
	for {
		// white space and comments, one at a time
		start := m.pos
		m.skip()
		if m.pos > start {
			if m.pos >= k {
				// a comment that ends behind k or at k may begin anywhere in between
				return lastGapStart(text[start:m.pos], start, k)
			}
			continue
		}
		if m.pos >= len(text) {
			return k
		}
		end := m.pos + 1
		switch b := text[m.pos]; {
		case b == '"' || b == '\'':
			if e := literal(m.s, m.pos); e > 0 {
				end = e
			}
		case isWordByte(b) || b == '.':
			for end < len(text) && (isWordByte(text[end]) || text[end] == '.' || (text[end] == '+' || text[end] == '-') && (text[end-1] == 'e' || text[end-1] == 'E')) {
				end++
			}
		}
		if end > k || end == k && !strings.ContainsRune(";{}()[]=,:", rune(text[m.pos])) {
			if m.pos > k {
				return k
			}
			return m.pos
		}
		m.pos = end
	}
}

// lastGapStart returns the start of the comment of gap that reaches k, or k.
func lastGapStart(gap []byte, off, k int) int {
	for i := 0; i < len(gap); {
		end := i + 1
		if i+1 < len(gap) && gap[i] == '/' {
			s := string(gap[i:])
			if gap[i+1] == '/' {
				end = len(gap)
				for j := i; j < len(gap); j++ {
					if gap[j] == '\n' {
						end = j + 1
						break
					}
				}
			} else if e := indexFrom(s, "*/", 2); e >= 0 {
				end = i + e + 2
			}
			if off+end >= k && off+i < k {
				return off + i
			}
		}
		if off+end > k {
			return k
		}
		i = end
	}
	return k
}

func indexFrom(s, sub string, from int) int {
	for i := from; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func runC16(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		text := []byte(c.Texts[k.Text])
		data := c.content(k)
		o := parseSolo(data, k.Opts, k.Delivery, k.Stop, 0)
		o.account(data)
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		if o.fail != "" || o.err == nil {
			continue
		}
		if k.Stop != nil && k.Stop.At < len(data) {
			data = data[:k.Stop.At]
		}
		if !utf8.Valid(data) {
			continue // positions in such content are not specified
		}
		ps := errorPlaces(o.err)
		if len(ps) == 0 {
			return violf("nowhere", "call %d: the error names no position: %v", i, o.err)
		}
		nontrivial = true
		far := -1
		for _, p := range ps {
			name := k.Opts.Filename
			if p.off < 0 && name == "" {
				name = "<input>"
			}
			if p.file != name {
				return violf("filename", "call %d: the error names the file %q instead of %q: %v", i, p.file, name, o.err)
			}
			off := offsetOf(data, p.line, p.col)
			if off < 0 {
				return violf("outside", "call %d: there is no line %d column %d in the content: %v", i, p.line, p.col, o.err)
			}
			if p.off >= 0 && p.off != off {
				return violf("offset", "call %d: line %d column %d is at offset %d, the error says %d: %v", i, p.line, p.col, off, p.off, o.err)
			}
			if p.has && !bytes.HasPrefix(data[off:], []byte(p.found)) {
				return violf("found", "call %d: the error says that %q was found at offset %d: %v", i, p.found, off, o.err)
			}
			if off > far {
				far = off
			}
		}
		if r, _ := utf8.DecodeRune(data[far:]); far < len(data) && unicode.IsSpace(r) {
			return violf("space", "call %d: the error points at white space, offset %d: %v", i, far, o.err)
		}
		full := parseSolo(text, k.Opts, plain, nil, 0)
		if !full.ok() {
			continue
		}
		d := 0
		for d < len(text) && d < len(data) && text[d] == data[d] {
			d++
		}
		for d > 0 && d < len(text) && !utf8.RuneStart(text[d]) {
			d--
		}
		if lo := intactUntil(text, d); far < lo {
			return violf("intact", "call %d: the content is intact up to offset %d, but the error points at %d: %v", i, lo, far, o.err)
		}
	}
	return nil
}
