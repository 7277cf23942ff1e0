package main

import (
	"bytes"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func init() {
	register(&property{id: "C26", gen: genC26, run: runC26})
	register(&property{id: "C27", gen: genC27, run: runC27})
}

// --- C26 -----------------------------------------------------------------------------------

func genC26(r *rng, _ bool) *Case {
	strict := r.p(35)
	text := genBase(r, strict)
	switch r.n(25) {
	case 0:
		text = genSoup(r)
	case 1:
		text = genNoise(r)
	}
	other := genBase(r, strict)
	c := &Case{Prop: "C26", Texts: []Blob{text}}
	n := 8
	if len(text) > 3000 {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Opts: genOpts(r, strict)}
		k.Opts.BodyComments = r.p(80)
		if i > 0 {
			if r.p(55) {
				k.Faults = genSoftFaults(r, text)
			} else {
				k.Faults = genFaults(r, text, other)
			}
		}
		data := applyFaults(text, k.Faults)
		if r.p(40) {
			k.Delivery = genDelivery(r, data)
		}
		if r.p(5) {
			k.Stop = genStop(r, data, "eof")
			k.Stop.After = "sticky"
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC26(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		bare := k.Opts
		bare.BodyComments, bare.Filename = false, ""
		a := parseSolo(data, bare, plain, k.Stop, 0)
		b := parseSolo(data, k.Opts, k.Delivery, k.Stop, 0)
		if k.Opts.BodyComments || k.Opts.Filename != "" {
			nontrivial = true
		}
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		if a.fail != "" || b.fail != "" {
			continue // C06
		}
		if a.ok() != b.ok() {
			return violf("outcome", "call %d: the options decide: without them %s, with %+v %s", i, a.short(), k.Opts, b.short())
		}
		if !a.ok() {
			st.probe("rejected")
			name := k.Opts.Filename
			x, y := stripOccurred(errKey(a.err)), stripOccurred(errKey(b.err))
			if name != "" && !bytes.Contains(data, []byte(name)) && !strings.Contains(x, name) {
				y = strings.ReplaceAll(y, name, "<input>")
			} else if name != "" {
				continue
			}
			if x != y {
				return violf("error", "call %d: with %+v the error is another one: %s", i, k.Opts, firstDiff(x, y))
			}
			continue
		}
		if hasComment(a.tree.ProtoBody) {
			return violf("comment", "call %d: a comment in a body that was not requested", i)
		}
		bad := ""
		if k.Opts.BodyComments {
			bad = takeComments(reflect.ValueOf(b.tree).Elem())
		}
		if bad != "" {
			return violf("comment", "call %d: %s", i, bad)
		}
		named := func(reflect.Type, string, int) bool { return false }
		if k.Opts.Filename != "" {
			named = func(_ reflect.Type, field string, _ int) bool { return field == "Filename" }
		}
		if x, y := dumpSkip(a.tree, named), dumpSkip(b.tree, named); x != y {
			return violf("altered", "call %d: %+v gives another tree: %s", i, k.Opts, firstDiff(x, y))
		}
	}
	return nil
}

// takeComments removes the comments from the bodies of a block, where they may only be at the end.
func takeComments(v reflect.Value) string {
	for i := 0; i < v.NumField(); i++ {
		b, ok := v.Field(i).Interface().([]parser.Visitee)
		if !ok || b == nil {
			continue
		}
		n := len(b)
		for n > 0 {
			if _, ok := b[n-1].(*parser.Comment); !ok {
				break
			}
			n--
		}
		if n < len(b) {
			st.probe("comments in a body")
			switch v.Addr().Interface().(type) {
			case *parser.Proto, *parser.Message, *parser.GroupField, *parser.Enum, *parser.Service, *parser.Extend:
			default:
				return "comments in the body of a " + v.Type().String()
			}
			kept := append([]parser.Visitee{}, b[:n]...)
			if n == 0 {
				kept = nil
			}
			v.Field(i).Set(reflect.ValueOf(kept))
		}
		for _, e := range b[:n] {
			if _, ok := e.(*parser.Comment); ok {
				return "a comment in a body, with an element behind it"
			}
			if x := reflect.ValueOf(e); x.Kind() == reflect.Ptr && !x.IsNil() {
				if bad := takeComments(x.Elem()); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

// --- C27 -----------------------------------------------------------------------------------

func genC27(r *rng, _ bool) *Case {
	strict := r.p(40)
	text := genBase(r, strict)
	switch r.n(16) {
	case 0:
		text = genSoup(r)
	case 1:
		text = genNoise(r)
	}
	other := genSmall(r, strict, 300)
	if r.p(10) {
		other = genBase(r, strict)
	}
	c := &Case{Prop: "C27", Texts: []Blob{text}}
	o := genOpts(r, strict)
	for i := 0; i < 4; i++ {
		k := Call{Kind: "parse", Opts: o}
		k.Faults = genFaults(r, text, other)
		data := applyFaults(text, k.Faults)
		if r.p(40) {
			k.Delivery = genDelivery(r, data)
		}
		k.Rests = []Blob{{}, Blob(other)}
		for j := 0; j < 3; j++ {
			rest := []byte(behind[r.n(len(behind))])
			switch {
			case r.p(30):
				bs := tokenBounds(data)
				rest = append(rest, data[bs[r.n(len(bs))]:]...)
			case r.p(10):
				rest = bytes.Repeat(append(rest, ' '), 1+r.logn(3000))
			}
			k.Rests = append(k.Rests, rest)
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

// tokenEnd returns the end of the token at off, or -1 if that is not plain to see.
func tokenEnd(data []byte, off int) int {
	if off >= len(data) {
		return -1
	}
	c := data[off]
	switch {
	case c == '"' || c == '\'':
		if e := literal(string(data), off); e > 0 && !bytes.ContainsAny(data[off:e], "\n\x00") {
			return e
		}
		return -1
	case c == '/':
		return -1
	case isWordByte(c) || c == '.':
		e := off + 1
		for e < len(data) && (isWordByte(data[e]) || data[e] == '.' || (data[e] == '+' || data[e] == '-') && (data[e-1] == 'e' || data[e-1] == 'E')) {
			e++
		}
		return e
	}
	r, n := utf8.DecodeRune(data[off:])
	if unicode.IsSpace(r) {
		return -1
	}
	return off + n
}

// behind are things that may stand behind a damaged place.
var behind = []string{"", "}", "}}}}", "{ {", "\"", "'", "/*", "//", "\xff", "\x00", "; message A { }", "] ;", ")", ";", "\n\n\n", "1", "= 1;", "// c\n", "/* c */", "option", ".", "syntax = \"proto2\";", "{ } ;", "\ufeff", "@"}

func runC27(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		a := parseSolo(data, k.Opts, plain, nil, 0)
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		if a.fail != "" || a.err == nil || a.tree != nil {
			continue
		}
		far, valid := -1, true
		for _, p := range errorPlaces(a.err) {
			off := offsetOf(data, p.line, p.col)
			if off < 0 {
				valid = false
			}
			if off > far {
				far = off
			}
		}
		end := -1
		if valid && far >= 0 {
			end = tokenEnd(data, far)
		}
		if end < 0 || !utf8.Valid(data[:end]) {
			st.probe("error without a token")
			continue
		}
		nontrivial = true
		want := stripOccurred(errKey(a.err))
		for _, rest := range k.Rests {
			next := append([]byte(nil), data[:end]...)
			sep := "\n"
			if x, n := utf8.DecodeRune(data[end:]); end < len(data) && unicode.IsSpace(x) {
				sep = string(data[end : end+n])
			}
			next = append(next, sep...)
			next = append(next, rest...)
			b := parseSolo(next, k.Opts, k.Delivery, nil, 0)
			if b.fail != "" {
				continue
			}
			if b.ok() {
				return violf("accepted", "call %d: the error was %s, with %q behind that place the content is accepted", i, a.err, cutText(rest))
			}
			if got := stripOccurred(errKey(b.err)); got != want {
				return violf("another", "call %d: with %q behind the place the error is another one: %s", i, cutText(rest), firstDiff(want, got))
			}
		}
	}
	return nil
}

func cutText(b []byte) string {
	if len(b) > 60 {
		return string(b[:60]) + "..."
	}
	return string(b)
}
