package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	register(&property{id: "C25", gen: genC25, run: runC25})
}

// --- C25 -----------------------------------------------------------------------------------

func genC25(r *rng, _ bool) *Case {
	strict := r.p(25)
	text := genSmall(r, strict, 900)
	c := &Case{Prop: "C25"}
	for i := r.n(12); i > 0; i-- {
		text = insertComment(r, text)
	}
	if r.p(25) {
		// a long token, perhaps where none may stand
		if bounds := tokenBounds(text); len(bounds) > 0 {
			n := r.logn(300)
			if m := magic(r, 2000); r.p(50) && m > 0 {
				n = m
			}
			word := strings.Repeat(r.pick("a", "1", "\u00e9", "ab_"), n)
			if r.p(30) {
				word = "\"" + word + "\""
			}
			at := bounds[r.n(len(bounds))]
			text = append(append(append([]byte(nil), text[:at]...), " "+word+" "...), text[at:]...)
		}
	}
	c.Texts = []Blob{text}
	k := Call{Kind: "parse", Opts: genOpts(r, strict)}
	switch {
	case r.p(35):
		k.Faults = genSoftFaults(r, text)
	case r.p(30):
		k.Faults = genFaults(r, text, nil)
	}
	if r.p(30) {
		k.Delivery = genDelivery(r, applyFaults(text, k.Faults))
	}
	n := r.in(1, 4)
	for i := 0; i < n; i++ {
		k.Sub = r.n(1 << 20)
		c.Calls = append(c.Calls, k)
	}
	c.Sched = genSchedule(r, n)
	return c
}

// insertComment puts a comment of a form that helpers may trip over between two tokens.
func insertComment(r *rng, text []byte) []byte {
	bits := []string{"/", "*", "//", "/*", "**", "\n", "\r\n", "\n\n", " ", "\t", "* a", "a", "b c", "\u00e9", "\\n", "\r", "\u2028", ""}
	var b strings.Builder
	block := r.p(65)
	for i := r.n(7); i > 0; i-- {
		b.WriteString(bits[r.n(len(bits))])
	}
	s := b.String()
	if block {
		for strings.Contains(s, "*/") {
			s = strings.ReplaceAll(s, "*/", "")
		}
		s = "/*" + s
		if strings.HasSuffix(s, "*") && r.p(50) {
			s += " "
		}
		s += "*/"
		if i := strings.Index(s[2:], "*/"); i >= 0 {
			s = s[:i+4]
		} else {
			s = "/**/"
		}
	} else {
		s = "//" + strings.NewReplacer("\n", "", "\r", "").Replace(s) + "\n"
	}
	bounds := tokenBounds(text)
	if len(bounds) == 0 {
		return text
	}
	at := bounds[r.n(len(bounds))]
	out := append([]byte(nil), text[:at]...)
	out = append(out, r.pick("", " ", "\n")+s...)
	return append(out, text[at:]...)
}

// helperUser asks a result for what it derives, in an order of its own.
type helperUser struct{ bad string }

func (u *helperUser) use(got *outcome, comments []*parser.Comment, data []byte, file string, order int) {
	says := func(what string, a, b interface{}) {
		if u.bad == "" && a != b {
			u.bad = fmt.Sprintf("%s is %q instead of %q", what, a, b)
		}
	}
	if got.err != nil {
		var me *meta.Error
		found, expected := "", ""
		if errors.As(got.err, &me) {
			found, expected = me.Found, me.Expected
		}
		first := got.err.Error()
		says("the message the second time", got.err.Error(), first)
		if me != nil {
			says("that the message has the found text", strings.Contains(me.Error(), strconv.Quote(found)), true)
			says("that the message has the expected text", strings.Contains(me.Error(), expected), true)
			u.place(says, me.Pos, file)
		}
		return
	}
	for i := range comments {
		x := comments[(i*(2*order+1)+order)%len(comments)]
		if order%2 == 0 {
			x = comments[(i+order)%len(comments)]
		}
		o := x.Meta.Pos.Offset
		if o < 0 || o+len(x.Raw) > len(data) {
			continue // C21
		}
		raw := string(data[o : o+len(x.Raw)])
		block := strings.HasPrefix(raw, "/*")
		says("IsCStyle of "+strconv.Quote(raw), x.IsCStyle(), block)
		for again := 0; again < 2; again++ {
			lines := x.Lines()
			joined := "//" + strings.Join(lines, "\n")
			if block {
				joined = "/*" + strings.Join(lines, "\n") + "*/"
			}
			says("the comment made of the lines of "+strconv.Quote(raw), joined, raw)
			for j := range lines {
				if strings.Contains(lines[j], "\n") {
					says("a line", lines[j], "without a line break")
				}
				lines[j] = "overwritten" // they are the caller's
			}
		}
		u.place(says, x.Meta.Pos, file)
		u.place(says, x.Meta.LastPos, file)
	}
	if s := got.tree.Syntax; s != nil {
		want := map[string]int{"proto2": 2, "proto3": 3}[strings.Trim(s.ProtobufVersionQuote, "\"'")]
		says("the version of "+s.ProtobufVersionQuote, s.Version(), want)
		u.place(says, s.Meta.Pos, file)
	}
}

func (u *helperUser) place(says func(string, interface{}, interface{}), pos meta.Position, file string) {
	if file == "" {
		file = "<input>"
	}
	says("the text of a position", pos.String(), fmt.Sprintf("%s:%d:%d", file, pos.Line, pos.Column))
}

func runC25(c *Case) *Violation {
	if len(c.Calls) == 0 {
		return nil
	}
	k := &c.Calls[0]
	data := c.content(k)
	if !utf8.Valid(data) {
		return nil
	}
	got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
	if got.fail != "" || !got.ok() && got.err == nil {
		return nil // C06
	}
	for _, f := range k.Faults {
		st.fault("storage: " + f.Op)
	}
	before := ""
	if got.err != nil {
		before = dumpMemory(got.err)
	} else {
		before = dumpMemory(got.tree)
	}
	var comments []*parser.Comment
	if got.ok() {
		comments = commentsOf(got.tree)
	}
	nontrivial = got.err != nil || len(comments) > 0 || got.tree.Syntax != nil
	s := newSim(c.Sched)
	var tasks []*simTask
	var users []*helperUser
	for i := range c.Calls {
		u := &helperUser{}
		users = append(users, u)
		order := c.Calls[i].Sub
		tasks = append(tasks, s.add(20*stepLimit(data), func() { u.use(got, comments, data, k.Opts.Filename, order) }))
	}
	s.Run()
	s.finish()
	if v := lockTrouble(s, tasks); v != nil {
		return v
	}
	for i, u := range users {
		if f := tasks[i].failure(); f != "" {
			return violf("helper", "task %d ends with %s", i, f)
		}
		if u.bad != "" {
			return violf("helper", "task %d: %s", i, u.bad)
		}
	}
	after := ""
	if got.err != nil {
		after = dumpMemory(got.err)
	} else {
		after = dumpMemory(got.tree)
	}
	if after != before {
		return violf("changed", "the result has changed: %s", firstDiff(before, after))
	}
	return nil
}
