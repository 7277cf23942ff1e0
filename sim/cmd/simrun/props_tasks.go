package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func init() {
	register(&property{id: "C07", gen: genC07, run: runC07, race: true})
	register(&property{id: "C08", gen: genC08, run: runC08, race: true})
	register(&property{id: "C09", gen: genC09, run: runC09})
	register(&property{id: "C10", gen: genC10, run: runC10})
	register(&property{id: "C14", gen: genC14, run: runC14, race: true})
}

// genSmall makes a text of limited size.
func genSmall(r *rng, strict bool, max int) []byte {
	if r.p(12) {
		for try := 0; try < 6; try++ {
			if b := genBase(r, strict); len(b) <= 6*max {
				return b
			}
		}
	}
	g := newGenerator(r, strict)
	if g.budget > max/12 {
		g.budget = 2 + max/12
	}
	g.file()
	return g.render()
}

func genSchedule(r *rng, tasks int) *Schedule {
	s := &Schedule{Seed: r.u64()}
	switch r.n(12) {
	case 0:
		s.Policy = "reads"
	case 1:
		s.Policy, s.Mean = "rr", r.logn(300)
	case 2, 3:
		s.Policy, s.Mean = "bursts", r.logn(3000)
	case 4, 5, 6:
		s.Policy, s.Mean = "pct", 500+r.logn(30000)*tasks
	default:
		s.Policy, s.Mean = "random", []int{1, 2, 5, 20, 60, 200, 1000}[r.n(7)]
	}
	return s
}

func (s *Sim) finish() {
	st.Switches += int64(s.switches)
	st.SimNanos += s.now
	schedHash = s.hash
	curTrace = s.trace
	digest = mix(digest ^ s.hash)
	if s.switches > len(s.tasks) {
		st.Schedules[s.hash] = true
	}
}

// --- C07 -----------------------------------------------------------------------------------

func genC07(r *rng, _ bool) *Case {
	c := &Case{Prop: "C07"}
	n := []int{2, 2, 2, 3, 3, 4, 6}[r.n(7)]
	nt := 1 + r.n(n)
	strict := r.p(25)
	size := 500
	if r.n(250) == 0 { // a crowd
		n, nt, size = r.in(20, 140), 1+r.n(6), 60
	}
	for i := 0; i < nt; i++ {
		if i > 0 && r.p(20) {
			c.Texts = append(c.Texts, variant(r, c.Texts[r.n(i)]))
			continue
		}
		c.Texts = append(c.Texts, genSmall(r, strict, size))
	}
	deep := r.n(400) == 0 // nesting in every task, which stalls in its middle
	if deep {
		n, nt, size = r.in(2, 6), 1, 0
		c.Texts = []Blob{genDeepOf(r, strict, r.in(2000, 6000))}
	}
	shared := r.n(1 << 30)
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Text: r.n(nt), Opts: genOpts(r, strict != r.p(15))}
		if r.p(4) {
			k.Opts.Debug = true
		}
		text := c.Texts[k.Text]
		fr := r
		if r.p(15) { // the same storage faults for several tasks
			fr = newRng(uint64(shared))
		}
		if fr.p(25) {
			k.Faults = genFaults(fr, text, nil)
		}
		data := applyFaults(text, k.Faults)
		if r.p(80) {
			k.Delivery = genDelivery(r, data)
			if len(k.Delivery.Lat) == 0 && r.p(50) {
				k.Delivery.Lat = []int{r.logn(1000)}
			}
		}
		switch r.n(9) {
		case 0:
			k.Stop = genStop(r, data, "err")
		case 1:
			k.Stop = genStop(r, data, "stall")
		case 2:
			k.Stop = genStop(r, data, r.pick("panic", "goexit", "eof"))
		}
		if deep && r.p(80) {
			k.Stop = &Stop{At: len(data)/2 - r.n(20), Kind: "stall", Err: "EIO"}
		}
		if k.Stop != nil {
			k.Stop.After = "sticky"
		}
		c.Calls = append(c.Calls, k)
	}
	c.Sched = genSchedule(r, n)
	if size < 500 && c.Sched.Mean < 300 {
		c.Sched.Mean = 300 + r.n(2000)
	}
	return c
}

// simParse adds a task that parses.
func simParse(s *Sim, c *Case, k *Call) (*simTask, *outcome) {
	data := c.content(k)
	out := &outcome{}
	var t *simTask
	t = s.add(stepLimit(data), func() {
		out.tree, out.err = protoparser.Parse(readerOf(out.rd, k), options(k.Opts)...)
	})
	out.rd = newReader(data, k.Delivery, k.Stop, t, nil)
	return t, out
}

func readerOf(rd *SimReader, k *Call) io.Reader {
	if k.Delivery.Wrap != 0 && k.Reader == 0 {
		return rd.wrap(k.Delivery.Wrap)
	}
	return rd.as(k.Reader)
}

func runC07(c *Case) *Violation {
	s := newSim(c.Sched)
	var tasks []*simTask
	var outs []*outcome
	for i := range c.Calls {
		t, o := simParse(s, c, &c.Calls[i])
		tasks = append(tasks, t)
		outs = append(outs, o)
	}
	s.Run()
	s.finish()
	if v := lockTrouble(s, tasks); v != nil {
		return v
	}
	if s.switches > len(tasks) {
		nontrivial = true
	}
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		outs[i].fill(tasks[i])
		outs[i].account(data)
		if k.Stop != nil && outs[i].rd.fired {
			st.fault("in a task: " + k.Stop.Kind)
		}
		if outs[i].rd.foreign > 0 {
			return violf("foreign-read", "another call reads from the reader of call %d", i)
		}
		want := parseSolo(data, k.Opts, k.Delivery, k.Stop, k.Reader)
		if w, g := want.key(), outs[i].key(); w != g {
			return violf("isolation", "call %d of %d concurrent ones differs from the same call alone: %s", i, len(c.Calls), firstDiff(w, g))
		}
	}
	return nil
}

func lockTrouble(s *Sim, tasks []*simTask) *Violation {
	if s.deadlock {
		return violf("deadlock", "the calls wait for each other for ever")
	}
	if s.lockStall {
		return violf("delayed", "a call cannot go on while another one is stalled outside of the library")
	}
	return nil
}

// --- C08 -----------------------------------------------------------------------------------

var visitKinds = []string{"Comment", "Declaration", "Edition", "EmptyStatement", "Enum", "EnumField", "Extend", "Extensions", "Field", "GroupField", "Import", "MapField", "Message", "Oneof", "OneofField", "Option", "Package", "Reserved", "RPC", "Service", "Syntax"}

func genAnswers(r *rng, k *Call, visits int, what []string) {
	switch r.n(4) {
	case 0:
		n := 1 + r.n(3)
		for i := 0; i < n; i++ {
			k.Refuse = append(k.Refuse, visitKinds[r.n(len(visitKinds))])
		}
	case 1:
		p := []int{3, 15, 40}[r.n(3)]
		for i := 0; i < visits; i++ {
			if r.p(p) {
				k.Answers = append(k.Answers, Answer{i, "no"})
			}
		}
	}
	n := r.n(4)
	if len(what) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		k.Answers = append(k.Answers, Answer{r.n(visits + 1), what[r.n(len(what))]})
	}
}

func genC08(r *rng, _ bool) *Case {
	c := &Case{Prop: "C08"}
	strict := r.p(25)
	c.Texts = []Blob{genSmall(r, strict, 600)}
	o := genOpts(r, strict)
	n := []int{1, 2, 2, 2, 3, 3, 4, 5}[r.n(8)]
	visits := 3 + len(c.Texts[0])/12
	for i := 0; i < n; i++ {
		k := Call{Kind: "accept", Opts: o}
		if r.p(45) {
			k.Kind = "interpret"
			if r.p(40) {
				k.Sub = 1 + r.n(12)
			}
		} else {
			genAnswers(r, &k, visits, []string{"panic", "stall", "sleep", "sleep", "accept", "interpret", "self", "goexit"})
		}
		if r.p(20) {
			k.Times = 2
		}
		c.Calls = append(c.Calls, k)
	}
	c.Sched = genSchedule(r, n)
	return c
}

// walker performs the traversals and interpretations of a call on a tree.
type walker struct {
	vis    []*simVisitor
	interp []interface{}
	errs   []error
	fail   string
}

func (w *walker) key() string {
	var b bytes.Buffer
	for _, v := range w.vis {
		fmt.Fprintf(&b, "visits %v %d\n", v.seq, v.sum)
	}
	for i, x := range w.interp {
		// error messages of the interpretation show addresses
		fmt.Fprintf(&b, "interpretation %s %s\n", address.ReplaceAllString(errKey(w.errs[i]), "0x"), dump(x))
	}
	b.WriteString(w.fail)
	return b.String()
}

var address = regexp.MustCompile(`0x[0-9a-f]+`)

func (w *walker) run(x *index, tree *parser.Proto, k *Call, t *simTask) {
	for i := 0; i < 1 || i < k.Times; i++ {
		if k.Kind == "interpret" {
			res, err := interpret(tree, k.Sub)
			w.interp = append(w.interp, res)
			w.errs = append(w.errs, err)
			continue
		}
		v := newVisitor(x, k, t, tree)
		w.vis = append(w.vis, v)
		tree.Accept(v)
	}
}

// interpret interprets the file (sub 0) or one of its blocks.
func interpret(tree *parser.Proto, sub int) (interface{}, error) {
	if sub > 0 && tree != nil && len(tree.ProtoBody) > 0 {
		switch b := tree.ProtoBody[sub%len(tree.ProtoBody)].(type) {
		case *parser.Message:
			if b != nil {
				return unordered.InterpretMessage(b)
			}
		case *parser.Enum:
			if b != nil {
				return unordered.InterpretEnum(b)
			}
		case *parser.Service:
			if b != nil {
				return unordered.InterpretService(b)
			}
		case *parser.Extend:
			if b != nil {
				return unordered.InterpretExtend(b)
			}
		}
	}
	if sub%7 == 3 {
		return unordered.InterpretProto(tree)
	}
	return protoparser.UnorderedInterpret(tree)
}

func runC08(c *Case) *Violation {
	if len(c.Calls) == 0 {
		return nil
	}
	data := c.content(&c.Calls[0])
	o := c.Calls[0].Opts
	shared := parseSolo(data, o, plain, nil, 0)
	own := parseSolo(data, o, plain, nil, 0)
	if !shared.ok() || !own.ok() {
		return nil
	}
	before, alone := dumpMemory(shared.tree), dumpMemory(own.tree)
	xs, xo := buildIndex(shared.tree), buildIndex(own.tree)
	lim := 20 * stepLimit(data)
	// alone, on a tree of its own
	want := make([]*walker, len(c.Calls))
	for i := range c.Calls {
		w := &walker{}
		want[i] = w
		s := newSim(nil)
		var t *simTask
		t = s.add(lim, func() { w.run(xo, own.tree, &c.Calls[i], t) })
		s.Run()
		w.fail = t.failure()
		if d := dumpMemory(own.tree); d != alone {
			return violf("changed", "%s alone changes the tree: %s", c.Calls[i].Kind, firstDiff(alone, d))
		}
	}
	s := newSim(c.Sched)
	var tasks []*simTask
	got := make([]*walker, len(c.Calls))
	for i := range c.Calls {
		w := &walker{}
		got[i] = w
		k := &c.Calls[i]
		id := i
		tasks = append(tasks, s.add(lim, func() { w.run(xs, shared.tree, k, s.tasks[id]) }))
	}
	s.Run()
	s.finish()
	if v := lockTrouble(s, tasks); v != nil {
		return v
	}
	nontrivial = nontrivial || s.switches > len(tasks) || len(tasks) == 1
	for i, w := range got {
		w.fail = tasks[i].failure()
		for _, a := range c.Calls[i].Answers {
			st.fault("visitor: " + a.Do)
		}
		if a, b := want[i].key(), w.key(); a != b {
			return violf("walk", "%s %d on the shared tree differs from the same alone: %s", c.Calls[i].Kind, i, firstDiff(a, b))
		}
	}
	if d := dumpMemory(shared.tree); d != before {
		return violf("changed", "the tree has changed: %s", firstDiff(before, d))
	}
	return nil
}

// --- C09 -----------------------------------------------------------------------------------

func genC09(r *rng, _ bool) *Case {
	c := &Case{Prop: "C09"}
	strict := r.p(25)
	text := genBase(r, strict)
	c.Texts = []Blob{text}
	o := genOpts(r, strict)
	fs := []Fault(nil)
	if r.p(20) {
		fs = genFaults(r, text, nil)
	}
	visits := 3 + len(text)/14
	for i := 0; i < 6; i++ {
		k := Call{Kind: "accept", Opts: o, Faults: fs}
		genAnswers(r, &k, visits, []string{"panic", "no", "no", "no", "no"})
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC09(c *Case) *Violation {
	if len(c.Calls) == 0 {
		return nil
	}
	data := c.content(&c.Calls[0])
	out := parseSolo(data, c.Calls[0].Opts, plain, nil, 0)
	if !out.ok() {
		return nil
	}
	x := buildIndex(out.tree)
	if len(x.nodes) < 2 {
		return nil
	}
	lim := stepLimit(data)
	walk := func(k *Call) (*simVisitor, *simTask) {
		v := newVisitor(x, k, nil, out.tree)
		t := solo(lim, func() { out.tree.Accept(v) })
		return v, t
	}
	full, t := walk(&Call{})
	if f := t.failure(); f != "" {
		return violf("fail", "the full traversal ends with %s", f)
	}
	if msg := checkFull(x, full); msg != "" {
		return violf("full", "full traversal: %s", msg)
	}
	nontrivial = true
	for i := range c.Calls {
		k := &c.Calls[i]
		want, panics := expectVisits(x, full.seq, k)
		v, t := walk(k)
		for _, a := range k.Answers {
			st.fault("visitor: " + a.Do)
		}
		if at := equalSeq(want, v.seq); at >= 0 {
			lo := at - 3
			if lo < 0 {
				lo = 0
			}
			tail := func(s []int) []int {
				if lo > len(s) {
					return nil
				}
				return s[lo:]
			}
			return violf("prune", "traversal %d differs at visit %d: expected%s, got%s", i, at, seqString(x, tail(want)), seqString(x, tail(v.seq)))
		}
		switch {
		case panics && (v.pval == nil || t.panicked != interface{}(v.pval)):
			return violf("panic", "traversal %d: the visitor's panic does not reach the caller (%s)", i, t.failure())
		case !panics && t.failure() != "":
			return violf("fail", "traversal %d ends with %s", i, t.failure())
		}
	}
	return nil
}

// --- C10 -----------------------------------------------------------------------------------

// genHistoryCall makes a call for a history.
func genHistoryCall(r *rng, c *Case) Call {
	k := Call{Kind: r.pick("parse", "parse", "parse", "parse", "parse", "accept", "interpret", "edit", "lex", "drive")}
	strict := r.p(30)
	if len(c.Texts) > 0 && r.p(40) {
		k.Text = r.n(len(c.Texts))
	} else {
		var t []byte
		switch {
		case r.p(10):
			t = genSoup(r)
		case len(c.Texts) > 0 && r.p(35):
			t = variant(r, c.Texts[r.n(len(c.Texts))])
		default:
			t = genSmall(r, strict, 400)
		}
		c.Texts = append(c.Texts, t)
		k.Text = len(c.Texts) - 1
	}
	k.Opts = genOpts(r, strict)
	k.Opts.Debug = r.p(10)
	text := c.Texts[k.Text]
	if r.p(30) {
		k.Faults = genFaults(r, text, nil)
	}
	data := applyFaults(text, k.Faults)
	if r.p(50) {
		k.Delivery = genDelivery(r, data)
		k.Delivery.Lat = nil
	}
	if k.Kind == "parse" || k.Kind == "lex" || k.Kind == "drive" {
		k.Sub = r.n(1 << 30)
		switch r.n(7) {
		case 0:
			k.Stop = genStop(r, data, "err")
		case 1:
			k.Stop = genStop(r, data, "panic")
		case 2:
			k.Stop = genStop(r, data, "stall")
		case 3:
			k.Stop = genStop(r, data, r.pick("goexit", "eof", "zeros"))
		}
		if k.Stop != nil {
			k.Stop.After = "sticky"
		} else if r.p(30) {
			k.Slot = 1 + r.n(slots)
		}
	} else if k.Kind == "edit" {
		k.Sub, k.Times = r.n(1<<30), 1+r.n(3)
	} else if k.Kind == "accept" {
		genAnswers(r, &k, 3+len(text)/12, []string{"panic", "stall", "accept", "interpret", "self", "goexit"})
	}
	return k
}

const poolSize = 48

// poolCall returns probe j. Probes are the same in all runs, so that their outcome in a fresh
// process has to be found only once.
func poolCall(j int) (Blob, Call) {
	c := &Case{}
	r := newRng(0xf4e54, uint64(j))
	k := genHistoryCall(r, c)
	t := c.Texts[k.Text]
	k.Text = 0
	k.Fresh = true
	return t, k
}

func genC10(r *rng, _ bool) *Case {
	c := &Case{Prop: "C10"}
	n := r.in(3, 9)
	for i := 0; i < n; i++ {
		switch r.n(11) {
		case 10:
			t, k := canaryCall(r)
			c.Texts = append(c.Texts, t)
			k.Text = len(c.Texts) - 1
			c.Calls = append(c.Calls, k)
		case 0, 1, 2:
			t, k := poolCall(r.n(poolSize))
			c.Texts = append(c.Texts, t)
			k.Text = len(c.Texts) - 1
			c.Calls = append(c.Calls, k)
		case 3:
			if len(c.Calls) > 0 {
				k := c.Calls[r.n(len(c.Calls))]
				if r.p(50) {
					k.Stop = nil
				}
				c.Calls = append(c.Calls, k)
				continue
			}
			fallthrough
		default:
			c.Calls = append(c.Calls, genHistoryCall(r, c))
		}
	}
	c.Young = r.n(len(c.Calls))
	if r.n(25) == 0 { // a last call that nobody has seen before
		c.Calls[len(c.Calls)-1].Fresh = true
	}
	return c
}

// histCall runs one call of a history as a task.
type histCall struct {
	out    *outcome
	w      *walker
	t      *simTask
	edited bool
	stale  string
	log    strings.Builder // of the lexer
}

func (h *histCall) key() string {
	h.out.fill(h.t)
	if h.log.Len() > 0 {
		return h.log.String() + "\n" + h.t.failure()
	}
	if h.edited {
		return h.out.key() // the edited tree
	}
	if h.w != nil && (len(h.w.vis) > 0 || len(h.w.interp) > 0) {
		h.w.fail = h.t.failure()
		return h.w.key()
	}
	return h.out.key()
}

func addHist(s *Sim, c *Case, k *Call) *histCall {
	data := c.content(k)
	h := &histCall{out: &outcome{}}
	if k.Kind != "parse" {
		h.w = &walker{}
	}
	h.t = s.add(20*stepLimit(data), func() {
		if k.Kind == "lex" || k.Kind == "drive" {
			h.lowLevel(k)
			return
		}
		h.out.tree, h.out.err = protoparser.Parse(h.input(k), options(k.Opts)...)
		atomic.StoreInt32(&h.out.rd.returned, 1)
		if k.Kind != "parse" && h.out.err == nil && h.out.tree != nil {
			if k.Kind == "edit" {
				h.stale = editTree(h.out.tree, k)
				h.edited = true
				return
			}
			h.w.run(buildIndex(h.out.tree), h.out.tree, k, h.t)
		}
	})
	h.out.rd = newReader(data, k.Delivery, k.Stop, h.t, nil)
	h.out.rd.quiet = true
	return h
}

// slotReader is a reader object that is used for several calls.
type slotReader struct{ io.Reader }

const slots = 7

// input returns the reader for a call. A slot is a reader object that all calls of the history
// with the same slot use one after the other, each with its own content.
func (h *histCall) input(k *Call) io.Reader {
	if k.Slot <= 0 || k.Stop != nil {
		return readerOf(h.out.rd, k)
	}
	s := h.t.sim
	if s.slots == nil {
		s.slots = map[int]interface{}{}
	}
	data := h.out.rd.data
	old := s.slots[k.Slot]
	switch k.Slot {
	case 1:
		x, _ := old.(*strings.Reader)
		if x == nil {
			x = new(strings.Reader)
		}
		x.Reset(string(data))
		s.slots[1] = x
		return x
	case 2:
		x, _ := old.(*bytes.Reader)
		if x == nil {
			x = new(bytes.Reader)
		}
		x.Reset(append([]byte(nil), data...))
		s.slots[2] = x
		return x
	case 3: // the memory of the content is used again, too
		x, _ := old.(*bytes.Buffer)
		if x == nil {
			x = new(bytes.Buffer)
		}
		x.Reset()
		x.Write(data)
		s.slots[3] = x
		return x
	case 4: // the content stands behind another one, which is not to be read
		x, _ := old.(*strings.Reader)
		if x == nil {
			x = new(strings.Reader)
		}
		const front = "syntax = \"proto2\"; message Front {}\n"
		x.Reset(front + string(data))
		_, _ = x.Seek(int64(len(front)), io.SeekStart)
		s.slots[4] = x
		return x
	case 5:
		x, _ := old.(*bufio.Reader)
		if x == nil {
			x = bufio.NewReader(nil)
		}
		x.Reset(h.out.rd)
		s.slots[5] = x
		return x
	case 6: // the same memory, overwritten
		x, _ := old.([]byte)
		x = append(x[:0], data...)
		s.slots[6] = x
		return bytes.NewReader(x)
	}
	x, _ := old.(*slotReader)
	if x == nil {
		x = new(slotReader)
	}
	x.Reader = h.out.rd
	s.slots[k.Slot] = x
	return x
}

// lowLevel uses the lexer, and with it the parser, without Parse. Options are given only when
// they differ from the defaults.
func (h *histCall) lowLevel(k *Call) {
	r := newRng(uint64(k.Sub))
	var opts []lexer.Option
	if k.Opts.Filename != "" {
		opts = append(opts, lexer.WithFilename(k.Opts.Filename))
	}
	if k.Opts.Debug {
		opts = append(opts, lexer.WithDebug(true))
	}
	lex := lexer.NewLexer(h.input(k), opts...)
	if r.p(50) {
		lex.Error = func(*lexer.Lexer, error) {}
	}
	if k.Kind == "drive" {
		var popts []parser.ConfigOption
		if r.p(50) {
			popts = append(popts, parser.WithPermissive(!k.Opts.Strict))
		}
		if k.Opts.BodyComments {
			popts = append(popts, parser.WithBodyIncludingComments(true))
		}
		h.log.WriteString("DRIVE ")
		tree, err := parser.NewParser(lex, popts...).ParseProto()
		h.log.WriteString(dump(tree) + errKey(err))
		return
	}
	for i := 0; i < 12; i++ {
		nextMode(lex, lexModes[r.n(len(lexModes))])
		fmt.Fprintf(&h.log, "%d %q %q %v\n", lex.Token, lex.Text, string(lex.RawText), lex.Pos.Position)
		if r.p(25) {
			lex.UnNext()
		}
		if r.p(25) {
			fmt.Fprintln(&h.log, lex.Peek())
		}
	}
	atomic.StoreInt32(&h.out.rd.returned, 1)
}

// freshKey performs a call as the only call of this process.
func freshKey(c *Case) string {
	withLog(nil, 0)
	s := newSim(nil)
	h := addHist(s, c, &c.Calls[0])
	s.Run()
	return h.key()
}

var freshCache = map[string]string{}

// inFreshProcess returns the outcome of a call in a new process.
func inFreshProcess(c *Case, k *Call) (string, error) {
	one := &Case{Prop: "C10", Texts: []Blob{c.Texts[k.Text]}, Calls: []Call{*k}}
	one.Calls[0].Text = 0
	b, err := json.Marshal(one)
	if err != nil {
		return "", err
	}
	if s, ok := freshCache[string(b)]; ok {
		return s, nil
	}
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(exe, "fresh")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("fresh process: %v %s", err, errb.String())
	}
	st.probe("fresh processes")
	if len(freshCache) < 4*poolSize+16*len(canaries) {
		freshCache[string(b)] = out.String()
	}
	return out.String(), nil
}

// youngProcess is a second process that has made only few calls.
type youngProcess struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	left int
}

const youngCalls = 24

var young youngProcess

// inYoungProcess returns the outcome of a call in a process that has made fewer than youngCalls calls before, or an
// error if that process has ended.
func inYoungProcess(c *Case, k *Call) (string, error) {
	one := &Case{Prop: "C10", Texts: []Blob{c.Texts[k.Text]}, Calls: []Call{*k}}
	one.Calls[0].Text = 0
	b, err := json.Marshal(one)
	if err != nil {
		return "", err
	}
	if young.left == 0 {
		young.stop()
		exe, err := os.Executable()
		if err != nil {
			return "", err
		}
		young.cmd = exec.Command(exe, "young")
		in, err := young.cmd.StdinPipe()
		if err != nil {
			return "", err
		}
		out, err := young.cmd.StdoutPipe()
		if err != nil {
			return "", err
		}
		if err := young.cmd.Start(); err != nil {
			return "", err
		}
		young.in, young.out, young.left = in, bufio.NewReader(out), youngCalls
		st.probe("young processes")
	}
	young.left--
	if _, err := young.in.Write(append(b, '\n')); err != nil {
		young.left = 0
		return "", err
	}
	limit := time.AfterFunc(20*time.Second, func() { _ = young.cmd.Process.Kill() })
	line, err := young.out.ReadBytes('\n')
	limit.Stop()
	if err != nil {
		young.left = 0
		return "", err
	}
	var key string
	if err := json.Unmarshal(line, &key); err != nil {
		young.left = 0
		return "", err
	}
	st.probe("calls repeated in a young process")
	return key, nil
}

func (y *youngProcess) stop() {
	if y.cmd != nil {
		_ = y.in.Close()
		_ = y.cmd.Wait()
		y.cmd = nil
	}
}

// youngMain answers the calls of inYoungProcess.
func youngMain() {
	limits()
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			return
		}
		b, err := json.Marshal(freshKey(&c))
		if err != nil {
			return
		}
		_, _ = os.Stdout.Write(append(b, '\n'))
	}
}

func runC10(c *Case) *Violation {
	if len(c.Calls) == 0 {
		return nil
	}
	s := newSim(nil)
	var hs []*histCall
	for i := range c.Calls {
		hs = append(hs, addHist(s, c, &c.Calls[i]))
	}
	s.Run()
	s.finish()
	if s.deadlock || s.lockStall {
		return violf("blocked", "a call waits for ever after this history (or for a stalled one)")
	}
	seen := map[string]string{}
	for i := range c.Calls {
		k := &c.Calls[i]
		got := hs[i].key()
		hs[i].out.account(c.content(k))
		if hs[i].out.rd.foreign > 0 {
			return violf("foreign-read", "another call reads from the reader of call %d", i)
		}
		if hs[i].edited {
			st.fault("history: edited tree")
		}
		if hs[i].stale != "" {
			return violf("stale", "call %d: %s", i, hs[i].stale)
		}
		if k.Stop != nil && hs[i].out.rd.fired {
			st.fault("history: " + k.Stop.Kind)
		}
		if k.Slot > 0 {
			st.fault("history: reader object used again")
			if k.Kind == "parse" {
				if want := parseSolo(c.content(k), k.Opts, plain, nil, 0).key(); want != got {
					return violf("history", "call %d, with a reader object that was used before, differs from the same content in another reader: %s", i, firstDiff(want, got))
				}
			}
		}
		kk := *k
		kk.Fresh = false
		kk.Text = 0
		b, _ := json.Marshal(&Case{Texts: []Blob{c.Texts[k.Text]}, Calls: []Call{kk}})
		if old, ok := seen[string(b)]; ok && old != got {
			return violf("history", "call %d differs from the same call made earlier: %s", i, firstDiff(old, got))
		}
		seen[string(b)] = got
		// a tree that is not what the content says may be one of another call
		odd := k.Kind == "parse" && k.Stop == nil && hs[i].out.ok() && conserve(hs[i].out.tree, c.content(k)) != ""
		if odd {
			st.probe("tree that differs from the content")
		}
		if !k.Fresh && !odd {
			if i != len(c.Calls)-1 && i != c.Young {
				continue
			}
			// a process with a short history is enough to find most differences; whether it is one is decided by a
			// fresh process
			b, _ := json.Marshal(got)
			var sent string
			_ = json.Unmarshal(b, &sent)
			if key, err := inYoungProcess(c, k); err == nil && key == sent {
				nontrivial = nontrivial || i > 0
				continue
			}
		}
		want, err := inFreshProcess(c, k)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		if i > 0 {
			nontrivial = true
		}
		if want != got {
			return violf("history", "call %d (%s) differs from the same call in a fresh process: %s", i, k.Kind, firstDiff(want, got))
		}
	}
	return nil
}

// harnessError is trouble of the machinery itself.
type harnessError string

// --- C14 -----------------------------------------------------------------------------------

func genC14(r *rng, _ bool) *Case {
	c := &Case{Prop: "C14"}
	strict := r.p(25)
	n := []int{2, 2, 3, 4}[r.n(4)]
	nt := 1
	if r.p(50) {
		nt = 1 + r.n(n)
	}
	for i := 0; i < nt; i++ {
		c.Texts = append(c.Texts, genSmall(r, strict, 500))
	}
	o := genOpts(r, strict)
	for i := 0; i < n; i++ {
		k := Call{Kind: r.pick("parse", "parse", "interpret"), Text: r.n(nt), Opts: o}
		if r.p(30) {
			k.Opts = genOpts(r, strict)
		}
		if r.p(40) {
			k.Delivery = genDelivery(r, c.Texts[k.Text])
		}
		c.Calls = append(c.Calls, k)
	}
	if r.p(50) {
		c.Sched = genSchedule(r, n)
	}
	return c
}

type result struct {
	tree   *parser.Proto
	interp interface{}
	key    string
}

func (x *result) dump() string { return dump(x.tree) + "\n" + dump(x.interp) }

func makeResult(c *Case, k *Call) *result {
	o := parseSolo(c.content(k), k.Opts, k.Delivery, nil, 0)
	x := &result{tree: o.tree}
	if o.ok() && k.Kind == "interpret" {
		t := solo(stepLimit(c.content(k)), func() { x.interp, _ = protoparser.UnorderedInterpret(o.tree) })
		if t.failure() != "" {
			x.interp = nil
		}
	}
	x.key = o.key() + "\n" + dump(x.interp)
	return x
}

func disjoint(xs []*result) *Violation {
	type owned struct {
		memRange
		by int
	}
	var all []owned
	for i, x := range xs {
		if x.tree == nil {
			continue
		}
		for _, r := range append(ranges(x.tree), ranges(x.interp)...) {
			all = append(all, owned{r, i})
		}
	}
	sortBy(len(all), func(i, j int) bool { return all[i].lo < all[j].lo }, func(i, j int) { all[i], all[j] = all[j], all[i] })
	// with sorted starts, an overlap of two owners shows between a range and the farthest
	// reaching earlier range of another owner
	type reach struct {
		hi   uintptr
		what string
	}
	far := map[int]reach{}
	for _, a := range all {
		for by, f := range far {
			if by != a.by && f.hi > a.lo {
				return violf("shared", "the results of calls %d and %d share memory: %s and %s", by, a.by, f.what, a.what)
			}
		}
		if f := far[a.by]; a.hi > f.hi {
			far[a.by] = reach{a.hi, a.what}
		}
	}
	return nil
}

func runC14(c *Case) *Violation {
	var xs []*result
	ok := 0
	for i := range c.Calls {
		x := makeResult(c, &c.Calls[i])
		if x.tree != nil {
			ok++
		}
		xs = append(xs, x)
	}
	if ok == 0 {
		return nil
	}
	nontrivial = true
	if v := disjoint(xs); v != nil {
		return v
	}
	if c.Sched != nil {
		if v := concurrentScribble(c, xs); v != nil {
			return v
		}
	}
	for i, x := range xs {
		if x.tree == nil {
			continue
		}
		scribble(x.tree)
		scribble(x.interp)
		st.fault("result scribbled")
		for j := i + 1; j < len(xs); j++ {
			if xs[j].tree == nil {
				continue
			}
			if d := "TREE " + xs[j].dump(); d != xs[j].key {
				return violf("bleeds", "changing result %d changes result %d: %s", i, j, firstDiff(xs[j].key, d))
			}
		}
	}
	for i := range c.Calls {
		if g := makeResult(c, &c.Calls[i]); g.key != xs[i].key {
			return violf("later", "after changing the results, call %d gives something else: %s", i, firstDiff(xs[i].key, g.key))
		}
	}
	return nil
}

// concurrentScribble runs the calls as tasks that overwrite their results at once.
func concurrentScribble(c *Case, want []*result) *Violation {
	s := newSim(c.Sched)
	var tasks []*simTask
	keys := make([]string, len(c.Calls))
	for i := range c.Calls {
		i := i
		k := &c.Calls[i]
		data := c.content(k)
		var rd *SimReader
		t := s.add(4*stepLimit(data), func() {
			o := &outcome{}
			o.tree, o.err = protoparser.Parse(readerOf(rd, k), options(k.Opts)...)
			var in interface{}
			if o.ok() && k.Kind == "interpret" {
				in, _ = protoparser.UnorderedInterpret(o.tree)
			}
			keys[i] = o.key() + "\n" + dump(in)
			if o.tree != nil {
				s.tasks[i].sleep(0)
				scribble(o.tree)
				scribble(in)
			}
		})
		rd = newReader(data, k.Delivery, nil, t, nil)
		tasks = append(tasks, t)
	}
	s.Run()
	s.finish()
	if v := lockTrouble(s, tasks); v != nil {
		return v
	}
	for i, t := range tasks {
		if f := t.failure(); f != "" {
			return violf("concurrent", "call %d ends with %s while others change their results", i, f)
		}
		if keys[i] != want[i].key {
			return violf("concurrent", "call %d gives something else while other callers change their results: %s", i, firstDiff(want[i].key, keys[i]))
		}
	}
	return nil
}
