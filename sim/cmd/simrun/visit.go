package main

import (
	"fmt"
	"reflect"
	"runtime"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// node is an element or comment of a tree.
type node struct {
	ptr      uintptr
	kind     string
	parent   int // index in the index, -1 for the file
	required bool
	vis      parser.Visitee
}

// index numbers everything that can be visited in a tree, by walking the exported fields. It
// does not use Accept.
type index struct {
	nodes []node
	byPtr map[uintptr]int
}

func buildIndex(p *parser.Proto) *index {
	x := &index{byPtr: map[uintptr]int{}}
	if p == nil {
		return x
	}
	if p.Syntax != nil {
		i := x.add(p.Syntax, -1, true)
		x.comments(i, true, p.Syntax.Comments, p.Syntax.InlineComment)
	}
	if p.Edition != nil {
		i := x.add(p.Edition, -1, true)
		x.comments(i, true, p.Edition.Comments, p.Edition.InlineComment)
	}
	for _, b := range p.ProtoBody {
		x.element(b, -1, true)
	}
	return x
}

func (x *index) add(v parser.Visitee, parent int, required bool) int {
	if isNilVisitee(v) {
		return parent
	}
	rv := reflect.ValueOf(v)
	id := len(x.nodes)
	// EmptyStatement and the like have a size, so distinct elements have distinct addresses
	if old, ok := x.byPtr[rv.Pointer()]; ok {
		return old
	}
	x.byPtr[rv.Pointer()] = id
	x.nodes = append(x.nodes, node{rv.Pointer(), rv.Elem().Type().Name(), parent, required, v})
	return id
}

func (x *index) comments(i int, required bool, lead []*parser.Comment, inline *parser.Comment) {
	for _, c := range lead {
		if c != nil {
			x.add(c, i, required)
		}
	}
	if inline != nil {
		x.add(inline, i, required)
	}
}

func (x *index) behind(i int, cs ...*parser.Comment) {
	for _, c := range cs {
		if c != nil {
			x.add(c, i, false)
		}
	}
}

func (x *index) element(v parser.Visitee, parent int, req bool) {
	if isNilVisitee(v) {
		return
	}
	i := x.add(v, parent, req)
	body := func(els []parser.Visitee) {
		for _, e := range els {
			x.element(e, i, req)
		}
	}
	switch t := v.(type) {
	case *parser.Message:
		body(t.MessageBody)
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.GroupField:
		body(t.MessageBody)
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.Enum:
		body(t.EnumBody)
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.Service:
		body(t.ServiceBody)
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.Extend:
		body(t.ExtendBody)
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.Oneof:
		for _, f := range t.OneofFields {
			x.element(f, i, req)
		}
		for _, o := range t.Options {
			x.element(o, i, req)
		}
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.RPC:
		for _, o := range t.Options {
			x.element(o, i, false)
		}
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
		x.behind(i, t.EmbeddedComments...)
	case *parser.Extensions:
		for _, d := range t.Declarations {
			x.element(d, i, req)
		}
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftSquare)
	case *parser.Declaration:
		x.comments(i, req, t.Comments, t.InlineComment)
		x.behind(i, t.InlineCommentBehindLeftCurly)
	case *parser.EmptyStatement:
		x.comments(i, req, nil, t.InlineComment)
	case *parser.Import:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.Package:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.Option:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.EnumField:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.Field:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.MapField:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.OneofField:
		x.comments(i, req, t.Comments, t.InlineComment)
	case *parser.Reserved:
		x.comments(i, req, t.Comments, t.InlineComment)
	}
}

type visitorPanic struct{ at int }

// simVisitor records its visits and answers as the case says.
type simVisitor struct {
	x      *index
	seq    []int // node numbers, -1 for something that is not in the tree
	names  []string
	ans    map[int]string
	refuse map[string]bool
	task   *simTask
	root   *parser.Proto
	nested int
	pval   *visitorPanic
	sum    int // of what the helpers of comments and versions answer
}

func newVisitor(x *index, k *Call, task *simTask, root *parser.Proto) *simVisitor {
	v := &simVisitor{x: x, ans: map[int]string{}, refuse: map[string]bool{}, task: task, root: root}
	for _, a := range k.Answers {
		v.ans[a.At] = a.Do
	}
	for _, s := range k.Refuse {
		v.refuse[s] = true
	}
	return v
}

func (v *simVisitor) visit(kind string, p uintptr) bool {
	id, ok := v.x.byPtr[p]
	if !ok || v.x.nodes[id].kind != kind {
		id = -1
	}
	n := len(v.seq)
	v.seq = append(v.seq, id)
	v.names = append(v.names, kind)
	switch v.ans[n] {
	case "no":
		return false
	case "panic":
		v.pval = &visitorPanic{n}
		panic(v.pval)
	case "goexit":
		if v.task != nil {
			runtime.Goexit()
		}
	case "stall":
		if v.task != nil {
			v.task.stall()
		}
	case "sleep":
		if v.task != nil {
			v.task.sleep(int64(n) * 1000000)
		}
	case "accept": // re-enters the library with the same tree
		if v.nested < 2 && v.root != nil {
			in := &simVisitor{x: v.x, ans: map[int]string{}, refuse: map[string]bool{"Field": true}, nested: v.nested + 1}
			v.root.Accept(in)
		}
	case "interpret":
		if v.root != nil {
			_, _ = protoparser.UnorderedInterpret(v.root)
		}
	case "self": // traverses the visited element again
		if v.nested < 2 && id >= 0 {
			in := &simVisitor{x: v.x, ans: map[int]string{}, refuse: map[string]bool{}, nested: 5}
			v.x.nodes[id].vis.Accept(in)
		}
	}
	return !v.refuse[kind]
}

func ptrOf(p interface{}) uintptr { return reflect.ValueOf(p).Pointer() }

func (v *simVisitor) VisitComment(c *parser.Comment) {
	if v.visit("Comment", ptrOf(c)); c != nil {
		v.sum = v.sum*31 + len(c.Lines())
		if c.IsCStyle() {
			v.sum++
		}
	}
}

func (v *simVisitor) VisitDeclaration(c *parser.Declaration) bool {
	return v.visit("Declaration", ptrOf(c))
}
func (v *simVisitor) VisitEdition(c *parser.Edition) bool { return v.visit("Edition", ptrOf(c)) }
func (v *simVisitor) VisitEmptyStatement(c *parser.EmptyStatement) bool {
	return v.visit("EmptyStatement", ptrOf(c))
}
func (v *simVisitor) VisitEnum(c *parser.Enum) bool           { return v.visit("Enum", ptrOf(c)) }
func (v *simVisitor) VisitEnumField(c *parser.EnumField) bool { return v.visit("EnumField", ptrOf(c)) }
func (v *simVisitor) VisitExtend(c *parser.Extend) bool       { return v.visit("Extend", ptrOf(c)) }
func (v *simVisitor) VisitExtensions(c *parser.Extensions) bool {
	return v.visit("Extensions", ptrOf(c))
}
func (v *simVisitor) VisitField(c *parser.Field) bool { return v.visit("Field", ptrOf(c)) }
func (v *simVisitor) VisitGroupField(c *parser.GroupField) bool {
	return v.visit("GroupField", ptrOf(c))
}
func (v *simVisitor) VisitImport(c *parser.Import) bool     { return v.visit("Import", ptrOf(c)) }
func (v *simVisitor) VisitMapField(c *parser.MapField) bool { return v.visit("MapField", ptrOf(c)) }
func (v *simVisitor) VisitMessage(c *parser.Message) bool   { return v.visit("Message", ptrOf(c)) }
func (v *simVisitor) VisitOneof(c *parser.Oneof) bool       { return v.visit("Oneof", ptrOf(c)) }
func (v *simVisitor) VisitOneofField(c *parser.OneofField) bool {
	return v.visit("OneofField", ptrOf(c))
}
func (v *simVisitor) VisitOption(c *parser.Option) bool     { return v.visit("Option", ptrOf(c)) }
func (v *simVisitor) VisitPackage(c *parser.Package) bool   { return v.visit("Package", ptrOf(c)) }
func (v *simVisitor) VisitReserved(c *parser.Reserved) bool { return v.visit("Reserved", ptrOf(c)) }
func (v *simVisitor) VisitRPC(c *parser.RPC) bool           { return v.visit("RPC", ptrOf(c)) }
func (v *simVisitor) VisitService(c *parser.Service) bool   { return v.visit("Service", ptrOf(c)) }
func (v *simVisitor) VisitSyntax(c *parser.Syntax) bool {
	if c != nil {
		v.sum = v.sum*31 + c.Version()
	}
	return v.visit("Syntax", ptrOf(c))
}

// checkFull checks the traversal by a visitor that always agrees.
func checkFull(x *index, v *simVisitor) string {
	count := make([]int, len(x.nodes))
	for i, id := range v.seq {
		if id < 0 {
			return fmt.Sprintf("visit %d (%s) is of something that the tree does not hold", i, v.names[i])
		}
		count[id]++
		if count[id] > 1 {
			return fmt.Sprintf("%s (number %d) is visited twice", x.nodes[id].kind, id)
		}
		if p := x.nodes[id].parent; p >= 0 && count[p] == 0 {
			return fmt.Sprintf("%s (number %d) is visited before the %s that contains it", x.nodes[id].kind, id, x.nodes[p].kind)
		}
	}
	for id, n := range x.nodes {
		if n.required && count[id] == 0 {
			return fmt.Sprintf("%s (number %d) is never visited", n.kind, id)
		}
	}
	return ""
}

// expectVisits computes the visits under the answers of k from the full traversal.
func expectVisits(x *index, full []int, k *Call) (seq []int, panics bool) {
	ans := map[int]string{}
	for _, a := range k.Answers {
		ans[a.At] = a.Do
	}
	no := map[string]bool{}
	for _, s := range k.Refuse {
		no[s] = true
	}
	refused := map[int]bool{}
	for _, id := range full {
		skip := false
		for p := x.nodes[id].parent; p >= 0; p = x.nodes[p].parent {
			if refused[p] {
				skip = true
				break
			}
		}
		if skip {
			continue
		}
		n := len(seq)
		seq = append(seq, id)
		switch ans[n] {
		case "panic":
			return seq, true
		case "no":
			refused[id] = true
		default:
			if no[x.nodes[id].kind] {
				refused[id] = true
			}
		}
	}
	return seq, false
}

func seqString(x *index, seq []int) string {
	s := ""
	for i, id := range seq {
		if i > 40 {
			return s + " ..."
		}
		if id < 0 {
			s += " ?"
			continue
		}
		s += fmt.Sprintf(" %s#%d", x.nodes[id].kind, id)
	}
	return s
}

func equalSeq(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		if len(a) < len(b) {
			return len(a)
		}
		return len(b)
	}
	return -1
}
