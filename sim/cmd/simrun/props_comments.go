package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	register(&property{id: "C22", gen: genC22, run: runC22})
}

// --- C22 -----------------------------------------------------------------------------------

func genC22(r *rng, _ bool) *Case {
	c := genC21(r, false)
	c.Prop = "C22"
	for i := range c.Calls {
		k := &c.Calls[i]
		k.Opts.BodyComments = r.p(60)
		for m := r.logn(8) * r.n(2); m > 0; m-- { // comments that get into the file
			if f, ok := genComment(r, applyFaults([]byte(c.Texts[k.Text]), k.Faults)); ok {
				k.Faults = append(k.Faults, f)
			}
		}
	}
	return c
}

// genComment puts a comment between two tokens.
func genComment(r *rng, b []byte) (Fault, bool) {
	items, ok := itemsOf(b)
	if !ok || len(items) == 0 {
		return Fault{}, false
	}
	i := r.n(len(items) + 1)
	if r.p(60) { // behind or in front of a bracket or semicolon
		for try := 0; try < 20; try++ {
			j := r.n(len(items))
			if c := b[items[j].lo]; items[j].kind == 'p' && (c == ';' || c == '{' || c == '}') {
				i = j + r.n(2)
				break
			}
		}
	}
	at := len(b)
	if i < len(items) {
		at = items[i].lo
	}
	if i > 0 && r.p(50) {
		at = items[i-1].hi
	}
	t := r.pick("/* c */", "/**/", "/* a\n b */", "// c\n", "//\n", "// { } ;\n", "/* ; */", "\n// c\n", "\n/* c */", "/* c */\n", "\n/* a */ /* b */\n", " // c\n\n// d\n", "/*1*//*2*/", "\n/* a\n */ // c\n")
	if r.p(4) {
		s := strings.Repeat(r.pick("-", "é", "\t", "a b "), r.logn(3000)) + r.pick("", "\t", "é\t", " ;", "\\", "\t}")
		t = r.pick("/*"+s+"*/", "//"+s+"\n")
	}
	return Fault{Op: "insert", At: at, B: Blob(t)}, true
}

// A elementSite is an element of the tree and where it stands.
type elementSite struct {
	e           interface{}
	first, last int // where the first and the last token begin
}

func (s *elementSite) name() string { return fmt.Sprintf("%T at %d", s.e, s.first) }

// attachment of the comments of a content by offset.
type attachment map[int]string

// actual lists what the tree says.
func actual(tree *parser.Proto, data []byte, sites []*elementSite, isComment map[int]string) (attachment, string) {
	out := attachment{}
	put := func(c *parser.Comment, to string) string {
		if c == nil {
			return ""
		}
		o := c.Meta.Pos.Offset
		if isComment[o] != c.Raw || c.Raw == "" {
			return fmt.Sprintf("comment %q of %s does not stand at %d", c.Raw, to, o)
		}
		if out[o] != "" {
			return fmt.Sprintf("comment %q at %d is attached twice: to %s and %s", c.Raw, o, out[o], to)
		}
		out[o] = to
		return ""
	}
	list := func(cs []*parser.Comment, to string) string {
		for i, c := range cs {
			if c == nil {
				return "nil comment of " + to
			}
			if i > 0 && cs[i-1].Meta.Pos.Offset >= c.Meta.Pos.Offset {
				return "the comments of " + to + " are not in order"
			}
			if m := put(c, to); m != "" {
				return m
			}
		}
		return ""
	}
	body := func(els []parser.Visitee, of string) string {
		var cs []*parser.Comment
		for _, e := range els {
			if c, ok := e.(*parser.Comment); ok {
				cs = append(cs, c)
			} else if len(cs) > 0 {
				return of + ": an element behind the comments of the body"
			}
		}
		return list(cs, "body of "+of)
	}
	for _, s := range sites {
		v := reflect.ValueOf(s.e).Elem()
		for i := 0; i < v.NumField(); i++ {
			m := ""
			switch x := v.Field(i).Interface().(type) {
			case *parser.Comment:
				m = put(x, v.Type().Field(i).Name+" of "+s.name())
			case []*parser.Comment:
				m = list(x, v.Type().Field(i).Name+" of "+s.name())
			case []parser.Visitee:
				m = body(x, s.name())
			}
			if m != "" {
				return nil, m
			}
		}
	}
	return out, body(tree.ProtoBody, "file")
}

// expected lists where the comments belong; loose are those that have no place in a tree for sure.
func expected(data []byte, items []item19, sites []*elementSite, bodyComments bool) (want attachment, loose map[int]bool) {
	want, loose = attachment{}, map[int]bool{}
	first, last, left, closer := map[int]*elementSite{}, map[int]*elementSite{}, map[int]*elementSite{}, map[int]*elementSite{}
	inner := map[interface{}]bool{}    // options of an rpc
	var heads [][3]int                 // of rpcs
	declared := map[int]*elementSite{} // closing braces of extension declarations
	squares := map[int]*elementSite{}
	index := func(off int) int {
		return sort.Search(len(items), func(i int) bool { return items[i].lo >= off })
	}
	find := func(from int, chars string) int {
		for i := index(from); i < len(items); i++ {
			for _, c := range []byte(chars) {
				if items[i].kind == 'p' && data[items[i].lo] == c {
					return items[i].lo
				}
			}
		}
		return len(data)
	}
	for _, s := range sites {
		if t, ok := s.e.(*parser.RPC); ok {
			for _, o := range t.Options {
				inner[o] = true
			}
		}
	}
	for n, s := range sites {
		if inner[s.e] {
			continue
		}
		if _, ok := s.e.(*parser.EmptyStatement); !ok {
			first[s.first] = s
		}
		if _, ok := reflect.TypeOf(s.e).MethodByName("SetInlineComment"); ok {
			last[s.last] = s
		}
		block := false
		switch t := s.e.(type) {
		case *parser.Message, *parser.GroupField, *parser.Enum, *parser.Service, *parser.Extend:
			left[find(s.first, "{")] = s
			block = true
		case *parser.Oneof:
			left[find(s.first, "{")] = s
		case *parser.RPC:
			end := find(s.first, "{;")
			if end < len(data) && data[end] == '{' {
				left[end] = s
			}
			heads = append(heads, [3]int{s.first, end, n})
		case *parser.Declaration:
			delete(last, s.last)
			declared[s.last] = s
			left[find(s.first, "{")] = s
		case *parser.Extensions:
			if len(t.Declarations) > 0 {
				squares[find(s.first, "[")] = s
			}
		}
		if block {
			i := index(s.last)
			for i > 0 && (items[i].kind == 'c' || data[items[i].lo] != '}') {
				i--
			}
			closer[items[i].lo] = s
		}
	}
	line := func(off int) int { l, _ := lineColumn(data, off); return l }
	prev := -1     // item of the token in front
	prevprev := -1 // and the one before
	for i := 0; i < len(items); {
		if items[i].kind != 'c' {
			prev, prevprev = i, prev
			i++
			continue
		}
		j := i
		for j < len(items) && items[j].kind == 'c' {
			j++
		}
		cs := items[i:j]
		if prev >= 0 {
			at := items[prev].lo
			to := ""
			if s := last[at]; s != nil {
				to = "InlineComment of " + s.name()
			} else if s := left[at]; s != nil {
				to = "InlineCommentBehindLeftCurly of " + s.name()
			} else if s := squares[at]; s != nil {
				to = "InlineCommentBehindLeftSquare of " + s.name()
			} else if prevprev >= 0 && declared[items[prevprev].lo] != nil {
				// Of two comments behind a declaration only one has a place.
				to = "InlineComment of " + declared[items[prevprev].lo].name()
				if len(cs) > 1 && line(cs[0].lo) == line(at) && line(cs[1].lo) == line(at) {
					loose[cs[0].lo], loose[cs[1].lo] = true, true
					cs = cs[1:]
				}
			}
			if to != "" && line(cs[0].lo) == line(at) {
				want[cs[0].lo] = to
				cs = cs[1:]
			}
		}
		to := ""
		switch {
		case j == len(items):
			if bodyComments {
				to = "body of file"
			}
		case first[items[j].lo] != nil:
			to = "Comments of " + first[items[j].lo].name()
		case closer[items[j].lo] != nil:
			if bodyComments {
				to = "body of " + closer[items[j].lo].name()
			}
		}
		for _, x := range cs {
			if to != "" {
				want[x.lo] = to
			}
			for _, h := range heads {
				if h[0] < x.lo && x.lo < h[1] {
					want[x.lo] = "EmbeddedComments of " + sites[h[2]].name()
				}
			}
		}
		i = j
	}
	return want, loose
}

func runC22(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		items, ok := itemsOf(data)
		if !ok {
			continue
		}
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		if !got.ok() {
			continue
		}
		isComment := map[int]string{}
		for _, x := range items {
			if x.kind == 'c' {
				isComment[x.lo] = string(data[x.lo:x.hi])
			}
		}
		if len(isComment) > 0 {
			nontrivial = true
			for _, f := range k.Faults {
				st.fault("storage: " + f.Op)
			}
		}
		var sites []*elementSite
		msg := conserveAt(got.tree, data, func(e interface{}, _ meta.Meta, first, last int) string {
			sites = append(sites, &elementSite{e, first, last})
			return ""
		})
		if msg != "" {
			return violf("unaccounted", "call %d: %s", i, msg)
		}
		have, msg := actual(got.tree, data, sites, isComment)
		if msg != "" {
			return violf("attached", "call %d: %s", i, msg)
		}
		want, loose := expected(data, items, sites, k.Opts.BodyComments)
		for _, x := range items {
			if a, b := want[x.lo], have[x.lo]; x.kind == 'c' && a != b && !loose[x.lo] {
				return violf("attached", "call %d: comment %q at %d belongs to %q, is in %q", i, isComment[x.lo], x.lo, a, b)
			}
		}
	}
	return nil
}
