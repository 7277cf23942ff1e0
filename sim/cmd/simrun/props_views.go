package main

import (
	"fmt"
	"reflect"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func init() {
	register(&property{id: "C23", gen: genC23, run: runC23})
	register(&property{id: "C24", gen: genC24, run: runC24})
}

// --- C23 -----------------------------------------------------------------------------------

func genC23(r *rng, _ bool) *Case {
	text := genBase(r, r.p(85))
	other := genBase(r, r.p(85))
	c := &Case{Prop: "C23", Texts: []Blob{text}}
	n := 8
	if len(text) > 3000 {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Opts: genOpts(r, true)}
		if i > 0 {
			if r.p(50) {
				k.Faults = genSoftFaults(r, text)
			} else {
				k.Faults = genFaults(r, text, other)
			}
		}
		if r.p(40) {
			k.Delivery = genDelivery(r, applyFaults(text, k.Faults))
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC23(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		o := k.Opts
		o.Strict = true
		strict := parseSolo(data, o, plain, nil, 0)
		if !strict.ok() {
			st.probe("strict: rejected")
			continue
		}
		nontrivial = true
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		o.Strict = false
		got := parseSolo(data, o, k.Delivery, nil, 0)
		if !got.ok() {
			return violf("rejected", "call %d: accepted without permissive mode, rejected with it: %s", i, got.short())
		}
		a, b := strict.key(), got.key()
		if a != b && blockSemicolons(data) != 0 {
			// Permissive mode takes such a semicolon as part of the block.
			st.probe("semicolon behind a block")
			n, m := 0, 0
			a, n = withoutEmpty(strict.tree)
			b, m = withoutEmpty(got.tree)
			if most := blockSemicolons(data); a == b && (m > n || n-m > most) {
				return violf("altered", "call %d: permissive mode gives %d empty statements, strict mode %d, where at most %d belong to a block", i, m, n, most)
			}
		}
		if a != b {
			return violf("altered", "call %d: permissive mode gives another tree: %s", i, firstDiff(a, b))
		}
	}
	return nil
}

// blockSemicolons counts the semicolons that follow a }.
func blockSemicolons(b []byte) int {
	items, ok := itemsOf(b)
	if !ok {
		return len(b)
	}
	last, n := byte(0), 0
	for _, x := range items {
		if x.kind == 'c' {
			continue
		}
		if last == '}' && b[x.lo] == ';' {
			n++
		}
		last = b[x.lo]
	}
	return n
}

// withoutEmpty dumps a tree without its empty statements and comments, and counts the empty
// statements. It changes the tree.
func withoutEmpty(p *parser.Proto) (string, int) {
	n := 0
	var filter func(v reflect.Value)
	filter = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			b, ok := v.Field(i).Interface().([]parser.Visitee)
			if !ok {
				continue
			}
			kept := []parser.Visitee{}
			for _, e := range b {
				switch e.(type) {
				case *parser.EmptyStatement:
					n++
					continue
				case *parser.Comment:
					continue
				}
				kept = append(kept, e)
				filter(reflect.ValueOf(e).Elem())
			}
			v.Field(i).Set(reflect.ValueOf(kept))
		}
	}
	filter(reflect.ValueOf(p).Elem())
	return dumpSkip(p, func(t reflect.Type, field string, depth int) bool {
		return field == "Comments" || field == "InlineComment" || field == "LastPos"
	}), n
}

// --- C24 -----------------------------------------------------------------------------------

func genC24(r *rng, _ bool) *Case {
	strict := r.p(30)
	text := genBase(r, strict)
	for nesting(text) > 330 { // every level is compared as a whole: the cost grows with the square
		text = genBase(r, strict)
	}
	other := genBase(r, strict)
	c := &Case{Prop: "C24", Texts: []Blob{text}}
	n := 8
	if len(text) > 3000 {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := Call{Kind: "parse", Opts: genOpts(r, strict)}
		k.Opts.BodyComments = r.p(5)
		if i > 0 {
			if r.p(60) {
				k.Faults = genSoftFaults(r, text)
			} else {
				k.Faults = genFaults(r, text, other)
			}
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func runC24(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		if !got.ok() || hasComment(got.tree.ProtoBody) {
			continue
		}
		nontrivial = true
		for _, f := range k.Faults {
			st.fault("storage: " + f.Op)
		}
		var res interface{}
		var err error
		t := solo(stepLimit(data), func() { res, err = protoparser.UnorderedInterpret(got.tree) })
		what := ""
		if f := t.failure(); f != "" {
			what = "UnorderedInterpret ends with " + f
		} else if err != nil {
			what = "UnorderedInterpret fails: " + err.Error()
		} else {
			what = regrouped(got.tree, res, "file")
		}
		if what == "" {
			what = regroupedParts(got.tree.ProtoBody)
		}
		if what != "" {
			return violf("regrouped", "call %d: %s", i, address.ReplaceAllString(what, "0x"))
		}
	}
	return nil
}

// bodyField returns the field of a block that holds its elements.
func bodyField(v reflect.Value) (string, []parser.Visitee) {
	for i := 0; i < v.NumField(); i++ {
		if b, ok := v.Field(i).Interface().([]parser.Visitee); ok {
			return v.Type().Field(i).Name, b
		}
	}
	return "", nil
}

// hasComment tells whether a body or one in it has a comment as an element.
func hasComment(els []parser.Visitee) bool {
	for _, e := range els {
		if _, ok := e.(*parser.Comment); ok {
			return true
		}
		if isNilVisitee(e) {
			continue
		}
		if _, b := bodyField(reflect.ValueOf(e).Elem()); hasComment(b) {
			return true
		}
	}
	return false
}

// regrouped compares a block of the tree with its interpretation.
func regrouped(src, res interface{}, where string) string {
	s, r := reflect.ValueOf(src), reflect.ValueOf(res)
	if r.Kind() != reflect.Ptr || r.IsNil() {
		return where + ": no interpretation"
	}
	s, r = s.Elem(), r.Elem()
	body, els := bodyField(s)
	for i := 0; i < s.NumField(); i++ {
		n := s.Type().Field(i).Name
		if n == body || n == "Meta" && where == "file" {
			continue
		}
		f := r.FieldByName(n)
		if !f.IsValid() {
			return fmt.Sprintf("%s: the interpretation has no %s", where, n)
		}
		if a, b := dump(s.Field(i).Interface()), dump(f.Interface()); a != b {
			return fmt.Sprintf("%s: the interpretation has another %s: %s", where, n, firstDiff(a, b))
		}
	}
	b := r.FieldByName(body)
	if !b.IsValid() || b.Kind() != reflect.Ptr || b.IsNil() {
		return fmt.Sprintf("%s: the interpretation has no %s", where, body)
	}
	b = b.Elem()
	kinds := map[string][]parser.Visitee{}
	for _, e := range els {
		n := reflect.TypeOf(e).Elem().Name()
		kinds[n] = append(kinds[n], e)
	}
	for i := 0; i < b.NumField(); i++ {
		f := b.Field(i)
		if f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Ptr || b.Type().Field(i).PkgPath != "" {
			continue
		}
		n := f.Type().Elem().Elem().Name()
		want := kinds[n]
		delete(kinds, n)
		group := fmt.Sprintf("%s: group %s", where, b.Type().Field(i).Name)
		if f.Len() != len(want) {
			return fmt.Sprintf("%s has %d elements instead of %d", group, f.Len(), len(want))
		}
		for j, e := range want {
			x := f.Index(j)
			at := fmt.Sprintf("%s element %d", group, j)
			if x.Type() == reflect.TypeOf(e) {
				if a, b := dump(e), dump(x.Interface()); a != b {
					return fmt.Sprintf("%s is another: %s", at, firstDiff(a, b))
				}
				continue
			}
			if m := regrouped(e, x.Interface(), at); m != "" {
				return m
			}
		}
	}
	for n, es := range kinds {
		return fmt.Sprintf("%s: %d elements of type %s are lost", where, len(es), n)
	}
	return ""
}

// regroupedParts interprets the blocks alone.
func regroupedParts(els []parser.Visitee) string {
	for _, e := range els {
		var res interface{}
		var err error
		t := solo(1<<40, func() {
			switch x := e.(type) {
			case *parser.Message:
				res, err = unordered.InterpretMessage(x)
			case *parser.Enum:
				res, err = unordered.InterpretEnum(x)
			case *parser.Service:
				res, err = unordered.InterpretService(x)
			case *parser.Extend:
				res, err = unordered.InterpretExtend(x)
			}
		})
		where := fmt.Sprintf("%T alone", e)
		if f := t.failure(); f != "" {
			return where + ": the interpretation ends with " + f
		}
		if err != nil {
			return where + ": the interpretation fails: " + err.Error()
		}
		if res != nil {
			if m := regrouped(e, res, where); m != "" {
				return m
			}
		}
		if _, b := bodyField(reflect.ValueOf(e).Elem()); b != nil {
			if m := regroupedParts(b); m != "" {
				return m
			}
		}
	}
	return ""
}
