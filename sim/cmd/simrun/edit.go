package main

import (
	"fmt"
	"reflect"

	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// editTree uses a tree, changes it as its owner may, and uses it again. The second use must be
// that of a tree that was never used before the change.
func editTree(tree *parser.Proto, k *Call) string {
	use := func(t *parser.Proto) string {
		w := &walker{}
		x := buildIndex(t)
		for sub := 0; sub < 5; sub++ {
			w.run(x, t, &Call{Kind: "interpret", Sub: sub}, nil)
		}
		w.run(x, t, &Call{Kind: "accept"}, nil)
		return w.key()
	}
	for i := 0; i < k.Times; i++ {
		use(tree)
		edit(newRng(uint64(k.Sub), uint64(i)), tree)
	}
	unused := deepCopy(reflect.ValueOf(tree)).Interface().(*parser.Proto)
	if a, b := use(unused), use(tree); a != b {
		return fmt.Sprintf("after a change of the tree, its use gives something else than that of the same tree never used before: %s", firstDiff(a, b))
	}
	return ""
}

// deepCopy copies what v reaches through exported fields.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(deepCopy(v.Index(i)))
		}
		return s
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// edit changes some of what the tree holds.
func edit(r *rng, tree *parser.Proto) {
	var sites, slices []reflect.Value
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.CanSet() && v.Len() > 0 {
				sites = append(sites, v)
				slices = append(slices, v)
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.String, reflect.Bool:
			if v.CanSet() {
				sites = append(sites, v)
			}
		}
	}
	walk(reflect.ValueOf(tree))
	if len(sites) == 0 {
		return
	}
	for n := 1 + r.n(4); n > 0; n-- {
		v := sites[r.n(len(sites))]
		if len(slices) > 0 && r.p(60) {
			v = slices[r.n(len(slices))]
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString(v.String() + "x")
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Slice:
			if v.Len() == 0 {
				continue
			}
			i, j := r.n(v.Len()), r.n(v.Len())
			switch r.n(4) {
			case 0: // remove
				v.Set(reflect.AppendSlice(v.Slice3(0, i, i), v.Slice(i+1, v.Len())))
			case 1: // in place
				reflect.Swapper(v.Interface())(i, j)
			case 2: // replace
				v.Index(i).Set(deepCopy(v.Index(j)))
			default: // add
				v.Set(reflect.Append(v.Slice3(0, v.Len(), v.Len()), deepCopy(v.Index(j))))
			}
		}
	}
}
