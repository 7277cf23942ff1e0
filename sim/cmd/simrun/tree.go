package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// dump renders everything reachable from v. Pointers are followed, identity is not shown,
// nil and empty are told apart.
func dump(v interface{}) string {
	d := dumper{b: make([]byte, 0, 1024)}
	d.val(reflect.ValueOf(v), 0)
	return string(d.b)
}

// dumpMemory renders v with what the spare capacity of its slices holds.
func dumpMemory(v interface{}) string {
	d := dumper{b: make([]byte, 0, 1024), spare: true}
	d.val(reflect.ValueOf(v), 0)
	return string(d.b)
}

// dumpSkip renders v but leaves out struct fields for which skip answers true.
func dumpSkip(v interface{}, skip func(t reflect.Type, field string, depth int) bool) string {
	d := dumper{b: make([]byte, 0, 1024), skip: skip}
	d.val(reflect.ValueOf(v), 0)
	return string(d.b)
}

type dumper struct {
	b    []byte
	skip func(t reflect.Type, field string, depth int) bool
	pos  *shift

	spare bool // show the spare capacity of slices, too

	special func(v reflect.Value) (string, bool) // how to render a struct or string
}

// shift moves the positions of a dump; those on the line only move by col, too.
type shift struct{ off, line, only, col int }

// dumpShifted renders v with its positions moved.
func dumpShifted(v interface{}, by shift) string {
	d := dumper{b: make([]byte, 0, 1024), pos: &by}
	d.val(reflect.ValueOf(v), 0)
	return string(d.b)
}

var positionType = reflect.TypeOf(meta.Position{})

const maxDepth = 400000

func (d *dumper) s(s string) { d.b = append(d.b, s...) }

func (d *dumper) val(v reflect.Value, depth int) {
	if depth > maxDepth {
		d.s("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		d.s("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			d.s("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			d.s("&")
		}
		d.val(v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		if d.special != nil {
			if s, ok := d.special(v); ok {
				d.s(s)
				return
			}
		}
		if d.pos != nil && t == positionType {
			p := v.Interface().(meta.Position)
			if p.Line != 0 {
				if p.Line == d.pos.only {
					p.Column += d.pos.col
				}
				p.Offset += d.pos.off
				p.Line += d.pos.line
			}
			d.s(fmt.Sprintf("@%q %d %d:%d", p.Filename, p.Offset, p.Line, p.Column))
			return
		}
		d.s(t.Name())
		d.s("{")
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue // what a caller cannot see may be anything
			}
			if d.skip != nil && d.skip(t, t.Field(i).Name, depth) {
				continue
			}
			d.s(t.Field(i).Name)
			d.s(":")
			d.val(v.Field(i), depth+1)
			d.s(" ")
		}
		d.s("}")
	case reflect.Slice:
		if v.IsNil() {
			d.s("[]nil")
			return
		}
		fallthrough
	case reflect.Array:
		d.s("[")
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
			d.s("\n")
		}
		if d.spare && v.Kind() == reflect.Slice && v.Len() < v.Cap() {
			d.s("|")
			full := v.Slice3(0, v.Cap(), v.Cap())
			for i := v.Len(); i < full.Len(); i++ {
				d.val(full.Index(i), depth+1)
				d.s("\n")
			}
		}
		d.s("]")
	case reflect.Map:
		if v.IsNil() {
			d.s("map-nil")
			return
		}
		d.s("map" + strconv.Itoa(v.Len()))
	case reflect.String:
		if d.special != nil {
			if s, ok := d.special(v); ok {
				d.s(s)
				return
			}
		}
		d.b = strconv.AppendQuote(d.b, v.String())
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.s("nil")
		} else {
			d.s(v.Kind().String())
		}
	default:
		d.s("?" + v.Kind().String())
	}
}

// firstDiff describes where two dumps part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 100
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at %d: expected ...%q, got ...%q", i, cut(a), cut(b))
}

var occurred = regexp.MustCompile(` at \S*\.go:\d+`)

func stripOccurred(s string) string { return occurred.ReplaceAllString(s, "") }

func errKey(err error) string {
	if err == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%T|%s", err, err.Error())
}

// --- memory reachable from a value (C14) -------------------------------------------------

type memRange struct {
	lo, hi uintptr
	what   string
}

// ranges collects the mutable memory reachable from v: pointed-to values, slice arrays, maps.
// Strings are immutable and not included.
func ranges(v interface{}) []memRange {
	c := collector{seen: map[seenKey]bool{}}
	c.val(reflect.ValueOf(v))
	return c.out
}

type seenKey struct {
	p uintptr
	t reflect.Type
}

type collector struct {
	out  []memRange
	seen map[seenKey]bool
}

func (c *collector) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			c.val(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		if sz := v.Type().Elem().Size(); sz > 0 {
			c.out = append(c.out, memRange{v.Pointer(), v.Pointer() + sz, v.Type().String()})
		}
		c.val(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				c.val(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if sz := v.Type().Elem().Size(); sz > 0 && !c.seen[k] {
			c.seen[k] = true
			c.out = append(c.out, memRange{v.Pointer(), v.Pointer() + sz*uintptr(v.Cap()), v.Type().String()})
		}
		for i := 0; i < v.Len(); i++ {
			c.val(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.val(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		c.out = append(c.out, memRange{v.Pointer(), v.Pointer() + 1, v.Type().String()})
		it := v.MapRange()
		for it.Next() {
			c.val(it.Key())
			c.val(it.Value())
		}
	}
}

// scribble overwrites everything mutable that is reachable from v, also the spare capacity of
// slices.
func scribble(v interface{}) {
	s := scribbler{seen: map[seenKey]bool{}}
	s.val(reflect.ValueOf(v))
}

type scribbler struct{ seen map[seenKey]bool }

func (s *scribbler) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			s.val(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		s.val(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				s.val(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.val(v.Index(i))
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			e := full.Index(i)
			switch e.Kind() {
			case reflect.Ptr, reflect.Interface:
				if e.CanSet() {
					e.Set(reflect.Zero(e.Type()))
				}
			default:
				if i >= v.Len() {
					s.val(e)
				}
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "<scribbled>")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 4242)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 77)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		it := v.MapRange()
		var keys []reflect.Value
		for it.Next() {
			s.val(it.Value())
			keys = append(keys, it.Key())
		}
		for _, k := range keys {
			v.SetMapIndex(k, reflect.Value{})
		}
	}
}

// bodyOf returns the declarations of a proto.
func bodyOf(p *parser.Proto) []parser.Visitee {
	if p == nil {
		return nil
	}
	return p.ProtoBody
}

func isNilVisitee(v parser.Visitee) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Ptr && rv.IsNil()
}
