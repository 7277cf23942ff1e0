package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func init() {
	register(&property{id: "C19", gen: genC19, run: runC19})
}

// --- C19 -----------------------------------------------------------------------------------

// An item is a token, a comment or a word of a content.
type item19 struct {
	kind   byte // w word, s string, c comment, p anything else
	lo, hi int
}

// itemsOf cuts a content into its items. It fails on what is not valid UTF-8 and on comments and
// strings without an end.
func itemsOf(b []byte) ([]item19, bool) {
	if !utf8.Valid(b) {
		return nil, false
	}
	s := string(b)
	var out []item19
	for i := 0; i < len(b); {
		r, n := utf8.DecodeRune(b[i:])
		if unicode.IsSpace(r) {
			i += n
			continue
		}
		x := item19{'p', i, i + n}
		switch {
		case bytes.HasPrefix(b[i:], []byte("//")):
			x.kind = 'c'
			if j := bytes.IndexByte(b[i:], '\n'); j >= 0 {
				x.hi = i + j
			} else {
				x.hi = len(b)
			}
		case bytes.HasPrefix(b[i:], []byte("/*")):
			j := bytes.Index(b[i+2:], []byte("*/"))
			if j < 0 {
				return nil, false
			}
			x.kind, x.hi = 'c', i+j+4
		case r == '"' || r == '\'':
			e := literal(s, i)
			if e < 0 {
				return nil, false
			}
			x.kind, x.hi = 's', e
		case isIdentByte(b[i]):
			x.kind = 'w'
			for x.hi < len(b) && isIdentByte(b[x.hi]) {
				x.hi++
			}
		}
		out = append(out, x)
		i = x.hi
	}
	return out, true
}

// isName tells whether a word is a name that means nothing to the grammar.
func isName(w []byte) bool {
	return len(w) > 0 && !isDigit(w[0]) && !isKeyword[string(w)]
}

func capital(c byte) bool { return 'A' <= c && c <= 'Z' }

func inertByte(c byte) bool {
	return c >= 0x20 && c < 0x7f && c != '"' && c != '\'' && c != '\\'
}

// nameAt tells whether the item is a name that means nothing to the grammar; in 1.e5 it is not.
func nameAt(b []byte, items []item19, i int) bool {
	x := items[i]
	if x.kind != 'w' || !isName(b[x.lo:x.hi]) {
		return false
	}
	return !(i > 1 && x.lo > 0 && b[x.lo-1] == '.' && items[i-2].hi == x.lo-1 && isDigit(b[items[i-2].lo]))
}

// alone tells whether no other string literal stands beside the string literal i.
func alone(items []item19, i int) bool {
	for _, d := range []int{-1, 1} {
		j := i + d
		for j >= 0 && j < len(items) && items[j].kind == 'c' {
			j += d
		}
		if j >= 0 && j < len(items) && items[j].kind == 's' {
			return false
		}
	}
	return true
}

type pair [2]byte

// A change is a name or string literal and what stands in its place.
type change struct{ from, to string }

func sortedChanges(c []change) string {
	sort.Slice(c, func(i, j int) bool { return c[i].from < c[j].from || c[i].from == c[j].from && c[i].to < c[j].to })
	return fmt.Sprintf("%q", c)
}

// changesOf returns where two lists of names and strings differ.
func changesOf(a, b []string) []change {
	var out []change
	for i := range a {
		if a[i] != b[i] {
			out = append(out, change{a[i], b[i]})
		}
	}
	return out
}

// pairs returns the bytes in which two texts of the same length differ, ok if they may.
func pairs(x, y []byte, out []pair, may func(c byte) bool) ([]pair, bool) {
	if len(x) != len(y) {
		return out, false
	}
	for i := range x {
		if x[i] != y[i] {
			if !may(x[i]) || !may(y[i]) {
				return out, false
			}
			out = append(out, pair{x[i], y[i]})
		}
	}
	return out, true
}

func hasNL(b []byte) bool { return bytes.IndexByte(b, '\n') >= 0 }

const breakers = "{};=,[]()<>"

// before returns the nth item in front of item i that is not a comment.
func before(t []byte, items []item19, i, n int) []byte {
	for i--; i >= 0; i-- {
		if items[i].kind != 'c' {
			if n--; n == 0 {
				return t[items[i].lo:items[i].hi]
			}
		}
	}
	return nil
}

// inert tells whether b differs from a only in what the grammar does not look at. It returns the
// names and strings that differ, and their characters if none has changed its length.
func inert(a, b []byte, ia, ib []item19) (ch []change, out []pair, same, ok bool) {
	same = true
	joined, plainBytes := false, true
	if len(ia) != len(ib) {
		return
	}
	gap := func(t []byte, items []item19, i int) []byte { // in front of item i
		lo, hi := 0, len(t)
		if i > 0 {
			lo = items[i-1].hi
		}
		if i < len(items) {
			hi = items[i].lo
		}
		return t[lo:hi]
	}
	breaks := func(i int) bool {
		if i < 0 || i >= len(ia) || ia[i].kind == 'c' {
			return true
		}
		return ia[i].kind == 'p' && bytes.IndexByte([]byte(breakers), a[ia[i].lo]) >= 0
	}
	for i := 0; i <= len(ia); i++ {
		ga, gb := gap(a, ia, i), gap(b, ib, i)
		if (len(ga) == 0) != (len(gb) == 0) && !breaks(i-1) && !breaks(i) {
			return ch, out, same, false
		}
		comment := i < len(ia) && ia[i].kind == 'c' || i > 0 && ia[i-1].kind == 'c'
		if comment && hasNL(ga) != hasNL(gb) {
			return ch, out, same, false
		}
		if i == len(ia) {
			break
		}
		if ia[i].kind != ib[i].kind {
			return ch, out, same, false
		}
		x, y := a[ia[i].lo:ia[i].hi], b[ib[i].lo:ib[i].hi]
		if bytes.Equal(x, y) {
			continue
		}
		ok = false
		switch ia[i].kind {
		case 'w':
			ok = nameAt(a, ia, i) && nameAt(b, ib, i) && capital(x[0]) == capital(y[0]) // groups have capital names
		case 's':
			if w := string(before(a, ia, i, 2)); string(before(a, ia, i, 1)) == "=" && (w == "syntax" || w == "edition") {
				return ch, out, same, false
			}
			if bytes.IndexByte(x, '\\') < 0 && bytes.IndexByte(y, '\\') < 0 && x[0] == y[0] {
				ok = true
				joined = joined || !alone(ia, i) // to be joined with others
				_, same := pairs(x, y, nil, inertByte)
				plainBytes = plainBytes && same
			}
		case 'c':
			ok = x[1] == y[1]
			if hasNL(x) != hasNL(y) && !(hasNL(gap(a, ia, i)) && hasNL(gap(a, ia, i+1))) {
				ok = false
			}
		}
		if ok && ia[i].kind != 'c' {
			ch = append(ch, change{string(x), string(y)})
			if len(x) != len(y) {
				same = false
			} else {
				out, _ = pairs(x, y, out, func(byte) bool { return true })
			}
		}
		if !ok {
			return ch, out, same, false
		}
	}
	return ch, out, same, !joined || same && plainBytes
}

// placeOf renders a position by the items of the content, so that it is the same for contents
// whose items are moved.
func placeOf(p meta.Position, t []byte, items []item19) string {
	if p.Line == 0 {
		return fmt.Sprintf("@%q none", p.Filename)
	}
	i := sort.Search(len(items), func(i int) bool { return items[i].hi > p.Offset })
	place := ""
	switch {
	case i == len(items):
		place = "behind all"
	case p.Offset < items[i].lo:
		place = fmt.Sprintf("in front of %d", i)
	case p.Offset == items[i].lo:
		place = fmt.Sprintf("at %d", i)
	case p.Offset == lastRune(t[:items[i].hi]):
		place = fmt.Sprintf("at the end of %d", i)
	default:
		place = fmt.Sprintf("in %d", i)
	}
	if p.Offset < 0 || p.Offset > len(t) {
		return fmt.Sprintf("@%q outside", p.Filename)
	}
	line, col := lineColumn(t, p.Offset)
	return fmt.Sprintf("@%q %s, %d lines and %d columns off", p.Filename, place, p.Line-line, p.Column-col)
}

func lastRune(t []byte) int {
	_, n := utf8.DecodeLastRune(t)
	return len(t) - n
}

// lineColumn counts lines from 1 and columns in characters from 1.
func lineColumn(t []byte, off int) (int, int) {
	line := 1 + bytes.Count(t[:off], []byte("\n"))
	begin := bytes.LastIndexByte(t[:off], '\n') + 1
	return line, 1 + utf8.RuneCount(t[begin:off])
}

var commentType = reflect.TypeOf(parser.Comment{})

// dumpPlaced renders v with positions as places, and with comments that say what stands at
// their place as just that. With names, the names and strings of the tree are listed apart.
func dumpPlaced(v interface{}, t []byte, items []item19, names *[]string) string {
	d := dumper{b: make([]byte, 0, 1024)}
	d.special = func(v reflect.Value) (string, bool) {
		if v.Kind() == reflect.String {
			if names == nil {
				return "", false
			}
			s := v.String()
			parts, ok := itemsOf([]byte(s))
			if !ok {
				return "", false
			}
			out, from := "", 0
			for _, x := range parts {
				if x.kind == 'w' || x.kind == 's' {
					*names = append(*names, s[x.lo:x.hi])
					out += s[from:x.lo] + "\u00a7"
					from = x.hi
				}
			}
			return strconv.Quote(out + s[from:]), true
		}
		switch v.Type() {
		case positionType:
			return placeOf(v.Interface().(meta.Position), t, items), true
		case commentType:
			c := v.Interface().(parser.Comment)
			o := c.Meta.Pos.Offset
			i := sort.Search(len(items), func(i int) bool { return items[i].lo >= o })
			if i < len(items) && items[i].lo == o && items[i].kind == 'c' && c.Raw == string(t[o:items[i].hi]) {
				return fmt.Sprintf("comment %d ", i) + placeOf(c.Meta.Pos, t, items) + placeOf(c.Meta.LastPos, t, items), true
			}
		}
		return "", false
	}
	d.val(reflect.ValueOf(v), 0)
	return string(d.b)
}

var inertText = []string{"{", "}", ";", "//", "/*", "[", "]", "=", "(", ")", "<", ">", "#", "%s", "%d", "@", "$", "|", "&", "`", " ", "  ", "//c", "message", "option", "rpc", "import", "0", ":", ",", ".", "-", "~", "^", "?", "!", "max", "to"}

// words19 returns another name of the content.
func words19(r *rng, items []item19, b []byte) []byte {
	for try := 0; try < 20; try++ {
		if x := items[r.n(len(items))]; x.kind == 'w' {
			return append([]byte(nil), b[x.lo:x.hi]...)
		}
	}
	return []byte("x")
}

// reshape returns a name of another form: other underscores, digits, capitals, a piece of it.
func reshape(r *rng, w []byte) []byte {
	s := string(w)
	i := r.n(len(s) + 1)
	switch r.n(14) {
	case 0:
		s += "_"
	case 1:
		s += "__"
	case 2:
		s = s[:1] + "__" + s[1:]
	case 3:
		s = s[:i] + "_" + s[i:]
	case 4:
		s += itoa(r.n(1000))
	case 5:
		s = s[:1] + strings.ToUpper(s[1:])
	case 6:
		s = s[:1] + strings.ToLower(s[1:])
	case 7:
		s = s[:1]
	case 8:
		s = s[:1+r.n(len(s))]
	case 9:
		s = s[:1] + s
	case 10:
		s = "_" + s
	case 11:
		s = strings.Trim(s, "_") + s
	case 12:
		s = s[:1] + strings.ReplaceAll(s[1:], "_", "")
	default:
		s = s[:1] + r.pick("_", "__", "_1", "1", "0", "__1__", "s", "ID", "_id", "Type", "s_") + s[1:]
	}
	return []byte(s)
}

// genInert makes a change of b that the grammar does not look at.
func genInert(r *rng, b []byte) (Fault, bool) {
	items, ok := itemsOf(b)
	if !ok || len(items) == 0 {
		return Fault{}, false
	}
	find := func(kind byte) (item19, bool) {
		for try := 0; try < 30; try++ {
			x := items[r.n(len(items))]
			if x.kind == kind && (kind != 'w' || isName(b[x.lo:x.hi])) && (kind != 's' || x.hi-x.lo > 2) {
				return x, true
			}
		}
		return item19{}, false
	}
	over := func(lo, hi int, by []byte) (Fault, bool) {
		return Fault{Op: "overwrite", At: lo, N: hi - lo, B: Blob(by)}, true
	}
	switch r.n(7) {
	case 0, 1:
		x, ok := find('w')
		if !ok {
			return Fault{}, false
		}
		w := append([]byte(nil), b[x.lo:x.hi]...)
		if r.p(25) || r.focus && r.p(50) { // a name of another length
			n := []byte(dictIdent(r))
			k := r.n(5)
			if r.focus && len(n) > 0 {
				k = 3
			}
			switch k {
			case 0:
				n = words19(r, items, b)
			case 1:
				n = bytes.Repeat(w, 1+r.logn(300)/len(w))
			case 4:
				n = reshape(r, w)
			case 2:
				n = append(append([]byte(nil), w...), r.pick("1", "_", "x", "Y", "_a", "_2", "Request", "message", "map")...)
			}
			if isName(n) && capital(n[0]) == capital(w[0]) {
				return over(x.lo, x.hi, n)
			}
		}
		if r.p(40) { // another name of this length
			var same [][]byte
			for _, y := range items {
				if y.kind == 'w' && y.hi-y.lo == len(w) && isName(b[y.lo:y.hi]) && !bytes.Equal(w, b[y.lo:y.hi]) {
					same = append(same, b[y.lo:y.hi])
				}
			}
			for _, s := range words {
				if len(s) == len(w) {
					same = append(same, []byte(s))
				}
			}
			if d := dictIdent(r); len(d) == len(w) {
				same = append(same, []byte(d))
			}
			if len(same) > 0 {
				return over(x.lo, x.hi, same[r.n(len(same))])
			}
		}
		for k := 1 + r.n(3)*r.n(2); k > 0; k-- {
			i := r.n(len(w))
			c := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[r.n(63)]
			if i > 0 || !isDigit(c) && capital(c) == capital(w[0]) {
				w[i] = c
			}
		}
		return over(x.lo, x.hi, w)
	case 2:
		x, ok := find('s')
		if !ok {
			return Fault{}, false
		}
		w := append([]byte(nil), b[x.lo:x.hi]...)
		for k := 1 + r.n(3); k > 0; k-- {
			i := 1 + r.n(len(w)-2)
			t := inertText[r.n(len(inertText))]
			if r.p(15) {
				if r.p(20) {
					t = strings.Repeat(t, 1+r.logn(300))
				}
				w = append(w[:i:i], append([]byte(t), w[i:]...)...)
				continue
			}
			if r.p(30) {
				t = string(rune(0x20 + r.n(0x5f)))
			}
			copy(w[i:len(w)-1], t)
		}
		return over(x.lo, x.hi, w)
	case 3, 4:
		x, ok := find('c')
		if !ok {
			return Fault{}, false
		}
		lo, hi := x.lo+2, x.hi
		block := b[x.lo+1] == '*'
		if block {
			hi -= 2
		}
		var t []byte
		for k := r.n(4); k > 0; k-- {
			switch r.n(6) {
			case 0:
				t = append(t, commentBits[r.n(len(commentBits))]...)
			case 1:
				t = append(t, statements[r.n(len(statements))]...)
			case 2:
				t = append(t, uniBits[r.n(len(uniBits))]...)
			case 3:
				t = append(t, dictText(r)...)
			case 4:
				t = append(t, bytes.Repeat([]byte(r.pick("*", "/", "-", "x", " ", "\\", "\"")), r.logn(100))...)
			default:
				t = append(t, inertText[r.n(len(inertText))]...)
			}
			if block && r.p(20) {
				t = append(t, '\n')
			}
		}
		if r.p(2) {
			t = append(t, bytes.Repeat([]byte("long "), r.logn(2000))...)
		}
		if !block {
			t = bytes.ReplaceAll(t, []byte("\n"), nil)
		} else {
			t = bytes.ReplaceAll(t, []byte("*/"), []byte("* /"))
			if len(t) > 0 && t[0] == '/' || bytes.HasSuffix(t, []byte("*")) && r.p(50) {
				t = append(append([]byte(" "), t...), ' ')
			}
		}
		if r.p(50) { // only a part of it
			mid := lo + r.n(hi-lo+1)
			if r.p(50) {
				return over(mid, mid, t)
			}
			return over(mid, hi, t)
		}
		return over(lo, hi, t)
	}
	i := r.n(len(items) + 1)
	lo, hi := 0, len(b)
	if i > 0 {
		lo = items[i-1].hi
	}
	if i < len(items) {
		hi = items[i].lo
	}
	var t []byte
	for k := r.n(4); k > 0; k-- {
		t = append(t, r.pick(" ", "\n", "\t", "\r\n", "\r", "\v", "\f", "\u0085", "\u00a0", "\u2003", "\u3000", "\u2028", "\u1680", "\u202f", "\n\n", "          ")...)
	}
	if r.p(3) {
		t = append(t, bytes.Repeat([]byte(r.pick(" ", "\n", "\t")), r.logn(6000))...)
	}
	return over(lo, hi, t)
}

func genC19(r *rng, _ bool) *Case {
	c := &Case{Prop: "C19"}
	strict := r.p(30)
	text := genBase(r, strict)
	if len(text) > 20000 {
		text = genSmall(r, strict, 600)
	}
	c.Texts = []Blob{text}
	o := genOpts(r, strict)
	for i := 0; i < 6; i++ {
		k := Call{Kind: "parse", Opts: o}
		for m := r.logn(12); m > 0; m-- {
			cur := applyFaults(text, k.Faults)
			f, ok := genInert(r, cur)
			if !ok {
				continue
			}
			next := applyFaults(cur, []Fault{f})
			ia, oka := itemsOf(cur)
			ib, okb := itemsOf(next)
			if !oka || !okb {
				continue
			}
			if _, _, _, ok := inert(cur, next, ia, ib); ok {
				k.Faults = append(k.Faults, f)
			}
		}
		if r.p(30) {
			k.Delivery = genDelivery(r, applyFaults(text, k.Faults))
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func sortedPairs(p []pair) string {
	sort.Slice(p, func(i, j int) bool { return p[i][0] < p[j][0] || p[i][0] == p[j][0] && p[i][1] < p[j][1] })
	return fmt.Sprintf("%q", p)
}

func runC19(c *Case) *Violation {
	type base struct {
		out   *outcome
		items []item19
		ok    bool
		dump  string
		names []string
	}
	bases := map[string]*base{}
	for i := range c.Calls {
		k := &c.Calls[i]
		text := []byte(c.Texts[k.Text])
		id := dump(k.Opts) + itoa(k.Text)
		x := bases[id]
		if x == nil {
			x = &base{}
			bases[id] = x
			if x.items, x.ok = itemsOf(text); x.ok {
				x.out = parseSolo(text, k.Opts, plain, nil, 0)
				if x.ok = x.out.ok(); x.ok {
					x.dump = dumpPlaced(x.out.tree, text, x.items, &x.names)
				}
			}
		}
		if !x.ok {
			continue
		}
		data := c.content(k)
		if bytes.Equal(data, text) {
			continue
		}
		items, ok := itemsOf(data)
		if !ok {
			continue
		}
		ch, chars, same, ok := inert(text, data, x.items, items)
		if !ok {
			continue
		}
		nontrivial = true
		st.fault("damage in what the grammar does not look at")
		if !same {
			st.fault("names and strings of another length")
		}
		got := parseSolo(data, k.Opts, k.Delivery, nil, 0)
		if !got.ok() {
			return violf("rejected", "call %d: a change of comments, names, strings or white space makes the file rejected: %s", i, got.short())
		}
		var names []string
		d := dumpPlaced(got.tree, data, items, &names)
		a, b := "", ""
		if d == x.dump && len(names) == len(x.names) {
			if a, b = sortedChanges(ch), sortedChanges(changesOf(x.names, names)); a == b {
				continue
			}
		}
		if same { // by characters, in case several texts are put together to one in the tree
			d1, d2 := dumpPlaced(x.out.tree, text, x.items, nil), dumpPlaced(got.tree, data, items, nil)
			if have, ok := pairs([]byte(d1), []byte(d2), nil, func(byte) bool { return true }); ok && sortedPairs(chars) == sortedPairs(have) {
				continue
			}
		}
		if d != x.dump {
			return violf("altered", "call %d: a change of comments, names, strings or white space alters something else: %s", i, firstDiff(x.dump, d))
		}
		return violf("altered", "call %d: changed in the content: %s, in the tree: %s", i, a, b)
	}
	return nil
}
