package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func init() {
	register(&property{id: "C13", gen: genC13, run: runC13})
	register(&property{id: "C15", gen: genC15, run: runC15})
}

// --- C13 -----------------------------------------------------------------------------------

var lexModes = []string{"plain", "keyword", "strlit", "lit", "number", "comment", "keyword-or-strlit"}

var lexReads = []string{"constant", "constant-permissive", "fullident", "messagetype", "enumtype", "empty", "consume;", "consume-ident", "skip"}

func nextMode(lex *lexer.Lexer, mode string) {
	switch mode {
	case "keyword":
		lex.NextKeyword()
	case "strlit":
		lex.NextStrLit()
	case "lit":
		lex.NextLit()
	case "number":
		lex.NextNumberLit()
	case "comment":
		lex.NextComment()
	case "keyword-or-strlit":
		lex.NextKeywordOrStrLit()
	default:
		lex.Next()
	}
}

func genC13(r *rng, _ bool) *Case {
	c := &Case{Prop: "C13"}
	strict := r.p(25)
	var text []byte
	switch r.n(7) {
	case 0:
		text = genSoup(r)
	case 1:
		text = genNoise(r)
	case 2:
		text = genDense(r)
	default:
		text = genSmall(r, strict, 400)
	}
	c.Texts = []Blob{text}
	k := Call{Kind: "lex", Opts: genOpts(r, strict)}
	if r.p(40) {
		k.Faults = genFaults(r, text, nil)
	}
	k.Delivery = genDelivery(r, text)
	if r.p(20) {
		k.Stop = genStop(r, text, r.pick("eof", "err"))
		k.Stop.After = "sticky"
	}
	c.Calls = []Call{k}
	n := r.in(4, 50)
	same := lexModes[r.n(len(lexModes))]
	for i := 0; i < n; i++ {
		for r.p(45) {
			op := Op{Ins: true, Do: r.pick("peek", "peekn", "nextun", "nextsun", "nextsun", "consume-other"), N: 1 + r.logn(6)}
			if r.p(3) {
				op.N = r.logn(200)
			}
			op.Mode = lexModes[r.n(len(lexModes))]
			if op.Do == "nextsun" && r.p(50) {
				op.Mode = "mixed"
			}
			op.At = r.n(30)
			c.Ops = append(c.Ops, op)
		}
		op := Op{Do: "next", Mode: same}
		if r.p(60) {
			op.Mode = lexModes[r.n(len(lexModes))]
		}
		if r.p(25) {
			op.Do = lexReads[r.n(len(lexReads))]
			op.N = r.logn(60)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// lexErrs counts the errors that the lexer reported during the last operation.
var lexErrs int

// lexRun performs the operations; the inserted ones only if ins.
func lexRun(lex *lexer.Lexer, ops []Op, ins bool, rec func(i int, extra string)) {
	lex.Error = func(l *lexer.Lexer, err error) {
		if l != lex || err == nil {
			lexErrs += 2
		}
		lexErrs++
	}
	for i, op := range ops {
		lexErrs = 0
		if op.Ins {
			if ins {
				if msg := insertedOp(lex, op); msg != "" {
					rec(i, msg)
				}
			}
			continue
		}
		extra := ""
		ret := func(s string, p scanner.Position, err error) {
			extra = fmt.Sprintf("%q %v %v", s, p.Position, errKey(err))
		}
		switch op.Do {
		case "constant":
			ret(lex.ReadConstant(false))
		case "constant-permissive":
			ret(lex.ReadConstant(true))
		case "fullident":
			ret(lex.ReadFullIdent())
		case "messagetype":
			ret(lex.ReadMessageType())
		case "enumtype":
			ret(lex.ReadEnumType())
		case "empty":
			extra = errKey(lex.ReadEmptyStatement())
		case "consume;":
			lex.ConsumeToken(scanner.TSEMICOLON)
		case "consume-ident":
			lex.ConsumeToken(scanner.TIDENT)
		case "skip":
			lex.NextN(op.N)
		default:
			nextMode(lex, op.Mode)
		}
		rec(i, extra)
	}
}

// insertedOp looks ahead. It returns what is wrong with what it is told.
func insertedOp(lex *lexer.Lexer, op Op) string {
	switch op.Do {
	case "peek", "peekn":
		n := 1
		var t scanner.Token
		if op.Do == "peek" {
			t = lex.Peek()
		} else {
			n = op.N
			t = lex.PeekN(n)
		}
		// the same by taking the tokens and un-taking them
		var raws [][]rune
		want := t
		for i := 0; i < n; i++ {
			lex.Next()
			want = lex.Token
			raws = append(raws, lex.RawText)
		}
		for i := len(raws) - 1; i >= 0; i-- {
			lex.UnNextTo(raws[i])
		}
		if t != want {
			return fmt.Sprintf("%s of %d says token %d, taken it is %d", op.Do, n, t, want)
		}
	case "nextun":
		nextMode(lex, op.Mode)
		lex.UnNext()
	case "nextsun":
		var raws [][]rune
		for i := 0; i < op.N; i++ {
			m := op.Mode
			if m == "mixed" {
				m = lexModes[(op.At+i*5)%len(lexModes)]
			}
			nextMode(lex, m)
			raws = append(raws, lex.RawText)
		}
		for i := len(raws) - 1; i >= 0; i-- {
			lex.UnNextTo(raws[i])
		}
	case "consume-other":
		other := []scanner.Token{scanner.TMESSAGE, scanner.TSTRLIT, scanner.TCOMMENT, scanner.TSEMICOLON, scanner.TRIGHTCURLY, scanner.TIDENT, scanner.TEQUALS}
		for j := range other {
			t := other[(op.At+j)%len(other)]
			if lex.Peek() != t {
				lex.ConsumeToken(t)
				break
			}
		}
	}
	return ""
}

func runC13(c *Case) *Violation {
	if len(c.Calls) == 0 {
		return nil
	}
	k := &c.Calls[0]
	data := c.content(k)
	one := func(d Delivery, ins bool) ([]string, string) {
		var log []string
		var clk int64
		rd := newReader(data, d, k.Stop, nil, &clk)
		kk := *k
		kk.Delivery = d
		lex := lexer.NewLexer(readerOf(rd, &kk), lexer.WithFilename(k.Opts.Filename), lexer.WithDebug(k.Opts.Debug))
		t := solo(stepLimit(data)*uint64(2+len(c.Ops)), func() {
			lexRun(lex, c.Ops, ins, func(i int, extra string) {
				if c.Ops[i].Ins {
					log = append(log, fmt.Sprintf("op %d: %s", i, extra))
					return
				}
				log = append(log, fmt.Sprintf("op %d %s %s: token %d text %q raw %q pos %v %s", i, c.Ops[i].Do, c.Ops[i].Mode, lex.Token, lex.Text, string(lex.RawText), lex.Pos.Position, extra))
			})
		})
		o := &outcome{rd: rd, steps: t.h.Steps}
		o.account(data)
		return log, t.failure()
	}
	want, wf := one(plain, false)
	if wf != "" {
		return nil // the operations themselves do not end: C06
	}
	got, gf := one(k.Delivery, true)
	if gf != "" {
		return violf("fail", "with lookahead inserted the operations end with %s", gf)
	}
	for _, op := range c.Ops {
		if op.Ins {
			nontrivial = true
			st.fault("lookahead: " + op.Do)
		}
	}
	for i := range want {
		if i >= len(got) || want[i] != got[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			return violf("lookahead", "expected %s; got %s", want[i], g)
		}
	}
	return nil
}

// --- C15 -----------------------------------------------------------------------------------

func genC15(r *rng, _ bool) *Case {
	c := &Case{Prop: "C15"}
	strict := r.p(30)
	text := genBase(r, strict)
	if len(text) > 8000 {
		text = genSmall(r, strict, 1500)
	}
	c.Texts = []Blob{text}
	o := genOpts(r, strict)
	for i := 0; i < 2; i++ {
		k := Call{Kind: "drive", Opts: o, Sub: r.n(4)}
		if r.p(25) {
			k.Faults = genFaults(r, text, nil)
		}
		if r.p(85) {
			k.Delivery = genDelivery(r, text)
		}
		c.Calls = append(c.Calls, k)
	}
	n := r.n(20)
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, Op{Do: r.pick("eof", "syntax", "edition", "comments", "peek", "eof"), N: 1 + r.n(3), At: r.n(40), Ins: true})
	}
	for r.p(60) {
		c.Ops = append(c.Ops, Op{Do: "other method", N: r.n(len(methods)), At: r.n(20), Mode: r.pick("", ";", "; ;", "// c\n", "x", "/* c */ ;")})
	}
	return c
}

// methods parse one declaration that begins with a keyword.
var methods = []struct {
	keyword scanner.Token
	parse   func(p *parser.Parser) (interface{}, error)
}{
	{scanner.TIMPORT, func(p *parser.Parser) (interface{}, error) { return p.ParseImport() }},
	{scanner.TPACKAGE, func(p *parser.Parser) (interface{}, error) { return p.ParsePackage() }},
	{scanner.TOPTION, func(p *parser.Parser) (interface{}, error) { return p.ParseOption() }},
	{scanner.TMESSAGE, func(p *parser.Parser) (interface{}, error) { return p.ParseMessage() }},
	{scanner.TENUM, func(p *parser.Parser) (interface{}, error) { return p.ParseEnum() }},
	{scanner.TSERVICE, func(p *parser.Parser) (interface{}, error) { return p.ParseService() }},
	{scanner.TEXTEND, func(p *parser.Parser) (interface{}, error) { return p.ParseExtend() }},
	{scanner.TONEOF, func(p *parser.Parser) (interface{}, error) { return p.ParseOneof() }},
	{scanner.TMAP, func(p *parser.Parser) (interface{}, error) { return p.ParseMapField() }},
	{scanner.TRESERVED, func(p *parser.Parser) (interface{}, error) { return p.ParseReserved() }},
	{scanner.TEXTENSIONS, func(p *parser.Parser) (interface{}, error) { return p.ParseExtensions() }},
}

// otherMethod calls a method at a place where no declaration of its kind begins: at the start of
// an element of the file or of a body, perhaps with something in front of it.
func otherMethod(k *Call, data []byte, tree *parser.Proto, op Op) string {
	var starts []int
	var walk func(v interface{}, depth int)
	walk = func(v interface{}, depth int) {
		if s := startOf(v); s >= 0 && s < len(data) && len(starts) < 64 {
			starts = append(starts, s)
		}
		if depth < 3 {
			for _, l := range bodyLists(v) {
				for _, x := range l {
					walk(x, depth+1)
				}
			}
		}
	}
	for _, x := range tree.ProtoBody {
		walk(x, 0)
	}
	if len(starts) == 0 || op.N < 0 || op.N >= len(methods) || op.At < 0 {
		return ""
	}
	at := starts[op.At%len(starts)]
	text := op.Mode + string(data[at:])
	m := methods[op.N]
	lex := lexer.NewLexer(strings.NewReader(text))
	lex.Error = func(*lexer.Lexer, error) {}
	lex.NextKeyword()
	if lex.Token == m.keyword {
		return "" // that is its declaration
	}
	st.fault("probe: " + op.Do)
	lex = lexer.NewLexer(strings.NewReader(text))
	lex.Error = func(*lexer.Lexer, error) {}
	p := parser.NewParser(lex, parser.WithPermissive(!k.Opts.Strict), parser.WithBodyIncludingComments(k.Opts.BodyComments))
	var x interface{}
	var err error
	t := solo(8*stepLimit(data), func() { x, err = m.parse(p) })
	if f := t.failure(); f != "" {
		return fmt.Sprintf("method %d at %.40q: %s", op.N, text, f)
	}
	if err == nil {
		return fmt.Sprintf("a method for another kind of declaration (token %d) finds %s at %.60q", m.keyword, dump(x), text)
	}
	return ""
}

// client drives the exported parser methods.
type client struct {
	p       *parser.Parser
	lex     *lexer.Lexer
	probes  map[int][]Op
	at      int
	data    []byte
	valid   bool // positions can be compared with offsets of the content
	body    bool
	perm    bool
	deep    int
	trouble string
}

func (c *client) bad(format string, a ...interface{}) {
	if c.trouble == "" {
		c.trouble = fmt.Sprintf(format, a...)
	}
}

// probe makes the probing calls planned for this point. The comments before the point have been
// read, so that there is nothing to find.
func (c *client) probe(what string, noComments bool) {
	ops := c.probes[c.at]
	c.at++
	// a field of a type called syntax or edition looks like what is probed for
	c.lex.NextKeyword()
	next := c.lex.Token
	c.lex.UnNext()
	for _, op := range ops {
		for i := 0; i < op.N; i++ {
			switch op.Do {
			case "eof":
				if c.p.IsEOF() {
					c.bad("IsEOF before %s", what)
				}
			case "syntax":
				if next == scanner.TSYNTAX {
					continue
				}
				if s, err := c.p.ParseSyntax(); s != nil || err != nil {
					c.bad("ParseSyntax before %s finds %v, %v", what, s, err)
				}
			case "edition":
				if next == scanner.TEDITION {
					continue
				}
				if s, err := c.p.ParseEdition(); s != nil || err != nil {
					c.bad("ParseEdition before %s finds %v, %v", what, s, err)
				}
			case "comments":
				if noComments {
					if cs := c.p.ParseComments(); len(cs) != 0 {
						c.bad("ParseComments before %s finds %d comments", what, len(cs))
					}
				}
			case "peek":
				c.lex.Peek()
			}
		}
	}
}

type inlineCatcher struct{ c *parser.Comment }

// SetInlineComment implements parser.HasInlineCommentSetter.
func (i *inlineCatcher) SetInlineComment(c *parser.Comment) { i.c = c }

// noTokens tells whether b holds only white space and comments.
func noTokens(b []byte) bool {
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		switch {
		case unicode.IsSpace(r):
			b = b[n:]
		case bytes.HasPrefix(b, []byte("//")):
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				return true
			}
			b = b[i:]
		case bytes.HasPrefix(b, []byte("/*")):
			i := bytes.Index(b[2:], []byte("*/"))
			if i < 0 {
				return false
			}
			b = b[i+4:]
		default:
			return false
		}
	}
	return true
}

// after checks that the stream is at the first token behind the declaration.
func (c *client) after(what string, lastOffset int) {
	if !c.valid || lastOffset < 0 || lastOffset >= len(c.data) {
		return
	}
	rest := c.data[lastOffset+1:]
	off := lastOffset + 1
	end := noTokens(rest)
	for _, op := range c.probes[c.at] {
		// before anything else is asked
		for i := 0; op.Do == "eof" && i < op.N; i++ {
			if c.p.IsEOF() != end {
				c.bad("IsEOF behind %s answers %v", what, !end)
			}
		}
	}
	for len(rest) > 0 {
		r, n := utf8.DecodeRune(rest)
		if !unicode.IsSpace(r) {
			break
		}
		rest = rest[n:]
		off += n
	}
	c.lex.NextComment()
	got := c.lex.Pos.Offset
	if c.lex.IsEOF() {
		got = len(c.data)
		if off < len(c.data) {
			c.bad("behind %s the stream is at its end, not at offset %d", what, off)
		}
	}
	c.lex.UnNext()
	if got != off {
		c.bad("behind %s the stream is at offset %d, not at %d", what, got, off)
	}
}

type inliner interface {
	parser.HasInlineCommentSetter
	parser.Visitee
}

func (c *client) drive() *parser.Proto {
	out := &parser.Proto{Meta: &parser.ProtoMeta{}}
	// a byte order mark, also one behind white space and comments, is no declaration
	c.lex.Next()
	if c.lex.Token != scanner.TBOM {
		c.lex.UnNext()
	}
	comments := c.p.ParseComments()
	c.probeHeader()
	syntax, err := c.p.ParseSyntax()
	if err != nil {
		c.bad("ParseSyntax: %v", err)
		return out
	}
	if syntax != nil {
		c.after("the syntax", syntax.Meta.LastPos.Offset)
		syntax.Comments = comments
		c.p.MaybeScanInlineComment(syntax)
		comments = c.p.ParseComments()
	}
	edition, err := c.p.ParseEdition()
	if err != nil {
		c.bad("ParseEdition: %v", err)
		return out
	}
	if edition != nil {
		c.after("the edition", edition.Meta.LastPos.Offset)
		edition.Comments = comments
		c.p.MaybeScanInlineComment(edition)
		comments = c.p.ParseComments()
	}
	out.Syntax, out.Edition = syntax, edition
	out.ProtoBody = c.declarations(comments)
	out.Meta.Filename = c.lex.Pos.Filename
	return out
}

func (c *client) probeHeader() {
	c.lex.NextKeyword()
	t := c.lex.Token
	c.lex.UnNext()
	if t == scanner.TSYNTAX || t == scanner.TEOF {
		c.at++
		return
	}
	if t == scanner.TEDITION {
		c.probe("the edition", true)
		return
	}
	c.probe("the first declaration", true)
}

// declarations reads the declarations of the file; comments are those in front of the first.
func (c *client) declarations(comments []*parser.Comment) []parser.Visitee {
	var out []parser.Visitee
	for ; c.trouble == ""; comments = c.p.ParseComments() {
		if c.p.IsEOF() {
			if c.body {
				for _, x := range comments {
					out = append(out, x)
				}
			}
			return out
		}
		c.probe("a declaration", true)
		c.lex.NextKeyword()
		t := c.lex.Token
		c.lex.UnNext()
		stmt := c.statement(t, comments, true)
		if stmt == nil {
			return out
		}
		c.p.MaybeScanInlineComment(stmt)
		out = append(out, stmt)
	}
	return out
}

// statement reads one declaration of the file or of a message.
func (c *client) statement(t scanner.Token, comments []*parser.Comment, top bool) inliner {
	fail := func(err error) inliner {
		c.bad("token %d: %v", t, err)
		return nil
	}
	switch t {
	case scanner.TIMPORT, scanner.TPACKAGE, scanner.TSERVICE:
		if !top {
			break
		}
		switch t {
		case scanner.TIMPORT:
			x, err := c.p.ParseImport()
			if err != nil {
				return fail(err)
			}
			c.after("an import", x.Meta.LastPos.Offset)
			x.Comments = comments
			return x
		case scanner.TPACKAGE:
			x, err := c.p.ParsePackage()
			if err != nil {
				return fail(err)
			}
			c.after("a package", x.Meta.LastPos.Offset)
			x.Comments = comments
			return x
		}
		x, err := c.p.ParseService()
		if err != nil {
			return fail(err)
		}
		c.after("a service", x.Meta.LastPos.Offset)
		x.Comments = comments
		return x
	case scanner.TOPTION:
		x, err := c.p.ParseOption()
		if err != nil {
			return fail(err)
		}
		c.after("an option", x.Meta.LastPos.Offset)
		x.Comments = comments
		return x
	case scanner.TMESSAGE:
		var x *parser.Message
		var err error
		if c.deep > 0 {
			x, err = c.message()
		} else {
			x, err = c.p.ParseMessage()
		}
		if err != nil {
			return fail(err)
		}
		c.after("a message", x.Meta.LastPos.Offset)
		x.Comments = comments
		return x
	case scanner.TENUM:
		x, err := c.p.ParseEnum()
		if err != nil {
			return fail(err)
		}
		c.after("an enum", x.Meta.LastPos.Offset)
		x.Comments = comments
		return x
	case scanner.TEXTEND:
		x, err := c.p.ParseExtend()
		if err != nil {
			return fail(err)
		}
		c.after("an extend", x.Meta.LastPos.Offset)
		x.Comments = comments
		return x
	}
	if !top {
		switch t {
		case scanner.TONEOF:
			x, err := c.p.ParseOneof()
			if err != nil {
				return fail(err)
			}
			c.after("a oneof", x.Meta.LastPos.Offset)
			x.Comments = comments
			return x
		case scanner.TMAP:
			x, err := c.p.ParseMapField()
			if err != nil {
				return fail(err)
			}
			c.after("a map field", x.Meta.LastPos.Offset)
			x.Comments = comments
			return x
		case scanner.TRESERVED:
			x, err := c.p.ParseReserved()
			if err != nil {
				return fail(err)
			}
			c.after("reserved", x.Meta.LastPos.Offset)
			x.Comments = comments
			return x
		case scanner.TEXTENSIONS:
			x, err := c.p.ParseExtensions()
			if err != nil {
				return fail(err)
			}
			c.after("extensions", x.Meta.LastPos.Offset)
			x.Comments = comments
			return x
		}
	}
	if t == scanner.TSEMICOLON {
		c.lex.Next()
		last := c.lex.Pos.Offset
		c.lex.UnNext()
		if err := c.lex.ReadEmptyStatement(); err != nil {
			return fail(err)
		}
		c.after("an empty statement", last)
		return &parser.EmptyStatement{}
	}
	if top {
		return fail(fmt.Errorf("no declaration begins with this"))
	}
	if c.isGroup() {
		x, err := c.p.ParseGroupField()
		if err != nil {
			return fail(err)
		}
		c.after("a group", x.Meta.LastPos.Offset)
		x.Comments = comments
		return x
	}
	x, err := c.p.ParseField()
	if err != nil {
		return fail(err)
	}
	c.after("a field", x.Meta.LastPos.Offset)
	x.Comments = comments
	return x
}

// isGroup looks ahead for label group Name = number {.
func (c *client) isGroup() bool {
	var raws [][]rune
	next := func(f func()) scanner.Token {
		f()
		raws = append(raws, c.lex.RawText)
		return c.lex.Token
	}
	defer func() {
		for i := len(raws) - 1; i >= 0; i-- {
			c.lex.UnNextTo(raws[i])
		}
	}()
	t := next(c.lex.NextKeyword)
	if t == scanner.TREPEATED || t == scanner.TREQUIRED || t == scanner.TOPTIONAL {
		t = next(c.lex.NextKeyword)
	}
	if t != scanner.TGROUP {
		return false
	}
	if next(c.lex.Next) != scanner.TIDENT || c.lex.Text == "" || c.lex.Text[0] < 'A' || c.lex.Text[0] > 'Z' {
		return false
	}
	return next(c.lex.Next) == scanner.TEQUALS && next(c.lex.NextNumberLit) == scanner.TINTLIT && next(c.lex.Next) == scanner.TLEFTCURLY
}

// message reads a message statement by statement.
func (c *client) message() (*parser.Message, error) {
	// an empty message is left to ParseMessage
	c.lex.NextKeyword()
	start := c.lex.Pos
	r1 := c.lex.RawText
	c.lex.Next()
	name := c.lex.Text
	ident := c.lex.Token == scanner.TIDENT
	r2 := c.lex.RawText
	c.lex.Next()
	curly := c.lex.Token == scanner.TLEFTCURLY
	r3 := c.lex.RawText
	empty := c.lex.Peek() == scanner.TRIGHTCURLY
	if !ident || !curly || empty {
		c.lex.UnNextTo(r3)
		c.lex.UnNextTo(r2)
		c.lex.UnNextTo(r1)
		return c.p.ParseMessage()
	}
	m := &parser.Message{MessageName: name}
	m.Meta.Pos = start.Position
	var in inlineCatcher
	// the position of { decides what is on its line
	c.lex.UnNextTo(r3)
	c.lex.Next()
	c.p.MaybeScanInlineComment(&in)
	m.InlineCommentBehindLeftCurly = in.c
	c.deep--
	defer func() { c.deep++ }()
	for {
		comments := c.p.ParseComments()
		c.lex.NextKeyword()
		t := c.lex.Token
		if t == scanner.TRIGHTCURLY {
			last := c.lex.Pos
			if c.perm {
				c.lex.ConsumeToken(scanner.TSEMICOLON)
				if c.lex.Token == scanner.TSEMICOLON {
					last = c.lex.Pos
				}
			}
			m.Meta.LastPos = last.Position
			if c.body {
				for _, x := range comments {
					m.MessageBody = append(m.MessageBody, x)
				}
			}
			return m, nil
		}
		c.lex.UnNext()
		c.probe("a statement", true)
		stmt := c.statement(t, comments, false)
		if stmt == nil {
			return nil, fmt.Errorf("%s", c.trouble)
		}
		c.p.MaybeScanInlineComment(stmt)
		m.MessageBody = append(m.MessageBody, stmt)
	}
}

func runC15(c *Case) *Violation {
	for i := range c.Calls {
		k := &c.Calls[i]
		data := c.content(k)
		full := parseSolo(data, k.Opts, plain, nil, 0)
		if !full.ok() {
			continue
		}
		var clk int64
		rd := newReader(data, k.Delivery, nil, nil, &clk)
		lex := lexer.NewLexer(readerOf(rd, k), lexer.WithFilename(k.Opts.Filename))
		lex.Error = func(*lexer.Lexer, error) {}
		p := parser.NewParser(lex, parser.WithPermissive(!k.Opts.Strict), parser.WithBodyIncludingComments(k.Opts.BodyComments))
		cl := &client{p: p, lex: lex, probes: map[int][]Op{}, data: data, valid: utf8.Valid(data), body: k.Opts.BodyComments, perm: !k.Opts.Strict, deep: k.Sub}
		for _, op := range c.Ops {
			if op.Do == "other method" {
				if s := otherMethod(k, data, full.tree, op); s != "" {
					return violf("other", "call %d: %s", i, s)
				}
				continue
			}
			cl.probes[op.At] = append(cl.probes[op.At], op)
			st.fault("probe: " + op.Do)
		}
		var got *parser.Proto
		t := solo(8*stepLimit(data), func() { got = cl.drive() })
		o := &outcome{rd: rd, steps: t.h.Steps}
		o.account(data)
		if f := t.failure(); f != "" {
			return violf("fail", "call %d: driving the parser ends with %s\n%s", i, f, trimStack(t.stack))
		}
		nontrivial = true
		if cl.trouble != "" {
			return violf("drive", "call %d: %s", i, strings.TrimSpace(cl.trouble))
		}
		if a, b := dump(full.tree), dump(got); a != b {
			return violf("differs", "call %d: declaration by declaration gives something else: %s", i, firstDiff(a, b))
		}
	}
	return nil
}
