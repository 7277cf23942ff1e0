package main

// canaries are small files that a narrow rule rejects, or accepts only with one choice of the options. A
// process in which something has been changed by the calls before is most likely to show it at such a rule. What the
// right outcome is does not matter here: it is compared with the outcome in a process that made no call before.
var canaries = []string{
	`message A { optional group result = 1 { } }`,
	`message A { oneof o { group result = 1 { } } }`,
	`message A { oneof o { optional int32 a = 1; } }`,
	`message A { oneof o { map<int32, B> a = 1; } }`,
	`message A { map<float, B> a = 1; }`,
	`message A { map<Key, B> a = 1; }`,
	`message A { repeated map<int32, B> a = 1; }`,
	`message A { int32 a = 1.5; }`,
	`message A { int32 a = -1; }`,
	`message A { int32 a = 0x1F; int32 b = 017; int32 c = 08; }`,
	`message A { int32 a; }`,
	`message A { int32 a = 1 }`,
	`message A { int32 a = 1 []; }`,
	`message A { int32 a = 1 [deprecated]; }`,
	`message A { int32 a = 1 [deprecated=true,]; }`,
	`message A { int32 a = 1 [default={x:1}]; }`,
	`message A { int32 a = 1 [(o)={x:1 y:[1,2],}]; }`,
	`message A { int32 a = 1 [(o).b.(c.d)=-inf]; }`,
	`message A { .int32 a = 1; }`,
	`message A { a. b = 1; }`,
	`message A { a.1 b = 1; }`,
	`message A { message = 1; }`,
	`message A { message message = 1; }`,
	`message A { optional optional = 1; optional optional optional = 2; }`,
	`message A { required int32 a = 1; repeated int32 b = 2; }`,
	`message A { reserved 1 to; }`,
	`message A { reserved max; }`,
	`message A { reserved 1 to max, 3; }`,
	`message A { reserved -1 to 3; }`,
	`message A { reserved "a", b; }`,
	`message A { reserved a, "b"; }`,
	`message A { reserved 'a"; }`,
	`message A { reserved "1"; }`,
	`message A { reserved "a" "b"; }`,
	`message A { reserved; }`,
	`message A { extensions 1, 3 to 5; extensions max; }`,
	`message A { extensions 1 to 3 [verification = UNVERIFIED]; }`,
	`message A { extensions 1 to 3 [declaration = { number: 1, number: 2 }]; }`,
	`message A { extensions 1 to 3 [declaration = { number: 1 full_name: ".a" type: "b" }]; }`,
	`message A { extensions 1 to 3 [declaration = { number: 1, full_name: ".a", type: "b" }, declaration = { reserved: maybe }]; }`,
	`message A { } ;; message B { ; }`,
	`message A { };`,
	`message A {`,
	`message A }`,
	`message 1A { }`,
	`message A.B { }`,
	`enum E { }`,
	`enum E { A; }`,
	`enum E { A = 0x; }`,
	`enum E { A = -0; B = +1; }`,
	`enum E { A = 1.0; }`,
	`enum E { A = 0 [(o)=1, deprecated=true]; reserved -5 to 5; }`,
	`enum E { option allow_alias = true; A = 0; B = 0; };`,
	`extend A { int32 a = 1; group B = 2 { } };`,
	`extend .a.B { oneof o { } }`,
	`extend A B { }`,
	`service S { rpc A (B) returns (C) }`,
	`service S { rpc A (stream B) returns (stream C) { }; }`,
	`service S { rpc A (stream) returns (stream.C); }`,
	`service S { rpc A () returns (C); }`,
	`service S { rpc A (B) return (C); }`,
	`service S { rpc A (B) returns (C) { option (o) = { get: "/" additional { a: 'b' }; } } }`,
	`service S { stream A (B, C); }`,
	`service S { option o = 1; ; rpc rpc (rpc) returns (returns); };`,
	`option o = ;`,
	`option (o = 1;`,
	`option (o) = 1`,
	`option o.(p).q = "a" "b";`,
	`option o = "a" 'b';`,
	`option o = { };`,
	`option o = { a: 1; b: 2, c { } };`,
	`option o = { a [1] };`,
	`option o = { a: [] };`,
	`option o = { a: [{b: 1}, {c: 2},] };`,
	`option o = { [a.b/c]: 1 };`,
	`option o = < a: 1 >;`,
	`option o = [1];`,
	`option o = +1; option p = - 1;`,
	`option o = 1e; option p = 1e+; option q = .5; option r = 5.;`,
	`option o = 0xG; option p = 09;`,
	`option o = inf; option p = -nan; option q = -a;`,
	`option o = 'a\'b'; option p = "\xZZ\q";`,
	`option o = "a`,
	"option o = \"a\nb\";",
	"option o = \"a\x00b\";",
	`import "a"; import 'b'; import public "c"; import weak "d"; import option "e";`,
	`import a;`,
	`import "a`,
	`import public weak "a";`,
	`package a.b; package c;`,
	`package a.;`,
	`package .a;`,
	`package a`,
	`syntax = proto3;`,
	`syntax = "proto3'; message A { }`,
	`syntax = "proto4";`,
	`syntax = "proto3"; syntax = "proto2";`,
	`syntax = "proto2"; edition = "2023";`,
	`message A { } syntax = "proto3";`,
	`edition = "2023"; message A { }`,
	`edition = 2023;`,
	`edition = "x";`,
	`edition = '2023";`,
	`/* a`,
	`/* a /* b */ */`,
	`/ a`,
	`# a`,
	`// a`,
	`;`,
	``,
	"\ufeffmessage A { }",
	"message A { // a\n} // b\n// c",
	"message A { /* a */ int32 a = 1; /* b */ } /* c */ // d",
	"message /* a */ A { int32 /* b */ a = /* c */ 1; }",
	"option o = { // a\n a: 1 /* b */\n // c\n};",
	"message é { }",
	"message A { int32 \xff = 1; }",
	`foo`,
	`A { }`,
	`"a"`,
	`1`,
	`group A = 1 { }`,
	`rpc A (B) returns (C);`,
	`declaration = { }`,
}

// canaryCall returns a file of the list, sometimes behind a syntax or an edition.
func canaryCall(r *rng) (Blob, Call) {
	t := canaries[r.n(len(canaries))]
	switch r.n(8) {
	case 0:
		t = "syntax = \"proto2\";\n" + t
	case 1:
		t = "syntax = \"proto3\";\n" + t
	case 2:
		t = "edition = \"2023\";\n" + t
	}
	return Blob(t), Call{Kind: "parse", Fresh: true, Opts: Opts{Strict: r.p(40), BodyComments: r.p(30)}}
}
