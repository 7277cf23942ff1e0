#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SC = "lexer/scanner/scanner.go"
prop("C01", "The outcome depends on the bytes, not on how the reader hands them over",
 "For a given content and given options, Parse returns the same tree (every field, position and comment) or the same error however the reader delivers the content. This holds for any fragmentation (also inside a multi-byte character), for empty reads, for the last bytes arriving with or without io.EOF, for slow reads, and for a reader that uses all of the supplied buffer as scratch space.",
 ["schedules", "inputs", "configurations"], "every content (accepted or rejected), every option set, every legal io.Reader delivery of that content",
 "Tests only feed strings.Reader/os.File, i.e. one whole-buffer delivery per input; no test varies the delivery.",
 ["protoparser.go", SC, "lexer/lexer.go"], [("rune-wise buffered reading and push-back", SC + " read/unread/peek/UnScan")], ["Parse return values"],
 [("lastReadBuffer/lastScanRaw", "pushed-back runes and the runes of the current token", SC)])
prop("C02", "A failed read is never reported as a successful parse",
 "If the reader returns an error other than io.EOF before the content has ended, Parse returns a nil tree and a non-nil error, whatever had been parsed before and whether or not the reader would recover later. If what was delivered until then is the beginning of an acceptable file, the returned error matches the reader's error under errors.Is.",
 ["fault_sequences", "crash_points", "inputs"], "every content, every byte offset at which a read fails, every error value, error delivered with or without data, transient or persistent failure",
 "No test uses a failing reader.",
 ["protoparser.go", SC, "lexer/lexer.go", "parser/proto.go"], [("read error is recorded by the scanner and returned by ParseProto", SC + " read; parser/proto.go ParseProto")], ["Parse return values"])
prop("C03", "End of input is final",
 "Once the reader has reported io.EOF or another error, Parse makes no further Read call on it, and its outcome is the one for exactly the bytes delivered up to that report. Data that the reader would deliver afterwards (a file still being appended to, a terminal, a reader that recovers) never shows in the outcome.",
 ["fault_sequences", "histories", "inputs"], "every content, every offset of the first EOF/error report, every behaviour of the reader afterwards (more data, another error, panic, blocking forever)",
 "Tests use readers whose EOF is permanent, so a second read is invisible.",
 ["protoparser.go", SC], [("sticky end-of-input state", SC + " read")], ["Parse return values", "calls seen by the reader"])
prop("C04", "A file cut off at any byte gives an error or an unaltered prefix",
 "If a file that parses is cut off at any byte, parsing the rest either fails or returns exactly the leading declarations of the full file, each unchanged in content, positions and comments, except that what trails the last one (its inline comment, the optional semicolon after a closing brace) may be cut. A cut inside a declaration is always an error, so nothing is invented, altered, reordered or half-reported.",
 ["crash_points", "inputs", "configurations"], "every accepted file, every byte offset of the cut, every option set, every delivery",
 "Tests parse whole files and a few hand-written incomplete snippets; the cut point is universally quantified.",
 ["parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", SC], [("statement parsers require their terminators; EOF only ends the file between declarations", "parser/proto.go parseProtoBody")], ["Parse return values"])
prop("C05", "Success accounts for every token, on intact and on damaged files",
 "When Parse succeeds, on intact content or on content with flipped, lost, repeated, swapped or zero-filled ranges, every token of the content outside comments is represented by the returned tree exactly once and in source order, and the tree holds nothing that is not in the content. Only separators, a leading byte order mark, empty statements inside oneof and rpc bodies, and one semicolon after a closing brace may go unrecorded (adjacent string literals may be joined into one literal of the same characters); content that the tree cannot represent makes Parse fail.",
 ["fault_sequences", "inputs", "configurations"], "every content obtained from any file by any sequence of storage faults (bit flips, lost/duplicated/transposed/zero-filled blocks, stale overwrites), every option set, every delivery",
 "Tests compare a few hundred fixed snippets; silent loss shows only on damaged or unusual content.",
 ["parser/message.go", "parser/enum.go", "parser/extend.go", "parser/import.go", "parser/reserved.go", "parser/option.go", "parser/declaration.go", "lexer/constant.go", SC], [("every unexpected token is an error; parsed text is copied from the token stream", "parser/*.go, lexer/*.go")], ["Parse return values"])
prop("C06", "Every stream and fault sequence ends in a tree or an error",
 "For any content, option set and legal reader behaviour, Parse returns after a bounded number of steps and reads with either a tree and no error or an error and no tree: it never panics or loops, and its stack depth is limited by the nesting of the content, not by its length. Traversing and interpreting any tree that Parse returned also ends without a panic.",
 ["inputs", "fault_sequences", "configurations"], "arbitrary byte streams (random, damaged, cut, token soup, long runs of one character, deep nesting), arbitrary read faults",
 "Tests sample well-formed snippets and a few malformed ones; no test damages, cuts or floods a stream.",
 ["protoparser.go", "lexer/lexer.go", SC, "parser/proto.go", "parser/message.go", "parser/option.go", "parser/oneof.go", "parser/service.go"], [("every parse loop consumes a token or fails", "parser/*.go")], ["Parse/Accept/UnorderedInterpret return or panic"])
prop("C07", "Concurrent Parse calls are isolated from each other",
 "Parse calls that run concurrently, each with its own reader and options, return exactly what each would return alone, under every interleaving. They share no memory that any of them writes without synchronisation, and a call whose reader stalls never delays another call.",
 ["schedules", "inputs", "configurations"], "every set of concurrent calls, every interleaving of their steps, every stall of a subset of their readers",
 "Tests never run two parses at once with controlled interleaving; the race detector in CI sees single-threaded runs.",
 ["protoparser.go", "lexer/lexer.go", SC, "lexer/scanner/token.go", "parser/field.go", "parser/mapField.go"], [("all parse state hangs off a per-call Parser/Lexer/Scanner; package variables are read-only", "protoparser.go Parse; parser/field.go typeConstants; parser/mapField.go keyTypeConstants")], ["Parse return values", "race reports"])
prop("C08", "A parsed tree is read-only to the library and safe to share",
 "Any number of concurrent traversals and unordered interpretations of the same tree each give what they would give alone, under every interleaving and without unsynchronised writes to the tree. They leave the tree unchanged, also when a visitor prunes, panics, re-enters the library or never returns.",
 ["schedules", "histories", "inputs"], "every tree, every set of concurrent readers, every interleaving, every point at which a visitor prunes, panics, re-enters or stalls",
 "Tests traverse and interpret each tree once, alone.",
 ["parser/proto.go", "parser/visitor.go", "parser/message.go", "interpret/unordered/proto.go", "interpret/unordered/message.go", "interpret/unordered/enum.go", "interpret/unordered/service.go", "interpret/unordered/extend.go"], [("Accept and Interpret* only read", "parser/*.go Accept; interpret/unordered/*.go")], ["visit sequences", "interpretation results", "deep state of the tree before and after"])
prop("C09", "A visitor's answers prune exactly what is inside the refused elements",
 "For every sequence of answers a visitor gives, refusing an element suppresses the visits to exactly what lies inside it (nested elements and its comments), and every other element is visited exactly once and in the order of the full traversal. The full traversal visits the syntax, the edition, every declaration of file, message, group, enum, service and extend bodies, every oneof field and oneof option, every extension declaration, and their leading and inline comments exactly once; a visitor that panics ends the traversal at that point with its panic reaching the caller.",
 ["histories", "inputs"], "every tree, every sequence of yes/no/panic answers given by the visitor while the traversal runs",
 "The existing traversal tests use one visitor that always answers yes on hand-built trees.",
 ["parser/visitor.go", "parser/proto.go", "parser/message.go", "parser/groupField.go", "parser/oneof.go", "parser/extensions.go", "parser/service.go"], [("Accept returns when Visit* answers false, otherwise dispatches children", "parser/*.go Accept")], ["sequence of Visit* calls"])
prop("C10", "No call leaves anything behind for later calls",
 "The outcome of Parse, UnorderedInterpret and Accept never depends on what the process did before. After any history of calls that succeeded, failed, hit a read error, were ended by a panic in the reader or visitor, or are still stuck in a stalled reader, under whatever options, a call returns what it would return as the first call of a fresh process.",
 ["histories", "fault_sequences", "configurations"], "every history of calls with any outcomes, faults and options, followed by any call",
 "Tests run calls that end normally and compare each only to a fixed expectation for its own input; no test ends a call abnormally before another.",
 ["protoparser.go", "lexer/lexer.go", SC, "parser/parser.go"], [("configuration and parse state are allocated per call", "protoparser.go Parse")], ["Parse return values"])
prop("C11", "Debug mode and the log destination never influence the outcome",
 "Switching debug mode on changes neither the tree nor, when Parse fails, the error's position, expectation and found text. The same holds whatever the log destination does with the log lines: accept, delay, write short or fail.",
 ["fault_sequences", "configurations", "inputs"], "every content, option set and delivery, every sequence of results of the log destination's writes",
 "No test enables debug mode or installs a misbehaving log destination.",
 ["lexer/lexer.go", "lexer/error.go", "protoparser.go"], [("debug code only logs and annotates errors", "lexer/lexer.go Next; lexer/error.go unexpected")], ["Parse return values"])
prop("C12", "The caller's reader is only read, one Read at a time, during the call",
 "Parse uses the caller's reader through Read alone: it never closes, seeks, rewinds or writes to it even if it could, never has two Reads in progress, never starts a Read after Parse has returned or panicked, and leaves no goroutine behind. A panic raised by the reader reaches the caller of Parse.",
 ["fault_sequences", "schedules", "inputs"], "every content, every reader type (also ones that could be closed, seeked, unread or written), every way the call ends (success, syntax error, read error, panic)",
 "Tests pass plain string readers and never look at which methods are used or when.",
 ["protoparser.go", SC], [("the reader is wrapped in a per-call bufio.Reader and used synchronously", SC + " NewScanner")], ["method calls seen by the reader", "number of goroutines"])
prop("C13", "Looking ahead in the token stream is invisible",
 "On the exported lexer, looking ahead and pushing back (peeking one or several tokens, taking tokens and un-taking them in reverse order, conditional consumption that does not match), at any point and in any recognition mode, at the end of input and around lexical errors, leaves all later tokens, texts, raw texts and positions as if it had not happened. This holds however the reader delivers the content.",
 ["histories", "schedules", "inputs"], "every content, every sequence of lexer operations with lookahead inserted at any points, every delivery",
 "The lexer tests issue a handful of fixed call sequences; lookahead interleavings are unbounded.",
 ["lexer/lexer.go", SC, "lexer/scanner/position.go"], [("UnScan pushes the raw runes of the token back and reverts the position", SC + " UnScan/unread; lexer/scanner/position.go Revert")], ["Lexer fields Token, Text, RawText, Pos after each operation"],
 [("lastReadBuffer", "pushed-back runes", SC)])
prop("C14", "Every caller owns its result",
 "Trees and interpretations returned for separate Parse calls share no mutable memory with each other or with the library, even for equal contents and options. Changing everything reachable from one result, at any time, never changes another result, a concurrent call or a later call.",
 ["histories", "schedules", "inputs"], "every history and interleaving of calls and of modifications of returned trees, including repeated identical inputs",
 "Tests never modify a returned tree and look at another one.",
 ["protoparser.go", "parser/parser.go", SC], [("all nodes are freshly allocated per call", "parser/*.go Parse*")], ["returned trees before and after modifications of other trees"])
prop("C15", "Reading declaration by declaration equals reading the whole file",
 "A client that drives the exported parser methods itself, one declaration at a time, gets exactly the declarations that parsing the whole file returns, and each call leaves the stream at the first token after its declaration; a method called where something other than a declaration of its kind begins fails. Probing calls that find nothing (no syntax, no edition, no comment, not at end of file) consume nothing, however often they are made and however the reader delivers the content.",
 ["histories", "schedules", "inputs"], "every accepted file, every sequence of per-declaration calls with probing calls inserted at any points, every delivery",
 "Unit tests call each method once on a stream that holds nothing else.",
 ["parser/parser.go", "parser/proto.go", "parser/syntax.go", "parser/edition.go", "parser/comment.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/option.go", "parser/import.go", "parser/package.go", "parser/extend.go"], [("methods push back the token they do not consume", "parser/*.go UnNext")], ["return values of the exported Parse* methods"])
prop("C16", "An error points at the damage",
 "When Parse rejects content that is valid UTF-8, its error names the given file (\"<input>\" if none was given) and positions that exist in the content: every line and column it names is there, the offset it gives is that of this line and column, and the text it says was found stands at that place. The furthest of these places is never white space, and where the content is a damaged copy of an acceptable file it is never in front of the first token that the damage touches.",
 ["fault_sequences", "inputs", "configurations"], "every rejected content, in particular every acceptable file after any sequence of storage faults (flipped, lost, repeated, exchanged, zero-filled ranges, cuts), every option set, every delivery",
 "The error tests compare a few fixed messages of hand-written broken snippets; none damages a file at arbitrary places.",
 ["lexer/error.go", "parser/meta/error.go", "parser/error.go", "lexer/scanner/position.go", "parser/emptyStatement.go", "parser/reserved.go", "parser/option.go", "parser/extensions.go"], [("errors are built from the position and text of the last token", "lexer/error.go unexpected; parser/error.go")], ["error returned by Parse: *meta.Error fields and message"])
prop("C17", "Losing, repeating or reordering declarations does just that to the tree",
 "If several whole declarations are each accepted alone in a body of some kind (file, message, nested message, group, enum, service, extend, oneof, rpc), then any sequence of them, with some left out, repeated or in another order, is accepted in such a body too. The tree then holds, in this order, for each of them exactly the elements it gives alone, with all positions shifted by what stands in front; no declaration influences another.",
 ["fault_sequences", "histories", "inputs", "configurations"], "every set of declarations, every kind of body, every sequence of losses, repetitions (up to thousands) and exchanges of whole declarations, every option set, every delivery",
 "Tests compare fixed files; that a declaration does not depend on those before it, or on their number, is a statement over all sequences.",
 ["parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", "parser/oneof.go", "parser/comment.go", "lexer/lexer.go", SC], [("each statement is parsed from the token stream alone, without state from earlier statements", "parser/*.go Parse*Body loops")], ["Parse return values"])
prop("C18", "Damage never reaches back",
 "If a damaged copy of an acceptable file is still accepted, everything that stands wholly in front of the first damaged token comes out as from the undamaged file: every such element of the file, and of the bodies the damage lies in, is there with the same content, positions and comments and in the same place.",
 ["fault_sequences", "inputs", "configurations"], "every acceptable file, every sequence of storage faults after which it is still accepted, every option set, every delivery",
 "Tests never damage a file; what later content may influence is a relation between two inputs, which single expectations cannot express.",
 ["parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", "parser/comment.go", "parser/inlineComment.go", "lexer/lexer.go", SC], [("elements are complete when their parser returns; nothing later writes to them except the inline comment on their line", "parser/*.go")], ["Parse return values"])
prop("C19", "What the grammar does not look at stays without consequence",
 "If the characters of comments, of names or of string literals, or the white space between tokens, are changed in an acceptable file without creating or removing a token, a keyword or a built-in name, the file is still accepted, and its tree is the one of the original file with just these texts exchanged and the positions moved. (Exceptions: the syntax and edition strings; strings with a backslash; the case of a name's first letter, which the grammar demands of groups; line breaks next to or in a comment, which decide whether it is an inline comment.)",
 ["fault_sequences", "inputs", "configurations"], "every acceptable file, every sequence of such changes, of any length and with any characters, every option set, every delivery",
 "A test has one name, one comment and one layout per case; that no other text in their place matters is a relation between all pairs of files.",
 ["lexer/scanner/scanner.go", "lexer/scanner/comment.go", "lexer/scanner/strLit.go", "lexer/scanner/ident.go", "lexer/scanner/token.go", "lexer/", "parser/"], [("only the token kinds, keywords and built-in names decide what is parsed", "lexer/scanner/*.go; parser/*.go")], ["Parse return values"])
prop("C21", "Positions name the true byte offset, line and column",
 "In the tree of every accepted valid UTF-8 content, intact or damaged, delivered in any way, Meta.Pos of every element (file-level, nested, options of oneofs and rpcs, oneof fields, rpc requests and responses, extension declarations) is the file name given and the byte offset, line and column (counted in characters) of its first token, and Meta.LastPos that of its last token; for a comment they are those of its first and last character.",
 ["fault_sequences", "inputs", "schedules", "configurations"], "every accepted content (also the ones that storage faults leave acceptable), every option set, every delivery",
 "Tests compare the positions of a few ASCII snippets; positions are kept by advancing and reverting over all text in front, so any earlier content can spoil them.",
 ["lexer/scanner/position.go", "lexer/scanner/scanner.go", "parser/meta/position.go", "parser/meta/meta.go", "parser/comment.go", "lexer/lexer.go"], [("position advanced and reverted per rune", "lexer/scanner/position.go")], ["Meta fields"])
prop("C22", "Every comment is attached to the element it belongs to, once",
 "In the tree of every accepted valid UTF-8 content, intact or damaged, delivered in any way: the first comment behind an element, or behind the opening brace of a block (of a message, group, enum, service, extend, oneof, rpc or extension declaration) or the bracket of the extension declarations, is its inline comment there if it begins on the line on which that element's last token or that brace stands; every other comment in front of an element is among its leading comments, in source order; every other comment in front of the closing brace of a message, group, enum, service or extend, or at the end of the file, is at the end of that body if comments in bodies are requested; the comments inside the head of an rpc are its embedded comments. No comment is in two places, and none comes from anywhere else. (Without a place in the tree: comments inside other statements, in the body of an rpc, and in front of an empty statement or of the closing brace of a oneof; of two comments behind an extension declaration on its line one is kept.)",
 ["fault_sequences", "inputs", "schedules", "configurations"], "every accepted content (also the ones that storage faults leave acceptable), every place of a comment, every option set, every delivery",
 "Tests have a handful of comments at the usual places of well-formed files.",
 ["parser/comment.go", "parser/inlineComment.go", "parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", "parser/extensions.go", "parser/declaration.go", "lexer/lexer.go"], [("ParseComments / MaybeScanInlineComment around each statement", "parser/*.go"), ("comments in the head of an rpc are looked up by offset", "lexer/lexer.go FindMidComments")], ["Comments, InlineComment, InlineCommentBehindLeftCurly, EmbeddedComments, bodies"])
prop("C23", "Permissive mode only adds",
 "Every content, intact or damaged, that is accepted without permissive mode is accepted with it, however it is delivered, and yields the same tree; only a semicolon directly behind the closing brace of a block belongs to the block instead of being an empty statement of its own.",
 ["fault_sequences", "inputs", "schedules", "configurations"], "every content accepted in strict mode (also the ones that storage faults leave acceptable), every delivery",
 "Tests run a snippet in one of the two modes; that one mode includes the other is a relation between two runs over all inputs.",
 ["parser/option.go", "lexer/constant.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/oneof.go", "parser/extend.go"], [("permissive branches", "parser/*.go")], ["Parse return values"])
prop("C24", "The unordered interpretation regroups without loss",
 "For the tree of every accepted content, intact or damaged, without comments as body elements, UnorderedInterpret and the interpretation of each message, enum, service and extend succeed. The result has the same name, syntax, edition, comments and positions, and each of its groups holds exactly the elements of its kind of that body, unchanged and in source order, nested blocks likewise; no element is missing.",
 ["fault_sequences", "inputs", "configurations"], "every tree Parse returns (also for files that storage faults leave acceptable) without body comments, every block of it",
 "Tests interpret a few trees put together by hand, each with one or two elements of a kind.",
 ["interpret/unordered/proto.go", "interpret/unordered/message.go", "interpret/unordered/enum.go", "interpret/unordered/service.go", "interpret/unordered/extend.go", "protoparser.go"], [("type switch per body", "interpret/unordered/*.go")], ["UnorderedInterpret and Interpret* return values"])
prop("C26", "The other options only add",
 "For every content, intact or damaged, delivered in any way, requesting comments in bodies and giving a file name change neither whether the content is accepted nor, apart from the file name in it, the error. The tree is the same except for the requested comments, which are the last elements of their bodies (of files, messages, groups, enums, services and extends), and the file name in the positions. Without the request no body holds a comment.",
 ["fault_sequences", "inputs", "schedules", "configurations"], "every content (also damaged and rejected ones), every file name, every delivery",
 "Tests set an option for a snippet and look at the option's effect; that it has no other effect is a relation between two runs over all inputs.",
 ["protoparser.go", "parser/parser.go", "parser/proto.go", "parser/message.go", "parser/enum.go", "parser/service.go", "parser/extend.go", "lexer/lexer.go", SC], [("bodyIncludingComments is looked at at the closing brace only", "parser/*.go"), ("the file name is only copied into positions", "lexer/scanner/scanner.go WithFilename; parser/meta/position.go")], ["Parse return values"])
prop("C27", "An error is settled where it points",
 "When Parse rejects a content, nothing behind the furthest place that the error names decides about it: if a whole token stands there (not the end of input, not an unfinished string or comment), every content that is the same up to the end of that token and goes on behind a white space with anything else, or with nothing, is rejected with exactly the same error, however it is delivered.",
 ["fault_sequences", "inputs", "schedules", "configurations"], "every rejected content, every continuation (cut off, other declarations, unbalanced brackets, unfinished strings, invalid characters, other damage), every option set, every delivery",
 "Tests look at one error of one content; that the rest of the stream has no say is a relation between all contents with a common beginning.",
 ["parser/", "lexer/lexer.go", SC], [("parsers return at the first unexpected token, without recovery or scanning ahead", "parser/*.go"), ("alternatives are decided by the tokens in front of the place", "parser/message.go; parser/option.go; lexer/constant.go")], ["Parse return values"])
prop("C28", "Work grows in proportion to the content",
 "The number of steps that Parse executes of its own for a content, accepted or rejected, is at most proportional to the size of the content, whatever it consists of: many declarations, comments, lines, list items, deep nesting, long tokens. Repeating a part of it twice as often at most doubles the steps for that part. The same holds for traversing and interpreting the tree, and for the memory that Parse allocates in total, apart from the text of single long tokens, dotted names and aggregate option values.",
 ["fault_sequences", "inputs", "configurations"], "every content, every part of it, every number of repetitions, every option set",
 "Tests parse small files and do not measure; growth is a statement about families of contents of any size.",
 ["lexer/lexer.go", SC, "parser/", "interpret/unordered/", "parser/service.go"], [("each token is scanned a bounded number of times", "lexer/lexer.go; parser/*.go"), ("comments in the head of an rpc are looked up by binary search", "lexer/scanner/scanner.go FindScannedComments")], ["running time and memory of Parse, Accept, UnorderedInterpret"])
prop("C29", "The tokens cover the content",
 "On the exported lexer, and on the scanner behind it with any combination of modes, for any content, any sequence of recognition modes, any lookahead and any delivery: the raw texts of the tokens taken, one behind the other, are exactly the characters delivered, none left out and none twice. The text of a recognised token is the end of its raw text (up to the line break that ends a line comment), only white space and comments stand in front of it there, and in valid UTF-8 its position is the offset, line and column of its text. The end is reported once everything that was delivered has been taken, not earlier, and from then on always. An error is reported exactly once for each token that is none.",
 ["fault_sequences", "inputs", "schedules", "histories"], "every content, every sequence of modes and lookahead operations, every delivery, every end of the stream",
 "Tests scan fixed snippets in one mode with a string reader.",
 [SC, "lexer/lexer.go", "lexer/scanner/comment.go", "lexer/scanner/strLit.go", "lexer/scanner/numberLit.go", "lexer/scanner/ident.go", "lexer/scanner/position.go"], [("every rune read is appended to the raw text, and un-reading takes it from there", "lexer/scanner/scanner.go")], ["Lexer.Text, RawText, Token, Pos"])
# --- not applicable to this technique -------------------------------------------------
NA = "Fixed example snippets cover a sample of the grammar only."
prop("C20", "Accepts exactly the documented grammar", "Without permissive mode Parse accepts exactly the files of the documented proto2, proto3 and editions grammar; permissive mode additionally accepts the documented relaxations.",
 ["inputs", "configurations"], "every byte string", NA, ["parser/", "lexer/"], [("recursive descent per grammar rule", "parser/*.go")], ["Parse return values"])
prop("C25", "What results say about themselves agrees with the content",
 "For the result of every valid UTF-8 content, intact or damaged, delivered in any way: the lines of a comment contain no line break, and joined by line breaks between the comment's markers they are the comment as it stands in the content; the comment's style is that of its markers; the version number is that of the syntax text (2 or 3); the text of a position is the file name (\"<input>\" if none was given), line and column; and the message of an error names the text found and what was expected. The answers are the same however often, in whatever order and by however many tasks concurrently they are asked, belong to whoever asked, and asking changes nothing in the result.",
 ["schedules", "inputs", "fault_sequences"], "every content, also what storage faults leave of it, every comment, syntax, position and error in the result, every interleaving of tasks that ask",
 "The helper tests use a handful of fixed comments and one syntax; none asks twice, concurrently, or changes what was returned.",
 ["parser/comment.go", "parser/syntax.go", "parser/meta/position.go", "parser/meta/error.go"], [("helpers are computed from the fields alone, without caching", "parser/comment.go Lines; parser/syntax.go Version")], ["helper return values", "race reports"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
