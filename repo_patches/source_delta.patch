From a81798118a34a09691756111d77ecc111f45ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 01/22] fix: do not read from the input again after it reported
 its end

bufio.Reader forgets an error once it has returned it, so every further peek at the
end of input called Read again. Data that the input delivered after io.EOF or after
an error could show up in the middle of a declaration.
---
 lexer/scanner/scanner.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..b8ed228 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -20,6 +20,9 @@ type Scanner struct {
 	lastReadBuffer []rune
 	lastScanRaw    []rune
 
+	// readErr is the error that ended the reading, which can be io.EOF. Nothing is read after it.
+	readErr error
+
 	// pos is a current source position.
 	pos *Position
 
@@ -68,8 +71,12 @@ func (s *Scanner) read() (r rune) {
 		ch, s.lastReadBuffer = s.lastReadBuffer[len(s.lastReadBuffer)-1], s.lastReadBuffer[:len(s.lastReadBuffer)-1]
 		return ch
 	}
+	if s.readErr != nil {
+		return eof
+	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		s.readErr = err
 		return eof
 	}
 	return ch
-- 
2.43.0


From f5c37037131026f86e4f1dc4677ba0a1ada63acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 02/22] fix: report the input's read error instead of treating
 it as the end of the file

---
 lexer/lexer.go           | 5 +++++
 lexer/scanner/scanner.go | 8 ++++++++
 parser/proto.go          | 9 +++++++++
 3 files changed, 22 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 91d6add..43e6342 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -149,6 +149,11 @@ func (lex *Lexer) LatestErr() error {
 	return lex.scanErr
 }
 
+// ReadErr returns the non-EOF error that the input reported and that ended the reading, if any.
+func (lex *Lexer) ReadErr() error {
+	return lex.scanner.ReadErr()
+}
+
 // Peek returns the next token with keeping the read buffer unchanged.
 func (lex *Lexer) Peek() scanner.Token {
 	lex.Next()
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index b8ed228..1eafb48 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -147,6 +147,14 @@ func (s *Scanner) GetScannedComments() []Text {
 	return uniqueComments
 }
 
+// ReadErr returns the error other than io.EOF that ended the reading, if any.
+func (s *Scanner) ReadErr() error {
+	if s.readErr == io.EOF {
+		return nil
+	}
+	return s.readErr
+}
+
 func (s *Scanner) scan() (Token, string, Position, error) {
 	ch := s.peek()
 
diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..994e1c5 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -38,6 +38,15 @@ func (p *Proto) Accept(v Visitor) {
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
 // See https://protobuf.dev/reference/protobuf/edition-2023-spec/#proto_file
 func (p *Parser) ParseProto() (*Proto, error) {
+	proto, err := p.parseProto()
+	if readErr := p.lex.ReadErr(); readErr != nil {
+		// The end of the tokens was not the end of the input, so neither the proto nor the err is about the whole input.
+		return nil, readErr
+	}
+	return proto, err
+}
+
+func (p *Parser) parseProto() (*Proto, error) {
 	p.parseBOM()
 
 	comments := p.ParseComments()
-- 
2.43.0


From 572effcc121e4e873687191b102a72ea3babcd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 03/22] fix: do not take a NUL character for the end of the
 file

---
 lexer/scanner/scanner.go | 3 ++-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 1eafb48..bb6b212 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,8 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+// eof is not a Unicode code point, so that no rune in the input is taken for the end of it.
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From 3aecc2c8b7c6a30e9a22a14ffa68694e913ce8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 04/22] fix: do not append a nil element to the proto body
 after an empty statement

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index 994e1c5..b355e96 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -174,7 +174,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From e2565d90a37298fddda30f6a68cdb5e0b2d81c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 05/22] fix: do not take the semicolon after a broken field for
 an empty statement that replaces it

---
 parser/enum.go    | 12 ++++--------
 parser/extend.go  | 12 ++++--------
 parser/message.go | 13 ++++---------
 3 files changed, 12 insertions(+), 25 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..f9d3012 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -197,6 +197,9 @@ func (p *Parser) parseEnumBody() (
 			}
 			reserved.Comments = comments
 			stmt = reserved
+		case scanner.TSEMICOLON:
+			p.lex.Next()
+			stmt = &EmptyStatement{}
 		default:
 			enumField, enumFieldErr := p.parseEnumField()
 			if enumFieldErr == nil {
@@ -204,17 +207,10 @@ func (p *Parser) parseEnumBody() (
 				stmt = enumField
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
 				parseEnumFieldErr:      enumFieldErr,
-				parseEmptyStatementErr: emptyErr,
+				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
 
diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..ec17dbb 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -158,6 +158,9 @@ func (p *Parser) parseExtendBody() (
 				}
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
+		case scanner.TSEMICOLON:
+			p.lex.Next()
+			stmt = &EmptyStatement{}
 		default:
 			field, fieldErr := p.ParseField()
 			if fieldErr == nil {
@@ -165,17 +168,10 @@ func (p *Parser) parseExtendBody() (
 				stmt = field
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
 				parseFieldErr:          fieldErr,
-				parseEmptyStatementErr: emptyErr,
+				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
 
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..a5ff3c5 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -216,6 +216,9 @@ func (p *Parser) parseMessageBody() (
 			}
 			extensions.Comments = comments
 			stmt = extensions
+		case scanner.TSEMICOLON:
+			p.lex.Next()
+			stmt = &EmptyStatement{}
 		default:
 			var ferr error
 			isGroup := p.peekIsGroup()
@@ -227,7 +230,6 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = groupErr
-				p.lex.UnNext()
 			} else {
 				field, fieldErr := p.ParseField()
 				if fieldErr == nil {
@@ -236,18 +238,11 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
 			}
 
 			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
 				parseFieldErr:          ferr,
-				parseEmptyStatementErr: emptyErr,
+				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
 
-- 
2.43.0


From f00a67851b1479f07ed3fcf29c56c534e7268f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 06/22] fix: reject an unknown token between import and its
 location

---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..ab0f0dd 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected("weak, public or strLit")
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From 7eb24ac4313be468d32c1725e197a2e1b8843cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 07/22] fix: do not drop the ranges in front of a field name in
 a reserved statement

---
 parser/reserved.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..76faf0a 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -70,10 +70,18 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
+		p.lex.NextNumberLit()
+		isRanges := p.lex.Token == scanner.TINTLIT
+		p.lex.UnNext()
+
 		ranges, err := p.parseRanges()
 		if err == nil {
 			return ranges, nil, nil
 		}
+		if isRanges {
+			// The ranges before the error are consumed already.
+			return nil, nil, err
+		}
 
 		fieldNames, ferr := p.parseFieldNames()
 		if ferr == nil {
-- 
2.43.0


From 018269b19968c3c6e16002b3d042856e8f839dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 08/22] fix: require the right square that closes a list of
 option constants

---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 08be408f167983e7235f825388fe45cc47b1b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 09/22] fix: keep every character of the string literals that
 are merged

---
 lexer/constant.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..9f887c8 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -55,7 +55,10 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
+		strippedString := lex.Text[1 : len(lex.Text)-1]
+		if !strings.HasPrefix(lex.Text, q) {
+			strippedString = escapeQuote(strippedString, q)
+		}
 		b.WriteString(strippedString)
 		lex.NextLit()
 	}
@@ -63,3 +66,17 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	b.WriteString(q)
 	return b.String()
 }
+
+// escapeQuote escapes every quote in s that is not escaped yet.
+func escapeQuote(s string, quote string) string {
+	var b strings.Builder
+	escaped := false
+	for _, r := range s {
+		if string(r) == quote && !escaped {
+			b.WriteRune('\\')
+		}
+		b.WriteRune(r)
+		escaped = r == '\\' && !escaped
+	}
+	return b.String()
+}
-- 
2.43.0


From 75bc306d83ff816b8da60aef5626e714532a6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:54 +0000
Subject: [PATCH 10/22] fix: reject an extension declaration that repeats a key
 or has no bool for a bool key

---
 parser/declaration.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..4ac21a9 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -80,6 +80,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 	var typeStr string
 	var repeated bool
 	var reserved bool
+	seen := make(map[scanner.Token]bool)
 
 	for {
 		p.lex.Next()
@@ -91,6 +92,11 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 		}
 
 		p.lex.NextKeyword()
+		if seen[p.lex.Token] {
+			return nil, p.unexpected("a key that is not given yet")
+		}
+		seen[p.lex.Token] = true
+
 		if p.lex.Token == scanner.TNUMBER {
 			p.lex.Next()
 			if p.lex.Token != scanner.TCOLON {
@@ -127,7 +133,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -137,7 +143,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From 6864ddc9615d70ac22274796bb95a5512626911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 11/22] fix: put the last scanned text back in linear time

---
 lexer/scanner/scanner.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index bb6b212..1aded15 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -100,12 +100,8 @@ func (s *Scanner) peek() rune {
 
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
-	var reversedRunes []rune
-	for _, ch := range s.lastScanRaw {
-		reversedRunes = append([]rune{ch}, reversedRunes...)
-	}
-	for _, ch := range reversedRunes {
-		s.unread(ch)
+	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
+		s.unread(s.lastScanRaw[i])
 	}
 	return *s.pos
 }
-- 
2.43.0


From 01cb4f6fa3b65ae8ae775c167897c651db6b937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 12/22] fix: do not recurse for every skipped white space and
 comment

---
 lexer/scanner/scanner.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 1aded15..81de82e 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -9,6 +9,9 @@ import (
 // eof is not a Unicode code point, so that no rune in the input is taken for the end of it.
 var eof = rune(-1)
 
+// skipped is the token of a text that Scan skips.
+const skipped Token = -1
+
 // Text is a literal with a position.
 type Text struct {
 	Literal string
@@ -109,7 +112,12 @@ func (s *Scanner) UnScan() Position {
 // Scan returns the next token and text value.
 func (s *Scanner) Scan() (Token, string, Position, error) {
 	s.lastScanRaw = s.lastScanRaw[:0]
-	return s.scan()
+	for {
+		token, text, pos, err := s.scan()
+		if token != skipped {
+			return token, text, pos, err
+		}
+	}
 }
 
 // LastScanRaw returns the deep-copied lastScanRaw.
@@ -160,7 +168,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 	switch {
 	case unicode.IsSpace(ch):
 		s.read()
-		return s.scan()
+		return skipped, "", startPos, nil
 	case s.isEOF():
 		return TEOF, "", startPos, nil
 	case isLetter(ch), ch == '_':
@@ -184,7 +192,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 		if s.Mode&ScanComment != 0 {
 			return TCOMMENT, lit, startPos, nil
 		}
-		return s.scan()
+		return skipped, "", startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
 		if err != nil {
-- 
2.43.0


From 69b4ab8311ea6f069b0722d7da3b4fe025e9b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 13/22] fix: do not attach the comments above the syntax to the
 edition too

---
 parser/proto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index b355e96..5883546 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -64,7 +64,9 @@ func (p *Parser) parseProto() (*Proto, error) {
 		return nil, err
 	}
 	if edition != nil {
-		edition.Comments = comments
+		if syntax == nil {
+			edition.Comments = comments
+		}
 		p.MaybeScanInlineComment(edition)
 	}
 
-- 
2.43.0


From 38e1ee4a039fce96eef30aa9f8a15cb4592d5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 14/22] fix: report the read error that cuts off a character,
 not the rest of that character

---
 lexer/scanner/scanner.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 81de82e..2a1f6d0 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"io"
 	"unicode"
+	"unicode/utf8"
 )
 
 // eof is not a Unicode code point, so that no rune in the input is taken for the end of it.
@@ -78,11 +79,37 @@ func (s *Scanner) read() (r rune) {
 	if s.readErr != nil {
 		return eof
 	}
-	ch, _, err := s.r.ReadRune()
+	ch, size, err := s.r.ReadRune()
 	if err != nil {
 		s.readErr = err
 		return eof
 	}
+	if ch == utf8.RuneError && size == 1 {
+		return s.readInvalid(ch)
+	}
+	return ch
+}
+
+// readInvalid handles an invalid character that the last ReadRune returned. It can be one that the end of the reading
+// has cut off.
+func (s *Scanner) readInvalid(ch rune) rune {
+	if err := s.r.UnreadRune(); err != nil {
+		return ch
+	}
+	rest, _ := s.r.Peek(s.r.Buffered())
+	if utf8.FullRune(rest) {
+		_, _, _ = s.r.ReadRune()
+		return ch
+	}
+
+	_, s.readErr = s.r.Peek(len(rest) + 1)
+	if s.readErr != io.EOF {
+		return eof
+	}
+	// At the end of the input, every byte of the rest is an invalid character on its own.
+	for range rest[1:] {
+		s.lastReadBuffer = append(s.lastReadBuffer, ch)
+	}
 	return ch
 }
 
-- 
2.43.0


From 183526c86d457630e2d5f7ac06c9f85186eee216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 15/22] fix: report the position of the unexpected token, not
 that of the white space before it

---
 lexer/emptyStatement.go | 2 +-
 parser/option.go        | 2 ++
 parser/reserved.go      | 6 +++---
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lexer/emptyStatement.go b/lexer/emptyStatement.go
index e8b9b78..001ae19 100644
--- a/lexer/emptyStatement.go
+++ b/lexer/emptyStatement.go
@@ -15,6 +15,6 @@ func (lex *Lexer) ReadEmptyStatement() error {
 	if lex.Token == scanner.TSEMICOLON {
 		return nil
 	}
-	lex.UnNext()
+	defer lex.UnNext()
 	return lex.unexpected(lex.Text, ";")
 }
diff --git a/parser/option.go b/parser/option.go
index 21ee474..1eddd50 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -234,6 +234,7 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 	// Cloud Endpoints requires this exception.
 	case scanner.TLEFTCURLY:
 		if !p.permissive {
+			p.lex.Next()
 			return "", p.unexpected("constant or permissive mode")
 		}
 
@@ -250,6 +251,7 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 
 	case scanner.TLEFTSQUARE:
 		if !p.permissive {
+			p.lex.Next()
 			return "", p.unexpected("constant or permissive mode")
 		}
 		p.lex.Next()
diff --git a/parser/reserved.go b/parser/reserved.go
index 76faf0a..857ac66 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -142,7 +142,7 @@ func (p *Parser) parseRanges() ([]*Range, error) {
 func (p *Parser) parseRange() (*Range, error) {
 	p.lex.NextNumberLit()
 	if p.lex.Token != scanner.TINTLIT {
-		p.lex.UnNext()
+		defer p.lex.UnNext()
 		return nil, p.unexpected("intLit")
 	}
 	begin := p.lex.Text
@@ -221,7 +221,7 @@ func (p *Parser) parseFieldName() (string, error) {
 	// If it is not a quotedFieldName, it should be a fieldName in Editions.
 	p.lex.Next()
 	if p.lex.Token != scanner.TIDENT {
-		p.lex.UnNext()
+		defer p.lex.UnNext()
 		return "", p.unexpected("fieldName or quotedFieldName")
 	}
 	return p.lex.Text, nil
@@ -233,7 +233,7 @@ func (p *Parser) parseFieldName() (string, error) {
 func (p *Parser) parseQuotedFieldName() (string, error) {
 	p.lex.NextStrLit()
 	if p.lex.Token != scanner.TSTRLIT {
-		p.lex.UnNext()
+		defer p.lex.UnNext()
 		return "", p.unexpected("quotedFieldName")
 	}
 	return p.lex.Text, nil
-- 
2.43.0


From af88ff04e06a0f17d49bdfddf3ddd284cfc77886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 16/22] fix: report the token that is neither comma nor right
 square behind an extension declaration

---
 parser/extensions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..267ba2e 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -103,14 +103,14 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 
 		p.lex.Next()
 		token := p.lex.Token
+		if token != scanner.TRIGHTSQUARE && token != scanner.TCOMMA {
+			return nil, nil, p.unexpected(", or ]")
+		}
 		inlineComment1 := p.parseInlineComment()
 		if token == scanner.TRIGHTSQUARE {
 			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
 		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
-- 
2.43.0


From adf252091c788cfb0411966e2838bdfc2de06be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:23 +0000
Subject: [PATCH 17/22] fix: report the broken group alone, not an unexpected
 semicolon at a place before it

---
 parser/message.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/parser/message.go b/parser/message.go
index a5ff3c5..1e0e92c 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -220,28 +220,25 @@ func (p *Parser) parseMessageBody() (
 			p.lex.Next()
 			stmt = &EmptyStatement{}
 		default:
-			var ferr error
-			isGroup := p.peekIsGroup()
-			if isGroup {
-				groupField, groupErr := p.ParseGroupField()
-				if groupErr == nil {
-					groupField.Comments = comments
-					stmt = groupField
-					break
+			if p.peekIsGroup() {
+				groupField, err := p.ParseGroupField()
+				if err != nil {
+					return nil, nil, scanner.Position{}, err
 				}
-				ferr = groupErr
-			} else {
-				field, fieldErr := p.ParseField()
-				if fieldErr == nil {
-					field.Comments = comments
-					stmt = field
-					break
-				}
-				ferr = fieldErr
+				groupField.Comments = comments
+				stmt = groupField
+				break
+			}
+
+			field, fieldErr := p.ParseField()
+			if fieldErr == nil {
+				field.Comments = comments
+				stmt = field
+				break
 			}
 
 			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
-				parseFieldErr:          ferr,
+				parseFieldErr:          fieldErr,
 				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
-- 
2.43.0


From e78b471b39134c0b6666729d7c8605910aeecc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 18/22] fix: interpret a service body with empty statements

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From a1bfcaad3caeaf9db4401fae3d77bd05f3bc088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 19/22] fix: keep the edition in the unordered interpretation

---
 interpret/unordered/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..6ae4dff 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,6 +21,7 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
 }
 
@@ -36,6 +37,7 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
 	}, nil
 }
-- 
2.43.0


From 29c0a178c1d0b99300f63de9e79903049e31f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:21 +0000
Subject: [PATCH 20/22] fix: keep the comments in front of the first
 declaration of a file without syntax

---
 parser/proto.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 5883546..bd17992 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -57,6 +57,7 @@ func (p *Parser) parseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -64,13 +65,12 @@ func (p *Parser) parseProto() (*Proto, error) {
 		return nil, err
 	}
 	if edition != nil {
-		if syntax == nil {
-			edition.Comments = comments
-		}
+		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
+		comments = p.ParseComments()
 	}
 
-	protoBody, err := p.parseProtoBody()
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -97,12 +97,10 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+func (p *Parser) parseProtoBody(comments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
 	for {
-		comments := p.ParseComments()
-
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
 				for _, comment := range comments {
@@ -181,5 +179,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 
 		p.MaybeScanInlineComment(stmt)
 		protoBody = append(protoBody, stmt)
+
+		comments = p.ParseComments()
 	}
 }
-- 
2.43.0


From 0d7a1a22af8a1b926a87099f6889139b2e068a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:22 +0000
Subject: [PATCH 21/22] fix: keep the comments of a message or extend body
 without elements

---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index ec17dbb..2fe6edf 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -109,23 +109,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 1e0e92c..9ed4dbc 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -111,23 +111,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From 17fbfd93ce82e1f49640321a426c522933d6a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:37 +0000
Subject: [PATCH 22/22] fix: look up the comments in the head of an rpc without
 comparing all comments with each other

---
 lexer/lexer.go           |  9 +--------
 lexer/scanner/scanner.go | 35 +++++++++++++++++++----------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 43e6342..b05ad5d 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -199,12 +199,5 @@ func (lex *Lexer) ConsumeToken(t scanner.Token) {
 
 // FindMidComments finds comments between from and to.
 func (lex *Lexer) FindMidComments(from scanner.Position, to scanner.Position) []scanner.Text {
-	comments := lex.scanner.GetScannedComments()
-	var mid []scanner.Text
-	for _, c := range comments {
-		if from.Offset < c.Pos.Offset && c.Pos.Offset < to.Offset {
-			mid = append(mid, c)
-		}
-	}
-	return mid
+	return lex.scanner.FindScannedComments(from.Offset, to.Offset)
 }
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 2a1f6d0..71c35bd 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -3,6 +3,7 @@ package scanner
 import (
 	"bufio"
 	"io"
+	"sort"
 	"unicode"
 	"unicode/utf8"
 )
@@ -34,8 +35,7 @@ type Scanner struct {
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
-	// comments are all the scanned comments.
-	// These can be duplicated.
+	// comments are all the scanned comments, each of them once and in the order of their offsets.
 	comments []Text
 }
 
@@ -161,22 +161,22 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 
 // GetScannedComments returns all the uniquely scanned comments.
 func (s *Scanner) GetScannedComments() []Text {
-	var uniqueComments []Text
-	find := func(c Text) bool {
-		for _, uc := range uniqueComments {
-			if c.Pos.Offset == uc.Pos.Offset && c.Literal == uc.Literal {
-				return true
-			}
-		}
-		return false
-	}
+	return append([]Text(nil), s.comments...)
+}
 
-	for _, c := range s.comments {
-		if !find(c) {
-			uniqueComments = append(uniqueComments, c)
+// FindScannedComments returns all the uniquely scanned comments that begin between the offsets from and to.
+func (s *Scanner) FindScannedComments(from, to int) []Text {
+	since := func(offset int) int {
+		return sort.Search(len(s.comments), func(i int) bool { return offset <= s.comments[i].Pos.Offset })
+	}
+	var found []Text
+	for _, c := range s.comments[since(from+1):] {
+		if to <= c.Pos.Offset {
+			break
 		}
+		found = append(found, c)
 	}
-	return uniqueComments
+	return found
 }
 
 // ReadErr returns the error other than io.EOF that ended the reading, if any.
@@ -215,7 +215,10 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 		if err != nil {
 			return TILLEGAL, "", startPos, err
 		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+		// A comment is scanned again after it has been put back to the read buffer.
+		if n := len(s.comments); n == 0 || s.comments[n-1].Pos.Offset < startPos.Offset {
+			s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+		}
 		if s.Mode&ScanComment != 0 {
 			return TCOMMENT, lit, startPos, nil
 		}
-- 
2.43.0

