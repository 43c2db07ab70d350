From 5c1b9da8b4819b30f9a1cc2ae8f5d65178420e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 01/42] fix: consume <!-- and --> when lexing them

The tokens were set without stepping over their code points, so the next
call to Next returned the same token again and parsing never finished.
---
 internal/lexer/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..4ca2b3e 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -175,6 +175,9 @@ func (l *Lexer) Next() {
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
 				l.Current = CDC
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
@@ -188,6 +191,10 @@ func (l *Lexer) Next() {
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
 				l.Current = CDO
+				l.step()
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
-- 
2.43.0


From 3c1582b625422f6686f8470527a611441ac0a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 02/42] fix: check the dot itself when deciding if it starts a
 number

'.+5' and '..5' were taken for numbers although nothing of them can be
consumed as one, so the lexer returned empty tokens forever.
---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 4ca2b3e..44429c0 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -256,7 +256,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
-- 
2.43.0


From f055ddde4d87b3e0c6f14be458adacc2e3858917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 03/42] fix: consume exactly one escaped code point per
 backslash

An escaped quote ended its string, an escaped non-hex code point was not
consumed, and only five hex digits were, with whitespace between them.
---
 internal/lexer/lexer.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 44429c0..44d3ace 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -319,17 +319,15 @@ func (l *Lexer) Next() {
 				case '\n':
 					l.Errorf("unclosed string: unexpected newline")
 				case '\\':
-					l.step()
-
-					switch l.ch {
+					switch l.peek(0) {
 					case '\n':
 						l.step()
+						l.step()
 					case -1:
+						l.step()
 						l.Errorf("unexpected EOF")
 					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+						l.nextEscaped()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
@@ -575,12 +573,19 @@ func (l *Lexer) nextName() {
 // Note that we do not need to interpret the codepoint for our purposes - we can record
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
-	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
+	l.step() // Consume the backslash.
+
+	if !isHexDigit(l.ch) {
+		l.step()
+		return
+	}
+
+	// Consume up to six hex digits and one whitespace after them.
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+	if isWhitespace(l.ch) {
 		l.step()
-		if isWhitespace(l.ch) {
-			l.step()
-		}
 	}
 }
 
-- 
2.43.0


From b39df1b9a96c8403ab3c50fea4f122fe97c9d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 04/42] fix: read a lone carriage return or form feed as a
 newline

A carriage return that was not followed by a line feed swallowed the code
point after it, and a form feed was taken for a delimiter.
---
 internal/lexer/lexer.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 44d3ace..babe47d 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -83,16 +83,11 @@ func (l *Lexer) step() {
 	}
 
 	// "Convert" to newline. https://www.w3.org/TR/css-syntax-3/#newline
-	if cp == '\r' {
-		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
-		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+	if cp == '\r' || cp == '\f' {
+		if next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:]); cp == '\r' && next == '\n' {
+			size += nextSize
 		}
-
-		l.ch = next
-		l.lastPos = l.pos
-		l.pos += size + nextSize
-		return
+		cp = '\n'
 	}
 
 	if cp == '\n' {
@@ -115,6 +110,9 @@ func (l *Lexer) peek(i int) rune {
 	if size == 0 {
 		return -1
 	}
+	if cp == '\r' || cp == '\f' {
+		return '\n'
+	}
 	return cp
 }
 
-- 
2.43.0


From 1e68ed383fd93daf22db802f99c11afefb110d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 05/42] fix: record each line start once when the parser
 rewinds

Lexing part of a source again appended its lines to the table again, which
left the table unsorted and broke every later line and column.
---
 internal/lexer/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index babe47d..3bc07e2 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -70,7 +70,7 @@ func NewLexer(source *sources.Source) *Lexer {
 
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
-	if l.pos == 0 {
+	if len(l.source.Lines) == 0 {
 		l.source.Lines = append(l.source.Lines, l.pos)
 	}
 
@@ -90,8 +90,9 @@ func (l *Lexer) step() {
 		cp = '\n'
 	}
 
-	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
+	// The parser may rewind the lexer, so this line may have been recorded already.
+	if lines := l.source.Lines; cp == '\n' && lines[len(lines)-1] < l.pos+size {
+		l.source.Lines = append(lines, l.pos+size)
 	}
 
 	l.ch = cp
-- 
2.43.0


From dbbcf434267a745e6bf7a1b85db4404a45fb9cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 06/42] fix: decide as CSS Syntax does what starts a number or
 an identifier

Digits after a number's hyphen were taken for its unit (1-2), a lone hyphen
before a digit for an identifier, a hyphen before an escape for a
delimiter, and non-ASCII digits for numbers.
---
 internal/lexer/lexer.go  | 33 ++++++++++++++++-----------------
 internal/lexer/tokens.go |  9 ++++++---
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 3bc07e2..a80571a 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,7 +3,6 @@
 package lexer
 
 import (
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -180,7 +179,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if startsIdentifier(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 				l.nextIdentLikeToken()
 				return
 			}
@@ -356,7 +355,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if unicode.IsDigit(l.ch) {
+			if isDigit(l.ch) {
 				l.nextNumericToken()
 				return
 			}
@@ -378,11 +377,11 @@ func (l *Lexer) Next() {
 func startsIdentifier(p0, p1, p2 rune) bool {
 	switch p0 {
 	case '-':
-		return p1 == '-' || isNameCodePoint(p1) || startsEscape(p1, p2)
-	case '\n':
-		return false
+		return p1 == '-' || isNameStartCodePoint(p1) || startsEscape(p1, p2)
+	case '\\':
+		return startsEscape(p0, p1)
 	default:
-		return isNameCodePoint(p0)
+		return isNameStartCodePoint(p0)
 	}
 }
 
@@ -402,22 +401,22 @@ func startsEscape(p0, p1 rune) bool {
 // startsNumber implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-number.
 func startsNumber(p0, p1, p2 rune) bool {
 	if p0 == '+' || p0 == '-' {
-		if unicode.IsDigit(p1) {
+		if isDigit(p1) {
 			return true
 		}
 
-		if p1 == '.' && unicode.IsDigit(p2) {
+		if p1 == '.' && isDigit(p2) {
 			return true
 		}
 
 		return false
 	}
 
-	if p0 == '.' && unicode.IsDigit(p1) {
+	if p0 == '.' && isDigit(p1) {
 		return true
 	}
 
-	return unicode.IsDigit(p0)
+	return isDigit(p0)
 }
 
 // nextNumericToken implements https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
@@ -518,27 +517,27 @@ func (l *Lexer) nextNumber() {
 		l.step()
 	}
 
-	for unicode.IsDigit(l.ch) {
+	for isDigit(l.ch) {
 		l.step()
 	}
 
-	if l.ch == '.' && unicode.IsDigit(l.peek(0)) {
+	if l.ch == '.' && isDigit(l.peek(0)) {
 		l.step()
 		l.step()
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
 
-	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (unicode.IsDigit(p0) ||
-		((p0 == '+' || p0 == '-') && unicode.IsDigit(p1))) {
+	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (isDigit(p0) ||
+		((p0 == '+' || p0 == '-') && isDigit(p1))) {
 		l.step()
 		if l.ch == '+' || l.ch == '-' {
 			l.step()
 		}
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
diff --git a/internal/lexer/tokens.go b/internal/lexer/tokens.go
index 693353f..44c46f8 100644
--- a/internal/lexer/tokens.go
+++ b/internal/lexer/tokens.go
@@ -1,7 +1,5 @@
 package lexer
 
-import "unicode"
-
 // Token is the set of lexical tokens in CSS.
 type Token int
 
@@ -79,9 +77,14 @@ var tokens = [...]string{
 	RCurly: "}",
 }
 
+// isDigit implements https://www.w3.org/TR/css-syntax-3/#digit.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 // isHexDigit implements https://www.w3.org/TR/css-syntax-3/#hex-digit.
 func isHexDigit(r rune) bool {
-	return unicode.IsDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
+	return isDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
 }
 
 // isWhitespace implements https://www.w3.org/TR/css-syntax-3/#whitespace.
-- 
2.43.0


From e0b1b46b31b34a61a9cca19261f2370b1bf5a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 07/42] fix: report an error in the first token instead of
 panicking

The lexer reads the first token when it is created, which was before
Parse was ready to recover its errors.
---
 internal/parser/parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..2b52a05 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	p := &parser{source: source, ss: &ast.Stylesheet{}}
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -18,24 +18,25 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 			}
 
 			if errI, ok := rErr.(error); ok {
-				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
+				panic(logging.LocationErrorf(source, p.location(), "%v", errI))
 			}
 
 			// Re-panic unknown issues.
-			panic(err)
+			panic(rErr)
 		}
 	}()
 
+	p.lexer = lexer.NewLexer(source)
 	p.parse()
 	return p.ss, nil
 }
 
-func newParser(source *sources.Source) *parser {
-	return &parser{
-		source: source,
-		lexer:  lexer.NewLexer(source),
-		ss:     &ast.Stylesheet{},
+// location is the location of the current token, if there is one yet.
+func (p *parser) location() ast.Span {
+	if p.lexer == nil {
+		return ast.Span{}
 	}
+	return p.lexer.TokenSpan()
 }
 
 type parser struct {
-- 
2.43.0


From 23498dfc7d2eccebcfd0abc44d67c135db8e2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 08/42] fix: end a raw declaration at the end of its block or
 of the file

Reading a declaration as-is looked for a semicolon only, so it took in the
rules after the block, and never ended when there was no semicolon left.
---
 internal/parser/parser.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 2b52a05..8daaaa1 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -145,15 +145,33 @@ func (p *parser) parseRaw() *ast.Raw {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
-		p.lexer.Next()
-	}
-	raw.End = p.lexer.TokenEnd()
-	p.lexer.Next()
+	for depth := 0; ; p.lexer.Next() {
+		switch p.lexer.Current {
+		case lexer.EOF:
+			p.lexer.Errorf("unexpected EOF")
+
+		case lexer.LCurly:
+			depth++
 
-	raw.Value = p.source.Content[raw.Start:raw.End]
+		case lexer.RCurly:
+			if depth == 0 {
+				// This is the end of the enclosing block.
+				raw.End = p.lexer.TokenSpan().Start
+				raw.Value = p.source.Content[raw.Start:raw.End]
+				return raw
+			}
+			depth--
+
+		case lexer.Semicolon:
+			if depth == 0 {
+				raw.End = p.lexer.TokenEnd()
+				p.lexer.Next()
 
-	return raw
+				raw.Value = p.source.Content[raw.Start:raw.End]
+				return raw
+			}
+		}
+	}
 }
 
 func (p *parser) parseDeclaration() *ast.Declaration {
-- 
2.43.0


From 4632c15e263f99dce2ae6b38022705a02f8afab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 09/42] fix: require an operand on each side of a math operator

A missing operand crashed the parser, or made it read arguments forever.
---
 internal/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 8daaaa1..fe4ce4d 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -340,7 +340,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		value := p.parseValue()
+		if value == nil {
+			p.lexer.Errorf("expected value, but got %s instead", p.lexer.Current)
+		}
+		return value
 	}
 
 	loc := p.lexer.TokenSpan()
-- 
2.43.0


From 1601a7e1e7c36b54b977d450ab421bb62d3c1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 10/42] fix: accept @media and reject @custom-media without a
 query

Both crashed on the missing media query list.
---
 internal/parser/parser.go           | 6 ++++--
 internal/transformer/transformer.go | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fe4ce4d..b56c61b 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -618,7 +618,9 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	if queries := p.parseMediaQueryList(); queries != nil {
+		r.Preludes = append(r.Preludes, queries)
+	}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
@@ -847,7 +849,7 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..12c4a75 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -219,8 +219,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			case "media":
-				mq := node.Preludes[0].(*ast.MediaQueryList)
-				mq.Queries = t.transformMediaQueries(mq.Queries)
+				for _, prelude := range node.Preludes {
+					if mq, ok := prelude.(*ast.MediaQueryList); ok {
+						mq.Queries = t.transformMediaQueries(mq.Queries)
+					}
+				}
 				rv = append(rv, node)
 
 			default:
-- 
2.43.0


From 0a97ced54978ac4bc2a648142b921f2e59cb7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 11/42] fix: require one prelude and then a block in each rule

A rule without a prelude crashed the transformer, a second keyframe
selector list replaced the first, and the token in the place of a missing
opening brace was dropped.
---
 internal/parser/parser.go | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index b56c61b..d384288 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -87,25 +87,15 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for {
-		switch p.lexer.Current {
-		case lexer.EOF:
-			p.lexer.Errorf("unexpected EOF")
-
-		case lexer.LCurly:
-			r.Block = p.parseDeclarationBlock()
-			r.End = r.Block.Location().End
-			return r
-
-		default:
-			if isKeyframes {
-				r.Prelude = p.parseKeyframeSelectorList()
-				continue
-			}
-
-			r.Prelude = p.parseSelectorList()
-		}
+	if isKeyframes {
+		r.Prelude = p.parseKeyframeSelectorList()
+	} else {
+		r.Prelude = p.parseSelectorList()
 	}
+
+	r.Block = p.parseDeclarationBlock()
+	r.End = r.Block.Location().End
+	return r
 }
 
 // parseDeclarationBlock parses a {} block with declarations, e.g.
@@ -114,7 +104,7 @@ func (p *parser) parseDeclarationBlock() *ast.DeclarationBlock {
 	block := &ast.DeclarationBlock{
 		Span: p.lexer.TokenSpan(),
 	}
-	p.lexer.Next()
+	p.lexer.Expect(lexer.LCurly)
 
 	for p.lexer.Current != lexer.RCurly {
 		block.Declarations = append(block.Declarations, p.parseDeclarationOrFallback())
-- 
2.43.0


From 7348ae0192bbdc13ea4d14a2ec477bf5e30248f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 12/42] fix: read delimiters in function arguments and reject
 what cannot be read

Arguments ended at the first token that was not a value, so that
rgb(0 0 0 / 50%) became rgb(000) with its rest as another declaration.
---
 internal/parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d384288..17864b1 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -453,10 +453,15 @@ func (p *parser) parseValue() ast.Value {
 					fn.Arguments = append(fn.Arguments, p.parseMathExpression())
 					continue
 				}
+				if p.lexer.Current == lexer.Delim {
+					fn.Arguments = append(fn.Arguments, &ast.Raw{Span: p.lexer.TokenSpan(), Value: p.lexer.CurrentString})
+					p.lexer.Next()
+					continue
+				}
+
 				val := p.parseValue()
 				if val == nil {
-					// XXX: there's probably some backtracking to do here?
-					break arguments
+					p.lexer.Errorf("unexpected token in function arguments: %s", p.lexer.Current)
 				}
 
 				fn.Arguments = append(fn.Arguments, val)
-- 
2.43.0


From 44b1fb631d0d612f9dbb99f6a3d88bcdb25e0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 13/42] fix: end a declaration only at a semicolon or the end
 of its block

A value that could not be read any further was split into a declaration and
the raw rest, and values after !important were moved before it.
---
 internal/parser/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 17864b1..235fd37 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -204,16 +204,23 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			}
 			p.lexer.Next()
 
-			if !isImportantString(p.lexer.CurrentString) {
+			if p.lexer.Current != lexer.Ident || !isImportantString(p.lexer.CurrentString) {
 				p.lexer.Errorf("expected !important, unexpected token: %s", p.lexer.CurrentString)
 			}
 			decl.End = p.lexer.TokenEnd()
 			p.lexer.Next()
 			decl.Important = true
 
+			if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+				p.lexer.Errorf("unexpected token after !important: %s", p.lexer.Current)
+			}
+
 		default:
 			val := p.parseValue()
 			if val == nil {
+				if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+					p.lexer.Errorf("unexpected token in declaration: %s", p.lexer.Current)
+				}
 				if len(decl.Values) == 0 {
 					p.lexer.Errorf("declaration must have a value")
 				}
-- 
2.43.0


From fca7d17ee3790f206180e9bb7416265ed5abaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 14/42] fix: reject unknown attribute operators instead of
 reading them as =

---
 internal/parser/selectors.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..ac5ae33 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -201,17 +201,23 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		return attr
 	}
 
+	if p.lexer.Current != lexer.Delim {
+		p.lexer.Errorf("expected attribute operator, got %s", p.lexer.Current)
+	}
+
 	switch p.lexer.CurrentString {
 	case "^", "~", "$", "*", "|":
 		attr.PreOperator = p.lexer.CurrentString
 		p.lexer.Next()
 
-		if p.lexer.CurrentString != "=" {
+		if p.lexer.Current != lexer.Delim || p.lexer.CurrentString != "=" {
 			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
 		}
-		p.lexer.Expect(lexer.Delim)
+		p.lexer.Next()
+	case "=":
+		p.lexer.Next()
 	default:
-		p.lexer.Expect(lexer.Delim)
+		p.lexer.Errorf("unknown attribute operator: %s", p.lexer.CurrentString)
 	}
 
 	attr.Value = p.parseValue()
-- 
2.43.0


From 4a485f70ba7759687b0a4b1567ba00b40e8456cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 15/42] fix: keep the whitespace after an attribute selector

The token after the closing bracket was read without whitespace, which
turned '[a] b' into '[a]b'.
---
 internal/parser/selectors.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index ac5ae33..5cb5f3e 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -170,6 +170,16 @@ func (p *parser) parseSelector() *ast.Selector {
 		case lexer.LBracket:
 			s.Parts = append(s.Parts, p.parseAttributeSelector())
 
+			// The whitespace after an attribute selector is only part of the
+			// selector if another part follows.
+			if p.lexer.Current == lexer.Whitespace {
+				space := &ast.Whitespace{Span: p.lexer.TokenSpan()}
+				p.lexer.Next()
+				if p.lexer.Current != lexer.LCurly && p.lexer.Current != lexer.Comma && p.lexer.Current != lexer.RParen {
+					s.Parts = append(s.Parts, space)
+				}
+			}
+
 		default:
 			if len(s.Parts) == 0 {
 				p.lexer.Errorf("expected selector")
@@ -197,6 +207,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	p.lexer.Expect(lexer.Ident)
 	if p.lexer.Current == lexer.RBracket {
 		attr.End = p.lexer.TokenEnd()
+		p.lexer.RetainWhitespace = prev
 		p.lexer.Next()
 		return attr
 	}
@@ -233,6 +244,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		p.lexer.Next()
 	}
 
+	p.lexer.RetainWhitespace = prev
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
-- 
2.43.0


From 1e41cb17a62d992d037ca96f14fbd23f4eba0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 16/42] fix: require a value on each side of a media feature's
 operator or colon

(width<) and (min-width:) were read as (width) and (min-width).
---
 internal/parser/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 235fd37..f2207af 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -710,6 +710,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 	p.lexer.Expect(lexer.LParen)
 
 	firstValue := p.parseValue()
+	if firstValue == nil {
+		p.lexer.Errorf("expected value in media feature, got %s", p.lexer.Current)
+	}
 
 	switch p.lexer.Current {
 	case lexer.RParen:
@@ -735,6 +738,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		}
 
 		secondValue := p.parseValue()
+		if secondValue == nil {
+			p.lexer.Errorf("expected value in media feature, got %s", p.lexer.Current)
+		}
 
 		plain := &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -754,6 +760,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		r.Operator = p.parseMediaRangeOperator()
 
 		secondValue := p.parseValue()
+		if secondValue == nil {
+			p.lexer.Errorf("expected value in media feature, got %s", p.lexer.Current)
+		}
 
 		maybeIdent, ok := secondValue.(*ast.Identifier)
 		if !ok {
@@ -783,6 +792,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 				p.lexer.Errorf("operators in a range must be the same")
 			}
 			r.RightValue = p.parseValue()
+			if r.RightValue == nil {
+				p.lexer.Errorf("expected value in media feature, got %s", p.lexer.Current)
+			}
 		}
 
 		r.End = p.lexer.TokenEnd()
-- 
2.43.0


From 4cc4ad24ebf357cc78342de1c03b3559d72f91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 17/42] fix: reject a type selector right after another simple
 selector

Names separated by a comment only (a/**/b) were printed as a single name.
---
 internal/parser/selectors.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 5cb5f3e..a096230 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -55,6 +55,13 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Next()
 
 		case lexer.Ident:
+			if len(s.Parts) > 0 {
+				switch s.Parts[len(s.Parts)-1].(type) {
+				case *ast.Whitespace, *ast.CombinatorSelector:
+				default:
+					p.lexer.Errorf("unexpected type selector")
+				}
+			}
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
 				Name: p.lexer.CurrentString,
-- 
2.43.0


From e7384da32b14aabb931fd06b4dc3b4706cb6367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 18/42] fix: reject An+B arguments that are empty or have two
 numbers

:nth-child() lost its parentheses and :nth-child(5+3) its first number.
---
 internal/parser/selectors.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index a096230..7be0e7b 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -151,6 +151,8 @@ func (p *parser) parseSelector() *ast.Selector {
 							Value: p.lexer.CurrentString,
 						}
 						p.lexer.Next()
+					default:
+						p.lexer.Errorf("expected even, odd, or an+b syntax")
 					}
 				} else {
 					pc.Arguments = p.parseSelectorList()
@@ -311,6 +313,11 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		p.lexer.Expect(lexer.Number)
 	}
 
+	if v.B != "" {
+		// There is no n that another number could be added to.
+		return v
+	}
+
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
 	// us a number. Otherwise, it'll be n + 3 with a delimiter.
 	if p.lexer.Current == lexer.Number {
-- 
2.43.0


From b1d7a6e7a45e58eb6072ac29293cfa19aaf225ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 19/42] fix: print the operator and the modifier of attribute
 selectors

---
 internal/printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..c8b0ae8 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -275,8 +275,13 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('[')
 		p.s.WriteString(node.Property)
 		if node.Value != nil {
+			p.s.WriteString(node.PreOperator)
 			p.s.WriteRune('=')
 			p.print(node.Value)
+			if node.Modifier != "" {
+				p.s.WriteRune(' ')
+				p.s.WriteString(node.Modifier)
+			}
 		}
 		p.s.WriteRune(']')
 
-- 
2.43.0


From dce2242f9c0b1a33ca40c0e7ef9c9fdf6652e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 20/42] fix: print commas between keyframe selectors

---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index c8b0ae8..8aea458 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -164,8 +164,12 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.KeyframeSelectorList:
-		for _, s := range node.Selectors {
+		for i, s := range node.Selectors {
 			p.print(s)
+
+			if i+1 < len(node.Selectors) {
+				p.s.WriteRune(',')
+			}
 		}
 
 	case *ast.QualifiedRule:
-- 
2.43.0


From 6ba4476437353e20d7c7eacb1573093a1cecd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 21/42] fix: print spaces between function arguments

Arguments that are not separated by commas ran into each other, so that
linear-gradient(to right, red) became linear-gradient(toright,red).
---
 internal/printer/printer.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 8aea458..9fe3af3 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,23 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// printValues prints values with spaces between them, except around commas.
+func (p *printer) printValues(values []ast.Value) {
+	for i, val := range values {
+		p.print(val)
+
+		// Print space if we're not the last value and the previous or current
+		// value was not a comma.
+		if i+1 < len(values) {
+			if _, nextIsComma := values[i+1].(*ast.Comma); !nextIsComma {
+				if _, isComma := val.(*ast.Comma); !isComma {
+					p.s.WriteRune(' ')
+				}
+			}
+		}
+	}
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -197,19 +214,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Declaration:
 		p.s.WriteString(node.Property)
 		p.s.WriteRune(':')
-		for i, val := range node.Values {
-			p.print(val)
-
-			// Print space if we're not the last value and the previous or current
-			// value was not a comma.
-			if i+1 < len(node.Values) {
-				if _, nextIsComma := node.Values[i+1].(*ast.Comma); !nextIsComma {
-					if _, isComma := val.(*ast.Comma); !isComma {
-						p.s.WriteRune(' ')
-					}
-				}
-			}
-		}
+		p.printValues(node.Values)
 
 		if node.Important {
 			p.s.WriteString("!important")
@@ -237,9 +242,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Function:
 		p.s.WriteString(node.Name)
 		p.s.WriteRune('(')
-		for _, arg := range node.Arguments {
-			p.print(arg)
-		}
+		p.printValues(node.Arguments)
 		p.s.WriteRune(')')
 
 	case *ast.Brackets:
-- 
2.43.0


From 6dd7b2fc4e2580634e5126654a0bb91b96b82ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 22/42] fix: print strings that contain double quotes in single
 quotes

---
 internal/printer/printer.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 9fe3af3..608026c 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,20 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// quoteFor is the quote to print around a string value, which is kept as it was
+// written. A value with an unescaped double quote was written in single quotes.
+func quoteFor(value string) rune {
+	for i := 0; i < len(value); i++ {
+		switch value[i] {
+		case '\\':
+			i++
+		case '"':
+			return '\''
+		}
+	}
+	return '"'
+}
+
 // printValues prints values with spaces between them, except around commas.
 func (p *printer) printValues(values []ast.Value) {
 	for i, val := range values {
@@ -232,9 +246,10 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('%')
 
 	case *ast.String:
-		p.s.WriteRune('"')
+		quote := quoteFor(node.Value)
+		p.s.WriteRune(quote)
 		p.s.WriteString(node.Value)
-		p.s.WriteRune('"')
+		p.s.WriteRune(quote)
 
 	case *ast.Identifier:
 		p.s.WriteString(node.Value)
-- 
2.43.0


From b2c036e13a007f711ae60f16c7688346dca719bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 23/42] fix: escape the file path in the source map

---
 internal/printer/printer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 608026c..fbda873 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	path, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(path)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From b76a513e301557a5ff523c113964aa7e2f129a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 24/42] fix: walk brackets and the arguments of pseudo-class
 selectors

Walking panicked on the former and left out the latter.
---
 internal/ast/walk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ast/walk.go b/internal/ast/walk.go
index 562ed02..e9b60fa 100644
--- a/internal/ast/walk.go
+++ b/internal/ast/walk.go
@@ -94,13 +94,20 @@ func Walk(start Node, visit func(n Node)) {
 	case *PseudoElementSelector:
 		Walk(s.Inner, visit)
 
+	case *PseudoClassSelector:
+		Walk(s.Arguments, visit)
+
+	case *Brackets:
+		for _, v := range s.Values {
+			Walk(v, visit)
+		}
+
 	case *ClassSelector:
 	case *Comma:
 	case *IDSelector:
 	case *String:
 	case *TypeSelector:
 	case *CombinatorSelector:
-	case *PseudoClassSelector:
 	case *ANPlusB:
 	case *HexColor:
 	case *Percentage:
-- 
2.43.0


From 9047bd100391c9bc7147faa653307da2a2334919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 25/42] fix: print the sign of An+B without n, and zero

:nth-child(-5) was printed as :nth-child(5) and :nth-child(0) as
:nth-child().
---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index fbda873..07bddb4 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -359,10 +359,14 @@ func (p *printer) print(in ast.Node) {
 			wrote = true
 		}
 		if node.B != "" && node.B != "0" {
-			if wrote {
+			if wrote || node.Operator == "-" {
 				p.s.WriteString(node.Operator)
 			}
 			p.s.WriteString(node.B)
+			wrote = true
+		}
+		if !wrote {
+			p.s.WriteRune('0')
 		}
 
 	case *ast.MediaQueryList:
-- 
2.43.0


From f2a8ff9f98c731469499c19488fefb1e41115ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 26/42] fix: fail to resolve a directory in the place of a css
 file

There is no error to wrap when the stat succeeds, so an index.css or style
entry that is a directory resolved to an empty path without an error.
---
 resolver/node_resolver.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..f6de42a 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -104,13 +104,18 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	if err != nil {
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
-		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
+		info, err := os.Stat(indexPath)
+		if err != nil {
 			if os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
 			return "", oops.Wrapf(err, "failure during resolution")
 		}
 
+		if info.IsDir() {
+			return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", indexPath)
+		}
+
 		return indexPath, nil
 	}
 
@@ -125,13 +130,18 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	}
 
 	stylePath := filepath.Join(path, pkgContent.Style)
-	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {
+	info, err := os.Stat(stylePath)
+	if err != nil {
 		if os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
 		return "", oops.Wrapf(err, "failure during resolution")
 	}
 
+	if info.IsDir() {
+		return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", stylePath)
+	}
+
 	return stylePath, nil
 }
 
-- 
2.43.0


From d30713a85d1fc696e04ec665ad2ed00ce22a19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 27/42] fix: look for node_modules up to the root from any
 directory

The loop never ended for a relative directory, whose parents end at '.',
and did not look in the root.
---
 resolver/node_resolver.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index f6de42a..a0dfe3c 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -147,15 +147,23 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
-	currentDir := fromDir
-	for currentDir != "/" {
+	currentDir, err := filepath.Abs(fromDir)
+	if err != nil {
+		return "", oops.Wrapf(err, "failed to make path absolute: %s", fromDir)
+	}
+
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		parentDir := filepath.Dir(currentDir)
+		if parentDir == currentDir {
+			break
+		}
+		currentDir = parentDir
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From 73355ce29f24c247d7ed77f297890d145ddd0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 28/42] fix: give the bundler each error once and at its
 position

Parse errors are wrapped and lost their location. Other errors with a
location were added twice, with a byte offset for their line.
---
 esbuildplugin/plugin.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..e362367 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -26,21 +27,27 @@ func (r *csscReporter) toEsbuild() []api.Message {
 	var errs []api.Message
 	for _, err := range *r {
 
-		if lErr, ok := err.(locationError); ok {
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
+			length := span.End - span.Start
+			if rest := lineSpan.End - span.Start; length > rest {
+				length = rest
+			}
 
 			errs = append(errs, api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
 					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
-					Length:   lineSpan.End - lineSpan.Start,
+					Column:   int(colNumber) - 1,
+					Line:     int(lineNumber),
+					Length:   length,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
 			})
+			continue
 		}
 
 		errs = append(errs, api.Message{
-- 
2.43.0


From 2696bce3559364b09ae3eb7367bbc6d5f2c7ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 29/42] fix: give each entry and each import its own task

The tasks shared the loop variable, so that most of them could process the
last entry or import.
---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index f559852..7459b55 100644
--- a/api.go
+++ b/api.go
@@ -181,6 +181,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
+		imp := imp
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
@@ -225,6 +226,7 @@ func Compile(opts Options) *Result {
 	var wg errgroup.Group
 
 	for _, e := range opts.Entry {
+		e := e
 		wg.Go(func() error {
 			c.parseFile(e, true)
 			return nil
-- 
2.43.0


From 567cb33048ae367f154d124f1545471c7c5cd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 30/42] fix: keep @import once when imports are passed through

---
 internal/transformer/transformer.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 12c4a75..1b6e67c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -179,10 +179,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
-				if t.ImportReplacements == nil {
-					rv = append(rv, node)
-				}
-
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
 					rv = append(rv, node)
-- 
2.43.0


From b0972d94a7166840494d5d0bda5af751af7dfc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 31/42] fix: take variable definitions only from exactly :root

Any rule whose first selector started with :root counted (:root .a), unless
all its selectors had a single part (:root{).
---
 internal/transformer/transformer.go | 39 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 1b6e67c..1933376 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -108,6 +108,26 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 	return newNodes
 }
 
+// isRootSelector returns whether the selector is exactly :root.
+func isRootSelector(sel *ast.Selector) bool {
+	foundRoot := false
+	for _, p := range sel.Parts {
+		switch part := p.(type) {
+		case *ast.Whitespace:
+
+		case *ast.PseudoClassSelector:
+			if foundRoot || part.Name != "root" || part.Arguments != nil {
+				return false
+			}
+			foundRoot = true
+
+		default:
+			return false
+		}
+	}
+	return foundRoot
+}
+
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
@@ -119,27 +139,12 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				isRoot := false
 				for _, sel := range selList.Selectors {
-					if len(sel.Parts) != 1 {
-						isRoot = true
-						break
+					if !isRootSelector(sel) {
+						return
 					}
 				}
 
-				if !isRoot {
-					return
-				}
-
-				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
-				if !ok {
-					return
-				}
-
-				if rootSel.Name != "root" {
-					return
-				}
-
 				declBlock, ok := node.Block.(*ast.DeclarationBlock)
 				if !ok {
 					return
-- 
2.43.0


From 6c3bb9d2059c0c9a738033835296d565056f2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 32/42] fix: do not modify the stylesheet that is transformed

A stylesheet that several others import was transformed in place by each of
them, concurrently when they were compiled together.
---
 internal/transformer/transformer.go | 62 +++++++++++++++++++----------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 1933376..c44d4a7 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -30,7 +30,8 @@ type Options struct {
 }
 
 // Transform takes a pass over the input AST and runs various
-// transforms.
+// transforms. The input AST is not modified, because it may be
+// inlined into other ASTs as well.
 func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	t := &transformer{
 		Options: opts,
@@ -52,13 +53,14 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 		t.Reporter.AddError(fmt.Errorf("ImportRules is set to ImportRulesInline, but ImportReplacements is not set"))
 	}
 
-	s.Nodes = t.transformNodes(s.Nodes)
+	transformed := *s
+	transformed.Nodes = t.transformNodes(s.Nodes)
 
-	return s
+	return &transformed
 }
 
-// transformer takes a pass over the AST and makes
-// modifications to the AST, depending on the settings.
+// transformer takes a pass over the AST and copies what it
+// changes, depending on the settings.
 type transformer struct {
 	Options
 
@@ -94,6 +96,7 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 
 				// Make a duplicate with :visited.
 				duplicate := *n
+				duplicate.Parts = append([]ast.SelectorPart(nil), n.Parts...)
 				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
 				newNodes = append(newNodes, &duplicate)
 
@@ -102,8 +105,9 @@ func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector
 			}
 		}
 
-		n.Parts = newParts
-		newNodes = append(newNodes, n)
+		sel := *n
+		sel.Parts = newParts
+		newNodes = append(newNodes, &sel)
 	}
 	return newNodes
 }
@@ -133,6 +137,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	for _, value := range nodes {
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
+			rule := *node
 			func() {
 				selList, ok := node.Prelude.(*ast.SelectorList)
 				if !ok {
@@ -149,6 +154,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				if !ok {
 					return
 				}
+				block := *declBlock
 
 				newDecls := make([]ast.Declarationish, 0, len(declBlock.Declarations))
 				for _, decl := range declBlock.Declarations {
@@ -166,20 +172,23 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 
 				}
 
-				declBlock.Declarations = newDecls
+				block.Declarations = newDecls
+				rule.Block = &block
 			}()
 
-			selList, ok := node.Prelude.(*ast.SelectorList)
-			if !ok {
+			if selList, ok := node.Prelude.(*ast.SelectorList); ok {
+				list := *selList
+				list.Selectors = t.transformSelectors(list.Selectors)
+				rule.Prelude = &list
+			} else {
 				t.addError(node.Prelude, "expected selector list for qualified rule")
 			}
-			selList.Selectors = t.transformSelectors(selList.Selectors)
-			node.Block = t.transformBlock(node.Block)
+			rule.Block = t.transformBlock(rule.Block)
 
-			if node.Block == nil {
+			if rule.Block == nil {
 				continue
 			}
-			rv = append(rv, node)
+			rv = append(rv, &rule)
 
 		case *ast.AtRule:
 			switch node.Name {
@@ -220,12 +229,17 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			case "media":
+				rule := *node
+				rule.Preludes = make([]ast.AtPrelude, 0, len(node.Preludes))
 				for _, prelude := range node.Preludes {
 					if mq, ok := prelude.(*ast.MediaQueryList); ok {
-						mq.Queries = t.transformMediaQueries(mq.Queries)
+						list := *mq
+						list.Queries = t.transformMediaQueries(mq.Queries)
+						prelude = &list
 					}
+					rule.Preludes = append(rule.Preludes, prelude)
 				}
-				rv = append(rv, node)
+				rv = append(rv, &rule)
 
 			default:
 				rv = append(rv, node)
@@ -241,8 +255,9 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
-		q.Parts = t.transformMediaQueryParts(q.Parts)
-		newQueries = append(newQueries, q)
+		query := *q
+		query.Parts = t.transformMediaQueryParts(q.Parts)
+		newQueries = append(newQueries, &query)
 	}
 	return newQueries
 }
@@ -373,10 +388,12 @@ func (t *transformer) transformBlock(block ast.Block) ast.Block {
 		}
 
 	case *ast.DeclarationBlock:
-		node.Declarations = t.transformDeclarations(node.Declarations)
-		if len(node.Declarations) == 0 {
+		copied := *node
+		copied.Declarations = t.transformDeclarations(node.Declarations)
+		if len(copied.Declarations) == 0 {
 			return nil
 		}
+		return &copied
 
 	default:
 		panic("unknown block")
@@ -390,8 +407,9 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	for _, decl := range decls {
 		switch d := decl.(type) {
 		case *ast.Declaration:
-			d.Values = t.transformValues(d.Values)
-			newDecls = append(newDecls, d)
+			copied := *d
+			copied.Values = t.transformValues(d.Values)
+			newDecls = append(newDecls, &copied)
 		default:
 			newDecls = append(newDecls, d)
 		}
-- 
2.43.0


From a5af991d4e3791b29f76af8c0ba931154fd2c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 33/42] fix: replace every :any-link with all combinations of
 :link and :visited

A second :any-link in a selector was replaced in shared parts, and one in
the arguments of a pseudo class was left in place.
---
 internal/transformer/transformer.go | 76 ++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index c44d4a7..362c17d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -79,37 +79,65 @@ func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
 	newNodes := make([]*ast.Selector, 0, len(nodes))
 	for _, n := range nodes {
-		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
-		for index, p := range n.Parts {
-			switch part := p.(type) {
-			case *ast.PseudoClassSelector:
-				if part.Name != "any-link" || t.AnyLink == transforms.AnyLinkPassthrough {
-					newParts = append(newParts, p)
-					break
+		// Each :any-link doubles the alternatives for the selector.
+		alternatives := [][]ast.SelectorPart{make([]ast.SelectorPart, 0, len(n.Parts))}
+		for _, p := range n.Parts {
+			choices := t.transformSelectorPart(p)
+
+			newAlternatives := make([][]ast.SelectorPart, 0, len(alternatives)*len(choices))
+			for _, parts := range alternatives {
+				for _, choice := range choices {
+					newParts := make([]ast.SelectorPart, 0, len(n.Parts))
+					newParts = append(newParts, parts...)
+					newAlternatives = append(newAlternatives, append(newParts, choice))
 				}
+			}
+			alternatives = newAlternatives
+		}
 
-				// Replace one of them with :link.
-				newParts = append(
-					newParts,
-					&ast.PseudoClassSelector{Name: "link"},
-				)
-
-				// Make a duplicate with :visited.
-				duplicate := *n
-				duplicate.Parts = append([]ast.SelectorPart(nil), n.Parts...)
-				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
-				newNodes = append(newNodes, &duplicate)
+		for _, parts := range alternatives {
+			sel := *n
+			sel.Parts = parts
+			newNodes = append(newNodes, &sel)
+		}
+	}
+	return newNodes
+}
 
-			default:
-				newParts = append(newParts, p)
+// transformSelectorPart returns the alternatives for a selector part.
+func (t *transformer) transformSelectorPart(p ast.SelectorPart) []ast.SelectorPart {
+	switch part := p.(type) {
+	case *ast.PseudoClassSelector:
+		if part.Name == "any-link" && part.Arguments == nil && t.AnyLink != transforms.AnyLinkPassthrough {
+			return []ast.SelectorPart{
+				&ast.PseudoClassSelector{Name: "visited"},
+				&ast.PseudoClassSelector{Name: "link"},
 			}
 		}
+		return []ast.SelectorPart{t.transformPseudoClassSelector(part)}
+
+	case *ast.PseudoElementSelector:
+		element := *part
+		element.Inner = t.transformPseudoClassSelector(part.Inner)
+		return []ast.SelectorPart{&element}
 
-		sel := *n
-		sel.Parts = newParts
-		newNodes = append(newNodes, &sel)
+	default:
+		return []ast.SelectorPart{p}
 	}
-	return newNodes
+}
+
+// transformPseudoClassSelector transforms the selectors in the arguments of a pseudo class.
+func (t *transformer) transformPseudoClassSelector(in *ast.PseudoClassSelector) *ast.PseudoClassSelector {
+	selList, ok := in.Arguments.(*ast.SelectorList)
+	if !ok {
+		return in
+	}
+
+	list := *selList
+	list.Selectors = t.transformSelectors(selList.Selectors)
+	pseudo := *in
+	pseudo.Arguments = &list
+	return &pseudo
 }
 
 // isRootSelector returns whether the selector is exactly :root.
-- 
2.43.0


From 8ae5f422e278ee5ce4ed5b13638d7ff108880a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 34/42] fix: transform the rules and declarations inside
 at-rules

Selectors and values in @media, @keyframes, @font-face and the like were
left as they were, and so were media queries of @import.
---
 internal/transformer/transformer.go | 97 ++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 362c17d..12b43cc 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -165,7 +165,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	for _, value := range nodes {
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
-			rule := *node
 			func() {
 				selList, ok := node.Prelude.(*ast.SelectorList)
 				if !ok {
@@ -201,29 +200,21 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}
 
 				block.Declarations = newDecls
+				rule := *node
 				rule.Block = &block
+				node = &rule
 			}()
 
-			if selList, ok := node.Prelude.(*ast.SelectorList); ok {
-				list := *selList
-				list.Selectors = t.transformSelectors(list.Selectors)
-				rule.Prelude = &list
-			} else {
-				t.addError(node.Prelude, "expected selector list for qualified rule")
-			}
-			rule.Block = t.transformBlock(rule.Block)
-
-			if rule.Block == nil {
-				continue
+			if rule := t.transformQualifiedRule(node); rule != nil {
+				rv = append(rv, rule)
 			}
-			rv = append(rv, &rule)
 
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
-					rv = append(rv, node)
+					rv = append(rv, t.transformAtRule(node))
 					break
 				}
 
@@ -256,21 +247,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.customMedia[name.Value] = query
 				}()
 
-			case "media":
-				rule := *node
-				rule.Preludes = make([]ast.AtPrelude, 0, len(node.Preludes))
-				for _, prelude := range node.Preludes {
-					if mq, ok := prelude.(*ast.MediaQueryList); ok {
-						list := *mq
-						list.Queries = t.transformMediaQueries(mq.Queries)
-						prelude = &list
-					}
-					rule.Preludes = append(rule.Preludes, prelude)
-				}
-				rv = append(rv, &rule)
-
 			default:
-				rv = append(rv, node)
+				rv = append(rv, t.transformAtRule(node))
 			}
 
 		default:
@@ -280,6 +258,41 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	return rv
 }
 
+// transformQualifiedRule returns nil if nothing is left of the rule.
+func (t *transformer) transformQualifiedRule(node *ast.QualifiedRule) *ast.QualifiedRule {
+	rule := *node
+	if selList, ok := node.Prelude.(*ast.SelectorList); ok {
+		list := *selList
+		list.Selectors = t.transformSelectors(selList.Selectors)
+		rule.Prelude = &list
+	}
+
+	rule.Block = t.transformBlock(node.Block)
+	if isEmptyBlock(rule.Block) {
+		return nil
+	}
+	return &rule
+}
+
+// transformAtRule transforms the media queries and the block of an at rule.
+func (t *transformer) transformAtRule(node *ast.AtRule) *ast.AtRule {
+	rule := *node
+	rule.Preludes = make([]ast.AtPrelude, 0, len(node.Preludes))
+	for _, prelude := range node.Preludes {
+		if mq, ok := prelude.(*ast.MediaQueryList); ok {
+			list := *mq
+			list.Queries = t.transformMediaQueries(mq.Queries)
+			prelude = &list
+		}
+		rule.Preludes = append(rule.Preludes, prelude)
+	}
+
+	if node.Block != nil {
+		rule.Block = t.transformBlock(node.Block)
+	}
+	return &rule
+}
+
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
@@ -405,29 +418,37 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 	return newParts
 }
 
+func isEmptyBlock(block ast.Block) bool {
+	switch node := block.(type) {
+	case *ast.QualifiedRuleBlock:
+		return len(node.Rules) == 0
+	case *ast.DeclarationBlock:
+		return len(node.Declarations) == 0
+	default:
+		return false
+	}
+}
+
 func (t *transformer) transformBlock(block ast.Block) ast.Block {
 	switch node := block.(type) {
 	case *ast.QualifiedRuleBlock:
-		// 	for _, d := range node.Rules {
-		// 		// t.transform(d)
-		// 	}
-		if len(node.Rules) == 0 {
-			return nil
+		copied := *node
+		copied.Rules = make([]*ast.QualifiedRule, 0, len(node.Rules))
+		for _, r := range node.Rules {
+			if rule := t.transformQualifiedRule(r); rule != nil {
+				copied.Rules = append(copied.Rules, rule)
+			}
 		}
+		return &copied
 
 	case *ast.DeclarationBlock:
 		copied := *node
 		copied.Declarations = t.transformDeclarations(node.Declarations)
-		if len(copied.Declarations) == 0 {
-			return nil
-		}
 		return &copied
 
 	default:
 		panic("unknown block")
 	}
-
-	return block
 }
 
 func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.Declarationish {
-- 
2.43.0


From 8be0207f37d683e5e6669b70c1e9d7d4b5c7295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 35/42] fix: substitute variables and reduce calc() at any
 depth

A var() in function arguments, in a fallback or in another variable was left
in place although the variable's definition was removed.
---
 internal/transformer/transformer.go | 152 ++++++++++++++--------------
 1 file changed, 78 insertions(+), 74 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 12b43cc..d6891f0 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -189,7 +189,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					case *ast.Declaration:
 
 						if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-							t.variables[d.Property] = d.Values
+							t.variables[d.Property] = t.transformValues(d.Values)
 							continue
 						}
 						newDecls = append(newDecls, d)
@@ -470,95 +470,99 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	rv := make([]ast.Value, 0, len(values))
 	for _, value := range values {
-		switch v := value.(type) {
-		case *ast.Function:
-			newValues := []ast.Value{v}
-			func() {
-				if v.Name != "var" {
-					return
-				}
-
-				if t.variables == nil {
-					return
-				}
-
-				if len(v.Arguments) == 0 {
-					t.addError(v, "expected at least one argument to var()")
-					return
-				}
+		rv = append(rv, t.transformValue(value)...)
+	}
+	return rv
+}
 
-				varName, ok := v.Arguments[0].(*ast.Identifier)
-				if !ok {
-					t.addError(v, "expected identifier as argument to var()")
-					return
-				}
+// transformValue returns the values that the value is replaced with.
+func (t *transformer) transformValue(value ast.Value) []ast.Value {
+	switch v := value.(type) {
+	case *ast.Function:
+		if v.Name == "var" && t.variables != nil {
+			return t.transformVariable(v)
+		}
 
-				vals, ok := t.variables[varName.Value]
-				if !ok {
-					// The first argument is the value, the second is a comma.
-					if len(v.Arguments) > 2 {
-						newValues = v.Arguments[2:]
-						return
-					}
+		fn := *v
+		fn.Arguments = t.transformValues(v.Arguments)
+		if fn.Name == "calc" && t.CalcReduction != transforms.CalcReductionPassthrough {
+			if reduced := t.reduceCalc(&fn); reduced != nil {
+				return []ast.Value{reduced}
+			}
+		}
+		return []ast.Value{&fn}
 
-					t.addWarn(v, "use of undefined variable without fallback: %s", varName.Value)
-					return
-				}
+	case *ast.Brackets:
+		brackets := *v
+		brackets.Values = t.transformValues(v.Values)
+		return []ast.Value{&brackets}
 
-				newValues = vals
-			}()
+	case *ast.MathParenthesizedExpression:
+		expr := *v
+		expr.Value = t.transformOperand(v.Value)
+		return []ast.Value{&expr}
 
-			func() {
-				if v.Name != "calc" {
-					return
-				}
+	case *ast.MathExpression:
+		expr := *v
+		expr.Left = t.transformOperand(v.Left)
+		expr.Right = t.transformOperand(v.Right)
+		return []ast.Value{&expr}
 
-				if t.CalcReduction == transforms.CalcReductionPassthrough {
-					return
-				}
+	default:
+		return []ast.Value{v}
+	}
+}
 
-				if len(v.Arguments) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
-					return
-				}
+// transformOperand transforms a value that can only be replaced with a single one.
+func (t *transformer) transformOperand(operand ast.Value) ast.Value {
+	values := t.transformValue(operand)
+	if len(values) != 1 {
+		t.addWarn(operand, "expected operand of math expression to be a single value")
+		return operand
+	}
+	return values[0]
+}
 
-				args := t.transformValues([]ast.Value{v.Arguments[0]})
-				if len(args) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
-					return
-				}
+// transformVariable returns the values that a var() is replaced with.
+func (t *transformer) transformVariable(v *ast.Function) []ast.Value {
+	if len(v.Arguments) == 0 {
+		t.addError(v, "expected at least one argument to var()")
+		return []ast.Value{v}
+	}
 
-				arg, ok := args[0].(*ast.MathExpression)
-				if !ok {
-					return
-				}
+	varName, ok := v.Arguments[0].(*ast.Identifier)
+	if !ok {
+		t.addError(v, "expected identifier as argument to var()")
+		return []ast.Value{v}
+	}
 
-				l, r := t.transformValues([]ast.Value{arg.Left}), t.transformValues([]ast.Value{arg.Right})
-				if len(l) != 1 {
-					t.addWarn(arg.Left, "expected left-hand side of math expression to be a single value")
-					return
-				}
-				if len(r) != 1 {
-					t.addWarn(arg.Right, "expected right-hand side of math expression to be a single value")
-					return
-				}
+	if vals, ok := t.variables[varName.Value]; ok {
+		return vals
+	}
 
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
-				if newValue == nil {
-					return
-				}
+	// The first argument is the value, the second is a comma.
+	if len(v.Arguments) > 2 {
+		return t.transformValues(v.Arguments[2:])
+	}
 
-				newValues = []ast.Value{newValue}
-			}()
+	t.addWarn(v, "use of undefined variable without fallback: %s", varName.Value)
+	return []ast.Value{v}
+}
 
-			rv = append(rv, newValues...)
+// reduceCalc returns the value of a calc() with transformed arguments, or nil if
+// it cannot be reduced.
+func (t *transformer) reduceCalc(v *ast.Function) ast.Value {
+	if len(v.Arguments) != 1 {
+		t.addWarn(v, "expected single argument for calc()")
+		return nil
+	}
 
-		default:
-			rv = append(rv, v)
-		}
+	arg, ok := v.Arguments[0].(*ast.MathExpression)
+	if !ok {
+		return nil
 	}
 
-	return rv
+	return t.evaluateMathExpression(arg.Left, arg.Right, arg.Operator)
 }
 
 func (t *transformer) doMath(left, right, op string) (float64, error) {
-- 
2.43.0


From fc4566935819e222becf8a6ff14e015f464ac3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 36/42] fix: leave math that cannot be reduced without
 reporting an error

Valid expressions such as calc(1px + 2rem + 3px) were reported.
---
 internal/transformer/transformer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index d6891f0..27a498c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -653,7 +653,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
+			// Valid css, but we cannot reduce (e.g. 2px + 3rem + 1px).
 			return nil
 		}
 
@@ -689,7 +689,11 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 	case "/":
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
-		if !rightIsDimension || rightAsDimension.Unit != "" {
+		if !rightIsDimension {
+			return nil
+		}
+
+		if rightAsDimension.Unit != "" {
 			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
@@ -710,7 +714,6 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			// case *ast.MathExpression
 
 		default:
-			t.addError(l, "cannot perform %s on this type", op)
 			return nil
 		}
 
-- 
2.43.0


From 3fe4f71360642a6c90e97270d86589ffe0eb285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 37/42] fix: lower ranges and expand custom media inside custom
 media

A definition was inserted as it was written.
---
 internal/transformer/transformer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 27a498c..55e2686 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -244,7 +244,9 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 						return
 					}
 
-					t.customMedia[name.Value] = query
+					expanded := *query
+					expanded.Parts = t.transformMediaQueryParts(query.Parts)
+					t.customMedia[name.Value] = &expanded
 				}()
 
 			default:
-- 
2.43.0


From e002e8960c995ba315605a64d267d62bcd4a3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 38/42] fix: do not print infinity as the result of calc()

---
 internal/transformer/transformer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 55e2686..5446232 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -2,6 +2,7 @@ package transformer
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -577,21 +578,28 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not parse dimension value: %s", right)
 	}
+
+	var result float64
 	switch op {
 	case "+":
-		return leftValue + rightValue, nil
+		result = leftValue + rightValue
 	case "-":
-		return leftValue - rightValue, nil
+		result = leftValue - rightValue
 	case "*":
-		return leftValue * rightValue, nil
+		result = leftValue * rightValue
 	case "/":
 		if rightValue == 0 {
 			return 0, fmt.Errorf("cannot divide by zero")
 		}
-		return leftValue / rightValue, nil
+		result = leftValue / rightValue
 	default:
 		return 0, fmt.Errorf("unknown op: %s", op)
 	}
+
+	if math.IsInf(result, 0) {
+		return 0, fmt.Errorf("result of %s %s %s is out of range", left, op, right)
+	}
+	return result, nil
 }
 
 // evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
-- 
2.43.0


From d8aa4ffb0e465cb7073832393719c4bf854c8946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 39/42] fix: report math errors at the expression

An operand can come from a variable of another file, or from reducing
another expression, and then has no position in this one.
---
 internal/transformer/transformer.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 5446232..34b266e 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -565,7 +565,7 @@ func (t *transformer) reduceCalc(v *ast.Function) ast.Value {
 		return nil
 	}
 
-	return t.evaluateMathExpression(arg.Left, arg.Right, arg.Operator)
+	return t.evaluateMathExpression(arg, arg.Left, arg.Right, arg.Operator)
 }
 
 func (t *transformer) doMath(left, right, op string) (float64, error) {
@@ -605,15 +605,18 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 // evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
 // instead. For sum to succeed, both l and r must be of the same type.
 // See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
-func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
+//
+// Errors are reported at loc, because the operands may have been computed or substituted
+// from somewhere else.
+func (t *transformer) evaluateMathExpression(loc ast.Node, l, r ast.Value, op string) ast.Value {
 	if expr, ok := l.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
+		if evaluated := t.evaluateMathExpression(expr, expr.Left, expr.Right, expr.Operator); evaluated != nil {
 			l = evaluated
 		}
 	}
 
 	if expr, ok := r.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
+		if evaluated := t.evaluateMathExpression(expr, expr.Left, expr.Right, expr.Operator); evaluated != nil {
 			r = evaluated
 		}
 	}
@@ -630,12 +633,12 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			if left.Unit != right.Unit {
 				if left.Unit == "" && right.Unit != "" {
 					// Invalid, because we cannot mix number types and lengths, e.g. (2 + 5rem).
-					t.addError(left, "cannot add number type and %s type together", right.Unit)
+					t.addError(loc, "cannot add number type and %s type together", right.Unit)
 				}
 
 				if left.Unit != "" && right.Unit == "" {
 					// Invalid, because we cannot mix number types and lengths, e.g. (5rem + 2).
-					t.addError(left, "cannot add number type and %s type together", left.Unit)
+					t.addError(loc, "cannot add number type and %s type together", left.Unit)
 				}
 
 				// Valid css, but we cannot reduce (e.g. 2px + 3rem).
@@ -644,7 +647,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 			newValue, err := t.doMath(left.Value, right.Value, op)
 			if err != nil {
-				t.addError(l, err.Error())
+				t.addError(loc, err.Error())
 				return nil
 			}
 
@@ -675,7 +678,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 		if leftAsDimension.Unit != "" && rightAsDimension.Unit != "" {
-			t.addError(l, "one side of multiplication must be a number (non-percentage/dimension)")
+			t.addError(loc, "one side of multiplication must be a number (non-percentage/dimension)")
 			return nil
 		}
 
@@ -688,7 +691,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 		newValue, err := t.doMath(maybeWithUnit.Value, number.Value, op)
 		if err != nil {
-			t.addError(l, err.Error())
+			t.addError(loc, err.Error())
 			return nil
 		}
 
@@ -704,7 +707,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 		if rightAsDimension.Unit != "" {
-			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
+			t.addError(loc, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
 
@@ -712,7 +715,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		case *ast.Dimension:
 			newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
 			if err != nil {
-				t.addError(l, err.Error())
+				t.addError(loc, err.Error())
 				return nil
 			}
 
@@ -728,7 +731,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 	default:
-		t.addError(l, "unknown op: %s", op)
+		t.addError(loc, "unknown op: %s", op)
 		return nil
 	}
 }
-- 
2.43.0


From 7b5606448289242af9d337f862aab56f1f9e023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 40/42] fix: inline imports of imports, and end at import
 cycles

A stylesheet that is inlined may have imports itself, which were looked up
but not guarded against cycles, and errors in it were reported with the
source of the importing file.
---
 internal/transformer/transformer.go | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 34b266e..2e8330d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -28,6 +28,10 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the set of sources of the stylesheets in ImportReplacements. It is used
+	// to report error locations.
+	ImportSources map[*ast.Stylesheet]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -35,7 +39,8 @@ type Options struct {
 // inlined into other ASTs as well.
 func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	t := &transformer{
-		Options: opts,
+		Options:  opts,
+		inlining: map[*ast.Stylesheet]struct{}{s: {}},
 	}
 
 	if opts.Reporter == nil {
@@ -67,6 +72,10 @@ type transformer struct {
 
 	variables   map[string][]ast.Value
 	customMedia map[string]*ast.MediaQuery
+
+	// inlining is the set of stylesheets that are being transformed, i.e. the input and
+	// the imports that lead to the current one.
+	inlining map[*ast.Stylesheet]struct{}
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
@@ -223,7 +232,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
-				rv = append(rv, t.transformNodes(imported.Nodes)...)
+				rv = append(rv, t.transformImport(imported)...)
 
 			case "custom-media":
 				func() {
@@ -261,6 +270,23 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	return rv
 }
 
+// transformImport returns the nodes of an imported stylesheet.
+func (t *transformer) transformImport(imported *ast.Stylesheet) []ast.Node {
+	if _, ok := t.inlining[imported]; ok {
+		// The stylesheet imports itself. It is already there.
+		return nil
+	}
+	t.inlining[imported] = struct{}{}
+	defer delete(t.inlining, imported)
+
+	if source, ok := t.ImportSources[imported]; ok {
+		defer func(previous *sources.Source) { t.OriginalSource = previous }(t.OriginalSource)
+		t.OriginalSource = source
+	}
+
+	return t.transformNodes(imported.Nodes)
+}
+
 // transformQualifiedRule returns nil if nothing is left of the rule.
 func (t *transformer) transformQualifiedRule(node *ast.QualifiedRule) *ast.QualifiedRule {
 	rule := *node
-- 
2.43.0


From c5d9ce7abe909896efb130efd8177b7a36902760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 41/42] fix: synchronize the errors that transforms report

Files are transformed concurrently, and their errors went to the reporter
without the lock that the other errors are reported under.
---
 api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 7459b55..9d3288d 100644
--- a/api.go
+++ b/api.go
@@ -139,6 +139,14 @@ func (c *compilation) addError(err error) {
 	c.reporter.AddError(err)
 }
 
+// reporterFunc is an adapter to pass a function as a Reporter.
+type reporterFunc func(error)
+
+// AddError implements Reporter.
+func (f reporterFunc) AddError(err error) {
+	f(err)
+}
+
 // parseFile assigns the file a source index and parses the source. It also
 // looks at imported files and adds them to the compilation. hasOutput should
 // be called if the file should be included in compilation output.
@@ -205,7 +213,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
 		OriginalSource: source,
-		Reporter:       c.reporter,
+		Reporter:       reporterFunc(c.addError),
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-- 
2.43.0


From 6bab7733c3f5ae9c2d76f8841273954203928ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 42/42] fix: parse each file once and transform after all files
 are parsed

Files were looked up and added without holding a lock in between, so that a
file imported twice at once was parsed twice, imports in a cycle were
followed forever, and stylesheets were transformed before the files that
inline them could use their variables and media queries.
---
 api.go | 167 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 87 insertions(+), 80 deletions(-)

diff --git a/api.go b/api.go
index 9d3288d..094418c 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,7 @@ func newCompilation(opts Options) *compilation {
 		sourcesByIndex: make(map[int]*sources.Source),
 		outputsByIndex: make(map[int]struct{}),
 		astsByIndex:    make(map[int]*ast.Stylesheet),
+		imports:        make(map[*ast.AtRule]int),
 		result:         newResult(),
 		reporter:       logging.DefaultReporter,
 		transforms:     opts.Transforms,
@@ -60,19 +61,24 @@ type compilation struct {
 	// mu synchronizes other globals like the error reporter.
 	mu sync.Mutex
 
-	// sourcesMu synchronizes assignment for new source indices.
-	sourcesMu sync.RWMutex
+	// sourcesMu synchronizes assignment for new source indices and outputs.
+	sourcesMu sync.Mutex
 	sources   map[string]int
 	nextIndex int
 
+	// outputsByIndex is the set of sources to write outputs for.
+	outputsByIndex map[int]struct{}
+
 	sourcesByIndexMu sync.RWMutex
 	sourcesByIndex   map[int]*sources.Source
 
 	astsByIndexMu sync.RWMutex
 	astsByIndex   map[int]*ast.Stylesheet
 
-	// outputsByIndex is the set of sources to write outputs for.
-	outputsByIndex map[int]struct{}
+	// importsMu synchronizes imports, which is the index of the source that each
+	// import refers to.
+	importsMu sync.Mutex
+	imports   map[*ast.AtRule]int
 
 	result *Result
 
@@ -83,42 +89,24 @@ type compilation struct {
 	resolver Resolver
 }
 
-// addSource will read in a path and assign it a source index. If
-// it's already been loaded, the cached source is returned.
-func (c *compilation) addSource(path string) (int, error) {
-	abs, err := filepath.Abs(path)
-	if err != nil {
-		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
-	}
-
-	c.sourcesMu.RLock()
-	if _, ok := c.sources[abs]; ok {
-		defer c.sourcesMu.RUnlock()
-		return c.sources[abs], nil
-	}
-	c.sourcesMu.RUnlock()
+// addSource assigns a path a source index. isNew is set for the one caller
+// that is the first to add the path, which should read and parse the file.
+func (c *compilation) addSource(abs string, hasOutput bool) (idx int, isNew bool) {
+	c.sourcesMu.Lock()
+	defer c.sourcesMu.Unlock()
 
-	in, err := ioutil.ReadFile(abs)
-	if err != nil {
-		return 0, oops.Wrapf(err, "failed to read file: %s", path)
+	idx, ok := c.sources[abs]
+	if !ok {
+		idx = c.nextIndex
+		c.sources[abs] = idx
+		c.nextIndex++
 	}
 
-	source := &sources.Source{
-		Content: string(in),
-		Path:    abs,
+	if hasOutput {
+		c.outputsByIndex[idx] = struct{}{}
 	}
 
-	c.sourcesMu.Lock()
-	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
-
-	c.sourcesByIndexMu.Lock()
-	c.sourcesByIndex[i] = source
-	c.sourcesByIndexMu.Unlock()
-
-	c.nextIndex++
-	return i, nil
+	return idx, !ok
 }
 
 func newResult() *Result {
@@ -147,46 +135,50 @@ func (f reporterFunc) AddError(err error) {
 	f(err)
 }
 
-// parseFile assigns the file a source index and parses the source. It also
-// looks at imported files and adds them to the compilation. hasOutput should
-// be called if the file should be included in compilation output.
+// parseFile assigns the file a source index and parses the source, unless that was
+// started already. It also looks at imported files and adds them to the compilation.
+// hasOutput should be set if the file should be included in compilation output.
 //
-// parseFile also runs the last transformation pass on the output. Note that we
-// don't make this function print the output as well so that we can make the current
-// file available to any callers as a dependency.
-func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
-	// Assign the file a source index.
-	idx, err := c.addSource(file)
+// Files are only transformed after all of them are parsed, so that every file
+// is available to the files that import it.
+func (c *compilation) parseFile(file string, hasOutput bool) (idx int, ok bool) {
+	abs, err := filepath.Abs(file)
 	if err != nil {
-		c.addError(err)
-		return nil
+		c.addError(oops.Wrapf(err, "failed to make path absolute: %s", file))
+		return 0, false
 	}
 
-	if hasOutput {
-		c.outputsByIndex[idx] = struct{}{}
+	// Assign the file a source index.
+	idx, isNew := c.addSource(abs, hasOutput)
+	if !isNew {
+		return idx, true
+	}
+
+	in, err := ioutil.ReadFile(abs)
+	if err != nil {
+		c.addError(oops.Wrapf(err, "failed to read file: %s", file))
+		return idx, true
 	}
 
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
-		return ss
+	source := &sources.Source{
+		Content: string(in),
+		Path:    abs,
 	}
-	c.astsByIndexMu.RUnlock()
+	c.sourcesByIndexMu.Lock()
+	c.sourcesByIndex[idx] = source
+	c.sourcesByIndexMu.Unlock()
 
-	c.sourcesByIndexMu.RLock()
-	source := c.sourcesByIndex[idx]
-	c.sourcesByIndexMu.RUnlock()
 	ss, err := parser.Parse(source)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return idx, true
 	}
+	c.astsByIndexMu.Lock()
+	c.astsByIndex[idx] = ss
+	c.astsByIndexMu.Unlock()
 
 	// Immediately look at the imports from the file and feed those dependencies
-	// into parseFile as well. If we're set to inline imports, then we'll use
-	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
+	// into parseFile as well.
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
 		imp := imp
@@ -198,33 +190,34 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 			}
 
 			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
-
-			mu.Lock()
-			defer mu.Unlock()
-			if imported != nil {
-				replacements[imp.AtRule] = imported
+			imported, ok := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
+			if !ok {
+				return nil
 			}
+
+			c.importsMu.Lock()
+			defer c.importsMu.Unlock()
+			c.imports[imp.AtRule] = imported
 			return nil
 		})
 	}
 	wg.Wait()
 
-	opts := transformer.Options{
-		Options:        c.transforms,
-		OriginalSource: source,
-		Reporter:       reporterFunc(c.addError),
-	}
+	return idx, true
+}
 
-	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
+// importReplacements collects the ASTs of imported files to let the transformer
+// replace imports with them. It should be called after all files are parsed.
+func (c *compilation) importReplacements() (map[*ast.AtRule]*ast.Stylesheet, map[*ast.Stylesheet]*sources.Source) {
+	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
+	importSources := make(map[*ast.Stylesheet]*sources.Source)
+	for rule, idx := range c.imports {
+		if ss, ok := c.astsByIndex[idx]; ok {
+			replacements[rule] = ss
+			importSources[ss] = c.sourcesByIndex[idx]
+		}
 	}
-
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	return replacements, importSources
 }
 
 // Compile runs a compilation with the specified Options.
@@ -242,6 +235,12 @@ func Compile(opts Options) *Result {
 	}
 	wg.Wait()
 
+	var replacements map[*ast.AtRule]*ast.Stylesheet
+	var importSources map[*ast.Stylesheet]*sources.Source
+	if c.transforms.ImportRules == transforms.ImportRulesInline {
+		replacements, importSources = c.importReplacements()
+	}
+
 	wg = errgroup.Group{}
 	for i := range c.outputsByIndex {
 		idx := i
@@ -255,6 +254,14 @@ func Compile(opts Options) *Result {
 				return nil
 			}
 
+			ast = transformer.Transform(ast, transformer.Options{
+				Options:            c.transforms,
+				OriginalSource:     source,
+				Reporter:           reporterFunc(c.addError),
+				ImportReplacements: replacements,
+				ImportSources:      importSources,
+			})
+
 			out, err := printer.Print(ast, printer.Options{
 				OriginalSource: source,
 			})
-- 
2.43.0

