From ad47755dc3899daffc6ac1cd3ecddbc6b9f916ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 01/43] fix: resolve map keys by exact name, without crashing
 on non-enum types

A map keyed by a struct, or by an alias declared later in the file, made the
parser dereference a nil pointer, and an enum key was looked up ignoring case
although every other type reference is case sensitive.
---
 schema/ridl/ridl.go |  1 +
 schema/var_type.go  | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..57abf41 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -205,6 +205,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 		s.Types = append(s.Types, &schema.Type{
 			Kind:     schemaTypeKindAlias,
 			Name:     line.Name().String(),
+			Type:     &schema.VarType{Expr: line.TypeName().String()}, // resolved later
 			Comments: parseComment(line.Comments()),
 		})
 	}
diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..30b3c45 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -138,8 +138,8 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 				Value: &VarType{},
 			}
 		} else {
-			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			t, _ := getType(schema, key)
+			if !isEnumOrEnumAlias(schema, t) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
@@ -264,6 +264,25 @@ func getType(schema *WebRPCSchema, structExpr string) (*Type, bool) {
 	return nil, false
 }
 
+// isEnumOrEnumAlias returns true if the given type is an enum, or an alias of one.
+// It doesn't depend on whether the alias has already been resolved.
+func isEnumOrEnumAlias(schema *WebRPCSchema, t *Type) bool {
+	if t == nil {
+		return false
+	}
+	if t.Kind != TypeKind_Alias {
+		return t.Kind == TypeKind_Enum
+	}
+	if t.Type == nil {
+		return false
+	}
+	if t.Type.Type == T_Enum {
+		return true
+	}
+	target, ok := getType(schema, t.Type.Expr)
+	return ok && target.Kind == TypeKind_Enum
+}
+
 var VarKeyCoreTypes = []CoreType{
 	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,
 }
-- 
2.43.0


From f210df24e40488813870f6b39030c4c159cc64fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 02/43] fix: reject list and map types with an empty element
 type

"[]" and "map<string,>" were accepted with an unknown element type.
---
 schema/var_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 30b3c45..a32943b 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -90,7 +90,7 @@ type VarAliasType struct {
 
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 	if expr == "" {
-		return nil
+		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	vt.Expr = expr
 
-- 
2.43.0


From 8cacb9b0d718027ceccd74768f9f0421359300a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 03/43] fix: import a service once when several imports lead to
 it

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 57abf41..8c27d2d 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From 8e816219c5e6e41c5c39bcea36b6177f653c7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/43] fix: tree shaking of recursive and aliased types

MethodTreeShake overflowed the stack on recursive structs and removed aliases
(and the types behind them) although methods used them.
---
 schema/schema.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..448075f 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -204,6 +204,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
+			if mark[t.Name] {
+				return // already walked, the type may be recursive
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
@@ -213,6 +216,18 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 			}
 		}
 
+		// Alias type: mark and traverse its target
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			t := vt.Alias.Type
+			if mark[t.Name] {
+				return // already walked, the alias may be recursive
+			}
+			if t.Name != "" {
+				mark[t.Name] = true
+			}
+			walkVarType(t.Type, mark)
+		}
+
 		// Enum type: mark usage
 		if vt.Enum != nil && vt.Enum.Type != nil {
 			t := vt.Enum.Type
-- 
2.43.0


From 9779420301f0d61fcac17016bd706d8c7e23e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 05/43] fix: keep non-ASCII characters of literal values intact

Literals were rebuilt byte by byte, which turned every non-ASCII character into
several wrong ones.
---
 schema/ridl/parser_util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..b1285ba 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -31,16 +31,17 @@ func expectNumber(tok *token, value string) error {
 }
 
 func unescapeString(in string) (string, error) {
-	size := len(in)
+	runes := []rune(in)
+	size := len(runes)
 	out := ""
 
 	for i := 0; i < size; i++ {
-		c := in[i]
+		c := runes[i]
 
 		if c == '\\' {
 			i++
 			if i < size {
-				switch n := in[i]; n {
+				switch n := runes[i]; n {
 				case 'n':
 					out = out + "\n"
 				case 't':
-- 
2.43.0


From d2fe6ba4d55339fc4d204ad08f4b49bb5c73a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 06/43] fix: reject error codes which are out of range

They were silently replaced by the largest 32-bit number.
---
 schema/ridl/ridl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 8c27d2d..8914660 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -305,7 +305,10 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("error %q: invalid code %q: %w", line.name, line.code, err)
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
-- 
2.43.0


From 1d006155ed420123519c5c1a589e12e8630ab959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 07/43] fix: don't take a NUL character for the end of the file

Everything after it was silently ignored.
---
 schema/ridl/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..f3a6f5b 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -328,7 +328,7 @@ func lexDefaultState(lx *lexer) lexState {
 	r := lx.peek()
 
 	switch {
-	case isEmpty(r):
+	case isEmpty(r) && lx.pos >= lx.length:
 		return nil
 
 	case isQuote(r):
-- 
2.43.0


From 653618c7287daa645466809173f4344c70813afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 08/43] fix: reject a stray word after a method definition

Any word in place of 'errors' was silently dropped.
---
 schema/ridl/service_parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..9f053c8 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -106,7 +106,11 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 
 		// Check for optional errors clause
 		matches, err = p.match(tokenWhitespace, tokenWord)
-		if err == nil && matches[1].val == wordErrors {
+		if err == nil {
+			if matches[1].val != wordErrors {
+				return p.stateError(errUnexpectedToken)
+			}
+
 			// Parse bar-separated list of error names
 			errorNames, err := p.expectErrorList()
 			if err != nil {
-- 
2.43.0


From 8bfaa5ca5cf8287ed5f79b89d047ca2698be69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 09/43] fix: find bigints behind mutually recursive structs

A negative answer computed in the middle of a cycle was remembered as final, so
fields leading to a bigint through the cycle were missing from the result.
---
 schema/helpers.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..c84b6cf 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -108,24 +108,23 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 // the names Args and Return for suffixes instead of Request and Resposne suffixes for implicit method types.
 func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
 	out := make(map[string][]any)
-	// cache for recursive detection to avoid cycles
-	visited := make(map[string]bool)
+	// cache of structs known to have a bigint; a negative answer found while
+	// inside of a cycle may be incomplete, so those are not cached
 	memo := make(map[string]bool)
 
-	var structHasBigIntRecursive func(t *Type) bool
-	structHasBigIntRecursive = func(t *Type) bool {
+	var searchStruct func(t *Type, visited map[string]bool) bool
+	searchStruct = func(t *Type, visited map[string]bool) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
 		name := t.Name
-		if v, ok := memo[name]; ok {
-			return v
+		if memo[name] {
+			return true
 		}
 		if visited[name] { // cycle guard
 			return false
 		}
 		visited[name] = true
-		defer func() { visited[name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -142,19 +141,21 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 				return true
 			}
 			// nested struct (struct types are parsed as T_Struct)
-			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
+			if f.Type.Type == T_Struct && f.Type.Struct != nil && searchStruct(f.Type.Struct.Type, visited) {
 				memo[name] = true
 				return true
 			}
 			// list of nested struct
-			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
+			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && searchStruct(f.Type.List.Elem.Struct.Type, visited) {
 				memo[name] = true
 				return true
 			}
 		}
-		memo[name] = false
 		return false
 	}
+	structHasBigIntRecursive := func(t *Type) bool {
+		return searchStruct(t, make(map[string]bool))
+	}
 
 	// helper to collect bigint-related fields for a given struct type
 	collectStruct := func(t *Type) []any {
-- 
2.43.0


From 43a841e073bdae5b1c2f22eca9f8af568b892881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 10/43] fix: don't take a hash inside of a quoted string for a
 comment

The rest of the string became a doc comment of a following definition.
---
 schema/ridl/tokenizer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..bbc85fd 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -16,14 +16,30 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 
 	parsingComment := false
 	commentTokens := []string{}
+	insideString := false
+	escaped := false
 
 	for tok := range lx.tokens {
 		if tok.tt == tokenEOF {
 			break
 		}
 
+		// a hash inside of a quoted string doesn't start a comment
+		if !parsingComment {
+			switch {
+			case tok.tt == tokenNewLine:
+				insideString, escaped = false, false
+			case escaped:
+				escaped = false
+			case tok.tt == tokenBackslash:
+				escaped = insideString
+			case tok.tt == tokenQuote:
+				insideString = !insideString
+			}
+		}
+
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash {
+		if tok.tt == tokenHash && !insideString {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From c1c749a4e0ddfd2e1274ed974f85bb198c350caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 11/43] fix: keep the comment on a last line without a line
 ending

---
 schema/ridl/tokenizer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index bbc85fd..ac70383 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -16,6 +16,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 
 	parsingComment := false
 	commentTokens := []string{}
+	commentLine := 0
 	insideString := false
 	escaped := false
 
@@ -41,6 +42,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		// start parsing comment tokens until new line
 		if tok.tt == tokenHash && !insideString {
 			parsingComment = true
+			commentLine = tok.line
 			tokens = append(tokens, tok)
 			continue
 		}
@@ -58,6 +60,11 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		tokens = append(tokens, tok)
 	}
 
+	// comment on the last line, without a new line at the end of the file
+	if parsingComment {
+		lineComments[commentLine] = strings.Join(commentTokens, " ")
+	}
+
 	return tokens, lineComments, nil
 }
 
-- 
2.43.0


From b69b770556162bb39a6e5862d9e99d99e645fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 12/43] fix: keep a hash inside of a comment

The hash was dropped and the word after it glued to the one before it:
"see #12" became "see12".
---
 schema/ridl/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index ac70383..0a5dff1 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -40,7 +40,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		}
 
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash && !insideString {
+		if tok.tt == tokenHash && !insideString && len(commentTokens) == 0 {
 			parsingComment = true
 			commentLine = tok.line
 			tokens = append(tokens, tok)
-- 
2.43.0


From cd38e0afd4152023d5275e4f6525cafaf73951d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 13/43] fix: accept an escaped quote right after a word

The backslash is a part of the word there, so the quote after it ended the
string: "say \"hi\"" was rejected.
---
 schema/ridl/parser.go      | 21 +++++++++------------
 schema/ridl/parser_util.go | 11 +++++++++++
 schema/ridl/tokenizer.go   |  8 +++-----
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..5871f8b 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -196,33 +196,30 @@ func (p *parser) expectStringValue() (*token, error) {
 	}
 
 	tokens := []*token{}
+	escaped := false
 
 loop:
 	for {
 		tok := p.cursor()
 		p.next()
 
-		switch tok.tt {
-
-		case tokenNewLine:
-			return nil, errUnexpectedEOL
+		switch {
 
-		case tokenEOF:
+		case tok.tt == tokenEOF:
 			return nil, errUnexpectedEOF
 
-		case tokenBackslash:
-			// push backlash
-			tokens = append(tokens, tok)
+		case escaped:
+			// push whatever comes after the backslash
 
-			// push whatever else comes next
-			tok = p.cursor()
-			p.next()
+		case tok.tt == tokenNewLine:
+			return nil, errUnexpectedEOL
 
-		case tokenQuote:
+		case tok.tt == tokenQuote:
 			// end of string
 			break loop
 		}
 
+		escaped = escapesNext(tok, escaped)
 		tokens = append(tokens, tok)
 	}
 
diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index b1285ba..a114055 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -3,6 +3,7 @@ package ridl
 import (
 	"errors"
 	"fmt"
+	"strings"
 )
 
 func expectWord(tok *token, value string) error {
@@ -30,6 +31,16 @@ func expectNumber(tok *token, value string) error {
 	return nil
 }
 
+// escapesNext tells if a token of a quoted string ends with a backslash, which
+// escapes the token after it. A word may have a backslash as its last character.
+func escapesNext(tok *token, escaped bool) bool {
+	if tok.tt == tokenBackslash {
+		return !escaped
+	}
+	trimmed := strings.TrimRight(tok.val, "\\")
+	return (len(tok.val)-len(trimmed))%2 == 1
+}
+
 func unescapeString(in string) (string, error) {
 	runes := []rune(in)
 	size := len(runes)
diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 0a5dff1..637117f 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -30,12 +30,10 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			switch {
 			case tok.tt == tokenNewLine:
 				insideString, escaped = false, false
-			case escaped:
-				escaped = false
-			case tok.tt == tokenBackslash:
-				escaped = insideString
-			case tok.tt == tokenQuote:
+			case tok.tt == tokenQuote && !escaped:
 				insideString = !insideString
+			case insideString:
+				escaped = escapesNext(&tok, escaped)
 			}
 		}
 
-- 
2.43.0


From 42cbfeee8e431985324cafc35c1f50ea44d4226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 14/43] fix: reject JSON schemas with null or missing parts
 instead of crashing

A null document, a null entry in a list of definitions, and a field or argument
without a type made ParseSchemaJSON panic.
---
 schema/schema.go   | 52 ++++++++++++++++++++++++++++++++++++++++++++++
 schema/var_type.go |  2 +-
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/schema/schema.go b/schema/schema.go
index 448075f..cc69dad 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -29,6 +29,10 @@ type WebRPCSchema struct {
 // Validate validates the schema through the AST, intended to be called after
 // the json has been unmarshalled
 func (s *WebRPCSchema) Validate() error {
+	if s == nil {
+		return fmt.Errorf("schema error: schema cannot be null")
+	}
+
 	if s.WebrpcVersion != SCHEMA_VERSION {
 		return fmt.Errorf("webrpc schema version, '%s' is invalid, try '%s'", s.WebrpcVersion, SCHEMA_VERSION)
 	}
@@ -66,6 +70,10 @@ func (s *WebRPCSchema) Validate() error {
 		}
 	}
 
+	if err := s.checkNoNulls(); err != nil {
+		return err
+	}
+
 	for i := range s.Types {
 		err := s.Types[i].Parse(s)
 		if err != nil {
@@ -90,6 +98,50 @@ func (s *WebRPCSchema) Validate() error {
 	return nil
 }
 
+// checkNoNulls ensures that a schema unmarshalled from json has no null entries
+// in its lists of definitions.
+func (s *WebRPCSchema) checkNoNulls() error {
+	for _, typ := range s.Types {
+		if typ == nil {
+			return fmt.Errorf("schema error: type cannot be null")
+		}
+		for _, field := range typ.Fields {
+			if field == nil {
+				return fmt.Errorf("schema error: field cannot be null in type '%s'", typ.Name)
+			}
+		}
+	}
+
+	for _, e := range s.Errors {
+		if e == nil {
+			return fmt.Errorf("schema error: error cannot be null")
+		}
+	}
+
+	for _, svc := range s.Services {
+		if svc == nil {
+			return fmt.Errorf("schema error: service cannot be null")
+		}
+		for _, method := range svc.Methods {
+			if method == nil {
+				return fmt.Errorf("schema error: method cannot be null in service '%s'", svc.Name)
+			}
+			for name, annotation := range method.Annotations {
+				if annotation == nil {
+					return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, method.Name, svc.Name)
+				}
+			}
+			for _, arg := range append(append([]*MethodArgument{}, method.Inputs...), method.Outputs...) {
+				if arg == nil {
+					return fmt.Errorf("schema error: argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func (s *WebRPCSchema) SchemaHash() (string, error) {
 	// TODO: lets later make this even more deterministic in face of re-ordering
 	// definitions within the ridl file
diff --git a/schema/var_type.go b/schema/var_type.go
index a32943b..d0fc647 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -53,7 +53,7 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-	if t.Expr == "" {
+	if t == nil || t.Expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	err := ParseVarTypeExpr(schema, t.Expr, t)
-- 
2.43.0


From 874ed95ab1af565da74917c2053edf9573a9747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 15/43] fix: read and write types as proper JSON strings

Escapes in a JSON string ("map\\u003cstring,User\\u003e", as written by most JSON
encoders) were taken literally, and type names with unusual characters were
written with Go escapes, which aren't valid JSON.
---
 schema/var_type.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index d0fc647..3825d7c 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -1,6 +1,8 @@
 package schema
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -25,27 +27,24 @@ func (t *VarType) String() string {
 }
 
 func (t *VarType) MarshalJSON() ([]byte, error) {
-	return []byte(fmt.Sprintf("%q", t)), nil
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false) // keep map<k,v> readable
+	if err := enc.Encode(t.String()); err != nil {
+		return nil, err
+	}
+	return bytes.TrimSpace(buf.Bytes()), nil
 }
 
 func (t *VarType) UnmarshalJSON(b []byte) error {
-	if len(b) <= 2 {
-		return fmt.Errorf("json error: type cannot be empty")
-	}
-	s := string(b) // string value will be wrapped in quotes
-
-	// validate its a string value
-	if s[0:1] != "\"" {
+	var s string
+	if err := json.Unmarshal(b, &s); err != nil {
 		return fmt.Errorf("json error: string value is expected")
 	}
-	if s[len(s)-1:] != "\"" {
-		return fmt.Errorf("json error: string value is expected")
+	if s == "" {
+		return fmt.Errorf("json error: type cannot be empty")
 	}
 
-	// trim string quotes from the json string
-	s = s[1:]
-	s = s[:len(s)-1]
-
 	// set the expr from value
 	t.Expr = s
 
-- 
2.43.0


From c7ca135f4f571e9e651519967513d9c1f22dcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 16/43] fix: resolve and validate the types of aliases and
 enums in JSON schemas

They were left unresolved, unlike in a RIDL schema, and an alias of an unknown
type was accepted.
---
 schema/type.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/type.go b/schema/type.go
index 9c01264..b0b8632 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -67,7 +67,7 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
@@ -142,6 +142,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if !isValidVarType(fieldType.String(), validCoreTypes) {
 			return fmt.Errorf("schema error: enum '%s' field '%s' is invalid. must be an integer type", t.Name, fieldType.String())
 		}
+		if err := fieldType.Parse(schema); err != nil {
+			return err
+		}
 	}
 
 	// For structs only
-- 
2.43.0


From 216f2b23c673d8bbb37f2afbcd9e478440ebe3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 17/43] fix: check the whole first character of a name for
 upper case

Only its first byte was checked, so names starting with any accented or other
lower-case letter of certain alphabets passed.
---
 schema/type.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index b0b8632..238b1d5 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -182,8 +183,6 @@ func startsWithUpper(s string) bool {
 	if len(s) == 0 {
 		return false
 	}
-	if !unicode.IsUpper(rune(s[0])) {
-		return false
-	}
-	return true
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsUpper(r)
 }
-- 
2.43.0


From 0703c60451100db34c9c219bf191f18cbe9f6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 18/43] fix: minVersion with a higher major and a lower minor
 version

minVersion "v2.0.0" "v1.5" was false.
---
 gen/funcmap_flow.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index 1e41f20..d5cd861 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -42,15 +42,11 @@ func minVersion(version string, minVersion string) bool {
 		panic(fmt.Sprintf("minVersion: unexpected min version %q", minVersion))
 	}
 
-	if minMajor > major {
-		return false
-	}
-
-	if minMinor > minor {
-		return false
+	if major != minMajor {
+		return major > minMajor
 	}
 
-	return true
+	return minor >= minMinor
 }
 
 func parseMajorMinorVersion(version string) (major int, minor int, err error) {
-- 
2.43.0


From eaa35bb8b514885415419a5146853c31ae454c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 19/43] fix: print the target's help when rendering it succeeds

The condition was inverted.
---
 cmd/webrpc-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..ce9889e 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -267,7 +267,7 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 		if *targetFlag != "" {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
-			if err != nil {
+			if err == nil {
 				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
-- 
2.43.0


From 35c9cce076683693ef87d982ada640d3697d9476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 20/43] fix: empty the template cache before refreshing it

The directory was never removed (os.IsExist is false for a nil error), so
templates deleted upstream stayed in use, and a refresh failing halfway left a
mixture of two versions behind a valid timestamp.
---
 gen/template_source.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..c0edf3b 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -142,13 +142,6 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 }
 
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
-	}
-
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
 		return err
@@ -158,6 +151,15 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("no template files were found in target %s", target)
 	}
 
+	// create empty cache directory; the timestamp goes first (and is written last),
+	// as a cache without one is never used, so we don't leave a usable partial
+	// cache behind if we fail halfway
+	if err := os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := os.RemoveAll(cacheDir); err != nil {
+		return err
+	}
 	if err := os.MkdirAll(cacheDir, 0755); err != nil {
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
-- 
2.43.0


From a684c39dcc016228bd2b91ce7474f3db62dac771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 21/43] fix: don't glue words inside of a map type together

"map<string,Foo Bar>" was read as "map<string,FooBar>".
---
 schema/ridl/type_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..9ec5ea1 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -169,6 +169,11 @@ loop:
 			p.next()
 
 		case tokenWord, tokenOpenBracket:
+			if tokens[len(tokens)-1].tt == tokenComposed {
+				// two types without a separator
+				return nil, errUnexpectedToken
+			}
+
 			tok, err := p.expectType()
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 6cd314a25630b83e3ea061da9feb9c1ae177084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 22/43] fix: keep comments beside metadata, errors, imports and
 annotated methods off the next definition

---
 schema/ridl/error_parser.go      |  2 ++
 schema/ridl/import_parser.go     |  9 ++++++---
 schema/ridl/parser_node.go       |  6 ++++--
 schema/ridl/service_parser.go    | 21 +++++++++++++++------
 schema/ridl/struct_parser.go     |  3 ++-
 schema/ridl/type_alias_parser.go |  3 ++-
 6 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/schema/ridl/error_parser.go b/schema/ridl/error_parser.go
index b96c782..307bf6c 100644
--- a/schema/ridl/error_parser.go
+++ b/schema/ridl/error_parser.go
@@ -23,6 +23,8 @@ func parserStateError(p *parser) parserState {
 	return parserStateErrorMessage(&ErrorNode{
 		code: newTokenNode(matches[2]),
 		name: newTokenNode(matches[4]),
+
+		comment: parseComments(p.comments, matches[0].line),
 	})
 }
 
diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 933250a..7ab3f22 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -22,6 +22,7 @@ func parserStateImportMembers(p *parser, in *ImportNode) parserState {
 		}
 
 		in.members = append(in.members, newTokenNode(member))
+		in.comments = append(in.comments, parseComments(p.comments, member.line))
 
 	case tokenHash:
 		p.continueUntilEOL()
@@ -58,8 +59,9 @@ func parserStateImportValue(p *parser) parserState {
 		}
 
 		p.emit(&ImportNode{
-			path:    newTokenNode(path),
-			members: []*TokenNode{},
+			path:     newTokenNode(path),
+			members:  []*TokenNode{},
+			comments: []string{parseComments(p.comments, path.line)},
 		})
 
 		return parserStateImportValue
@@ -101,7 +103,8 @@ func parserStateImport(p *parser) parserState {
 		}
 
 		importNode := &ImportNode{
-			path: newTokenNode(path),
+			path:     newTokenNode(path),
+			comments: []string{parseComments(p.comments, path.line)},
 		}
 
 		return parserStateImportMembers(p, importNode)
diff --git a/schema/ridl/parser_node.go b/schema/ridl/parser_node.go
index 74eb59d..913403b 100644
--- a/schema/ridl/parser_node.go
+++ b/schema/ridl/parser_node.go
@@ -217,8 +217,9 @@ func (tn TokenNode) Type() NodeType {
 type ImportNode struct {
 	node
 
-	path    *TokenNode
-	members []*TokenNode
+	path     *TokenNode
+	members  []*TokenNode
+	comments []string
 }
 
 func (in ImportNode) Members() []*TokenNode {
@@ -294,6 +295,7 @@ type ErrorNode struct {
 	name       *TokenNode
 	message    *TokenNode
 	httpStatus *TokenNode
+	comment    string
 }
 
 func (en ErrorNode) Type() NodeType {
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 9f053c8..77dc306 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -1,6 +1,9 @@
 package ridl
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 	return func(p *parser) parserState {
@@ -50,16 +53,22 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 			methodName = matches[1]
 		}
 
-		commentLine := matches[0].line
-		// we have to start parsing comments from the line of last annotation
-		if len(sn.methodAnnotations) > 0 {
-			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
+		// comments may be above or beside each line of annotations, as well as
+		// above or beside the method itself
+		comments := []string{}
+		for _, ann := range sn.methodAnnotations {
+			if comment := parseComments(p.comments, ann.AnnotationType().tok.line); comment != "" {
+				comments = append(comments, comment)
+			}
+		}
+		if comment := parseComments(p.comments, matches[0].line); comment != "" {
+			comments = append(comments, comment)
 		}
 
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: strings.Join(comments, "\n"),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..9e19cf0 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -6,7 +6,7 @@ func parserStateStructFieldMetaDefinition(mn *StructNode) parserState {
 		field := mn.fields[len(mn.fields)-1]
 
 		// + <tag.name> = value
-		_, err := p.match(tokenPlusSign, tokenWhitespace)
+		matches, err := p.match(tokenPlusSign, tokenWhitespace)
 		if err != nil {
 			return p.stateError(err)
 		}
@@ -32,6 +32,7 @@ func parserStateStructFieldMetaDefinition(mn *StructNode) parserState {
 		field.meta = append(field.meta, &DefinitionNode{
 			leftNode:  newTokenNode(left),
 			rightNode: newTokenNode(right),
+			comment:   parseComments(p.comments, matches[0].line),
 		})
 
 		return parserStateStructFieldMeta(mn)
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..1591ae7 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -3,7 +3,7 @@ package ridl
 func parserStateTypeAliasMetaDefinition(ta *TypeAliasNode) parserState {
 	return func(p *parser) parserState {
 		// + <tag.name> = value
-		_, err := p.match(tokenPlusSign, tokenWhitespace)
+		matches, err := p.match(tokenPlusSign, tokenWhitespace)
 		if err != nil {
 			return p.stateError(err)
 		}
@@ -26,6 +26,7 @@ func parserStateTypeAliasMetaDefinition(ta *TypeAliasNode) parserState {
 		ta.meta = append(ta.meta, &DefinitionNode{
 			leftNode:  newTokenNode(left),
 			rightNode: newTokenNode(right),
+			comment:   parseComments(p.comments, matches[0].line),
 		})
 
 		return parserStateTypeAliasMeta(ta)
-- 
2.43.0


From c62c9572e0b647d94b16930a3ae033f8f046f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 23/43] fix: don't skip the token after an annotation's value

---
 schema/ridl/service_parser.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 77dc306..2bc9712 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -228,10 +228,9 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 		// @acl:admin
 		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
 			annotation.value = newTokenNode(p.cursor())
-		}
-
-		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+			p.next()
+		} else if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+			// @auth:"cookies,authorization,query"
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
@@ -240,8 +239,6 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 			annotation.value = newTokenNode(annotationValue)
 		}
 
-		p.next()
-
 		annotations = append(annotations, annotation)
 	}
 
-- 
2.43.0


From bd776cd29a42a99c368c0b0c1b6f6f560b14c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 24/43] fix: don't skip the token after a succinct argument
 list

---
 schema/ridl/type_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 9ec5ea1..9442ef4 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -94,7 +94,6 @@ loop:
 					})
 
 					tokens = append(tokens, tok)
-					p.next()
 					break loop
 				}
 			}
-- 
2.43.0


From 329b340417646919d8b23372b91598f517d27412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 25/43] fix: reject a quoted string in the middle of a literal
 value

---
 schema/ridl/import_parser.go | 3 +++
 schema/ridl/parser.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 7ab3f22..9ad20a0 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -126,6 +126,9 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 5871f8b..54cb5bf 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -238,6 +238,9 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
-- 
2.43.0


From ad2e8301fd273859aa35051be4923ed1502785e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 26/43] fix: reject annotations without a method

---
 schema/ridl/service_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 2bc9712..0133a90 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -160,6 +160,9 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 			return state
 
 		default:
+			if len(s.methodAnnotations) > 0 {
+				return p.stateError(fmt.Errorf("annotation %q without a method", s.methodAnnotations[0].AnnotationType()))
+			}
 			p.emit(s)
 			return parserDefaultState
 
-- 
2.43.0


From 5355a0c120afbc17cb216a3570dfb28fc40770a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 27/43] fix: match the struct of a succinct argument by its
 exact name

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 8914660..4863ab6 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -439,7 +439,7 @@ func buildArgumentsList(s *schema.WebRPCSchema, args []*ArgumentNode) ([]*schema
 		structName := node.tok.val
 
 		typ := s.GetTypeByName(structName)
-		if typ == nil {
+		if typ == nil || typ.Name != structName {
 			return nil, true, fmt.Errorf("unknown type for succinct definition of '%s'", structName)
 		}
 		if typ.Kind != "struct" {
-- 
2.43.0


From 858455a13a35c1a3efca41086f2fb0635d86407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 28/43] fix: reject an annotation without a name instead of
 parsing it forever

---
 schema/ridl/service_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 0133a90..7da92a5 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -208,6 +208,9 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 	for {
 		annotationMatches, err := p.match(matcher...)
 		if err != nil {
+			if len(annotations) == 0 {
+				return nil, err
+			}
 			break
 		}
 
-- 
2.43.0


From 6336cb9501cd71aaa485806e2a5171ad83325ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 29/43] fix: unescape long strings and types without quadratic
 copying

---
 schema/ridl/parser_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index a114055..94eec28 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -44,7 +44,7 @@ func escapesNext(tok *token, escaped bool) bool {
 func unescapeString(in string) (string, error) {
 	runes := []rune(in)
 	size := len(runes)
-	out := ""
+	out := strings.Builder{}
 
 	for i := 0; i < size; i++ {
 		c := runes[i]
@@ -54,11 +54,11 @@ func unescapeString(in string) (string, error) {
 			if i < size {
 				switch n := runes[i]; n {
 				case 'n':
-					out = out + "\n"
+					out.WriteRune('\n')
 				case 't':
-					out = out + "\t"
+					out.WriteRune('\t')
 				case '"':
-					out = out + string(n)
+					out.WriteRune(n)
 				default:
 					return "", fmt.Errorf("unexpected character %q after backslash", c)
 				}
@@ -66,9 +66,9 @@ func unescapeString(in string) (string, error) {
 				return "", errors.New("unexpected end after backslash")
 			}
 		} else {
-			out = out + string(c)
+			out.WriteRune(c)
 		}
 	}
 
-	return out, nil
+	return out.String(), nil
 }
-- 
2.43.0


From bb7efa0b962532c4931add119ac2c7250128d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 30/43] fix: don't reuse failed or outdated imports when a
 parser parses again

---
 schema/ridl/ridl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 4863ab6..3d94d27 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -42,6 +42,12 @@ func NewParser(fsys fs.FS, root, path string) *Parser {
 }
 
 func (p *Parser) Parse() (*schema.WebRPCSchema, error) {
+	if p.parent == nil {
+		// start afresh, in case this isn't the first call
+		p.imports = graph.New(p.path)
+		p.cache = make(map[string]*schema.WebRPCSchema)
+	}
+
 	s, err := p.parse()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ff354232557148bd1558957ae4b11f589fbcc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 31/43] fix: keep the enum behind an alias used as map key when
 tree shaking

---
 schema/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index cc69dad..426fc3a 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -286,6 +286,10 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
+			if t.Kind == TypeKind_Alias {
+				// a map key may be an alias of an enum
+				walkVarType(t.Type, mark)
+			}
 		}
 	}
 
-- 
2.43.0


From 6a828125cfd03503390313364956cf321eae5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 32/43] fix: validate the arguments of succinct methods in JSON
 schemas

---
 schema/service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schema/service.go b/schema/service.go
index 03907e3..fc187a3 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -134,6 +134,16 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		}
 	}
 
+	// Ensure succinct form is a single struct for both input and output
+	if m.Succinct {
+		if len(m.Inputs) != 1 || len(m.Outputs) != 1 {
+			return fmt.Errorf("schema error: succinct form requires a single input and output argument for method '%s' in service '%s'", m.Name, serviceName)
+		}
+		if m.Inputs[0].Type.Type != T_Struct || m.Outputs[0].Type.Type != T_Struct {
+			return fmt.Errorf("schema error: succinct form requires struct arguments for method '%s' in service '%s'", m.Name, serviceName)
+		}
+	}
+
 	// Parse+validate errors
 	for _, errorName := range m.Errors {
 		found := false
-- 
2.43.0


From fd80e04afaac20ce0980c071752dc86ac9f32331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 33/43] fix: append in templates no longer overwrites elements
 of another list

The result of append shared spare capacity with its argument, so appending twice
to the same list changed the first result.
---
 gen/funcmap_generic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_generic.go b/gen/funcmap_generic.go
index c03a4d3..82080ac 100644
--- a/gen/funcmap_generic.go
+++ b/gen/funcmap_generic.go
@@ -3,6 +3,7 @@ package gen
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"sort"
 )
 
@@ -11,9 +12,10 @@ func array(elems ...interface{}) []interface{} {
 	return append([]interface{}{}, elems...)
 }
 
-// Appends new elements to the existing slice.
+// Returns a new slice of the existing elements and the new ones. The existing
+// slice is left alone, including its spare capacity, which other slices may share.
 func appendFn(slice []interface{}, elems ...interface{}) []interface{} {
-	return append(slice, elems...)
+	return append(slices.Clip(slice), elems...)
 }
 
 // Returns first element from given array.
-- 
2.43.0


From 070189457ab13207f300db6e77777ec1ade8c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 34/43] fix: firstLetterToLower and firstLetterToUpper keep
 non-ASCII first letters intact

They converted the first byte instead of the first letter, which replaced the
first byte of a multi-byte letter by U+FFFD.
---
 gen/funcmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap.go b/gen/funcmap.go
index 22f8e38..b7a9155 100644
--- a/gen/funcmap.go
+++ b/gen/funcmap.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/davecgh/go-spew/spew"
@@ -68,13 +69,15 @@ func templateFuncMap(opts map[string]interface{}) map[string]interface{} {
 			if input == "" {
 				return ""
 			}
-			return strings.ToLower(input[:1]) + input[1:]
+			_, n := utf8.DecodeRuneInString(input)
+			return strings.ToLower(input[:n]) + input[n:]
 		}),
 		"firstLetterToUpper": applyStringFunction("firstLetterToUpper", func(input string) string { // v0.7.0
 			if input == "" {
 				return ""
 			}
-			return strings.ToUpper(input[:1]) + input[1:]
+			_, n := utf8.DecodeRuneInString(input)
+			return strings.ToUpper(input[:n]) + input[n:]
 		}),
 		"firstWordToLower": applyStringFunction("firstWordToLower", func(input string) string { // v0.29.0
 			if input == "" {
-- 
2.43.0


From 36d8f505ecbeb2dc9293fbcfbed8287b66e6d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 35/43] fix: write dictionaries as text in the order of their
 keys

join, sort and get on dictionaries depended on map iteration order, so the
generated code could change from run to run.
---
 gen/funcmap_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_string.go b/gen/funcmap_string.go
index 3e5d65a..6cafd7a 100644
--- a/gen/funcmap_string.go
+++ b/gen/funcmap_string.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/webrpc/webrpc/schema"
@@ -24,8 +26,8 @@ func toString(v interface{}) string {
 		return t
 	case map[string]interface{}:
 		var b strings.Builder
-		for k, v := range t {
-			b.WriteString(fmt.Sprintf("%v=%v\n", k, v))
+		for _, k := range slices.Sorted(maps.Keys(t)) {
+			b.WriteString(fmt.Sprintf("%v=%v\n", k, t[k]))
 		}
 		return b.String()
 	default:
-- 
2.43.0


From ef5e3fe073070e76517d47e01146982b223f19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 36/43] fix: webrpc-gen reports a failure to format Go code
 also with -silent and when writing to stdout

---
 cmd/webrpc-gen/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index ce9889e..e804b85 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -125,6 +125,7 @@ func main() {
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
 		fmt.Println(genOutput.Code)
+		exitOnFormatErr(genOutput)
 		os.Exit(0)
 	}
 
@@ -137,6 +138,7 @@ func main() {
 
 	// Print gen report
 	if *silentFlag {
+		exitOnFormatErr(genOutput)
 		os.Exit(0)
 	}
 
@@ -160,6 +162,14 @@ func main() {
 	fmt.Println(" output file        :", *outFlag)
 	if genOutput.FormatErr != nil {
 		fmt.Println(" format error       :", genOutput.FormatErr)
+	}
+	exitOnFormatErr(genOutput)
+}
+
+// The unformatted code is written nevertheless, so that users can see what's wrong with it.
+func exitOnFormatErr(genOutput *gen.GenOutput) {
+	if genOutput.FormatErr != nil {
+		fmt.Fprintln(os.Stderr, genOutput.FormatErr)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 4988f58d366e75d843d59d0099716a47b7543a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:59 +0000
Subject: [PATCH 37/43] fix: template caches of targets with the same 32-bit
 hash no longer mix

---
 gen/template_source.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index c0edf3b..746f208 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -2,8 +2,8 @@ package gen
 
 import (
 	"context"
+	"crypto/sha256"
 	"fmt"
-	"hash/fnv"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -224,13 +224,12 @@ func (s *TemplateSource) getTmpCacheDir() (string, error) {
 	}
 
 	// derive a deterministic folder for this template source
-	hash := fnv.New32a()
-	hash.Write([]byte(s.target))
+	hash := sha256.Sum256([]byte(s.target))
 
 	parts := strings.Split(s.target, "/")
 	name := parts[len(parts)-1]
 
-	return filepath.Join(dir, "webrpc-cache", fmt.Sprintf("%d-%s", hash.Sum32(), name)), nil
+	return filepath.Join(dir, "webrpc-cache", fmt.Sprintf("%x-%s", hash[:16], name)), nil
 }
 
 func (s *TemplateSource) inferRemoteTarget(target string) string {
-- 
2.43.0


From ef61a670ea6c6879449cb24c0005810783e96706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 38/43] fix: the template version no longer gets lost when the
 cache info can't be read

---
 gen/template_source.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 746f208..5f14e89 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -100,9 +100,9 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 
 	cacheAvailable, cacheDir, cacheFS, cacheAge := s.openCacheDir()
 	s.TmplDir = cacheDir
+	s.TmplVersion = s.target
 
 	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
-		s.TmplVersion = s.target
 		// fetch from remote git
 		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
 		if err != nil {
@@ -126,12 +126,6 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 		s.CacheAge = cacheAge
 	}
 
-	// read template version info
-	if cacheAvailable && s.TmplVersion == "" {
-		tmplVersion, _ := os.ReadFile(filepath.Join(cacheDir, templateCacheInfoFilename))
-		s.TmplVersion = strings.TrimSpace(string(tmplVersion))
-	}
-
 	// parse the template files from the source
 	tmpl, err := vfstemplate.ParseGlob(sourceFS, s.tmpl, "/*.go.tmpl")
 	if err != nil {
-- 
2.43.0


From 7e14ce7c444cc8ba59ac7b9950e20d4a2dbf487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 39/43] fix: webrpc-gen fails when it can't write the generated
 code to stdout

---
 cmd/webrpc-gen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index e804b85..dbbf0c7 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -124,7 +124,10 @@ func main() {
 
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
-		fmt.Println(genOutput.Code)
+		if _, err := fmt.Println(genOutput.Code); err != nil {
+			fmt.Fprintln(os.Stderr, err.Error())
+			os.Exit(1)
+		}
 		exitOnFormatErr(genOutput)
 		os.Exit(0)
 	}
-- 
2.43.0


From 45268beed2d538a493cf2ec95c9ae602b4600069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 40/43] fix: a long run of blank lines after an import no
 longer overflows the stack

---
 schema/ridl/import_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 9ad20a0..834801d 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -34,7 +34,10 @@ func parserStateImportMembers(p *parser, in *ImportNode) parserState {
 
 	}
 
-	return parserStateImportMembers(p, in)
+	// continue from the parser's loop, a call here would nest once per token
+	return func(p *parser) parserState {
+		return parserStateImportMembers(p, in)
+	}
 }
 
 func parserStateImportValue(p *parser) parserState {
-- 
2.43.0


From d9de25a749bf744f6c617461732f892b493fbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 41/43] fix: deeply nested types no longer take minutes to
 parse

---
 schema/ridl/parser_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 94eec28..c5ad74a 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -42,6 +42,10 @@ func escapesNext(tok *token, escaped bool) bool {
 }
 
 func unescapeString(in string) (string, error) {
+	if !strings.Contains(in, "\\") {
+		return in, nil
+	}
+
 	runes := []rune(in)
 	size := len(runes)
 	out := strings.Builder{}
-- 
2.43.0


From e07cc0f97e146e0f74b85b5044172df3ec4ac81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:31 +0000
Subject: [PATCH 42/43] fix: an unterminated string is reported on its own
 line, not on the next one

---
 schema/ridl/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 54cb5bf..f5f75e3 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -212,6 +212,8 @@ loop:
 			// push whatever comes after the backslash
 
 		case tok.tt == tokenNewLine:
+			// the error is on this line, not on the next one
+			p.rewind(1)
 			return nil, errUnexpectedEOL
 
 		case tok.tt == tokenQuote:
-- 
2.43.0


From 6e2d80edd29ef5e75ffd4c850530df3ad0369ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:38 +0000
Subject: [PATCH 43/43] fix: errors at the end of a file are reported there,
 not at 0:0

---
 schema/ridl/parser.go         | 11 ++++++++---
 schema/ridl/service_parser.go |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index f5f75e3..8611c5f 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -32,8 +32,6 @@ var (
 	errUnexpectedEOL   = errors.New(`unexpected EOL`)
 )
 
-var eofToken = &token{tt: tokenEOF}
-
 type parserState func(*parser) parserState
 
 type parser struct {
@@ -41,6 +39,7 @@ type parser struct {
 	tokens []token
 	length int
 	pos    int
+	eof    token
 
 	words    chan interface{}
 	comments map[int]string
@@ -60,6 +59,12 @@ func newParser(file string, src []byte) (*parser, error) {
 		tokens:   tokens,
 		length:   len(tokens),
 		comments: comments,
+		eof:      token{tt: tokenEOF},
+	}
+	if len(tokens) > 0 {
+		// errors at the end of the file are reported where it ends
+		last := tokens[len(tokens)-1]
+		p.eof.line, p.eof.col = last.line, last.col
 	}
 	return p, nil
 }
@@ -182,7 +187,7 @@ func (p *parser) next() bool {
 
 func (p *parser) cursor() *token {
 	if p.pos >= p.length {
-		return eofToken
+		return &p.eof
 	}
 	return &p.tokens[p.pos]
 }
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 7da92a5..8486d40 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -232,10 +232,10 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 		p.next()
 
 		// @acl:admin
-		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
+		if p.cursor().tt == tokenWord {
 			annotation.value = newTokenNode(p.cursor())
 			p.next()
-		} else if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+		} else if p.cursor().tt == tokenQuote {
 			// @auth:"cookies,authorization,query"
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
-- 
2.43.0

