From 3b092b28f449bfe8c5e55df76607c3776b626ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 01/38] fix: reject filters containing a character outside the
 language

The lexer returned -1 for an unknown character, which the parser takes for
the end of the input: 'a = 1 & b = 2' was accepted as 'a = 1'.
---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..bf22e26 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -191,7 +191,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; 
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..69d110b 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1180,7 +1180,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; 
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From 4270aac6a71b23f55208c7f082d140a20a316577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 02/38] fix: reject filters containing a NUL byte instead of
 truncating them

---
 v6/pkg/tsl/tsl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..43c294c 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"time"
 	"unsafe"
 )
@@ -45,6 +46,11 @@ type TSLArrayLiteral struct {
 
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	// The parser works on C strings, a NUL byte would hide the rest of the input.
+	if i := strings.IndexByte(input, 0); i >= 0 {
+		return nil, &SyntaxError{Message: "syntax error", Position: i, Input: input}
+	}
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From 807063bc01655b71d38311228c63376fe7d32dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 03/38] fix: never report a negative syntax error position

SyntaxError.Error() panicked for an empty filter and for filters ending in a
new line.
---
 v6/pkg/tsl/tsl_ast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..bba112d 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -8,6 +8,8 @@
 static int current_error_position = 0;
 
 void set_error_position(int pos) {
+    /* Empty input, or input ending in a new line. */
+    if (pos < 0) pos = 0;
     current_error_position = pos;
 }
 
-- 
2.43.0


From 9d5082c5eb64ce931c1f274b652a90d6c64541e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 04/38] fix: make ParseTSL safe for concurrent use

The generated parser keeps its state in C global variables.
---
 v6/pkg/tsl/tsl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 43c294c..60e2286 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -24,6 +24,7 @@ package tsl
 import "C"
 import (
 	"strings"
+	"sync"
 	"time"
 	"unsafe"
 )
@@ -44,6 +45,9 @@ type TSLArrayLiteral struct {
 	Values []*TSLNode
 }
 
+// parserMutex serializes the use of the C parser.
+var parserMutex sync.Mutex
+
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
 	// The parser works on C strings, a NUL byte would hide the rest of the input.
@@ -51,6 +55,10 @@ func ParseTSL(input string) (*TSLNode, error) {
 		return nil, &SyntaxError{Message: "syntax error", Position: i, Input: input}
 	}
 
+	// The C parser keeps its state in global variables.
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From 839f1544b02040985a0bf370cc1eba5c4403ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 05/38] fix: read the binary size suffix in any case (1KI is
 1024)

---
 v6/pkg/tsl/tsl_ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index bba112d..2dd13fb 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -26,7 +26,7 @@ ast_node *ast_create_number(const char *value_str) {
     
     if (*endptr != '\0') {  // Has suffix
         double multiplier = 1024.0;  // Default to binary (Ki)
-        if (*(endptr + 1) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
+        if (tolower(*(endptr + 1)) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
             multiplier = 1000.0;
         }
         switch(tolower(*endptr)) {
-- 
2.43.0


From 5ef369e56c68a5f19b0da7f3095663cb9674e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 06/38] fix: treat only date shaped strings as dates

'Tom+' was read as a timestamp, 'abcd-ef-gh' as a date, and a quoted
timestamp with a negative offset as a plain string.
---
 v6/pkg/parser/tsl_lexer.l |  27 +++++++-
 v6/pkg/tsl/lex.yy.c       | 135 ++++++++++++++++++++++----------------
 2 files changed, 104 insertions(+), 58 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index bf22e26..683d2de 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -16,12 +16,35 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Length of the pattern if s starts with it ('d' stands for a digit), 0 otherwise */
+static int is_date_shape(const char *s, const char *pattern) {
+    int i;
+    for (i = 0; pattern[i]; i++) {
+        if (pattern[i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != pattern[i]) return 0;
+    }
+    return i;
+}
+
+/* Check if string is a date and time in RFC3339 format */
+static int is_rfc3339_shape(const char *s) {
+    int n = is_date_shape(s, "dddd-dd-ddTdd:dd:dd");
+    if (!n) return 0;
+    s += n;
+    if (*s == '.') {
+        if (!is_date_shape(s, ".d")) return 0;
+        for (s++; *s >= '0' && *s <= '9'; s++) {}
+    }
+    if (*s == 'Z') return s[1] == '\0';
+    n = is_date_shape(s, "+dd:dd") + is_date_shape(s, "-dd:dd");
+    return n && s[n] == '\0';
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    if (is_date_shape(s, "dddd-dd-dd") == 10 && s[10] == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    } else if (is_rfc3339_shape(s)) {
         yylval.str = s;
         return RFC3339;
     }
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 69d110b..473ebc3 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -585,12 +585,35 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
+/* Length of the pattern if s starts with it ('d' stands for a digit), 0 otherwise */
+static int is_date_shape(const char *s, const char *pattern) {
+    int i;
+    for (i = 0; pattern[i]; i++) {
+        if (pattern[i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != pattern[i]) return 0;
+    }
+    return i;
+}
+
+/* Check if string is a date and time in RFC3339 format */
+static int is_rfc3339_shape(const char *s) {
+    int n = is_date_shape(s, "dddd-dd-ddTdd:dd:dd");
+    if (!n) return 0;
+    s += n;
+    if (*s == '.') {
+        if (!is_date_shape(s, ".d")) return 0;
+        for (s++; *s >= '0' && *s <= '9'; s++) {}
+    }
+    if (*s == 'Z') return s[1] == '\0';
+    n = is_date_shape(s, "+dd:dd") + is_date_shape(s, "-dd:dd");
+    return n && s[n] == '\0';
+}
+
 /* Check if string is a date/time format and return appropriate token */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    if (is_date_shape(s, "dddd-dd-dd") == 10 && s[10] == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    } else if (is_rfc3339_shape(s)) {
         yylval.str = s;
         return RFC3339;
     }
@@ -636,13 +659,13 @@ char* strip_quotes(char* text, int offset) {
     free(raw);
     return processed;
 }
-#line 639 "../tsl/lex.yy.c"
+#line 662 "../tsl/lex.yy.c"
 /* Basic building blocks */
 /* Date and time components */
 /* Identifier patterns */
 /* Numeric patterns */
 #define YY_NO_INPUT 1
-#line 645 "../tsl/lex.yy.c"
+#line 668 "../tsl/lex.yy.c"
 
 #define INITIAL 0
 
@@ -857,12 +880,12 @@ YY_DECL
 		}
 
 	{
-#line 108 "tsl_lexer.l"
+#line 131 "tsl_lexer.l"
 
 
-#line 111 "tsl_lexer.l"
+#line 134 "tsl_lexer.l"
     /* Keywords (case-insensitive) */
-#line 865 "../tsl/lex.yy.c"
+#line 888 "../tsl/lex.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -921,157 +944,157 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 112 "tsl_lexer.l"
+#line 135 "tsl_lexer.l"
 { return K_LIKE; }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 113 "tsl_lexer.l"
+#line 136 "tsl_lexer.l"
 { return K_ILIKE; }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 114 "tsl_lexer.l"
+#line 137 "tsl_lexer.l"
 { return K_AND; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 115 "tsl_lexer.l"
+#line 138 "tsl_lexer.l"
 { return K_OR; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "tsl_lexer.l"
+#line 139 "tsl_lexer.l"
 { return K_BETWEEN; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "tsl_lexer.l"
+#line 140 "tsl_lexer.l"
 { return K_IN; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "tsl_lexer.l"
+#line 141 "tsl_lexer.l"
 { return K_IS; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "tsl_lexer.l"
+#line 142 "tsl_lexer.l"
 { return K_NULL; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "tsl_lexer.l"
+#line 143 "tsl_lexer.l"
 { return K_NOT; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "tsl_lexer.l"
+#line 144 "tsl_lexer.l"
 { return K_TRUE; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "tsl_lexer.l"
+#line 145 "tsl_lexer.l"
 { return K_FALSE; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "tsl_lexer.l"
+#line 146 "tsl_lexer.l"
 { return K_LEN; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "tsl_lexer.l"
+#line 147 "tsl_lexer.l"
 { return K_ANY; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 125 "tsl_lexer.l"
+#line 148 "tsl_lexer.l"
 { return K_ALL; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 126 "tsl_lexer.l"
+#line 149 "tsl_lexer.l"
 { return K_SUM; }
 	YY_BREAK
 /* Comparison operators */
 case 16:
 YY_RULE_SETUP
-#line 129 "tsl_lexer.l"
+#line 152 "tsl_lexer.l"
 { return LE; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 130 "tsl_lexer.l"
+#line 153 "tsl_lexer.l"
 { return LT; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 131 "tsl_lexer.l"
+#line 154 "tsl_lexer.l"
 { return GE; }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 132 "tsl_lexer.l"
+#line 155 "tsl_lexer.l"
 { return GT; }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 133 "tsl_lexer.l"
+#line 156 "tsl_lexer.l"
 { return NE; }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 134 "tsl_lexer.l"
+#line 157 "tsl_lexer.l"
 { return EQ; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 135 "tsl_lexer.l"
+#line 158 "tsl_lexer.l"
 { return REQ; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 136 "tsl_lexer.l"
+#line 159 "tsl_lexer.l"
 { return RNE; }
 	YY_BREAK
 /* Date and time literals */
 case 24:
 YY_RULE_SETUP
-#line 139 "tsl_lexer.l"
+#line 162 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return RFC3339; }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 140 "tsl_lexer.l"
+#line 163 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return DATE; }
 	YY_BREAK
 /* Numeric literals */
 case 26:
 YY_RULE_SETUP
-#line 143 "tsl_lexer.l"
+#line 166 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 144 "tsl_lexer.l"
+#line 167 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 145 "tsl_lexer.l"
+#line 168 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 146 "tsl_lexer.l"
+#line 169 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 /* String literals and identifiers */
 case 30:
 /* rule 30 can match eol */
 YY_RULE_SETUP
-#line 149 "tsl_lexer.l"
+#line 172 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1083,7 +1106,7 @@ YY_RULE_SETUP
 case 31:
 /* rule 31 can match eol */
 YY_RULE_SETUP
-#line 157 "tsl_lexer.l"
+#line 180 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1095,7 +1118,7 @@ YY_RULE_SETUP
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-#line 165 "tsl_lexer.l"
+#line 188 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1106,77 +1129,77 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 173 "tsl_lexer.l"
+#line 196 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return IDENTIFIER; }
 	YY_BREAK
 /* Operators and delimiters */
 case 34:
 YY_RULE_SETUP
-#line 176 "tsl_lexer.l"
+#line 199 "tsl_lexer.l"
 { return LPAREN; }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 177 "tsl_lexer.l"
+#line 200 "tsl_lexer.l"
 { return RPAREN; }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 178 "tsl_lexer.l"
+#line 201 "tsl_lexer.l"
 { return COMMA; }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 179 "tsl_lexer.l"
+#line 202 "tsl_lexer.l"
 { return PLUS; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 180 "tsl_lexer.l"
+#line 203 "tsl_lexer.l"
 { return MINUS; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 181 "tsl_lexer.l"
+#line 204 "tsl_lexer.l"
 { return STAR; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 182 "tsl_lexer.l"
+#line 205 "tsl_lexer.l"
 { return SLASH; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 183 "tsl_lexer.l"
+#line 206 "tsl_lexer.l"
 { return PERCENT; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 184 "tsl_lexer.l"
+#line 207 "tsl_lexer.l"
 { return LBRACKET; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 185 "tsl_lexer.l"
+#line 208 "tsl_lexer.l"
 { return RBRACKET; }
 	YY_BREAK
 /* Whitespace handling */
 case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
-#line 188 "tsl_lexer.l"
+#line 211 "tsl_lexer.l"
 { yycolumn = 1; /* Reset column on newline */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
 YY_RULE_SETUP
-#line 189 "tsl_lexer.l"
+#line 212 "tsl_lexer.l"
 { /* Track column for whitespace */ }
 	YY_BREAK
 /* Error handling */
 case 46:
 YY_RULE_SETUP
-#line 192 "tsl_lexer.l"
+#line 215 "tsl_lexer.l"
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
@@ -1185,10 +1208,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 198 "tsl_lexer.l"
+#line 221 "tsl_lexer.l"
 ECHO;
 	YY_BREAK
-#line 1191 "../tsl/lex.yy.c"
+#line 1214 "../tsl/lex.yy.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2156,6 +2179,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 198 "tsl_lexer.l"
+#line 221 "tsl_lexer.l"
 
 
-- 
2.43.0


From 521457fb3da00cbce51cb52f45e332f994bb4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 07/38] fix: release the memory of array elements and of
 rejected filters

The last element of each array prefix was copied and never released, and a
syntax error dropped the values on the parser stack.
---
 v6/pkg/parser/tsl_parser.y  |   6 +
 v6/pkg/tsl/tsl_parser.tab.c | 323 ++++++++++++++++++++++++------------
 2 files changed, 224 insertions(+), 105 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..0b30966 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -64,6 +64,11 @@ char *error_string = NULL;
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
+/* Release the values discarded on a syntax error */
+%destructor { free($$); } <str>
+%destructor { ast_free($$); } <node>
+%destructor { } input                  /* owned by ast_root */
+
 %start input
 
 %%
@@ -191,6 +196,7 @@ array_elements:
                                       elements[$1->data.array.size] = ast_clone($3);
                                       $$ = ast_create_array($1->data.array.size + 1, elements);
                                       free(elements);
+                                      ast_free($3);
                                       ast_free($1);
                                     }
     ;
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..4bc588f 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -574,12 +574,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+       0,    77,    77,    81,    85,    86,    90,    91,    95,    96,
+      97,    98,    99,   100,   101,   102,   103,   104,   105,   106,
+     110,   114,   115,   119,   127,   136,   137,   144,   145,   146,
+     150,   151,   152,   153,   157,   158,   159,   160,   161,   162,
+     166,   167,   168,   169,   170,   174,   178,   179,   180,   184,
+     190,   205,   206,   207,   208,   209,   210,   211
 };
 #endif
 
@@ -943,7 +943,119 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_input: /* input  */
+#line 70 "tsl_parser.y"
+            { }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1054 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1206,118 +1318,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
+#line 77 "tsl_parser.y"
          { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 86 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
-#line 86 "tsl_parser.y"
+#line 91 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
-#line 91 "tsl_parser.y"
+#line 96 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
-#line 92 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
-#line 93 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
-#line 94 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
-#line 95 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
-#line 96 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
-#line 97 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
-#line 98 "tsl_parser.y"
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+#line 105 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1396 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+#line 106 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1405 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 110 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+#line 114 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1420 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+#line 115 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1429 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+#line 119 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1438,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1442 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+#line 127 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,145 +1452,145 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+#line 136 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1462 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+#line 137 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+#line 145 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+#line 146 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+#line 151 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+#line 153 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+#line 158 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+#line 162 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+#line 167 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+#line 170 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+#line 174 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+#line 178 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+#line 180 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1579 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+#line 184 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1590 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+#line 190 "tsl_parser.y"
                                     {
                                       ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
@@ -1488,55 +1600,56 @@ yyreduce:
                                       elements[(yyvsp[-2].node)->data.array.size] = ast_clone((yyvsp[0].node));
                                       (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
                                       free(elements);
+                                      ast_free((yyvsp[0].node));
                                       ast_free((yyvsp[-2].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1607 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1613 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1619 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1625 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1631 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1637 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1643 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+#line 211 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1649 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1653 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1842,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 214 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From adfd5439a6a66c3fac41dfb303069695c82449f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 08/38] fix: convert every date literal to SQL, as the instant
 it denotes

sql.Walk panicked on dates without a time and on invalid dates, and dropped
the time zone offset and the fraction of a second.
---
 v6/pkg/walkers/sql/walk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..dedfd88 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -43,8 +43,12 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
 		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
-		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
+		t, ok := n.Value().(time.Time)
+		if !ok {
+			// A date without a time, or not a valid date, use it as is
+			return sq.Expr("?", n.Value()), nil
+		}
+		s = sq.Expr("?", t.UTC().Format("2006-01-02 15:04:05.999999999"))
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
 	case tsl.KindBooleanLiteral:
-- 
2.43.0


From 52f2760fd38cd85a752c96b6534f503a9531ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 09/38] fix: report a division by zero for a modulus by a
 fraction

a % 0.5 panicked.
---
 v6/pkg/walkers/semantics/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..73bb8a2 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -237,6 +237,10 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		if rightNum == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
+		if int64(rightNum) == 0 {
+			// The modulus operands are truncated to integers
+			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
+		}
 		return float64(int64(leftNum) % int64(rightNum)), nil
 	default:
 		return nil, tsl.UnexpectedOperatorError{Operator: operator}
-- 
2.43.0


From b50d658edb2ce0b7297ccaf710e99d7aba958265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 10/38] fix: compare values that Go can not compare without a
 panic

---
 v6/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 73bb8a2..f3d1b01 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,6 +208,10 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
+	// Values that Go can not compare (e.g. slices and maps)
+	if !reflect.ValueOf(leftVal).Comparable() {
+		return reflect.DeepEqual(leftVal, rightVal), nil
+	}
 	// Fallback to Go’s built‑in equality for identical types
 	return leftVal == rightVal, nil
 }
-- 
2.43.0


From 3efa96e1892654984923cf2a72d7f85d45126a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 11/38] fix: an ordering comparison with null is false, not an
 error

The README examples of tsl_mem (rating > 4 and title ~= 'Big') failed on
books that have no rating.
---
 v6/pkg/walkers/semantics/evaluators.go | 4 ++++
 v6/pkg/walkers/semantics/walk.go       | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..c2595da 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -113,6 +113,10 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 // isValueInRange checks if a value is within a range (inclusive)
 // Supports both numeric values and time.Time comparisons
 func isValueInRange(value, min, max interface{}) (bool, error) {
+	// A null value is not in any range
+	if value == nil {
+		return false, nil
+	}
 	switch v := value.(type) {
 	case float64:
 		minVal, okMin := toFloat64(min)
diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index f3d1b01..ad15b5b 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -300,6 +300,9 @@ func evaluateCompareExpressions(operator tsl.Operator, leftVal, rightVal interfa
 		case tsl.OpGE:
 			return leftDate.After(rightDate) || leftDate.Equal(rightDate), nil
 		}
+	} else if leftVal == nil || rightVal == nil {
+		// A null value is not ordered with any other value
+		return false, nil
 	} else {
 		return nil, tsl.TypeMismatchError{Expected: "number or date", Got: fmt.Sprintf("%T and %T", leftVal, rightVal)}
 	}
-- 
2.43.0


From 7900694fef9a4dab7876b7ff5d80849e85ede8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 12/38] fix: only % and _ are special in a LIKE pattern

'a.b' matched 'axb', 'a(b' matched nothing, and % and _ did not match a new
line.
---
 v6/pkg/walkers/semantics/evaluators.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index c2595da..ede61eb 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -180,10 +180,11 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
+	// Convert SQL LIKE pattern to regex pattern, % and _ are the only special characters
+	patternStr = regexp.QuoteMeta(patternStr)
 	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
 	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
+	matched, _ := regexp.MatchString("(?s)^"+patternStr+"$", valueStr)
 	return matched, nil
 }
 
-- 
2.43.0


From 1df2a80c554cdf279d40c2337582dda2143a3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 13/38] fix: accept date literals in IN lists and BETWEEN
 ranges

d in ['2020-01-01'] was false and d between 2019-01-01 and 2021-01-01 failed
for a date that d = 2020-01-01 and d > 2019-01-01 accept.
---
 v6/pkg/walkers/semantics/evaluators.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index ede61eb..272f7af 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -65,6 +65,11 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 		return false, nil
 	}
 
+	// Compare dates as dates, also when they are given as text
+	if date, ok := toDate(value); ok {
+		value = date
+	}
+
 	switch value.(type) {
 	case string, float64, time.Time, bool:
 		// Continue with existing type-specific checks
@@ -90,7 +95,7 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 			}
 		case time.Time:
 			for _, item := range arr {
-				if t, ok := item.(time.Time); ok && t.Equal(v) {
+				if t, ok := toDate(item); ok && t.Equal(v) {
 					return true, nil
 				}
 			}
@@ -117,6 +122,10 @@ func isValueInRange(value, min, max interface{}) (bool, error) {
 	if value == nil {
 		return false, nil
 	}
+	// Compare dates as dates, also when they are given as text
+	if date, ok := toDate(value); ok {
+		value = date
+	}
 	switch v := value.(type) {
 	case float64:
 		minVal, okMin := toFloat64(min)
@@ -145,8 +154,8 @@ func isValueInRange(value, min, max interface{}) (bool, error) {
 		}
 		return v >= minVal && v <= maxVal, nil
 	case time.Time:
-		minTime, okMin := min.(time.Time)
-		maxTime, okMax := max.(time.Time)
+		minTime, okMin := toDate(min)
+		maxTime, okMax := toDate(max)
 		if !okMin || !okMax {
 			return false, &tsl.TypeMismatchError{
 				Expected: "time values",
-- 
2.43.0


From 3a326ced3c1f0dfa459bf0872d130470399ba999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 14/38] fix: keep the grouping of nested comparisons in SQL

a = (b = c) was converted to a = b = c, which SQL reads as (a = b) = c.
---
 v6/pkg/walkers/sql/walk.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index dedfd88..a58794a 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -100,6 +100,9 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// Keep the grouping of nested comparisons
+	l = group(op.Operator, op.Left, l)
+
 	// Handle array operations specially
 	switch op.Operator {
 	case tsl.OpIn:
@@ -117,6 +120,9 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		if len(values) != 2 {
 			return nil, tsl.BetweenOperatorError{Message: "BETWEEN requires exactly two values"}
 		}
+		for i, v := range op.Right.Value().(tsl.TSLArrayLiteral).Values {
+			values[i] = group(op.Operator, v, values[i])
+		}
 		return sq.Expr("? BETWEEN ? AND ?", l, values[0], values[1]), nil
 	}
 
@@ -126,6 +132,8 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	r = group(op.Operator, op.Right, r)
+
 	switch op.Operator {
 	// Arithmetic operators
 	case tsl.OpPlus:
@@ -178,6 +186,21 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 }
 
+// group adds parentheses to a comparison used as an operand of another
+// comparison or of arithmetic, all the other operands are self contained.
+func group(parent tsl.Operator, n *tsl.TSLNode, s sq.Sqlizer) sq.Sqlizer {
+	if n.Type() != tsl.KindBinaryExpr || parent == tsl.OpAnd || parent == tsl.OpOr {
+		return s
+	}
+
+	switch n.Value().(tsl.TSLExpressionOp).Operator {
+	case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpAnd, tsl.OpOr:
+		return s
+	}
+
+	return sq.Expr("(?)", s)
+}
+
 // unaryStep handles minus and not operators first
 func unaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	op := n.Value().(tsl.TSLExpressionOp)
-- 
2.43.0


From c880906309addd133a1cf598135a668f9883e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 15/38] fix: check and map the identifiers inside arrays

ident.Walk skipped the elements of IN lists and the ends of BETWEEN ranges, so
a in [secret] passed a column name check that refuses secret.
---
 v6/pkg/tsl/tsl.go            |  9 +++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 19 +++++++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 60e2286..f6297f8 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -208,3 +208,12 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement replaces the element at the given index of an array literal node
+// Frees any existing element. Takes ownership of the provided child node
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 2dd13fb..4eb142f 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -287,3 +287,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+    
+    if (node->data.array.elements[index]) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..3251c43 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -62,6 +62,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..ffc755f 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -149,6 +149,25 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
+	case tsl.KindArrayLiteral:
+		// Process all the elements of the array
+		for i, value := range n.Value().(tsl.TSLArrayLiteral).Values {
+			if value.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(value, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(value, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	default:
 		return n, nil
 	}
-- 
2.43.0


From f30368e3c2279b0753e9aace295118b1eb964af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 16/38] fix: release the copy of a tree that is a single
 identifier

---
 v6/pkg/walkers/ident/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index ffc755f..b23428c 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -70,6 +70,9 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		treeCopy.Free() // Clean up the copy if there's an error
 		return nil, err
 	}
+	if newTree != treeCopy {
+		treeCopy.Free() // The root identifier was replaced
+	}
 
 	return newTree, nil
 }
-- 
2.43.0


From 69bfb28e14ba344e6087e4f50e71336a40e0bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 17/38] fix: escape the special characters of graphviz labels

A double quote in a string ended the label and made the graph invalid.
---
 v6/pkg/walkers/graphviz/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..bf88ad2 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -38,6 +38,10 @@ const timestampStyle = baseRecordStyle + " color=orange"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
+// labelEscaper escapes the characters that are special in the label of a record.
+var labelEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "|", "\\|",
+	"{", "\\{", "}", "\\}", "<", "\\<", ">", "\\>")
+
 // Generate a random string of specified length using only letters
 func randStr(l int) string {
 	const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
@@ -53,6 +57,7 @@ func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType ts
 	if in != "" {
 		in = fmt.Sprintf("%s\n", in)
 	}
+	value = labelEscaper.Replace(fmt.Sprint(value))
 	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
 		nodeID,
 		style,
-- 
2.43.0


From 5362133361cf505aafd21fb81834d83e6e930858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 18/38] fix: draw every node of the tree once in graphviz

Null nodes were missing, nodes of different parts of a large tree could get
the same random name, and nodes given by the caller were repeated.
---
 v6/pkg/walkers/graphviz/walk.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index bf88ad2..007ddb0 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -80,7 +80,7 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 	result := ""
 
 	for _, child := range children {
-		childID := randStr(4)
+		childID := randStr(16)
 		childrenIDs = append(childrenIDs, childID)
 
 		r, err := Walk(in, child, childID)
@@ -112,7 +112,13 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 //	s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(16)
+	}
+
+	if in != "" {
+		// Add the nodes of this tree after the given ones
+		out, err = Walk("", n, nodeID)
+		return fmt.Sprintf("%s\n%s", in, out), err
 	}
 
 	switch n.Type() {
@@ -128,6 +134,8 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, timestampStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, baseRecordStyle, n.Type(), n.Value())
 	case tsl.KindBinaryExpr:
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
-- 
2.43.0


From 16b80a88b94b0ab02ee76fc64bfbeefbd571a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 19/38] fix: convert an empty IN list to valid SQL

---
 v6/pkg/walkers/sql/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index a58794a..442e158 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -110,6 +110,10 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(values) == 0 {
+			// SQL has no empty list, no value is in it
+			return sq.Expr("(1=0)"), nil
+		}
 		return sq.Expr("? IN ("+placeholders(len(values))+")", append([]interface{}{l}, sqlizersToInterface(values)...)...), nil
 
 	case tsl.OpBetween:
-- 
2.43.0


From a0c1b668311b0571dc5c396e213408f6e83ed812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 20/38] fix: make ParseTSL of v4 and v5 safe for concurrent use

The ANTLR runtime caches prediction states in maps shared by all the parsers
and does not lock them.
---
 v4/pkg/tsl/tsl.go | 9 +++++++++
 v5/pkg/tsl/tsl.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 5d1f08a..78102a0 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
+// parserMutex serializes the use of the ANTLR parser.
+var parserMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	// The generated parsers share tables that they update while parsing.
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index c882193..7963f63 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
+// parserMutex serializes the use of the ANTLR parser.
+var parserMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	// The generated parsers share tables that they update while parsing.
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
-- 
2.43.0


From 20c506a396ab5435122921a4fa8e2dd6281d117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 21/38] fix: keep the order of IN lists, and accept booleans
 and dates in them

name in ('joe', 'jane') was parsed as ('jane', 'joe'), and in v5 a list of
booleans or dates was refused.
---
 v4/pkg/tsl/listener.go |  6 ++++++
 v5/pkg/tsl/listener.go | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index 3b27280..5f8e0ab 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -322,6 +322,12 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 
 	// If p is not a literal, add it back to stack and exit.
 	l.push(p)
+
+	// The literals were collected from last to first.
+	for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
+		in[i], in[j] = in[j], in[i]
+	}
+
 	return in
 }
 
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..381b13e 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -389,8 +389,18 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 		return l.popLiterals(append(in, p))
 	}
 
+	if p.Func == BooleanOp || p.Func == DateOp {
+		return l.popLiterals(append(in, p))
+	}
+
 	// If p is not a literal, add it back to stack and exit.
 	l.push(p)
+
+	// The literals were collected from last to first.
+	for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
+		in[i], in[j] = in[j], in[i]
+	}
+
 	return in
 }
 
-- 
2.43.0


From 9a720205adc9520169da4e1727315b445c8dcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 22/38] fix: convert identifiers and arithmetic on the right
 hand side to SQL (v4, v5)

---
 v4/pkg/walkers/sql/walk.go | 40 ++++++++++++++++++++++++++++++++++++++
 v5/pkg/walkers/sql/walk.go | 40 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 80 insertions(+)

diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index de25a97..77c9ebc 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -92,6 +92,33 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// expressionOps are the operators that can have an expression on the right hand side.
+var expressionOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+	tsl.LikeOp:  "LIKE",
+	tsl.ILikeOp: "ILIKE",
+}
+
+// isExpression checks if a node is an identifier or a math expression.
+func isExpression(in interface{}) bool {
+	n, ok := in.(tsl.Node)
+	if !ok {
+		return false
+	}
+
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
@@ -107,6 +134,19 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// If right hand side is an expression, it is part of the SQL text.
+	if sqlOp, ok := expressionOps[n.Func]; ok && isExpression(n.Right) {
+		r, err := Walk(n.Right.(tsl.Node))
+		if err != nil {
+			return nil, err
+		}
+		right, _, err := r.ToSql()
+		if err != nil {
+			return nil, err
+		}
+		return sq.Expr(fmt.Sprintf("%s %s %s", sql, sqlOp, right)), nil
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..54b181c 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -105,6 +105,33 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// expressionOps are the operators that can have an expression on the right hand side.
+var expressionOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+	tsl.LikeOp:  "LIKE",
+	tsl.ILikeOp: "ILIKE",
+}
+
+// isExpression checks if a node is an identifier or a math expression.
+func isExpression(in interface{}) bool {
+	n, ok := in.(tsl.Node)
+	if !ok {
+		return false
+	}
+
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
@@ -120,6 +147,19 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// If right hand side is an expression, it is part of the SQL text.
+	if sqlOp, ok := expressionOps[n.Func]; ok && isExpression(n.Right) {
+		r, err := Walk(n.Right.(tsl.Node))
+		if err != nil {
+			return nil, err
+		}
+		right, _, err := r.ToSql()
+		if err != nil {
+			return nil, err
+		}
+		return sq.Expr(fmt.Sprintf("%s %s %s", sql, sqlOp, right)), nil
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
-- 
2.43.0


From 9269a492b80b689ba58df0f26581326bfa32c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 23/38] fix: keep the fraction of seconds of dates in SQL (v5)

---
 v5/pkg/walkers/sql/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 54b181c..42e0a1e 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -56,7 +56,7 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 			}
 			s = append(s, v)
 		case tsl.DateOp:
-			d := n.Left.(time.Time).Format(time.RFC3339)
+			d := n.Left.(time.Time).Format(time.RFC3339Nano)
 			s = append(s, d)
 		default:
 			s = append(s, n.Left)
@@ -229,7 +229,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.DateOp:
-		f := n.Left.(time.Time).Format(time.RFC3339)
+		f := fmt.Sprintf("'%s'", n.Left.(time.Time).Format(time.RFC3339Nano))
 		s = sq.Expr(f)
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
-- 
2.43.0


From 5bcbeca2022677be7e3f4f6b6cf858d3371b137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 24/38] fix: evaluate nested arithmetic and the modulo operator
 (v5)

---
 v5/pkg/walkers/semantics/walk.go | 44 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..627e595 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strings"
 	"time"
@@ -83,7 +84,8 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp ||
+		l.Func == tsl.ModuloOp {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +107,8 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp ||
+			r.Func == tsl.ModuloOp {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
@@ -286,24 +289,26 @@ func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	return n, nil
 }
 
-func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
-	var err error
+// evalMathNode evaluates an operand of a math operator.
+func evalMathNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	switch node.Func {
+	case tsl.IdentOp:
+		return evalIdentNode(node, eval)
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return handleMathOp(node, eval)
+	}
 
-	left := n.Left.(tsl.Node)
-	right := n.Right.(tsl.Node)
+	return node, nil
+}
 
-	// Check for identifiers.
-	if left.Func == tsl.IdentOp {
-		left, err = evalIdentNode(left, eval)
-		if err != nil {
-			return n, err
-		}
+func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	left, err := evalMathNode(n.Left.(tsl.Node), eval)
+	if err != nil {
+		return n, err
 	}
-	if right.Func == tsl.IdentOp {
-		right, err = evalIdentNode(right, eval)
-		if err != nil {
-			return n, err
-		}
+	right, err := evalMathNode(n.Right.(tsl.Node), eval)
+	if err != nil {
+		return n, err
 	}
 
 	// Check for null
@@ -341,6 +346,11 @@ func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 			Func: tsl.NumberOp,
 			Left: left.Left.(float64) / right.Left.(float64),
 		}
+	case tsl.ModuloOp:
+		n = tsl.Node{
+			Func: tsl.NumberOp,
+			Left: math.Mod(left.Left.(float64), right.Left.(float64)),
+		}
 	default:
 		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v %v", left.Left, right.Left)}
 	}
-- 
2.43.0


From e0b89f5451db4185f6b32d4019e4905408e978e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 25/38] fix: compare dates as instants (v5)

---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 627e595..9a5c2fe 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -465,9 +465,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -704,7 +704,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From ecab212c4c00524c8030497167f1b17984338576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 26/38] fix: include the end of the range in BETWEEN, as SQL
 and MongoDB do (v4, v5)

---
 v4/pkg/walkers/semantics/walk.go |  8 ++++----
 v5/pkg/walkers/semantics/walk.go | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..06a81f5 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -277,11 +277,11 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -310,11 +310,11 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 9a5c2fe..5708e2e 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -570,7 +570,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(string)
 		if !ok {
@@ -580,7 +580,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -623,7 +623,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(float64)
 		if !ok {
@@ -633,7 +633,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -676,7 +676,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return !left.Before(begin) && left.Before(end), nil
+		return !left.Before(begin) && !left.After(end), nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(time.Time)
 		if !ok {
@@ -686,7 +686,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left.Before(begin) || !left.Before(end), nil
+		return left.Before(begin) || left.After(end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0


From 804cf1c01f5df80dc5660498afbd3be323750174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 27/38] fix: % and _ of LIKE match new lines (v4, v5)

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 06a81f5..46f5ecc 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -370,7 +370,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 5708e2e..3097ef5 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -750,7 +750,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From be6e53b8c873400170218363214591cd7ae5b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 28/38] fix: report a value of the wrong type in a list instead
 of a panic (v4)

---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 46f5ecc..b3e3c8f 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			v, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == v
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			v, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != v
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			v, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == v
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			v, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != v
 		}
 		return b, nil
 	}
-- 
2.43.0


From e52ba3e40d5e28c8af88fc9daef0624c64e66aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 29/38] fix: report what MongoDB can not compare instead of a
 wrong query (v4, v5)

---
 v4/pkg/walkers/mongo/walk.go | 27 +++++++++++++++++++++++++++
 v5/pkg/walkers/mongo/walk.go | 27 +++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..95c81e6 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -64,6 +64,28 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	return
 }
 
+// checkOperands checks that a comparison is between an identifier and literals,
+// mongo can not compare a field to an expression or to an other field.
+func checkOperands(n tsl.Node) error {
+	switch n.Func {
+	case tsl.AndOp, tsl.OrOp, tsl.NotOp:
+		return nil
+	}
+
+	if l, ok := n.Left.(tsl.Node); ok && l.Func != tsl.IdentOp {
+		return tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
+	if r, ok := n.Right.(tsl.Node); ok {
+		switch r.Func {
+		case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+			return tsl.UnexpectedLiteralError{Literal: r.Func}
+		}
+	}
+
+	return nil
+}
+
 // Walk travel the TSL tree to create mongo-go-driver bson select operators.
 //
 // Users can call the Walk method to filter a mongo Find.
@@ -80,6 +102,11 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	// Only an identifier can be compared, and only to literals.
+	if err = checkOperands(n); err != nil {
+		return
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..aec5586 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -64,6 +64,28 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	return
 }
 
+// checkOperands checks that a comparison is between an identifier and literals,
+// mongo can not compare a field to an expression or to an other field.
+func checkOperands(n tsl.Node) error {
+	switch n.Func {
+	case tsl.AndOp, tsl.OrOp, tsl.NotOp:
+		return nil
+	}
+
+	if l, ok := n.Left.(tsl.Node); ok && l.Func != tsl.IdentOp {
+		return tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
+	if r, ok := n.Right.(tsl.Node); ok {
+		switch r.Func {
+		case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+			return tsl.UnexpectedLiteralError{Literal: r.Func}
+		}
+	}
+
+	return nil
+}
+
 // Walk travel the TSL tree to create mongo-go-driver bson select operators.
 //
 // Users can call the Walk method to filter a mongo Find.
@@ -80,6 +102,11 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	// Only an identifier can be compared, and only to literals.
+	if err = checkOperands(n); err != nil {
+		return
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
-- 
2.43.0


From 8d9f63442e0c99ac61587999f104eb4c4b71557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 30/38] fix: escape the special characters of graphviz labels
 (v4, v5)

---
 v4/pkg/walkers/graphviz/walk.go | 8 ++++++--
 v5/pkg/walkers/graphviz/walk.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..ebb131f 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -33,6 +33,10 @@ const numberStyle = "shape=record color=blue"
 const stringStyle = "shape=record color=blue"
 const opStyle = "shape=box color=black"
 
+// labelEscaper escapes the characters that are special in the label of a record.
+var labelEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "|", "\\|",
+	"{", "\\{", "}", "\\}", "<", "\\<", ">", "\\>")
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -77,7 +81,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -85,7 +89,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..4bc2cf1 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -34,6 +34,10 @@ const stringStyle = "shape=record color=blue"
 const dateStyle = "shape=record color=orange"
 const opStyle = "shape=box color=black"
 
+// labelEscaper escapes the characters that are special in the label of a record.
+var labelEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "|", "\\|",
+	"{", "\\{", "}", "\\}", "<", "\\<", ">", "\\>")
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -78,7 +82,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -86,7 +90,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-- 
2.43.0


From 5bf3831628312235212f1211cb15b023d57e4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 31/38] fix: draw every node of the tree once in graphviz (v4,
 v5)

---
 v4/pkg/walkers/graphviz/walk.go | 11 ++++++-----
 v5/pkg/walkers/graphviz/walk.go | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index ebb131f..5a45e48 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -66,12 +66,13 @@ func randStr(l int) string {
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(16)
 	}
 
-	// If we have in string, add a new line break.
+	// If we have in string, add the nodes of this tree after it.
 	if in != "" {
-		in = fmt.Sprintf("%s\n", in)
+		out, err = Walk("", n, nodeID)
+		return fmt.Sprintf("%s\n%s", in, out), err
 	}
 
 	switch n.Func {
@@ -109,7 +110,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := randStr(16)
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -132,7 +133,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := randStr(16)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index 4bc2cf1..4f70d56 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -67,12 +67,13 @@ func randStr(l int) string {
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(16)
 	}
 
-	// If we have in string, add a new line break.
+	// If we have in string, add the nodes of this tree after it.
 	if in != "" {
-		in = fmt.Sprintf("%s\n", in)
+		out, err = Walk("", n, nodeID)
+		return fmt.Sprintf("%s\n%s", in, out), err
 	}
 
 	switch n.Func {
@@ -118,7 +119,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := randStr(16)
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -141,7 +142,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := randStr(16)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
-- 
2.43.0


From d4b829ce97d35e8a9c8129ac230fd5729bc47b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 32/38] fix: keep the grouping of a NOT inside a comparison in
 SQL

---
 v6/pkg/walkers/sql/walk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 442e158..4a620a4 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -193,12 +193,15 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 // group adds parentheses to a comparison used as an operand of another
 // comparison or of arithmetic, all the other operands are self contained.
 func group(parent tsl.Operator, n *tsl.TSLNode, s sq.Sqlizer) sq.Sqlizer {
-	if n.Type() != tsl.KindBinaryExpr || parent == tsl.OpAnd || parent == tsl.OpOr {
+	if parent == tsl.OpAnd || parent == tsl.OpOr {
+		return s
+	}
+	if n.Type() != tsl.KindBinaryExpr && n.Type() != tsl.KindUnaryExpr {
 		return s
 	}
 
 	switch n.Value().(tsl.TSLExpressionOp).Operator {
-	case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpAnd, tsl.OpOr:
+	case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpAnd, tsl.OpOr, tsl.OpUMinus:
 		return s
 	}
 
-- 
2.43.0


From 31a3e25f70eb22943088c0d59e9e7caecd28216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 33/38] fix: keep the line breaks of strings in YAML

---
 v6/pkg/tsl/marshal.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/tsl/marshal.go b/v6/pkg/tsl/marshal.go
index ed58a0f..dff21ce 100644
--- a/v6/pkg/tsl/marshal.go
+++ b/v6/pkg/tsl/marshal.go
@@ -1,6 +1,12 @@
 package tsl
 
-import "encoding/json"
+import (
+	"encoding/json"
+	"strings"
+	"unicode/utf8"
+
+	"gopkg.in/yaml.v3"
+)
 
 // MarshalJSON implements json.Marshaler interface
 func (n *TSLNode) MarshalJSON() ([]byte, error) {
@@ -90,8 +96,13 @@ func (n *TSLNode) MarshalYAML() (interface{}, error) {
 	}
 
 	// For all other node types, use the default alias
+	value := n.Value()
+	if str, ok := value.(string); ok && strings.Contains(str, "\n") && utf8.ValidString(str) {
+		// Block scalars lose the line breaks at the start of a text, quote it
+		value = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: str}
+	}
 	return nodeAlias{
 		Type:  n.Type().String(),
-		Value: n.Value(),
+		Value: value,
 	}, nil
 }
-- 
2.43.0


From 5a44f6bf81ec8ebe95efa0026cdcbdf339b3c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 34/38] fix: report a list on the right hand side instead of a
 panic (v5)

---
 v5/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 3097ef5..6ad373a 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -134,6 +134,11 @@ func runSemantics(n tsl.Node, eval EvalFunc) (bool, error) {
 			return false, nil
 		}
 
+		// A field that is a list can only be on the left hand side.
+		if r.Func == tsl.ArrayOp && r.Right == nil && l.Func != tsl.NullOp {
+			return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+		}
+
 		switch l.Func {
 		case tsl.ArrayOp:
 			// This is a case of "has-many-table.fld IN (...)"
-- 
2.43.0


From 1c11e49d631ac4199a874106b9db612a97077e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 35/38] fix: convert an empty IN list to an empty MongoDB array
 (v4, v5)

---
 v4/pkg/walkers/mongo/walk.go | 3 +++
 v5/pkg/walkers/mongo/walk.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 95c81e6..a8740bf 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -46,6 +46,9 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+
+	// Mongo needs an array, even if it is an empty one.
+	values = make([]interface{}, 0, len(nodes))
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index aec5586..f8ff0b2 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -46,6 +46,9 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+
+	// Mongo needs an array, even if it is an empty one.
+	values = make([]interface{}, 0, len(nodes))
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
-- 
2.43.0


From 3b10ea95895ccbc07d39185a91593dc4e2abac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 36/38] fix: the on_loan field of tsl_gorm is the column
 on_loan (v5)

---
 v5/cmd/tsl_gorm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index b1374d4..6d0ec9f 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -42,7 +42,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "pages",
 	"spec.rating": "rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on_loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From a4b817202fa32400ff23bb7880c401412e72106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 37/38] fix: the on_loan field of tsl_mongo is the document
 field on-loan (v5)

---
 v5/cmd/tsl_mongo/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index a34a9ab..a27dfa2 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -44,7 +44,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "spec.pages",
 	"spec.rating": "spec.rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on-loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From c2014a75352e9146edd2d2e0c645d0e42cf39cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 38/38] fix: report the position of errors after a line break

The column was set back at a line break that nothing but a token followed,
so the position was not an index of the input, and the context was taken
from another place.
---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 683d2de..e2d7d70 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -207,7 +207,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 "]"                        { return RBRACKET; }
 
     /* Whitespace handling */
-\r?\n                     { yycolumn = 1; /* Reset column on newline */ }
+\r?\n                     { /* The position counts newlines as whitespace */ }
 [ \t\r\n\f\v]+            { /* Track column for whitespace */ }
 
     /* Error handling */
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 473ebc3..517a805 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1188,7 +1188,7 @@ case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
 #line 211 "tsl_lexer.l"
-{ yycolumn = 1; /* Reset column on newline */ }
+{ /* The position counts newlines as whitespace */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
-- 
2.43.0

