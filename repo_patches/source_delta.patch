From f134033f19dfb166644d1e8d4f7d1ff78836567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 01/94] fix: write a forward-referenced RST vector at its own
 place

The second pass handled ARG_RST apart from all other operands: it added 0xC7
to the vector before write_arg, which only knows the vectors themselves, and
did not restore out_ptr, so every forward-referenced RST was rejected.
---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..dd24297 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From edd5cbbf3158991a98e9d5ccdcfd5e7f3b300dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 02/94] fix: keep large and negative label values in deferred
 expressions

expand_expr wrote a label's value with %d into ten bytes: values of ten
characters were cut to a wrong number, and a negative one after a minus sign
became local label syntax (1--1). Write the 32-bit pattern unsigned instead,
which the parser reads back exactly.
---
 utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..ccce734 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -842,8 +842,8 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
-				snprintf (buf, sizeof(buf), "%d", label->value);
+				char buf[16];
+				snprintf (buf, sizeof(buf), "%u", (unsigned int) label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
 			//otherwise, it might be a forward ref, so just write the name
-- 
2.43.0


From a477ea6ea4c5d07aef43813216fcccc36ea01902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 03/94] fix: do not replace names inside literals of deferred
 expressions

expand_expr looked up the a of 'a' and the AB of $AB as symbols, so with a
symbol of that name 'a'+forward and $AB+forward got a wrong value. Copy
character literals and $ numbers as they stand, as parse_single_num reads them.
---
 utils.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index ccce734..142ea83 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -811,6 +811,20 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			if (*expr)
 				expr++;
 
+			eb_append (new_expr, block_start, expr - block_start);
+		//literal chars
+		} else if (*expr == '\'' && expr[1] == '\\' && expr[2] != '\0' && expr[3] == '\'') {
+			eb_append (new_expr, expr, 4);
+			expr += 4;
+		} else if (*expr == '\'' && expr[1] != '\\' && expr[1] != '\0' && expr[2] == '\'') {
+			eb_append (new_expr, expr, 3);
+			expr += 3;
+		//and hex numbers
+		} else if (*expr == '$' && isxdigit ((unsigned char) expr[1])) {
+			block_start = expr++;
+			while (isalnum ((unsigned char) *expr))
+				expr++;
+
 			eb_append (new_expr, block_start, expr - block_start);
 		}
 
-- 
2.43.0


From 7b135c662004b622a095be9c69658eebb251d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 04/94] fix: keep a define's value one value when its
 evaluation is deferred

With #define X 1+2, .db 3*X gave 9 but .db 3*X+forward used 3*1+2, and .echo
always did; a negative macro argument behind a minus sign became local label
syntax. Parenthesise compound define values in expressions saved for pass two.
---
 pass_two.cpp |  4 ++--
 utils.cpp    | 53 ++++++++++++++++++++++++++++++++++++++++++++++++----
 utils.h      |  2 +-
 3 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index dd24297..e0bcdf9 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -64,7 +64,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		   expression for the second pass */
 
 		//store the contents of the expanded expression for the second pass
-		new_expr->expr = expand_expr (expr);
+		new_expr->expr = expand_expr (expr, true, true);
 
 		//and write a blank value in its place
 		if (type == ARG_ADDR_OFFSET) {
@@ -111,7 +111,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	if (type == OUTPUT_SHOW)
 		new_output->expr = strdup (expr);
 	else
-		new_output->expr = expand_expr (expr);
+		new_output->expr = expand_expr (expr, true, true);
 
 	if (output_list_tail)
 		output_list_tail->next = new_output;
diff --git a/utils.cpp b/utils.cpp
index 142ea83..7a53dc8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -781,13 +781,53 @@ int strnlen (const char *str, int maxlen) {
 }
 #endif
 
+/*
+ * Returns TRUE if a define's contents
+ * are a value of several parts (like 1+2),
+ * which counts as one value where the
+ * define is used (3*X is 3*(1+2))
+ */
+
+static bool is_compound_value (const char *contents) {
+	bool compound = false;
+	int depth = 0;
+
+	for (contents = skip_whitespace (contents); *contents; contents++) {
+		switch (*contents) {
+			case '\"':
+			case '\n':
+				return false;
+			case ',':
+				if (depth == 0)
+					return false;
+				break;
+			case '(': depth++; compound = true; break;
+			case ')': depth--; break;
+			case '\'':
+				if (contents[1] == '\\' && contents[2] != '\0')
+					contents++;
+				if (contents[1] != '\0')
+					contents++;
+				if (contents[1] == '\'')
+					contents++;
+				break;
+			default:
+				if (strchr ("=+-*<>|&/%^!~", *contents))
+					compound = true;
+				break;
+		}
+	}
+	return compound;
+}
+
+
 /*
  * Fully expands the text of an expression by
  * replacing all macros and labels with their
  * text replacements
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local) {
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool group) {
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -848,7 +888,12 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local);
+				bool in_parens = group && is_compound_value (define->contents);
+				if (in_parens)
+					eb_append (new_expr, "(", 1);
+				expand_expr_full (define->contents, new_expr, depth + 1, search_local, group);
+				if (in_parens)
+					eb_append (new_expr, ")", 1);
 				remove_arg_set (args);
 				if (error_occurred) {
 					free(name);
@@ -884,13 +929,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 }
 
 
-char *expand_expr (const char *expr, bool search_local) {
+char *expand_expr (const char *expr, bool search_local, bool group) {
 	expand_buf *new_expr;
 	char *new_expr_text;
 
 	new_expr = eb_init(strlen(expr) * 2);
 
-	expand_expr_full (expr, new_expr, 0, search_local);
+	expand_expr_full (expr, new_expr, 0, search_local, group);
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
diff --git a/utils.h b/utils.h
index 2d25844..4310503 100644
--- a/utils.h
+++ b/utils.h
@@ -50,7 +50,7 @@ bool define_with_value (const char *name, const int value);
 int strnlen (const char *str, int maxlen);
 #endif
 
-char *expand_expr (const char *expr, bool search_local = true);
+char *expand_expr (const char *expr, bool search_local = true, bool group = false);
 
 extern char *curr_input_file;
 extern int line_num;
-- 
2.43.0


From 781f6094d996a0a92fa3b376dc9d6d824dfd29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:23 +0000
Subject: [PATCH 05/94] fix: match the names of buf, clr, wr and run as a whole

Only as many characters as the source name has were compared, so a macro named
b, bu, c, cl, w, r or ru and called with arguments was taken for a built-in.
---
 pass_one.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..4e99b84 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -333,7 +333,7 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		if (name_end - name_start == 3 && !strncasecmp (name_start, "buf", 3) && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
@@ -344,7 +344,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
 			}
 			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "clr", 3) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
@@ -352,7 +352,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
 			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 2 && !strncasecmp (name_start, "wr", 2) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -362,7 +362,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
 			ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "run", 3) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
-- 
2.43.0


From 5836647b2a0e2ef501d601bb871b1585edaea722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 06/94] fix: correct the execution times of 124 instructions

ADC A,L was listed with the time of ADC A,(HL), BIT b,(IX+d) with that of SET,
and most undocumented instructions had no time at all, so -C reported wrong
totals for code using them.
---
 opcodes.cpp      | 246 +++++++++++++++++++++++------------------------
 opcodes_ez80.cpp |   2 +-
 2 files changed, 124 insertions(+), 124 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 4fc4c55..764a94f 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -372,7 +372,7 @@ static instr adc_instrs[] = {
 	{"A,D", {0x8A}, 1, 4, 4, false, 0x00, 1},
 	{"A,E", {0x8B}, 1, 4, 4, false, 0x00, 1},
 	{"A,H", {0x8C}, 1, 4, 4, false, 0x00, 1},
-	{"A,L", {0x8D}, 1, 7, 7, false, 0x00, 1},
+	{"A,L", {0x8D}, 1, 4, 4, false, 0x00, 1},
 	{"A,(HL)", {0x8E}, 1, 7, 7, false, 0x00, 1},
 	{"A,A", {0x8F}, 1, 4, 4, false, 0x00, 1},
 	{"A,&", {0xCE}, 1, 7, 7, false, 0x00, 2},
@@ -443,8 +443,8 @@ static instr and_instrs[] = {
 	{"&", {0xE6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr bit_instrs[] = {
-	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x46, 4},
-	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x46, 4},
+	{"^,(IX@)", {0xCB, 0xDD}, 2, 20, 20, true, 0x46, 4},
+	{"^,(IY@)", {0xCB, 0xFD}, 2, 20, 20, true, 0x46, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0x40, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0x41, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0x42, 2},
@@ -690,22 +690,22 @@ static instr scf_instrs[] = {
 	{"", {0x37}, 1, 4, 4, false, 0x00, 1}};
 
 static instr set_instrs[] = {
-	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC0, 4},
-	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC0, 4},
-	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC1, 4},
-	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC1, 4},
-	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC2, 4},
-	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC2, 4},
-	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC3, 4},
-	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC3, 4},
-	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC4, 4},
-	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC4, 4},
-	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC5, 4},
-	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC5, 4},
+	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC0, 4},
+	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC0, 4},
+	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC1, 4},
+	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC1, 4},
+	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC2, 4},
+	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC2, 4},
+	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC3, 4},
+	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC3, 4},
+	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC4, 4},
+	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC4, 4},
+	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC5, 4},
+	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC5, 4},
 	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC6, 4},
 	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC6, 4},
-	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC7, 4},
-	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC7, 4},
+	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC7, 4},
+	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC7, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0xC0, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0xC1, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0xC2, 2},
@@ -716,48 +716,48 @@ static instr set_instrs[] = {
 	{"^,A", {0xCB}, 1, 8, 8, true, 0xC7, 2}};
 
 static instr sl1_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sla_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x20, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x20, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x21, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x21, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x22, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x22, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x23, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x23, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x24, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x24, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x25, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x25, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x20, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x20, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x21, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x21, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x22, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x22, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x23, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x23, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x24, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x24, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x25, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x25, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x26, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x26, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x27, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x27, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x27, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x27, 4},
 	{"B", {0x20, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x21, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x22, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -768,48 +768,48 @@ static instr sla_instrs[] = {
 	{"A", {0x27, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sll_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sra_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x28, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x28, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x29, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x29, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x28, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x28, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x29, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x29, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2F, 4},
 	{"B", {0x28, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x29, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x2A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -820,22 +820,22 @@ static instr sra_instrs[] = {
 	{"A", {0x2F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr srl_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x38, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x38, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x39, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x39, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x38, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x38, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x39, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x39, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3F, 4},
 	{"B", {0x38, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x39, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x3A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -846,10 +846,10 @@ static instr srl_instrs[] = {
 	{"A", {0x3F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sub_instrs[] = {
-	{ "A,IXH", { 0x94, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0x94, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0x95, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0x95, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0x94, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0x94, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0x95, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0x95, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0x96, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0x96, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,B", { 0x90 }, 1, 4, 4, false, 0x00, 1 },
@@ -861,10 +861,10 @@ static instr sub_instrs[] = {
 	{ "A,(HL)", { 0x96 }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,A", { 0x97 }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,&", { 0xD6 }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0x94, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0x94, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0x95, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0x95, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0x94, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0x94, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0x95, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0x95, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0x96, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0x96, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"B", {0x90}, 1, 4, 4, false, 0x00, 1},
@@ -878,10 +878,10 @@ static instr sub_instrs[] = {
 	{"&", {0xD6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr xor_instrs[] = {
-	{ "A,IXH", { 0xAC, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0xAC, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0xAD, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0xAD, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0xAC, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0xAC, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0xAD, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0xAD, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0xAE, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0xAE, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,A", { 0xAF }, 1, 4, 4, false, 0x00, 1 },
@@ -893,10 +893,10 @@ static instr xor_instrs[] = {
 	{ "A,L", { 0xAD }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,(HL)", { 0xAE }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,&", { 0xEE }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0xAC, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0xAC, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0xAD, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0xAD, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0xAC, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0xAC, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0xAD, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0xAD, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0xAE, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0xAE, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"A", {0xAF}, 1, 4, 4, false, 0x00, 1},
diff --git a/opcodes_ez80.cpp b/opcodes_ez80.cpp
index ac17aa6..ea47781 100644
--- a/opcodes_ez80.cpp
+++ b/opcodes_ez80.cpp
@@ -388,7 +388,7 @@ static instr adc_instrs[] = {
 		{ "A,D", { 0x8A }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,E", { 0x8B }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,H", { 0x8C }, 1, 1, 1, false, 0x00, 1, 0 },
-		{ "A,L", { 0x8D }, 1, 7, 7, false, 0x00, 1, 0 },
+		{ "A,L", { 0x8D }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,(HL)", { 0x8E }, 1, 2, 2, false, 0x00, 1, 0 },
 		{ "A,A", { 0x8F }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,&", { 0xCE }, 1, 2, 2, false, 0x00, 2, 0 },
-- 
2.43.0


From c8ad29b349049a6740dcc347972bb1360c8ad793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 07/94] fix: reject a % that no binary digits follow

A lone % was taken for a binary number without digits and silently counted
as 0.
---
 parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index ea53f75..4279cbf 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -264,6 +264,11 @@ static const char *parse_single_num (const char *expr, int *value) {
 			const char *num_start = ++expr;
 			while (isalnum(*expr))
 				expr++;
+			if (expr == num_start)
+			{
+				SetLastSPASMError(SPASM_ERR_BAD_VALUE_PREFIX, '%');
+				return NULL;
+			}
 			bool succeeded = conv_bin (num_start, expr, value);
 			if (!succeeded)
 			{
-- 
2.43.0


From 76e93fe3fd41a86bc03b0d42849776b8f0288fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 08/94] fix: evaluate all macro arguments before binding the
 first

Each argument became visible as a parameter before the next one was evaluated,
so f(1,x) with #define f(x,y) passed 1 for x twice, and a macro handing its
own parameters on in another order passed wrong values.
---
 utils.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 7a53dc8..25e1911 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -263,6 +263,7 @@ char *eval (const char *expr)
 
 char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 	int num_args = 0;
+	char *values[MAX_ARGS];
 
 	if (curr_arg_set == NULL)
 		return NULL;
@@ -270,9 +271,8 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 	if (*ptr != '(' && define->num_args == 0)
 		return (char *) ptr;
 
-	*curr_arg_set = add_arg_set();
-
-	//then parse each argument and store its value
+	//parse each argument, but don't store any yet: the values
+	// are those of the caller, not of the arguments before them
 	if (*ptr == '(') {
 		ptr = skip_whitespace(ptr + 1);
 		if (*ptr != ')' && !is_end_of_code_line(ptr))
@@ -290,12 +290,11 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 
 				if (*define->args[num_args] == '@')
 				{
-					add_arg(strdup(define->args[num_args++]), strdup(word), *curr_arg_set);
+					values[num_args++] = strdup(word);
 				}
 				else
 				{
-					label_t *label = search_labels(define->name);
-					add_arg(strdup(define->args[num_args++]), eval(word), *curr_arg_set);
+					values[num_args++] = eval(word);
 					//free(evald_word);
 				}
 
@@ -306,9 +305,10 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 		}
 	}
 
-	//fill in the undefined arguments
-	while (num_args < define->num_args)
-		add_arg (strdup (define->args[num_args++]), NULL, *curr_arg_set);
+	//then store their values, and fill in the undefined arguments
+	*curr_arg_set = add_arg_set();
+	for (int i = 0; i < define->num_args; i++)
+		add_arg (strdup (define->args[i]), i < num_args ? values[i] : NULL, *curr_arg_set);
 
 	if (*ptr == ')') ptr++;
 	return (char *) ptr;
-- 
2.43.0


From af75182a23be4eccc9de8eb58f80b71df68f141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 09/94] fix: erase a hash entry before freeing the value that
 holds its key

The map compares and hashes the name inside the value, which hash_remove had
already freed: every #undef read freed memory.
---
 hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash.cpp b/hash.cpp
index 495243e..05124cb 100644
--- a/hash.cpp
+++ b/hash.cpp
@@ -54,8 +54,10 @@ int hash_remove (hash_t *ht, const char *name) {
         return 0;
     }
 
-    ht->remove_callback(location->second);
+    // the key belongs to the value, so it has to go first
+    void *value = location->second;
     ht->erase(location);
+    ht->remove_callback(value);
     return 1;
 }
 
-- 
2.43.0


From f063ec9a4a485e2ce21020666d6d030fd11be71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 10/94] fix: do not open a NULL path for an #import of a
 missing file

---
 preop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..f2422b2 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -589,10 +589,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, name);
 		free(file_path);
 		return ptr;
 	}
-- 
2.43.0


From 146d7610982c87e0a0e21da3325fb271ec34bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 11/94] fix: keep the ADL mode across #include and run()

run_first_pass switched eZ80 ADL mode on each time it started, so an included
file or a run() undid an earlier .assume adl=0 for itself and all code after it.
Set it once, where the other per-assembly state is set.
---
 main.cpp     | 1 +
 pass_one.cpp | 3 ---
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..2a9ed9f 100644
--- a/main.cpp
+++ b/main.cpp
@@ -56,6 +56,7 @@ int run_assembly()
 	line_start = NULL;
 	old_line_num = 0;
 	in_macro = 0;
+	adl_mode = (mode & MODE_EZ80) != 0;
 	line_num = 0;
 #ifdef USE_BUILTIN_FCREATE
 	cur_buf = 0;
diff --git a/pass_one.cpp b/pass_one.cpp
index 4e99b84..80c46e1 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -116,9 +116,6 @@ void do_listing_for_line (char *ptr) {
 void run_first_pass (char *ptr) {
 	line_num = 1;
 	pass_one = true;
-	if (mode & MODE_EZ80) {
-		adl_mode = true;
-	}
 
 	while (!error_occurred && *ptr != '\0') {
 
-- 
2.43.0


From ecfc610d6c2c63ad8f6b0f9edbb4a2206a646e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 12/94] fix: close the #if when skipping reaches its #endif,
 and go on after it

---
 preop.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index f2422b2..895d2a0 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -17,6 +17,7 @@ static char *handle_preop_include (char *ptr);
 char *handle_preop_import (char *ptr);
 char *handle_preop_if (char *ptr);
 static char *skip_until (char *ptr, int *line, int argc, ...);
+static char *skip_endif (char *ptr);
 
 extern bool case_sensitive;
 static define_t *last_define = NULL;
@@ -86,7 +87,7 @@ char *handle_preop (char *ptr) {
 					SetLastSPASMError(SPASM_ERR_ELIF_WITHOUT_IF);
 				}
 				int session = StartSPASMErrorSession();
-				ptr = skip_until(ptr, &line_num, 1, "#endif");
+				ptr = skip_endif(skip_until(ptr, &line_num, 1, "#endif"));
 				EndSPASMErrorSession(session);
 				break;
 			}
@@ -145,7 +146,7 @@ char *handle_preop (char *ptr) {
 			else
 			{
 				int session = StartSPASMErrorSession();
-				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
+				ptr = skip_endif(skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif"));
 				EndSPASMErrorSession(session);
 			}
 			break;
@@ -182,6 +183,8 @@ char *handle_preop (char *ptr) {
 		{
 			int session = StartSPASMErrorSession();
 			ptr = skip_until (ptr, &line_num, 1, "#endcomment");
+			if (line_has_word (ptr, "#endcomment", 11))
+				ptr = skip_whitespace (ptr) + 11;
 			EndSPASMErrorSession(session);
 			break;
 		}
@@ -665,10 +668,31 @@ char *do_if (char *ptr, int condition)
 		{
 			result = handle_preop_if(skip_whitespace(result) + 5);
 		}
+		else
+		{
+			result = skip_endif(result);
+		}
 		return result;
 	}
 }
 
+/*
+ * Ends the current #IF block if
+ * skipping stopped at an #ENDIF,
+ * returns pointer to what follows it
+ */
+
+static char *skip_endif (char *ptr)
+{
+	if (line_has_word(ptr, _T("#endif"), 6))
+	{
+		ptr = skip_whitespace(ptr) + 6;
+		if (nIfLevel > 0)
+			nIfLevel--;
+	}
+	return ptr;
+}
+
 /*
  * Parses argument definitions
  * for a macro, returns a pointer
-- 
2.43.0


From 0dd1eb4d7759980b6f6b0bd352ce417e851e6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 13/94] fix: accept an empty source or include file

---
 utils.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 25e1911..87af395 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -701,10 +701,7 @@ char *get_file_contents (const char *filename) {
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
-		matched &= (unsigned char)c == utf8_endian_mark[i];
+		matched &= c == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-- 
2.43.0


From bcf90660b7744f7c664db53305cd67a1cce682b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 14/94] fix: end a #comment at its #endcomment whatever it
 contains

---
 preop.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 895d2a0..ca94bcc 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -23,6 +23,7 @@ extern bool case_sensitive;
 static define_t *last_define = NULL;
 static int nIfLevel = 0;
 static bool fInMacro = false;
+static bool fInComment = false;
 
 /*
  * Handles a preop, returns the new
@@ -182,7 +183,9 @@ char *handle_preop (char *ptr) {
 		case 10: //COMMENT
 		{
 			int session = StartSPASMErrorSession();
+			fInComment = true;
 			ptr = skip_until (ptr, &line_num, 1, "#endcomment");
+			fInComment = false;
 			if (line_has_word (ptr, "#endcomment", 11))
 				ptr = skip_whitespace (ptr) + 11;
 			EndSPASMErrorSession(session);
@@ -749,7 +752,7 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 		
 		do {
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (line_has_word (line, "#IF", 3)) {
+			if (!fInComment && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From ae23df91ea3339a84407d3d4afaf168a39e4a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 15/94] fix: keep what follows a \0 in a data string

---
 directive.cpp |  4 ++--
 utils.cpp     | 21 ++++++++++++++++-----
 utils.h       |  1 +
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..2e5dbd6 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -545,7 +545,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 			if (*next != '\0') 
 				goto echo_error;
 			
-			reduce_string (word);
+			int length = reduce_string_data (word);
 			if (type == ES_ECHO)
 			{
 				if (echo_target != NULL)
@@ -557,7 +557,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				eb_append((expand_buf_t *) echo_target, word, strlen(word));
 			} else {
 				int i;
-				for (i = 0; word[i]; i++) {
+				for (i = 0; i < length; i++) {
 					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
 						write_out (word[i]);
 	                stats_datasize++;
diff --git a/utils.cpp b/utils.cpp
index 87af395..d1c4d17 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -540,12 +540,22 @@ char *escape_string(const char *input)
  */
 
 char* reduce_string (char* input) {
+	reduce_string_data (input);
+	return input;
+}
+
+/*
+ * The same for data: the string may contain
+ * zero bytes, so returns its length
+ */
+
+int reduce_string_data (char* input) {
 	char *output = input;
 
 	int quote_count = 0;
 	for (int i = 0; input[i] != '\0'; i++, output++)
 	{
-		if (input[i] == '\\')
+		if (input[i] == '\\' && input[i + 1] != '\0')
 		{
 			int value;
 			char pbuf[8] = "'\\ '";
@@ -569,14 +579,15 @@ char* reduce_string (char* input) {
 	// Count the quotes
 	if (quote_count >= 2)
 	{
-		if (input[0] == '"' && input[strlen(input) - 1] == '"')
+		if (input[0] == '"' && output[-1] == '"')
 		{
-			input[strlen(input) - 1] = '\0';
-			memmove(input, input + 1, strlen(input));
+			output -= 2;
+			memmove(input, input + 1, output - input);
+			*output = '\0';
 		}
 	}
 	
-	return input;
+	return output - input;
 }
 
 /*
diff --git a/utils.h b/utils.h
index 4310503..62f39d3 100644
--- a/utils.h
+++ b/utils.h
@@ -32,6 +32,7 @@ char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg
 bool line_has_word (char *ptr, const char *word, int word_len);
 char *escape_string(const char *input);
 char *reduce_string (char* input);
+int reduce_string_data (char* input);
 char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
-- 
2.43.0


From 3d842f0c19fe511f61cbc394fabf5a41ca808cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 16/94] fix: reject an application whose signature does not fit
 on its only page

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..885c436 100644
--- a/export.cpp
+++ b/export.cpp
@@ -222,7 +222,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 
 /* Check if size will fit in mem with signature */
 	if ((tempnum = ((size+96)%16384))) {
-		if (tempnum < 97 && size > 16384)
+		if (tempnum < 97 && size + 96 > 16384)
 		{
 			free(buffer);
 			SetLastSPASMError(SPASM_ERR_SIGNER_ROOM_FOR_SIG);
-- 
2.43.0


From 483cd7576b67aa70f82119784904efe19e4c4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 17/94] fix: checksum of HEX page records from page 256 on

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 885c436..781d27b 100644
--- a/export.cpp
+++ b/export.cpp
@@ -672,7 +672,7 @@ void intelhex (FILE* outfile, const unsigned char* buffer, int size, unsigned in
 	//We are in binary mode, we must handle carriage return ourselves.
    
 	while (bpnt < size){
-		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page)) +1));
+		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + (page>>8) + page)) +1));
 		page++;
 		address = base_address;
 		for (i = 0; bpnt < size && i < 512; i++) {
-- 
2.43.0


From 4dee7c252f6f1848f37303cf98f48c297161e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:28 +0000
Subject: [PATCH 18/94] fix: section length of .86s files counts the name
 length byte

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 781d27b..d4fe69e 100644
--- a/export.cpp
+++ b/export.cpp
@@ -541,7 +541,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	if (calc == TYPE_85P) {
 		temp = size + 8 + strlen (namestring);
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-- 
2.43.0


From a4690e28b53a2c99c4e576baa28185d0b421f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:30 +0000
Subject: [PATCH 19/94] fix: write .85s files as TI-85 files with their real
 lengths

---
 export.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index d4fe69e..49a3066 100644
--- a/export.cpp
+++ b/export.cpp
@@ -523,7 +523,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (pnt[2],outfile);
 	fputc (fileheader[i++],outfile);
 	fputc (fileheader[i++],outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
 	} else {
 		fputc (fileheader[i++],outfile);
@@ -538,14 +538,14 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		temp = size + 8 + strlen (namestring);
 	} else {
 		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		chksum = fputc((6+strlen(namestring)),outfile);
 	} else {
 		chksum = fputc(pnt[3],outfile);
-- 
2.43.0


From 2ba71f3ba825133a3b00698cbe83dfcbd9e55aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 20/94] fix: name length of TI-85/86 files never exceeds the
 eight characters stored

---
 export.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/export.cpp b/export.cpp
index 49a3066..1df3338 100644
--- a/export.cpp
+++ b/export.cpp
@@ -495,6 +495,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
+	/* Only eight characters of the name are stored */
+	if (strlen (namestring) > 8)
+		namestring[8] = '\0';
 	/* get size */
 	if (calc==TYPE_83P) {
 		size *= 2; // Double size to account for character conversion of hex opcodes
-- 
2.43.0


From 8844761035acbe4de84879053e1dbd8fc2181dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 21/94] fix: leave the directory out of the variable name of
 .82p files

---
 export.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/export.cpp b/export.cpp
index 1df3338..dad1db8 100644
--- a/export.cpp
+++ b/export.cpp
@@ -469,25 +469,25 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
+	// Find basename(prgmname)
+	const char *baseName = prgmname + strlen(prgmname) - 1;
+	bool found = false;
+	while (baseName > prgmname) {
+		if (*baseName == '/' || *baseName == '\\') {
+			found = true;
+			break;
+		}
+		baseName -= 1;
+	}
+	if (found) {
+		baseName += 1;
+	}
+
 	if (calc==TYPE_82P) {
 		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
+		snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
 		namestring = strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
 		// Use the base filename (no directory, if given) as the program name.
 		namestring = strdup(baseName);
 		/* The name must be capital letters and numbers */
-- 
2.43.0


From 663090d37d51156e5b41432ebeda48dfcab8f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 22/94] fix: end the signature of TI-85 files with 0C 00

---
 export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export.cpp b/export.cpp
index dad1db8..5ed9a71 100644
--- a/export.cpp
+++ b/export.cpp
@@ -528,6 +528,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (fileheader[i++],outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From c123f6ec1339560f97805d4e91e4b53cbd6dcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 23/94] fix: -D without a value does not read past its argument

---
 main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 2a9ed9f..f853416 100644
--- a/main.cpp
+++ b/main.cpp
@@ -362,7 +362,7 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
+				if (*ptr == '=' && *skip_whitespace (++ptr) != '\0')
 					define->contents = strdup (ptr);
 				else
 					set_define (define, "1", 1, false);
-- 
2.43.0


From 2e4c3e50de19ed32b154a020705124fe2b3d5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 24/94] fix: -A applies to the names defined with -D

---
 main.cpp | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/main.cpp b/main.cpp
index f853416..661fbdb 100644
--- a/main.cpp
+++ b/main.cpp
@@ -256,7 +256,7 @@ int main (int argc, char **argv)
 {
 	int curr_arg = 1;
 	bool case_sensitive = false;
-	bool is_storage_initialized = false;
+	list_t *cmdline_defines = NULL;
 
 	use_colors = true;
 	extern WORD user_attributes;
@@ -338,15 +338,7 @@ int main (int argc, char **argv)
 			//handle adding defines
 			case 'D':
 			{
-				char name[256];
 				char *ptr;
-				define_t *define;
-
-				if (!is_storage_initialized)
-				{
-					init_storage();
-					is_storage_initialized = true;
-				}
 
 				if (strlen (argv[curr_arg]) > 2) {
 					ptr = &argv[curr_arg][2];
@@ -359,13 +351,8 @@ int main (int argc, char **argv)
 					ptr = argv[++curr_arg];
 				}
 
-				read_expr (&ptr, name, "=");
-
-				define = add_define (strdup (name), NULL);
-				if (*ptr == '=' && *skip_whitespace (++ptr) != '\0')
-					define->contents = strdup (ptr);
-				else
-					set_define (define, "1", 1, false);
+				//the define itself is made when it's known whether names are case sensitive
+				cmdline_defines = list_append (cmdline_defines, ptr);
 				break;
 			}
 			case 'V':
@@ -423,6 +410,27 @@ int main (int argc, char **argv)
 
 	// Update case sensitivity settings
 	set_case_sensitive (case_sensitive);
+
+	//add the defines from the command line
+	init_storage();
+	while (cmdline_defines)
+	{
+		char name[256];
+		char *ptr = (char *) cmdline_defines->data;
+		define_t *define;
+
+		read_expr (&ptr, name, "=");
+
+		define = add_define (strdup (name), NULL);
+		if (*ptr == '=' && *skip_whitespace (++ptr) != '\0')
+			define->contents = strdup (ptr);
+		else
+			set_define (define, "1", 1, false);
+
+		list_t *next = cmdline_defines->next;
+		list_free_node (cmdline_defines);
+		cmdline_defines = next;
+	}
 	
 	//check on filenames
 	if (!(mode & MODE_COMMANDLINE) && curr_input_file == starting_input_file) {
@@ -439,11 +447,6 @@ int main (int argc, char **argv)
 		output_filename = change_extension (curr_input_file, "bin");
 	}
 
-	if (!is_storage_initialized)
-	{
-		init_storage();
-		is_storage_initialized = true;
-	}
 	output_contents = (unsigned char *) malloc(output_buf_size);
 	ClearSPASMErrorSessions();
 
-- 
2.43.0


From b2dfa7d22dfacc99bde8e9187619e91e4b1426a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 25/94] fix: do not crash on -D without a name

---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 661fbdb..aba6994 100644
--- a/main.cpp
+++ b/main.cpp
@@ -422,7 +422,9 @@ int main (int argc, char **argv)
 		read_expr (&ptr, name, "=");
 
 		define = add_define (strdup (name), NULL);
-		if (*ptr == '=' && *skip_whitespace (++ptr) != '\0')
+		if (define == NULL)
+			puts ("-D used without define name");
+		else if (*ptr == '=' && *skip_whitespace (++ptr) != '\0')
 			define->contents = strdup (ptr);
 		else
 			set_define (define, "1", 1, false);
-- 
2.43.0


From f23406a5b656c2f3b16d6c2e9f4baa568dfacd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 26/94] fix: quotes and semicolons in character literals and
 escaped backslashes in defines

---
 utils.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index d1c4d17..14fde00 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -97,10 +97,18 @@ char *skip_to_line_end (const char *ptr) {
 	if (ptr == NULL)
 		return NULL;
 
+	const char *start = ptr;
 	while (*ptr && *ptr != '\n' && *ptr != '\r' && (*ptr != ';' || in_quotes)) {
-		if (*ptr == '\\') in_escape = true;
-		else if (*ptr == '\"' && !in_escape) in_quotes = !in_quotes;
-		else in_escape = false;
+		if (in_escape) in_escape = false;
+		else if (*ptr == '\\') in_escape = true;
+		else if (*ptr == '\"') in_quotes = !in_quotes;
+		else if (*ptr == '\'' && !in_quotes && (ptr == start || !isalnum ((unsigned char) ptr[-1]))) {
+			//skip the character of a literal, which isn't code even if it's a quote or semicolon
+			const char *end = ptr + 1;
+			if (*end == '\\') end++;
+			if (*end && *end != '\n' && *end != '\r' && end[1] == '\'')
+				ptr = end + 1;
+		}
 
 		ptr++;
 	}
-- 
2.43.0


From cd7f4d7d12418dc252426ca917a2fafeeec73c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 27/94] fix: keep .fill, .seek and other output inside the
 output buffer

---
 directive.cpp | 16 ++++++++++++++--
 pass_one.cpp  | 15 ++++++++++++++-
 pass_one.h    |  1 +
 preop.cpp     |  2 +-
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 2e5dbd6..de11179 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -123,6 +123,12 @@ char *handle_directive (const char *ptr) {
 				break;
 			}
 
+			if ((unsigned int) size > output_room ()) {
+				show_fatal_error ("The size %d is larger than the space left in the output", size);
+				listing_on = old_listing_on;
+				break;
+			}
+
 			if (fill_value < -128 || fill_value > 255)
 			{
 				SetLastSPASMWarning(SPASM_WARN_TRUNCATING_8);
@@ -444,10 +450,16 @@ addinstr_fail:
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
-			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents)))
+			if ((long long) value - (int) program_counter > (long long) output_room ())
+			{
 				show_fatal_error ("Seek location %d out of bounds", value);
-			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
+				break;
+			}
+			else if ((long long) value - (int) program_counter + (out_ptr - output_contents) < 0)
+			{
 				show_fatal_error ("Seek value %d too small", value);
+				break;
+			}
 		
 			out_ptr += value - ((int) program_counter);
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
diff --git a/pass_one.cpp b/pass_one.cpp
index 80c46e1..07b6043 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -66,12 +66,25 @@ int write_out (int val) {
 	}
 
 	//if (mode & MODE_NORMAL)
-	*(out_ptr++) = val;
+	if (output_room () > 0)
+		*(out_ptr++) = val;
+	else if (!error_occurred)
+		show_fatal_error ("Output is larger than the maximum of %u bytes", output_buf_size);
 
 	return val;
 }
 
 
+/*
+ * Returns the number of bytes that
+ * still fit in the output buffer
+ */
+
+unsigned int output_room () {
+	return output_buf_size - (unsigned int) (out_ptr - output_contents);
+}
+
+
 /*
  * Writes listing for a single line, not
  * including hex data (handled by write_out)
diff --git a/pass_one.h b/pass_one.h
index a54cf62..0fb4d67 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -9,6 +9,7 @@ typedef enum {
 void run_first_pass (char *ptr);
 char *run_first_pass_line (char *ptr);
 int write_out (int);
+unsigned int output_room ();
 char *handle_opcode_or_macro (char *ptr);
 void do_listing_for_line (char *ptr);
 
diff --git a/preop.cpp b/preop.cpp
index ca94bcc..ed6ed44 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -606,7 +606,7 @@ char *handle_preop_import (char *ptr) {
 	free(file_path);
 
 	//write the contents to the output
-	while ((c = fgetc(import_file)) != EOF)
+	while (!error_occurred && (c = fgetc(import_file)) != EOF)
 	{
 		write_out (c);
 		program_counter++;
-- 
2.43.0


From 15ad963690c291752b621aa4a5dc01dd8e4f0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 28/94] fix: .seek with -O found the output shorter than it is

---
 directive.cpp | 3 +--
 pass_one.cpp  | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index de11179..3adb28e 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -570,8 +570,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 			} else {
 				int i;
 				for (i = 0; i < length; i++) {
-					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
-						write_out (word[i]);
+					write_out (word[i]);
 	                stats_datasize++;
 	                program_counter++;
 				}
diff --git a/pass_one.cpp b/pass_one.cpp
index 07b6043..205b0c4 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -684,11 +684,8 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 	}
 
 	//write the actual instruction data first
-	if (mode & MODE_NORMAL || mode & MODE_LIST) {
-		int i;
-		for (i = curr_instr->instr_size - 1; i >= 0; i--)
-			write_out (curr_instr->instr_data[i]);
-	}
+	for (i = curr_instr->instr_size - 1; i >= 0; i--)
+		write_out (curr_instr->instr_data[i]);
 
 	//then the arguments, if there are any
 	for (i = 0; curr_instr->args[i]; i++) {
@@ -767,7 +764,7 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 	}
 
 	//if there's extra data at the end of the instruction, write that too
-	if (curr_instr->has_end_data && (mode & MODE_NORMAL || mode & MODE_LIST)) {
+	if (curr_instr->has_end_data) {
 		if (has_bit_arg)
 			add_pass_two_expr (bit_arg_text, ARG_BIT_NUM, size, curr_instr->end_data);
 		else
-- 
2.43.0


From d10f1130f5b89ee6e7e3e4da3d9760491cd531e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 29/94] fix: allow more than 4096 reusable labels

---
 storage.cpp | 7 ++++++-
 storage.h   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index ece6b5f..3b790aa 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -18,7 +18,8 @@ extern bool error_occurred;
 
 #ifdef USE_REUSABLES
 extern unsigned int program_counter;
-unsigned int reusables[MAX_REUSABLES];
+static unsigned int *reusables = NULL;
+static int reusables_size = 0;
 extern int total_reusables, curr_reusable;
 #endif
 
@@ -511,6 +512,10 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
  * write a new reusable label
  */
 void add_reusable() {
+	if (curr_reusable >= reusables_size) {
+		reusables_size += MAX_REUSABLES;
+		reusables = (unsigned int *) realloc (reusables, reusables_size * sizeof (unsigned int));
+	}
 	reusables[curr_reusable++] = program_counter;
 	total_reusables = curr_reusable;
 }
diff --git a/storage.h b/storage.h
index fbd3063..ef1da7d 100644
--- a/storage.h
+++ b/storage.h
@@ -10,7 +10,7 @@
 #endif
 
 #define MAX_ARGS 16    //max number of args macros can have
-#define MAX_REUSABLES 4096 //max number of reusable labels
+#define MAX_REUSABLES 4096 //number of reusable labels to make room for at a time
 
 //used for defines and macros
 typedef struct define {
-- 
2.43.0


From 3e4efbd295431d8ed8f0a58dbcef4b1bfaa5e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 30/94] fix: count imported and bitmap bytes in the data size

---
 preop.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index ed6ed44..03893f0 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -497,7 +497,9 @@ static char *handle_preop_include (char *ptr)
 	
 	if (IsFileBitmap(file))
 	{
+		unsigned int start = program_counter;
 		handle_bitmap(file);
+		stats_datasize += program_counter - start;
 		fclose (file);
 		free (file_path);
 	}
@@ -610,6 +612,7 @@ char *handle_preop_import (char *ptr) {
 	{
 		write_out (c);
 		program_counter++;
+		stats_datasize++;
 	}
 
 	fclose (import_file);
-- 
2.43.0


From 756e805b0cc99cb76e606cf45e21c976506a3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 31/94] fix: keep labels and equates in code counter mode

---
 storage.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 3b790aa..36fbf00 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -564,11 +564,6 @@ label_t *add_label (char *name, int value) {
 	label_t *new_label;
 	define_t *conflict_define;
 
-	if (mode & MODE_CODE_COUNTER) {
-		free(name);
-		return NULL;
-	}
-
 	if (!case_sensitive) {
 		char *new_name = strup (name);
 		free (name);
-- 
2.43.0


From 70f8b1d467650de9f42e4d905b57ed35492185a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 32/94] fix: .echo prints forward references instead of
 dropping them

---
 directive.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 3adb28e..136beed 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -298,21 +298,10 @@ addinstr_fail:
 				int session = StartSPASMErrorSession();
 				parse_emit_string (expr, ES_ECHO, NULL);
 
-				if (IsSPASMErrorSessionFatal(session) == true)
+				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
 					add_pass_two_output (expr, OUTPUT_ECHO);
 				}
-				else if (GetSPASMErrorSessionErrorCount(session) > 0)
-				{
-					WORD orig_attributes = save_console_attributes();
-					set_console_attributes(COLOR_GREEN);
-					int internal_session = StartSPASMErrorSession();
-					parse_emit_string (expr, ES_ECHO, stdout);
-					restore_console_attributes(orig_attributes);
-					EndSPASMErrorSession(internal_session);
-
-					ReplaySPASMErrorSession(session);
-				}
 				else
 				{
 					expand_buf_t *echo = eb_init(256);
-- 
2.43.0


From 56b645574c52d8fa12a2eb30b41b1dee751d85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 33/94] fix: inserting an empty text keeps the insertion offset

---
 expand_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand_buf.cpp b/expand_buf.cpp
index c8e1836..f3c3d1a 100644
--- a/expand_buf.cpp
+++ b/expand_buf.cpp
@@ -50,7 +50,7 @@ int eb_insert (expand_buf *buf, int offset, const char *text, size_t length) {
 		length = strlen (text);
 
 	if (length == 0)
-		return 0;
+		return offset;
 
 	//if the string's too long for the buffer to hold, expand it
 	if ((size_t) (buf->end + length - buf->start) > buf->size) {
-- 
2.43.0


From 80edb850eb0ce7ff93a203459a85e90322b10beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 34/94] fix: check text buffer numbers and run() a buffer that
 its own contents change

---
 pass_one.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 205b0c4..9f1affc 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -348,12 +348,13 @@ char *handle_opcode_or_macro (char *ptr) {
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
+			if (parse_num(buf, &value) && value >= 0 && value < MAX_BUFFERS) {
 				cur_buf = value;
 			} else {
-				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
+				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, _T("buf"));
 			}
-			ptr++;
+			if (*ptr == ')')
+				ptr++;
 		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "clr", 3) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
@@ -361,7 +362,9 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
-			ptr += 2;
+			ptr++;
+			if (*ptr == ')')
+				ptr++;
 		} else if (name_end - name_start == 2 && !strncasecmp (name_start, "wr", 2) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
@@ -370,7 +373,8 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
-			ptr++;
+			if (*ptr == ')')
+				ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
 		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "run", 3) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
@@ -382,6 +386,10 @@ char *handle_opcode_or_macro (char *ptr) {
 			{
 				char *fcreate_string = eb_extract(eb_fcreate);
 
+				//its contents may select, clear or run buffers themselves
+				eb_free(eb_fcreate);
+				fcreate_bufs[cur_buf] = NULL;
+
 				//make sure the listing for this line is finished up BEFORE
 				// the new file is parsed and writes its listing stuff all over
 				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
@@ -422,8 +430,6 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 
 				free(fcreate_string);
-				eb_free(fcreate_bufs[cur_buf]);
-				fcreate_bufs[cur_buf] = NULL;
 
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
@@ -432,7 +438,9 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 				EndSPASMErrorSession(session);
 			}
-			ptr += 2;
+			ptr++;
+			if (*ptr == ')')
+				ptr++;
 		} else
 #endif
 
-- 
2.43.0


From b54e9f39c99c5bbb19593a87df14c564b2ec54ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 35/94] fix: faulty strings and faulty items of list defines
 are diagnosed

---
 directive.cpp | 35 +++++++++++++++++++++++++++++++----
 errors.h      |  2 ++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 136beed..ddffbbd 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -520,6 +520,21 @@ void show_define (define_t *define) {
 }
 
 
+/*
+ * Returns a pointer to what follows the string literal that
+ * starts at ptr, or NULL if its closing quote is missing
+ */
+
+static const char *skip_string (const char *ptr) {
+	for (ptr++; *ptr != '\0'; ptr++) {
+		if (*ptr == '"')
+			return ptr + 1;
+		if (*ptr == '\\' && ptr[1] != '\0')
+			ptr++;
+	}
+	return NULL;
+}
+
 /*
  * Parses a list of values and strings,
  * either prints them to the output,
@@ -542,10 +557,19 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		// handle strings
 		if (word[0] == '"')
 		{
-			char *next = next_expr (word, EXPR_DELIMS);
-			if (*next != '\0') 
-				goto echo_error;
-			
+			const char *next = skip_string (word);
+			if (next == NULL)
+			{
+				SetLastSPASMError(SPASM_ERR_STRING_NOT_CLOSED);
+				continue;
+			}
+			next = skip_whitespace (next);
+			if (*next != '\0')
+			{
+				SetLastSPASMError(SPASM_ERR_SYNTAX);
+				continue;
+			}
+
 			int length = reduce_string_data (word);
 			if (type == ES_ECHO)
 			{
@@ -690,7 +714,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						if (extract_arg_string(&nested_expr, &nested_context) != NULL)
 						{
 							// if it is, plug it in to the emit string
+							EndSPASMErrorSession(session);
+							session = StartSPASMErrorSession();
 							parse_emit_string(expr, type, echo_target);
+							ReplaySPASMErrorSession(session);
 						}
 						else
 						{
diff --git a/errors.h b/errors.h
index 6f8843d..b30ebd7 100644
--- a/errors.h
+++ b/errors.h
@@ -43,6 +43,7 @@ SPASMERROR, *LPSPASMERROR;
 #define SPASM_ERR_RECURSION_DEPTH			0x129
 #define SPASM_ERR_LABEL_CONFLICT			0x130
 #define SPASM_ERR_INVALID_INDEX_OFFSET		0x131
+#define SPASM_ERR_STRING_NOT_CLOSED			0x132
 
 #define SPASM_ERR_INVALID_DECIMAL_DIGIT		0x200
 #define SPASM_ERR_INVALID_HEX_DIGIT			0x201
@@ -114,6 +115,7 @@ SPASMERROR g_ErrorCodes[]
 	{SPASM_ERR_RECURSION_DEPTH,			_T("Expression is too deep (only %d levels allowed)")},
 	{SPASM_ERR_LABEL_CONFLICT,			_T("Conflicting definition of '%s' at %s:%d")},
 	{SPASM_ERR_INVALID_INDEX_OFFSET,	_T("Index offset is expected to begin with '+' or '-' or be missing")},
+	{SPASM_ERR_STRING_NOT_CLOSED,		_T("Missing closing quote")},
 
 	{SPASM_ERR_INVALID_DECIMAL_DIGIT,	_T("Invalid digit '%c' in the decimal number '%s'")},
 	{SPASM_ERR_INVALID_HEX_DIGIT,		_T("Invalid digit '%c' in the hexadecimal number '%s'")},
-- 
2.43.0


From 81885047c9b8db67ea9eb35b81dd6f0b81254ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 36/94] fix: values needed at once are diagnosed when they are
 not known

---
 directive.cpp | 18 +++++++++++-------
 errors.h      |  2 ++
 parser.cpp    | 18 ++++++++++++++++++
 parser.h      |  1 +
 pass_one.cpp  |  2 +-
 5 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index ddffbbd..caab476 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -77,7 +77,7 @@ char *handle_directive (const char *ptr) {
 			bool fResult = read_expr(&ptr, value_str, "");
 			if (fResult == true)
 			{
-				if (parse_num(value_str, &value) == true)
+				if (parse_num_now(value_str, &value) == true)
 				{
 					if (value < 0)
 					{
@@ -104,14 +104,14 @@ char *handle_directive (const char *ptr) {
 			//listing_on = false;
 
 			read_expr (&ptr, szSize, ",");
-			parse_num (szSize, &size);
+			parse_num_now (szSize, &size);
 			ptr = skip_whitespace (ptr);
 			if (*ptr == ',')
 				ptr++;
 
 			if (read_expr (&ptr, szFill, "")) {
 				//if there's a value to fill the block with, then handle that
-				parse_num (szFill, &fill_value);
+				parse_num_now (szFill, &fill_value);
 			} else {
 				//otherwise use 0
 				fill_value = 0;
@@ -360,8 +360,7 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			if (!parse_num (value_str, &value) && parser_forward_ref_err) {
-			} else {
+			if (parse_num_now (value_str, &value)) {
 				if (last_label == NULL)
 					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
 				else
@@ -435,7 +434,8 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			parse_num (value_str, (int *) &value);
+			if (!parse_num_now (value_str, (int *) &value))
+				break;
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
@@ -645,6 +645,9 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				switch (type) 
 				{
 				case ES_ECHO:
+					//a file is written at once, unlike the console
+					if (echo_target != NULL && pass_one)
+						SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, word);
 					break;
 				case ES_BYTE: 
 					{
@@ -764,7 +767,8 @@ echo_error:
 						}
 					case ES_FCREATE:
 						{
-							SetLastSPASMError(SPASM_ERR_LABEL_NOT_FOUND, word);
+							if (!IsSPASMErrorSessionFatal(session))
+								SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, word);
 							eb_append((expand_buf_t *) echo_target, "(error)", -1);
 							break;
 						}
diff --git a/errors.h b/errors.h
index b30ebd7..d2d01f3 100644
--- a/errors.h
+++ b/errors.h
@@ -44,6 +44,7 @@ SPASMERROR, *LPSPASMERROR;
 #define SPASM_ERR_LABEL_CONFLICT			0x130
 #define SPASM_ERR_INVALID_INDEX_OFFSET		0x131
 #define SPASM_ERR_STRING_NOT_CLOSED			0x132
+#define SPASM_ERR_VALUE_NOT_KNOWN			0x133
 
 #define SPASM_ERR_INVALID_DECIMAL_DIGIT		0x200
 #define SPASM_ERR_INVALID_HEX_DIGIT			0x201
@@ -116,6 +117,7 @@ SPASMERROR g_ErrorCodes[]
 	{SPASM_ERR_LABEL_CONFLICT,			_T("Conflicting definition of '%s' at %s:%d")},
 	{SPASM_ERR_INVALID_INDEX_OFFSET,	_T("Index offset is expected to begin with '+' or '-' or be missing")},
 	{SPASM_ERR_STRING_NOT_CLOSED,		_T("Missing closing quote")},
+	{SPASM_ERR_VALUE_NOT_KNOWN,			_T("The value of '%s' has to be known here")},
 
 	{SPASM_ERR_INVALID_DECIMAL_DIGIT,	_T("Invalid digit '%c' in the decimal number '%s'")},
 	{SPASM_ERR_INVALID_HEX_DIGIT,		_T("Invalid digit '%c' in the hexadecimal number '%s'")},
diff --git a/parser.cpp b/parser.cpp
index 4279cbf..9196d98 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -125,6 +125,24 @@ bool parse_num (const char *expr, int *value) {
 	return (result != NULL);
 }
 
+/*
+ * The same where the value can't be
+ * filled in by the second pass: a symbol
+ * that isn't defined yet is an error
+ */
+
+bool parse_num_now (const char *expr, int *value) {
+	int session = StartSPASMErrorSession();
+	bool result = parse_num (expr, value);
+
+	if (!result && !IsSPASMErrorSessionFatal(session))
+		SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, skip_whitespace(expr));
+
+	ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+	return result;
+}
+
 /*
  * Parses expression,
  * ignoring errors
diff --git a/parser.h b/parser.h
index 6cb90f9..ffe1d8e 100644
--- a/parser.h
+++ b/parser.h
@@ -8,6 +8,7 @@
 extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
+bool parse_num_now (const char *expr, int *value);
 char *parse_define (define_t *define);
 int parse_f (const char *expr);
 bool conv_hex (const char *start, const char *end, int *output_num);
diff --git a/pass_one.cpp b/pass_one.cpp
index 9f1affc..ce679fa 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -255,7 +255,7 @@ char *run_first_pass_line_sec (char *ptr) {
 		ptr++;
 		read_expr (&ptr, value_str, "");
 
-		if (parse_num (value_str, &value) == true)
+		if (parse_num_now (value_str, &value) == true)
 		{
 			if (last_label == NULL) {
 				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-- 
2.43.0


From 95e4b735e78f62a3af5f7b7f25a81981ecf2adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:55 +0000
Subject: [PATCH 37/94] fix: a closing parenthesis without an opening one is
 diagnosed

---
 pass_one.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index ce679fa..0219fbe 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -185,6 +185,10 @@ char *run_first_pass_line (char *ptr) {
 			return NULL;
 		ptr = skip_whitespace (ptr);
 
+		//operands end early at a closing parenthesis without an opening one
+		if (*ptr == ')')
+			SetLastSPASMError(SPASM_ERR_SYNTAX);
+
 		//when that's done, skip any whitespace and see if more is stuck on the end with a backslash -
 		// if so, keep looping until this line's done
 	} while (!error_occurred && *ptr == '\\');
-- 
2.43.0


From 30933cc818908eb9d7403667111c5741f919d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 38/94] fix: a #define built with concat() reads its closing
 parenthesis

---
 preop.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index 03893f0..91e2272 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -384,6 +384,8 @@ char *handle_preop_define (const char *ptr) {
 			set_define (define, contents, -1, redefined);
 			free(contents);
 			eb_free(buffer);
+			if (*eval_ptr == ')')
+				eval_ptr++;
 			ptr = eval_ptr;
 			
 		} else {
-- 
2.43.0


From c6c6e1a9488ec638b51779fcc37e79d9d8748078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:05 +0000
Subject: [PATCH 39/94] fix: a list define may start with a forward reference

---
 directive.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index caab476..18f47c1 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -535,6 +535,25 @@ static const char *skip_string (const char *ptr) {
 	return NULL;
 }
 
+/*
+ * Returns TRUE if the item of a list is the
+ * name of a define that holds a list itself
+ */
+
+static bool is_list_define (char *item) {
+	char name[256];
+	define_t *define;
+	arg_context_t context = ARG_CONTEXT_INITIALIZER;
+
+	read_expr (&item, name, "(");
+	read_expr (&item, NULL, ")");
+	if (*item != '\0' || !(define = search_defines (name)) || define->contents == NULL)
+		return false;
+
+	const char *contents = define->contents;
+	return extract_arg_string (&contents, &context) != NULL && context.fExpectingMore;
+}
+
 /*
  * Parses a list of values and strings,
  * either prints them to the output,
@@ -640,7 +659,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 				ReplaySPASMErrorSession(session);
 			}
-			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE)
+			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE && !is_list_define(word))
 			{
 				switch (type) 
 				{
-- 
2.43.0


From 32bad681b81bb1b4d5b3a4e7952b99c2e9c6c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 40/94] fix: scanning an expression no longer reads the rest of
 the file for every character

---
 utils.cpp | 27 ++-------------------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 14fde00..baca152 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -20,29 +20,6 @@ static void destroy_char_value (label_t *label) {
 		free (label);
 }
 
-/* Routine prototype */
-char *mystrpbrk (const char * string, const char * control) {
-	const unsigned char *str =  (const unsigned char *) string;
-	const unsigned char *ctrl = (const unsigned char *) control;
-
-	int map[256];
-	memset(map, 0, sizeof(map));
-
-	while (*ctrl)
-	{
-		map[*ctrl++] = true;
-	}
-
-	/* 1st char in control map stops search */
-	while (*str)
-	{
-		if (map[*str])
-			return((char *)str);
-		str++;
-	}
-	return NULL;
-}
-
 /*
  * Returns true if ptr has reached what is the end of an assembly
  * line of code.
@@ -180,7 +157,7 @@ char *next_expr (const char *ptr, const char *delims) {
 			ptr++;
 		}
 	} else {
-		while (*ptr != '\0' && !((mystrpbrk (ptr, delims) == ptr || is_end_of_code_line (ptr))
+		while (*ptr != '\0' && !((strchr (delims, *ptr) != NULL || is_end_of_code_line (ptr))
 					&& !in_escape && !in_string && in_quote == 0)) {
 
 			if (!in_escape) {
@@ -421,7 +398,7 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 		return false;
 	}
 
-	while (**ptr != '\0' && !((mystrpbrk (*ptr, delims) == *ptr || is_end_of_code_line (*ptr))
+	while (**ptr != '\0' && !((strchr (delims, **ptr) != NULL || is_end_of_code_line (*ptr))
 				&& !in_escape && !in_string && in_quote == 0 && level == 0)) {
 
 		if (!in_escape) {
-- 
2.43.0


From 038f714543ad1454ad8d56b0474576d7241803e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 41/94] fix: next_expr no longer searches the rest of the file
 for every character

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index baca152..62b5f67 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -130,7 +130,7 @@ char *next_expr (const char *ptr, const char *delims) {
 		return (char *) ptr;
 
 	if (strlen(delims) == 1) {
-		while (*ptr != '\0' && !((strchr (ptr, delims[0]) == ptr || is_end_of_code_line (ptr))
+		while (*ptr != '\0' && !((*ptr == delims[0] || is_end_of_code_line (ptr))
 					&& !in_escape && !in_string && in_quote == 0)) {
 
 			if (!in_escape) {
-- 
2.43.0


From 247c372838e2f50aeef7cef50df3b01435c74062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 42/94] fix: a comment or backslash may directly follow a
 directive or preprocessor word

---
 directive.cpp | 2 +-
 preop.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 18f47c1..5dfa6bb 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -26,7 +26,7 @@ char *handle_directive (const char *ptr) {
 	//same deal as handle_preop, just with directives instead
 	bool valid_directive = false;
 	unsigned name_len = 0;
-	while (ptr[name_len] != 0 && !isspace(ptr[name_len])) {
+	while (!is_end_of_code_line(&ptr[name_len]) && !isspace(ptr[name_len])) {
 		name_len++;
 	}
 
diff --git a/preop.cpp b/preop.cpp
index 91e2272..5194606 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -38,7 +38,7 @@ char *handle_preop (char *ptr) {
 
 	//first get the name
 	name_end = ptr;
-	while (*name_end != 0 && !isspace(*name_end))
+	while (!is_end_of_code_line (name_end) && !isspace(*name_end))
 		name_end++;
 	name = strndup (ptr, name_end - ptr);
 
-- 
2.43.0


From 02f5508f902d7b4c0315ddfcc70e444140776c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:35 +0000
Subject: [PATCH 43/94] fix: a bitmap header format in quotes is taken without
 them

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..c7c1d6b 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -77,7 +77,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 		if (def_hdr_fmt == NULL)
 			return;
 		
-		hdr = strdup(def_hdr_fmt->contents);
+		hdr = strdup(skip_whitespace(def_hdr_fmt->contents));
 		reduce_string(hdr);
 
 		for (p = strtok(hdr, ",;x "); p; p = strtok(NULL, ",;x ")) {
-- 
2.43.0


From e697d5cc9b931c45548c357d9c37dd47b9c01bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 44/94] fix: the size in a bitmap header counts every layer and
 the mask

---
 bitmap.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index c7c1d6b..df768a9 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -105,10 +105,15 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 			else if (!strcasecmp(p, "b"))
 				write_out(parse_f("__BM_SHD"));
 			else if (!strcasecmp(p, "s") || !strcasecmp(p, "ss")) {
-				int size = ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
-				if (define_with_value ("__BM_SHD", 4)) size *=2;
-				else if (define_with_value ("__BM_SHD", 8)) size *=4;
-				if (define_with_value ("__BM_MASK", 1)) size += ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
+				int width = r->right - r->left, min_w = parse_f("__BM_MIN_W");
+				int layers = (int) log2((WORD) parse_f("__BM_SHD"));
+				if (define_with_value ("__BM_MSK", 1)) layers++;
+
+				//as handle_bitmap writes it: in columns of min_w pixels, or padded to that width
+				int row_size = (max(width, min_w) + 7)/8;
+				if (min_w > 0 && width > min_w)
+					row_size = (width + min_w - 1)/min_w * ((min_w + 7)/8);
+				int size = row_size * (r->bottom - r->top) * layers;
 
 				if (!strcasecmp(p, "s")) {
 					if (size > 255)
-- 
2.43.0


From 43f7131385d6e8894ca14dae919538996b22be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 45/94] fix: white is the brightest shade also with 128 shades
 and more

---
 bitmap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index df768a9..986a15c 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -262,7 +262,9 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 			} else {
 				// Calculate the output shade (use 0.99 instead of 1.0 to stick within the range)
 				//pOutput[r->bottom - r->top - 1 - row][col] = (0.99 - lum) * biOutputShades;
-				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = (BYTE) ((0.99 - lum) * biOutputShades);
+				// which makes the brightest colours less than 0
+				double shade = (0.99 - lum) * biOutputShades;
+				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = shade > 0 ? (BYTE) shade : 0;
 			
 				// Calculate the mask
 				if (memcmp (&rgb, &rgbMask, sizeof (RGBQUAD)) != 0)
-- 
2.43.0


From 71776b88e97bf23664194ed7dda8489f639e71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 46/94] fix: compare the inverse colour of a bitmap with an
 initialised value

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 986a15c..772e7d6 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -204,7 +204,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	rgbMask.rgbBlue 	= (value) & 0xFF;
 
 	bool HandleInv = false;
-	RGBQUAD rgbInv;
+	RGBQUAD rgbInv = {0, 0, 0, 0};
 	if ((value = parse_f("__BM_INV_RGB")) != -1) {
 		rgbInv.rgbRed 	= (value >> 16) & 0xFF;
 		rgbInv.rgbGreen = (value >> 8) & 0xFF;
-- 
2.43.0


From aa72fd6e5173d9e1a5626215780888ce42ad4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 47/94] fix: an image map with only one dimension, or more
 images than pixels

---
 bitmap.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bitmap.cpp b/bitmap.cpp
index 772e7d6..6c05c6a 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -439,9 +439,18 @@ void handle_bitmap(FILE *file)
 			goto map_done;
 		}
 
+		// a single column or row unless given
+		if (width == 0) width = 1;
+		if (height == 0) height = 1;
+
 		width 	= (_ZL(bi.biWidth) - (width * 2 * padding)) / width;
 		height 	= (_ZL(bi.biHeight) - (height * 2 * padding)) / height;
 
+		if (padding < 0 || width <= 0 || height <= 0) {
+			show_error("Image map does not fit into the bitmap");
+			goto map_done;
+		}
+
 		if (base_name) {
 			strcpy(suffix, "_WIDTH");
 			add_label(strdup(base_name), width);
-- 
2.43.0


From 556ef72187cccf65d411f9cf7c180f4c1a1e2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 48/94] fix: diagnose malformed bitmaps instead of reading and
 writing outside of buffers

---
 bitmap.cpp | 66 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 6c05c6a..2c667b9 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -69,6 +69,14 @@ typedef struct tagBITMAPINFOHEADER{
 
 
 
+// The number of bits a shade takes
+static int shade_layers() {
+	WORD shades = parse_f("__BM_SHD");
+	int layers = 0;
+	while ((shades >> layers) > 1) layers++;
+	return layers;
+}
+
 static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, const BITMAPINFOHEADER *bi) {
 	// Handle an optional header
 	if (define_with_value("__BM_HDR", 1)) {
@@ -106,7 +114,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 				write_out(parse_f("__BM_SHD"));
 			else if (!strcasecmp(p, "s") || !strcasecmp(p, "ss")) {
 				int width = r->right - r->left, min_w = parse_f("__BM_MIN_W");
-				int layers = (int) log2((WORD) parse_f("__BM_SHD"));
+				int layers = shade_layers();
 				if (define_with_value ("__BM_MSK", 1)) layers++;
 
 				//as handle_bitmap writes it: in columns of min_w pixels, or padded to that width
@@ -136,21 +144,13 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 	}
 }
 
-#ifdef _WIN32
-static WORD log2(WORD value)
-{
-	WORD l = 0;
-	while( (value >> l) > 1 ) ++l;
-	return l;
-}
-#endif
-
 bool IsFileBitmap(FILE *file)
 {
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1)
+		return false;
 
 	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
 	{
@@ -168,13 +168,19 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	
 	// Bytes, padded to the nearest 32-bit
 	const LONG biScanWidth = ((_ZL(bi->biWidth) * _W(bi->biBitCount)) + 31) / 32 * 4;
+	int min_w = parse_f("__BM_MIN_W");
+
+	if ((max(r->right - r->left, min_w) + 7LL) / 8 * (r->bottom - r->top) > output_buf_size) {
+		show_fatal_error ("Output is larger than the maximum of %u bytes", output_buf_size);
+		return;
+	}
+
 	const DWORD biImageSize = (_DW(bf->bfSize) - _DW(bf->bfOffBits));
 //	if (biImageSize % biScanWidth != 0) {
 //		printf("Scan width calculation incorrect! (image size: %ld, scan: %ld)\n", biImageSize, biScanWidth);
 //		return;
 //	}
 	fseek(file, bf->bfOffBits + (biScanWidth * r->top), SEEK_SET);
-	int min_w = parse_f("__BM_MIN_W");
 	
 	// Read in the image
 #define BITS_ACCESS(zr, zc) pBits[((zr) * biScanWidth) + (zc)]
@@ -227,7 +233,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				//pOutput[r->bottom - r->top - 1 - row][col]
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = 0;
 				continue;
-			} else if (_W(bi->biBitCount) < 16 || _DW(bi->biClrUsed) != 0) {
+			} else if (_W(bi->biBitCount) < 16) {
 				BYTE bMask = MASK(_W(bi->biBitCount)) << ((8 - _W(bi->biBitCount)) - (bit % 8));
 				
 				UINT iColor = 0;
@@ -288,7 +294,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 		if (order == image_order) {
 			// Write out all image layers
 			int i;
-			for (i = log2(biOutputShades) - 1; i >= 0; i--) {
+			for (i = shade_layers() - 1; i >= 0; i--) {
 				int row;
 				for (row = 0; row < r->bottom - r->top; row++) {
 					DWORD col;
@@ -345,8 +351,9 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 void handle_bitmap(FILE *file)
 {
 	char *base_name = NULL, *suffix = NULL;
-	BITMAPINFOHEADER bi;
+	BITMAPINFOHEADER bi = {0};
 	RGBQUAD *bmiColors;
+	long long scan_width, file_size;
 	DWORD nColors = 0;
 	RECT r;
 	LONG padding = parse_f("__BM_PAD");
@@ -366,6 +373,19 @@ void handle_bitmap(FILE *file)
 		return;
 	}
 
+	switch (_W(bi.biBitCount)) {
+		case 1: case 2: case 4: case 8: case 16: case 24: case 32:
+			break;
+		default:
+			show_error ("Bitmap file of this type not supported: bit count: %d", _W(bi.biBitCount));
+			return;
+	}
+
+	if (_DW(bi.biClrUsed) > 256) {
+		show_error ("Bitmap file of this type not supported: colors: %lu", (unsigned long) _DW(bi.biClrUsed));
+		return;
+	}
+
 	if (_W(bi.biBitCount) < 16 || _DW(bi.biClrUsed) != 0) {
 		// If biClrUsed is 0, then the amount of RGBQUADs listed is the total possible
 		// as given by biBitCount
@@ -373,11 +393,19 @@ void handle_bitmap(FILE *file)
 	}
 
 	// Read in the palette
-	bmiColors = (LPRGBQUAD) calloc(nColors, sizeof(RGBQUAD));
+	// (pixels may use colors that aren't in the palette)
+	bmiColors = (LPRGBQUAD) calloc(256, sizeof(RGBQUAD));
 	fread(bmiColors, sizeof(RGBQUAD), nColors, file);
 
-	if (ftell (file) != _DW(bf.bfOffBits)) {
-		printf("invalid file structure!\n");
+	bool valid = ftell (file) == _DW(bf.bfOffBits) && _ZL(bi.biWidth) > 0 && _ZL(bi.biHeight) > 0;
+
+	// The file has to hold all the rows
+	scan_width = ((long long) _ZL(bi.biWidth) * _W(bi.biBitCount) + 31) / 32 * 4;
+	fseek (file, 0, SEEK_END);
+	file_size = ftell (file);
+	if (!valid || _ZL(bi.biWidth) > 0x1000000 || (file_size - _DW(bf.bfOffBits)) / scan_width < _ZL(bi.biHeight)) {
+		show_error ("Bitmap file has an invalid structure");
+		free (bmiColors);
 		return;
 	}
 
@@ -466,7 +494,7 @@ void handle_bitmap(FILE *file)
 				if (count != 0) count--;
 
 				if (base_name) {
-					char num_buf[8];
+					char num_buf[16];
 					sprintf(num_buf, "%d", bmp_num);
 					strcpy(suffix, num_buf);
 					add_label(strdup(base_name), program_counter);
-- 
2.43.0


From 1bcdf4c56e82bbd107fc3330c177eec249593290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 49/94] fix: .addinstr data of more than four bytes keeps its
 leading zeros

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 5dfa6bb..dcea99b 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -174,7 +174,7 @@ char *handle_directive (const char *ptr) {
 			if (instr->instr_size > 8) goto addinstr_fail;
 
 			for (j = instr->instr_size - 1; j >= 0; j--)
-				instr->instr_data[instr->instr_size - j - 1] = (result >> (j * 8)) & 0xFF;
+				instr->instr_data[instr->instr_size - j - 1] = j < 4 ? (result >> (j * 8)) & 0xFF : 0;
 
 			// Size
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
-- 
2.43.0


From ea17fe002e1c38465652656ff822c0ca7509122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 50/94] fix: .addinstr with several operands gives each of them
 its size

---
 directive.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index dcea99b..8f625ab 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -149,8 +149,8 @@ char *handle_directive (const char *ptr) {
 			char word[256];
 			int result;
 			char *mnemonic = NULL;
-			size_t i, base = 0, size_left;
-			int j;
+			size_t i;
+			int j, size_left, wildcards, num_args = 0;
 			opcode *last_opcode = NULL, *curr_opcode = all_opcodes, *new_opcode;
 
 			memset (instr, 0, sizeof (struct _instr));
@@ -194,19 +194,21 @@ char *handle_directive (const char *ptr) {
 				instr->has_end_data = true;
 			}
 
-			size_left = instr->size - instr->instr_size;
-			while ((i = strcspn (&instr->args[base], "*")) + base != strlen (instr->args)) {
-				switch (size_left - instr->has_end_data) {
-					case 2:	((char *) instr->args)[base+i] = '*'; break;
-					case 1: ((char *) instr->args)[base+i] = '&'; break;
-					default:
-						((char *) instr->args)[base+i] = '&'; break;
-						//show_error ("Invalid wildcard type in ADDRINSTR");
-						//goto addinstr_fail;
-						break;
+			// Share the bytes that are left among the wildcards: two each if there are enough
+			size_left = instr->size - instr->instr_size - instr->has_end_data;
+			for (wildcards = i = 0; instr->args[i] != '\0'; i++)
+				wildcards += (instr->args[i] == '*');
+
+			for (i = 0; instr->args[i] != '\0'; i++) {
+				if (instr->args[i] != '*') continue;
+
+				if (size_left >= 2 * wildcards) {
+					size_left -= 2;
+				} else {
+					((char *) instr->args)[i] = '&';
+					size_left--;
 				}
-				size_left -= 2;
-				base += i + 1;
+				wildcards--;
 			}
 
 			new_opcode = (opcode *)  malloc (sizeof (opcode));
-- 
2.43.0


From 08f3318b243435344373d4a63bf3b667d417dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 51/94] fix: .addinstr with more than three operands is
 diagnosed

---
 directive.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 8f625ab..3789f4a 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -164,6 +164,11 @@ char *handle_directive (const char *ptr) {
 			reduce_string (word);
 			instr->args = strdup (word);
 
+			// The matched operands are kept in arrays of three
+			for (i = 0; instr->args[i] != '\0'; i++)
+				num_args += is_arg (instr->args[i]);
+			if (num_args > 3) goto addinstr_fail;
+
 			// Instruction data
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
 			conv_hex (word, word + strlen (word), &result);
-- 
2.43.0


From 4dc24bfa6b987d7f94c69fa1f22e158aeb9925c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 52/94] fix: errors found in the second pass fail the assembly

---
 main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.cpp b/main.cpp
index aba6994..b79e98a 100644
--- a/main.cpp
+++ b/main.cpp
@@ -139,6 +139,8 @@ int run_assembly()
 		int second_pass_session = StartSPASMErrorSession();
 		run_second_pass ();
 		ReplaySPASMErrorSession(second_pass_session);
+		//errors that still allow output to be written fail the assembly too
+		if (GetSPASMErrorSessionErrorCount(second_pass_session) > 0 && exit_code < EXIT_ERRORS) exit_code = EXIT_ERRORS;
 		EndSPASMErrorSession(second_pass_session);
 
 		if (mode & MODE_SYMTABLE) {
-- 
2.43.0


From da0f58c84ca7259d1122765cdb817a49c9206feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:41 +0000
Subject: [PATCH 53/94] fix: an unclosed parenthesis no longer swallows the
 lines after it

---
 utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 62b5f67..96f89de 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -398,8 +398,9 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 		return false;
 	}
 
-	while (**ptr != '\0' && !((strchr (delims, **ptr) != NULL || is_end_of_code_line (*ptr))
-				&& !in_escape && !in_string && in_quote == 0 && level == 0)) {
+	// (an unclosed parenthesis does not reach beyond the end of the code line)
+	while (**ptr != '\0' && !(((strchr (delims, **ptr) != NULL && level == 0) || is_end_of_code_line (*ptr))
+				&& !in_escape && !in_string && in_quote == 0)) {
 
 		if (!in_escape) {
 			switch( **ptr ) {
-- 
2.43.0


From 420e588ac61beb6e0cd136a7629b61f8449ff082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 54/94] fix: using a macro after or while it is removed with
 #undef

---
 preop.cpp   |  3 ++-
 storage.cpp | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 5194606..989b7ce 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -247,7 +247,8 @@ char *handle_preop (char *ptr) {
 		}
 		case 15: //DEFCONT
 		{
-			if (last_define == NULL) {
+			//(the define may have been removed in the meantime)
+			if (last_define == NULL || search_defines (last_define->name, false) != last_define) {
 				SetLastSPASMError(SPASM_ERR_NO_PREVIOUS_DEFINE);
 				break;
 			}
diff --git a/storage.cpp b/storage.cpp
index 36fbf00..7efd761 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -173,6 +173,16 @@ static void destroy_define_value (void *data) {
 	free (define);
 }
 
+/*
+ * Defines that are removed may still be in use, by a macro that
+ * is running or by the second pass, so they are kept until the end
+ */
+static list_t *removed_defines = NULL;
+
+static void retire_define_value (void *data) {
+	removed_defines = list_prepend (removed_defines, data);
+}
+
 static void destroy_label_value (void *data) {
 	label_t *label = (label_t *)data;
 	if (label->name)
@@ -191,7 +201,7 @@ void init_storage() {
 	define_t *define;
 	char* test ;
 
-	define_table = hash_init (destroy_define_value);
+	define_table = hash_init (retire_define_value);
 	label_table = hash_init (destroy_label_value);
 
 	add_define (strdup ("SPASM"), NULL)->contents = strdup ("1");
@@ -230,6 +240,8 @@ EXPORT void free_storage() {
 
 	hash_free(define_table);
 	define_table = NULL;
+	list_free(removed_defines, true, destroy_define_value);
+	removed_defines = NULL;
 
 	while (curr_opcode) {
 		next_opcode = curr_opcode->next;
-- 
2.43.0


From 7b695c560f203053725b30ce07d27b7c71c2294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 55/94] fix: errors in a redefined macro name the line of the
 new definition

---
 storage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 7efd761..3d848a2 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -310,8 +310,11 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 		int curr_arg;
 
 		free (name);
-		//define->line_num = line_num;
-		//define->input_file = curr_input_file;
+		//its errors belong to the new definition (the old
+		//file's name may still be in use, so keep it until the end)
+		define->line_num = line_num;
+		input_files = list_prepend(input_files, define->input_file);
+		define->input_file = strdup(curr_input_file);
 		/* Don't clear the contents of the #define, because
 		   if it's being redefined references to itself may
 		   need to be expanded, which will require the original
-- 
2.43.0


From 18fea2eaaefef0cf5aae369b935370c4c50c17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 56/94] fix: assembly goes on after a macro whose name is that
 of a label

---
 preop.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 989b7ce..fb28683 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -207,11 +207,8 @@ char *handle_preop (char *ptr) {
 			
 			macro = add_define (name, NULL);
 			
-			if (macro == NULL)
-				return NULL;
-
 			name_end = skip_whitespace (name_end);
-			if (*name_end == '(') {
+			if (macro != NULL && *name_end == '(') {
 				//it has arguments, so parse them
 				ptr = parse_arg_defs (++name_end, macro);
 				if (ptr == NULL)
@@ -222,7 +219,8 @@ char *handle_preop (char *ptr) {
 			ptr = skip_to_next_line(ptr);
 			line_num++;
 
-			macro->line_num++;
+			if (macro != NULL)
+				macro->line_num++;
 			
 			fInMacro = true;
 			//now find the end of the macro (at the end of the file or an #endmacro directive)
@@ -230,7 +228,8 @@ char *handle_preop (char *ptr) {
 			macro_end = skip_until (ptr, &line_num, 1, "#endmacro");
 
 			//...and copy everything up to the end into the contents
-			set_define (macro, ptr, macro_end - ptr, false);
+			if (macro != NULL)
+				set_define (macro, ptr, macro_end - ptr, false);
 			fInMacro = false;
 			macro_end = skip_to_line_end(macro_end);
 			ptr = macro_end;
-- 
2.43.0


From 5cbc165c539d64e7865f53d33f126ab49041c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 57/94] fix: errors in a define of another file name that file

---
 parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 9196d98..c0db557 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -413,7 +413,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						bool fHasError = false;
 						int old_line_num = line_num;
+						char *old_input_file = curr_input_file;
 						line_num = define->line_num;
+						curr_input_file = define->input_file;
 
 						int session = StartSPASMErrorSession();
 						contents = parse_define (define);
@@ -428,6 +430,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						}
 
 						line_num = old_line_num;
+						curr_input_file = old_input_file;
 
 						if (GetSPASMErrorSessionErrorCount(session) > 0)
 						{
-- 
2.43.0


From 37702fe1b0be124721bdee05784ee5f1d829119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 58/94] fix: getc of a missing file has no random value, and
 its name may be long

---
 parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index c0db557..b4bcee9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -380,9 +380,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 						read_expr(&expr, filename, ",");
 
 						// Is the filename given a macro?
-						if ((define = search_defines (filename)))
+						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
-							strncpy (filename, define->contents, sizeof (filename));
+							snprintf (filename, sizeof (filename), "%s", define->contents);
 						}
 
 						read_expr (&expr, parse_buf, ",");
@@ -395,6 +395,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 							fclose (temp_file);
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
+							*value = 0;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From fd9714b0ef1539fbaabf9fa065d608f70559c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 59/94] fix: .option of a name that is a label no longer
 crashes

---
 directive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 3789f4a..5c1becb 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -430,7 +430,8 @@ addinstr_fail:
 				strcat (strcpy (define_name, "__"), name);
 
 				define = add_define (define_name, NULL);
-				set_define (define, expr, -1, false);
+				if (define != NULL)
+					set_define (define, expr, -1, false);
 				free(expr);
 			}
 			break;
-- 
2.43.0


From d90bba53d3ac67faf6e8ba21d5ea50510bb13e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 60/94] fix: .echo to a file: missing or long names, and going
 on after errors

---
 directive.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 5c1becb..adc4039 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -265,31 +265,31 @@ addinstr_fail:
 				if ((++ptr)[0] == '>')
 					target_format[0] = 'a';
 
-				ptr = skip_whitespace (ptr + 1);
+				if (!is_end_of_code_line (ptr))
+					ptr = skip_whitespace (ptr + 1);
 				if (is_end_of_code_line (ptr)) {
 					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
-					return NULL;
+					break;
 				}
 
 				read_expr (&ptr, filename, " \t");
 
 				// Is the filename given a macro?
-				if ((define = search_defines (filename)))
-					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
+				if ((define = search_defines (filename)) && define->contents != NULL)
+					snprintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
 					
 				reduce_string(filename);
 
 				if (is_abs_path(filename)) {
-					strncpy(temp_filename, skip_whitespace (filename), sizeof (temp_filename));
+					snprintf (temp_filename, sizeof (temp_filename), "%s", skip_whitespace (filename));
 				} else {
-					strncpy(temp_filename, temp_path, sizeof (temp_filename));
-					strncat(temp_filename, "/", sizeof (temp_filename) - 1);
-					strncat(temp_filename, skip_whitespace (filename), sizeof (temp_filename) - 1);
+					snprintf (temp_filename, sizeof (temp_filename), "%s/%s", temp_path, skip_whitespace (filename));
 				}
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
 					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
-					return NULL;
+					ptr = (char *) skip_to_code_line_end (ptr);
+					break;
 				}
 
 				//if the output's redirected to a file, process it now
-- 
2.43.0


From 51be6830ac97bb2831f7911310c3b47769031c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 61/94] fix: diagnostics in files with long paths keep their
 line and text

---
 errors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index a67300a..dfe8baf 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -198,7 +198,7 @@ void AddSPASMErrorSessionAnnotation(int nSession, LPCTSTR lpszFormat, ...)
 	va_list valist;
 	va_start(valist, lpszFormat);
 
-	TCHAR szBuffer[256];
+	TCHAR szBuffer[MAX_PATH + 256];
 	TCHAR szDescription[128] = _T("An error occurred");
 
 	StringCchVPrintf(szDescription, ARRAYSIZE(szDescription), lpszFormat, valist);
@@ -341,7 +341,7 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 	//lpErr->fSuppressErrors = suppress_errors;
 	lpErr->fIsWarning = fIsWarning;
 	
-	TCHAR szBuffer[256];
+	TCHAR szBuffer[MAX_PATH + 256];
 	TCHAR szDescription[128] = _T("An error occurred");
 
 	for (int i = 0; i < ARRAYSIZE(g_ErrorCodes); i++)
-- 
2.43.0


From 97d3aeb3beebfb4acc9786a8566ce73c6ad08716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 62/94] fix: writing the symbol table neither reports errors of
 defines nor runs into changes of them

---
 spasm.h     |  1 +
 storage.cpp | 20 +++++++++++++++++---
 utils.cpp   |  3 +++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/spasm.h b/spasm.h
index bc8c769..bec36e2 100644
--- a/spasm.h
+++ b/spasm.h
@@ -85,6 +85,7 @@ GLOBAL bool pass_one;	//true if pass 1, false if pass 2
 GLOBAL int in_macro;	//depth in macro - 0 if not in macro, 1 if inside macro, 2 if inside macro called from macro...
 GLOBAL bool use_colors;	//whether to use colors or not for messages
 GLOBAL EXIT_STATUS exit_code;
+GLOBAL bool messages_off;	//set while defines are only tried as expressions
 #ifdef USE_REUSABLES
 GLOBAL int total_reusables, curr_reusable;
 #endif
diff --git a/storage.cpp b/storage.cpp
index 3d848a2..2eac917 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -34,6 +34,7 @@ const char *separators = "+-*<>|&/%^()\\, \t\r";
 
 void write_labels_callback(void *, void *);
 void write_defines_callback(void *, void *);
+void list_defines_callback(void *, void *);
 
 
 /*
@@ -64,7 +65,15 @@ void write_labels (char *filename) {
 	
 	int session = StartSPASMErrorSession();
 	hash_enum (label_table, write_labels_callback, &label_list);
-	hash_enum (define_table, write_defines_callback, &label_list);
+	//most defines aren't numbers, so it's no error if one can't be evaluated
+	messages_off = true;
+	//(and evaluating one can change the table)
+	list_t *define_list = NULL;
+	hash_enum (define_table, list_defines_callback, &define_list);
+	for (node = define_list; node != NULL; node = node->next)
+		write_defines_callback (node->data, &label_list);
+	list_free (define_list, false, NULL);
+	messages_off = false;
 	EndSPASMErrorSession(session);
 	
 	node = label_list.next;
@@ -103,6 +112,11 @@ void write_labels_callback(void *data, void *data_list) {
 	list_insert (prev, labelToAdd);
 }
 
+void list_defines_callback(void *data, void *data_list) {
+	list_t **define_list = (list_t **)data_list;
+	*define_list = list_append (*define_list, data);
+}
+
 /*
  * Inserts a define into a label list alphabetically (will parse if possible)
  */
@@ -295,13 +309,13 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 	
 	if ((conflict_label = search_labels(name))) {
 		show_error ("conflicting definition of '%s'", name);
-		//if (suppress_errors == false) {
+		if (!messages_off) {
 			show_error_prefix (conflict_label->input_file, conflict_label->line_num);
 			WORD attr = save_console_attributes();
 			set_console_attributes (COLOR_RED);
 			printf ("previous definition of '%s' was here\n", name);
 			restore_console_attributes(attr);
-		//}
+		}
 		return NULL;
 	}
 	
diff --git a/utils.cpp b/utils.cpp
index 96f89de..67b401b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -967,6 +967,7 @@ void show_error_prefix(const char *zcif, const int zln) {
 }
 
 void show_error(const char *text, ...) {
+	if (messages_off) return;
 	WORD attr = save_console_attributes();
 	va_list args;
 	if (exit_code < EXIT_ERRORS) exit_code = EXIT_ERRORS;
@@ -982,6 +983,7 @@ void show_error(const char *text, ...) {
 }
 
 void show_fatal_error(const char *text, ...) {
+	if (messages_off) return;
 	WORD attr = save_console_attributes();
 
 	va_list args;
@@ -1011,6 +1013,7 @@ void show_warning_prefix(const char *zcif, int zln) {
 }
 
 void show_warning(const char *text, ...) {
+	if (messages_off) return;
 	WORD attr = save_console_attributes();
 
 	va_list args;
-- 
2.43.0


From 6f8ea8566192263a1270ea55ef5547e1f6a80183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:07 +0000
Subject: [PATCH 63/94] fix: endless recursion of macros, files and their
 arguments ends with an error

---
 parser.cpp   | 22 ++++++++++++++++++++++
 pass_one.cpp | 13 ++++++++++++-
 utils.cpp    | 16 ++++++++++++++++
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index b4bcee9..c987bc4 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4,6 +4,7 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
+#define DEFINE_LIMIT 500
 
 #include "spasm.h"
 #include "parser.h"
@@ -408,9 +409,29 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						free (name);
 
+						//once the limit is reached, the whole evaluation fails
+						static int define_depth = 0;
+						static bool define_limit_reached = false;
+						if (define_depth == 0)
+							define_limit_reached = false;
+						if (define_depth >= DEFINE_LIMIT && !define_limit_reached)
+						{
+							define_limit_reached = true;
+							show_fatal_error ("Macros are nested too deeply (only %d levels allowed)", DEFINE_LIMIT);
+						}
+						if (define_limit_reached || error_occurred)
+						{
+							SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+							return NULL;
+						}
+
+						define_depth++;
 						expr = parse_args (expr, define, &args);
 						if (!expr)
+						{
+							define_depth--;
 							return NULL;
+						}
 
 						bool fHasError = false;
 						int old_line_num = line_num;
@@ -441,6 +462,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						}
 						EndSPASMErrorSession(session);
 
+						define_depth--;
 						remove_arg_set (args);
 						if (fHasError == true)
 						{
diff --git a/pass_one.cpp b/pass_one.cpp
index 0219fbe..68dc986 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -19,6 +19,8 @@
 static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 #endif
 
+#define NESTING_LIMIT 750
+
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
@@ -173,6 +175,14 @@ void run_first_pass (char *ptr) {
  */
 
 char *run_first_pass_line (char *ptr) {
+	static int nesting_depth = 0;
+
+	if (nesting_depth >= NESTING_LIMIT) {
+		show_fatal_error ("Macros and included files are nested too deeply (only %d levels allowed)", NESTING_LIMIT);
+		return ptr;
+	}
+
+	nesting_depth++;
 	do {
 		if (*ptr == '\\')
 			ptr++;
@@ -182,7 +192,7 @@ char *run_first_pass_line (char *ptr) {
 		//parse what's on the line
 		ptr = run_first_pass_line_sec (ptr);
 		if (ptr == NULL)
-			return NULL;
+			break;
 		ptr = skip_whitespace (ptr);
 
 		//operands end early at a closing parenthesis without an opening one
@@ -192,6 +202,7 @@ char *run_first_pass_line (char *ptr) {
 		//when that's done, skip any whitespace and see if more is stuck on the end with a backslash -
 		// if so, keep looping until this line's done
 	} while (!error_occurred && *ptr == '\\');
+	nesting_depth--;
 
 	return ptr;
 }
diff --git a/utils.cpp b/utils.cpp
index 67b401b..df561e3 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -2,6 +2,7 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
+#define EXPAND_LIMIT 100
 
 #include "storage.h"
 #include "parser.h"
@@ -821,6 +822,9 @@ static bool is_compound_value (const char *contents) {
  * text replacements
  */
 
+static int expand_depth = 0;	//arguments of macros are expanded too
+static bool expand_limit_reached = false;
+
 static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool group) {
 	const char *block_start;
 	char *name;
@@ -829,7 +833,16 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 	label_t *label;
 	int name_len;
 
+	//once the limit is reached, nothing more is expanded
+	if (expand_limit_reached || error_occurred)
+		return;
+	if (expand_depth > EXPAND_LIMIT) {
+		expand_limit_reached = true;
+		show_fatal_error ("Macro arguments are nested too deeply (only %d levels allowed)", EXPAND_LIMIT);
+		return;
+	}
 	if (depth > RECURSION_LIMIT) {
+		expand_limit_reached = true;
 		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
 		return;
 	}
@@ -929,7 +942,10 @@ char *expand_expr (const char *expr, bool search_local, bool group) {
 
 	new_expr = eb_init(strlen(expr) * 2);
 
+	if (expand_depth++ == 0)
+		expand_limit_reached = false;
 	expand_expr_full (expr, new_expr, 0, search_local, group);
+	expand_depth--;
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
-- 
2.43.0


From 18ab7563fe730c7f915380d4b0ddcd83a99061ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 64/94] fix: a literal char at the end of an expression does
 not read beyond it

---
 parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index c987bc4..7734e68 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -313,7 +313,10 @@ static const char *parse_single_num (const char *expr, int *value) {
 				}
 			}
 
-			if (*(++expr) != '\'') {
+			//(the expression may end before the char does)
+			if (*expr != '\0')
+				expr++;
+			if (*expr != '\'') {
 				show_warning ("Literal char is missing single quote at end");
 			} else {
 				expr++;
-- 
2.43.0


From 5ee968ddb864611b9ece9edbce611d3006c2fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:57 +0000
Subject: [PATCH 65/94] fix: a define may be redefined while its contents are
 evaluated or copied

---
 parser.cpp  | 5 ++++-
 storage.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 7734e68..777bcaa 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -174,7 +174,9 @@ int parse_f (const char *expr) {
 
 char *parse_define (define_t *define)
 {
-	char *curr_line = define->contents;
+	//(its preops may redefine the define)
+	char *contents = define->contents != NULL ? strdup(define->contents) : NULL;
+	char *curr_line = contents;
 	char *lpszResult = NULL;
 
 	while (curr_line != NULL && *curr_line && !error_occurred) {
@@ -195,6 +197,7 @@ char *parse_define (define_t *define)
 		line_num++;
 	}
 
+	free(contents);
 	return lpszResult;
 }
 
diff --git a/storage.cpp b/storage.cpp
index 2eac917..4022e44 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -507,11 +507,12 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
 	// otherwise writing directly to define->contents is fine
 
 	if (!redefined || !define->contents) {
-		//just set the contents
-		if (define->contents)
-			free (define->contents);
+		//just set the contents (which may be copied from the old ones)
+		char *old_contents = define->contents;
 
 		define->contents = (len == -1 ? strdup (str) : strndup (str, len));
+		if (old_contents)
+			free (old_contents);
 
 	} else {
 		char *result, *temp;
-- 
2.43.0


From c81dd4ab555c4dc12eb719e9c7002b293d3fb55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:57 +0000
Subject: [PATCH 66/94] fix: looking for the end of a code line does not run
 before its start

---
 utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index df561e3..0d8cad1 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -99,8 +99,9 @@ const char *skip_to_code_line_end(const char *ptr)
 	const char *next = next_code_line((char *) ptr);
 	if (*next == '\0')
 		return next;
-	while (is_end_of_code_line (--next)) ;
-	return next + 1;
+	while (next > ptr && is_end_of_code_line (next - 1))
+		next--;
+	return next;
 }
 
 char *skip_whitespace (const char *ptr) {
-- 
2.43.0


From bcdbe39247a3710ead1df77dc5acc5cdc51103d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:57 +0000
Subject: [PATCH 67/94] fix: .echo of a value without a name does not read
 before it

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index adc4039..77e20ef 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -727,7 +727,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
 					}
 					
-					if (*(name_end - 1) == '(') name_end--;
+					if (name_end > word && *(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
 					if (!name_end)
 						return (char *) ptr;
-- 
2.43.0


From 8d6f49871313a038add07aba9f6a62a8832a49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:15 +0000
Subject: [PATCH 68/94] fix: the header check of 8xp programs does not read
 bytes an empty program does not have

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 5ed9a71..b74f642 100644
--- a/export.cpp
+++ b/export.cpp
@@ -594,7 +594,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	
 	/* check for BB 6D on 83+ */
 	if (calc == TYPE_8XP) {
-		unsigned short header = ((unsigned char)output_contents[0])*256 + ((unsigned char)output_contents[1]);
+		unsigned short header = size < 2 ? 0 : ((unsigned char)output_contents[0])*256 + ((unsigned char)output_contents[1]);
 		if (!(mode & MODE_EZ80) && header != 0xBB6D && header != 0xEF69) {
 			show_warning("83+/84+ program does not begin with bytes BB 6D or EF 69.");
 		}
-- 
2.43.0


From 90c48cdc0281f60fb2ddcfbcb75bc6af7127d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:16 +0000
Subject: [PATCH 69/94] fix: a define may be redefined while its contents are
 expanded

---
 utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 0d8cad1..fded6d2 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -896,10 +896,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				bool in_parens = group && is_compound_value (define->contents);
+				//(arguments in the contents may redefine the define)
+				char *contents = strdup (define->contents);
+				bool in_parens = group && is_compound_value (contents);
 				if (in_parens)
 					eb_append (new_expr, "(", 1);
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local, group);
+				expand_expr_full (contents, new_expr, depth + 1, search_local, group);
+				free (contents);
 				if (in_parens)
 					eb_append (new_expr, ")", 1);
 				remove_arg_set (args);
-- 
2.43.0


From 93fc690605a02246c809678dffc3ea25bc9264d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:48 +0000
Subject: [PATCH 70/94] fix: a skipped line that starts with a closing
 parenthesis does not hang the assembler

---
 utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index fded6d2..527e726 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -192,6 +192,11 @@ char *next_expr (const char *ptr, const char *delims) {
 
 char *next_code_line(char *ptr) {
 	
+	//a closing parenthesis ends an expression, but not the code line
+	ptr = skip_whitespace(ptr);
+	while (*ptr == ')')
+		ptr = skip_whitespace(ptr + 1);
+
 	ptr = next_expr(ptr, "\\;\r\n");
 	
 	if (*ptr == ';')
-- 
2.43.0


From 4623aebe84c916b99b209823da23208a9b3bc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:57 +0000
Subject: [PATCH 71/94] fix: endless recursion of lists in macros, and endless
 growth of arguments, end with an error

---
 directive.cpp | 7 ++++++-
 parser.cpp    | 1 -
 parser.h      | 3 +++
 utils.cpp     | 6 ++++++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 77e20ef..8c985a1 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -576,10 +576,15 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	bool fWasParsed;
 	char *name_end;
 
+	if (level >= DEFINE_LIMIT) {
+		show_fatal_error ("Macros are nested too deeply (only %d levels allowed)", DEFINE_LIMIT);
+		return (char *) ptr;
+	}
+
 	level++;
 
 	arg_context_t context = ARG_CONTEXT_INITIALIZER;
-	while ((word = extract_arg_string(&ptr, &context)) != NULL)
+	while (!error_occurred && (word = extract_arg_string(&ptr, &context)) != NULL)
 	{
 		// handle strings
 		if (word[0] == '"')
diff --git a/parser.cpp b/parser.cpp
index 777bcaa..29b0aaa 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4,7 +4,6 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
-#define DEFINE_LIMIT 500
 
 #include "spasm.h"
 #include "parser.h"
diff --git a/parser.h b/parser.h
index ffe1d8e..1d348b1 100644
--- a/parser.h
+++ b/parser.h
@@ -5,6 +5,9 @@
 
 #define EXPR_DELIMS "+-/*&|<>%^"
 
+//max depth of macros whose values are macros
+#define DEFINE_LIMIT 500
+
 extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
diff --git a/utils.cpp b/utils.cpp
index 527e726..1e06343 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -3,6 +3,7 @@
 //max depth of #defines
 #define RECURSION_LIMIT 20
 #define EXPAND_LIMIT 100
+#define EXPAND_SIZE_LIMIT 0x100000
 
 #include "storage.h"
 #include "parser.h"
@@ -847,6 +848,11 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		show_fatal_error ("Macro arguments are nested too deeply (only %d levels allowed)", EXPAND_LIMIT);
 		return;
 	}
+	if (new_expr->end - new_expr->start > EXPAND_SIZE_LIMIT) {
+		expand_limit_reached = true;
+		show_fatal_error ("Expression is too long once its macros are expanded");
+		return;
+	}
 	if (depth > RECURSION_LIMIT) {
 		expand_limit_reached = true;
 		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
-- 
2.43.0


From 2fcf6e937e47b81f39da476826fc7ab092fa0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 72/94] fix: the search for an eZ80 suffix does not read before
 the name of the opcode

---
 pass_one.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 68dc986..63b16f8 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -24,7 +24,7 @@ static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
-int parse_suffix (char **opcode_end);
+int parse_suffix (char *name_start, char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
 
@@ -314,7 +314,7 @@ char *handle_opcode_or_macro (char *ptr) {
 	char *opcode_end = name_end;
 	int suffix = -1;
 	if (mode & MODE_EZ80)
-		suffix = parse_suffix(&opcode_end);
+		suffix = parse_suffix(name_start, &opcode_end);
 
 	//try to match it against opcodes first
 	curr_opcode = all_opcodes;
@@ -570,8 +570,10 @@ char *handle_opcode_or_macro (char *ptr) {
  * argument is set to the end of the main opcode.
  */
 
-int parse_suffix(char **opcode_end) {
+int parse_suffix(char *name_start, char **opcode_end) {
 	char *suffix_ptr = *opcode_end;
+	if (suffix_ptr - name_start < 2)
+		return -1;
 	char last1 = tolower(*--suffix_ptr);
 	if (last1 == 's' || last1 == 'l') {
 		char last2 = tolower(*--suffix_ptr);
@@ -579,13 +581,13 @@ int parse_suffix(char **opcode_end) {
 			*opcode_end = suffix_ptr;
 			return (last1 == 'l' ? SUFFIX_L : 0) | (adl_mode ? SUFFIX_IL : 0);
 		}
-		if (last2 == 'i') {
+		if (last2 == 'i' && suffix_ptr > name_start) {
 			last2 = tolower(*--suffix_ptr);
 			if (last2 == '.') {
 				*opcode_end = suffix_ptr;
 				return (adl_mode ? SUFFIX_L : 0) | (last1 == 'l' ? SUFFIX_IL : 0);
 			}
-			if (*--suffix_ptr == '.' && (last2 == 's' || last2 == 'l')) {
+			if (suffix_ptr > name_start && *--suffix_ptr == '.' && (last2 == 's' || last2 == 'l')) {
 				*opcode_end = suffix_ptr;
 				return (last2 == 'l' ? SUFFIX_L : 0) | (last1 == 'l' ? SUFFIX_IL : 0);
 			}
-- 
2.43.0


From 24e84cec141ca0956a89ce7dc131568335225ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 73/94] fix: files are not looked up in include directories
 that no longer exist after the first pass

---
 preop.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index fb28683..3afa57b 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -414,7 +414,10 @@ char *full_path (const char *filename) {
 #endif
 		return strdup (filename);
 	
+	//(there are no include directories after the first pass)
 	dir = include_dirs;
+	if (dir == NULL)
+		return NULL;
 	full_path = NULL;
 	do if (dir) {
 		expand_buf_t *eb = eb_init (-1);
-- 
2.43.0


From c8a5517b7204398a6e7b9ecd819f687d491c7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:47 +0000
Subject: [PATCH 74/94] fix: nested files and macros end with an error before
 they overrun the stack

---
 pass_one.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 63b16f8..c714fe3 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -19,7 +19,7 @@
 static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 #endif
 
-#define NESTING_LIMIT 750
+#define NESTING_LIMIT 400
 
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
-- 
2.43.0


From 796d5aaa18692436e3b29a761afc526bc03e0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:57 +0000
Subject: [PATCH 75/94] fix: __FILE has room for file names of any length

---
 storage.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 4022e44..6d5864b 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -445,10 +445,10 @@ define_t *search_defines (const char *name, bool search_local) {
 		
 	} else if (!strcmp(search_name, "__FILE")) {
 		
-		char fn_buf[MAX_PATH * 2] = { 0 };
+		char *fn_ptr = curr_input_file;
+		char *fn_buf = (char *) malloc((fn_ptr != NULL ? strlen(fn_ptr) * 2 : 0) + 3);
 		char *buf_ptr = fn_buf;
 		*buf_ptr++ = '"';
-		char *fn_ptr = curr_input_file;
 		if (fn_ptr != NULL) {
 			while (*fn_ptr != '\0') {
 				if (*fn_ptr == '\\') {
@@ -459,9 +459,11 @@ define_t *search_defines (const char *name, bool search_local) {
 			}
 		}
 		*buf_ptr++ = '"';
+		*buf_ptr = '\0';
 		if (result) {
 			set_define(result, fn_buf, -1, false);
 		}
+		free(fn_buf);
 		
 	}
 	//printf("fail: %s %08x\n", search_name, murmur_hash(search_name, strlen(search_name)));
-- 
2.43.0


From ab86f9f50e6e2fcbec91bb35840ef68b4d83a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 76/94] fix: nested #includes do not need 8 kB of stack each

---
 pass_one.cpp | 4 ++--
 preop.cpp    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index c714fe3..41da75f 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -438,7 +438,7 @@ char *handle_opcode_or_macro (char *ptr) {
 					listing_for_line_done = true;
 
 				if (mode & MODE_LIST && listing_on && last_banner != curr_input_file) {
-					char include_banner[MAX_PATH + 64];
+					static char include_banner[MAX_PATH + 64];
 					snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, curr_input_file);
 					listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
 					last_banner = curr_input_file;
@@ -530,7 +530,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 							listing_for_line_done = true;
 
-							char include_banner[MAX_PATH + 64];
+							static char include_banner[MAX_PATH + 64];
 							snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, old_filename);
 							listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
 							last_banner = old_filename;
diff --git a/preop.cpp b/preop.cpp
index 3afa57b..aa604da 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -454,7 +454,7 @@ char *full_path (const char *filename) {
 
 static char *handle_preop_include (char *ptr)
 {
-	char name[MAX_PATH], *file_path;
+	char name[256], *file_path;
 	FILE *file;
 	char *qs, *alloc_path, *input_contents, *old_input_file, *old_line_start;
 	int i;
@@ -530,7 +530,7 @@ static char *handle_preop_include (char *ptr)
 			do_listing_for_line (skip_to_next_line (line_start));
 
 		if (mode & MODE_LIST && listing_on) {
-			char include_banner[MAX_PATH + 64];
+			static char include_banner[MAX_PATH + 64];
 			snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, fix_filename (alloc_path));
 			listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
 		}
@@ -557,7 +557,7 @@ static char *handle_preop_include (char *ptr)
 			listing_for_line_done = true;
 
 		if (mode & MODE_LIST && listing_on) {
-			char include_banner[MAX_PATH + 64];
+			static char include_banner[MAX_PATH + 64];
 			snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, curr_input_file);
 			listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
 		}
-- 
2.43.0


From b671b1c572eb22528a8d70944e1d68649624e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 77/94] fix: a directive that ends the contents of a define is
 not followed by a read of NULL

---
 parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index 29b0aaa..4a95ec9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -184,6 +184,8 @@ char *parse_define (define_t *define)
 		if (*curr_line == '#')
 		{
 			next_line = handle_preop(curr_line + 1);
+			if (next_line == NULL)
+				break;
 		}
 		else if (is_end_of_code_line(curr_line) == false)
 		{
-- 
2.43.0


From 7146730cd290b97223497be7125244fef0369e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:06 +0000
Subject: [PATCH 78/94] fix: the label file is written even if a define
 recurses without end

---
 storage.cpp | 5 ++++-
 utils.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 6d5864b..a14fe9a 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -70,8 +70,11 @@ void write_labels (char *filename) {
 	//(and evaluating one can change the table)
 	list_t *define_list = NULL;
 	hash_enum (define_table, list_defines_callback, &define_list);
-	for (node = define_list; node != NULL; node = node->next)
+	bool saved_error = error_occurred;
+	for (node = define_list; node != NULL; node = node->next) {
 		write_defines_callback (node->data, &label_list);
+		error_occurred = saved_error;
+	}
 	list_free (define_list, false, NULL);
 	messages_off = false;
 	EndSPASMErrorSession(session);
diff --git a/utils.cpp b/utils.cpp
index 1e06343..3def357 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -1014,7 +1014,10 @@ void show_error(const char *text, ...) {
 }
 
 void show_fatal_error(const char *text, ...) {
-	if (messages_off) return;
+	if (messages_off) {
+		error_occurred = true;
+		return;
+	}
 	WORD attr = save_console_attributes();
 
 	va_list args;
-- 
2.43.0


From a1eb04edc1eca7183387f68781aca5a0dbbb12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:31 +0000
Subject: [PATCH 79/94] fix: a define listed in the label file may be redefined
 by its own evaluation

---
 storage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage.cpp b/storage.cpp
index a14fe9a..b19b1e9 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -133,7 +133,11 @@ void write_defines_callback(void *data, void *data_list) {
 	if (define->num_args > 0 || define->contents == NULL)
 		return;
 	
-	if (parse_num(define->contents, &value) == false)
+	//(its evaluation may redefine the define)
+	char *contents = strdup (define->contents);
+	bool fResult = parse_num(contents, &value);
+	free (contents);
+	if (fResult == false)
 		return;
 	
 	node = label_list->next, prev = label_list;
-- 
2.43.0


From 6dfd745f6694e9b934752d2b925fc83935de9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:20 +0000
Subject: [PATCH 80/94] fix: .nolist removes the whole start of its row,
 however long the line number and address are

---
 directive.cpp | 2 +-
 pass_one.cpp  | 2 +-
 spasm.h       | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8c985a1..dd0a516 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -356,7 +356,7 @@ addinstr_fail:
 			// the starting stuff for this line already,
 			// so take that out
 			if ((mode & MODE_LIST) && listing_on)
-				listing_offset -= 14;
+				listing_offset -= listing_prefix_len;
 			listing_on = false;
 			break;
 		}
diff --git a/pass_one.cpp b/pass_one.cpp
index 41da75f..214ae46 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -145,7 +145,7 @@ void run_first_pass (char *ptr) {
 				char text[32];
 
 				//add the line number and program counter at the beginning of the line
-				sprintf (text, "%5d %02X:%04X ", line_num, (program_counter >> 16), program_counter & 0xFFFF);
+				listing_prefix_len = sprintf (text, "%5d %02X:%04X ", line_num, (program_counter >> 16), program_counter & 0xFFFF);
 				listing_offset = eb_insert (listing_buf, listing_offset, text, strlen (text));
 			}
 		}
diff --git a/spasm.h b/spasm.h
index bec36e2..123017d 100644
--- a/spasm.h
+++ b/spasm.h
@@ -78,6 +78,7 @@ GLOBAL bool error_occurred;
 GLOBAL expand_buf *listing_buf;
 GLOBAL size_t listing_offset;
 GLOBAL bool listing_on;
+GLOBAL int listing_prefix_len;	//length of the line number and address written for this line
 GLOBAL bool listing_for_line_done;	//true if listing for this line has already been done
 GLOBAL char *line_start;	//saved start of current line
 GLOBAL int old_line_num;	//saved line number
-- 
2.43.0


From 8e93de43320da92c5a5d22d1178dbcc3f7e3605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:49 +0000
Subject: [PATCH 81/94] fix: a dot in a directory's name is not taken for the
 extension of a file without one

---
 utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 3def357..e7efc9e 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -753,8 +753,9 @@ char *change_extension (const char *filename, const char *ext) {
 	char *new_fn = (char *) malloc(strlen(filename) + strlen(ext) + 2);
 	strcpy(new_fn, filename);
 	
+	//(a dot in the name of a directory is no extension)
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From f904b827dce7c9a0eb0802414c4c427d1793ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:51 +0000
Subject: [PATCH 82/94] fix: an output name without extension in a directory
 with a dot gives no warning

---
 export.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index b74f642..68d230e 100644
--- a/export.cpp
+++ b/export.cpp
@@ -118,7 +118,8 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 	//get the type from the extension of the output filename
 	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
-	if (i != 0) {
+	//(a dot in the name of a directory starts no extension)
+	if (i != 0 && strpbrk (output_filename + i, "/\\") == NULL) {
 		const char *ext = output_filename + i + 1;
 
 		int type;
-- 
2.43.0


From b5962a4d7027ffa284abe283955e763483e93ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:23 +0000
Subject: [PATCH 83/94] fix: a directory given as source, include or import is
 diagnosed instead of being read as empty

---
 preop.cpp | 4 ++++
 utils.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index aa604da..ae2282c 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -620,6 +620,10 @@ char *handle_preop_import (char *ptr) {
 		stats_datasize++;
 	}
 
+	//(a directory can be opened, but not read)
+	if (ferror (import_file))
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, name);
+
 	fclose (import_file);
 	return ptr;
 }
diff --git a/utils.cpp b/utils.cpp
index e7efc9e..cc01a31 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -708,6 +708,11 @@ char *get_file_contents (const char *filename) {
 		int c = fgetc(file);
 		matched &= c == utf8_endian_mark[i];
 	}
+	// (a directory can be opened, but not read)
+	if (ferror (file)) {
+		fclose (file);
+		return NULL;
+	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
 	} else {
-- 
2.43.0


From 98381b3a791201c3a2e5889a896529f582f60859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:02 +0000
Subject: [PATCH 84/94] fix: the value of a literal char above 127 is its byte,
 not a negative number

---
 parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 4a95ec9..e29b924 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -303,9 +303,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 		//Handle literal chars in single quotes
 		case '\'':
 		{
-			*value = *(++expr);
+			*value = (unsigned char) *(++expr);
 			if (*value == '\\') {
-				switch (toupper (*(++expr))) {
+				switch (toupper ((unsigned char) *(++expr))) {
 					case 'N': 	*value = '\n'; break;
 					case '\\': 	*value = '\\'; break;
 					case '0': 	*value = '\0'; break;
@@ -313,7 +313,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 					case 'T': 	*value = '\t'; break;
 					case '\'': 	*value = '\''; break;
 					case '#': 	*value = rand () & 0xFF; break;
-					default: 	*value = *expr;
+					default: 	*value = (unsigned char) *expr;
 				}
 			}
 
-- 
2.43.0


From ee38d350d7816f521598aff05640477b0279a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:06 +0000
Subject: [PATCH 85/94] fix: getc gives the byte of the file at its index
 instead of an error or zero

---
 parser.cpp  | 6 ++++--
 storage.cpp | 5 -----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index e29b924..210be58 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -386,15 +386,17 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						expr++;
 						read_expr(&expr, filename, ",");
+						if (*expr == ',') expr++;
 
 						// Is the filename given a macro?
 						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
-							snprintf (filename, sizeof (filename), "%s", define->contents);
+							snprintf (filename, sizeof (filename), "%s", skip_whitespace (define->contents));
 						}
 
 						read_expr (&expr, parse_buf, ",");
-						char_index = parse_f (parse_buf);
+						if (!parse_num_full (parse_buf, &char_index, 0))
+							return NULL;
 
 						rfn = fix_filename (reduce_string (filename));
 						if ((temp_file = fopen (rfn, "r"))) {
diff --git a/storage.cpp b/storage.cpp
index b19b1e9..403402a 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -238,11 +238,6 @@ void init_storage() {
 	test = strdup ("__R,__G,__B)");
 	parse_arg_defs (test, define);
 	free(test);
-	
-	(define = add_define (strdup ("GETC"), NULL))->contents = strdup ("(0)");
-	test = strdup ("__A, __N)"); 
-	parse_arg_defs (test, define);
-	free(test);
 }
 
 
-- 
2.43.0


From 40ae370ddc3c47c25d9f843cdd8d5c99af143f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:51 +0000
Subject: [PATCH 86/94] fix: concat takes the contents of a define without the
 blanks around them

---
 preop.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index ae2282c..1e3e3f9 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -366,7 +366,10 @@ char *handle_preop_define (const char *ptr) {
 						}
 						else
 						{
-							char *define_buffer = strdup(define->contents);
+							//(the blanks around the contents aren't part of them)
+							char *define_buffer = strdup(skip_whitespace(define->contents));
+							for (int i = strlen(define_buffer); i > 0 && isspace((unsigned char) define_buffer[i - 1]); i--)
+								define_buffer[i - 1] = '\0';
 							reduce_string(define_buffer);
 							eb_insert (buffer, -1, define_buffer, -1);
 							free(define_buffer);
-- 
2.43.0


From 59aafb7f40fb763e943f5c7483dcc5f9bdf4f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:03 +0000
Subject: [PATCH 87/94] fix: eval() inside an expression takes only its
 argument, not the rest of the expression

---
 parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 210be58..861abc1 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -370,7 +370,10 @@ static const char *parse_single_num (const char *expr, int *value) {
 					} else if (!strcasecmp (name, "eval") && *expr == '(') {
 						free(name);
 						//show_warning ("eval() has no effect except in #define");
-						expr = parse_num_full (expr, value, 0);
+						//only its argument, the rest of the expression goes on with its value
+						expr = parse_num_full (expr + 1, value, 1);
+						if (!expr)
+							return NULL;
 						//then a normal label
 					}
 					else if (!strcasecmp (name, "getc") && *expr == '(')
-- 
2.43.0


From 35b9669990d8673992d8350e570ffcef9f5155b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:15 +0000
Subject: [PATCH 88/94] fix: output, listing, symbol table and .echo files that
 cannot be written completely (full disk) fail the run

---
 directive.cpp | 5 ++++-
 export.cpp    | 5 ++++-
 main.cpp      | 5 ++++-
 storage.cpp   | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index dd0a516..a7d25cb 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -818,7 +818,10 @@ echo_error:
 		else {
 			if (echo_target != NULL)
 			{
-				fclose ((FILE *) echo_target);
+				//(the disk may be full)
+				bool failed = ferror ((FILE *) echo_target) != 0;
+				if (fclose ((FILE *) echo_target) != 0 || failed)
+					show_error ("Could not write to the file");
 			}
 		}
 	}
diff --git a/export.cpp b/export.cpp
index 68d230e..0b5b2c1 100644
--- a/export.cpp
+++ b/export.cpp
@@ -194,7 +194,10 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		break;
 	}
 
-	fclose (outfile);
+	//(the disk may be full)
+	bool failed = ferror (outfile) != 0;
+	if (fclose (outfile) != 0 || failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, output_filename);
 	free(curr_input_file);
 	curr_input_file = NULL;
 }
diff --git a/main.cpp b/main.cpp
index b79e98a..00ba4df 100644
--- a/main.cpp
+++ b/main.cpp
@@ -182,7 +182,10 @@ int run_assembly()
 				return EXIT_FATAL_ERROR;
 			}
 
-			fclose (file);
+			if (fclose (file) != 0) {
+				puts ("Error writing to listing file");
+				return EXIT_FATAL_ERROR;
+			}
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
diff --git a/storage.cpp b/storage.cpp
index 403402a..2a60ff8 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -88,7 +88,10 @@ void write_labels (char *filename) {
 		node = node->next;
 	}
 
-	fclose (symtable);
+	//(the disk may be full)
+	bool failed = ferror (symtable) != 0;
+	if (fclose (symtable) != 0 || failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 	
 	list_free (label_list.next, true, NULL);
 	free(hdr_node.name);
-- 
2.43.0


From 00eda1993636cd0816f5145ecc3b08cffe394846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:25 +0000
Subject: [PATCH 89/94] fix: ti84pce.inc cannot be assembled: anovaf_vars,
 which it refers to, is not defined in it

---
 inc/ti84pce.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ti84pce.inc b/inc/ti84pce.inc
index dc15348..d216b57 100644
--- a/inc/ti84pce.inc
+++ b/inc/ti84pce.inc
@@ -5172,12 +5172,14 @@ StdXP2			equ StatN2 + FPLEN
 SLower			equ StdXP2 + FPLEN
 SUpper			equ SLower + FPLEN
 SStat			equ SUpper + FPLEN
+#ifdef anovaf_vars	;(its address is not defined in this file)
 F_DF			equ anovaf_vars
 F_SS			equ F_DF + FPLEN
 F_MS			equ F_SS + FPLEN
 E_DF			equ F_MS + FPLEN
 E_SS			equ E_DF + FPLEN
 E_MS			equ E_SS + FPLEN
+#endif
 
 ;System Flags
 ;----------------------------------------------------------------------
-- 
2.43.0


From cdc40b96e6d313630c53037cb8e0199e29748935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:25 +0000
Subject: [PATCH 90/94] fix: ti83plus.inc and ti84pce.inc: PStat and what
 follows had wrong addresses (operators have no precedence)

---
 inc/ti83plus.inc | 2 +-
 inc/ti84pce.inc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ti83plus.inc b/inc/ti83plus.inc
index 3c7c5b9..145cd58 100644
--- a/inc/ti83plus.inc
+++ b/inc/ti83plus.inc
@@ -3868,7 +3868,7 @@ MedX3   EQU     MedX2      + FPLEN
 MedY1   EQU     MedX3      + FPLEN
 MedY2   EQU     MedY1      + FPLEN
 MedY3   EQU     MedY2      + FPLEN
-PStat   EQU     MedY3      + 2*FPLEN
+PStat   EQU     MedY3      + (2*FPLEN)
 ZStat   EQU     PStat      + FPLEN
 TStat   EQU     ZStat      + FPLEN
 ChiStat EQU     TStat      + FPLEN
diff --git a/inc/ti84pce.inc b/inc/ti84pce.inc
index d216b57..46e13bc 100644
--- a/inc/ti84pce.inc
+++ b/inc/ti84pce.inc
@@ -5153,7 +5153,7 @@ MedX3			equ MedX2 + FPLEN
 MedY1			equ MedX3 + FPLEN
 MedY2			equ MedY1 + FPLEN
 MedY3			equ MedY2 + FPLEN
-PStat			equ MedY3 + 2*FPLEN
+PStat			equ MedY3 + (2*FPLEN)
 ZStat			equ PStat + FPLEN
 TStat			equ ZStat + FPLEN
 ChiStat			equ TStat + FPLEN
-- 
2.43.0


From 157c2690f4f85a194cfe8077aeace8874aa5879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:25 +0000
Subject: [PATCH 91/94] fix: ti83plus.inc: AppOnErr takes an argument

---
 inc/ti83plus.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ti83plus.inc b/inc/ti83plus.inc
index 145cd58..e87e4f1 100644
--- a/inc/ti83plus.inc
+++ b/inc/ti83plus.inc
@@ -1015,7 +1015,7 @@ SUBLANG_SPANISH                  equ   01h   ; Spanish (Castilian)
 APP_PUSH_ERRORH EQU	59h
 APP_POP_ERRORH	EQU	5Ch
 ;
-#define AppOnErr xxxx	ld HL,xxxx \ CALL APP_PUSH_ERRORH
+#define AppOnErr(xxxx)	ld HL,xxxx \ CALL APP_PUSH_ERRORH
 #define AppOffErr		CALL	APP_POP_ERRORH
 ;
 ;======================================================================
-- 
2.43.0


From 056a558c4a5079d34bc8f231fb88ac94383f17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:25 +0000
Subject: [PATCH 92/94] fix: app.inc: the page after the last one is not a
 skipped page (operators have no precedence)

---
 inc/app.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/app.inc b/inc/app.inc
index 2bf37a9..16db815 100644
--- a/inc/app.inc
+++ b/inc/app.inc
@@ -56,7 +56,7 @@ _   .db appname
   #if page <= gpage
     fatal("Your page numbers must increase.")
   #endif
-  #if page > gpage+1
+  #if page > (gpage+1)
     .echo "Warning: Skipping page ",gpage+1," at user request."
   #endif
   #define free_space eval(free_space + $8000-($ & $0000FFFF))
-- 
2.43.0


From c3e3cdbccd5b3510272aab5d99f1d97bb75bc915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:11 +0000
Subject: [PATCH 93/94] fix: app.inc: the excess of a page other than the first
 was reported 64 K too large for each page before it

---
 inc/app.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/app.inc b/inc/app.inc
index 16db815..3248580 100644
--- a/inc/app.inc
+++ b/inc/app.inc
@@ -50,7 +50,7 @@ _   .db appname
   #endif
 #else
   #if ($ & $0000FFFF) > $8000
-   #define err "Page ",gpage," went over bounds by ",$-$8000," bytes."
+   #define err "Page ",gpage," went over bounds by ",($ & $0000FFFF)-$8000," bytes."
    fatal(err, 1)
   #endif
   #if page <= gpage
@@ -69,7 +69,7 @@ _   .db appname
 	
 #macro validate
 #if ($ & $0000FFFF) > $8000
-  #define err "Page ",gpage," went over bounds by ",$-$8000," bytes."
+  #define err "Page ",gpage," went over bounds by ",($ & $0000FFFF)-$8000," bytes."
   fatal(err, 1)
 #else
   .echo "Page ",gpage," free space: ",$8000-($ & $0000FFFF)
-- 
2.43.0


From ae631bb402b663a39872eb196698d5f3e518a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:37 +0000
Subject: [PATCH 94/94] fix: program files whose data section is longer than
 65535 bytes were written with a wrong length, not reported

---
 export.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/export.cpp b/export.cpp
index 0b5b2c1..9b19281 100644
--- a/export.cpp
+++ b/export.cpp
@@ -468,7 +468,7 @@ int siggen(const unsigned char* hashbuf, unsigned char* sigbuf, int* outf) {
 #endif /* NO_APPSIGN */
 
 void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, const char *prgmname, calc_type calc) {
-	int i, temp, chksum;
+	int i, temp, chksum, section;
 	unsigned char* pnt;
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
@@ -512,13 +512,18 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	if (calc==TYPE_86P) {
 		size += 2;
 	}
+	/* the length of the data section, which has to fit in 16 bits */
+	section = size + (calc == TYPE_82P ? 3 : 0);
+	if (calc == TYPE_85P || calc == TYPE_85S) {
+		section += 8 + strlen (namestring);
+	} else {
+		section += 15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
+	}
 	/* size must be smaller than z80 mem */
-	if (size > 24575) {
-		if (size > 65535) {
-			SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_64KB);
-		} else if (!(mode & MODE_EZ80)) {
-			SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_24KB);
-		}
+	if (section > 65535) {
+		SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_64KB);
+	} else if (size > 24575 && !(mode & MODE_EZ80)) {
+		SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_24KB);
 	}
 	
 	/* Lots of pointless header crap */
@@ -546,13 +551,8 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P || calc == TYPE_85S) {
-		temp = size + 8 + strlen (namestring);
-	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
-	}
-	fputc(temp & 0xFF,outfile);
-	fputc(temp >> 8,outfile);
+	fputc(section & 0xFF,outfile);
+	fputc(section >> 8,outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
 		chksum = fputc((6+strlen(namestring)),outfile);
 	} else {
-- 
2.43.0

