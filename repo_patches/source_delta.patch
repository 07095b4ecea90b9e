From 5b1283ecd3f3dfdc05e7a866851d2fef73dd7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:19 +0000
Subject: [PATCH 01/79] fix: coded warnings no longer abort the assembly,
 printed errors set the exit status

---
 errors.cpp   | 13 ++++++++++---
 parser.cpp   |  2 +-
 pass_one.cpp |  2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index a67300a..19366a5 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -30,6 +30,12 @@ int g_nErrorSession = 0;
 
 static void PrintSPASMError(const LPERRORINSTANCE lpError)
 {
+	const EXIT_STATUS status = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+	if (exit_code < status)
+	{
+		exit_code = status;
+	}
+
 	if (mode & MODE_CODE_COUNTER)
 	{
 		return;
@@ -98,7 +104,8 @@ int GetSPASMErrorSessionErrorCount(int nSession)
 	list_t *pList = (list_t *) g_ErrorList;
 	while ((pList != NULL) && ((LPERRORINSTANCE) pList->data)->nSession == nSession)
 	{
-		if (((LPERRORINSTANCE) pList->data)->dwErrorCode != SPASM_ERR_SUCCESS)
+		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
+		if (lpError->dwErrorCode != SPASM_ERR_SUCCESS && !lpError->fIsWarning)
 		{
 			nCount++;
 		}
@@ -123,7 +130,7 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
 		DWORD dwError = lpError->dwErrorCode;
-		if (IsSPASMErrorFatal(dwError))
+		if (!lpError->fIsWarning && IsSPASMErrorFatal(dwError))
 		{
 			fIsFatal = true;
 			break;
@@ -250,7 +257,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(!lpErr->fIsWarning && IsSPASMErrorFatal(lpErr->dwErrorCode)) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
diff --git a/parser.cpp b/parser.cpp
index ea53f75..f687c38 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -409,9 +409,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 						if (GetSPASMErrorSessionErrorCount(session) > 0)
 						{
 							AddSPASMErrorSessionAnnotation(session, _T("Error during evaluation of macro '%s'"), define->name);
-							ReplaySPASMErrorSession(session);
 							fHasError = true;
 						}
+						ReplaySPASMErrorSession(session);
 						EndSPASMErrorSession(session);
 
 						remove_arg_set (args);
diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..684347b 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -418,8 +418,8 @@ char *handle_opcode_or_macro (char *ptr) {
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
 					AddSPASMErrorSessionAnnotation(session, "Error during invocation of fcreate");
-					ReplaySPASMErrorSession(session);
 				}
+				ReplaySPASMErrorSession(session);
 				EndSPASMErrorSession(session);
 			}
 			ptr += 2;
-- 
2.43.0


From 61939f782c0fcd91a6e5f0ab297aa1db1cc979bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 02/79] fix: report errors in the terms of a list-valued define
 used as data

---
 directive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..964cedf 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -689,8 +689,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 						if (extract_arg_string(&nested_expr, &nested_context) != NULL)
 						{
-							// if it is, plug it in to the emit string
+							// if it is, plug it in to the emit string, keeping the
+							// errors in its terms but not the one that it is a list
+							EndSPASMErrorSession(session);
+							session = StartSPASMErrorSession();
 							parse_emit_string(expr, type, echo_target);
+							ReplaySPASMErrorSession(session);
 						}
 						else
 						{
-- 
2.43.0


From e8eab8014a57e65b70d251679bf7ff990f70465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:51 +0000
Subject: [PATCH 03/79] fix: no signed overflow or out-of-range shifts in
 expression arithmetic

---
 parser.cpp | 13 +++++++------
 utils.cpp  |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index f687c38..1c8fa0e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -548,7 +548,7 @@ static const char *parse_num_full (const char *expr, int *value, int depth) {
 		if (invert_lastnum)
 			last_num = ~last_num;
 		if (neg_lastnum)
-			last_num = -last_num;
+			last_num = (int) (0U - (unsigned int) last_num);
 
 		// Guard against divide by zero
 		if ((last_op == M_DIV || last_op == M_MOD) && last_num == 0) {
@@ -568,16 +568,17 @@ static const char *parse_num_full (const char *expr, int *value, int depth) {
 				total = last_num; break;
 
 			// Math
-			case M_ADD: total += last_num; break;
-			case M_SUB: total -= last_num; break;
-			case M_MUL: total *= last_num; break;
+			// (32-bit two's complement: wrap around, and take shift counts modulo 32)
+			case M_ADD: total = (int) ((unsigned int) total + (unsigned int) last_num); break;
+			case M_SUB: total = (int) ((unsigned int) total - (unsigned int) last_num); break;
+			case M_MUL: total = (int) ((unsigned int) total * (unsigned int) last_num); break;
 			case M_DIV: total /= last_num; break;
 			case M_MOD: total %= last_num; break;
 			case M_XOR: total ^= last_num; break;
 			case M_LAND: total &= last_num; break;
 			case M_LOR: total |= last_num; break;
-			case M_LSHIFT: total <<= last_num; break;
-			case M_RSHIFT: total >>= last_num; break;
+			case M_LSHIFT: total = (int) ((unsigned int) total << (last_num & 31)); break;
+			case M_RSHIFT: total >>= (last_num & 31); break;
 
 			// Condition
 			case M_AND: total = total && last_num; break;
diff --git a/utils.cpp b/utils.cpp
index 60c5e22..2ce0cfb 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -240,7 +240,7 @@ char *eval (const char *expr)
 		const char *sign = "";
 		if (value < 0) {
 			sign = "-";
-			value = -value;
+			value = (int) (0U - (unsigned int) value);
 		}
 		snprintf (result, sizeof (result), "%s$%0X", sign, value);
 		expr_value = strdup (result);
-- 
2.43.0


From 08626a1623c74048888fe9ca6d040fd0d234ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 04/79] fix: .echo resolves forward references in the second
 pass

---
 directive.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 964cedf..f943b6c 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -293,10 +293,6 @@ addinstr_fail:
 				parse_emit_string (expr, ES_ECHO, NULL);
 
 				if (IsSPASMErrorSessionFatal(session) == true)
-				{
-					add_pass_two_output (expr, OUTPUT_ECHO);
-				}
-				else if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
 					WORD orig_attributes = save_console_attributes();
 					set_console_attributes(COLOR_GREEN);
@@ -307,6 +303,10 @@ addinstr_fail:
 
 					ReplaySPASMErrorSession(session);
 				}
+				else if (GetSPASMErrorSessionErrorCount(session) > 0)
+				{
+					add_pass_two_output (expr, OUTPUT_ECHO);
+				}
 				else
 				{
 					expand_buf_t *echo = eb_init(256);
-- 
2.43.0


From 49963641745dc08d6dc55a38bac94ac500222b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 05/79] fix: forward references in compound expressions
 evaluate like backward ones

The text saved for the second pass put define contents in the middle of
the expression ungrouped, and cut off or misplaced the sign of label values.
---
 pass_two.cpp |  2 +-
 utils.cpp    | 32 ++++++++++++++++++++++++++------
 utils.h      |  2 +-
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..f89c42f 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -64,7 +64,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		   expression for the second pass */
 
 		//store the contents of the expanded expression for the second pass
-		new_expr->expr = expand_expr (expr);
+		new_expr->expr = expand_expr (expr, true, true);
 
 		//and write a blank value in its place
 		if (type == ARG_ADDR_OFFSET) {
diff --git a/utils.cpp b/utils.cpp
index 2ce0cfb..c615d96 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -781,13 +781,27 @@ int strnlen (const char *str, int maxlen) {
 }
 #endif
 
+/*
+ * Returns true if text needs parentheses around it
+ * to stay a single term when it's put in an expression
+ */
+
+static bool expr_needs_group (const char *text) {
+	if (mystrpbrk (text, "\",#\n\r;\\") != NULL)
+		return false;
+
+	while (is_name_char (*text) || *text == '$')
+		text++;
+	return *text != '\0';
+}
+
 /*
  * Fully expands the text of an expression by
  * replacing all macros and labels with their
  * text replacements
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local) {
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool group) {
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -834,7 +848,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local);
+				//the value of a define is a single term of a larger expression
+				bool group_define = group && expr_needs_group (define->contents);
+				if (group_define)
+					eb_append (new_expr, "(", 1);
+				expand_expr_full (define->contents, new_expr, depth + 1, search_local, group);
+				if (group_define)
+					eb_append (new_expr, ")", 1);
 				remove_arg_set (args);
 				if (error_occurred) {
 					free(name);
@@ -842,8 +862,8 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
-				snprintf (buf, sizeof(buf), "%d", label->value);
+				char buf[16];
+				snprintf (buf, sizeof(buf), (group && label->value < 0) ? "(%d)" : "%d", label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
 			//otherwise, it might be a forward ref, so just write the name
@@ -870,13 +890,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 }
 
 
-char *expand_expr (const char *expr, bool search_local) {
+char *expand_expr (const char *expr, bool search_local, bool group) {
 	expand_buf *new_expr;
 	char *new_expr_text;
 
 	new_expr = eb_init(strlen(expr) * 2);
 
-	expand_expr_full (expr, new_expr, 0, search_local);
+	expand_expr_full (expr, new_expr, 0, search_local, group);
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
diff --git a/utils.h b/utils.h
index 2d25844..4310503 100644
--- a/utils.h
+++ b/utils.h
@@ -50,7 +50,7 @@ bool define_with_value (const char *name, const int value);
 int strnlen (const char *str, int maxlen);
 #endif
 
-char *expand_expr (const char *expr, bool search_local = true);
+char *expand_expr (const char *expr, bool search_local = true, bool group = false);
 
 extern char *curr_input_file;
 extern int line_num;
-- 
2.43.0


From 9fd2496bf002cd9010f21ac15e1c84ed4f1e100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 06/79] fix: names inside character literals and hex numbers
 are not expanded

---
 utils.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index c615d96..d2ca58f 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -875,8 +875,20 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			free (name);
 		} else if (*expr) {
 			//if it can't be a name, just write the next char and move on
-			eb_append (new_expr, expr, 1);
-			expr++;
+			// (but keep character literals and hex numbers whole)
+			block_start = expr++;
+			if (*block_start == '\'') {
+				if (*expr == '\\' && expr[1] != '\0')
+					expr++;
+				if (*expr)
+					expr++;
+				if (*expr == '\'')
+					expr++;
+			} else if (*block_start == '$' && isxdigit ((unsigned char) *expr)) {
+				while (isalnum ((unsigned char) *expr))
+					expr++;
+			}
+			eb_append (new_expr, block_start, expr - block_start);
 		}
 
 		//skip past separators
-- 
2.43.0


From e05bf8aee87fc6d55bd3302d5bd0d4b7c3f1d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:43 +0000
Subject: [PATCH 07/79] fix: no out-of-range string accesses for escapes and
 literals cut off by the end of a line

---
 utils.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index d2ca58f..0bb7b79 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -402,7 +402,7 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 		 in_escape = false;	// \n
 	int in_quote = 0;		// 'x'
 	int level = 0;
-	char *word_ptr = word;
+	int word_len = 0;
 
 	/* Is there a word left to get? */
 	// Skip whitespace at the start
@@ -441,29 +441,30 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 					/* 	If this char wasn't ', redo the inside */
 					if (in_quote == 1) {
 						*ptr -= 2;
-						word_ptr -= 2;
+						word_len -= 2;
 					}
 			}	
 			if (in_quote) in_quote--;
 		} else {
 			in_escape = false;
 		}
-		if (word_ptr - word >= 254) {
+		if (word_len >= 254) {
 			show_fatal_error ("Expression is too long - must be 255 chars or less");
 			if (word)
 				strcpy (word, "0");
 			return true;
 		}
 		if (word)
-			*word_ptr++ = **ptr;
+			word[word_len] = **ptr;
+		word_len++;
 		(*ptr)++;
 	}
 finish_read_expr:
 	// Remove whitespace at the end
 	if (word) {
-		while (word_ptr > word && isspace((unsigned char) word_ptr[-1])) 
-			*(--word_ptr) = '\0';
-		*word_ptr = '\0';
+		while (word_len > 0 && isspace((unsigned char) word[word_len - 1])) 
+			word_len--;
+		word[word_len] = '\0';
 	}
 
 	/* input is either the delimiter or null */
@@ -545,9 +546,9 @@ char* reduce_string (char* input) {
 	int quote_count = 0;
 	for (int i = 0; input[i] != '\0'; i++, output++)
 	{
-		if (input[i] == '\\')
+		if (input[i] == '\\' && input[i + 1] != '\0')
 		{
-			int value;
+			int value = input[i + 1];
 			char pbuf[8] = "'\\ '";
 			pbuf[2] = input[++i];
 			parse_num (pbuf, &value);
-- 
2.43.0


From 7c7826ead775dd704d04d2b1160f3c81aefc946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 08/79] fix: unaligned word access when upper-casing names,
 character literal cut off by the end of a line

---
 modp_ascii.cpp | 10 +++++-----
 parser.cpp     |  8 +++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/modp_ascii.cpp b/modp_ascii.cpp
index c9c3881..8024dd8 100644
--- a/modp_ascii.cpp
+++ b/modp_ascii.cpp
@@ -144,10 +144,9 @@ void modp_toupper_copy(char* dest, const char* str, size_t len)
     const uint8_t* ustr = (const uint8_t*) str;
     const int leftover = len % 4;
     const int imax = len / 4;
-    const uint32_t* s = (const uint32_t*) str;
-    uint32_t* d = (uint32_t*) dest;
     for (i = 0; i != imax; ++i) {
-        eax = s[i];
+        /* neither string needs to be aligned to a word */
+        memcpy (&eax, ustr + i * 4, 4);
         /*
          * This is based on the algorithm by Paul Hsieh
          * http://www.azillionmonkeys.com/qed/asmexample.html
@@ -155,11 +154,12 @@ void modp_toupper_copy(char* dest, const char* str, size_t len)
         ebx = (0x7f7f7f7fu & eax) + 0x05050505u;
         ebx = (0x7f7f7f7fu & ebx) + 0x1a1a1a1au;
         ebx = ((ebx & ~eax) >> 2)  & 0x20202020u;
-        *d++ = eax - ebx;
+        eax -= ebx;
+        memcpy (dest, &eax, 4);
+        dest += 4;
     }
 
     i = imax*4;
-    dest = (char*) d;
     switch (leftover) {
     case 3: *dest++ = (char) gsToUpperMap[ustr[i++]];
     case 2: *dest++ = (char) gsToUpperMap[ustr[i++]];
diff --git a/parser.cpp b/parser.cpp
index 1c8fa0e..2820294 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -276,8 +276,14 @@ static const char *parse_single_num (const char *expr, int *value) {
 		case '\'':
 		{
 			*value = *(++expr);
+			if (*value == '\\')
+				expr++;
+			if (*expr == '\0') {
+				SetLastSPASMError(SPASM_ERR_VALUE_EXPECTED);
+				return NULL;
+			}
 			if (*value == '\\') {
-				switch (toupper (*(++expr))) {
+				switch (toupper (*expr)) {
 					case 'N': 	*value = '\n'; break;
 					case '\\': 	*value = '\\'; break;
 					case '0': 	*value = '\0'; break;
-- 
2.43.0


From 75d6231bef4644df0bf393ab5e38a0ceb9595481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 09/79] fix: eval(...) inside an expression no longer swallows
 what follows it

---
 parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 2820294..4f84a00 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -345,7 +345,8 @@ static const char *parse_single_num (const char *expr, int *value) {
 					} else if (!strcasecmp (name, "eval") && *expr == '(') {
 						free(name);
 						//show_warning ("eval() has no effect except in #define");
-						expr = parse_num_full (expr, value, 0);
+						// (only what's in the parentheses belongs to it)
+						expr = parse_num_full (expr + 1, value, 1);
 						//then a normal label
 					}
 					else if (!strcasecmp (name, "getc") && *expr == '(')
-- 
2.43.0


From 0a8d62b2c069c071630ff4a51ca39af02c61fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 10/79] fix: getc() reads the byte at its index, and a missing
 file is an error

---
 directive.cpp | 2 +-
 parser.cpp    | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index f943b6c..26c29d4 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -663,7 +663,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				if (*next != '\0')
 					goto echo_error;
 
-				if ((define = search_defines (name))) {
+				if ((define = search_defines (name)) && strcasecmp (name, "getc") != 0) {
 					char *expr;
 					list_t *args = NULL;
 	
diff --git a/parser.cpp b/parser.cpp
index 4f84a00..b116823 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -362,11 +362,12 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						expr++;
 						read_expr(&expr, filename, ",");
+						if (*expr == ',') expr++;
 
 						// Is the filename given a macro?
-						if ((define = search_defines (filename)))
+						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
-							strncpy (filename, define->contents, sizeof (filename));
+							snprintf (filename, sizeof (filename), "%s", define->contents);
 						}
 
 						read_expr (&expr, parse_buf, ",");
@@ -379,6 +380,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 							fclose (temp_file);
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
+							return NULL;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From b89e2c391bb95e49baedd00055048f785a1c974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 11/79] fix: bad string or valueless macro argument in a data
 directive is reported

---
 directive.cpp | 19 ++++++++++++++++---
 errors.cpp    |  6 +++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 26c29d4..232f1d3 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -542,8 +542,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		if (word[0] == '"')
 		{
 			char *next = next_expr (word, EXPR_DELIMS);
-			if (*next != '\0') 
+			session = StartSPASMErrorSession();
+			if (*next != '\0') {
+				SetLastSPASMError(SPASM_ERR_SYNTAX);
 				goto echo_error;
+			}
 			
 			reduce_string (word);
 			if (type == ES_ECHO)
@@ -564,6 +567,8 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	                program_counter++;
 				}
 			}
+			ReplaySPASMErrorSession(session);
+			EndSPASMErrorSession(session);
 
 		} else {
 			int value;
@@ -675,8 +680,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					
 					if (*(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
-					if (!name_end)
-						return (char *) ptr;
+					if (!name_end) {
+						ReplaySPASMErrorSession(session);
+						EndSPASMErrorSession(session);
+						break;
+					}
 					
 					expr = parse_define (define);
 					if (expr != NULL)
@@ -723,6 +731,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						}
 						free (expr);
 					}
+					else
+					{
+						// there's no value, so it's still the error it was
+						ReplaySPASMErrorSession(session);
+					}
 					remove_arg_set (args);
 				}
 				else
diff --git a/errors.cpp b/errors.cpp
index 19366a5..e66a9b5 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -74,8 +74,9 @@ static LPERRORINSTANCE AllocErrorInstance()
 	return lpErr;
 }
 
-static void FreeErrorInstance(LPERRORINSTANCE lpErr)
+static void FreeErrorInstance(void *lpData)
 {
+	LPERRORINSTANCE lpErr = (LPERRORINSTANCE) lpData;
 	if (lpErr->lpszErrorText != NULL)
 	{
 		free(lpErr->lpszErrorText);
@@ -89,7 +90,6 @@ static void FreeErrorInstance(LPERRORINSTANCE lpErr)
 		free(lpErr->lpszFileName);
 	}
 	free(lpErr);
-	lpErr = NULL;
 }
 
 int StartSPASMErrorSession(void)
@@ -279,7 +279,7 @@ void ClearSPASMErrorSessions()
 {
 	if (g_ErrorList != NULL)
 	{
-		list_free((list_t *) g_ErrorList, true, (void (*)(void *)) FreeErrorInstance);
+		list_free((list_t *) g_ErrorList, true, FreeErrorInstance);
 	}
 	g_nErrorSession = 0;
 	g_ErrorList = NULL;
-- 
2.43.0


From 5e58a1f812e2534ee3057da268f7af861d5026c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 12/79] fix: values needed in pass one that are forward
 references are errors, output stays in its buffer

---
 directive.cpp | 42 ++++++++++++++++++++++++++++++++----------
 directive.h   |  1 +
 main.cpp      |  2 +-
 pass_one.cpp  |  8 +++++++-
 preop.cpp     |  6 +++---
 5 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 232f1d3..c10bbbe 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -12,6 +12,24 @@
 #include "errors.h"
 
 
+/*
+ * Parses an expression whose value is needed
+ * right away in the first pass, returns false
+ * (after showing an error) if it can't be
+ * found because of a forward reference
+ */
+
+bool parse_num_now (const char *expr, int *value) {
+	int session = StartSPASMErrorSession();
+	bool success = parse_num (expr, value);
+	if (!success && !IsSPASMErrorSessionFatal(session))
+		show_error ("'%s' has to be defined before it's used here", skip_whitespace (expr));
+	ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+	return success;
+}
+
+
 /*
  * Handles a directive, returns the
  * new location in the file
@@ -77,7 +95,7 @@ char *handle_directive (const char *ptr) {
 			bool fResult = read_expr(&ptr, value_str, "");
 			if (fResult == true)
 			{
-				if (parse_num(value_str, &value) == true)
+				if (parse_num_now(value_str, &value) == true)
 				{
 					if (value < 0)
 					{
@@ -104,14 +122,14 @@ char *handle_directive (const char *ptr) {
 			//listing_on = false;
 
 			read_expr (&ptr, szSize, ",");
-			parse_num (szSize, &size);
+			parse_num_now (szSize, &size);
 			ptr = skip_whitespace (ptr);
 			if (*ptr == ',')
 				ptr++;
 
 			if (read_expr (&ptr, szFill, "")) {
 				//if there's a value to fill the block with, then handle that
-				parse_num (szFill, &fill_value);
+				parse_num_now (szFill, &fill_value);
 			} else {
 				//otherwise use 0
 				fill_value = 0;
@@ -131,7 +149,7 @@ char *handle_directive (const char *ptr) {
 			program_counter += size;
 			stats_datasize += size;
 
-			while (size-- > 0)
+			while (size-- > 0 && !error_occurred)
 				write_out (fill_value & 0xFF);
 
 			//listing_on = old_listing_on;
@@ -365,8 +383,7 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			if (!parse_num (value_str, &value) && parser_forward_ref_err) {
-			} else {
+			if (parse_num_now (value_str, &value)) {
 				if (last_label == NULL)
 					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
 				else
@@ -440,16 +457,21 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			parse_num (value_str, (int *) &value);
+			if (!parse_num_now (value_str, &value))
+				break;
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
-			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents)))
+			long long new_offset = (out_ptr - output_contents) + (long long) value - (long long) program_counter;
+			if (new_offset > (long long) output_buf_size) {
 				show_fatal_error ("Seek location %d out of bounds", value);
-			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
+				break;
+			} else if (new_offset < 0 || value < 0) {
 				show_fatal_error ("Seek value %d too small", value);
+				break;
+			}
 		
-			out_ptr += value - ((int) program_counter);
+			out_ptr = output_contents + new_offset;
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
 			program_counter = value;
 			break;
diff --git a/directive.h b/directive.h
index 7ca3f2e..16d3f75 100644
--- a/directive.h
+++ b/directive.h
@@ -10,6 +10,7 @@ typedef enum _ES_TYPE {
 	ES_NONE,
 } ES_TYPE;
 
+bool parse_num_now (const char *expr, int *value);
 char *handle_directive (const char *ptr);
 void show_define (define_t *define);
 char *parse_emit_string (const char *, ES_TYPE, void *);
diff --git a/main.cpp b/main.cpp
index 39c3962..ee4dc45 100644
--- a/main.cpp
+++ b/main.cpp
@@ -443,7 +443,7 @@ int main (int argc, char **argv)
 		init_storage();
 		is_storage_initialized = true;
 	}
-	output_contents = (unsigned char *) malloc(output_buf_size);
+	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
 	int error = run_assembly();
diff --git a/pass_one.cpp b/pass_one.cpp
index 684347b..02090c5 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -65,6 +65,12 @@ int write_out (int val) {
 		listing_width++;
 	}
 
+	if (out_ptr - output_contents >= (long) output_buf_size) {
+		if (!error_occurred)
+			show_fatal_error ("Output is too large, maximum is %u bytes", output_buf_size);
+		return val;
+	}
+
 	//if (mode & MODE_NORMAL)
 	*(out_ptr++) = val;
 
@@ -245,7 +251,7 @@ char *run_first_pass_line_sec (char *ptr) {
 		ptr++;
 		read_expr (&ptr, value_str, "");
 
-		if (parse_num (value_str, &value) == true)
+		if (parse_num_now (value_str, &value) == true)
 		{
 			if (last_label == NULL) {
 				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..5c7d0c8 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -589,10 +589,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
@@ -600,7 +600,7 @@ char *handle_preop_import (char *ptr) {
 	free(file_path);
 
 	//write the contents to the output
-	while ((c = fgetc(import_file)) != EOF)
+	while (!error_occurred && (c = fgetc(import_file)) != EOF)
 	{
 		write_out (c);
 		program_counter++;
-- 
2.43.0


From 415a646acb131e74c3ad47ac2e97e7a9f719011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 13/79] fix: RST with a forward reference as its operand

---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index f89c42f..e02524e 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From 699e16338105d260f3922e8deddd8a9baa3fb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 14/79] fix: use after free when a running macro is removed or
 its arguments go away

---
 parser.cpp   |  7 +++++--
 pass_two.cpp |  6 ++++--
 storage.cpp  | 11 ++++++++++-
 utils.cpp    |  4 +++-
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index b116823..caeb770 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -155,7 +155,9 @@ int parse_f (const char *expr) {
 
 char *parse_define (define_t *define)
 {
-	char *curr_line = define->contents;
+	//preops can change or remove the define, so work on a copy
+	char *contents = define->contents ? strdup (define->contents) : NULL;
+	char *curr_line = contents;
 	char *lpszResult = NULL;
 
 	while (curr_line != NULL && *curr_line && !error_occurred) {
@@ -172,10 +174,11 @@ char *parse_define (define_t *define)
 			break;
 		}
 
-		curr_line = next_code_line(next_line);
+		curr_line = next_line ? next_code_line(next_line) : NULL;
 		line_num++;
 	}
 
+	free (contents);
 	return lpszResult;
 }
 
diff --git a/pass_two.cpp b/pass_two.cpp
index e02524e..e0636ef 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -45,7 +45,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		if (mode & MODE_LIST)
 			new_expr->listing_offset = listing_offset;
 		new_expr->type = type;
-		new_expr->input_file = curr_input_file;
+		new_expr->input_file = strdup (curr_input_file);
 		new_expr->listing_on = listing_on;
 		new_expr->inst_size = inst_size;
 		new_expr->or_value = or_value;
@@ -105,7 +105,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	new_output->curr_reusable = get_curr_reusable();
 #endif
 	new_output->type = type;
-	new_output->input_file = curr_input_file;
+	new_output->input_file = strdup (curr_input_file);
 	new_output->next = NULL;
 
 	if (type == OUTPUT_SHOW)
@@ -167,6 +167,7 @@ void run_second_pass () {
 			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
+		free (expr_list->input_file);
 		old_expr = expr_list;
 		expr_list = expr_list->next;
 		free (old_expr);
@@ -216,6 +217,7 @@ void run_second_pass () {
 #endif
 
 		free (output_list->expr);
+		free (output_list->input_file);
 		old_output = output_list;
 		output_list = output_list->next;
 		free (old_output);
diff --git a/storage.cpp b/storage.cpp
index ece6b5f..e947a24 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -29,6 +29,8 @@ extern int total_reusables, curr_reusable;
 bool case_sensitive;
 hash_t *label_table, *define_table;
 list_t *arg_list = NULL;
+//defines that were removed, but might still be in use by the macro that's running
+static list_t *removed_defines = NULL;
 const char *separators = "+-*<>|&/%^()\\, \t\r";
 
 void write_labels_callback(void *, void *);
@@ -230,6 +232,9 @@ EXPORT void free_storage() {
 	hash_free(define_table);
 	define_table = NULL;
 
+	list_free(removed_defines, true, destroy_define_value);
+	removed_defines = NULL;
+
 	while (curr_opcode) {
 		next_opcode = curr_opcode->next;
 		if (curr_opcode->is_added) {
@@ -455,7 +460,11 @@ void remove_define (char *name) {
 		name = new_name;
 	}
 			
-	hash_remove (define_table, name);
+	define_t *define = (define_t *) hash_lookup (define_table, name);
+	if (define != NULL) {
+		removed_defines = list_prepend (removed_defines, define);
+		define_table->erase (define->name);
+	}
 
 	if (!case_sensitive)
 		free(name);
diff --git a/utils.cpp b/utils.cpp
index 0bb7b79..52c9916 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -853,7 +853,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				bool group_define = group && expr_needs_group (define->contents);
 				if (group_define)
 					eb_append (new_expr, "(", 1);
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local, group);
+				char *contents = strdup (define->contents);
+				expand_expr_full (contents, new_expr, depth + 1, search_local, group);
+				free (contents);
 				if (group_define)
 					eb_append (new_expr, ")", 1);
 				remove_arg_set (args);
-- 
2.43.0


From c14cbb42173f835b35b8a853b3b5a0f9aa999c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:23 +0000
Subject: [PATCH 15/79] fix: many errors no longer overflow the stack when they
 are printed

---
 errors.cpp | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index e66a9b5..a33267c 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -140,33 +140,42 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	return fIsFatal;
 }
 
-static void ReplayErrorRecursive(const list_t *pList, bool fFatalOnly)
+static list_t *ReverseErrorList(list_t *pList)
 {
-	if (pList == NULL)
-		return;
+	list_t *pReversed = NULL;
+	while (pList != NULL)
+	{
+		list_t *pNext = pList->next;
+		pList->next = pReversed;
+		pReversed = pList;
+		pList = pNext;
+	}
+	return pReversed;
+}
 
-	ReplayErrorRecursive(pList->next, fFatalOnly);
-	if (((LPERRORINSTANCE) pList->data)->nSession == 1)
+// Prints the oldest errors first (the list starts with the newest)
+static void ReplayErrors(list_t *pList, bool fFatalOnly)
+{
+	list_t *pOldest = ReverseErrorList(pList);
+	for (pList = pOldest; pList != NULL; pList = pList->next)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
-		if (fFatalOnly) 
-		{
-			if (!IsSPASMErrorFatal(lpError->dwErrorCode))
-			{
-				return;
-			}
-		}
-		DPRINT("[ReplayErrorRecursive] printing error\n");
+		if (lpError->nSession != 1)
+			continue;
+		if (fFatalOnly && !IsSPASMErrorFatal(lpError->dwErrorCode))
+			continue;
+		DPRINT("[ReplayErrors] printing error\n");
 		PrintSPASMError(lpError);
 	}
+	ReverseErrorList(pOldest);
 }
 
 void ReplaySPASMErrorSession(int nSession, bool fFatalOnly)
 {
 	if (nSession == 1)
 	{
-		DPRINT("[ReplaySPASMErrorSession] calling ReplayErrorRecursive\n");
-		ReplayErrorRecursive((list_t *) g_ErrorList, fFatalOnly);
+		DPRINT("[ReplaySPASMErrorSession] calling ReplayErrors\n");
+		ReplayErrors((list_t *) g_ErrorList, fFatalOnly);
 	}
 	else
 	{
-- 
2.43.0


From bad1e750182c475ae7a92eddd12055f341b3e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 16/79] fix: endlessly recursive macros and includes are an
 error instead of a stack overflow

---
 pass_one.cpp | 30 ++++++++++++++++++++++++++++--
 pass_one.h   |  2 ++
 preop.cpp    |  6 ++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 02090c5..04224e2 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -276,6 +276,30 @@ static define_t *search_defines_helper(const char *name_start, size_t len)
 	return result;
 }
 
+//max depth of macros, included files and fcreate buffers inside each other
+#define NESTING_LIMIT 256
+static int nesting_depth = 0;
+
+/*
+ * Call before going into a macro or file, returns false
+ * (after showing an error) if it's too deep to do so
+ */
+
+bool enter_nested (void) {
+	if (nesting_depth >= NESTING_LIMIT) {
+		if (!error_occurred)
+			show_fatal_error ("Macros or included files are nested too deeply (only %d levels allowed)", NESTING_LIMIT);
+		return false;
+	}
+	nesting_depth++;
+	return true;
+}
+
+void leave_nested (void) {
+	nesting_depth--;
+}
+
+
 /*
  * Handles an opcode or macro,
  * returns the new location in
@@ -374,7 +398,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			{
 				SetLastSPASMError(SPASM_ERR_FCREATE_NOFILE);
 			}
-			else
+			else if (enter_nested ())
 			{
 				char *fcreate_string = eb_extract(eb_fcreate);
 
@@ -427,6 +451,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 				ReplaySPASMErrorSession(session);
 				EndSPASMErrorSession(session);
+				leave_nested ();
 			}
 			ptr += 2;
 		} else
@@ -443,7 +468,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			
 			ptr = args_end;
 
-			if (!IsSPASMErrorSessionFatal(session))
+			if (!IsSPASMErrorSessionFatal(session) && enter_nested ())
 			{
 				in_macro++;
 
@@ -516,6 +541,7 @@ char *handle_opcode_or_macro (char *ptr) {
 					}
 				}
 				in_macro--;
+				leave_nested ();
 			}
 
 			//clear the argument values
diff --git a/pass_one.h b/pass_one.h
index a54cf62..51e42cd 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -6,6 +6,8 @@ typedef enum {
 	SUFFIX_IL = 2
 } suffix_type;
 
+bool enter_nested (void);
+void leave_nested (void);
 void run_first_pass (char *ptr);
 char *run_first_pass_line (char *ptr);
 int write_out (int);
diff --git a/preop.cpp b/preop.cpp
index 5c7d0c8..1659585 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -505,6 +505,11 @@ static char *handle_preop_include (char *ptr)
 			free (file_path);
 			return ptr;
 		}
+		if (!enter_nested ()) {
+			release_file_contents (input_contents);
+			free (file_path);
+			return ptr;
+		}
 
 		//add it to the list of input files
 		alloc_path = strdup (file_path);
@@ -532,6 +537,7 @@ static char *handle_preop_include (char *ptr)
 
 		//now parse the file
 		run_first_pass (input_contents);
+		leave_nested ();
 
 		//when done, swap the old curr_X values back in
 		curr_input_file = old_input_file;
-- 
2.43.0


From eddc1ec265f3ed5d55f8f0132489b63f6bfe8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 17/79] fix: fcreate commands need their full name and a buffer
 that exists, and stay on their line

---
 pass_one.cpp | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 04224e2..77f21e5 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -268,6 +268,22 @@ char *run_first_pass_line_sec (char *ptr) {
 }
 
 
+#ifdef USE_BUILTIN_FCREATE
+static bool is_name(const char *name, const char *start, size_t len)
+{
+	return strlen(name) == len && !strncasecmp(name, start, len);
+}
+
+// skips to after the parenthesis that ends what ptr points at (but no further than the line)
+static char *skip_closing_paren(char *ptr)
+{
+	ptr = skip_whitespace(ptr);
+	if (*ptr == ')')
+		ptr++;
+	return ptr;
+}
+#endif
+
 static define_t *search_defines_helper(const char *name_start, size_t len)
 {
 	char *name = strndup(name_start, len);
@@ -363,26 +379,27 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		if (is_name ("buf", name_start, name_end - name_start) && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
-				cur_buf = value;
-			} else {
-				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
+			if (parse_num_now(buf, &value)) {
+				if (value >= 0 && value < MAX_BUFFERS)
+					cur_buf = value;
+				else
+					SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, "buf");
 			}
-			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+			ptr = skip_closing_paren (ptr);
+		} else if (is_name ("clr", name_start, name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
 			}
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
-			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+			ptr = skip_closing_paren (ptr + 1);
+		} else if (is_name ("wr", name_start, name_end - name_start) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -390,9 +407,11 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
-			ptr++;
+			ptr = skip_closing_paren (ptr);
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (is_name ("run", name_start, name_end - name_start) && *ptr == '(') {
+			// the code in the buffer might switch to another one
+			int run_buf = cur_buf;
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
@@ -442,8 +461,10 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 
 				free(fcreate_string);
-				eb_free(fcreate_bufs[cur_buf]);
-				fcreate_bufs[cur_buf] = NULL;
+				if (fcreate_bufs[run_buf] != NULL) {
+					eb_free(fcreate_bufs[run_buf]);
+					fcreate_bufs[run_buf] = NULL;
+				}
 
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
@@ -453,7 +474,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				EndSPASMErrorSession(session);
 				leave_nested ();
 			}
-			ptr += 2;
+			ptr = skip_closing_paren (ptr + 1);
 		} else
 #endif
 
-- 
2.43.0


From 4c8bb804fc718f2bdc64e08a486bf25475120b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:41 +0000
Subject: [PATCH 18/79] fix: opcode suffixes aren't looked for before the start
 of the name

---
 pass_one.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 77f21e5..d622f04 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -22,7 +22,7 @@ static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
-int parse_suffix (char **opcode_end);
+int parse_suffix (char *name_start, char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
 
@@ -335,7 +335,7 @@ char *handle_opcode_or_macro (char *ptr) {
 	char *opcode_end = name_end;
 	int suffix = -1;
 	if (mode & MODE_EZ80)
-		suffix = parse_suffix(&opcode_end);
+		suffix = parse_suffix(name_start, &opcode_end);
 
 	//try to match it against opcodes first
 	curr_opcode = all_opcodes;
@@ -590,8 +590,12 @@ char *handle_opcode_or_macro (char *ptr) {
  * argument is set to the end of the main opcode.
  */
 
-int parse_suffix(char **opcode_end) {
+int parse_suffix(char *name_start, char **opcode_end) {
 	char *suffix_ptr = *opcode_end;
+	// there's at least one character before the shortest suffix (but don't look past
+	// the start of the name for a longer one either)
+	if (suffix_ptr - name_start < 3)
+		return -1;
 	char last1 = tolower(*--suffix_ptr);
 	if (last1 == 's' || last1 == 'l') {
 		char last2 = tolower(*--suffix_ptr);
@@ -605,7 +609,7 @@ int parse_suffix(char **opcode_end) {
 				*opcode_end = suffix_ptr;
 				return (adl_mode ? SUFFIX_L : 0) | (last1 == 'l' ? SUFFIX_IL : 0);
 			}
-			if (*--suffix_ptr == '.' && (last2 == 's' || last2 == 'l')) {
+			if (suffix_ptr > name_start && *--suffix_ptr == '.' && (last2 == 's' || last2 == 'l')) {
 				*opcode_end = suffix_ptr;
 				return (last2 == 'l' ? SUFFIX_L : 0) | (last1 == 'l' ? SUFFIX_IL : 0);
 			}
-- 
2.43.0


From 73418e6136298516156a12f87b732f2cd3eb5c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 19/79] fix: including a file no longer resets ADL mode

---
 main.cpp     | 2 ++
 pass_one.cpp | 3 ---
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index ee4dc45..559aca6 100644
--- a/main.cpp
+++ b/main.cpp
@@ -115,6 +115,8 @@ int run_assembly()
 
 	printf ("Pass one... \n");
 
+	adl_mode = (mode & MODE_EZ80) != 0;
+
 	int first_pass_session = StartSPASMErrorSession();
 	run_first_pass ((char *) input_contents);
 	ReplayFatalSPASMErrorSession(first_pass_session);
diff --git a/pass_one.cpp b/pass_one.cpp
index d622f04..a410250 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -122,9 +122,6 @@ void do_listing_for_line (char *ptr) {
 void run_first_pass (char *ptr) {
 	line_num = 1;
 	pass_one = true;
-	if (mode & MODE_EZ80) {
-		adl_mode = true;
-	}
 
 	while (!error_occurred && *ptr != '\0') {
 
-- 
2.43.0


From 902b945e1318ad7af1e54ca4488139f62a921891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 20/79] fix: endlessly recursive macros in expressions are an
 error instead of a stack overflow

---
 directive.cpp |  7 ++++++-
 parser.cpp    | 19 ++++++++++++++++---
 utils.cpp     | 19 ++++++++++++-------
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index c10bbbe..0afa421 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -12,6 +12,9 @@
 #include "errors.h"
 
 
+//max depth of #defined lists in #defined lists
+#define EMIT_LEVEL_LIMIT 20
+
 /*
  * Parses an expression whose value is needed
  * right away in the first pass, returns false
@@ -556,9 +559,11 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	char *name_end;
 
 	level++;
+	if (level > EMIT_LEVEL_LIMIT && !error_occurred)
+		show_fatal_error ("List in a #define is nested too deeply (only %d levels allowed)", EMIT_LEVEL_LIMIT);
 
 	arg_context_t context = ARG_CONTEXT_INITIALIZER;
-	while ((word = extract_arg_string(&ptr, &context)) != NULL)
+	while (!error_occurred && (word = extract_arg_string(&ptr, &context)) != NULL)
 	{
 		// handle strings
 		if (word[0] == '"')
diff --git a/parser.cpp b/parser.cpp
index caeb770..bb93a12 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4,6 +4,8 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
+//max depth of expressions that are parsed while another one is
+#define NESTED_EXPR_LIMIT 64
 
 #include "spasm.h"
 #include "parser.h"
@@ -110,14 +112,25 @@ int parse_depth;
  */
 
 bool parse_num (const char *expr, int *value) {
+	static int nested_exprs = 0;
 	int fake_value;
-	const char *result;
+	const char *result = NULL;
 
 	if (value == NULL)
 		value = &fake_value;
 
-	parse_depth = 0;
-	result = parse_num_full (expr, value, 0);
+	if (nested_exprs >= NESTED_EXPR_LIMIT) {
+		if (!error_occurred)
+			show_fatal_error ("Macros in expressions are nested too deeply");
+	} else {
+		//parsing the arguments of a macro doesn't affect the depth of what uses it
+		int old_depth = parse_depth;
+		parse_depth = 0;
+		nested_exprs++;
+		result = parse_num_full (expr, value, 0);
+		nested_exprs--;
+		parse_depth = old_depth;
+	}
 
 	if (!result)
 		*value = 0;
diff --git a/utils.cpp b/utils.cpp
index 52c9916..7722776 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -235,7 +235,11 @@ char *eval (const char *expr)
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
 	EndSPASMErrorSession(session);
-	if (fResult)
+	if (error_occurred)
+	{
+		expr_value = strdup (expr);
+	}
+	else if (fResult)
 	{
 		const char *sign = "";
 		if (value < 0) {
@@ -802,7 +806,7 @@ static bool expr_needs_group (const char *text) {
  * text replacements
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool group) {
+static bool expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool group) {
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -812,7 +816,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 
 	if (depth > RECURSION_LIMIT) {
 		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
-		return;
+		return false;
 	}
 
 	while (*expr) {
@@ -844,7 +848,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 					expr = parse_args (expr + name_len, define, &args);
 					if (!expr) {
 						free (name);
-						return;
+						return false;
 					}
 				} else {
 					expr += name_len;
@@ -854,14 +858,14 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				if (group_define)
 					eb_append (new_expr, "(", 1);
 				char *contents = strdup (define->contents);
-				expand_expr_full (contents, new_expr, depth + 1, search_local, group);
+				bool success = expand_expr_full (contents, new_expr, depth + 1, search_local, group);
 				free (contents);
 				if (group_define)
 					eb_append (new_expr, ")", 1);
 				remove_arg_set (args);
-				if (error_occurred) {
+				if (!success || error_occurred) {
 					free(name);
-					return;
+					return false;
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
@@ -902,6 +906,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		//write those
 		eb_append (new_expr, block_start, expr - block_start);
 	}
+	return true;
 }
 
 
-- 
2.43.0


From 916e49e8ef475d9b4127ecdac4ac04c3e9832b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 21/79] fix: too many reusable labels are an error instead of
 an overflow

---
 storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage.cpp b/storage.cpp
index e947a24..1c1a040 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -520,6 +520,10 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
  * write a new reusable label
  */
 void add_reusable() {
+	if (curr_reusable >= MAX_REUSABLES) {
+		show_fatal_error ("Too many reusable labels, maximum is %d", MAX_REUSABLES);
+		return;
+	}
 	reusables[curr_reusable++] = program_counter;
 	total_reusables = curr_reusable;
 }
-- 
2.43.0


From 9596f248d1e081cf0af08affc1cadb6a7e3cb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 22/79] fix: labels and equates work in code counter mode

---
 storage.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 1c1a040..ba634bd 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -572,11 +572,6 @@ label_t *add_label (char *name, int value) {
 	label_t *new_label;
 	define_t *conflict_define;
 
-	if (mode & MODE_CODE_COUNTER) {
-		free(name);
-		return NULL;
-	}
-
 	if (!case_sensitive) {
 		char *new_name = strup (name);
 		free (name);
-- 
2.43.0


From 1d4d0a0cbbd007a40a9ddb29029f5e66a0fdf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 23/79] fix: a dot in a directory's name is not an output file
 extension

---
 utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 7722776..21452c4 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -756,8 +756,9 @@ char *change_extension (const char *filename, const char *ext) {
 	char *new_fn = (char *) malloc(strlen(filename) + strlen(ext) + 2);
 	strcpy(new_fn, filename);
 	
+	// (a dot in the name of a directory doesn't start an extension)
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From 3f3adeefe115e063d31b38dfc05c7cc4de42e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 24/79] fix: empty files can be assembled and included

---
 utils.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 21452c4..d9cb4e1 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -687,7 +687,8 @@ char *get_file_contents (const char *filename) {
 #else
 	FILE *file;
 	char *buffer;
-	size_t size, read_size;
+	long size;
+	size_t read_size;
 
 	// first try to open it
 	file = fopen (filename, "rb");
@@ -706,23 +707,26 @@ char *get_file_contents (const char *filename) {
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
 		matched &= (unsigned char)c == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-	} else {
+	} else if (!ferror (file)) {
 		rewind(file);
 	}
 
+	// (directories can be opened, but not read)
+	if (ferror (file) || size < 0) {
+		fclose (file);
+		return NULL;
+	}
+
 	// now allocate the memory and read in the contents
 	buffer = (char *) malloc (size + 1);
 	read_size = fread (buffer, 1, size, file);
 	fclose (file);
 
-	if (read_size != size) {
+	if (read_size != (size_t) size) {
 		free (buffer);
 		return NULL;
 	}
-- 
2.43.0


From ba2ba99e50bee326b81c6615ee5113c02075c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:37 +0000
Subject: [PATCH 25/79] fix: inserting nothing into the listing keeps its
 offset

---
 expand_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand_buf.cpp b/expand_buf.cpp
index c8e1836..f3c3d1a 100644
--- a/expand_buf.cpp
+++ b/expand_buf.cpp
@@ -50,7 +50,7 @@ int eb_insert (expand_buf *buf, int offset, const char *text, size_t length) {
 		length = strlen (text);
 
 	if (length == 0)
-		return 0;
+		return offset;
 
 	//if the string's too long for the buffer to hold, expand it
 	if ((size_t) (buf->end + length - buf->start) > buf->size) {
-- 
2.43.0


From dc17582392e89f1ac80eecdfbfb1ab134d83ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 26/79] fix: program names in headers are the base name of the
 output file, 8 characters long

---
 export.cpp | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..05eed78 100644
--- a/export.cpp
+++ b/export.cpp
@@ -117,9 +117,9 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 
 	//get the type from the extension of the output filename
-	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
-	if (i != 0) {
-		const char *ext = output_filename + i + 1;
+	const char *ext = strrchr (output_filename, '.');
+	if (ext != NULL && ext != output_filename && strpbrk (ext, "/\\") == NULL) {
+		ext++;
 
 		int type;
 		for (type = 0; type < ARRAYSIZE(extensions); type++) {
@@ -152,16 +152,14 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		return;
 	}
 
-	for (i = strlen (output_filename); output_filename[i] != '\\' && output_filename[i] != '/' && i; i--);
-	if (i != 0)
-		i++;
-	
+	//the name of the program is the name of the file, without directories or the extension
 	char prgmname[MAX_PATH];
-	strcpy(prgmname, output_filename);
+	for (i = strlen (output_filename); i > 0 && output_filename[i - 1] != '\\' && output_filename[i - 1] != '/'; i--);
+	snprintf (prgmname, sizeof (prgmname), "%s", output_filename + i);
 	
-	for (i = strlen (prgmname); prgmname[i] != '.' && i; i--);
-	if (i != 0)
-		prgmname[i] = '\0';
+	char *dot = strrchr (prgmname, '.');
+	if (dot != NULL)
+		*dot = '\0';
 
 	//then decide how to write the contents
 	switch (calc)
@@ -474,27 +472,15 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
 		namestring = strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
-		// Use the base filename (no directory, if given) as the program name.
-		namestring = strdup(baseName);
+		namestring = strdup(prgmname);
 		/* The name must be capital letters and numbers */
 		if (calc < TYPE_85P) {
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
+	/* only 8 characters fit in the header */
+	if (strlen (namestring) > 8)
+		namestring[8] = '\0';
 	/* get size */
 	if (calc==TYPE_83P) {
 		size *= 2; // Double size to account for character conversion of hex opcodes
-- 
2.43.0


From f37d488db3931baef108119ac06e07a1de0d8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 27/79] fix: length fields of 85S and 86S files

---
 export.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.cpp b/export.cpp
index 05eed78..c03274a 100644
--- a/export.cpp
+++ b/export.cpp
@@ -524,10 +524,10 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		temp = size + 8 + strlen (namestring);
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-- 
2.43.0


From b7118d5475b0b838f31b90dc17630f8f258343fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 28/79] fix: failing to write an output file is an error

---
 export.cpp  | 6 +++++-
 main.cpp    | 5 ++++-
 preop.cpp   | 2 ++
 storage.cpp | 6 +++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index c03274a..a7620b6 100644
--- a/export.cpp
+++ b/export.cpp
@@ -191,7 +191,11 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		break;
 	}
 
-	fclose (outfile);
+	bool write_failed = ferror (outfile) != 0;
+	if (fclose (outfile) != 0)
+		write_failed = true;
+	if (write_failed)
+		show_error ("Error writing to output file '%s'", output_filename);
 	free(curr_input_file);
 	curr_input_file = NULL;
 }
diff --git a/main.cpp b/main.cpp
index 559aca6..1e5e15d 100644
--- a/main.cpp
+++ b/main.cpp
@@ -181,7 +181,10 @@ int run_assembly()
 				return EXIT_FATAL_ERROR;
 			}
 
-			fclose (file);
+			if (fclose (file) != 0) {
+				puts ("Error writing to listing file");
+				return EXIT_FATAL_ERROR;
+			}
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
diff --git a/preop.cpp b/preop.cpp
index 1659585..2e4efd9 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -612,6 +612,8 @@ char *handle_preop_import (char *ptr) {
 		program_counter++;
 	}
 
+	if (ferror (import_file))
+		show_error ("Couldn't read #imported file %s", qs);
 	fclose (import_file);
 	return ptr;
 }
diff --git a/storage.cpp b/storage.cpp
index ba634bd..3d0c9ac 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -77,7 +77,11 @@ void write_labels (char *filename) {
 		node = node->next;
 	}
 
-	fclose (symtable);
+	bool write_failed = ferror (symtable) != 0;
+	if (fclose (symtable) != 0)
+		write_failed = true;
+	if (write_failed)
+		show_error ("Error writing to symbol table file '%s'", filename);
 	
 	list_free (label_list.next, true, NULL);
 	free(hdr_node.name);
-- 
2.43.0


From c93dd434a0b73e6a07c040cddb61fc0bdc4eeee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 29/79] fix: .echo to a file with a long, missing or valueless
 name, or a forward reference

---
 directive.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 0afa421..cd35c79 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -267,13 +267,15 @@ addinstr_fail:
 				char target_format[2] = "w";
 				FILE *echo_target;
 				char filename[MAX_PATH];
-				char temp_filename[MAX_PATH];
+				char temp_filename[MAX_PATH * 2];
 				define_t *define;
 
 				if ((++ptr)[0] == '>')
 					target_format[0] = 'a';
 
-				ptr = skip_whitespace (ptr + 1);
+				if (!is_end_of_code_line (ptr))
+					ptr++;
+				ptr = skip_whitespace (ptr);
 				if (is_end_of_code_line (ptr)) {
 					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
 					return NULL;
@@ -282,17 +284,15 @@ addinstr_fail:
 				read_expr (&ptr, filename, " \t");
 
 				// Is the filename given a macro?
-				if ((define = search_defines (filename)))
-					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
+				if ((define = search_defines (filename)) && define->contents != NULL)
+					snprintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
 					
 				reduce_string(filename);
 
 				if (is_abs_path(filename)) {
-					strncpy(temp_filename, skip_whitespace (filename), sizeof (temp_filename));
+					snprintf(temp_filename, sizeof (temp_filename), "%s", skip_whitespace (filename));
 				} else {
-					strncpy(temp_filename, temp_path, sizeof (temp_filename));
-					strncat(temp_filename, "/", sizeof (temp_filename) - 1);
-					strncat(temp_filename, skip_whitespace (filename), sizeof (temp_filename) - 1);
+					snprintf(temp_filename, sizeof (temp_filename), "%s/%s", temp_path, skip_whitespace (filename));
 				}
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
@@ -653,6 +653,9 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				switch (type) 
 				{
 				case ES_ECHO:
+					// (echoing to the console is tried again in the second pass, but a file is written now)
+					if (echo_target != NULL && echo_target != stdout)
+						show_error ("'%s' has to be defined before it's used here", word);
 					break;
 				case ES_BYTE: 
 					{
-- 
2.43.0


From 698418979e5c95190dbdc162f5f831f07432eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 30/79] fix: .addinstr with bad data or too many arguments is
 rejected

---
 directive.cpp | 12 +++++++++---
 opcodes.h     |  2 ++
 pass_one.cpp  |  2 +-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index cd35c79..dfe3b62 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -179,14 +179,20 @@ char *handle_directive (const char *ptr) {
 			reduce_string (word);
 			instr->args = strdup (word);
 
+			// There's only room to remember so many arguments of an instruction
+			for (i = 0; instr->args[i]; i++)
+				if (is_arg (instr->args[i])) base++;
+			if (base > MAX_INSTR_ARGS) goto addinstr_fail;
+			base = 0;
+
 			// Instruction data
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
-			conv_hex (word, word + strlen (word), &result);
+			if (!conv_hex (word, word + strlen (word), &result)) goto addinstr_fail;
 			instr->instr_size = strlen (word) / 2;
 
 			// Sanity check: are we within the upper bound?
 			// (If not, fail - otherwise we start overwriting memory)
-			if (instr->instr_size > 8) goto addinstr_fail;
+			if (instr->instr_size > (int) sizeof (result)) goto addinstr_fail;
 
 			for (j = instr->instr_size - 1; j >= 0; j--)
 				instr->instr_data[instr->instr_size - j - 1] = (result >> (j * 8)) & 0xFF;
@@ -204,7 +210,7 @@ char *handle_directive (const char *ptr) {
 			// End data ...
 			if (read_expr (&ptr, word, " \t")) {
 				int output;
-				conv_hex (word, word + strlen (word), &output);
+				if (!conv_hex (word, word + strlen (word), &output)) goto addinstr_fail;
 				instr->end_data = (unsigned char) output;
 				instr->has_end_data = true;
 			}
diff --git a/opcodes.h b/opcodes.h
index adc9d53..53299ce 100644
--- a/opcodes.h
+++ b/opcodes.h
@@ -1,6 +1,8 @@
 #ifndef __OPCODES_H
 #define __OPCODES_H
 
+#define MAX_INSTR_ARGS 3	//most arguments an instruction can have
+
 typedef struct _instr {
 	const char *args;
 	unsigned char instr_data[8];
diff --git a/pass_one.cpp b/pass_one.cpp
index a410250..4514a55 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -344,7 +344,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 	//if it was found, then find the right instruction
 	if (curr_opcode && curr_opcode->name) {
-		char *arg_ptrs[3], *arg_end_ptrs[3];
+		char *arg_ptrs[MAX_INSTR_ARGS], *arg_end_ptrs[MAX_INSTR_ARGS];
 		instr *curr_instr = NULL;
 
 		//go to the start of the arguments
-- 
2.43.0


From 472179aa69ab474028e3ecf72af84457a54de29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 31/79] fix: malformed bitmaps and impossible bitmap settings
 are reported instead of read out of bounds

---
 bitmap.cpp | 87 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 64 insertions(+), 23 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..b33fe9c 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -74,7 +74,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 	if (define_with_value("__BM_HDR", 1)) {
 		char *hdr, *p;
 		define_t *def_hdr_fmt = search_defines("__BM_HDR_FMT");
-		if (def_hdr_fmt == NULL)
+		if (def_hdr_fmt == NULL || def_hdr_fmt->contents == NULL)
 			return;
 		
 		hdr = strdup(def_hdr_fmt->contents);
@@ -145,7 +145,8 @@ bool IsFileBitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1)
+		return false;
 
 	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
 	{
@@ -157,7 +158,7 @@ bool IsFileBitmap(FILE *file)
 	}
 }
 
-static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHEADER *bf, const BITMAPINFOHEADER *bi, const LPRGBQUAD bmiColors)
+static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHEADER *bf, const BITMAPINFOHEADER *bi, const LPRGBQUAD bmiColors, const DWORD nColors)
 {
 	//printf("handle_bitmap on: %d %d %d %d\n", r->left, r->top, r->right, r->bottom);
 	
@@ -199,7 +200,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	rgbMask.rgbBlue 	= (value) & 0xFF;
 
 	bool HandleInv = false;
-	RGBQUAD rgbInv;
+	RGBQUAD rgbInv = {0, 0, 0, 0};
 	if ((value = parse_f("__BM_INV_RGB")) != -1) {
 		rgbInv.rgbRed 	= (value >> 16) & 0xFF;
 		rgbInv.rgbGreen = (value >> 8) & 0xFF;
@@ -222,7 +223,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				//pOutput[r->bottom - r->top - 1 - row][col]
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = 0;
 				continue;
-			} else if (_W(bi->biBitCount) < 16 || _DW(bi->biClrUsed) != 0) {
+			} else if (_W(bi->biBitCount) < 16) {
 				BYTE bMask = MASK(_W(bi->biBitCount)) << ((8 - _W(bi->biBitCount)) - (bit % 8));
 				
 				UINT iColor = 0;
@@ -233,7 +234,9 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 					iColor += (BITS_ACCESS(row, bit / 8) & bMask) >> (8 - _W(bi->biBitCount) - (bit % 8));
 				} while (++i < (_W(bi->biBitCount) / 8));
 
-				rgb = bmiColors[iColor];
+				// Colors missing from the palette are shown in the brightest shade
+				if (iColor < nColors)
+					rgb = bmiColors[iColor];
 			} else {
 				WORD biCmBitCount = _W(bi->biBitCount) / 3;
 				DWORD dwData = 0;
@@ -350,37 +353,68 @@ void handle_bitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
-
-	fread (&bi, sizeof (BITMAPINFOHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1 || fread (&bi, sizeof (BITMAPINFOHEADER), 1, file) != 1) {
+		show_error ("Bitmap file is incomplete");
+		return;
+	}
 
 	if (_DW(bi.biSize) != sizeof (BITMAPINFOHEADER) || _DW(bi.biCompression) != BI_RGB) {
-		show_error ("Bitmap file of this type not supported: size: %ld, compression: %ld\n", _DW(bi.biSize), _DW(bi.biCompression));
+		show_error ("Bitmap file of this type not supported: size: %u, compression: %u", _DW(bi.biSize), _DW(bi.biCompression));
+		return;
+	}
+
+	switch (_W(bi.biBitCount)) {
+		case 1: case 4: case 8: case 16: case 24: case 32:
+			break;
+		default:
+			show_error ("Bitmap file of this type not supported: %d bits per pixel", _W(bi.biBitCount));
+			return;
+	}
+
+	if (_ZL(bi.biWidth) < 1 || _ZL(bi.biWidth) > 0xFFFF || _ZL(bi.biHeight) < 1 || _ZL(bi.biHeight) > 0xFFFF) {
+		show_error ("Bitmap file of this size not supported: %d by %d", _ZL(bi.biWidth), _ZL(bi.biHeight));
+		return;
+	}
+
+	const int shades = parse_f("__BM_SHD");
+	if (shades < 1 || shades > 256) {
+		show_error ("Bitmaps can't have %d shades", shades);
+		return;
+	}
+
+	if ((double) max(_ZL(bi.biWidth), min_w) / 8 * _ZL(bi.biHeight) > output_buf_size) {
+		show_error ("Bitmap doesn't fit into the output");
 		return;
 	}
 
 	if (_W(bi.biBitCount) < 16 || _DW(bi.biClrUsed) != 0) {
 		// If biClrUsed is 0, then the amount of RGBQUADs listed is the total possible
 		// as given by biBitCount
-		nColors = (_DW(bi.biClrUsed == 0)) ? 1 << _W(bi.biBitCount) : _DW(bi.biClrUsed);
+		nColors = (_DW(bi.biClrUsed) == 0) ? 1 << _W(bi.biBitCount) : _DW(bi.biClrUsed);
+	}
+
+	// The palette and all of the image have to be in the file
+	const LONG biScanWidth = ((_ZL(bi.biWidth) * _W(bi.biBitCount)) + 31) / 32 * 4;
+	const long palette_start = ftell (file);
+	fseek (file, 0, SEEK_END);
+	if (nColors > 256 || palette_start + (long) (nColors * sizeof(RGBQUAD)) != (long) _DW(bf.bfOffBits)
+		|| (double) _DW(bf.bfOffBits) + (double) biScanWidth * _ZL(bi.biHeight) > ftell (file)) {
+		show_error ("Bitmap file has an invalid structure");
+		return;
 	}
+	fseek (file, palette_start, SEEK_SET);
 
 	// Read in the palette
 	bmiColors = (LPRGBQUAD) calloc(nColors, sizeof(RGBQUAD));
 	fread(bmiColors, sizeof(RGBQUAD), nColors, file);
 
-	if (ftell (file) != _DW(bf.bfOffBits)) {
-		printf("invalid file structure!\n");
-		return;
-	}
-
 	if (last_label != NULL && last_label->value == program_counter) {
 		base_name = (char *) malloc(strlen(last_label->name) + 32);
 		strcpy(base_name, last_label->name);
 		suffix = base_name + strlen(base_name);
 	}
 
-	if (img_map == NULL || parse_f("__BM_MAP") == 0) {
+	if (img_map == NULL || img_map->contents == NULL || parse_f("__BM_MAP") == 0) {
 		int width = _ZL(bi.biWidth);
 		int height = _ZL(bi.biHeight);
 
@@ -404,12 +438,12 @@ void handle_bitmap(FILE *file)
 			int w = width;
 			while (w > 0) {
 				r.right = r.left + min(min_w, w);
-				handle_bitmap_internal(file, &r, &bf, &bi, bmiColors);
+				handle_bitmap_internal(file, &r, &bf, &bi, bmiColors, nColors);
 				r.left += min_w;
 				w -= min_w;
 			}
 		} else {
-			handle_bitmap_internal(file, &r, &bf, &bi, bmiColors);
+			handle_bitmap_internal(file, &r, &bf, &bi, bmiColors, nColors);
 		}
 	} else {
 		int left, top, width = 0, height = 0, count = 0, i = 0;
@@ -432,6 +466,13 @@ void handle_bitmap(FILE *file)
 			goto map_done;
 		}
 
+		// Each image, together with its padding, has to fit into the bitmap
+		if (width < 1 || height < 1 || padding < 0
+			|| _ZL(bi.biWidth) / width <= 2.0 * padding || _ZL(bi.biHeight) / height <= 2.0 * padding) {
+			show_error("Bitmap can't be divided into %d by %d images", width, height);
+			goto map_done;
+		}
+
 		width 	= (_ZL(bi.biWidth) - (width * 2 * padding)) / width;
 		height 	= (_ZL(bi.biHeight) - (height * 2 * padding)) / height;
 
@@ -443,14 +484,14 @@ void handle_bitmap(FILE *file)
 			add_label(strdup(base_name), height);
 		}
 
-		for (left = 0; left < _ZL(bi.biWidth); left += width + 2*padding) {
+		for (left = 0; left < _ZL(bi.biWidth) && !error_occurred; left += width + 2*padding) {
 			for (top = _ZL(bi.biHeight) - height - 2*padding; top >= 0 ; top -= height + 2*padding) {
 				int min_w = parse_f("__BM_MIN_W");
 				if (count == 1) goto map_done;
 				if (count != 0) count--;
 
 				if (base_name) {
-					char num_buf[8];
+					char num_buf[16];
 					sprintf(num_buf, "%d", bmp_num);
 					strcpy(suffix, num_buf);
 					add_label(strdup(base_name), program_counter);
@@ -468,12 +509,12 @@ void handle_bitmap(FILE *file)
 					int w = width;
 					while (w > 0) {
 						r.right = r.left + min(min_w, w);
-						handle_bitmap_internal(file, &r, &bf, &bi, bmiColors);
+						handle_bitmap_internal(file, &r, &bf, &bi, bmiColors, nColors);
 						r.left += min_w;
 						w -= min_w;
 					}
 				} else {
-					handle_bitmap_internal(file, &r, &bf, &bi, bmiColors);
+					handle_bitmap_internal(file, &r, &bf, &bi, bmiColors, nColors);
 				}
 			}
 		}
-- 
2.43.0


From c65d15f9b97d7ac5e2b36b2f1fee1ab98638ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 32/79] fix: -D without a value or name, and -D together with
 -A

---
 directive.cpp |  3 ++-
 main.cpp      | 40 +++++++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index dfe3b62..dc988f5 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -455,7 +455,8 @@ addinstr_fail:
 				strcat (strcpy (define_name, "__"), name);
 
 				define = add_define (define_name, NULL);
-				set_define (define, expr, -1, false);
+				if (define != NULL)
+					set_define (define, expr, -1, false);
 				free(expr);
 			}
 			break;
diff --git a/main.cpp b/main.cpp
index 1e5e15d..9533f64 100644
--- a/main.cpp
+++ b/main.cpp
@@ -261,6 +261,7 @@ int main (int argc, char **argv)
 	int curr_arg = 1;
 	bool case_sensitive = false;
 	bool is_storage_initialized = false;
+	list_t *cmdline_defines = NULL;
 
 	use_colors = true;
 	extern WORD user_attributes;
@@ -342,15 +343,7 @@ int main (int argc, char **argv)
 			//handle adding defines
 			case 'D':
 			{
-				char name[256];
 				char *ptr;
-				define_t *define;
-
-				if (!is_storage_initialized)
-				{
-					init_storage();
-					is_storage_initialized = true;
-				}
 
 				if (strlen (argv[curr_arg]) > 2) {
 					ptr = &argv[curr_arg][2];
@@ -363,13 +356,8 @@ int main (int argc, char **argv)
 					ptr = argv[++curr_arg];
 				}
 
-				read_expr (&ptr, name, "=");
-
-				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
-					define->contents = strdup (ptr);
-				else
-					set_define (define, "1", 1, false);
+				//how they're stored depends on the other options
+				cmdline_defines = list_append (cmdline_defines, ptr);
 				break;
 			}
 			case 'V':
@@ -448,6 +436,28 @@ int main (int argc, char **argv)
 		init_storage();
 		is_storage_initialized = true;
 	}
+	for (list_t *node = cmdline_defines; node != NULL; node = node->next) {
+		char name[256];
+		char *ptr = (char *) node->data;
+		define_t *define;
+
+		read_expr (&ptr, name, "=");
+
+		define = add_define (strdup (name), NULL);
+		if (define == NULL) {
+			printf ("-D%s used without define name\n", (char *) node->data);
+			return EXIT_FATAL_ERROR;
+		}
+
+		if (*ptr == '=')
+			ptr++;
+		if (*skip_whitespace (ptr) != '\0')
+			set_define (define, ptr, -1, false);
+		else
+			set_define (define, "1", 1, false);
+	}
+	list_free (cmdline_defines, false, NULL);
+
 	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
-- 
2.43.0


From d7f7d2af6fd17070ea2ef401b62e3b724c17654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 33/79] fix: .nolist doesn't cut bytes that are part of the
 listing already

---
 directive.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index dc988f5..e68fbec 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -12,6 +12,8 @@
 #include "errors.h"
 
 
+extern int listing_width;
+
 //max depth of #defined lists in #defined lists
 #define EMIT_LEVEL_LIMIT 20
 
@@ -379,9 +381,16 @@ addinstr_fail:
 		{
 			//if listing is on, then it would've written
 			// the starting stuff for this line already,
-			// so take that out
-			if ((mode & MODE_LIST) && listing_on)
-				listing_offset -= 14;
+			// so take that out, unless there's more of this
+			// line or its bytes in the listing by now
+			if ((mode & MODE_LIST) && listing_on && !listing_for_line_done) {
+				if (listing_width == 0 && old_line_num == line_num) {
+					listing_offset -= 14;
+				} else {
+					do_listing_for_line (skip_to_next_line (line_start));
+					listing_for_line_done = true;
+				}
+			}
 			listing_on = false;
 			break;
 		}
-- 
2.43.0


From 53d6ea8bdb38344cef073890e6b505899e39685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 34/79] fix: directives without arguments can be followed by a
 comment or another statement

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index e68fbec..bf05685 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -49,7 +49,7 @@ char *handle_directive (const char *ptr) {
 	//same deal as handle_preop, just with directives instead
 	bool valid_directive = false;
 	unsigned name_len = 0;
-	while (ptr[name_len] != 0 && !isspace(ptr[name_len])) {
+	while (ptr[name_len] != 0 && !isspace((unsigned char) ptr[name_len]) && ptr[name_len] != '\\' && ptr[name_len] != ';') {
 		name_len++;
 	}
 
-- 
2.43.0


From fbb99eae9f689b4f430c3e3b7cbca101be0f2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 35/79] fix: values put into .echo statements with forward
 references stay single terms

---
 pass_two.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index e0636ef..439a527 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -111,7 +111,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	if (type == OUTPUT_SHOW)
 		new_output->expr = strdup (expr);
 	else
-		new_output->expr = expand_expr (expr);
+		new_output->expr = expand_expr (expr, true, true);
 
 	if (output_list_tail)
 		output_list_tail->next = new_output;
-- 
2.43.0


From a86a828cf6594985d1a9f59bf1cea4fc900ebbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 36/79] fix: arguments of a macro call can't see parameters set
 by the same call

---
 utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index d9cb4e1..f587328 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -265,6 +265,8 @@ char *eval (const char *expr)
  * holding the values of the args
  */
 
+extern list_t *arg_list;
+
 char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 	int num_args = 0;
 
@@ -275,6 +277,8 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 		return (char *) ptr;
 
 	*curr_arg_set = add_arg_set();
+	//the arguments are values from outside of the macro, so they can't use each other
+	arg_list = (*curr_arg_set)->next;
 
 	//then parse each argument and store its value
 	if (*ptr == '(') {
@@ -314,6 +318,8 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 	while (num_args < define->num_args)
 		add_arg (strdup (define->args[num_args++]), NULL, *curr_arg_set);
 
+	arg_list = *curr_arg_set;
+
 	if (*ptr == ')') ptr++;
 	return (char *) ptr;
 }
-- 
2.43.0


From bdf307dba868210622d53a6d208a8a9dbc28f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 37/79] fix: values in macro arguments with forward references
 stay single terms

---
 utils.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index f587328..ec8bc67 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -251,7 +251,7 @@ char *eval (const char *expr)
 	}
 	else
 	{
-		expr_value = expand_expr (expr);
+		expr_value = expand_expr (expr, true, true);
 	}
 	return expr_value;
 }
@@ -806,6 +806,18 @@ static bool expr_needs_group (const char *text) {
 	if (mystrpbrk (text, "\",#\n\r;\\") != NULL)
 		return false;
 
+	//words next to each other aren't an expression, but an instruction
+	const char *ptr = text;
+	while (*ptr) {
+		const char *word = ptr;
+		while (is_name_char (*ptr) || *ptr == '$')
+			ptr++;
+		const char *next = skip_whitespace (ptr);
+		if (ptr != word && next != ptr && (is_name_char (*next) || *next == '$' || *next == '('))
+			return false;
+		ptr = (next == word) ? next + 1 : next;
+	}
+
 	while (is_name_char (*text) || *text == '$')
 		text++;
 	return *text != '\0';
-- 
2.43.0


From bb7b6bea5f05922a52808cf6f079155bdf66e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 38/79] fix: concat() of a #defined string or number keeps its
 quotes and leading space

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 2e4efd9..66c4744 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -360,7 +360,7 @@ char *handle_preop_define (const char *ptr) {
 						}
 						else
 						{
-							char *define_buffer = strdup(define->contents);
+							char *define_buffer = strdup(skip_whitespace(define->contents));
 							reduce_string(define_buffer);
 							eb_insert (buffer, -1, define_buffer, -1);
 							free(define_buffer);
-- 
2.43.0


From 583781067a4e09c51c77b44d5bb2b9764b88166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 39/79] fix: macro calls with several arguments in stored
 expressions stay single terms

---
 utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index ec8bc67..14bf7ec 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -803,9 +803,20 @@ int strnlen (const char *str, int maxlen) {
  */
 
 static bool expr_needs_group (const char *text) {
-	if (mystrpbrk (text, "\",#\n\r;\\") != NULL)
+	if (mystrpbrk (text, "\"#\n\r;\\") != NULL)
 		return false;
 
+	//a comma makes it a list, unless it's between the arguments of a macro
+	int depth = 0;
+	for (const char *ptr = text; *ptr; ptr++) {
+		if (*ptr == '(')
+			depth++;
+		else if (*ptr == ')')
+			depth--;
+		else if (*ptr == ',' && depth <= 0)
+			return false;
+	}
+
 	//words next to each other aren't an expression, but an instruction
 	const char *ptr = text;
 	while (*ptr) {
-- 
2.43.0


From 030823c4293413abfddbe1800b78c437903b07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 40/79] fix: stray #else, #elif and #endif are diagnosed after
 blocks that were skipped

---
 preop.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index 66c4744..4482b15 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -23,6 +23,16 @@ static define_t *last_define = NULL;
 static int nIfLevel = 0;
 static bool fInMacro = false;
 
+/*
+ * The line that skipping ended at isn't handled
+ * itself, so if it's an #ENDIF the block ends here
+ */
+
+static void leave_if_at_endif (char *ptr) {
+	if (nIfLevel > 0 && line_has_word (ptr, "#endif", 6))
+		nIfLevel--;
+}
+
 /*
  * Handles a preop, returns the new
  * location in the file
@@ -87,6 +97,7 @@ char *handle_preop (char *ptr) {
 				}
 				int session = StartSPASMErrorSession();
 				ptr = skip_until(ptr, &line_num, 1, "#endif");
+				leave_if_at_endif (ptr);
 				EndSPASMErrorSession(session);
 				break;
 			}
@@ -146,6 +157,7 @@ char *handle_preop (char *ptr) {
 			{
 				int session = StartSPASMErrorSession();
 				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
+				leave_if_at_endif (ptr);
 				EndSPASMErrorSession(session);
 			}
 			break;
@@ -673,6 +685,10 @@ char *do_if (char *ptr, int condition)
 		{
 			result = handle_preop_if(skip_whitespace(result) + 5);
 		}
+		else
+		{
+			leave_if_at_endif (result);
+		}
 		return result;
 	}
 }
-- 
2.43.0


From f57f5ac34a8709a51d43035cbd61bd7671b55092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 41/79] fix: data strings with null characters aren't cut off

---
 directive.cpp |  8 ++++----
 utils.cpp     | 21 +++++++++++++++++----
 utils.h       |  1 +
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index bf05685..159c907 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -591,19 +591,19 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				goto echo_error;
 			}
 			
-			reduce_string (word);
+			size_t len = reduce_string_len (word);
 			if (type == ES_ECHO)
 			{
 				if (echo_target != NULL)
 				{
-					fprintf ((FILE *) echo_target, "%s", word);
+					fwrite (word, 1, len, (FILE *) echo_target);
 				}
 			}
 			else if (type == ES_FCREATE) {
 				eb_append((expand_buf_t *) echo_target, word, strlen(word));
 			} else {
-				int i;
-				for (i = 0; word[i]; i++) {
+				size_t i;
+				for (i = 0; i < len; i++) {
 					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
 						write_out (word[i]);
 	                stats_datasize++;
diff --git a/utils.cpp b/utils.cpp
index 14bf7ec..416cea2 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -551,7 +551,18 @@ char *escape_string(const char *input)
  */
 
 char* reduce_string (char* input) {
+	reduce_string_len (input);
+	return input;
+}
+
+/*
+ * Does the same, but returns the length of the string
+ * (which might have null characters in it)
+ */
+
+size_t reduce_string_len (char* input) {
 	char *output = input;
+	size_t len;
 
 	int quote_count = 0;
 	for (int i = 0; input[i] != '\0'; i++, output++)
@@ -576,18 +587,20 @@ char* reduce_string (char* input) {
 	}
 
 	*output = '\0';
+	len = output - input;
 
 	// Count the quotes
 	if (quote_count >= 2)
 	{
-		if (input[0] == '"' && input[strlen(input) - 1] == '"')
+		if (input[0] == '"' && input[len - 1] == '"')
 		{
-			input[strlen(input) - 1] = '\0';
-			memmove(input, input + 1, strlen(input));
+			len -= 2;
+			memmove(input, input + 1, len);
+			input[len] = '\0';
 		}
 	}
 	
-	return input;
+	return len;
 }
 
 /*
diff --git a/utils.h b/utils.h
index 4310503..062e246 100644
--- a/utils.h
+++ b/utils.h
@@ -32,6 +32,7 @@ char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg
 bool line_has_word (char *ptr, const char *word, int word_len);
 char *escape_string(const char *input);
 char *reduce_string (char* input);
+size_t reduce_string_len (char* input);
 char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
-- 
2.43.0


From d4171c3b74dcc1ec4dc99bf00c0707a8dc0cb4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 42/79] fix: data after a string without a comma is an error

---
 directive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 159c907..a90a4dd 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -584,7 +584,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		// handle strings
 		if (word[0] == '"')
 		{
-			char *next = next_expr (word, EXPR_DELIMS);
+			// (nothing else may follow the string)
+			const char *next = word + 1;
+			while (*next != '\0' && *next != '"')
+				next += (next[0] == '\\' && next[1] != '\0') ? 2 : 1;
+			if (*next == '"')
+				next = skip_whitespace (next + 1);
 			session = StartSPASMErrorSession();
 			if (*next != '\0') {
 				SetLastSPASMError(SPASM_ERR_SYNTAX);
-- 
2.43.0


From 429ef7439d1160d78ba63f1cc733a1b8a73d64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 43/79] fix: apps without room for the signature on a single
 page, checksum of high page numbers in hex files

---
 export.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.cpp b/export.cpp
index a7620b6..ccce498 100644
--- a/export.cpp
+++ b/export.cpp
@@ -224,7 +224,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 
 /* Check if size will fit in mem with signature */
 	if ((tempnum = ((size+96)%16384))) {
-		if (tempnum < 97 && size > 16384)
+		if (tempnum < 97 && size > 16384 - 96)
 		{
 			free(buffer);
 			SetLastSPASMError(SPASM_ERR_SIGNER_ROOM_FOR_SIG);
@@ -662,7 +662,7 @@ void intelhex (FILE* outfile, const unsigned char* buffer, int size, unsigned in
 	//We are in binary mode, we must handle carriage return ourselves.
    
 	while (bpnt < size){
-		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page)) +1));
+		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page + (page >> 8))) +1));
 		page++;
 		address = base_address;
 		for (i = 0; bpnt < size && i < 512; i++) {
-- 
2.43.0


From de1239c195e96ebe7f636acfe00b0fed7307d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 44/79] fix: write the TI-85 program file signature as 1A 0C 00

The byte after the TI-85 version of the second signature byte was taken from
the position of the byte it replaces, giving 1A 0C 0A.
---
 export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export.cpp b/export.cpp
index ccce498..1cc4032 100644
--- a/export.cpp
+++ b/export.cpp
@@ -515,6 +515,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (fileheader[i++],outfile);
 	if (calc == TYPE_85P) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From c39b8f681efb02dfb86c5c04013579ab07c6a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 45/79] fix: include source files that start with BM as source

A label such as BMLABEL on the first line of an included file made the file a
bitmap of an unsupported kind.
---
 bitmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index b33fe9c..17101a1 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -148,7 +148,8 @@ bool IsFileBitmap(FILE *file)
 	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1)
 		return false;
 
-	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
+	// The reserved fields are zero in a bitmap, but not in source that happens to start with "BM"
+	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M' && bf.bfReserved1 == 0 && bf.bfReserved2 == 0)
 	{
 		return true;
 	}
-- 
2.43.0


From b335baf33ce837df75f0d89bde8071c0dc171011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 46/79] fix: keep the listing of a line together after macro
 calls and included files

The bytes of statements joined to a macro call, #include or .list were written
outside of any line of the listing, and lines after a .list could be listed
under another file.
---
 main.cpp     |  1 +
 pass_one.cpp | 85 ++++++++++++++++++++++++++++++++++++----------------
 pass_one.h   |  2 ++
 preop.cpp    | 19 ++++--------
 4 files changed, 68 insertions(+), 39 deletions(-)

diff --git a/main.cpp b/main.cpp
index 9533f64..e71ff28 100644
--- a/main.cpp
+++ b/main.cpp
@@ -88,6 +88,7 @@ int run_assembly()
 		listing_buf = eb_init (LISTING_BUF_SIZE);
 		listing_offset = 0;
 		listing_on = true;
+		set_listing_file (curr_input_file);
 	}
 	
 	//find the path of the input file
diff --git a/pass_one.cpp b/pass_one.cpp
index 4514a55..3bccf3e 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -25,10 +25,11 @@ char *handle_opcode_or_macro (char *ptr);
 int parse_suffix (char *name_start, char **opcode_end);
 char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode *curr_opcode, instr **curr_instr);
 int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_ptrs, int suffix);
+static void start_listing_for_line ();
 
 bool adl_mode;
 int listing_width;
-const char *last_banner = NULL;
+static char *listing_file = NULL;
 const char *built_in_fcreate = "Built-in fcreate";
 
 /*
@@ -41,6 +42,10 @@ int write_out (int val) {
 	if (mode & MODE_LIST && listing_on) {
 		char text[4];
 
+		//if the listing of this line has been finished early, start another entry for it
+		if (pass_one && listing_for_line_done)
+			start_listing_for_line ();
+
 		if (pass_one && listing_width >= 4) {
 			listing_width = 0;
 			listing_offset = eb_insert (listing_buf, listing_offset, NEWLINE "              ", -1);
@@ -78,6 +83,51 @@ int write_out (int val) {
 }
 
 
+/*
+ * Notes which file the following lines of
+ * the listing are from, if that has changed
+ */
+
+void do_listing_banner (const char *file, bool always) {
+	if (!(mode & MODE_LIST) || !listing_on)
+		return;
+
+	if (always || listing_file == NULL || strcmp (listing_file, file) != 0) {
+		char include_banner[MAX_PATH + 64];
+		snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, file);
+		listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
+		set_listing_file (file);
+	}
+}
+
+
+/*
+ * Sets the file which the current lines
+ * of the listing are from
+ */
+
+void set_listing_file (const char *file) {
+	char *new_file = strdup (file);
+	free (listing_file);
+	listing_file = new_file;
+}
+
+
+/*
+ * Starts the listing entry for a line with the
+ * line number and program counter
+ */
+
+static void start_listing_for_line () {
+	char text[32];
+
+	sprintf (text, "%5d %02X:%04X ", old_line_num, (program_counter >> 16), program_counter & 0xFFFF);
+	listing_offset = eb_insert (listing_buf, listing_offset, text, strlen (text));
+	listing_width = 0;
+	listing_for_line_done = false;
+}
+
+
 /*
  * Writes listing for a single line, not
  * including hex data (handled by write_out)
@@ -133,11 +183,11 @@ void run_first_pass (char *ptr) {
 			listing_for_line_done = false;
 
 			if (listing_on) {
-				char text[32];
+				//the macros called by the last lines might have been listing other files
+				do_listing_banner (curr_input_file, false);
 
 				//add the line number and program counter at the beginning of the line
-				sprintf (text, "%5d %02X:%04X ", line_num, (program_counter >> 16), program_counter & 0xFFFF);
-				listing_offset = eb_insert (listing_buf, listing_offset, text, strlen (text));
+				start_listing_for_line ();
 			}
 		}
 
@@ -423,14 +473,14 @@ char *handle_opcode_or_macro (char *ptr) {
 				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
 					do_listing_for_line (skip_to_next_line (line_start));
 
-				if (mode & MODE_LIST && listing_on && last_banner != built_in_fcreate) {
+				if (mode & MODE_LIST && listing_on) {
 					char include_banner[128] = "Listing for built-in fcreate" NEWLINE;
 					listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-					last_banner = built_in_fcreate;
+					set_listing_file (built_in_fcreate);
 				}
 
 				// Thanks for this Don
-				int old_line_num = line_num;
+				int run_line_num = line_num;
 				char *old_input_file = curr_input_file;
 				int old_in_macro = in_macro;
 				char *old_line_start = line_start;
@@ -442,7 +492,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				run_first_pass(fcreate_string);
 
 				curr_input_file = old_input_file;
-				line_num = old_line_num;
+				line_num = run_line_num;
 				in_macro = old_in_macro;
 				line_start = old_line_start;
 				old_line_num = old_old_line_num;
@@ -450,12 +500,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
 					listing_for_line_done = true;
 
-				if (mode & MODE_LIST && listing_on && last_banner != curr_input_file) {
-					char include_banner[MAX_PATH + 64];
-					snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, curr_input_file);
-					listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-					last_banner = curr_input_file;
-				}
+				do_listing_banner (curr_input_file, false);
 
 				free(fcreate_string);
 				if (fcreate_bufs[run_buf] != NULL) {
@@ -540,18 +585,6 @@ char *handle_opcode_or_macro (char *ptr) {
 							line_num++;
 						}
 
-						if ((mode & MODE_LIST) && listing_on && last_banner != old_filename) {
-							if (mode & MODE_LIST && listing_on && !listing_for_line_done)
-								do_listing_for_line (skip_to_next_line (line_start) );
-
-							listing_for_line_done = true;
-
-							char include_banner[MAX_PATH + 64];
-							snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, old_filename);
-							listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-							last_banner = old_filename;
-						}
-
 						curr_input_file = (char *) old_filename;
 						line_num = old_line_num;
 
diff --git a/pass_one.h b/pass_one.h
index 51e42cd..8c81318 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -13,6 +13,8 @@ char *run_first_pass_line (char *ptr);
 int write_out (int);
 char *handle_opcode_or_macro (char *ptr);
 void do_listing_for_line (char *ptr);
+void do_listing_banner (const char *file, bool always);
+void set_listing_file (const char *file);
 
 extern bool adl_mode;
 
diff --git a/preop.cpp b/preop.cpp
index 4482b15..dd7b1f2 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -460,7 +460,7 @@ static char *handle_preop_include (char *ptr)
 	char *qs, *alloc_path, *input_contents, *old_input_file, *old_line_start;
 	int i;
 
-	int old_line_num, old_in_macro, old_old_line_num;
+	int include_line_num, old_in_macro, old_old_line_num;
 
 	if (is_end_of_code_line (ptr)) {
 		show_error ("#INCLUDE is missing file name");
@@ -533,15 +533,12 @@ static char *handle_preop_include (char *ptr)
 		if (mode & MODE_LIST && listing_on && !listing_for_line_done)
 			do_listing_for_line (skip_to_next_line (line_start));
 
-		if (mode & MODE_LIST && listing_on) {
-			char include_banner[MAX_PATH + 64];
-			snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, fix_filename (alloc_path));
-			listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-		}
+		if (mode & MODE_LIST && listing_on)
+			do_listing_banner (fix_filename (alloc_path), true);
 		
 		//swap out the old curr_X values, and swap in the new ones
 		old_input_file = curr_input_file;
-		old_line_num = line_num;
+		include_line_num = line_num;
 		old_in_macro = in_macro;
 		old_line_start = line_start;
 		old_old_line_num = old_line_num;
@@ -553,7 +550,7 @@ static char *handle_preop_include (char *ptr)
 
 		//when done, swap the old curr_X values back in
 		curr_input_file = old_input_file;
-		line_num = old_line_num;
+		line_num = include_line_num;
 		in_macro = old_in_macro;
 		line_start = old_line_start;
 		old_line_num = old_old_line_num;
@@ -561,11 +558,7 @@ static char *handle_preop_include (char *ptr)
 		if (mode & MODE_LIST && listing_on && !listing_for_line_done)
 			listing_for_line_done = true;
 
-		if (mode & MODE_LIST && listing_on) {
-			char include_banner[MAX_PATH + 64];
-			snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, curr_input_file);
-			listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-		}
+		do_listing_banner (curr_input_file, true);
 		
 		//and free up stuff
 		//free (input_contents);
-- 
2.43.0


From 7b2e6acd6ae930a4c2eb478641c8b77defbc960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 47/79] fix: do not look for the #endif of an #if inside of
 #comment

Text with an #if in a comment block made everything up to the end of the file
part of the comment, silently.
---
 preop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index dd7b1f2..3b3e817 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -736,13 +736,18 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 
 	int line_num_copy = line_num;
 
+	// In a comment an #if is only text
+	va_start(argp, argc);
+	bool skip_nested = strcmp (va_arg(argp, char *), "#endcomment") != 0;
+	va_end(argp);
+
 	while (*ptr && !error_occurred) {
 		char *line = ptr;
 		char *line_end = skip_to_next_line(ptr);
 		
 		do {
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (line_has_word (line, "#IF", 3)) {
+			if (skip_nested && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From 6f1b559a121e9e8619014b794c6a45dd53efa4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 48/79] fix: an open parenthesis does not take in the lines
 that follow

---
 utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 416cea2..ae128f5 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -425,6 +425,9 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 
 	while (**ptr != '\0' && !((mystrpbrk (*ptr, delims) == *ptr || is_end_of_code_line (*ptr))
 				&& !in_escape && !in_string && in_quote == 0 && level == 0)) {
+		// an open parenthesis doesn't take in the lines that follow
+		if ((**ptr == '\n' || **ptr == '\r') && !in_string && in_quote == 0)
+			break;
 
 		if (!in_escape) {
 			switch( **ptr ) {
-- 
2.43.0


From 0af33157191a30b43856f209f8d1a9e0259ccdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 49/79] fix: report faults in redefined macros at the lines of
 the new definition

---
 storage.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 3d0c9ac..8e82498 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -306,8 +306,12 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 		int curr_arg;
 
 		free (name);
-		//define->line_num = line_num;
-		//define->input_file = curr_input_file;
+		define->line_num = line_num;
+		if (strcmp (define->input_file, curr_input_file) != 0) {
+			//(the old name might be in use by the macro that's running)
+			input_files = list_prepend (input_files, define->input_file);
+			define->input_file = strdup (curr_input_file);
+		}
 		/* Don't clear the contents of the #define, because
 		   if it's being redefined references to itself may
 		   need to be expanded, which will require the original
-- 
2.43.0


From f079abf12db26a54bce5a923d1716d6a889a622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 50/79] fix: report faults in the value of a define in the file
 of the definition

---
 parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index bb93a12..6fb1a8f 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -415,7 +415,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						bool fHasError = false;
 						int old_line_num = line_num;
+						char *old_input_file = curr_input_file;
 						line_num = define->line_num;
+						curr_input_file = define->input_file;
 
 						int session = StartSPASMErrorSession();
 						contents = parse_define (define);
@@ -430,6 +432,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						}
 
 						line_num = old_line_num;
+						curr_input_file = old_input_file;
 
 						if (GetSPASMErrorSessionErrorCount(session) > 0)
 						{
-- 
2.43.0


From b79745946240f0e077465d9d661ec6f934bbcbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 51/79] fix: .addinstr with an impossible size is refused, a
 long file name fits in __FILE

---
 directive.cpp | 1 +
 storage.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index a90a4dd..f7cff72 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -202,6 +202,7 @@ char *handle_directive (const char *ptr) {
 			// Size
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
 			if (!parse_num (word, &instr->size)) goto addinstr_fail;
+			if (instr->size < instr->instr_size || instr->size > 255) goto addinstr_fail;
 
 			// Class
 			read_expr (&ptr, word, " \t");
diff --git a/storage.cpp b/storage.cpp
index 8e82498..19be73b 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -428,10 +428,10 @@ define_t *search_defines (const char *name, bool search_local) {
 		
 	} else if (!strcmp(search_name, "__FILE")) {
 		
-		char fn_buf[MAX_PATH * 2] = { 0 };
+		char *fn_ptr = curr_input_file;
+		char *fn_buf = (char *) malloc ((fn_ptr ? strlen (fn_ptr) * 2 : 0) + 3);
 		char *buf_ptr = fn_buf;
 		*buf_ptr++ = '"';
-		char *fn_ptr = curr_input_file;
 		if (fn_ptr != NULL) {
 			while (*fn_ptr != '\0') {
 				if (*fn_ptr == '\\') {
@@ -442,9 +442,11 @@ define_t *search_defines (const char *name, bool search_local) {
 			}
 		}
 		*buf_ptr++ = '"';
+		*buf_ptr = '\0';
 		if (result) {
 			set_define(result, fn_buf, -1, false);
 		}
+		free (fn_buf);
 		
 	}
 	//printf("fail: %s %08x\n", search_name, murmur_hash(search_name, strlen(search_name)));
-- 
2.43.0


From d811b1bb3650043cfec0c36cccd9e61a467244bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 52/79] fix: a line beginning with a closing parenthesis in a
 skipped branch no longer hangs

---
 utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index ae128f5..676192a 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -205,7 +205,9 @@ char *next_expr (const char *ptr, const char *delims) {
 
 char *next_code_line(char *ptr) {
 	
-	ptr = next_expr(ptr, "\\;\r\n");
+	//a stray parenthesis ends an expression, but not the line
+	while (*(ptr = next_expr(ptr, "\\;\r\n")) == ')')
+		ptr++;
 	
 	if (*ptr == ';')
 		return skip_to_next_line(ptr);
-- 
2.43.0


From c83c5ded88deea0d987a8356c3b3abbb159c7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 53/79] fix: endlessly recursive macro arguments are an error
 instead of a stack overflow

---
 utils.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 676192a..eac41c4 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -2,6 +2,8 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
+//max depth of macro arguments that are being evaluated
+#define NESTED_EVAL_LIMIT 64
 
 #include "storage.h"
 #include "parser.h"
@@ -231,9 +233,17 @@ char *next_code_line(char *ptr) {
 
 char *eval (const char *expr)
 {
+	static int nested_evals = 0;
 	char result[256], *expr_value;
 	int value;
 
+	if (nested_evals >= NESTED_EVAL_LIMIT) {
+		if (!error_occurred)
+			show_fatal_error ("Macros in expressions are nested too deeply");
+		return strdup (expr);
+	}
+	nested_evals++;
+
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
 	EndSPASMErrorSession(session);
@@ -255,6 +265,7 @@ char *eval (const char *expr)
 	{
 		expr_value = expand_expr (expr, true, true);
 	}
+	nested_evals--;
 	return expr_value;
 }
 
-- 
2.43.0


From 33b1c0f88a483ea669c449c1053af6463f39af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 54/79] fix: execution times of undocumented instructions, bit
 n,(ix+d) and adc a,l in code counter mode

---
 opcodes.cpp | 246 ++++++++++++++++++++++++++--------------------------
 1 file changed, 123 insertions(+), 123 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 4fc4c55..764a94f 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -372,7 +372,7 @@ static instr adc_instrs[] = {
 	{"A,D", {0x8A}, 1, 4, 4, false, 0x00, 1},
 	{"A,E", {0x8B}, 1, 4, 4, false, 0x00, 1},
 	{"A,H", {0x8C}, 1, 4, 4, false, 0x00, 1},
-	{"A,L", {0x8D}, 1, 7, 7, false, 0x00, 1},
+	{"A,L", {0x8D}, 1, 4, 4, false, 0x00, 1},
 	{"A,(HL)", {0x8E}, 1, 7, 7, false, 0x00, 1},
 	{"A,A", {0x8F}, 1, 4, 4, false, 0x00, 1},
 	{"A,&", {0xCE}, 1, 7, 7, false, 0x00, 2},
@@ -443,8 +443,8 @@ static instr and_instrs[] = {
 	{"&", {0xE6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr bit_instrs[] = {
-	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x46, 4},
-	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x46, 4},
+	{"^,(IX@)", {0xCB, 0xDD}, 2, 20, 20, true, 0x46, 4},
+	{"^,(IY@)", {0xCB, 0xFD}, 2, 20, 20, true, 0x46, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0x40, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0x41, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0x42, 2},
@@ -690,22 +690,22 @@ static instr scf_instrs[] = {
 	{"", {0x37}, 1, 4, 4, false, 0x00, 1}};
 
 static instr set_instrs[] = {
-	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC0, 4},
-	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC0, 4},
-	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC1, 4},
-	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC1, 4},
-	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC2, 4},
-	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC2, 4},
-	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC3, 4},
-	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC3, 4},
-	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC4, 4},
-	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC4, 4},
-	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC5, 4},
-	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC5, 4},
+	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC0, 4},
+	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC0, 4},
+	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC1, 4},
+	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC1, 4},
+	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC2, 4},
+	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC2, 4},
+	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC3, 4},
+	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC3, 4},
+	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC4, 4},
+	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC4, 4},
+	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC5, 4},
+	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC5, 4},
 	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC6, 4},
 	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC6, 4},
-	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC7, 4},
-	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC7, 4},
+	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC7, 4},
+	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC7, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0xC0, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0xC1, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0xC2, 2},
@@ -716,48 +716,48 @@ static instr set_instrs[] = {
 	{"^,A", {0xCB}, 1, 8, 8, true, 0xC7, 2}};
 
 static instr sl1_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sla_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x20, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x20, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x21, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x21, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x22, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x22, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x23, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x23, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x24, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x24, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x25, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x25, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x20, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x20, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x21, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x21, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x22, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x22, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x23, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x23, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x24, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x24, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x25, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x25, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x26, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x26, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x27, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x27, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x27, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x27, 4},
 	{"B", {0x20, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x21, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x22, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -768,48 +768,48 @@ static instr sla_instrs[] = {
 	{"A", {0x27, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sll_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sra_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x28, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x28, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x29, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x29, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x28, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x28, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x29, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x29, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2F, 4},
 	{"B", {0x28, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x29, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x2A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -820,22 +820,22 @@ static instr sra_instrs[] = {
 	{"A", {0x2F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr srl_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x38, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x38, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x39, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x39, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x38, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x38, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x39, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x39, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3F, 4},
 	{"B", {0x38, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x39, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x3A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -846,10 +846,10 @@ static instr srl_instrs[] = {
 	{"A", {0x3F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sub_instrs[] = {
-	{ "A,IXH", { 0x94, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0x94, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0x95, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0x95, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0x94, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0x94, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0x95, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0x95, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0x96, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0x96, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,B", { 0x90 }, 1, 4, 4, false, 0x00, 1 },
@@ -861,10 +861,10 @@ static instr sub_instrs[] = {
 	{ "A,(HL)", { 0x96 }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,A", { 0x97 }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,&", { 0xD6 }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0x94, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0x94, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0x95, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0x95, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0x94, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0x94, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0x95, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0x95, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0x96, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0x96, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"B", {0x90}, 1, 4, 4, false, 0x00, 1},
@@ -878,10 +878,10 @@ static instr sub_instrs[] = {
 	{"&", {0xD6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr xor_instrs[] = {
-	{ "A,IXH", { 0xAC, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0xAC, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0xAD, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0xAD, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0xAC, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0xAC, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0xAD, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0xAD, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0xAE, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0xAE, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,A", { 0xAF }, 1, 4, 4, false, 0x00, 1 },
@@ -893,10 +893,10 @@ static instr xor_instrs[] = {
 	{ "A,L", { 0xAD }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,(HL)", { 0xAE }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,&", { 0xEE }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0xAC, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0xAC, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0xAD, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0xAD, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0xAC, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0xAC, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0xAD, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0xAD, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0xAE, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0xAE, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"A", {0xAF}, 1, 4, 4, false, 0x00, 1},
-- 
2.43.0


From 7785d42084281479a77a468a13074c2b10721b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 55/79] fix: an emitted value beginning with a parenthesis no
 longer reads before its buffer when a macro has an empty parameter name

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index f7cff72..ebef1cb 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -730,7 +730,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
 					}
 					
-					if (*(name_end - 1) == '(') name_end--;
+					if (name_end > word && *(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
 					if (!name_end) {
 						ReplaySPASMErrorSession(session);
-- 
2.43.0


From 4f3fff44756e8c7cc5b9eaa3e6b4022b1c7561ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 56/79] fix: a name not defined yet in the text of a buffer is
 reported instead of silently becoming (error)

---
 directive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index ebef1cb..843a1af 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -806,7 +806,9 @@ echo_error:
 						}
 					case ES_FCREATE:
 						{
-							SetLastSPASMError(SPASM_ERR_LABEL_NOT_FOUND, word);
+							// (there is no second pass for the text of a buffer)
+							if (IsSPASMErrorSessionFatal(session) == false)
+								show_error ("'%s' has to be defined before it's used here", word);
 							eb_append((expand_buf_t *) echo_target, "(error)", -1);
 							break;
 						}
-- 
2.43.0


From 04cc8a4edad3fab79af4a077676bc850a8641e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 57/79] fix: a define without a value doesn't make -L fail

---
 spasm.h     | 1 +
 storage.cpp | 9 ++++++++-
 utils.cpp   | 5 +++++
 utils.h     | 1 +
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/spasm.h b/spasm.h
index bc8c769..5f14e54 100644
--- a/spasm.h
+++ b/spasm.h
@@ -75,6 +75,7 @@ GLOBAL char *curr_input_file, *output_filename;
 GLOBAL char *input_contents;
 GLOBAL unsigned char *out_ptr, *output_contents;
 GLOBAL bool error_occurred;
+GLOBAL bool hide_errors;
 GLOBAL expand_buf *listing_buf;
 GLOBAL size_t listing_offset;
 GLOBAL bool listing_on;
diff --git a/storage.cpp b/storage.cpp
index 19be73b..53a6400 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -15,6 +15,7 @@
 extern char *curr_input_file;
 extern int line_num;
 extern bool error_occurred;
+extern bool hide_errors;
 
 #ifdef USE_REUSABLES
 extern unsigned int program_counter;
@@ -121,7 +122,13 @@ void write_defines_callback(void *data, void *data_list) {
 	if (define->num_args > 0 || define->contents == NULL)
 		return;
 	
-	if (parse_num(define->contents, &value) == false)
+	// a define that has no value isn't an error here
+	bool old_error_occurred = error_occurred;
+	hide_errors = true;
+	bool has_value = parse_num(define->contents, &value);
+	hide_errors = false;
+	error_occurred = old_error_occurred;
+	if (has_value == false)
 		return;
 	
 	node = label_list->next, prev = label_list;
diff --git a/utils.cpp b/utils.cpp
index eac41c4..263e1fe 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -1019,6 +1019,7 @@ void show_error_prefix(const char *zcif, const int zln) {
 void show_error(const char *text, ...) {
 	WORD attr = save_console_attributes();
 	va_list args;
+	if (hide_errors) return;
 	if (exit_code < EXIT_ERRORS) exit_code = EXIT_ERRORS;
 
 	show_error_prefix(curr_input_file, line_num);
@@ -1035,6 +1036,10 @@ void show_fatal_error(const char *text, ...) {
 	WORD attr = save_console_attributes();
 
 	va_list args;
+	if (hide_errors) {
+		error_occurred = true;
+		return;
+	}
 	if (exit_code < EXIT_FATAL_ERROR) exit_code = EXIT_FATAL_ERROR;
 
 	show_error_prefix(curr_input_file, line_num);
diff --git a/utils.h b/utils.h
index 062e246..c9f3b85 100644
--- a/utils.h
+++ b/utils.h
@@ -56,6 +56,7 @@ char *expand_expr (const char *expr, bool search_local = true, bool group = fals
 extern char *curr_input_file;
 extern int line_num;
 extern bool error_occurred;
+extern bool hide_errors;
 
 void show_error_prefix (const char *zcif, const int zln);
 void show_error (const char *text, ...);
-- 
2.43.0


From 6643c74ca137aefcd58e01eea897889520f118d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 58/79] fix: .echo of values that are longer than an expression
 when written out

---
 directive.cpp |  5 +----
 pass_two.cpp  | 10 +++++++++-
 pass_two.h    |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 843a1af..d965135 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -345,11 +345,8 @@ addinstr_fail:
 					char *echo_string = eb_extract(echo);
 					eb_free(echo);
 
-					char *expanded_string = escape_string(echo_string);
+					add_pass_two_output (echo_string, OUTPUT_TEXT);
 					free(echo_string);
-
-					add_pass_two_output (expanded_string, OUTPUT_ECHO);
-					free(expanded_string);
 				}
 				EndSPASMErrorSession(session);
 			}
diff --git a/pass_two.cpp b/pass_two.cpp
index 439a527..1b8d2d4 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -108,7 +108,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	new_output->input_file = strdup (curr_input_file);
 	new_output->next = NULL;
 
-	if (type == OUTPUT_SHOW)
+	if (type != OUTPUT_ECHO)
 		new_output->expr = strdup (expr);
 	else
 		new_output->expr = expand_expr (expr, true, true);
@@ -200,6 +200,14 @@ void run_second_pass () {
 					restore_console_attributes(orig_attributes);
 					break;
 				}
+			case OUTPUT_TEXT:
+				{
+					WORD orig_attributes = save_console_attributes();
+					set_console_attributes (COLOR_GREEN);
+					puts (output_list->expr);
+					restore_console_attributes(orig_attributes);
+					break;
+				}
 			case OUTPUT_SHOW:
 			{
 				define_t *define;
diff --git a/pass_two.h b/pass_two.h
index 4fb0f11..9efca63 100644
--- a/pass_two.h
+++ b/pass_two.h
@@ -13,6 +13,7 @@ typedef enum {
 
 typedef enum {
 	OUTPUT_ECHO,
+	OUTPUT_TEXT,
 	OUTPUT_SHOW
 } output_type;
 
-- 
2.43.0


From b8c44e31a4d2513248cc50a0560483726e183564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:28 +0000
Subject: [PATCH 59/79] fix: faults in the value of a -D define are reported on
 the command line, not on line 0 of the source

---
 main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.cpp b/main.cpp
index e71ff28..1001a01 100644
--- a/main.cpp
+++ b/main.cpp
@@ -437,6 +437,10 @@ int main (int argc, char **argv)
 		init_storage();
 		is_storage_initialized = true;
 	}
+	// (faults in their values are found on the command line)
+	char *input_file = curr_input_file;
+	char commandline[] = "Commandline";
+	curr_input_file = commandline;
 	for (list_t *node = cmdline_defines; node != NULL; node = node->next) {
 		char name[256];
 		char *ptr = (char *) node->data;
@@ -458,6 +462,7 @@ int main (int argc, char **argv)
 			set_define (define, "1", 1, false);
 	}
 	list_free (cmdline_defines, false, NULL);
+	curr_input_file = input_file;
 
 	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
-- 
2.43.0


From cfc34a7b9de0b454dd1bd080e1614d3d81d16d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 60/79] fix: a redefinition with a negative equate after a
 unary operator

---
 utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 263e1fe..450531e 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -933,7 +933,12 @@ static bool expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
 				char buf[16];
-				snprintf (buf, sizeof(buf), (group && label->value < 0) ? "(%d)" : "%d", label->value);
+				//(a negative one right after a unary operator wouldn't be a value)
+				unsigned char *prev = new_expr->end;
+				while (prev > new_expr->start && isspace (prev[-1]))
+					prev--;
+				bool after_unary = prev > new_expr->start && strchr ("-+~", prev[-1]) != NULL;
+				snprintf (buf, sizeof(buf), ((group || after_unary) && label->value < 0) ? "(%d)" : "%d", label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
 			//otherwise, it might be a forward ref, so just write the name
-- 
2.43.0


From 7e5619804302dab0bf2a65468cce0bb86a248910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:34 +0000
Subject: [PATCH 61/79] fix: the byte size in a bitmap header counts all
 layers, the mask and the padding of rows

---
 bitmap.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 17101a1..510e5be 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -69,6 +69,15 @@ typedef struct tagBITMAPINFOHEADER{
 
 
 
+#ifdef _WIN32
+static WORD log2(WORD value)
+{
+	WORD l = 0;
+	while( (value >> l) > 1 ) ++l;
+	return l;
+}
+#endif
+
 static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, const BITMAPINFOHEADER *bi) {
 	// Handle an optional header
 	if (define_with_value("__BM_HDR", 1)) {
@@ -105,10 +114,14 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 			else if (!strcasecmp(p, "b"))
 				write_out(parse_f("__BM_SHD"));
 			else if (!strcasecmp(p, "s") || !strcasecmp(p, "ss")) {
-				int size = ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
-				if (define_with_value ("__BM_SHD", 4)) size *=2;
-				else if (define_with_value ("__BM_SHD", 8)) size *=4;
-				if (define_with_value ("__BM_MASK", 1)) size += ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
+				// As many bytes as are written: rows of at least __BM_MIN_W pixels (images wider
+				// than that are written in strips), for each layer and the mask
+				const int width = r->right - r->left, min_w = parse_f("__BM_MIN_W");
+				int size = (max(width, min_w) + 7)/8;
+				if (min_w > 0 && width > min_w)
+					size = (min_w + 7)/8 * ((width + min_w - 1) / min_w);
+				size *= (r->bottom - r->top);
+				size *= (int) log2 ((WORD) parse_f("__BM_SHD")) + (define_with_value ("__BM_MSK", 1) ? 1 : 0);
 
 				if (!strcasecmp(p, "s")) {
 					if (size > 255)
@@ -131,15 +144,6 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 	}
 }
 
-#ifdef _WIN32
-static WORD log2(WORD value)
-{
-	WORD l = 0;
-	while( (value >> l) > 1 ) ++l;
-	return l;
-}
-#endif
-
 bool IsFileBitmap(FILE *file)
 {
 	fseek(file, 0, SEEK_SET);
-- 
2.43.0


From 8eaa92d660ebe612f969f9cfa510bb80221d047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:34 +0000
Subject: [PATCH 62/79] fix: colors of bitmaps with 16 and 32 bits per pixel

---
 bitmap.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 510e5be..7f7dbda 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -243,18 +243,24 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				if (iColor < nColors)
 					rgb = bmiColors[iColor];
 			} else {
-				WORD biCmBitCount = _W(bi->biBitCount) / 3;
 				DWORD dwData = 0;
 				int i;
+				// The first byte is the lowest
 				for (i = 0; i < (_W(bi->biBitCount) / 8); i++) {
-					dwData <<= 8;
 					//dwData += pBits[row][(bit / 8) + i];
-					dwData += BITS_ACCESS(row, (bit / 8) + i);
+					dwData += (DWORD) BITS_ACCESS(row, (bit / 8) + i) << (8 * i);
 				}
 
-				rgb.rgbRed 		= (dwData) & MASK(biCmBitCount); 
-				rgb.rgbGreen 	= (dwData >> biCmBitCount) & MASK(biCmBitCount); 
-				rgb.rgbBlue 	= (dwData >> (2 * biCmBitCount)) & MASK(biCmBitCount); 
+				if (_W(bi->biBitCount) == 16) {
+					// 5 bits for each color
+					rgb.rgbRed		= ((dwData >> 10) & MASK(5)) * 255 / MASK(5);
+					rgb.rgbGreen	= ((dwData >> 5) & MASK(5)) * 255 / MASK(5);
+					rgb.rgbBlue		= ((dwData) & MASK(5)) * 255 / MASK(5);
+				} else {
+					rgb.rgbRed		= (dwData >> 16) & MASK(8);
+					rgb.rgbGreen	= (dwData >> 8) & MASK(8);
+					rgb.rgbBlue		= (dwData) & MASK(8);
+				}
 			}
 
 			double lum = LUMINANCE(rgb.rgbRed, rgb.rgbGreen, rgb.rgbBlue);
-- 
2.43.0


From d8995e914678024941277d39205e80fefbf86978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 63/79] fix: failing to write an .echo file is an error

---
 directive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index d965135..889d6fe 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -823,7 +823,11 @@ echo_error:
 		else {
 			if (echo_target != NULL)
 			{
-				fclose ((FILE *) echo_target);
+				bool write_failed = ferror ((FILE *) echo_target) != 0;
+				if (fclose ((FILE *) echo_target) != 0)
+					write_failed = true;
+				if (write_failed)
+					show_error ("Error writing to .echo file");
 			}
 		}
 	}
-- 
2.43.0


From 30743aa37a0e4be3d2a4759b5e7b6b921cb562fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 64/79] fix: a missing include file is reported once and by its
 name

---
 preop.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 3b3e817..3da9bb1 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -495,8 +495,7 @@ static char *handle_preop_include (char *ptr)
 	//finally, now that we've got the full path, determine file type
 	if (!file_path || !(file = fopen (file_path, "rb")))
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, name);
-		show_error ("%s: No such file or directory", name);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		if (file_path) free (file_path);
 		return ptr;
 	}
-- 
2.43.0


From f1e1cc9ce4ad3c44c523b7c9d90c876c982161df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 65/79] fix: an open parenthesis doesn't take in the comment
 after it

---
 utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 450531e..b411268 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -438,8 +438,8 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 
 	while (**ptr != '\0' && !((mystrpbrk (*ptr, delims) == *ptr || is_end_of_code_line (*ptr))
 				&& !in_escape && !in_string && in_quote == 0 && level == 0)) {
-		// an open parenthesis doesn't take in the lines that follow
-		if ((**ptr == '\n' || **ptr == '\r') && !in_string && in_quote == 0)
+		// an open parenthesis doesn't take in the comment or the lines that follow
+		if ((**ptr == '\n' || **ptr == '\r' || (**ptr == ';' && !in_escape)) && !in_string && in_quote == 0)
 			break;
 
 		if (!in_escape) {
-- 
2.43.0


From 9c8c9fca626726a0f8a69b0950646aeb6c1f666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:09 +0000
Subject: [PATCH 66/79] fix: a negative __BM_MIN_W doesn't overflow the width
 of bitmap rows

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 7f7dbda..bd66111 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -218,7 +218,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	for (row = r->bottom - r->top - 1; row >= 0; row--) {
 		int col, bit;
 		for (	col = 0, bit = r->left * _W(bi->biBitCount); 
-				bit < (max((r->right * _W(bi->biBitCount)), ((r->left + min_w) * _W(bi->biBitCount)))); 
+				bit < max(r->right, r->left + max(min_w, 0)) * _W(bi->biBitCount);
 				col++, bit += _W(bi->biBitCount)) 
 		{
 			RGBQUAD rgb = {255, 255, 255, 0};
-- 
2.43.0


From b5c78fc059f71a882ea82dad58bee086ed6a6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 67/79] fix: white in bitmaps of 128 or more shades is the
 brightest shade

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index bd66111..d01d8e9 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -271,7 +271,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 			} else {
 				// Calculate the output shade (use 0.99 instead of 1.0 to stick within the range)
 				//pOutput[r->bottom - r->top - 1 - row][col] = (0.99 - lum) * biOutputShades;
-				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = (BYTE) ((0.99 - lum) * biOutputShades);
+				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = lum < 0.99 ? (BYTE) ((0.99 - lum) * biOutputShades) : 0;
 			
 				// Calculate the mask
 				if (memcmp (&rgb, &rgbMask, sizeof (RGBQUAD)) != 0)
-- 
2.43.0


From 5236f19a9c0b7549900de563eb5aa51291d50afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 68/79] fix: a bitmap setting defined without a replacement
 isn't read

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index b411268..c3621ef 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -779,7 +779,7 @@ char *get_file_contents (const char *filename) {
  */
 bool define_with_value (const char *name, const int value) {
 	define_t *define = search_defines (name);
-	if (define == NULL) return false;
+	if (define == NULL || define->contents == NULL) return false;
 	
 	return (parse_f (define->contents) == value);
 }
-- 
2.43.0


From 8a3becb6db705e18d31734e57254d415a2d03ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:20 +0000
Subject: [PATCH 69/79] fix: no bitmap is converted with settings that have
 errors

---
 bitmap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bitmap.cpp b/bitmap.cpp
index d01d8e9..c7a4419 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -213,6 +213,14 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 		HandleInv = true;
 	}
 	WORD biOutputShades = parse_f("__BM_SHD");
+
+	// One of the settings has an error
+	if (error_occurred) {
+		free (pBits);
+		free (pOutput);
+		free (pMask);
+		return;
+	}
 	
 	int row;
 	for (row = r->bottom - r->top - 1; row >= 0; row--) {
-- 
2.43.0


From 5c9cd95bfd2bca7688db39c9f719ddb9fa04ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:22 +0000
Subject: [PATCH 70/79] fix: statements joined after the #endif of a skipped
 branch are assembled

---
 preop.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 3da9bb1..14f9127 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -25,12 +25,17 @@ static bool fInMacro = false;
 
 /*
  * The line that skipping ended at isn't handled
- * itself, so if it's an #ENDIF the block ends here
+ * itself, so if it's an #ENDIF the block ends here,
+ * returns pointer to what follows it
  */
 
-static void leave_if_at_endif (char *ptr) {
-	if (nIfLevel > 0 && line_has_word (ptr, "#endif", 6))
+static char *leave_if_at_endif (char *ptr) {
+	if (!line_has_word (ptr, "#endif", 6))
+		return ptr;
+
+	if (nIfLevel > 0)
 		nIfLevel--;
+	return (char *) skip_to_code_line_end (ptr);
 }
 
 /*
@@ -96,8 +101,7 @@ char *handle_preop (char *ptr) {
 					SetLastSPASMError(SPASM_ERR_ELIF_WITHOUT_IF);
 				}
 				int session = StartSPASMErrorSession();
-				ptr = skip_until(ptr, &line_num, 1, "#endif");
-				leave_if_at_endif (ptr);
+				ptr = leave_if_at_endif (skip_until(ptr, &line_num, 1, "#endif"));
 				EndSPASMErrorSession(session);
 				break;
 			}
@@ -156,8 +160,7 @@ char *handle_preop (char *ptr) {
 			else
 			{
 				int session = StartSPASMErrorSession();
-				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
-				leave_if_at_endif (ptr);
+				ptr = leave_if_at_endif (skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif"));
 				EndSPASMErrorSession(session);
 			}
 			break;
@@ -679,7 +682,7 @@ char *do_if (char *ptr, int condition)
 		}
 		else
 		{
-			leave_if_at_endif (result);
+			result = leave_if_at_endif (result);
 		}
 		return result;
 	}
-- 
2.43.0


From 01c95460888c5ef7de882e8e8de456779a28a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 71/79] fix: a comment or backslash directly after a
 preprocessor word isn't part of it

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 14f9127..ceac7b6 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -51,7 +51,7 @@ char *handle_preop (char *ptr) {
 
 	//first get the name
 	name_end = ptr;
-	while (*name_end != 0 && !isspace(*name_end))
+	while (!isspace ((unsigned char) *name_end) && !is_end_of_code_line (name_end))
 		name_end++;
 	name = strndup (ptr, name_end - ptr);
 
-- 
2.43.0


From 59f34c5ad702add232459e07798b50e02ed49b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:47 +0000
Subject: [PATCH 72/79] fix: tabs separate the parts of bitmap settings too

---
 bitmap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index c7a4419..710e452 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -89,7 +89,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 		hdr = strdup(def_hdr_fmt->contents);
 		reduce_string(hdr);
 
-		for (p = strtok(hdr, ",;x "); p; p = strtok(NULL, ",;x ")) {
+		for (p = strtok(hdr, ",;x \t"); p; p = strtok(NULL, ",;x \t")) {
 
 			if (!strcasecmp(p, "w")) {
 				if (r->right - r->left > 255)
@@ -470,7 +470,7 @@ void handle_bitmap(FILE *file)
 		char *fmt = strdup(skip_whitespace(img_map->contents));
 		reduce_string(fmt);
 
-		for (p = strtok(fmt, ",;x "); p; p = strtok(NULL, ",;x ")) {
+		for (p = strtok(fmt, ",;x \t"); p; p = strtok(NULL, ",;x \t")) {
 			if (i == 0) width = parse_f(p);
 			else if (i == 1) height = parse_f(p);
 			else if (i == 2) count = parse_f(p) + 1;
-- 
2.43.0


From b551239cbca72da2fb026928a3d8947844ee9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 73/79] fix: blanks in front of the comment after a #define
 don't belong to its value

---
 preop.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index ceac7b6..f822584 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -278,6 +278,23 @@ char *handle_preop (char *ptr) {
 }
 
 
+/*
+ * Gives a define the rest of the line as its value,
+ * returns pointer to the end of the line
+ */
+
+static char *set_define_to_line_end (define_t *define, const char *ptr, bool redefined) {
+	char *line_end = skip_to_line_end (ptr);
+
+	// Blanks in front of a comment don't belong to the value
+	int len = line_end - ptr;
+	while (len > 0 && isspace ((unsigned char) ptr[len - 1]))
+		len--;
+
+	set_define (define, ptr, len, redefined);
+	return line_end;
+}
+
 /*
  * Handles #DEFINE statement,
  * returns pointer to new location
@@ -285,7 +302,7 @@ char *handle_preop (char *ptr) {
  */
 
 char *handle_preop_define (const char *ptr) {
-	char *name_end, *value_end;
+	char *name_end;
 	define_t *define;
 	bool redefined;
 
@@ -314,9 +331,7 @@ char *handle_preop_define (const char *ptr) {
 			return (char *) ptr;
 		}
 
-		value_end = skip_to_line_end (ptr);
-		set_define (define, ptr, value_end - ptr, redefined);
-		ptr = value_end;
+		ptr = set_define_to_line_end (define, ptr, redefined);
 	} else {
 		//it's a normal define without arguments
 		
@@ -396,9 +411,7 @@ char *handle_preop_define (const char *ptr) {
 			ptr = eval_ptr;
 			
 		} else {
-			value_end = skip_to_line_end (ptr);
-			set_define (define, ptr, value_end - ptr, redefined);
-			ptr = value_end;
+			ptr = set_define_to_line_end (define, ptr, redefined);
 		}
 	}
 
-- 
2.43.0


From c626534fec42d6ed5e21d63668746ae71473ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 74/79] fix: missing parentheses of nested groups are reported
 once

---
 parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 6fb1a8f..8a4f171 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -524,11 +524,14 @@ const char *find_next_condition (const char *ptr) {
 
 static const char *parse_num_full (const char *expr, int *value, int depth) {
 	int total = 0, last_num;
+	static bool parens_reported = false;
 	MATHOP last_op = M_NONE;
 	bool invert_lastnum, neg_lastnum;
 	const char *const expr_start = expr;
 
 	parser_forward_ref_err = false;
+	if (depth == 0)
+		parens_reported = false;
 	if (++parse_depth > RECURSION_LIMIT)
 	{
 		SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
@@ -624,8 +627,11 @@ static const char *parse_num_full (const char *expr, int *value, int depth) {
 		expr = skip_whitespace (expr);
 		//If it's the end of the expression, return the total so far
 		if (is_end_of_code_line (expr)) {
-			if (depth > 0)
+			// The levels above end here too, the innermost one speaks for all of them
+			if (depth > 0 && !parens_reported) {
 				show_warning ("Missing %d parentheses at end of expression", depth);
+				parens_reported = true;
+			}
 			*value = total;
 			parse_depth--;
 			return expr;
-- 
2.43.0


From 19daa546b3619a4346760f7bfac2e95e6920c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:47 +0000
Subject: [PATCH 75/79] fix: a #define with parameters but no text is rejected
 with trailing blanks too

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index f822584..479c1e0 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -326,7 +326,7 @@ char *handle_preop_define (const char *ptr) {
 			return (char *) ptr;
 		
 		//then find the function it's defining
-		if (is_end_of_code_line (ptr)) {
+		if (is_end_of_code_line (skip_whitespace (ptr))) {
 			show_error ("#DEFINE macro is missing function");
 			return (char *) ptr;
 		}
-- 
2.43.0


From 3a152b59d3cd45b32fa459029aa689e7ad396041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:26 +0000
Subject: [PATCH 76/79] fix: getc() keeps its value in expressions with forward
 references

---
 utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index c3621ef..0476666 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -904,7 +904,8 @@ static bool expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			name = strndup (expr, name_len);
 			
 			//if it's a define, recursively expand its contents
-			if ((define = search_defines (name, search_local)) && define->contents != NULL) {
+			// (but getc() is only one by name, so just its arguments are)
+			if ((define = search_defines (name, search_local)) && define->contents != NULL && strcasecmp (name, "getc") != 0) {
 				list_t *args = NULL;
 
 				if (define->num_args > 0) {
-- 
2.43.0


From 5ff704a6d0e646e1d5d19ee84fb0f8fed634a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 77/79] fix: what stands in a #comment doesn't count as
 conditional or macro end

---
 preop.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 479c1e0..66ab8b9 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -755,14 +755,20 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 	va_start(argp, argc);
 	bool skip_nested = strcmp (va_arg(argp, char *), "#endcomment") != 0;
 	va_end(argp);
+	bool in_comment = false;
 
 	while (*ptr && !error_occurred) {
 		char *line = ptr;
 		char *line_end = skip_to_next_line(ptr);
 		
 		do {
+			// What's in a comment doesn't count
+			if (in_comment) {
+				in_comment = !line_has_word (line, "#ENDCOMMENT", 11);
+			} else if (skip_nested && line_has_word (line, "#COMMENT", 8)) {
+				in_comment = true;
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (skip_nested && line_has_word (line, "#IF", 3)) {
+			} else if (skip_nested && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From 47f58f40a4cfb596dbdfc95bed3271d045191593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:34 +0000
Subject: [PATCH 78/79] fix: an equate's own name keeps its earlier value in
 its expression, and redefinitions compare values

---
 pass_one.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index 3bccf3e..9cafced 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -236,6 +236,21 @@ char *run_first_pass_line (char *ptr) {
 }
 
 
+/*
+ * Returns what's after the '=' or '.equ'
+ * at ptr, or NULL if there's none
+ */
+
+static char *skip_equals (char *ptr) {
+	ptr = skip_whitespace (ptr);
+	if (*ptr == '=')
+		return ptr + 1;
+	if (!strncasecmp (ptr, ".equ", 4) && isspace ((unsigned char) ptr[4]))
+		return ptr + 4;
+	return NULL;
+}
+
+
 /*
  * Parses a single command/section
  * on a line, returns a pointer to
@@ -270,6 +285,21 @@ char *run_first_pass_line_sec (char *ptr) {
 		if (0) {
 #endif
 		} else {
+			//an equate's value is worked out first, so that it's not mistaken for a label here
+			char *value_ptr = skip_equals (ptr);
+			if (value_ptr != NULL) {
+				int value;
+				char value_str[256];
+
+				read_expr (&value_ptr, value_str, "");
+				if (!parse_num_now (value_str, &value)) {
+					label_t *label = search_labels (name);
+					value = label ? label->value : program_counter;
+				}
+				last_label = add_label (name, value);
+				return value_ptr;
+			}
+
 			//if there's a ':', either the line ends or there's an instruction after it
 			last_label = add_label (name, program_counter);
 		}
-- 
2.43.0


From 4268ab30bef5a9cb6a9db6c2ee3be3e4da568ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:28 +0000
Subject: [PATCH 79/79] fix: what follows a call in a data list is part of its
 expression, not passed over

---
 directive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 889d6fe..a193838 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -712,7 +712,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				read_expr (&name_end, name, "(");
 				//printf("Looking up %s\n", name);
 				next = name_end;
-				read_expr (&next, NULL, ")");
+				if (*next == '(') {
+					next++;
+					read_expr (&next, NULL, ")");
+					if (*next == ')') next++;
+					next = skip_whitespace (next);
+				}
 				
 				if (*next != '\0')
 					goto echo_error;
-- 
2.43.0

