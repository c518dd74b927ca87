From 06249eaa7131ebfa9ee8be4cd97972d251fb1cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:04 +0000
Subject: [PATCH 01/21] fix: restore the mode after the owner when replacing a
 file in-place

chown(2) clears the set-user-ID and set-group-ID bits, doing fchmod(2) first
caused such bits of the original file to be lost.
---
 knfmt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/knfmt.c b/knfmt.c
index d04ca32..ba72d5e 100644
--- a/knfmt.c
+++ b/knfmt.c
@@ -392,16 +392,17 @@ fileattr(const char *srcpath, int srcfd, const char *dstpath, int dstfd)
 		return 1;
 	}
 
-	if (srcsb.st_mode != dstsb.st_mode &&
-	    fchmod(srcfd, dstsb.st_mode) == -1) {
-		warn("chmod: %s", srcpath);
-		return 1;
-	}
+	/* Change mode last as chown(2) is allowed to clear the set-id bits. */
 	if ((srcsb.st_uid != dstsb.st_uid || srcsb.st_gid != dstsb.st_gid) &&
 	    fchown(srcfd, dstsb.st_uid, dstsb.st_gid) == -1) {
 		warn("chown: %s", srcpath);
 		return 1;
 	}
+	if (srcsb.st_mode != dstsb.st_mode &&
+	    fchmod(srcfd, dstsb.st_mode) == -1) {
+		warn("chmod: %s", srcpath);
+		return 1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 00ed729c1df6ca95017182ebb7126a9fcce49db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:02 +0000
Subject: [PATCH 02/21] fix: keep comments attached to parenthesis while
 simplifying expressions

Removing the outermost parenthesis of an expression also removed comments and
preprocessor directives associated with the same tokens.
---
 expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr.c b/expr.c
index f7d4319..2cc844d 100644
--- a/expr.c
+++ b/expr.c
@@ -898,6 +898,10 @@ expr_doc_parens(struct expr *ex, struct expr_state *es, struct doc *dc)
 {
 	simple_cookie(simple);
 	if (es->es_depth == 1 &&
+	    (ex->ex_tokens[0] == NULL ||
+	     token_is_moveable(ex->ex_tokens[0])) &&
+	    (ex->ex_tokens[1] == NULL ||
+	     token_is_moveable(ex->ex_tokens[1])) &&
 	    simple_enter(es->es_ea.si, SIMPLE_EXPR_PARENS, 0, &simple)) {
 		if (ex->ex_lhs != NULL)
 			dc = expr_doc(ex->ex_lhs, es, dc);
-- 
2.43.0


From 4c67a2981323bf29c3d3c347fbd1c0c34c19c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:09 +0000
Subject: [PATCH 03/21] fix: reject unterminated string and character literals

The remaining part of the source code was treated as the end of file, causing
it to be removed without any error.
---
 clang.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clang.c b/clang.c
index 0964df1..1e83fcb 100644
--- a/clang.c
+++ b/clang.c
@@ -580,8 +580,11 @@ clang_read(struct lexer *lx, void *arg)
 		unsigned char pch = ch;
 
 		for (;;) {
-			if (lexer_getc(lx, &ch))
-				goto eof;
+			if (lexer_getc(lx, &ch)) {
+				/* Not terminated, let the parser fail. */
+				tk = lexer_emit(lx, &st, TOKEN_NONE);
+				goto out;
+			}
 			if (pch == '\\' && ch == '\\')
 				ch = '\0';
 			else if (pch != '\\' && ch == delim)
-- 
2.43.0


From e4d9f7b9183a91a46db5c26ab58fccb7b45916ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:30 +0000
Subject: [PATCH 04/21] fix: do not treat an invalid character last in the
 source code as end of file

It was removed without any error.
---
 clang.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clang.c b/clang.c
index 1e83fcb..7e667b3 100644
--- a/clang.c
+++ b/clang.c
@@ -613,7 +613,7 @@ clang_read(struct lexer *lx, void *arg)
 			token_priv(tk, struct clang_token)->type =
 			    clang_find_identifier(tk->tk_str, tk->tk_len);
 		}
-	} else if (lexer_eof(lx)) {
+	} else if (lexer_eof(lx) && lexer_get_state(lx).st_off == st.st_off) {
 eof:
 		tk = lexer_emit(lx, &st, LEXER_EOF);
 	} else {
-- 
2.43.0


From 93a12f13121d170f8958df268b4127e4941b6b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:44 +0000
Subject: [PATCH 05/21] fix: do not split numbers with a signed exponent or an
 unknown suffix

A number such as 1e+5 was treated as the binary expression 1e + 5.
---
 clang.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/clang.c b/clang.c
index 7e667b3..775ecd4 100644
--- a/clang.c
+++ b/clang.c
@@ -113,6 +113,7 @@ static void		 token_branch_parent_update_flags(struct token *);
 static void		 token_branch_revert(struct token *);
 static void		 token_prolong(struct token *, struct token *);
 
+static int	isexponent(unsigned char);
 static int	isnum(unsigned char);
 
 static MAP(const char, *, const struct token *) clang_tokens;
@@ -594,10 +595,14 @@ clang_read(struct lexer *lx, void *arg)
 		tk = lexer_emit(lx, &st,
 		    delim == '"' ? TOKEN_STRING : TOKEN_LITERAL);
 	} else if (isdigit(ch) || ch == '.') {
+		unsigned char pch;
+
 		do {
+			pch = ch;
 			if (lexer_getc(lx, &ch))
 				goto eof;
-		} while (isnum(ch));
+		} while (isnum(ch) || (isexponent(pch) &&
+		    (ch == '+' || ch == '-')));
 		lexer_ungetc(lx);
 		tk = lexer_emit(lx, &st, TOKEN_LITERAL);
 	} else if (isalpha(ch) || ch == '_') {
@@ -1468,10 +1473,14 @@ token_prolong(struct token *dst, struct token *src)
 	token_rele(src);
 }
 
+static int
+isexponent(unsigned char ch)
+{
+	return ch == 'e' || ch == 'E' || ch == 'p' || ch == 'P';
+}
+
 static int
 isnum(unsigned char ch)
 {
-	ch = isupper(ch) ? (unsigned char)tolower(ch) : ch;
-	return isdigit(ch) || isxdigit(ch) || ch == 'l' || ch == 'x' ||
-	    ch == 'u' || ch == '.';
+	return isalnum(ch) || ch == '_' || ch == '.';
 }
-- 
2.43.0


From 34c6d2f068254999bff00db4ac844ade71f1d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:39 +0000
Subject: [PATCH 06/21] fix: do not merge adjacent unary operators

The expression - -a was formatted as --a, changing its meaning.
---
 expr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expr.c b/expr.c
index 2cc844d..1de8c68 100644
--- a/expr.c
+++ b/expr.c
@@ -801,7 +801,17 @@ expr_doc(struct expr *ex, struct expr_state *es, struct doc *dc)
 static struct doc *
 expr_doc_unary(struct expr *ex, struct expr_state *es, struct doc *dc)
 {
+	const struct token *nx;
+
 	expr_doc_token(es, ex->ex_tk, dc);
+	/* Do not merge two distinct operators into another one. */
+	nx = token_next(ex->ex_tk);
+	if (nx != NULL && nx->tk_len > 0 &&
+	    (ex->ex_tk->tk_type == TOKEN_PLUS ||
+	     ex->ex_tk->tk_type == TOKEN_MINUS ||
+	     ex->ex_tk->tk_type == TOKEN_AMP) &&
+	    ex->ex_tk->tk_str[0] == nx->tk_str[0])
+		doc_literal(" ", dc);
 	if (ex->ex_lhs != NULL)
 		dc = expr_doc(ex->ex_lhs, es, dc);
 	return dc;
-- 
2.43.0


From a5fbdc1eed8e44bd0b8b0a4da0958eee7bda0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:49 +0000
Subject: [PATCH 07/21] fix: keep the encoding prefix of string and character
 literals attached

The literal u8"a" was formatted as u8 "a" which is not valid.
---
 clang.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clang.c b/clang.c
index 775ecd4..8e2e2a9 100644
--- a/clang.c
+++ b/clang.c
@@ -567,13 +567,19 @@ clang_read(struct lexer *lx, void *arg)
 	if (lexer_getc(lx, &ch))
 		goto eof;
 
-	if (ch == 'L') {
+	if (ch == 'L' || ch == 'U' || ch == 'u') {
+		struct lexer_state prefixst;
 		unsigned char peek;
+		int error;
 
-		if (lexer_getc(lx, &peek) == 0 && (peek == '"' || peek == '\''))
+		prefixst = lexer_get_state(lx);
+		error = lexer_getc(lx, &peek);
+		if (!error && ch == 'u' && peek == '8')
+			error = lexer_getc(lx, &peek);
+		if (!error && (peek == '"' || peek == '\''))
 			ch = peek;
 		else
-			lexer_ungetc(lx);
+			lexer_set_state(lx, &prefixst);
 	}
 
 	if (ch == '"' || ch == '\'') {
-- 
2.43.0


From 1956aaae6eeecd530def70dff314e931310a1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 08/21] fix: keep comments following redundant semicolons

Discarding all but the last semicolon on the same line also discarded any
comment placed in between.
---
 parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index f65bd2b..fdc7919 100644
--- a/parser.c
+++ b/parser.c
@@ -375,10 +375,12 @@ parser_semi(struct parser *pr, struct doc *dc)
 
 	/*
 	 * Discard subsequent semicolon(s) on the same line. The last one is
-	 * emitted in order to honor optional lines.
+	 * emitted in order to honor optional lines. Anything followed by a
+	 * comment cannot be discarded.
 	 */
 	lexer_peek_enter(lx, &s);
-	while (lexer_peek_if(lx, TOKEN_SEMI, &nx) &&
+	while (token_is_moveable(last != NULL ? last : semi) &&
+	    lexer_peek_if(lx, TOKEN_SEMI, &nx) &&
 	    token_cmp(semi, nx) == 0 &&
 	    lexer_pop(lx, &nx))
 		last = nx;
-- 
2.43.0


From c5131387813c660fee9f36991a9343e46452df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:28 +0000
Subject: [PATCH 09/21] fix: keep comma in declaration lacking any declarators

The indent used for declarators is removed if nothing was emitted. However, a
comma could already have been emitted causing it to be lost.
---
 parser-decl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser-decl.c b/parser-decl.c
index 0e4ddf0..1f58535 100644
--- a/parser-decl.c
+++ b/parser-decl.c
@@ -309,6 +309,7 @@ parser_decl_init(struct parser *pr, struct doc **out,
 			doc_alloc(DOC_SOFTLINE, concat);
 			concat = doc_alloc(DOC_CONCAT,
 			    doc_alloc(DOC_GROUP, concat));
+			ninit++;
 		}
 
 		error = parser_decl_init1(pr, concat, out);
-- 
2.43.0


From 883a5a1b8d6d26b0f7836b70cf5768db9736c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:05 +0000
Subject: [PATCH 10/21] fix: keep ternary lacking the false expression

A ternary expression without a false expression, which could be hidden behind
cpp, was discarded causing the condition and true expression to be lost.
---
 expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expr.c b/expr.c
index 1de8c68..0530fdf 100644
--- a/expr.c
+++ b/expr.c
@@ -647,8 +647,6 @@ expr_exec_ternary(struct expr_state *es, struct expr *lhs)
 	 * subsequent argument(s).
 	 */
 	ex->ex_ternary = expr_exec1(es, PC1);
-	if (ex->ex_ternary == NULL)
-		return NULL;
 	return ex;
 }
 
@@ -1119,6 +1117,8 @@ expr_doc_ternary(struct expr *ex, struct expr_state *es, struct doc *dc)
 		if (ex->ex_tokens[1] != NULL)
 			expr_doc_token(es, ex->ex_tokens[1], rhs);	/* : */
 		doc_literal(" ", rhs);
+		if (ex->ex_ternary == NULL)
+			return rhs;
 		return expr_doc(ex->ex_ternary, es, rhs);
 	} else {
 		struct doc *ternary;
@@ -1146,6 +1146,8 @@ expr_doc_ternary(struct expr *ex, struct expr_state *es, struct doc *dc)
 			expr_doc_token(es, ex->ex_tokens[1], ternary);	/* : */
 		doc_alloc(DOC_LINE, ternary);
 
+		if (ex->ex_ternary == NULL)
+			return ternary;
 		return expr_doc_soft(ex->ex_ternary, es, dc,
 		    soft_weights.ternary);
 	}
-- 
2.43.0


From 41181113fe0f74e4327a4be5cf21f0a94c8359f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:45 +0000
Subject: [PATCH 11/21] fix: keep the whole text of adjacent comments on the
 same line

---
 clang.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/clang.c b/clang.c
index 8e2e2a9..6350381 100644
--- a/clang.c
+++ b/clang.c
@@ -111,7 +111,8 @@ static void		 token_branch_link(struct token *, struct token *);
 static void		 token_branch_parent(struct token *, struct token *);
 static void		 token_branch_parent_update_flags(struct token *);
 static void		 token_branch_revert(struct token *);
-static void		 token_prolong(struct token *, struct token *);
+static void		 token_prolong(struct token *, struct token *,
+    struct arena_scope *);
 
 static int	isexponent(unsigned char);
 static int	isnum(unsigned char);
@@ -1037,7 +1038,8 @@ clang_read_prefix(struct clang *cl, struct lexer *lx)
 		if (pv != NULL &&
 		    pv->tk_type == TOKEN_COMMENT &&
 		    token_cmp(comment, pv) == 0) {
-			token_prolong(pv, comment);
+			token_prolong(pv, comment,
+			    cl->arena.eternal_scope);
 			return pv;
 		}
 		token_list_append(&cl->prefixes, comment);
@@ -1471,11 +1473,17 @@ token_branch_revert(struct token *tk)
  * the same type and be adjacent to each other.
  */
 static void
-token_prolong(struct token *dst, struct token *src)
+token_prolong(struct token *dst, struct token *src, struct arena_scope *s)
 {
+	struct buffer *bf;
+
 	assert(src->tk_type == dst->tk_type);
 	assert(src->tk_off >= dst->tk_off + dst->tk_len);
-	dst->tk_len += src->tk_len;
+	/* Tokens could be trimmed and therefore not adjacent in memory. */
+	bf = arena_buffer_alloc(s, dst->tk_len + src->tk_len);
+	buffer_puts(bf, dst->tk_str, dst->tk_len);
+	buffer_puts(bf, src->tk_str, src->tk_len);
+	token_set_str(dst, buffer_get_ptr(bf), buffer_get_len(bf));
 	token_rele(src);
 }
 
-- 
2.43.0


From 63830c73d7c535cc38d63a6ff4bf937dff377e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:19 +0000
Subject: [PATCH 12/21] fix: never emit anything after a C99 comment on the
 same line

---
 doc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doc.c b/doc.c
index 6177cc2..b747f04 100644
--- a/doc.c
+++ b/doc.c
@@ -826,6 +826,10 @@ doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
 
 	doc_print(dc, st, dc->dc_str, dc->dc_len, 0);
 
+	/* Nothing must be emitted after a C99 comment on the same line. */
+	if (tk != NULL && (tk->tk_flags & TOKEN_FLAG_COMMENT_C99) && !isblock)
+		st->st_newline = 1;
+
 	/* Unmute in diff mode. */
 	if (DOC_DIFF(st) && st->st_diff.verbatim == tk)
 		st->st_diff.verbatim = NULL;
-- 
2.43.0


From f735bbf00fb536e62a6edba9cebcc23d529ad541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:26 +0000
Subject: [PATCH 13/21] fix: start directives and block comments on a new line
 after trimmed alignment

---
 doc.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/doc.c b/doc.c
index b747f04..e8f6d22 100644
--- a/doc.c
+++ b/doc.c
@@ -799,6 +799,18 @@ doc_exec_align(const struct doc *dc, struct doc_state *st)
 	}
 }
 
+/*
+ * Returns non-zero if nothing is emitted on the current line.
+ */
+static int
+doc_is_empty_line(const struct doc_state *st)
+{
+	const char *buf = buffer_get_ptr(st->st_bf);
+	size_t buflen = buffer_get_len(st->st_bf);
+
+	return buflen == 0 || buf[buflen - 1] == '\n';
+}
+
 static void
 doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
 {
@@ -820,8 +832,11 @@ doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
 	doc_trim_spaces(dc, st);
 	oldcol = st->st_col;
 
-	/* Verbatim blocks must always start on a new line. */
-	if (isblock && st->st_col > 0)
+	/*
+	 * Verbatim blocks must always start on a new line. The column cannot be
+	 * trusted after trimming tabs.
+	 */
+	if (isblock && (st->st_col > 0 || !doc_is_empty_line(st)))
 		st->st_newline = 1;
 
 	doc_print(dc, st, dc->dc_str, dc->dc_len, 0);
-- 
2.43.0


From a026bf66d5a17ee9b75ef132999a5c937a736496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:56 +0000
Subject: [PATCH 14/21] fix: comments in preprocessor directives

A directive ends at the first newline which is not escaped nor part of a
block comment. The start of a block comment was recognised inside string
and character literals and line comments as well, swallowing the lines
following '#define GLOB "/tmp/*"' into the directive. In addition, '/*/'
was taken for a complete block comment.
---
 clang.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/clang.c b/clang.c
index 6350381..09332da 100644
--- a/clang.c
+++ b/clang.c
@@ -1188,8 +1188,8 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 {
 	struct lexer_state kwst, oldst, st;
 	struct token *tk;
-	int comment, type;
-	unsigned char ch;
+	int escape, type;
+	unsigned char ch, inside;
 
 	oldst = st = lexer_get_state(lx);
 	lexer_eat_lines_and_spaces(lx, &st);
@@ -1206,7 +1206,8 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 	type = clang_find_cpp(lx, &kwst, TOKEN_CPP);
 
 	ch = '\0';
-	comment = 0;
+	inside = '\0';
+	escape = 0;
 	for (;;) {
 		unsigned char peek;
 
@@ -1214,16 +1215,26 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 			break;
 
 		/*
-		 * Make block comments part of the preprocessor
-		 * directive.
+		 * Make block comments part of the preprocessor directive, but
+		 * not what looks like one inside literals and line comments.
 		 */
-		if (ch == '/' && peek == '*') {
-			comment = 1;
-		} else if (comment && ch == '*' && peek == '/') {
-			comment = 0;
-		} else if (!comment && ch != '\\' && peek == '\n') {
+		if (inside == '*') {
+			if (ch == '*' && peek == '/')
+				inside = peek = '\0';
+		} else if (ch != '\\' && peek == '\n') {
 			lexer_ungetc(lx);
 			break;
+		} else if (inside == '"' || inside == '\'') {
+			if (!escape && peek == inside)
+				inside = '\0';
+			escape = !escape && peek == '\\';
+		} else if (inside == '\0') {
+			if (peek == '"' || peek == '\'') {
+				inside = peek;
+			} else if (ch == '/' && (peek == '*' || peek == '/')) {
+				inside = peek;
+				peek = '\0';
+			}
 		}
 		ch = peek;
 	}
-- 
2.43.0


From d5794dcfce571d5ea1552c5f14a53652bca02e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:09 +0000
Subject: [PATCH 15/21] fix: line continuations in line comments

A line comment ending with a backslash continues on the next line. What is
part of the comment was read as code and could be moved out of it.
---
 clang.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clang.c b/clang.c
index 09332da..c6ef664 100644
--- a/clang.c
+++ b/clang.c
@@ -1129,10 +1129,15 @@ again:
 	c99 = ch == '/';
 
 	if (c99) {
+		unsigned char pv = '\0';
+
 		for (;;) {
 			if (lexer_getc(lx, &ch))
 				break;
-			if (ch == '\n') {
+			if (ch == '\n' && pv == '\\') {
+				/* Line continuation, still inside the comment. */
+				oneline = 0;
+			} else if (ch == '\n') {
 				if (peek_c99_comment(lx)) {
 					oneline = 0;
 					goto again;
@@ -1140,6 +1145,7 @@ again:
 				lexer_ungetc(lx);
 				break;
 			}
+			pv = ch;
 		}
 	} else {
 		unsigned char peek;
-- 
2.43.0


From be832a99aa09dfd5177142ccdb3bec81810cb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:43 +0000
Subject: [PATCH 16/21] fix: do not count "\ No newline at end of file" as a
 line of the new file

A hunk whose old file lacks the last newline has the remark in the middle
of it. Counting it as a line of the new file made the following added line
to be missed, as the hunk was considered done.
---
 diff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index f160e2e..20a8013 100644
--- a/diff.c
+++ b/diff.c
@@ -243,7 +243,8 @@ matchline(const char *str, unsigned int lno, struct file *fe)
 {
 	struct diffchunk *du;
 
-	if (str[0] == '-')
+	/* Neither removed lines nor "\ No newline at end of file". */
+	if (str[0] == '-' || str[0] == '\\')
 		return 0;
 
 	du = VECTOR_LAST(fe->fe_diff);
-- 
2.43.0


From e0a5a8439e3304125e95a765c389b73d494aea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:43 +0000
Subject: [PATCH 17/21] fix: take the lines of a hunk from its range and not
 the function context

The expression was greedy, a plus followed by digits in the function context
was taken for the range of lines of the new file.
---
 diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index 20a8013..fb8b9d6 100644
--- a/diff.c
+++ b/diff.c
@@ -47,7 +47,7 @@ diff_init(void)
 		regex_t		*r;
 		const char	*p;
 	} patterns[] = {
-		{ &rechunk,	"^@@.+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
+		{ &rechunk,	"^@@[^+]+\\+([[:digit:]]+)(,([[:digit:]]+))?.+@@" },
 		{ &repath,	"^\\+\\+\\+[[:space:]]+([^[:space:]]+)" },
 	};
 	size_t n = sizeof(patterns) / sizeof(patterns[0]);
-- 
2.43.0


From b4cf767b49e916d4c10cdffa1e2f899f6b1b815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:43 +0000
Subject: [PATCH 18/21] fix: recognize the CaseInsensitive value of
 SortIncludes

It is listed among the values of SortIncludes but not among the keywords,
making it an unknown value which leaves SortIncludes as is as opposed of
being interpreted as Never.
---
 style.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/style.c b/style.c
index ad694c1..83ea336 100644
--- a/style.c
+++ b/style.c
@@ -258,6 +258,7 @@ style_init(void)
 		{ E(BlockIndent) },
 		{ E(Both) },
 		{ E(CSharp) },
+		{ E(CaseInsensitive) },
 		{ E(Chromium) },
 		{ E(Cpp) },
 		{ E(Custom) },
-- 
2.43.0


From 7150868d271c62e1648e20a1b2273ed63aaf9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:33 +0000
Subject: [PATCH 19/21] fix: do not align line continuations with a missing
 column limit

In the absence of a column limit, or one not exceeding the indent width, the
width used while aligning line continuations wraps around causing gigabytes of
spaces to be emitted.
---
 cpp-align.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp-align.c b/cpp-align.c
index d48a4b6..89eafdf 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -3,6 +3,7 @@
 #include "config.h"
 
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
@@ -188,6 +189,12 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 	if (nextline(str, len, &nx) == NULL)
 		return NULL;
 
+	/* Nothing to align with in the absence of a usable column limit. */
+	if (alignment.mode == Right &&
+	    (style(st, ColumnLimit) == UINT_MAX ||
+	     style(st, ColumnLimit) <= style(st, IndentWidth)))
+		alignment.mode = Left;
+
 	if (sense_alignment(str, len, st, &alignment)) {
 		cpp_trace(op, "mode %s, width %u, tabs %d, skip %d",
 		    style_keyword_str(alignment.mode), alignment.width,
-- 
2.43.0


From 1f4325044a2fe3255f55006cedfe6f59723b1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:39 +0000
Subject: [PATCH 20/21] fix: ignore include categories lacking a valid pattern

Matching against a pattern which is missing or failed to compile crashes.
---
 style.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/style.c b/style.c
index 83ea336..b977016 100644
--- a/style.c
+++ b/style.c
@@ -80,6 +80,7 @@ struct include_category {
 	const char		*pattern;
 	regex_t			 regex;
 	struct include_priority	 priority;
+	int			 has_regex;
 };
 
 struct style_option {
@@ -509,6 +510,9 @@ style_include_priority(const struct style *st, const char *include_path)
 		const struct include_category *ic = &st->include_categories[i];
 		int error;
 
+		/* Cope with absent or invalid pattern. */
+		if (!ic->has_regex)
+			continue;
 		error = regexec(&ic->regex, include_path, 0, NULL, 0);
 		if (error == 0)
 			return ic->priority;
@@ -1294,6 +1298,7 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 	    tk->tk_str, tk->tk_len);
 	/* Allow the pattern to be redefined. */
 	regfree(&ic->regex);
+	ic->has_regex = 0;
 	error = regcomp(&ic->regex, ic->pattern,
 	    REG_EXTENDED | REG_NOSUB | REG_ICASE);
 	if (error) {
@@ -1310,6 +1315,7 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 		lexer_error(lx, tk, __func__, __LINE__, "%s", errbuf);
 		return FAIL;
 	}
+	ic->has_regex = 1;
 	return GOOD;
 }
 
-- 
2.43.0


From 29acb3446640bd9dacf1c45707153f8f6fd3b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:53 +0000
Subject: [PATCH 21/21] fix: do not join or separate words while aligning line
 continuations

The text on both sides of a line continuation followed by something other than
a space at the beginning of the next line is only separated by the spaces in
front of the line continuation.
---
 cpp-align.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp-align.c b/cpp-align.c
index 89eafdf..2a0c98c 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -227,6 +227,7 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 		const char *ep, *sp;
 		size_t cpplen, linelen;
 		unsigned int w;
+		int adjacent;
 
 		concat = doc_alloc(DOC_CONCAT, dc);
 
@@ -235,6 +236,7 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 		if (ep == NULL)
 			break;
 
+		adjacent = nx < &str[len] && !isspace((unsigned char)nx[0]);
 		cpplen = (size_t)(ep - sp);
 		if (cpplen > 0) {
 			const char *literal;
@@ -250,10 +252,17 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 		    .st		= st,
 		    .op		= op,
 		});
-		if (nlines == 0 && alignment.skip_first_line)
+		if (adjacent && ep[0] == '\\') {
+			/* Must not separate what the continuation joins. */
+		} else if (nlines == 0 && alignment.skip_first_line) {
 			doc_literal(" ", concat);
-		else
+		} else {
 			ruler_insert(&rl, tk, concat, 1, w, 0);
+			/* Must not join what the spaces separate. */
+			if (adjacent && alignment.mode == Right &&
+			    w >= alignment.width)
+				doc_literal(" ", concat);
+		}
 		doc_literal("\\", concat);
 		doc_alloc(DOC_HARDLINE, concat);
 
-- 
2.43.0

