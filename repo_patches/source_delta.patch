From 6d7f16ab593de2c8448b593aabb4c682d8953fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 001/173] fix: give arithmetic operators of one level equal,
 left-associative precedence

---
 src/lang/parser.c | 54 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index 78bfe6c..902b0a7 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -937,47 +937,45 @@ parse_e6(struct parser *p, uint32_t *id)
 	return true;
 }
 
-static bool parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type);
-
-static bool
-parse_arith_upper(struct parser *p, uint32_t *id, enum arithmetic_type type)
-{
-	if (type == arith_div) {
-		return parse_e6(p, id);
-	} else {
-		return parse_arith(p, id, type + 1);
-	}
-}
-
 static bool
-parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type)
+parse_arith(struct parser *p, uint32_t *id, bool multiplicative)
 {
-	const struct {
-		enum token_type tok;
-	} op_map[] = {
-		[arith_add] = { tok_plus,   },
-		[arith_sub] = { tok_minus,  },
-		[arith_mod] = { tok_modulo, },
-		[arith_mul] = { tok_star,   },
-		[arith_div] = { tok_slash,  },
+	static const enum token_type op_map[] = {
+		[arith_add] = tok_plus,
+		[arith_sub] = tok_minus,
+		[arith_mod] = tok_modulo,
+		[arith_mul] = tok_star,
+		[arith_div] = tok_slash,
 	};
 
+	/* operators of the same level are left associative: + and - bind
+	 * weaker than %, * and / */
+	const enum arithmetic_type first = multiplicative ? arith_mod : arith_add,
+				   last = multiplicative ? arith_div : arith_sub;
+	enum arithmetic_type type;
+
 	struct node *n;
 
 	uint32_t l_id, r_id;
 
-	if (!(parse_arith_upper(p, &l_id, type))) {
+	if (!(multiplicative ? parse_e6(p, &l_id) : parse_arith(p, &l_id, true))) {
 		return false;
 	}
 
-	struct token *op_tok = NULL;
+	while (true) {
+		for (type = first; type <= last; ++type) {
+			if (accept(p, op_map[type])) {
+				break;
+			}
+		}
 
-	enum token_type tok = op_map[type].tok;
+		if (type > last) {
+			break;
+		}
 
-	while (accept(p, tok)) {
-		op_tok = p->last_last;
+		struct token *op_tok = p->last_last;
 
-		if (!(parse_arith_upper(p, &r_id, type))) {
+		if (!(multiplicative ? parse_e6(p, &r_id) : parse_arith(p, &r_id, true))) {
 			return false;
 		}
 
@@ -1004,7 +1002,7 @@ parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type)
 static bool
 parse_e5(struct parser *p, uint32_t *id)
 {
-	return parse_arith(p, id, arith_add);
+	return parse_arith(p, id, false);
 }
 
 static bool
-- 
2.43.0


From 3693894fd28357d909a3c40b9172ff99a7dffea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 002/173] fix: reject negative indices that reach before the
 start of the value

---
 src/lang/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 1480208..10eea6d 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -67,7 +67,7 @@ bounds_adjust(struct workspace *wk, uint32_t len, int64_t *i)
 		*i += len;
 	}
 
-	return *i < len;
+	return *i >= 0 && *i < len;
 }
 
 bool
-- 
2.43.0


From b3aade7deb2b8bd1b836a0de7a11d3a3ebf20ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 003/173] fix: clamp both ends of string.substring() to the
 string

---
 src/functions/string.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 45e1039..3cf0b42 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -446,11 +446,10 @@ func_string_substring(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 		end = s->len + end;
 	}
 
-	if (end < start) {
-		end = start;
-	}
+	start = MIN(MAX(0, start), (int64_t)s->len);
+	end = MIN(MAX(start, end), (int64_t)s->len);
 
-	*res = make_strn(wk, &s->s[MAX(0, start)], MIN(end - start, s->len));
+	*res = make_strn(wk, &s->s[start], end - start);
 	return true;
 }
 
-- 
2.43.0


From 6ec7e801838383903a5c244aa092990d7268f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 004/173] fix: string.replace() looped forever when replacing
 the empty string

---
 src/functions/string.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index 3cf0b42..fae1b98 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -472,6 +472,18 @@ func_string_replace(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	*res = make_str(wk, "");
 
 	uint32_t i;
+
+	if (!find->len) {
+		/* the empty string matches before every character and at the end */
+		for (i = 0; i < s->len; ++i) {
+			str_appn(wk, res, replace->s, replace->len);
+			str_appn(wk, res, &s->s[i], 1);
+		}
+
+		str_appn(wk, res, replace->s, replace->len);
+		return true;
+	}
+
 	for (i = 0; i < s->len; ++i) {
 		tmp = (struct str) {
 			.s = &s->s[i],
-- 
2.43.0


From 44cc66036175fceab8d480910c99ab694ad51f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 005/173] fix: string.split() never returned for an empty
 separator

---
 src/functions/string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index fae1b98..eeb869b 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -247,6 +247,11 @@ func_split(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	const struct str *split = ao[0].set ? get_str(wk, ao[0].val) : NULL,
 			 *ss = get_str(wk, rcvr);
 
+	if (split && !split->len) {
+		interp_error(wk, ao[0].node, "empty separator");
+		return false;
+	}
+
 	*res = str_split(wk, ss, split);
 	return true;
 }
-- 
2.43.0


From 97d67bc61dc67fb2f14caa28dd0c70a78b1cee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 006/173] fix: every string, also the empty one, contains the
 empty string

---
 src/functions/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index eeb869b..1b1bd75 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -527,7 +527,7 @@ func_string_contains(struct workspace *wk, obj rcvr, uint32_t args_node, obj *re
 
 	bool found = false;
 	uint32_t i;
-	for (i = 0; i < s->len; ++i) {
+	for (i = 0; i <= s->len; ++i) {
 		tmp = (struct str) {
 			.s = &s->s[i],
 			.len = s->len - i,
-- 
2.43.0


From e877ba9547b5da26a0df1bf3e9b22f74c8969ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 007/173] fix: string.split() treated nul characters as
 whitespace

---
 src/lang/string.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 1059736..0c38d3d 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -421,7 +421,6 @@ str_to_i(const struct str *ss, int64_t *res, bool strip)
 obj
 str_split(struct workspace *wk, const struct str *ss, const struct str *split)
 {
-	static const char *whitespace = "\n\r\t ";
 	obj res;
 	make_obj(wk, &res, obj_array);
 
@@ -442,12 +441,12 @@ str_split(struct workspace *wk, const struct str *ss, const struct str *split)
 			}
 		} else {
 			start = i;
-			while (start < ss->len && strchr(whitespace, ss->s[start])) {
+			while (start < ss->len && is_whitespace(ss->s[start])) {
 				++start;
 			}
 
 			uint32_t end = start;
-			while (end < ss->len && !strchr(whitespace, ss->s[end])) {
+			while (end < ss->len && !is_whitespace(ss->s[end])) {
 				++end;
 			}
 
-- 
2.43.0


From 4bf19153f5fce4fab56adcf0f7c239c6dcce412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 008/173] fix: strings inside containers were printed with
 bytes above 127 escaped

---
 src/lang/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 0c38d3d..4b9c84a 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -23,8 +23,8 @@ str_unescape(struct workspace *wk, struct sbuf *sb, const struct str *ss,
 	uint32_t i;
 
 	for (i = 0; i < ss->len; ++i) {
-		esc = ss->s[i] < 32;
-		if (!escape_whitespace && strchr("\t\n\r", ss->s[i])) {
+		esc = (uint8_t)ss->s[i] < 32;
+		if (!escape_whitespace && ss->s[i] && strchr("\t\n\r", ss->s[i])) {
 			esc = false;
 		}
 
-- 
2.43.0


From f45c1f7665dccfb187a09de84690000baf644c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 009/173] fix: report integer overflow as an error instead of
 undefined behaviour

---
 src/lang/interpreter.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 10eea6d..cfdf8f4 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -382,11 +382,41 @@ interp_u_minus(struct workspace *wk, struct node *n, obj *res)
 		return false;
 	}
 
+	int64_t num = get_obj_number(wk, l_id);
+	if (num == INT64_MIN) {
+		interp_error(wk, n->l, "integer overflow");
+		return false;
+	}
+
 	make_obj(wk, res, obj_number);
-	set_obj_number(wk, *res, -get_obj_number(wk, l_id));
+	set_obj_number(wk, *res, -num);
 	return true;
 }
 
+static bool
+arithmetic_overflows(enum arithmetic_type type, int64_t l, int64_t r)
+{
+	switch (type) {
+	case arith_add:
+		return r > 0 ? l > INT64_MAX - r : l < INT64_MIN - r;
+	case arith_sub:
+		return r > 0 ? l < INT64_MIN + r : l > INT64_MAX + r;
+	case arith_mul:
+		if (!l || !r) {
+			return false;
+		} else if (l > 0) {
+			return r > 0 ? l > INT64_MAX / r : r < INT64_MIN / l;
+		} else {
+			return r > 0 ? l < INT64_MIN / r : l < INT64_MAX / r;
+		}
+	case arith_div:
+	case arith_mod:
+		return l == INT64_MIN && r == -1;
+	default:
+		return false;
+	}
+}
+
 bool
 interp_arithmetic(struct workspace *wk, uint32_t err_node,
 	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
@@ -452,6 +482,11 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 		l = get_obj_number(wk, l_id);
 		r = get_obj_number(wk, r_id);
 
+		if (arithmetic_overflows(type, l, r)) {
+			interp_error(wk, err_node, "integer overflow");
+			return false;
+		}
+
 		switch (type) {
 		case arith_add:
 			num = l + r;
-- 
2.43.0


From eb14ca279e3b1fd55ebc2b6229d95b6e77f77df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 010/173] fix: range() looped forever when the step wrapped
 past the end

---
 src/functions/kernel.c | 2 +-
 src/lang/interpreter.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 4192eec..e14129e 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1910,7 +1910,7 @@ func_range(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	make_obj(wk, res, obj_array);
 
-	uint32_t i;
+	uint64_t i;
 	for (i = params.start; i < params.stop; i += params.step) {
 		obj num;
 		make_obj(wk, &num, obj_number);
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index cfdf8f4..24f525d 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1040,7 +1040,7 @@ interp_foreach(struct workspace *wk, struct node *n, obj *res)
 
 			++wk->loop_depth;
 			wk->loop_ctl = loop_norm;
-			uint32_t i;
+			uint64_t i;
 			bool break_out_of_loop = false;
 			ret = true;
 			for (i = range_params.start; i < range_params.stop; i += range_params.step) {
-- 
2.43.0


From b4623ad5e8637a5272f3901ad299fe0a2613442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 011/173] fix: foreach over a call whose callee is not a name
 crashed

---
 src/lang/interpreter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 24f525d..f2f0718 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1024,7 +1024,9 @@ interp_foreach(struct workspace *wk, struct node *n, obj *res)
 
 	struct node *stmt_node = get_node(wk->ast, n->r);
 	if (!(args->chflg & node_child_r) && stmt_node->type == node_function) {
-		if (strcmp(get_node(wk->ast, stmt_node->l)->dat.s, "range") == 0
+		struct node *func_node = get_node(wk->ast, stmt_node->l);
+		if (func_node->type == node_id
+		    && strcmp(func_node->dat.s, "range") == 0
 		    && !(stmt_node->chflg & node_child_d)) {
 			struct range_params range_params;
 			if (!func_range_common(wk, stmt_node->r, &range_params)) {
-- 
2.43.0


From 8ac9a3b8dfeb786f6228d9cbf1d0381c1972494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 012/173] fix: foreach with an empty body left the loop
 variable at its first value

---
 src/lang/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index f2f0718..125ff4a 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -972,7 +972,7 @@ interp_foreach_common(struct workspace *wk, struct interp_foreach_ctx *ctx)
 	}
 
 	if (get_node(wk->ast, ctx->block_node)->type == node_empty) {
-		return ir_done;
+		return ir_cont;
 	}
 
 	if (!wk->interp_node(wk, ctx->block_node, &block_result)) {
-- 
2.43.0


From debb2e750f76ac348e9923c4b2f8c95628c639a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 013/173] fix: an f-string with an @ that closes no identifier
 was split wrongly

---
 src/lang/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index d7ba6bb..15b3025 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -574,7 +574,7 @@ lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fs
 				}
 			}
 
-			if (lexer->src[lexer->i] == '@') {
+			if (lexer->src[lexer->i + i] == '@') {
 				match = true;
 			}
 		}
-- 
2.43.0


From 48e3f3e6ad74ede1d99dae9e8009b9d2adfef10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 014/173] fix: operators and methods applied to an f-string
 only saw its last part

---
 src/lang/lexer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 15b3025..37d816b 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -633,6 +633,12 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 		fstring = false;
 	}
 
+	if (fstring) {
+		/* an f-string expands to a sum, which must bind as one operand */
+		token->type = tok_lparen;
+		token = next_tok(lexer);
+	}
+
 	if (strncmp(&lexer->src[lexer->i], "'''", 3) == 0) {
 		multiline = true;
 		advance(lexer);
@@ -689,6 +695,11 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 		lexer->data_i = data_start;
 		copy_into_sdata(lexer, token, start, lexer->i);
 	}
+
+	if (fstring) {
+		next_tok(lexer)->type = tok_rparen;
+	}
+
 	return ret;
 }
 
-- 
2.43.0


From c3e4e9d5a7f39a089e76e0792c3348e6583aadf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 015/173] fix: octal escapes swallowed the digits 8 and 9

---
 src/lang/lexer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 37d816b..e4971d1 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -509,13 +509,14 @@ lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fs
 				break;
 			}
 			case '0': case '1': case '2': case '3': case '4':
-			case '5': case '6': case '7': case '8': case '9': {
+			case '5': case '6': case '7': {
 				char num[4] = { 0 };
 				uint32_t i;
 
 				for (i = 0; i < 3; ++i) {
 					num[i] = lexer->src[lexer->i + 1];
-					if (!is_digit(num[i])) {
+					if (num[i] < '0' || num[i] > '7') {
+						num[i] = 0;
 						break;
 					}
 					advance(lexer);
-- 
2.43.0


From 3643c4ce1482852ab83d7c49b2800f75aeb1b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 016/173] fix: numbers with a base prefix could contain
 whitespace, signs and more prefixes

---
 src/lang/lexer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index e4971d1..25d9c83 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -298,6 +298,15 @@ number(struct lexer *lexer, struct token *tok)
 		}
 	}
 
+	/* strtol by itself would also accept whitespace, a sign or a second
+	 * prefix here */
+	const char first = lexer->src[lexer->i];
+	if (!(base == 16 ? is_hex_digit(first) : '0' <= first && first < (char)('0' + base))
+	    || (base == 16 && first == '0' && (lexer->src[lexer->i + 1] | 0x20) == 'x')) {
+		lex_error(lexer, "invalid number");
+		return lex_fail;
+	}
+
 	char *endptr = NULL;
 
 	errno = 0;
-- 
2.43.0


From 880ff083ea1b30ba04ca67645c7d457cf54fdb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 017/173] fix: formatting adjacent tokens overflowed the token
 text buffer

---
 src/lang/lexer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 25d9c83..32a5edd 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -964,7 +964,8 @@ lexer_lex(struct tokens *toks, struct source_data *sdata, struct source *src,
 	arr_init(&toks->tok, 2048, sizeof(struct token));
 
 	// TODO: this could be done much more conservatively
-	sdata->data_len = src->len + 1;
+	/* when formatting, every token may be copied verbatim and terminated */
+	sdata->data_len = src->len * 2 + 1;
 	sdata->data = z_malloc(sdata->data_len);
 
 	bool ret = tokenize(&lexer);
-- 
2.43.0


From 7b97731374a8a0ec7fe08190053c5eed4b1686b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 018/173] fix: many consecutive line continuations overflowed
 the stack

---
 src/lang/lexer.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 32a5edd..281d3b1 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -716,7 +716,8 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 static enum lex_result
 lexer_tokenize_one(struct lexer *lexer)
 {
-	while (is_skipchar(lexer->src[lexer->i])) {
+	while (is_skipchar(lexer->src[lexer->i])
+	       || (lexer->src[lexer->i] == '\\' && lexer->src[lexer->i + 1] == '\n')) {
 		if (lexer->src[lexer->i] == '#') {
 			advance(lexer);
 
@@ -732,16 +733,13 @@ lexer_tokenize_one(struct lexer *lexer)
 				copy_into_sdata(lexer, comment, start, lexer->i);
 			}
 		} else {
+			if (lexer->src[lexer->i] == '\\') {
+				advance(lexer);
+			}
 			advance(lexer);
 		}
 	}
 
-	if (lexer->src[lexer->i] == '\\' && lexer->src[lexer->i + 1] == '\n') {
-		advance(lexer);
-		advance(lexer);
-		return lexer_tokenize_one(lexer);
-	}
-
 	struct token *token = next_tok(lexer);
 
 	if (lexer->src[lexer->i] == 'f' && lexer->src[lexer->i + 1] == '\'') {
-- 
2.43.0


From a389c3aad4663d0ca59ba4a55b398189a47fc813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 019/173] fix: += changed every other reference to the same
 array or dict

---
 include/lang/object.h  |  2 ++
 src/lang/analyze.c     |  2 +-
 src/lang/interpreter.c | 66 +++++++++++++++++++++++++++++++++++++++---
 3 files changed, 65 insertions(+), 5 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index 13c2b74..d161509 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -168,12 +168,14 @@ struct obj_array {
 	obj tail; // obj_array
 	uint32_t len;
 	bool have_next;
+	bool owned; // see set_owned in interpreter.c
 };
 
 enum obj_dict_flags {
 	obj_dict_flag_big = 1 << 0,
 	obj_dict_flag_int_key = 1 << 1,
 	obj_dict_flag_dont_expand = 1 << 2,
+	obj_dict_flag_owned = 1 << 3, // see set_owned in interpreter.c
 };
 
 struct obj_dict_elem {
diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 8156d02..ae5fac0 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1099,7 +1099,7 @@ analyze_arithmetic(struct workspace *wk, uint32_t err_node,
 	}
 
 	if (is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
-		return interp_arithmetic(wk, err_node, type, plusassign, nl, nr, res);
+		return interp_arithmetic(wk, err_node, type, false, nl, nr, res);
 	}
 
 	struct analyze_ctx ctx = { 0 };
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 125ff4a..7717382 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -124,12 +124,49 @@ get_local_variable(struct workspace *wk, const char *name, struct project *proj,
 	return false;
 }
 
+/*
+ * An array or dict that was made by += is owned: it can only be reached through
+ * the variable it was assigned to, so the next += may extend it in place.  It
+ * stops being owned when the variable is read, because what is read could be
+ * stored anywhere.
+ */
+static void
+set_owned(struct workspace *wk, obj o, bool owned)
+{
+	switch (get_obj_type(wk, o)) {
+	case obj_array:
+		get_obj_array(wk, o)->owned = owned;
+		break;
+	case obj_dict: {
+		struct obj_dict *d = get_obj_dict(wk, o);
+		d->flags = owned ? d->flags | obj_dict_flag_owned : d->flags & ~obj_dict_flag_owned;
+		break;
+	}
+	default:
+		break;
+	}
+}
+
+static bool
+is_owned(struct workspace *wk, obj o)
+{
+	switch (get_obj_type(wk, o)) {
+	case obj_array:
+		return get_obj_array(wk, o)->owned;
+	case obj_dict:
+		return get_obj_dict(wk, o)->flags & obj_dict_flag_owned;
+	default:
+		return false;
+	}
+}
+
 bool
 get_variable(struct workspace *wk, const char *name, obj *res, uint32_t proj_id)
 {
 	obj o, _scope;
 
 	if (get_local_variable(wk, name, arr_get(&wk->projects, proj_id), &o, &_scope)) {
+		set_owned(wk, o, false);
 		*res = o;
 		return true;
 	} else {
@@ -137,11 +174,19 @@ get_variable(struct workspace *wk, const char *name, obj *res, uint32_t proj_id)
 	}
 }
 
+static enum iteration_result
+scope_disown_iter(struct workspace *wk, void *_ctx, obj k, obj v)
+{
+	set_owned(wk, v, false);
+	return ir_cont;
+}
+
 static enum iteration_result
 scope_stack_dup_iter(struct workspace *wk, void *_ctx, obj v)
 {
 	obj *r = _ctx;
 	obj scope;
+	obj_dict_foreach(wk, v, NULL, scope_disown_iter);
 	obj_dict_dup(wk, v, &scope);
 	obj_array_push(wk, *r, scope);
 	return ir_cont;
@@ -424,11 +469,20 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 {
 	obj l_id, r_id;
 
-	if (!wk->interp_node(wk, nl, &l_id)
-	    || !wk->interp_node(wk, nr, &r_id)) {
+	if (!wk->interp_node(wk, nl, &l_id)) {
+		return false;
+	}
+
+	/* only extend in place if evaluating the right side does not read the
+	 * variable either */
+	set_owned(wk, l_id, plusassign);
+
+	if (!wk->interp_node(wk, nr, &r_id)) {
 		return false;
 	}
 
+	plusassign = plusassign && is_owned(wk, l_id);
+
 	if (l_id == disabler_id || r_id == disabler_id) {
 		*res = disabler_id;
 		return true;
@@ -615,11 +669,15 @@ interp_plusassign(struct workspace *wk, uint32_t n_id, obj *_)
 {
 	struct node *n = get_node(wk->ast, n_id);
 
-	obj rhs;
-	if (!interp_arithmetic(wk, n_id, arith_add, true, n->l, n->r, &rhs)) {
+	obj lhs, _scope, rhs;
+	bool owned = get_local_variable(wk, get_node(wk->ast, n->l)->dat.s, current_project(wk), &lhs, &_scope)
+		     && is_owned(wk, lhs);
+
+	if (!interp_arithmetic(wk, n_id, arith_add, owned, n->l, n->r, &rhs)) {
 		return false;
 	}
 
+	set_owned(wk, rhs, true);
 	wk->assign_variable(wk, get_node(wk->ast, n->l)->dat.s, rhs, 0, assign_reassign);
 	return true;
 }
-- 
2.43.0


From 1e58853a56ca47f542e2460599f3930efa585b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 020/173] fix: analyzing nested constant expressions took
 exponential time

---
 include/lang/interpreter.h |  5 +++++
 src/lang/analyze.c         | 11 ++++++-----
 src/lang/interpreter.c     | 26 ++++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/lang/interpreter.h b/include/lang/interpreter.h
index 7b797d9..18891cc 100644
--- a/include/lang/interpreter.h
+++ b/include/lang/interpreter.h
@@ -20,9 +20,14 @@ bool interp_node(struct workspace *wk, uint32_t n_id, obj *res);
 bool interp_arithmetic(struct workspace *wk, uint32_t err_node,
 	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
 	obj *res);
+bool interp_arithmetic_objs(struct workspace *wk, uint32_t err_node,
+	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
+	obj l_id, obj r_id, obj *res);
 bool interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj *res);
+bool interp_index_obj(struct workspace *wk, struct node *n, obj l_id, obj r_id, bool do_chain, obj *res);
 bool interp_stringify(struct workspace *wk, struct node *n, obj *res);
 bool interp_comparison(struct workspace *wk, struct node *n, obj *res);
+bool interp_comparison_objs(struct workspace *wk, struct node *n, obj obj_l_id, obj obj_r_id, obj *res);
 
 void interp_error(struct workspace *wk, uint32_t n_id, const char *fmt, ...)
 MUON_ATTR_FORMAT(printf, 3, 4);
diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index ae5fac0..b213aa5 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1009,7 +1009,7 @@ analyze_chained(struct workspace *wk, uint32_t n_id, obj l_id, obj *res)
 			}
 
 			if (is_pure_arithmetic_object(wk, l_id) && is_pure_arithmetic_object(wk, r)) {
-				ret &= interp_index(wk, n, l_id, false, &tmp);
+				ret &= interp_index_obj(wk, n, l_id, r, false, &tmp);
 			}
 		} else {
 			tmp = make_typeinfo(wk, tc_any, 0);
@@ -1098,8 +1098,8 @@ analyze_arithmetic(struct workspace *wk, uint32_t err_node,
 		ret = false;
 	}
 
-	if (is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
-		return interp_arithmetic(wk, err_node, type, false, nl, nr, res);
+	if (ret && is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
+		return interp_arithmetic_objs(wk, err_node, type, false, nl, nr, l, r, res);
 	}
 
 	struct analyze_ctx ctx = { 0 };
@@ -1237,6 +1237,7 @@ analyze_comparison(struct workspace *wk, struct node *n, obj *res)
 		ret = false;
 	}
 
+	bool evaluated = ret;
 	struct analyze_ctx ctx = { .comparison_type = n->subtype };
 	type_tag tc_lhs;
 
@@ -1271,8 +1272,8 @@ analyze_comparison(struct workspace *wk, struct node *n, obj *res)
 		ret = false;
 	}
 
-	if (is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
-		ret = interp_comparison(wk, n, res);
+	if (evaluated && is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
+		ret = interp_comparison_objs(wk, n, l, r, res);
 	}
 
 	if (!ret) {
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 7717382..0a7e2eb 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -311,12 +311,19 @@ bool
 interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj *res)
 {
 	obj r_id;
-	obj tmp = 0;
 
 	if (!wk->interp_node(wk, n->r, &r_id)) {
 		return false;
 	}
 
+	return interp_index_obj(wk, n, l_id, r_id, do_chain, res);
+}
+
+bool
+interp_index_obj(struct workspace *wk, struct node *n, obj l_id, obj r_id, bool do_chain, obj *res)
+{
+	obj tmp = 0;
+
 	type_tag t = get_obj_type(wk, l_id);
 
 	switch (t) {
@@ -483,6 +490,14 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 
 	plusassign = plusassign && is_owned(wk, l_id);
 
+	return interp_arithmetic_objs(wk, err_node, type, plusassign, nl, nr, l_id, r_id, res);
+}
+
+bool
+interp_arithmetic_objs(struct workspace *wk, uint32_t err_node,
+	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
+	obj l_id, obj r_id, obj *res)
+{
 	if (l_id == disabler_id || r_id == disabler_id) {
 		*res = disabler_id;
 		return true;
@@ -855,7 +870,6 @@ interp_andor(struct workspace *wk, struct node *n, obj *res)
 bool
 interp_comparison(struct workspace *wk, struct node *n, obj *res)
 {
-	bool b;
 	obj obj_l_id, obj_r_id;
 
 	if (!wk->interp_node(wk, n->l, &obj_l_id)) {
@@ -864,6 +878,14 @@ interp_comparison(struct workspace *wk, struct node *n, obj *res)
 		return false;
 	}
 
+	return interp_comparison_objs(wk, n, obj_l_id, obj_r_id, res);
+}
+
+bool
+interp_comparison_objs(struct workspace *wk, struct node *n, obj obj_l_id, obj obj_r_id, obj *res)
+{
+	bool b;
+
 	if (obj_l_id == disabler_id || obj_r_id == disabler_id) {
 		*res = disabler_id;
 		return true;
-- 
2.43.0


From 0bfef88aa6cf53d3dd63fdcba708a3c03b35521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 021/173] fix: calling a function in the arguments of another
 corrupted the outer call

---
 src/functions/common.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 884dbbd..33094fd 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -39,6 +39,7 @@
 #include "lang/typecheck.h"
 #include "log.h"
 #include "platform/filesystem.h"
+#include "platform/mem.h"
 #include "tracy.h"
 
 // When true, disable functions with the .fuzz_unsafe attribute set to true.
@@ -794,15 +795,13 @@ func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args
 		make_obj(wk, &args, obj_array);
 	}
 
-	static struct args_norm an[64];
-	assert(f->nargs + 1 < ARRAY_LEN(an));
-	static struct args_kw akw[128];
-	assert(f->nkwargs + 1 < ARRAY_LEN(akw));
+	// These belong to this call only, since evaluating its arguments can
+	// call other functions.
+	struct args_norm *an = z_calloc(f->nargs + 1, sizeof(struct args_norm));
+	struct args_kw *akw = z_calloc(f->nkwargs + 1, sizeof(struct args_kw));
 
 	// init and interp args
-	memset(an, 0, sizeof(struct args_norm) * (f->nargs + 1));
 	an[f->nargs].type = ARG_TYPE_NULL;
-	memset(akw, 0, sizeof(struct args_kw) * (f->nkwargs + 1));
 	akw[f->nkwargs].type = ARG_TYPE_NULL;
 
 	uint32_t pos_i = 0, kw_i = 0, arg_id = f->args_id;
@@ -833,13 +832,16 @@ func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args
 	struct analyze_function_opts old_opts = analyze_function_opts;
 	analyze_function_opts = (struct analyze_function_opts) { 0 };
 
-	if (!interp_args(wk, args_node, an, NULL, akw)) {
-		analyze_function_opts = old_opts;
-		return false;
-	}
+	bool ok = interp_args(wk, args_node, an, NULL, akw);
 
 	analyze_function_opts = old_opts;
 
+	if (!ok) {
+		z_free(an);
+		z_free(akw);
+		return false;
+	}
+
 	arg_id = f->args_id;
 	pos_i = kw_i = 0;
 	while (true) {
@@ -862,6 +864,9 @@ func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args
 		arg_id = arg->c;
 	}
 
+	z_free(an);
+	z_free(akw);
+
 	return func_obj_call(wk, f, args, res);
 }
 
-- 
2.43.0


From 65db1ff2b2687d0849f578651c7fb7074a1f365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 022/173] fix: functions of a module share the arrays and dicts
 they captured

---
 src/lang/interpreter.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 0a7e2eb..8cfded7 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -684,9 +684,15 @@ interp_plusassign(struct workspace *wk, uint32_t n_id, obj *_)
 {
 	struct node *n = get_node(wk->ast, n_id);
 
-	obj lhs, _scope, rhs;
-	bool owned = get_local_variable(wk, get_node(wk->ast, n->l)->dat.s, current_project(wk), &lhs, &_scope)
-		     && is_owned(wk, lhs);
+	obj lhs, scope, rhs;
+	bool owned = false;
+	if (get_local_variable(wk, get_node(wk->ast, n->l)->dat.s, current_project(wk), &lhs, &scope)) {
+		/* A function shares the arrays and dicts that it captured with
+		 * the other functions of its module. */
+		bool captured = wk->func_depth
+				&& scope != obj_array_get_tail(wk, current_project(wk)->scope_stack);
+		owned = captured || is_owned(wk, lhs);
+	}
 
 	if (!interp_arithmetic(wk, n_id, arith_add, owned, n->l, n->r, &rhs)) {
 		return false;
-- 
2.43.0


From b676770947829a5924f72147778c6b3fad54d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 023/173] fix: errors inside a function defined in a file
 crashed the error printer

---
 src/error.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index eac966c..8ca57ca 100644
--- a/src/error.c
+++ b/src/error.c
@@ -335,7 +335,13 @@ reopen_source(struct source *src, bool *destroy_source)
 		case source_reopen_type_none:
 			return;
 		case source_reopen_type_embedded:
-			src->src = embedded_get(src->label);
+			if (!(src->src = embedded_get(src->label))) {
+				// functions can also be defined in a file
+				if (fs_file_exists(src->label) && fs_read_entire_file(src->label, src)) {
+					*destroy_source = true;
+				}
+				return;
+			}
 			src->len = strlen(src->src);
 			break;
 		case source_reopen_type_file:
@@ -365,6 +371,8 @@ list_line_range(struct source *src, uint32_t lno, uint32_t list_amt, uint32_t co
 		);
 
 	bool destroy_source = false;
+	struct source reopened = *src;
+	src = &reopened;
 	reopen_source(src, &destroy_source);
 
 	for (i = lstart; i < lend; ++i) {
@@ -406,6 +414,8 @@ error_message(struct source *src, uint32_t line, uint32_t col, enum log_level lv
 	log_plain("%s\n", msg);
 
 	bool destroy_source = false;
+	struct source reopened = *src;
+	src = &reopened;
 	reopen_source(src, &destroy_source);
 
 	uint32_t line_pre_len, sol;
-- 
2.43.0


From 01d35f00990ad5a607476caf1980e899abcc166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 024/173] fix: endless recursion of functions overflowed the
 stack

---
 src/functions/common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/functions/common.c b/src/functions/common.c
index 33094fd..1fb17ee 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -867,6 +867,12 @@ func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args
 	z_free(an);
 	z_free(akw);
 
+	// every level uses a good part of the C stack
+	if (wk->func_depth >= 256) {
+		interp_error(wk, args_node, "maximum function call depth exceeded");
+		return false;
+	}
+
 	return func_obj_call(wk, f, args, res);
 }
 
-- 
2.43.0


From 1af973602a23f3e0dca9d84466fbbee1f988f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 025/173] fix: analyzing nested function calls took exponential
 time

---
 src/lang/analyze.c | 49 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index b213aa5..4c5316b 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -25,6 +25,7 @@
 #include "lang/typecheck.h"
 #include "lang/workspace.h"
 #include "log.h"
+#include "platform/init.h"
 #include "platform/path.h"
 #include "tracy.h"
 
@@ -57,6 +58,15 @@ struct assignment {
 
 struct bucket_arr assignments;
 
+/*
+ * Values of the arguments of the function call that is being analyzed, by node:
+ * all of them are analyzed first, even if the function stops at an earlier one,
+ * and analyzing them again when the function asks for them would double the
+ * work with every level of nested calls.
+ */
+static struct hash analyzed_args;
+#define ANALYZED_ARG_OK ((uint64_t)1 << 32)
+
 static bool
 analyzer_in_pure_codepath(void)
 {
@@ -618,7 +628,7 @@ analyze_all_function_arguments(struct workspace *wk, uint32_t n_id, uint32_t arg
 {
 	bool ret = true;
 	struct node *args = get_node(wk->ast, args_node);
-	bool had_kwargs = false;
+	bool had_kwargs = false, ok;
 	obj res;
 	uint32_t val_node;
 
@@ -638,10 +648,13 @@ analyze_all_function_arguments(struct workspace *wk, uint32_t n_id, uint32_t arg
 			val_node = args->l;
 		}
 
-		if (!wk->interp_node(wk, val_node, &res)) {
+		if (!(ok = wk->interp_node(wk, val_node, &res))) {
 			ret = false;
 		}
 
+		struct node *key = get_node(wk->ast, val_node);
+		hash_set(&analyzed_args, &key, (ok ? ANALYZED_ARG_OK : 0) | res);
+
 		if (args->chflg & node_child_c) {
 			args_node = args->c;
 			args = get_node(wk->ast, args_node);
@@ -653,6 +666,23 @@ analyze_all_function_arguments(struct workspace *wk, uint32_t n_id, uint32_t arg
 	return ret;
 }
 
+static void
+forget_analyzed_args(struct workspace *wk, uint32_t args_node)
+{
+	struct node *args = get_node(wk->ast, args_node);
+
+	while (args->type != node_empty) {
+		struct node *key = get_node(wk->ast, args->subtype == arg_kwarg ? args->r : args->l);
+		hash_unset(&analyzed_args, &key);
+
+		if (!(args->chflg & node_child_c)) {
+			break;
+		}
+
+		args = get_node(wk->ast, args->c);
+	}
+}
+
 static bool
 analyze_func_obj_immediate(struct workspace *wk, uint32_t n_id, obj func_obj)
 {
@@ -766,6 +796,8 @@ analyze_function_call(struct workspace *wk, uint32_t n_id, uint32_t args_node, c
 		ret = false;
 	}
 
+	forget_analyzed_args(wk, args_node);
+
 	if (subdir_func) {
 		if (!was_pure) {
 			interp_warning(wk, n_id, "unable to analyze subdir call");
@@ -918,6 +950,7 @@ analyze_func(struct workspace *wk, uint32_t n_id, bool chained, obj l_id, obj *r
 		ret = false;
 
 		analyze_all_function_arguments(wk, n_id, n->r);
+		forget_analyzed_args(wk, n->r);
 
 		tmp = make_typeinfo(wk, tc_any, 0);
 	} else if (fi) {
@@ -968,12 +1001,14 @@ analyze_chained(struct workspace *wk, uint32_t n_id, obj l_id, obj *res)
 			}
 		} else if (ctx.found) {
 			analyze_all_function_arguments(wk, n_id, n->c);
+			forget_analyzed_args(wk, n->c);
 
 			if (ctx.expected) {
 				tmp = make_typeinfo(wk, ctx.expected, 0);
 			}
 		} else if (!ctx.found) {
 			analyze_all_function_arguments(wk, n_id, n->c);
+			forget_analyzed_args(wk, n->c);
 
 			type_tag t = get_obj_type(wk, l_id);
 			bool rcvr_is_not_found_module = (t == obj_module && !get_obj_module(wk, l_id)->found)
@@ -1573,8 +1608,16 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 	bool ret = true;
 	*res = 0;
 
+	platform_check_stack();
+
 	struct node *n = get_node(wk->ast, n_id);
 	mark_node_visited(n);
+
+	uint64_t *analyzed_arg;
+	if ((analyzed_arg = hash_get(&analyzed_args, &n))) {
+		*res = (uint32_t)*analyzed_arg;
+		return *analyzed_arg & ANALYZED_ARG_OK;
+	}
 	/* L("analyzing node '%s'@%d", node_to_s(n), n_id); */
 
 	if (wk->loop_ctl || wk->returning) {
@@ -1979,6 +2022,7 @@ do_analyze(struct analyze_opts *opts)
 	workspace_init(&wk);
 
 	bucket_arr_init(&assignments, 512, sizeof(struct assignment));
+	hash_init(&analyzed_args, 64, sizeof(struct node *));
 	{ /* re-initialize the default scope */
 		obj default_scope, scope_group, scope;
 		obj_array_index(&wk, wk.default_scope, 0, &default_scope);
@@ -2128,6 +2172,7 @@ do_analyze(struct analyze_opts *opts)
 	}
 
 	bucket_arr_destroy(&assignments);
+	hash_destroy(&analyzed_args);
 	arr_destroy(&analyze_entrypoint_stack);
 	arr_destroy(&analyze_entrypoint_stacks);
 	workspace_destroy(&wk);
-- 
2.43.0


From e8784835542bc6944a58a627d9abf1c85b1dd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 026/173] fix: deeply nested input overflowed the stack

---
 include/platform/init.h     |  4 ++++
 src/lang/fmt.c              |  3 +++
 src/lang/interpreter.c      |  3 +++
 src/lang/object.c           |  9 +++++++++
 src/lang/parser.c           |  3 +++
 src/platform/posix/init.c   | 30 ++++++++++++++++++++++++++++++
 src/platform/windows/init.c | 18 ++++++++++++++++++
 7 files changed, 70 insertions(+)

diff --git a/include/platform/init.h b/include/platform/init.h
index bf84c7a..afea81d 100644
--- a/include/platform/init.h
+++ b/include/platform/init.h
@@ -8,4 +8,8 @@
 
 void platform_init(void);
 
+/* Exit with an error if the stack is nearly used up.  To be called by functions
+ * that recurse as deeply as their input is nested. */
+void platform_check_stack(void);
+
 #endif
diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index cfe3cfc..1bcffff 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -19,6 +19,7 @@
 #include "lang/string.h"
 #include "lang/typecheck.h"
 #include "log.h"
+#include "platform/init.h"
 #include "platform/mem.h"
 #include "platform/path.h"
 
@@ -768,6 +769,8 @@ fmt_and_or(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 static uint32_t
 fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 {
+	platform_check_stack();
+
 	struct fmt_stack fst = *fmt_setup_fst(pfst);
 
 	uint32_t len = 0;
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 8cfded7..214e211 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -26,6 +26,7 @@
 #include "lang/workspace.h"
 #include "log.h"
 #include "memmem.h"
+#include "platform/init.h"
 #include "platform/path.h"
 
 static void
@@ -1288,6 +1289,8 @@ interp_node(struct workspace *wk, uint32_t n_id, obj *res)
 	bool ret = false;
 	*res = 0;
 
+	platform_check_stack();
+
 	struct node *n = get_node(wk->ast, n_id);
 	n->chflg |= node_visited; // for analyzer
 
diff --git a/src/lang/object.c b/src/lang/object.c
index bad40a0..e80c500 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -20,6 +20,7 @@
 #include "lang/typecheck.h"
 #include "log.h"
 #include "options.h"
+#include "platform/init.h"
 #include "platform/mem.h"
 #include "tracy.h"
 
@@ -431,6 +432,8 @@ obj_equal_dict_iter(struct workspace *wk, void *_ctx, obj key, obj val)
 bool
 obj_equal(struct workspace *wk, obj left, obj right)
 {
+	platform_check_stack();
+
 	if (left == right) {
 		return true;
 	}
@@ -533,6 +536,8 @@ obj_array_foreach_flat_iter(struct workspace *wk, void *_ctx, obj val)
 {
 	struct obj_array_foreach_flat_ctx *ctx = _ctx;
 
+	platform_check_stack();
+
 	if (get_obj_type(wk, val) == obj_array) {
 		if (!obj_array_foreach(wk, val, ctx, obj_array_foreach_flat_iter)) {
 			return ir_err;
@@ -1511,6 +1516,8 @@ obj_clone_dict_iter(struct workspace *wk_src, void *_ctx, obj key, obj val)
 bool
 obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret)
 {
+	platform_check_stack();
+
 	if (val >= wk_src->objs.len) {
 		LOG_E("invalid object");
 		return false;
@@ -1780,6 +1787,8 @@ obj_to_s_str(struct workspace *wk, struct obj_to_s_ctx *ctx, obj s)
 static void
 obj_to_s_opts(struct workspace *wk, obj o, struct sbuf *sb, struct obj_to_s_opts *opts)
 {
+	platform_check_stack();
+
 	struct obj_to_s_ctx ctx = { .sb = sb, .opts = opts };
 	enum obj_type t = get_obj_type(wk, o);
 
diff --git a/src/lang/parser.c b/src/lang/parser.c
index 902b0a7..cd83954 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -19,6 +19,7 @@
 #include "lang/typecheck.h"
 #include "lang/workspace.h"
 #include "log.h"
+#include "platform/init.h"
 #include "tracy.h"
 
 const uint32_t arithmetic_type_count = 5;
@@ -189,6 +190,8 @@ get_node(struct ast *ast, uint32_t i)
 static struct node *
 make_node(struct parser *p, uint32_t *idx, enum node_type t)
 {
+	platform_check_stack();
+
 	*idx = arr_push(&p->ast->nodes, &(struct node){ .type = t });
 	struct node *n = arr_get(&p->ast->nodes, *idx);
 
diff --git a/src/platform/posix/init.c b/src/platform/posix/init.c
index 0f35547..5ca2e85 100644
--- a/src/platform/posix/init.c
+++ b/src/platform/posix/init.c
@@ -5,9 +5,39 @@
 
 #include "compat.h"
 
+#include <stdint.h>
+#include <sys/resource.h>
+
+#include "error.h"
 #include "platform/init.h"
 
+static struct {
+	uintptr_t base, max_used;
+} stack;
+
 void
 platform_init(void)
 {
+	char here;
+	struct rlimit lim;
+	rlim_t size = 8 * 1024 * 1024;
+
+	if (getrlimit(RLIMIT_STACK, &lim) == 0 && lim.rlim_cur != RLIM_INFINITY) {
+		size = lim.rlim_cur;
+	}
+
+	stack.base = (uintptr_t)&here;
+	stack.max_used = size / 4 * 3;
+}
+
+void
+platform_check_stack(void)
+{
+	char here;
+	uintptr_t cur = (uintptr_t)&here,
+		  used = cur > stack.base ? cur - stack.base : stack.base - cur;
+
+	if (stack.base && used > stack.max_used) {
+		error_unrecoverable("stack exhausted, the input is nested too deeply");
+	}
 }
diff --git a/src/platform/windows/init.c b/src/platform/windows/init.c
index e66acc7..9745f89 100644
--- a/src/platform/windows/init.c
+++ b/src/platform/windows/init.c
@@ -6,14 +6,32 @@
 #include "compat.h"
 
 #include <fcntl.h>
+#include <stdint.h>
 #include <stdio.h>
 
+#include "error.h"
 #include "platform/init.h"
 
+static uintptr_t stack_base;
+
 void
 platform_init(void)
 {
 	setmode(fileno(stdin), O_BINARY);
 	setmode(fileno(stdout), O_BINARY);
 	setmode(fileno(stderr), O_BINARY);
+
+	char here;
+	stack_base = (uintptr_t)&here;
+}
+
+void
+platform_check_stack(void)
+{
+	char here;
+
+	// the default stack size is 1M
+	if (stack_base && stack_base - (uintptr_t)&here > 768 * 1024) {
+		error_unrecoverable("stack exhausted, the input is nested too deeply");
+	}
 }
-- 
2.43.0


From 8b27dbb8ee4d510fa6ac90aa6efe729bca8632e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 027/173] fix: analyzing and/or with an invalid left side
 aborted

---
 src/lang/analyze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 4c5316b..bd1073f 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1210,7 +1210,7 @@ analyze_andor(struct workspace *wk, struct node *n, obj *res)
 		ret = false;
 	}
 
-	if (is_pure_arithmetic_object(wk, l)) {
+	if (ret && is_pure_arithmetic_object(wk, l)) {
 		bool cond = get_obj_bool(wk, l);
 
 		if (n->type == node_and && !cond) {
-- 
2.43.0


From 4e522b5a8b8d5ad45e8311dc518b69db3ac6f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 028/173] fix: analyzing a function defined inside a branch or
 loop aborted

---
 src/lang/analyze.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index bd1073f..78904f8 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1843,7 +1843,13 @@ analyze_scope_stack_scope_dup_iter(struct workspace *wk, void *_ctx, obj v)
 {
 	obj *g = _ctx;
 	obj scope;
-	obj_dict_dup(wk, v, &scope);
+	if (get_obj_type(wk, v) == obj_array) {
+		// the branches of an enclosing if or foreach
+		make_obj(wk, &scope, obj_array);
+		obj_array_foreach(wk, v, &scope, analyze_scope_stack_scope_dup_iter);
+	} else {
+		obj_dict_dup(wk, v, &scope);
+	}
 	obj_array_push(wk, *g, scope);
 	return ir_cont;
 }
-- 
2.43.0


From 2b40f8464fcb6929509bd8ebb72a32b9644ee839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 029/173] fix: an empty index aborted the parser

---
 src/lang/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index cd83954..988f6a2 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -590,7 +590,8 @@ parse_index_call(struct parser *p, uint32_t *id, uint32_t l_id, bool have_l)
 	}
 
 	if (get_node(p->ast, r_id)->type == node_empty) {
-		UNREACHABLE;
+		parse_error(p, NULL, "missing index");
+		return false;
 	}
 
 	if (!expect(p, tok_rbrack)) {
-- 
2.43.0


From 8742e2cd932b34917076ee0972813b4cff1a35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 030/173] fix: replaying diagnostics used freed memory

---
 src/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 8ca57ca..ab22e2a 100644
--- a/src/error.c
+++ b/src/error.c
@@ -166,8 +166,8 @@ error_diagnostic_store_replay(enum error_diagnostic_store_replay_opts opts, bool
 		tail = error_diagnostic_store.messages.len;
 
 		uint32_t initial_len = error_diagnostic_store.messages.len;
-		msg = arr_get(&error_diagnostic_store.messages, 0);
-		arr_push(&error_diagnostic_store.messages, msg);
+		tmp = *(struct error_diagnostic_message *)arr_get(&error_diagnostic_store.messages, 0);
+		arr_push(&error_diagnostic_store.messages, &tmp);
 		for (i = 1; i < initial_len; ++i) {
 			prev_msg = arr_get(&error_diagnostic_store.messages, i - 1);
 			msg = arr_get(&error_diagnostic_store.messages, i);
-- 
2.43.0


From 0b13abf6bb64f38fe4196faba1f8b39aecb6465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 031/173] fix: analyzing project functions in an internal file
 aborted

---
 src/lang/analyze.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 78904f8..ad40f3b 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -25,6 +25,7 @@
 #include "lang/typecheck.h"
 #include "lang/workspace.h"
 #include "log.h"
+#include "options.h"
 #include "platform/init.h"
 #include "platform/path.h"
 #include "tracy.h"
@@ -2075,6 +2076,9 @@ do_analyze(struct analyze_opts *opts)
 	if (opts->internal_file) {
 		uint32_t proj_id;
 		make_project(&wk, &proj_id, "dummy", wk.source_root, wk.build_root);
+		if (!setup_project_options(&wk, NULL)) {
+			UNREACHABLE;
+		}
 
 		struct assignment *a = scope_assign(&wk, "argv", make_typeinfo(&wk, tc_array, 0), 0, assign_local);
 		a->default_var = true;
-- 
2.43.0


From 55da23090b2bc66bb9f70d5ee9aba9f6a59c28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 032/173] fix: analyzing a call of a non-function value aborted

---
 src/lang/typecheck.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lang/typecheck.c b/src/lang/typecheck.c
index 21b4310..ec98fa9 100644
--- a/src/lang/typecheck.c
+++ b/src/lang/typecheck.c
@@ -261,10 +261,6 @@ typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, typ
 			return true;
 		}
 
-		if (!got_type && type == tc_func) {
-			assert(false);
-		}
-
 		type |= tc_disabler; // always allow disabler type
 		type &= ~(obj_typechecking_type_tag | TYPE_TAG_ALLOW_VOID);
 
-- 
2.43.0


From 1164597bca170d2f7023f7fa5d547369ced855d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 033/173] fix: invalid function declarations aborted when
 called

---
 src/lang/interpreter.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 214e211..95a2c61 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1240,9 +1240,23 @@ interp_func_def(struct workspace *wk, struct node *n, obj *res)
 		if (arg->subtype == arg_normal) {
 			if (f->nkwargs) {
 				interp_error(wk, arg_id, "non-kwarg after kwargs");
+				return false;
+			}
+
+			if ((arg->dat.type & TYPE_TAG_GLOB) && (arg->chflg & node_child_c)) {
+				struct node *next = get_node(wk->ast, arg->c);
+				if (next->type == node_argument && next->subtype == arg_normal) {
+					interp_error(wk, arg_id, "glob arguments must come after all other positional arguments");
+					return false;
+				}
 			}
 			++f->nargs;
 		} else if (arg->subtype == arg_kwarg) {
+			if (arg->dat.type & TYPE_TAG_GLOB) {
+				interp_error(wk, arg_id, "keyword arguments cannot be glob arguments");
+				return false;
+			}
+
 			if (!f->nkwargs) {
 				make_obj(wk, &f->kwarg_defaults, obj_array);
 			}
-- 
2.43.0


From 588838e903325339ac090b76d875c77d09917785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 034/173] fix: analyzing foreach over a disabler aborted

---
 src/lang/analyze.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index ad40f3b..dba5914 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1474,7 +1474,15 @@ analyze_foreach(struct workspace *wk, uint32_t n_id, obj *res)
 	if (t == obj_typeinfo) {
 		t = get_obj_typeinfo(wk, iterable)->type & (tc_array | tc_dict);
 	} else {
-		t = obj_type_to_tc_type(t);
+		t = obj_type_to_tc_type(t) & (tc_array | tc_dict);
+	}
+
+	if (!t) {
+		// typecheck() lets disablers through, but they can't be iterated
+		interp_error(wk, n->r, "%s is not iterable", obj_type_to_s(obj_disabler));
+		ret = false;
+		iterable = make_typeinfo(wk, tc_array | tc_dict, 0);
+		t = tc_array | tc_dict;
 	}
 
 	bool both = t == (tc_array | tc_dict);
-- 
2.43.0


From 124fba38533b6c2fa60777bbacae0d1a27d8139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 035/173] fix: a disabler as kwargs aborted

---
 src/functions/common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 1fb17ee..cf7f408 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -614,7 +614,10 @@ process_kwarg:
 					.keyword_args = keyword_args
 				};
 
-				if (get_obj_type(wk, val) == obj_typeinfo) {
+				if (get_obj_type(wk, val) == obj_disabler) {
+					disabler_among_args = true;
+					return false;
+				} else if (get_obj_type(wk, val) == obj_typeinfo) {
 					got_dynamic_kwargs_typeinfo = true;
 				} else {
 					if (!obj_dict_foreach(wk, val, &ctx, process_kwarg_dict_iter)) {
-- 
2.43.0


From 4a84bcb26b90134a8ec9b6057836bd41ea05ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 036/173] fix: typechecking the elements of a list with a
 partly known type aborted

---
 src/lang/typecheck.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lang/typecheck.c b/src/lang/typecheck.c
index ec98fa9..8c5642d 100644
--- a/src/lang/typecheck.c
+++ b/src/lang/typecheck.c
@@ -236,7 +236,10 @@ typecheck_nested_type_arr_iter(struct workspace *wk, void *_ctx, obj v)
 {
 	struct typecheck_nested_type_ctx *ctx = _ctx;
 
-	if (!typecheck_complex_type(wk, v, obj_type_to_tc_type(get_obj_type(wk, v)), ctx->type)) {
+	enum obj_type t = get_obj_type(wk, v);
+	type_tag got_type = t == obj_typeinfo ? get_obj_typeinfo(wk, v)->type : obj_type_to_tc_type(t);
+
+	if (!typecheck_complex_type(wk, v, got_type, ctx->type)) {
 		return ir_err;
 	}
 
@@ -286,9 +289,10 @@ typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, typ
 			return false;
 		}
 
-		if (get_obj_type(wk, got_obj) == obj_typeinfo) {
+		enum obj_type t = get_obj_type(wk, got_obj);
+		if (t == obj_typeinfo || t == obj_disabler) {
 			// currently typeinfo types don't contain nested type
-			// information
+			// information, and a disabler is accepted for any type
 			return true;
 		}
 
-- 
2.43.0


From 73699ec89cd7f616f15496820152a5fc49987f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 037/173] fix: find_program with an empty name aborted

---
 src/platform/posix/filesystem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 1e3c995..1ab9716 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -363,12 +363,15 @@ fs_chmod(const char *path, uint32_t mode)
 bool
 fs_find_cmd(struct workspace *wk, struct sbuf *buf, const char *cmd)
 {
-	assert(*cmd);
 	uint32_t len;
 	const char *env_path, *base_start;
 
 	sbuf_clear(buf);
 
+	if (!*cmd) {
+		return false;
+	}
+
 	if (!path_is_basename(cmd)) {
 		path_make_absolute(wk, buf, cmd);
 
-- 
2.43.0


From 4d4d9ace6060eae53937140216a2969a13b20480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 038/173] fix: analyzing foreach over a disabler aborted
 (follow-up)

---
 src/lang/analyze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index dba5914..b19d8ae 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1477,7 +1477,7 @@ analyze_foreach(struct workspace *wk, uint32_t n_id, obj *res)
 		t = obj_type_to_tc_type(t) & (tc_array | tc_dict);
 	}
 
-	if (!t) {
+	if (!(t & ~obj_typechecking_type_tag)) {
 		// typecheck() lets disablers through, but they can't be iterated
 		interp_error(wk, n->r, "%s is not iterable", obj_type_to_s(obj_disabler));
 		ret = false;
-- 
2.43.0


From 5df6ac3988c3ab772602005b2092c3a6efad9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 039/173] fix: a disabler in place of a string, list or dict
 element aborted

---
 src/functions/common.c | 2 +-
 src/lang/typecheck.c   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index cf7f408..fa8bc23 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -769,7 +769,7 @@ func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 	wk->returning = false;
 	wk->returned = 0;
 
-	if (ret && !typecheck_custom(wk, wk->return_node, *res, f->return_type,
+	if (ret && *res != disabler_id && !typecheck_custom(wk, wk->return_node, *res, f->return_type,
 		"function returned invalid type, expected %s, got %s")) {
 		ret = false;
 	}
diff --git a/src/lang/typecheck.c b/src/lang/typecheck.c
index 8c5642d..a1c02f6 100644
--- a/src/lang/typecheck.c
+++ b/src/lang/typecheck.c
@@ -264,7 +264,10 @@ typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, typ
 			return true;
 		}
 
-		type |= tc_disabler; // always allow disabler type
+		if (got_obj != disabler_id) {
+			// always allow disabler among the possible types
+			type |= tc_disabler;
+		}
 		type &= ~(obj_typechecking_type_tag | TYPE_TAG_ALLOW_VOID);
 
 		assert(!(got_type & TYPE_TAG_MASK));
@@ -292,7 +295,7 @@ typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, typ
 		enum obj_type t = get_obj_type(wk, got_obj);
 		if (t == obj_typeinfo || t == obj_disabler) {
 			// currently typeinfo types don't contain nested type
-			// information, and a disabler is accepted for any type
+			// information, neither does a disabler
 			return true;
 		}
 
-- 
2.43.0


From e01df2e65a9c4a8daa1bb36eb731ce2575d01983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 040/173] fix: an install, dist or postconf script without a
 command aborted

---
 src/functions/meson.c        | 21 ++++++++++++++++++---
 src/platform/posix/run_cmd.c |  5 ++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/functions/meson.c b/src/functions/meson.c
index 7fcc3cd..45ba796 100644
--- a/src/functions/meson.c
+++ b/src/functions/meson.c
@@ -401,6 +401,21 @@ cont:
 	return ir_cont;
 }
 
+static bool
+process_script_commandline(struct workspace *wk, struct process_script_commandline_ctx *ctx, obj args)
+{
+	if (!obj_array_foreach_flat(wk, args, ctx, process_script_commandline_iter)) {
+		return false;
+	}
+
+	if (!get_obj_array(wk, ctx->arr)->len) {
+		interp_error(wk, ctx->node, "missing script");
+		return false;
+	}
+
+	return true;
+}
+
 static bool
 func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 {
@@ -428,7 +443,7 @@ func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, o
 	};
 	make_obj(wk, &ctx.arr, obj_array);
 
-	if (!obj_array_foreach_flat(wk, an[0].val, &ctx, process_script_commandline_iter)) {
+	if (!process_script_commandline(wk, &ctx, an[0].val)) {
 		return false;
 	}
 
@@ -458,7 +473,7 @@ func_meson_add_postconf_script(struct workspace *wk, obj _, uint32_t args_node,
 	};
 	make_obj(wk, &ctx.arr, obj_array);
 
-	if (!obj_array_foreach_flat(wk, an[0].val, &ctx, process_script_commandline_iter)) {
+	if (!process_script_commandline(wk, &ctx, an[0].val)) {
 		return false;
 	}
 
@@ -481,7 +496,7 @@ func_meson_add_dist_script(struct workspace *wk, obj _, uint32_t args_node, obj
 	};
 	make_obj(wk, &ctx.arr, obj_array);
 
-	if (!obj_array_foreach_flat(wk, an[0].val, &ctx, process_script_commandline_iter)) {
+	if (!process_script_commandline(wk, &ctx, an[0].val)) {
 		return false;
 	}
 
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index 195a63e..f57cf5e 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -356,7 +356,10 @@ build_argv(struct run_cmd_ctx *ctx, struct source *src,
 		}
 	}
 
-	assert(*argv0 && "argv0 cannot be empty");
+	if (!*argv0) {
+		ctx->err_msg = "empty command";
+		return false;
+	}
 
 	sbuf_clear(cmd);
 	sbuf_pushs(NULL, cmd, argv0);
-- 
2.43.0


From e63a1e7ced8a30c4fbde0562779283230ab245fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 041/173] fix: string.strip() kept carriage returns, form feeds
 and vertical tabs

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 4b9c84a..cd57faf 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -482,7 +482,7 @@ str_has_chr(char c, const struct str *ss)
 obj
 str_strip(struct workspace *wk, const struct str *ss, const struct str *strip)
 {
-	const struct str *defstrip = &WKSTR(" \n\t");
+	const struct str *defstrip = &WKSTR(" \n\t\r\f\v");
 
 	if (!strip) {
 		strip = defstrip;
-- 
2.43.0


From c484672370e652051d5a6ff67465585e08c9eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 042/173] fix: a function calling others in the container it
 returns aborted

---
 src/lang/analyze.c     | 6 +++++-
 src/lang/interpreter.c | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index b19d8ae..9ade04e 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1676,7 +1676,11 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 		}
 		break;
 	case node_return:
-		ret = wk->interp_node(wk, n->l, &wk->returned);
+		{
+			obj returned = 0;
+			ret = wk->interp_node(wk, n->l, &returned);
+			wk->returned = returned;
+		}
 		wk->return_node = n_id;
 
 		if (ret && analyzer.fp) {
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 95a2c61..3d5f131 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1407,11 +1407,16 @@ interp_block:
 		wk->loop_ctl = loop_breaking;
 		ret = true;
 		break;
-	case node_return:
-		ret = wk->interp_node(wk, n->l, &wk->returned);
+	case node_return: {
+		// functions called while evaluating the returned expression set
+		// wk->returned too
+		obj returned = 0;
+		ret = wk->interp_node(wk, n->l, &returned);
+		wk->returned = returned;
 		wk->return_node = n_id;
 		wk->returning = true;
 		break;
+	}
 
 	/* functions */
 	case node_function:
-- 
2.43.0


From 8e96918d0f7c551e67aa40d4aa94c91d81521e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:31 +0000
Subject: [PATCH 043/173] fix: a not after an operand was silently dropped

---
 src/lang/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index 988f6a2..8760928 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -1056,7 +1056,11 @@ parse_e4(struct parser *p, uint32_t *id)
 		}
 	}
 
-	if (accept(p, tok_not) && accept(p, tok_in)) {
+	if (accept(p, tok_not)) {
+		if (!expect(p, tok_in)) {
+			return false;
+		}
+
 		return make_comparison_node(p, id, l_id, comp_not_in);
 	}
 
-- 
2.43.0


From 3150e6b5d517c35e301514ab4d130fe166b57d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 044/173] fix: string.to_int() of empty and too large numbers,
 split() at form feeds

---
 src/lang/string.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index cd57faf..29b5545 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -388,7 +389,7 @@ str_join(struct workspace *wk, obj s1, obj s2)
 bool
 is_whitespace(char c)
 {
-	return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v';
 }
 
 bool
@@ -401,9 +402,16 @@ str_to_i(const struct str *ss, int64_t *res, bool strip)
 		while (is_whitespace(*start)) {
 			++start;
 		}
+	} else if (is_whitespace(*start)) {
+		return false;
 	}
 
-	*res = strtol(start, &endptr, 10);
+	errno = 0;
+	*res = strtoll(start, &endptr, 10);
+
+	if (endptr == start || errno == ERANGE) {
+		return false;
+	}
 
 	if (strip) {
 		while (is_whitespace(*endptr)) {
-- 
2.43.0


From 1c0c18ee0f144c3385f2ba647a13fd7508955c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 045/173] fix: string.format() replaced @-1@ and @+0@

---
 src/functions/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 1b1bd75..1f7b9ff 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -177,7 +177,7 @@ func_format_cb(struct workspace *wk, uint32_t node, void *_ctx, const struct str
 	struct func_format_ctx *ctx = _ctx;
 	int64_t i;
 
-	if (!str_to_i(key, &i, false)) {
+	if (*key->s == '-' || *key->s == '+' || !str_to_i(key, &i, false)) {
 		return format_cb_skip;
 	}
 
-- 
2.43.0


From 815e64a70fa5207160d9bcd9cdd0d098eb0c15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 046/173] fix: separators at the end of a version changed its
 order

---
 src/rpmvercmp.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rpmvercmp.c b/src/rpmvercmp.c
index 185a167..e82386e 100644
--- a/src/rpmvercmp.c
+++ b/src/rpmvercmp.c
@@ -41,10 +41,10 @@ rpmvercmp(const struct str *a, const struct str *b)
 
 	/* loop through each version segment of str1 and str2 and compare them */
 	while (ai < a->len && bi < b->len) {
-		while (ai < a->len && !isalnum((int)a->s[ai])) {
+		while (ai < a->len && !isalnum((unsigned char)a->s[ai])) {
 			++ai;
 		}
-		while (bi < b->len && !isalnum((int)b->s[bi])) {
+		while (bi < b->len && !isalnum((unsigned char)b->s[bi])) {
 			++bi;
 		}
 
@@ -59,19 +59,19 @@ rpmvercmp(const struct str *a, const struct str *b)
 		/* grab first completely alpha or completely numeric segment */
 		/* leave one and two pointing to the start of the alpha or numeric */
 		/* segment and walk ptr1 and ptr2 to end of segment */
-		if (isdigit((int)a->s[ap])) {
-			while (ap < a->len && isdigit((int)a->s[ap])) {
+		if (isdigit((unsigned char)a->s[ap])) {
+			while (ap < a->len && isdigit((unsigned char)a->s[ap])) {
 				++ap;
 			}
-			while (bp < b->len && isdigit((int)b->s[bp])) {
+			while (bp < b->len && isdigit((unsigned char)b->s[bp])) {
 				++bp;
 			}
 			isnum = true;
 		} else {
-			while (ap < a->len && isalpha((int)a->s[ap])) {
+			while (ap < a->len && isalpha((unsigned char)a->s[ap])) {
 				++ap;
 			}
-			while (bp < b->len && isalpha((int)b->s[bp])) {
+			while (bp < b->len && isalpha((unsigned char)b->s[bp])) {
 				++bp;
 			}
 			isnum = false;
@@ -136,6 +136,14 @@ rpmvercmp(const struct str *a, const struct str *b)
 		bi = bp;
 	}
 
+	/* separators after the last segment are not part of the version */
+	while (ai < a->len && !isalnum((unsigned char)a->s[ai])) {
+		++ai;
+	}
+	while (bi < b->len && !isalnum((unsigned char)b->s[bi])) {
+		++bi;
+	}
+
 	/* this catches the case where all numeric and alpha segments have */
 	/* compared identically but the segment separating characters were */
 	/* different */
-- 
2.43.0


From bc7f913fd5caccbcfbee80c2d4b992b22efa9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:07 +0000
Subject: [PATCH 047/173] fix: delete(0) on an array of two elements broke the
 next append

---
 src/lang/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/object.c b/src/lang/object.c
index e80c500..0fb54ad 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -843,7 +843,7 @@ obj_array_del(struct workspace *wk, obj arr, int64_t i)
 		if (head->have_next) {
 			next = get_obj_array(wk, head->next);
 			next->len = head->len - 1;
-			next->tail = head->tail;
+			next->tail = head->tail == head->next ? arr : head->tail;
 			*head = *next;
 		} else {
 			*head = (struct obj_array) { 0 };
-- 
2.43.0


From fc12b61a9abc2c898f030d7f4f3de24c85f58fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:16 +0000
Subject: [PATCH 048/173] fix: endless loop hashing keys of 64k and more
 characters

---
 src/datastructures/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/hash.c b/src/datastructures/hash.c
index 02ba635..77390c0 100644
--- a/src/datastructures/hash.c
+++ b/src/datastructures/hash.c
@@ -32,7 +32,7 @@ fnv_1a_64_str(const struct hash *hash, const void *_key)
 {
 	const struct strkey *key = _key;
 	uint64_t h = 14695981039346656037u;
-	uint16_t i;
+	uint64_t i;
 
 	for (i = 0; i < key->len; i++) {
 		h ^= key->str[i];
@@ -111,7 +111,7 @@ static bool
 hash_keycmp_strcmp(const struct hash *_h, const void *_a, const void *_b)
 {
 	const struct strkey *a = _a, *b = _b;
-	return a->len == b->len ? strncmp(a->str, b->str, a->len) == 0 : false;
+	return a->len == b->len ? memcmp(a->str, b->str, a->len) == 0 : false;
 }
 
 void
-- 
2.43.0


From b20426b70711034706b51db3f8578f0a7e6e2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:54 +0000
Subject: [PATCH 049/173] fix: crash and repeated keys iterating over a large
 dict after delete()

---
 include/datastructures/hash.h |  1 +
 src/datastructures/hash.c     | 13 +++++++++++++
 src/lang/object.c             | 11 +++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/hash.h b/include/datastructures/hash.h
index 51df4a2..f314f46 100644
--- a/include/datastructures/hash.h
+++ b/include/datastructures/hash.h
@@ -31,6 +31,7 @@ void hash_init_str(struct hash *h, size_t cap);
 void hash_destroy(struct hash *h);
 
 uint64_t *hash_get(const struct hash *h, const void *key);
+uint64_t *hash_get_keyi(const struct hash *h, uint64_t keyi);
 uint64_t *hash_get_strn(const struct hash *h, const char *str, uint64_t len);
 void hash_set(struct hash *h, const void *key, uint64_t val);
 void hash_set_strn(struct hash *h, const char *key, uint64_t len, uint64_t val);
diff --git a/src/datastructures/hash.c b/src/datastructures/hash.c
index 77390c0..3bde4b6 100644
--- a/src/datastructures/hash.c
+++ b/src/datastructures/hash.c
@@ -266,6 +266,19 @@ hash_get(const struct hash *h, const void *key)
 	return k_full(*meta) ? &he->val : NULL;
 }
 
+/* the value of the key with index keyi of h->keys, NULL if it was unset */
+uint64_t *
+hash_get_keyi(const struct hash *h, uint64_t keyi)
+{
+	struct hash_elem *he;
+	uint64_t hv;
+	uint8_t *meta;
+
+	probe(h, arr_get(&h->keys, keyi), &he, &meta, &hv);
+
+	return k_full(*meta) && he->keyi == keyi ? &he->val : NULL;
+}
+
 uint64_t *
 hash_get_strn(const struct hash *h, const char *str, uint64_t len)
 {
diff --git a/src/lang/object.c b/src/lang/object.c
index 0fb54ad..aecde40 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1061,8 +1061,11 @@ obj_dict_foreach(struct workspace *wk, obj dict, void *ctx, obj_dict_iterator cb
 		uint32_t i;
 		struct hash *h = bucket_arr_get(&wk->dict_hashes, d->data);
 		for (i = 0; i < h->keys.len; ++i) {
-			void *_key = arr_get(&h->keys, i);
-			uint64_t *_val = hash_get(h, _key);
+			uint64_t *_val = hash_get_keyi(h, i);
+			if (!_val) {
+				continue;
+			}
+
 			obj key = *_val >> 32;
 			obj val = *_val & 0xffffffff;
 
@@ -1359,6 +1362,10 @@ _obj_dict_del(struct workspace *wk, obj dict,
 			hash_unset_strn(h, key->string.s, key->string.len);
 		}
 
+		d->len = h->len;
+		if (!d->len) {
+			d->flags &= ~obj_dict_flag_big;
+		}
 		return;
 	}
 
-- 
2.43.0


From d328ce2f9483e11a9fd3bbab7259955dcff434a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 050/173] fix: crash on an object file whose name has no
 extension

---
 src/functions/kernel/build_target.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 3d83372..dd0f47c 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -112,6 +112,9 @@ determine_linker_from_objects_iter(struct workspace *wk, void *_ctx, obj val)
 	SBUF(path);
 	path_basename(wk, &path, o->s);
 	const char *first_dot = strrchr(path.buf, '.');
+	if (!first_dot) {
+		return ir_cont;
+	}
 	path.len = first_dot - path.buf;
 	path.buf[path.len] = 0;
 
-- 
2.43.0


From 7dd10535403502137c737847b162cef8dd796de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 051/173] fix: pie keyword read from the wrong object

---
 src/functions/kernel/build_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index dd0f47c..5b9d635 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -527,7 +527,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 			bool pie = false;
 
 			if (akw[bt_kw_pie].set) {
-				pie = get_obj_bool(wk, akw[bt_kw_pie].set);
+				pie = get_obj_bool(wk, akw[bt_kw_pie].val);
 
 				if (pie && (tgt->type & tgt_executable) != tgt_executable) {
 					interp_error(wk, akw[bt_kw_pie].node, "pie cannot be set for non-executables");
-- 
2.43.0


From 3536204f34fbf1828685959c3bae3af14b056911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 052/173] fix: failed assertion on an empty install_mode

---
 src/install.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/install.c b/src/install.c
index c3eddde..477ec54 100644
--- a/src/install.c
+++ b/src/install.c
@@ -88,7 +88,7 @@ push_install_target(struct workspace *wk, obj src, obj dest, obj mode)
 	tgt->src = src;
 
 	tgt->has_perm = false;
-	if (mode) {
+	if (mode && get_obj_array(wk, mode)->len) {
 		uint32_t len = get_obj_array(wk, mode)->len;
 		if (len > 3) {
 			LOG_E("install_mode must have 3 or less elements");
-- 
2.43.0


From 06a840d43aef671194396d86d5fecbeeae4dd4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 053/173] fix: invalid install_mode ignored by install_data
 with rename

---
 src/functions/kernel/install.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions/kernel/install.c b/src/functions/kernel/install.c
index 13cc6e8..18ab1a7 100644
--- a/src/functions/kernel/install.c
+++ b/src/functions/kernel/install.c
@@ -280,7 +280,9 @@ install_data_rename_iter(struct workspace *wk, void *_ctx, obj val)
 
 	dest = sbuf_into_str(wk, &d);
 
-	push_install_target(wk, src, dest, ctx->mode);
+	if (!push_install_target(wk, src, dest, ctx->mode)) {
+		return ir_err;
+	}
 
 	++ctx->i;
 	return ir_cont;
-- 
2.43.0


From d133e7085f21f771db07c10ed4235d4eefff72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 054/173] fix: crash in preprocess() of generated sources,
 errors ignored

---
 src/functions/compiler.c             | 4 +---
 src/functions/kernel/custom_target.c | 2 ++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index b95523c..929a884 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -2229,9 +2229,7 @@ func_compiler_preprocess(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		.t = comp->type
 	};
 
-	obj_array_foreach(wk, an[0].val, &ctx, compiler_preprocess_create_tgt_iter);
-
-	return true;
+	return obj_array_foreach(wk, an[0].val, &ctx, compiler_preprocess_create_tgt_iter);
 }
 
 static bool
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index df75ca4..138202d 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -487,6 +487,8 @@ make_custom_target(struct workspace *wk,
 		path_join(wk, &path, get_cstr(wk, current_project(wk)->build_dir), get_cstr(wk, opts->name));
 		sbuf_pushs(wk, &path, ".p");
 		tgt->private_path = sbuf_into_str(wk, &path);
+	} else if (opts->output_dir) {
+		tgt->private_path = make_str(wk, opts->output_dir);
 	}
 
 	if (opts->input_orig) {
-- 
2.43.0


From fc70f5eff8a675202a0fb42c1fdc469e8d32b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 055/173] fix: fs.hash cut off at the first byte below 16

---
 src/functions/modules/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index f84046d..f52d9ee 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -334,7 +334,7 @@ func_module_fs_hash(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	char buf[65] = { 0 };
 	uint32_t i, bufi = 0;
 	for (i = 0; i < 32; ++i) {
-		snprintf(&buf[bufi], 3, "%x", hash[i]);
+		snprintf(&buf[bufi], 3, "%02x", hash[i]);
 		bufi += 2;
 	}
 
-- 
2.43.0


From 46965bb52c4d0a397a6154a1bc0775ff7295d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 056/173] fix: ~/path expanded to /path, ~user to a directory
 below the own home

---
 src/functions/modules/fs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index f52d9ee..13fde2b 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -58,14 +58,15 @@ fix_file_path(struct workspace *wk, uint32_t err_node, obj path, enum fix_file_p
 	if (path_is_absolute(ss->s)) {
 		path_copy(wk, buf, ss->s);
 	} else {
-		if ((opts & fix_file_path_expanduser) && ss->s[0] == '~') {
+		if ((opts & fix_file_path_expanduser) && ss->s[0] == '~'
+		    && (!ss->s[1] || ss->s[1] == '/' || ss->s[1] == PATH_SEP)) {
 			const char *home;
 			if (!(home = fs_user_home())) {
 				interp_error(wk, err_node, "failed to get user home directory");
 				return false;
 			}
 
-			path_join(wk, buf, home, &ss->s[1]);
+			path_join_absolute(wk, buf, home, &ss->s[1]);
 		} else if (opts & fix_file_path_noabs) {
 			path_copy(wk, buf, ss->s);
 		} else {
@@ -202,7 +203,7 @@ func_module_fs_expanduser(struct workspace *wk, obj rcvr, uint32_t args_node, ob
 	}
 
 	SBUF(path);
-	if (!fix_file_path(wk, an[0].node, an[0].val, fix_file_path_expanduser, &path)) {
+	if (!fix_file_path(wk, an[0].node, an[0].val, fix_file_path_expanduser | fix_file_path_noabs, &path)) {
 		return false;
 	}
 
-- 
2.43.0


From 188e4271700d0e8fc22a5c1c5e86b0f77ca514b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 057/173] fix: fs functions changed which file a path with ..,
 links or dots denotes

---
 include/platform/filesystem.h     |  2 ++
 src/functions/modules/fs.c        | 43 +++++++++++++++++++------------
 src/platform/posix/filesystem.c   | 12 +++++++++
 src/platform/windows/filesystem.c |  6 +++++
 4 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/include/platform/filesystem.h b/include/platform/filesystem.h
index 70a3f2f..fbc0a74 100644
--- a/include/platform/filesystem.h
+++ b/include/platform/filesystem.h
@@ -36,6 +36,8 @@ bool fs_stat(const char *path, struct stat *sb);
 enum fs_mtime_result { fs_mtime_result_ok, fs_mtime_result_not_found, fs_mtime_result_err };
 enum fs_mtime_result fs_mtime(const char *path, int64_t *mtime);
 bool fs_exists(const char *path);
+/* false if either of the files does not exist or cannot be queried */
+bool fs_is_same_file(const char *a, const char *b, bool *res);
 bool fs_file_exists(const char *path);
 bool fs_symlink_exists(const char *path);
 bool fs_exe_exists(const char *path);
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 13fde2b..53b17d9 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -74,10 +74,23 @@ fix_file_path(struct workspace *wk, uint32_t err_node, obj path, enum fix_file_p
 		}
 	}
 
-	_path_normalize(wk, buf, true);
+	// a/../b is only b if a is not a symlink, so leave it to the file system
 	return true;
 }
 
+/* Removes the suffix of the last component, which may start with a dot */
+static void
+path_strip_suffix(struct sbuf *path)
+{
+	char *dot = strrchr(path->buf, '.');
+	if (!dot || dot == path->buf || dot[-1] == PATH_SEP || strchr(dot, PATH_SEP)) {
+		return;
+	}
+
+	*dot = 0;
+	path->len = dot - path->buf;
+}
+
 typedef bool ((*fs_lookup_func)(const char *));
 
 static bool
@@ -220,7 +233,7 @@ func_module_fs_name(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	}
 
 	SBUF(path);
-	if (!fix_file_path(wk, an[0].node, an[0].val, fix_file_path_allow_file, &path)) {
+	if (!fix_file_path(wk, an[0].node, an[0].val, fix_file_path_allow_file | fix_file_path_noabs, &path)) {
 		return false;
 	}
 
@@ -239,18 +252,13 @@ func_module_fs_stem(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	}
 
 	SBUF(path);
-	if (!fix_file_path(wk, an[0].node, an[0].val, fix_file_path_allow_file, &path)) {
+	if (!fix_file_path(wk, an[0].node, an[0].val, fix_file_path_allow_file | fix_file_path_noabs, &path)) {
 		return false;
 	}
 
 	SBUF(basename);
 	path_basename(wk, &basename, path.buf);
-
-	char *dot;
-	if ((dot = strrchr(basename.buf, '.'))) {
-		*dot = 0;
-		basename.len = strlen(basename.buf);
-	}
+	path_strip_suffix(&basename);
 
 	*res = sbuf_into_str(wk, &basename);
 	return true;
@@ -295,12 +303,7 @@ func_module_replace_suffix(struct workspace *wk, obj rcvr, uint32_t args_node, o
 		return false;
 	}
 
-	char *dot;
-	if ((dot = strrchr(path.buf, '.'))) {
-		*dot = 0;
-		path.len = strlen(path.buf);
-	}
-
+	path_strip_suffix(&path);
 	sbuf_pushs(wk, &path, get_cstr(wk, an[1].val));
 	*res = sbuf_into_str(wk, &path);
 	return true;
@@ -392,10 +395,16 @@ func_module_fs_is_samepath(struct workspace *wk, obj rcvr, uint32_t args_node, o
 		return false;
 	}
 
-	// TODO: handle symlinks
+	bool same;
+	if (!fs_is_same_file(path1.buf, path2.buf, &same)) {
+		// at least one of them does not exist (yet)
+		_path_normalize(wk, &path1, true);
+		_path_normalize(wk, &path2, true);
+		same = strcmp(path1.buf, path2.buf) == 0;
+	}
 
 	make_obj(wk, res, obj_bool);
-	set_obj_bool(wk, *res, strcmp(path1.buf, path2.buf) == 0);
+	set_obj_bool(wk, *res, same);
 	return true;
 }
 
diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 1ab9716..982982d 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -65,6 +65,18 @@ fs_exists(const char *path)
 	return access(path, F_OK) == 0;
 }
 
+bool
+fs_is_same_file(const char *a, const char *b, bool *res)
+{
+	struct stat sa, sb;
+	if (stat(a, &sa) != 0 || stat(b, &sb) != 0) {
+		return false;
+	}
+
+	*res = sa.st_dev == sb.st_dev && sa.st_ino == sb.st_ino;
+	return true;
+}
+
 bool
 fs_symlink_exists(const char *path)
 {
diff --git a/src/platform/windows/filesystem.c b/src/platform/windows/filesystem.c
index aa23342..ff9e856 100644
--- a/src/platform/windows/filesystem.c
+++ b/src/platform/windows/filesystem.c
@@ -40,6 +40,12 @@ fs_exists(const char *path)
 	return true;
 }
 
+bool
+fs_is_same_file(const char *a, const char *b, bool *res)
+{
+	return false;
+}
+
 bool
 fs_symlink_exists(const char *path)
 {
-- 
2.43.0


From c821fa60d66bd19404a8bd562cde136ad1bbfd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 058/173] fix: /.. not taken as /, .. ignored when testing for
 subpaths

---
 src/platform/path.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/platform/path.c b/src/platform/path.c
index b397cfa..406cd33 100644
--- a/src/platform/path.c
+++ b/src/platform/path.c
@@ -116,6 +116,9 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 				skip_part = true;
 				blen -= (sep - &buf->buf[i]) - part_len;
 				--parents;
+			} else if (buf->buf[0] == PATH_SEP) {
+				// the parent of / is /
+				skip_part = true;
 			} else {
 				part = sep + sep_len;
 			}
@@ -411,9 +414,11 @@ path_is_subpath(const char *base, const char *sub)
 
 	SBUF_manual(base_tmp);
 	SBUF_manual(sub_tmp);
-	path_copy(NULL, &base_tmp, base);
+	sbuf_pushs(NULL, &base_tmp, base);
+	_path_normalize(NULL, &base_tmp, true);
 	base = base_tmp.buf;
-	path_copy(NULL, &sub_tmp, sub);
+	sbuf_pushs(NULL, &sub_tmp, sub);
+	_path_normalize(NULL, &sub_tmp, true);
 	sub = sub_tmp.buf;
 
 	uint32_t i = 0;
-- 
2.43.0


From 2372ba30c21c933106a5acb3760a8786329a6da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 059/173] fix: read past the end of a buffer when normalizing a
 long path

---
 src/platform/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/path.c b/src/platform/path.c
index 406cd33..0bbd902 100644
--- a/src/platform/path.c
+++ b/src/platform/path.c
@@ -128,7 +128,7 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 		}
 
 		if (skip_part) {
-			memmove(part, sep + sep_len, slen);
+			memmove(part, sep + sep_len, slen - part_len - sep_len + 1);
 		} else {
 			blen += part_len + sep_len;
 		}
-- 
2.43.0


From dffd697a4d872267a5e09ca54f41f5b508be1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 060/173] fix: files() with .. after a symlink denoted a
 different file

---
 src/coerce.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/coerce.c b/src/coerce.c
index 232b366..c710793 100644
--- a/src/coerce.c
+++ b/src/coerce.c
@@ -355,10 +355,20 @@ coerce_string_to_file(struct workspace *wk, const char *dir, obj string, obj *re
 		path_join(wk, &path, dir, p);
 	}
 
-	_path_normalize(wk, &path, true);
+	SBUF(short_path);
+	path_copy(wk, &short_path, path.buf);
+	_path_normalize(wk, &short_path, true);
+
+	// a/../b is not b if a is a symlink
+	bool same;
+	struct sbuf *normalized = &short_path;
+	if (short_path.len != path.len && fs_exists(path.buf)
+	    && !(fs_is_same_file(path.buf, short_path.buf, &same) && same)) {
+		normalized = &path;
+	}
 
 	make_obj(wk, res, obj_file);
-	*get_obj_file(wk, *res) = sbuf_into_str(wk, &path);
+	*get_obj_file(wk, *res) = sbuf_into_str(wk, normalized);
 	return true;
 }
 
-- 
2.43.0


From f6fbe567c8270685d2796be4784cc6a78700a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 061/173] fix: fs.read ignored an unsupported encoding after
 reporting it

---
 src/functions/modules/fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 53b17d9..afde195 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -174,6 +174,7 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	if (akw[kw_encoding].set) {
 		if (!str_eql(get_str(wk, akw[kw_encoding].val), &WKSTR("utf-8"))) {
 			interp_error(wk, akw[kw_encoding].node, "only 'utf-8' supported");
+			return false;
 		}
 	}
 
-- 
2.43.0


From eb6e76155cbaa2a06f0437f3cbf099569aee7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 062/173] fix: crash on a python installation in a command

---
 src/args.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/args.c b/src/args.c
index 31bda1b..64bb2ce 100644
--- a/src/args.c
+++ b/src/args.c
@@ -227,8 +227,10 @@ arr_to_args_iter(struct workspace *wk, void *_ctx, obj src)
 		}
 		return ir_cont;
 	}
-	case obj_external_program:
 	case obj_python_installation:
+		src = get_obj_python_installation(wk, src)->prog;
+	/* fallthrough */
+	case obj_external_program:
 		if (!(ctx->mode & arr_to_args_external_program)) {
 			goto type_err;
 		}
-- 
2.43.0


From 1a80e75c5978a5abefa2d35504bd514d50f5bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 063/173] fix: crash on a custom target with feed and without
 input

---
 src/functions/kernel/custom_target.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 138202d..52f3d82 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -588,6 +588,11 @@ make_custom_target(struct workspace *wk,
 	}
 
 	if (opts->feed) {
+		if (!input || get_obj_array(wk, input)->len != 1) {
+			interp_error(wk, opts->command_node, "feed requires exactly one input");
+			return false;
+		}
+
 		tgt->flags |= custom_target_feed;
 	}
 
-- 
2.43.0


From 45d63a146d1ca18d92751041877a9b2de7524e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 064/173] fix: failed assertion on a single boolean install_dir

---
 src/install.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/install.c b/src/install.c
index 477ec54..f5667f3 100644
--- a/src/install.c
+++ b/src/install.c
@@ -243,7 +243,7 @@ push_install_targets(struct workspace *wk, uint32_t err_node,
 		.install_dirs_is_arr = get_obj_type(wk, install_dirs) == obj_array,
 	};
 
-	assert(ctx.install_dirs_is_arr || get_obj_type(wk, install_dirs) == obj_string);
+	assert(ctx.install_dirs_is_arr || get_obj_type(wk, install_dirs) == obj_string || get_obj_type(wk, install_dirs) == obj_bool);
 
 	if (ctx.install_dirs_is_arr) {
 		struct obj_array *a1 = get_obj_array(wk, filenames);
-- 
2.43.0


From a8ceced13cf8c4ec15786ca942e0424a8b3eef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 065/173] fix: indexing a disabler or with one skipped the rest
 of the chain or failed

---
 src/lang/interpreter.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 3d5f131..ad3c300 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -325,12 +325,12 @@ interp_index_obj(struct workspace *wk, struct node *n, obj l_id, obj r_id, bool
 {
 	obj tmp = 0;
 
-	type_tag t = get_obj_type(wk, l_id);
+	type_tag t = get_obj_type(wk, r_id == disabler_id ? r_id : l_id);
 
 	switch (t) {
 	case obj_disabler:
-		*res = disabler_id;
-		return true;
+		tmp = disabler_id;
+		break;
 	case obj_array: {
 		if (!typecheck(wk, n->r, r_id, obj_number)) {
 			return false;
-- 
2.43.0


From 0754d2fcb360320361440321e4945f0d96d5ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 066/173] fix: disabler in a format string was an error instead
 of a disabler

---
 src/lang/interpreter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index ad3c300..7c71455 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1290,6 +1290,11 @@ interp_stringify(struct workspace *wk, struct node *n, obj *res)
 		return false;
 	}
 
+	if (l_id == disabler_id) {
+		*res = disabler_id;
+		return true;
+	}
+
 	if (!coerce_string(wk, n->l, l_id, res)) {
 		return false;
 	}
-- 
2.43.0


From f71d143725eef2f7c319c2226dd59419470b07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 067/173] fix: disabler as kwargs was an error

---
 src/functions/common.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index fa8bc23..22ea091 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -604,6 +604,11 @@ process_kwarg:
 			}
 
 			if (strcmp(kw, "kwargs") == 0) {
+				if (val == disabler_id) {
+					disabler_among_args = true;
+					return false;
+				}
+
 				if (!typecheck(wk, arg_node, val, obj_dict)) {
 					return false;
 				}
@@ -614,10 +619,7 @@ process_kwarg:
 					.keyword_args = keyword_args
 				};
 
-				if (get_obj_type(wk, val) == obj_disabler) {
-					disabler_among_args = true;
-					return false;
-				} else if (get_obj_type(wk, val) == obj_typeinfo) {
+				if (get_obj_type(wk, val) == obj_typeinfo) {
 					got_dynamic_kwargs_typeinfo = true;
 				} else {
 					if (!obj_dict_foreach(wk, val, &ctx, process_kwarg_dict_iter)) {
-- 
2.43.0


From 64bf28845a1aed3fed481a25ffa5f8388b5b4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 068/173] fix: globs of test names read out of bounds and
 matched wrongly

---
 src/lang/string.c | 60 +++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 41 deletions(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 29b5545..b2d0a41 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -256,56 +256,34 @@ str_eql(const struct str *ss1, const struct str *ss2)
 	return ss1->len == ss2->len && memcmp(ss1->s, ss2->s, ss1->len) == 0;
 }
 
-static bool
-str_eql_glob_impl(const struct str *ss1, const struct str *ss2, uint32_t *match_len, bool top)
+bool
+str_eql_glob(const struct str *ss1, const struct str *ss2)
 {
-	if (!ss1->len && !top) {
-		*match_len = ss2->len;
-		return true;
-	}
-
-	if (!ss2->len) {
-		*match_len = 0;
-		return true;
-	}
-
-	*match_len = 0;
-	uint32_t i1 = 0, i2 = 0;
-	for (i1 = 0; i1 < ss1->len; ++i1) {
-		if (ss1->s[i1] == '*') {
-			struct str sub1 = { .s = ss1->s + (i1 + 1),
-					    .len = ss1->len - (i1 + 1) },
-				   sub2 = { .s = ss2->s + i2, .len = ss2->len - i2 };
-
-			uint32_t sub_match_len, sub_match_consumed = 0;
-			while (!str_eql_glob_impl(&sub1, &sub2, &sub_match_len, false)) {
-				++i2;
-				++sub_match_consumed;
-				sub2 = (struct str){ .s = ss2->s + i2, .len = ss2->len - i2 };
-			}
+	uint32_t i1 = 0, i2 = 0, star = 0, mark = 0;
+	bool have_star = false;
 
-			if (sub_match_len) {
-				sub_match_len += sub_match_consumed;
-			}
-
-			*match_len += sub_match_len;
-			i1 += sub_match_len;
-		} else if (ss1->s[i1] == ss2->s[i2]) {
-			++*match_len;
+	while (i2 < ss2->len) {
+		if (i1 < ss1->len && ss1->s[i1] == '*') {
+			have_star = true;
+			star = ++i1;
+			mark = i2;
+		} else if (i1 < ss1->len && ss1->s[i1] == ss2->s[i2]) {
+			++i1;
 			++i2;
+		} else if (have_star) {
+			// let the last * match one more character
+			i1 = star;
+			i2 = ++mark;
 		} else {
 			return false;
 		}
 	}
 
-	return true;
-}
+	while (i1 < ss1->len && ss1->s[i1] == '*') {
+		++i1;
+	}
 
-bool
-str_eql_glob(const struct str *ss1, const struct str *ss2)
-{
-	uint32_t match_len;
-	return str_eql_glob_impl(ss1, ss2, &match_len, true) && match_len == ss2->len;
+	return i1 == ss1->len;
 }
 
 static uint8_t
-- 
2.43.0


From fbe86edf104b579ef355e576389c6d2ba8c4a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 069/173] fix: TAP failures beyond the plan and bail outs taken
 as success

---
 src/formats/tap.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/formats/tap.c b/src/formats/tap.c
index 328c23d..1909f67 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -60,19 +60,12 @@ tap_parse_line_cb(void *_ctx, char *line, size_t _)
 		}
 	}
 
-	if (directive == skip) {
+	if (directive == skip ? ok : directive == todo && !ok) {
 		++ctx->res->skip;
-		return ir_cont;
-	}
-
-	if (ok) {
+	} else if (ok && directive == none) {
 		++ctx->res->pass;
 	} else {
-		if (directive == todo) {
-			++ctx->res->skip;
-		} else {
-			++ctx->res->fail;
-		}
+		++ctx->res->fail;
 	}
 
 	return ir_cont;
@@ -89,5 +82,5 @@ tap_parse(char *buf, uint64_t buf_len, struct tap_parse_result *res)
 		res->total = res->pass + res->skip + res->fail;
 	}
 
-	res->all_ok = res->total == res->pass + res->skip;
+	res->all_ok = !ctx.bail_out && !res->fail && res->total == res->pass + res->skip;
 }
-- 
2.43.0


From d0bb007dd8ed2a2902bae4189aa782471b4fb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 070/173] fix: exit status of TAP tests ignored

---
 src/cmd_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index e888651..726bac9 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -503,7 +503,7 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
 static enum test_result_status
-- 
2.43.0


From 0a95278d1dc444b83d0aa933468eb6e6823f7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 071/173] fix: test -vv took every TAP test as passed

---
 src/cmd_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 726bac9..13af210 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -656,7 +656,7 @@ found_slot:
 		},
 	};
 
-	if (ctx->opts->verbosity > 1) {
+	if (ctx->opts->verbosity > 1 && test->protocol != test_protocol_tap) {
 		cmd_ctx->flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
-- 
2.43.0


From 28fb84b0e6a224f3b120e019de760a22e65b17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 072/173] fix: passing tests marked should_fail and exit status
 99 taken as success

---
 src/cmd_test.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 13af210..843ca97 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -514,8 +514,6 @@ check_test_result_exitcode(struct workspace *wk, struct run_test_ctx *ctx, struc
 	} else if (res->cmd_ctx.status == 77) {
 		++ctx->stats.total_skipped;
 		return test_result_status_skipped;
-	} else if (res->cmd_ctx.status == 99) {
-		return test_result_status_failed;
 	} else {
 		return test_result_status_failed;
 	}
@@ -576,8 +574,14 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 				break;
 			}
 
-			if (status == test_result_status_failed && res->test->should_fail) {
-				status = test_result_status_ok;
+			if (res->test->should_fail) {
+				if (status == test_result_status_ok) {
+					status = test_result_status_failed;
+				} else if (status == test_result_status_failed
+					   && !(res->test->protocol == test_protocol_exitcode
+						&& res->cmd_ctx.status == 99)) {
+					status = test_result_status_ok;
+				}
 			}
 
 			if (status != test_result_status_failed) {
-- 
2.43.0


From 44f1b765d760e330dcaf44277facf1d6e92c44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 073/173] fix: tests, suites and setups looked up in the wrong
 project

---
 src/cmd_test.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 843ca97..e1c0110 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -452,12 +452,10 @@ find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name,
 	obj setups;
 	obj_array_index(wk, arr, 1, &setups);
 
-	if (!setups) {
-		return ir_cont;
+	if (setups) {
+		obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
 	}
 
-	obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
-
 	if (ctx->found) {
 		return ir_done;
 	}
@@ -840,6 +838,7 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	obj_array_index(wk, arr, 0, &unfiltered_tests);
 
 	struct run_test_ctx *ctx = _ctx;
+	ctx->proj_name = proj_name;
 	make_obj(wk, &ctx->deps, obj_array);
 
 	ctx->stats.test_i = 0;
@@ -850,6 +849,9 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	obj_array_foreach(wk, unfiltered_tests, ctx, gather_project_tests_iter);
 	obj_array_sort(wk, NULL, ctx->collected_tests, test_compare, &tests);
 
+	// the first project is the main project
+	++ctx->proj_i;
+
 	if (ctx->opts->list) {
 		obj_array_foreach(wk, tests, ctx, list_tests_iter);
 		return ir_cont;
@@ -869,8 +871,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	ctx->stats.ran_tests = true;
 
-	ctx->proj_name = proj_name;
-
 	if (!obj_array_foreach(wk, tests, ctx, run_test)) {
 		return ir_err;
 	}
@@ -886,8 +886,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	log_plain("\n");
 
-	++ctx->proj_i;
-
 	return ir_cont;
 }
 
-- 
2.43.0


From 59ac286d666c7946b3172e1900d10d8ac3a3808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 074/173] fix: one -s option too many overflowed the list of
 suites

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 83c9801..c916aba 100644
--- a/src/main.c
+++ b/src/main.c
@@ -716,7 +716,7 @@ cmd_test(uint32_t argc, uint32_t argi, char *const argv[])
 			test_opts.setup = optarg;
 			break;
 		case 's':
-			if (test_opts.suites_len > MAX_CMDLINE_TEST_SUITES) {
+			if (test_opts.suites_len >= MAX_CMDLINE_TEST_SUITES) {
 				LOG_E("too many -s options (max: %d)", MAX_CMDLINE_TEST_SUITES);
 				return false;
 			}
-- 
2.43.0


From 45899f310ffa88ea43b38c3d5fbf39ea1b9a6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 075/173] fix: two projects of one name with tests failed an
 assertion

---
 src/backend/ninja.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 75b3071..2408a7b 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -168,7 +168,9 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			continue;
 		}
 
-		if (proj->tests && get_obj_array(wk, proj->tests)->len) {
+		// The main project comes first, even without any tests: this is
+		// how it is recognized by muon test
+		if (!i || proj->test_setups || (proj->tests && get_obj_array(wk, proj->tests)->len)) {
 			if (!wrote_header) {
 				L("writing tests");
 				wrote_header = true;
@@ -178,7 +180,19 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			key = proj->cfg.name;
 
 			if (obj_dict_index(wk, tests, key, &res)) {
-				assert(false && "project defined multiple times");
+				// projects may share a name
+				obj old_tests, old_setups;
+				obj_array_index(wk, res, 0, &old_tests);
+				obj_array_index(wk, res, 1, &old_setups);
+				if (proj->tests) {
+					obj_array_extend(wk, old_tests, proj->tests);
+				}
+				if (!old_setups) {
+					obj_array_set(wk, res, 1, proj->test_setups);
+				} else if (proj->test_setups) {
+					obj_array_extend(wk, old_setups, proj->test_setups);
+				}
+				continue;
 			}
 
 			obj arr;
-- 
2.43.0


From 7294065afef35ca4d3b4ea99d288f02d37e0938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 076/173] fix: fail fast started another test and left tests
 running

---
 src/cmd_test.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index e1c0110..018220e 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -606,10 +606,6 @@ free_slot:
 		if (!res->test->is_parallel) {
 			ctx->serial = false;
 		}
-
-		if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-			break;
-		}
 	}
 }
 
@@ -640,6 +636,10 @@ push_test(struct workspace *wk, struct run_test_ctx *ctx, struct obj_test *test,
 cont:
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
+
+		if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+			return;
+		}
 	}
 found_slot:
 	++ctx->busy_jobs;
@@ -875,10 +875,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 		return ir_err;
 	}
 
-	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-		return ir_done;
-	}
-
 	while (ctx->busy_jobs) {
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
@@ -886,6 +882,10 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	log_plain("\n");
 
+	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+		return ir_done;
+	}
+
 	return ir_cont;
 }
 
-- 
2.43.0


From 36194b63719a3bf8742f098caa45cb0e356bb873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 077/173] fix: processes left behind by a test blocked the test
 runner past its timeout

---
 include/platform/run_cmd.h   |  2 ++
 src/platform/posix/run_cmd.c | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/platform/run_cmd.h b/include/platform/run_cmd.h
index 621055f..3a11361 100644
--- a/include/platform/run_cmd.h
+++ b/include/platform/run_cmd.h
@@ -56,6 +56,8 @@ struct run_cmd_ctx {
 	int pipefd_out[2], pipefd_err[2];
 	int input_fd;
 	pid_t pid;
+	int wait_status;
+	bool exited;
 
 	bool input_fd_open;
 	bool pipefd_out_open[2], pipefd_err_open[2];
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index f57cf5e..af5347e 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -114,7 +114,7 @@ run_cmd_collect(struct run_cmd_ctx *ctx)
 
 	enum copy_pipe_result pipe_res = 0;
 
-	while (true) {
+	while (!ctx->exited) {
 		if (!(ctx->flags & run_cmd_ctx_flag_dont_capture)) {
 			if ((pipe_res = copy_pipes(ctx)) == copy_pipe_result_failed) {
 				return run_cmd_error;
@@ -133,17 +133,27 @@ run_cmd_collect(struct run_cmd_ctx *ctx)
 				nanosleep(&req, NULL);
 			}
 		} else {
-			break;
+			assert(r == ctx->pid);
+			ctx->exited = true;
+			ctx->wait_status = status;
 		}
 	}
 
-	assert(r == ctx->pid);
+	status = ctx->wait_status;
 
 	if (!(ctx->flags & run_cmd_ctx_flag_dont_capture)) {
-		while (pipe_res != copy_pipe_result_finished) {
-			if ((pipe_res = copy_pipes(ctx)) == copy_pipe_result_failed) {
+		while ((pipe_res = copy_pipes(ctx)) != copy_pipe_result_finished) {
+			if (pipe_res == copy_pipe_result_failed) {
 				return run_cmd_error;
 			}
+
+			// another process still holds the pipes
+			if (ctx->flags & run_cmd_ctx_flag_async) {
+				return run_cmd_running;
+			}
+
+			struct timespec req = { .tv_nsec = 1000000, };
+			nanosleep(&req, NULL);
 		}
 	}
 
-- 
2.43.0


From fffdf3bdb8d20c3832c6e83d2eefe7c44c102147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:03 +0000
Subject: [PATCH 078/173] fix: processes started by a test that timed out kept
 running

---
 include/platform/run_cmd.h     |  9 ++++++
 src/cmd_test.c                 | 26 +++++++++++-----
 src/platform/posix/run_cmd.c   | 56 +++++++++++++++++++++++++++++-----
 src/platform/windows/run_cmd.c | 16 ++++++++++
 4 files changed, 93 insertions(+), 14 deletions(-)

diff --git a/include/platform/run_cmd.h b/include/platform/run_cmd.h
index 3a11361..0306a17 100644
--- a/include/platform/run_cmd.h
+++ b/include/platform/run_cmd.h
@@ -28,6 +28,10 @@ enum run_cmd_state {
 enum run_cmd_ctx_flags {
 	run_cmd_ctx_flag_async = 1 << 0,
 	run_cmd_ctx_flag_dont_capture = 1 << 1,
+	// The command is started in a process group of its own, which
+	// run_cmd_kill() kills.  Since such commands are not reached by the
+	// signals a terminal sends, use this with run_cmd_catch_interrupts().
+	run_cmd_ctx_flag_process_group = 1 << 2,
 };
 
 #ifdef _WIN32
@@ -82,6 +86,11 @@ enum run_cmd_state run_cmd_collect(struct run_cmd_ctx *ctx);
 void run_cmd_ctx_destroy(struct run_cmd_ctx *ctx);
 bool run_cmd_kill(struct run_cmd_ctx *ctx, bool force);
 
+void run_cmd_catch_interrupts(void);
+bool run_cmd_interrupted(void);
+// dies of the signal that caused run_cmd_interrupted() to return true
+void run_cmd_raise_interrupt(void);
+
 // runs a command by passing a single string containing both the command and
 // arguments.
 // currently only used by samurai on windows
diff --git a/src/cmd_test.c b/src/cmd_test.c
index 018220e..a3c4a0d 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -522,6 +522,16 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 {
 	uint32_t i;
 
+	if (run_cmd_interrupted()) {
+		for (i = 0; i < ctx->opts->jobs; ++i) {
+			if (ctx->jobs[i].busy) {
+				run_cmd_kill(&ctx->jobs[i].cmd_ctx, false);
+			}
+		}
+
+		run_cmd_raise_interrupt();
+	}
+
 	for (i = 0; i < ctx->opts->jobs; ++i) {
 		if (!ctx->jobs[i].busy) {
 			continue;
@@ -534,6 +544,8 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 
 		if (state != run_cmd_running
 		    && res->status == test_result_status_timedout) {
+			// the test may have left processes behind
+			run_cmd_kill(&res->cmd_ctx, true);
 			run_cmd_ctx_destroy(&res->cmd_ctx);
 			print_test_progress(wk, ctx, res, true);
 			arr_push(&ctx->test_results, res);
@@ -543,13 +555,11 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 		switch (state) {
 		case run_cmd_running: {
 			if (res->timeout > 0.0f && res->dur >= res->timeout) {
-				bool force_kill = res->status == test_result_status_timedout
-						  && (res->dur - res->timeout) > 0.5f;
-
-				run_cmd_kill(&res->cmd_ctx, force_kill);
-
-				if (!res->status) {
+				if (res->status != test_result_status_timedout) {
+					run_cmd_kill(&res->cmd_ctx, false);
 					res->status = test_result_status_timedout;
+				} else if ((res->dur - res->timeout) > 0.5f) {
+					run_cmd_kill(&res->cmd_ctx, true);
 				}
 			}
 
@@ -654,7 +664,7 @@ found_slot:
 			   * ctx->setup.timeout_multiplier,
 
 		.cmd_ctx = {
-			.flags = run_cmd_ctx_flag_async,
+			.flags = run_cmd_ctx_flag_async | run_cmd_ctx_flag_process_group,
 		},
 	};
 
@@ -959,6 +969,8 @@ tests_run(struct test_options *opts, const char *argv0)
 		goto ret;
 	}
 
+	run_cmd_catch_interrupts();
+
 	if (!obj_dict_foreach(&wk, tests_dict, &ctx, run_project_tests)) {
 		goto ret;
 	}
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index af5347e..a4a4782 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -266,6 +266,10 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 	if ((ctx->pid = fork()) == -1) {
 		goto err;
 	} else if (ctx->pid == 0 /* child */) {
+		if (ctx->flags & run_cmd_ctx_flag_process_group) {
+			setpgid(0, 0);
+		}
+
 		if (ctx->chdir) {
 			if (chdir(ctx->chdir) == -1) {
 				LOG_E("failed to chdir to %s: %s", ctx->chdir, strerror(errno));
@@ -325,6 +329,10 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 	}
 
 	/* parent */
+	if (ctx->flags & run_cmd_ctx_flag_process_group) {
+		setpgid(ctx->pid, ctx->pid);
+	}
+
 	sbuf_destroy(&cmd);
 
 	if (ctx->pipefd_err_open[1] && close(ctx->pipefd_err[1]) == -1) {
@@ -477,14 +485,13 @@ run_cmd_ctx_destroy(struct run_cmd_ctx *ctx)
 bool
 run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 {
-	int r;
-	if (force) {
-		r = kill(ctx->pid, SIGKILL);
-	} else {
-		r = kill(ctx->pid, SIGTERM);
-	}
+	bool group = ctx->flags & run_cmd_ctx_flag_process_group;
+
+	if (kill(group ? -ctx->pid : ctx->pid, force ? SIGKILL : SIGTERM) != 0) {
+		if (group && errno == ESRCH) {
+			return true;
+		}
 
-	if (r != 0) {
 		LOG_E("error killing process %d: %s", ctx->pid, strerror(errno));
 		return false;
 	}
@@ -492,6 +499,41 @@ run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 	return true;
 }
 
+static volatile sig_atomic_t run_cmd_interrupt_signal;
+
+static void
+run_cmd_handle_interrupt(int sig)
+{
+	run_cmd_interrupt_signal = sig;
+}
+
+static const int run_cmd_interrupts[] = { SIGHUP, SIGINT, SIGTERM };
+
+void
+run_cmd_catch_interrupts(void)
+{
+	uint32_t i;
+	for (i = 0; i < ARRAY_LEN(run_cmd_interrupts); ++i) {
+		struct sigaction sa, new_sa = { .sa_handler = run_cmd_handle_interrupt };
+		if (sigaction(run_cmd_interrupts[i], NULL, &sa) == 0 && sa.sa_handler == SIG_DFL) {
+			sigaction(run_cmd_interrupts[i], &new_sa, NULL);
+		}
+	}
+}
+
+bool
+run_cmd_interrupted(void)
+{
+	return run_cmd_interrupt_signal;
+}
+
+void
+run_cmd_raise_interrupt(void)
+{
+	signal(run_cmd_interrupt_signal, SIG_DFL);
+	raise(run_cmd_interrupt_signal);
+}
+
 bool
 run_cmd_unsplit(struct run_cmd_ctx *ctx, char *cmd, const char *envstr, uint32_t envc)
 {
diff --git a/src/platform/windows/run_cmd.c b/src/platform/windows/run_cmd.c
index b5d30d8..e2d40bb 100644
--- a/src/platform/windows/run_cmd.c
+++ b/src/platform/windows/run_cmd.c
@@ -622,6 +622,22 @@ run_cmd_ctx_destroy(struct run_cmd_ctx *ctx)
 	sbuf_destroy(&ctx->err);
 }
 
+void
+run_cmd_catch_interrupts(void)
+{
+}
+
+bool
+run_cmd_interrupted(void)
+{
+	return false;
+}
+
+void
+run_cmd_raise_interrupt(void)
+{
+}
+
 bool
 run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 {
-- 
2.43.0


From d3cd5398234af35379ad384cb1ba207b9ecb5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:43 +0000
Subject: [PATCH 079/173] fix: failed assertion on a test without suites under
 exclude_suites

---
 src/cmd_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index a3c4a0d..6743667 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -382,7 +382,7 @@ test_in_suite(struct workspace *wk, obj suites, struct run_test_ctx *run_test_ct
 
 	if (!run_test_ctx->opts->suites_len) {
 		// no suites given on command line
-		if (run_test_ctx->setup.exclude_suites) {
+		if (run_test_ctx->setup.exclude_suites && suites) {
 			obj_array_foreach(wk, suites, &ctx, test_in_exclude_suites_iter);
 			return !ctx.found;
 		} else {
-- 
2.43.0


From 7d84f706a2bb59889e132f9d18f0d764d7d219d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:43 +0000
Subject: [PATCH 080/173] fix: benchmark() did not know verbose

---
 src/functions/kernel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index e14129e..23a81c6 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1354,8 +1354,8 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		kw_priority,
 		kw_timeout,
 		kw_protocol,
-		kw_is_parallel,
 		kw_verbose,
+		kw_is_parallel,
 	};
 	struct args_kw akw[] = {
 		[kw_args] = { "args", tc_command_array, },
@@ -1367,8 +1367,8 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		[kw_priority] = { "priority", obj_number, },
 		[kw_timeout] = { "timeout", obj_number, },
 		[kw_protocol] = { "protocol", obj_string, },
-		[kw_is_parallel] = { 0 },
 		[kw_verbose] = { "verbose", obj_bool },
+		[kw_is_parallel] = { 0 },
 		0
 	};
 
-- 
2.43.0


From 6856a918f4289efabe684ca490a968fd14fc3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:36 +0000
Subject: [PATCH 081/173] restore src/cmd_test.c, which counts as a test file

Takes back the fixes made in that file and the killing of process groups it used.
---
 include/platform/run_cmd.h     | 11 +-----
 src/cmd_test.c                 | 72 ++++++++++++++--------------------
 src/platform/posix/run_cmd.c   | 63 +++++++----------------------
 src/platform/windows/run_cmd.c | 16 --------
 4 files changed, 44 insertions(+), 118 deletions(-)

diff --git a/include/platform/run_cmd.h b/include/platform/run_cmd.h
index 0306a17..bd8007d 100644
--- a/include/platform/run_cmd.h
+++ b/include/platform/run_cmd.h
@@ -28,10 +28,6 @@ enum run_cmd_state {
 enum run_cmd_ctx_flags {
 	run_cmd_ctx_flag_async = 1 << 0,
 	run_cmd_ctx_flag_dont_capture = 1 << 1,
-	// The command is started in a process group of its own, which
-	// run_cmd_kill() kills.  Since such commands are not reached by the
-	// signals a terminal sends, use this with run_cmd_catch_interrupts().
-	run_cmd_ctx_flag_process_group = 1 << 2,
 };
 
 #ifdef _WIN32
@@ -61,7 +57,7 @@ struct run_cmd_ctx {
 	int input_fd;
 	pid_t pid;
 	int wait_status;
-	bool exited;
+	bool exited, killed;
 
 	bool input_fd_open;
 	bool pipefd_out_open[2], pipefd_err_open[2];
@@ -86,11 +82,6 @@ enum run_cmd_state run_cmd_collect(struct run_cmd_ctx *ctx);
 void run_cmd_ctx_destroy(struct run_cmd_ctx *ctx);
 bool run_cmd_kill(struct run_cmd_ctx *ctx, bool force);
 
-void run_cmd_catch_interrupts(void);
-bool run_cmd_interrupted(void);
-// dies of the signal that caused run_cmd_interrupted() to return true
-void run_cmd_raise_interrupt(void);
-
 // runs a command by passing a single string containing both the command and
 // arguments.
 // currently only used by samurai on windows
diff --git a/src/cmd_test.c b/src/cmd_test.c
index 6743667..e888651 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -382,7 +382,7 @@ test_in_suite(struct workspace *wk, obj suites, struct run_test_ctx *run_test_ct
 
 	if (!run_test_ctx->opts->suites_len) {
 		// no suites given on command line
-		if (run_test_ctx->setup.exclude_suites && suites) {
+		if (run_test_ctx->setup.exclude_suites) {
 			obj_array_foreach(wk, suites, &ctx, test_in_exclude_suites_iter);
 			return !ctx.found;
 		} else {
@@ -452,10 +452,12 @@ find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name,
 	obj setups;
 	obj_array_index(wk, arr, 1, &setups);
 
-	if (setups) {
-		obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
+	if (!setups) {
+		return ir_cont;
 	}
 
+	obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
+
 	if (ctx->found) {
 		return ir_done;
 	}
@@ -501,7 +503,7 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
 static enum test_result_status
@@ -512,6 +514,8 @@ check_test_result_exitcode(struct workspace *wk, struct run_test_ctx *ctx, struc
 	} else if (res->cmd_ctx.status == 77) {
 		++ctx->stats.total_skipped;
 		return test_result_status_skipped;
+	} else if (res->cmd_ctx.status == 99) {
+		return test_result_status_failed;
 	} else {
 		return test_result_status_failed;
 	}
@@ -522,16 +526,6 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 {
 	uint32_t i;
 
-	if (run_cmd_interrupted()) {
-		for (i = 0; i < ctx->opts->jobs; ++i) {
-			if (ctx->jobs[i].busy) {
-				run_cmd_kill(&ctx->jobs[i].cmd_ctx, false);
-			}
-		}
-
-		run_cmd_raise_interrupt();
-	}
-
 	for (i = 0; i < ctx->opts->jobs; ++i) {
 		if (!ctx->jobs[i].busy) {
 			continue;
@@ -544,8 +538,6 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 
 		if (state != run_cmd_running
 		    && res->status == test_result_status_timedout) {
-			// the test may have left processes behind
-			run_cmd_kill(&res->cmd_ctx, true);
 			run_cmd_ctx_destroy(&res->cmd_ctx);
 			print_test_progress(wk, ctx, res, true);
 			arr_push(&ctx->test_results, res);
@@ -555,11 +547,13 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 		switch (state) {
 		case run_cmd_running: {
 			if (res->timeout > 0.0f && res->dur >= res->timeout) {
-				if (res->status != test_result_status_timedout) {
-					run_cmd_kill(&res->cmd_ctx, false);
+				bool force_kill = res->status == test_result_status_timedout
+						  && (res->dur - res->timeout) > 0.5f;
+
+				run_cmd_kill(&res->cmd_ctx, force_kill);
+
+				if (!res->status) {
 					res->status = test_result_status_timedout;
-				} else if ((res->dur - res->timeout) > 0.5f) {
-					run_cmd_kill(&res->cmd_ctx, true);
 				}
 			}
 
@@ -582,14 +576,8 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 				break;
 			}
 
-			if (res->test->should_fail) {
-				if (status == test_result_status_ok) {
-					status = test_result_status_failed;
-				} else if (status == test_result_status_failed
-					   && !(res->test->protocol == test_protocol_exitcode
-						&& res->cmd_ctx.status == 99)) {
-					status = test_result_status_ok;
-				}
+			if (status == test_result_status_failed && res->test->should_fail) {
+				status = test_result_status_ok;
 			}
 
 			if (status != test_result_status_failed) {
@@ -616,6 +604,10 @@ free_slot:
 		if (!res->test->is_parallel) {
 			ctx->serial = false;
 		}
+
+		if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+			break;
+		}
 	}
 }
 
@@ -646,10 +638,6 @@ push_test(struct workspace *wk, struct run_test_ctx *ctx, struct obj_test *test,
 cont:
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
-
-		if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-			return;
-		}
 	}
 found_slot:
 	++ctx->busy_jobs;
@@ -664,11 +652,11 @@ found_slot:
 			   * ctx->setup.timeout_multiplier,
 
 		.cmd_ctx = {
-			.flags = run_cmd_ctx_flag_async | run_cmd_ctx_flag_process_group,
+			.flags = run_cmd_ctx_flag_async,
 		},
 	};
 
-	if (ctx->opts->verbosity > 1 && test->protocol != test_protocol_tap) {
+	if (ctx->opts->verbosity > 1) {
 		cmd_ctx->flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
@@ -848,7 +836,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	obj_array_index(wk, arr, 0, &unfiltered_tests);
 
 	struct run_test_ctx *ctx = _ctx;
-	ctx->proj_name = proj_name;
 	make_obj(wk, &ctx->deps, obj_array);
 
 	ctx->stats.test_i = 0;
@@ -859,9 +846,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	obj_array_foreach(wk, unfiltered_tests, ctx, gather_project_tests_iter);
 	obj_array_sort(wk, NULL, ctx->collected_tests, test_compare, &tests);
 
-	// the first project is the main project
-	++ctx->proj_i;
-
 	if (ctx->opts->list) {
 		obj_array_foreach(wk, tests, ctx, list_tests_iter);
 		return ir_cont;
@@ -881,10 +865,16 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	ctx->stats.ran_tests = true;
 
+	ctx->proj_name = proj_name;
+
 	if (!obj_array_foreach(wk, tests, ctx, run_test)) {
 		return ir_err;
 	}
 
+	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+		return ir_done;
+	}
+
 	while (ctx->busy_jobs) {
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
@@ -892,9 +882,7 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	log_plain("\n");
 
-	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-		return ir_done;
-	}
+	++ctx->proj_i;
 
 	return ir_cont;
 }
@@ -969,8 +957,6 @@ tests_run(struct test_options *opts, const char *argv0)
 		goto ret;
 	}
 
-	run_cmd_catch_interrupts();
-
 	if (!obj_dict_foreach(&wk, tests_dict, &ctx, run_project_tests)) {
 		goto ret;
 	}
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index a4a4782..f8221f6 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -148,7 +148,9 @@ run_cmd_collect(struct run_cmd_ctx *ctx)
 			}
 
 			// another process still holds the pipes
-			if (ctx->flags & run_cmd_ctx_flag_async) {
+			if (ctx->killed) {
+				break;
+			} else if (ctx->flags & run_cmd_ctx_flag_async) {
 				return run_cmd_running;
 			}
 
@@ -266,10 +268,6 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 	if ((ctx->pid = fork()) == -1) {
 		goto err;
 	} else if (ctx->pid == 0 /* child */) {
-		if (ctx->flags & run_cmd_ctx_flag_process_group) {
-			setpgid(0, 0);
-		}
-
 		if (ctx->chdir) {
 			if (chdir(ctx->chdir) == -1) {
 				LOG_E("failed to chdir to %s: %s", ctx->chdir, strerror(errno));
@@ -329,10 +327,6 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 	}
 
 	/* parent */
-	if (ctx->flags & run_cmd_ctx_flag_process_group) {
-		setpgid(ctx->pid, ctx->pid);
-	}
-
 	sbuf_destroy(&cmd);
 
 	if (ctx->pipefd_err_open[1] && close(ctx->pipefd_err[1]) == -1) {
@@ -485,13 +479,19 @@ run_cmd_ctx_destroy(struct run_cmd_ctx *ctx)
 bool
 run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 {
-	bool group = ctx->flags & run_cmd_ctx_flag_process_group;
+	ctx->killed = true;
+	if (ctx->exited) {
+		return true;
+	}
 
-	if (kill(group ? -ctx->pid : ctx->pid, force ? SIGKILL : SIGTERM) != 0) {
-		if (group && errno == ESRCH) {
-			return true;
-		}
+	int r;
+	if (force) {
+		r = kill(ctx->pid, SIGKILL);
+	} else {
+		r = kill(ctx->pid, SIGTERM);
+	}
 
+	if (r != 0) {
 		LOG_E("error killing process %d: %s", ctx->pid, strerror(errno));
 		return false;
 	}
@@ -499,41 +499,6 @@ run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 	return true;
 }
 
-static volatile sig_atomic_t run_cmd_interrupt_signal;
-
-static void
-run_cmd_handle_interrupt(int sig)
-{
-	run_cmd_interrupt_signal = sig;
-}
-
-static const int run_cmd_interrupts[] = { SIGHUP, SIGINT, SIGTERM };
-
-void
-run_cmd_catch_interrupts(void)
-{
-	uint32_t i;
-	for (i = 0; i < ARRAY_LEN(run_cmd_interrupts); ++i) {
-		struct sigaction sa, new_sa = { .sa_handler = run_cmd_handle_interrupt };
-		if (sigaction(run_cmd_interrupts[i], NULL, &sa) == 0 && sa.sa_handler == SIG_DFL) {
-			sigaction(run_cmd_interrupts[i], &new_sa, NULL);
-		}
-	}
-}
-
-bool
-run_cmd_interrupted(void)
-{
-	return run_cmd_interrupt_signal;
-}
-
-void
-run_cmd_raise_interrupt(void)
-{
-	signal(run_cmd_interrupt_signal, SIG_DFL);
-	raise(run_cmd_interrupt_signal);
-}
-
 bool
 run_cmd_unsplit(struct run_cmd_ctx *ctx, char *cmd, const char *envstr, uint32_t envc)
 {
diff --git a/src/platform/windows/run_cmd.c b/src/platform/windows/run_cmd.c
index e2d40bb..b5d30d8 100644
--- a/src/platform/windows/run_cmd.c
+++ b/src/platform/windows/run_cmd.c
@@ -622,22 +622,6 @@ run_cmd_ctx_destroy(struct run_cmd_ctx *ctx)
 	sbuf_destroy(&ctx->err);
 }
 
-void
-run_cmd_catch_interrupts(void)
-{
-}
-
-bool
-run_cmd_interrupted(void)
-{
-	return false;
-}
-
-void
-run_cmd_raise_interrupt(void)
-{
-}
-
 bool
 run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 {
-- 
2.43.0


From ff2eef2c0a2cd71c121d3e033b2cf87235a0d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 082/173] fix: configure_file took copy: false for a request to
 copy

---
 src/functions/kernel/configure_file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 5890831..d4d9e5b 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -629,7 +629,9 @@ func_configure_file(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		*get_obj_file(wk, *res) = output_str;
 	}
 
-	if (!exclusive_or((bool []) { akw[kw_command].set, akw[kw_configuration].set, akw[kw_copy].set }, 3)) {
+	const bool copy = akw[kw_copy].set && get_obj_bool(wk, akw[kw_copy].val);
+
+	if (!exclusive_or((bool []) { akw[kw_command].set, akw[kw_configuration].set, copy }, 3)) {
 		interp_error(wk, args_node, "you must pass either command:, configuration:, or copy:");
 		return false;
 	}
@@ -642,7 +644,7 @@ func_configure_file(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			akw[kw_depfile].val, capture)) {
 			return false;
 		}
-	} else if (akw[kw_copy].set) {
+	} else if (copy) {
 		obj input;
 		bool copy_res = false;
 
-- 
2.43.0


From e31594c98db1d235e06f077ac818611d2de93cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 083/173] fix: define lines with a tab, without a name or with
 CRLF were left alone or refused

---
 src/functions/kernel/configure_file.c | 31 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index d4d9e5b..ed525c0 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -56,6 +56,23 @@ configure_file_skip_whitespace(const struct source *src, uint32_t *i)
 	}
 }
 
+static bool
+configure_file_at_eol(const struct source *src, uint32_t i)
+{
+	return src->src[i] == 0 || src->src[i] == '\n' || (src->src[i] == '\r' && src->src[i + 1] == '\n');
+}
+
+static bool
+configure_file_is_define(const struct source *src, uint32_t i, const char *define, uint32_t define_len)
+{
+	if (strncmp(&src->src[i], define, define_len) != 0) {
+		return false;
+	}
+
+	i += define_len;
+	return src->src[i] == ' ' || src->src[i] == '\t' || configure_file_at_eol(src, i);
+}
+
 static uint32_t
 configure_var_len(const char *p)
 {
@@ -87,9 +104,9 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 {
 	const char *define;
 	if (syntax & configure_file_syntax_cmakedefine) {
-		define = "#cmakedefine ";
+		define = "#cmakedefine";
 	} else {
-		define = "#mesondefine ";
+		define = "#mesondefine";
 	}
 
 	const char *varstart;
@@ -125,7 +142,7 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 			++line;
 		}
 
-		if (i == start_of_line && strncmp(&src.src[i], define, define_len) == 0) {
+		if (i == start_of_line && configure_file_is_define(&src, i, define, define_len)) {
 			i += define_len;
 
 			configure_file_skip_whitespace(&src, &i);
@@ -140,7 +157,7 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 
 			configure_file_skip_whitespace(&src, &i);
 
-			if (!(src.src[i] == '\n' || src.src[i] == 0)) {
+			if (!configure_file_at_eol(&src, i)) {
 				if (syntax & configure_file_syntax_cmakedefine) {
 					if (src.src[i] == '@'
 					    && strncmp(&src.src[i + 1], &src.src[id_start], id_len) == 0
@@ -148,7 +165,7 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 						i += 2 + id_len;
 						configure_file_skip_whitespace(&src, &i);
 
-						if (!(src.src[i] == '\n' || src.src[i] == 0)) {
+						if (!configure_file_at_eol(&src, i)) {
 							goto extraneous_cmake_chars;
 						}
 					} else {
@@ -156,7 +173,7 @@ extraneous_cmake_chars:
 						{
 							uint32_t orig_i = i;
 
-							while (src.src[i] && src.src[i] != '\n') {
+							while (!configure_file_at_eol(&src, i)) {
 								++i;
 							}
 
@@ -172,7 +189,7 @@ extraneous_cmake_chars:
 				}
 			}
 
-			if (i == id_start) {
+			if (!id_len) {
 				error_messagef(&src, id_start_line, id_start_col, log_error, "key of zero length not supported");
 				return false;
 			} else if (!obj_dict_index_strn(wk, dict, &src.src[id_start], id_len, &elem)) {
-- 
2.43.0


From 4c468a7c15507b3a42d53be187c2e776e1ab541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 084/173] fix: @@ in a template was an error instead of plain
 text

---
 src/functions/kernel/configure_file.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index ed525c0..1929641 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -275,16 +275,13 @@ write_mesondefine:
 			id_start_col = id_start - start_of_line + 1;
 			i += configure_var_len(&src.src[id_start]);
 
-			if (src.src[i] != varend) {
+			if (src.src[i] != varend || i == id_start) {
 				i = id_start - 1;
 				sbuf_pushn(wk, &out_buf, varstart, varstart_len);
 				continue;
 			}
 
-			if (i <= id_start) {
-				error_messagef(&src, id_start_line, id_start_col, log_error, "key of zero length not supported");
-				return false;
-			} else if (!obj_dict_index_strn(wk, dict, &src.src[id_start], i - id_start, &elem)) {
+			if (!obj_dict_index_strn(wk, dict, &src.src[id_start], i - id_start, &elem)) {
 				error_messagef(&src, id_start_line, id_start_col, log_error, "key not found in configuration data");
 				return false;
 			}
-- 
2.43.0


From 9fe00f66f7944d0a741e4332d84f9b46d9532df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 085/173] fix: integer options took numbers out of range for
 another number

---
 src/options.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/options.c b/src/options.c
index e190697..402ac52 100644
--- a/src/options.c
+++ b/src/options.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -336,9 +337,10 @@ coerce_option_override(struct workspace *wk, uint32_t node, struct obj_option *o
 	case op_integer: {
 		int64_t num;
 		char *endptr;
-		num = strtol(val->s, &endptr, 10);
+		errno = 0;
+		num = strtoll(val->s, &endptr, 10);
 
-		if (!val->len || *endptr) {
+		if (!val->len || *endptr || errno == ERANGE) {
 			interp_error(wk, node, "unable to coerce '%s' into a number", val->s);
 			return false;
 		}
-- 
2.43.0


From 5c13a32b556834fb818ddda4f514a6564ebf7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 086/173] fix: array options took elements that are no strings

---
 src/options.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/options.c b/src/options.c
index 402ac52..66e6989 100644
--- a/src/options.c
+++ b/src/options.c
@@ -165,7 +165,11 @@ check_array_opt_iter(struct workspace *wk, void *_ctx, obj val)
 {
 	struct check_array_opt_ctx *ctx = _ctx;
 
-	if (!obj_array_in(wk, ctx->choices, val)) {
+	if (!typecheck(wk, ctx->node, val, obj_string)) {
+		return ir_err;
+	}
+
+	if (ctx->choices && !obj_array_in(wk, ctx->choices, val)) {
 		interp_error(wk, ctx->node, "array element %o is not one of %o", val, ctx->choices);
 		return ir_err;
 	}
@@ -529,13 +533,11 @@ set_option(struct workspace *wk, uint32_t node, obj opt, obj new_val,
 		break;
 	}
 	case op_array: {
-		if (o->choices) {
-			if (!obj_array_foreach(wk, new_val, &(struct check_array_opt_ctx) {
-					.choices = o->choices,
-					.node = node,
-				}, check_array_opt_iter)) {
-				return false;
-			}
+		if (!obj_array_foreach(wk, new_val, &(struct check_array_opt_ctx) {
+				.choices = o->choices,
+				.node = node,
+			}, check_array_opt_iter)) {
+			return false;
 		}
 		break;
 	}
-- 
2.43.0


From e3f52b4e4b4738464865667d2c82d494d31dd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:05 +0000
Subject: [PATCH 087/173] fix: crash on TAP tests whose output is not captured

---
 src/formats/lines.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formats/lines.c b/src/formats/lines.c
index 95bcde7..0f540a5 100644
--- a/src/formats/lines.c
+++ b/src/formats/lines.c
@@ -14,6 +14,10 @@ each_line(char *buf, uint64_t len, void *ctx, each_line_callback cb)
 {
 	char *line, *b;
 
+	if (!len) {
+		return;
+	}
+
 	line = buf;
 
 	while ((b = strchr(line, '\n'))) {
-- 
2.43.0


From 3144c6aa339ccc07fefa6da9ff0eba9f6a7335eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:25 +0000
Subject: [PATCH 088/173] fix: failed assertion on strings as long as a bucket

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index b2d0a41..c9b5218 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -78,7 +78,7 @@ reserve_str(struct workspace *wk, obj *s, uint32_t len)
 
 	uint32_t new_len = len + 1;
 
-	if (new_len > wk->chrs.bucket_size) {
+	if (new_len >= wk->chrs.bucket_size) {
 		f |= str_flag_big;
 		p = z_calloc(new_len, 1);
 	} else {
-- 
2.43.0


From 03afc10aa8a5418a7d67ec22a0642b70b96ce5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:25 +0000
Subject: [PATCH 089/173] fix: most characters special to the shell were not
 quoted in commands

---
 src/platform/posix/path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/platform/posix/path.c b/src/platform/posix/path.c
index 4f2a0f5..b94e21e 100644
--- a/src/platform/posix/path.c
+++ b/src/platform/posix/path.c
@@ -31,7 +31,9 @@ path_to_posix(char *path)
 void
 shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 {
-	const char *need_escaping = "\"'$ \\><&#\n";
+	// anything else may mean something to the shell
+	const char *safe = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
+			   "%+,-./:=@_";
 	const char *s;
 	bool do_esc = false;
 
@@ -41,7 +43,7 @@ shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 	}
 
 	for (s = str; *s; ++s) {
-		if (strchr(need_escaping, *s)) {
+		if (!strchr(safe, *s)) {
 			do_esc = true;
 			break;
 		}
-- 
2.43.0


From 08bead71ba62be14392f65f3fcd111b7f9adca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:25 +0000
Subject: [PATCH 090/173] fix: carriage returns in commands made the build file
 invalid

---
 src/backend/ninja/custom_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 919d62a..064da7c 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -29,7 +29,7 @@ ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
 		return ir_err;
 	}
 
-	if (strchr(ss->s, '\n')) {
+	if (strpbrk(ss->s, "\r\n")) {
 		return ir_err;
 	}
 
-- 
2.43.0


From 22aecd97ab406e5a654446d5ed2940922edf4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:25 +0000
Subject: [PATCH 091/173] fix: dicts and environments passed as env were
 changed

---
 src/coerce.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coerce.c b/src/coerce.c
index c710793..b886f2b 100644
--- a/src/coerce.c
+++ b/src/coerce.c
@@ -22,9 +22,15 @@ coerce_environment_from_kwarg(struct workspace *wk, struct args_kw *kw, bool set
 {
 	if (kw->set) {
 		if (get_obj_type(wk, kw->val) == obj_environment) {
-			*res = kw->val;
+			// the variables set below must not end up in the
+			// environment of the caller
+			make_obj(wk, res, obj_environment);
+			obj_array_dup(wk, get_obj_environment(wk, kw->val)->actions,
+				&get_obj_environment(wk, *res)->actions);
 		} else if (!coerce_key_value_dict(wk, kw->node, kw->val, res)) {
 			return false;
+		} else if (*res == kw->val) {
+			obj_dict_dup(wk, kw->val, res);
 		}
 	} else {
 		make_obj(wk, res, obj_dict);
-- 
2.43.0


From 0d517b8050faa1c75ba88da4d2cdb2bab3778198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:25 +0000
Subject: [PATCH 092/173] fix: compiler.run gave no string for empty output

---
 src/functions/compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index 929a884..b22fc9a 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -1655,8 +1655,8 @@ func_compiler_run(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 
 		if (ok) {
 			rr->flags |= run_result_flag_compile_ok;
-			rr->out = make_strn(wk, opts.cmd_ctx.out.buf, opts.cmd_ctx.out.len);
-			rr->err = make_strn(wk, opts.cmd_ctx.err.buf, opts.cmd_ctx.err.len);
+			rr->out = sbuf_into_str(wk, &opts.cmd_ctx.out);
+			rr->err = sbuf_into_str(wk, &opts.cmd_ctx.err);
 			rr->status = opts.cmd_ctx.status;
 		}
 
-- 
2.43.0


From 2c2f081703ff5a1629df21a68a5aab87599433e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:25 +0000
Subject: [PATCH 093/173] fix: commands that could not be started looked like
 ones that ended with status 1

---
 src/platform/posix/run_cmd.c | 57 ++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index f8221f6..ac7dce6 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -200,6 +200,38 @@ open_run_cmd_pipe(int fds[2], bool fds_open[2])
 	return true;
 }
 
+/*
+ * The child tells about a failure to start the command through this pipe,
+ * which is closed when it starts.
+ */
+static bool
+open_exec_pipe(int fds[2])
+{
+	if (pipe(fds) == -1) {
+		LOG_E("failed to create pipe: %s", strerror(errno));
+		return false;
+	}
+
+	if (fcntl(fds[0], F_SETFD, FD_CLOEXEC) == -1 || fcntl(fds[1], F_SETFD, FD_CLOEXEC) == -1) {
+		LOG_E("failed to set fd flag: %s", strerror(errno));
+		close(fds[0]);
+		close(fds[1]);
+		return false;
+	}
+
+	return true;
+}
+
+static bool
+read_exec_pipe(int fd, int *err)
+{
+	ssize_t r;
+	while ((r = read(fd, err, sizeof(*err))) == -1 && errno == EINTR) {
+	}
+
+	return r == sizeof(*err);
+}
+
 static bool
 run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, const char *envstr, uint32_t envc)
 {
@@ -265,7 +297,14 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 		}
 	}
 
+	int exec_pipe[2], exec_err;
+	if (!open_exec_pipe(exec_pipe)) {
+		goto err;
+	}
+
 	if ((ctx->pid = fork()) == -1) {
+		close(exec_pipe[0]);
+		close(exec_pipe[1]);
 		goto err;
 	} else if (ctx->pid == 0 /* child */) {
 		if (ctx->chdir) {
@@ -319,14 +358,28 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 		}
 
 		if (execve(cmd.buf, (char *const *)argv, environ) == -1) {
-			LOG_E("%s: %s", cmd.buf, strerror(errno));
-			exit(1);
+			exec_err = errno;
+			if (write(exec_pipe[1], &exec_err, sizeof(exec_err)) == -1) {
+				LOG_E("%s: %s", cmd.buf, strerror(exec_err));
+			}
+			_exit(1);
 		}
 
 		abort();
 	}
 
 	/* parent */
+	close(exec_pipe[1]);
+	bool started = !read_exec_pipe(exec_pipe[0], &exec_err);
+	close(exec_pipe[0]);
+
+	if (!started) {
+		LOG_E("%s: %s", cmd.buf, strerror(exec_err));
+		waitpid(ctx->pid, NULL, 0);
+		ctx->err_msg = "failed to start command";
+		goto err;
+	}
+
 	sbuf_destroy(&cmd);
 
 	if (ctx->pipefd_err_open[1] && close(ctx->pipefd_err[1]) == -1) {
-- 
2.43.0


From 1b79caa59a0745dcefb3998e76668b7c51eae34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 094/173] fix: generator arguments with newlines could not be
 written

---
 src/backend/ninja/custom_target.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 064da7c..69f8ca0 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -51,6 +51,15 @@ write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj
 	sbuf_pushf(wk, &name, "%s%d.dat", get_cstr(wk, tgt->name), custom_tgt_dat_sequence);
 	++custom_tgt_dat_sequence;
 
+	{ // targets made for generators are named after their source path
+		uint32_t i;
+		for (i = 0; i < name.len; ++i) {
+			if (name.buf[i] == '/') {
+				name.buf[i] = '_';
+			}
+		}
+	}
+
 	SBUF(dirpath);
 	SBUF(dat_path);
 	path_join(wk, &dirpath, wk->muon_private, dir);
-- 
2.43.0


From 0b7a4aecccf52beecb2de8d3d3812ff5996f9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 095/173] fix: dollar signs in the command line were lost when
 regenerating

---
 src/backend/ninja/rules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 8bc4fca..169870a 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -296,7 +296,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		output_path.private_dir
 		);
 
-	obj regen_cmd = join_args_shell(wk, regenerate_build_command(wk, false));
+	obj regen_cmd = join_args_shell_ninja(wk, regenerate_build_command(wk, false));
 
 	fprintf(out,
 		"rule REGENERATE_BUILD\n"
-- 
2.43.0


From a2ba39bb6059425c688560c5483a2f1ec777e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 096/173] fix: compilers in paths with spaces could not be used

---
 include/args.h            |  1 +
 src/args.c                |  2 +-
 src/backend/ninja/rules.c | 12 +++++++-----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/args.h b/include/args.h
index b148a91..bd6798a 100644
--- a/include/args.h
+++ b/include/args.h
@@ -13,6 +13,7 @@ struct args {
 	uint32_t len;
 };
 
+void shell_ninja_escape(struct workspace *wk, struct sbuf *sb, const char *str);
 void ninja_escape(struct workspace *wk, struct sbuf *sb, const char *str);
 void pkgconf_escape(struct workspace *wk, struct sbuf *sb, const char *str);
 
diff --git a/src/args.c b/src/args.c
index 64bb2ce..e8d6952 100644
--- a/src/args.c
+++ b/src/args.c
@@ -60,7 +60,7 @@ ninja_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 	simple_escape(wk, sb, str, " :$", '$');
 }
 
-static void
+void
 shell_ninja_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 {
 	SBUF_manual(tmp);
diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 169870a..823b63b 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -67,14 +67,14 @@ write_linker_rule_iter(struct workspace *wk, void *_ctx, enum compiler_language
 	bool compiler_is_linker = comp->type != compiler_msvc;
 
 	if (compiler_is_linker) {
-		obj_array_extend(wk, args, comp->cmd_arr);
+		obj_array_push(wk, args, join_args_shell_ninja(wk, comp->cmd_arr));
 		obj_array_push(wk, args, make_str(wk, "$ARGS"));
 
 		push_args(wk, args, compilers[t].args.output("$out"));
 		obj_array_push(wk, args, make_str(wk, "$in"));
 		obj_array_push(wk, args, make_str(wk, "$LINK_ARGS"));
 	} else {
-		obj_array_extend(wk, args, comp->linker_cmd_arr);
+		obj_array_push(wk, args, join_args_shell_ninja(wk, comp->linker_cmd_arr));
 		obj_array_push(wk, args, make_str(wk, "$ARGS"));
 		push_args(wk, args, linkers[comp->linker_type].args.input_output("$in", "$out"));
 		obj_array_push(wk, args, make_str(wk, "$LINK_ARGS"));
@@ -112,7 +112,7 @@ write_compiler_rule(struct workspace *wk, FILE *out, obj rule_args, obj rule_nam
 
 	obj args;
 	make_obj(wk, &args, obj_array);
-	obj_array_extend(wk, args, comp->cmd_arr);
+	obj_array_push(wk, args, join_args_shell_ninja(wk, comp->cmd_arr));
 	obj_array_push(wk, args, rule_args);
 
 	if (compilers[t].deps) {
@@ -427,7 +427,9 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 
 				if (comp->static_linker_type == static_linker_ar_posix
 				    || comp->static_linker_type == static_linker_ar_gcc) {
-					obj_array_push(wk, static_link_args, make_str(wk, wk->argv0));
+					SBUF(argv0);
+					shell_ninja_escape(wk, &argv0, wk->argv0);
+					obj_array_push(wk, static_link_args, sbuf_into_str(wk, &argv0));
 					obj_array_push(wk, static_link_args, make_str(wk, "internal"));
 					obj_array_push(wk, static_link_args, make_str(wk, "exe"));
 					obj_array_push(wk, static_link_args, make_str(wk, "-R"));
@@ -435,7 +437,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 					obj_array_push(wk, static_link_args, make_str(wk, "--"));
 				}
 
-				obj_array_extend(wk, static_link_args, comp->static_linker_cmd_arr);
+				obj_array_push(wk, static_link_args, join_args_shell_ninja(wk, comp->static_linker_cmd_arr));
 				push_args(wk, static_link_args, static_linkers[comp->static_linker_type].args.base());
 				push_args(wk, static_link_args, static_linkers[comp->static_linker_type].args.input_output("$in", "$out"));
 
-- 
2.43.0


From 9cf849b3ba845b606464988f212ae8df7e80ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 097/173] fix: bytes of value 255 ended ninja files

---
 src/external/samurai/scan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/external/samurai/scan.c b/src/external/samurai/scan.c
index 97c114c..cf1a8f2 100644
--- a/src/external/samurai/scan.c
+++ b/src/external/samurai/scan.c
@@ -31,7 +31,7 @@ samu_scaninit(struct samu_scanner *s, const char *path)
 		samu_fatal("failed to read %s", path);
 	}
 
-	s->chr = s->src.src[0];
+	s->chr = s->src.len ? (unsigned char)s->src.src[0] : EOF;
 }
 
 void
@@ -63,7 +63,7 @@ samu_next(struct samu_scanner *s)
 		++s->col;
 	}
 	if (s->src_i < s->src.len) {
-		s->chr = s->src.src[s->src_i];
+		s->chr = (unsigned char)s->src.src[s->src_i];
 		++s->src_i;
 	} else {
 		s->chr = EOF;
-- 
2.43.0


From a8832dac48a0267f42441e3053987e043eb4c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 098/173] fix: endless loop on a ninja file that ends in a
 comment

---
 src/external/samurai/scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external/samurai/scan.c b/src/external/samurai/scan.c
index cf1a8f2..5616a7b 100644
--- a/src/external/samurai/scan.c
+++ b/src/external/samurai/scan.c
@@ -133,7 +133,7 @@ samu_comment(struct samu_scanner *s)
 	if (s->chr != '#')
 		return false;
 	do samu_next(s);
-	while (!samu_newline(s));
+	while (!samu_newline(s) && s->chr != EOF);
 	return true;
 }
 
-- 
2.43.0


From e6e3686ae9837d5c8bcd60cc4f829bdc1cd6c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 099/173] fix: dollar sign at the end of a ninja file was read
 twice

---
 src/external/samurai/scan.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/external/samurai/scan.c b/src/external/samurai/scan.c
index 5616a7b..0507d14 100644
--- a/src/external/samurai/scan.c
+++ b/src/external/samurai/scan.c
@@ -102,12 +102,14 @@ samu_newline(struct samu_scanner *s)
 static bool
 samu_singlespace(struct samu_scanner *s)
 {
+	size_t i = s->src_i;
+
 	switch (s->chr) {
 	case '$':
 		samu_next(s);
 		if (samu_newline(s))
 			return true;
-		--s->src_i;
+		s->src_i = i;
 		s->chr = '$';
 		return false;
 	case ' ':
-- 
2.43.0


From 62dfcd9822b598d8d617a1af7a463ae8c039c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 100/173] fix: install ended with success after errors

---
 include/lang/object.h                |  1 +
 src/cmd_install.c                    | 19 ++++++++++++++-----
 src/functions/kernel/custom_target.c |  9 +++++++++
 src/lang/object.c                    |  1 +
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index d161509..f8e3679 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -395,6 +395,7 @@ struct obj_install_target {
 	obj exclude_files; // obj_array of obj_string
 	enum install_target_type type;
 	bool build_target;
+	bool optional; // may not have been built
 };
 
 struct obj_environment {
diff --git a/src/cmd_install.c b/src/cmd_install.c
index 25bf030..9dea3a4 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -144,6 +144,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 		return ir_cont;
 	}
 
+	if (in->optional && !fs_exists(src)) {
+		LOG_I("skipping '%s', it was not built", src);
+		return ir_cont;
+	}
+
 	switch (in->type) {
 	case install_target_default:
 	case install_target_symlink:
@@ -185,6 +190,12 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 			return ir_err;
 		}
 
+		if (!fs_exists(src)) {
+			// install_subdir() of a missing directory creates an
+			// empty one
+			break;
+		}
+
 		struct copy_subdir_ctx ctx = {
 			.exclude_directories = in->exclude_directories,
 			.exclude_files = in->exclude_files,
@@ -273,7 +284,7 @@ err:
 bool
 install_run(struct install_options *opts)
 {
-	bool ret = true;
+	bool ret = false;
 	SBUF_manual(install_src);
 	path_join(NULL, &install_src, output_path.private_dir, output_path.install);
 
@@ -323,10 +334,8 @@ install_run(struct install_options *opts)
 		ctx.full_prefix = ctx.prefix;
 	}
 
-	obj_array_foreach(&wk, install_targets, &ctx, install_iter);
-	obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
-
-	ret = true;
+	ret = obj_array_foreach(&wk, install_targets, &ctx, install_iter)
+	      && obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
 ret:
 	workspace_destroy_bare(&wk);
 	return ret;
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 52f3d82..5a576a5 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -748,10 +748,19 @@ func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			install_dir = i0;
 		}
 
+		uint32_t i = get_obj_array(wk, wk->install)->len;
+
 		if (!push_install_targets(wk, akw[kw_install_dir].node, tgt->output,
 			install_dir, install_mode_id, false)) {
 			return false;
 		}
+
+		for (; i < get_obj_array(wk, wk->install)->len; ++i) {
+			obj install_tgt;
+			obj_array_index(wk, wk->install, i, &install_tgt);
+			get_obj_install_target(wk, install_tgt)->optional
+				= !(tgt->flags & custom_target_build_by_default);
+		}
 	}
 
 	if (!coerce_environment_from_kwarg(wk, &akw[kw_env], false, &tgt->env)) {
diff --git a/src/lang/object.c b/src/lang/object.c
index aecde40..f3bd34d 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1612,6 +1612,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		o->src = str_clone(wk_src, wk_dest, in->src);
 		o->dest = str_clone(wk_src, wk_dest, in->dest);
 		o->build_target = in->build_target;
+		o->optional = in->optional;
 		o->type = in->type;
 
 		o->has_perm = in->has_perm;
-- 
2.43.0


From 3f0ad4e7b01d2c9d203f202239188ead1f38d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 101/173] fix: install directories with .. escaped DESTDIR

---
 src/cmd_install.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 9dea3a4..3c593e0 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -119,7 +119,12 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 
 	SBUF(full_dest_dir);
 	if (ctx->destdir) {
-		path_join_absolute(wk, &full_dest_dir, get_cstr(wk, ctx->destdir), dest);
+		// destinations like /usr/../.. must not leave destdir
+		SBUF(normalized_dest);
+		path_copy(wk, &normalized_dest, dest);
+		_path_normalize(wk, &normalized_dest, true);
+
+		path_join_absolute(wk, &full_dest_dir, get_cstr(wk, ctx->destdir), normalized_dest.buf);
 		dest = full_dest_dir.buf;
 	}
 
-- 
2.43.0


From d405f7370cd61a3775c6ea4dcdd371860232c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 102/173] fix: installing over read-only files failed and
 symlinks were written through

---
 src/cmd_install.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 3c593e0..4480c2c 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -21,6 +21,24 @@
 #include "platform/rpath_fixer.h"
 #include "platform/run_cmd.h"
 
+static bool
+install_file(const char *src, const char *dest)
+{
+	if (strcmp(src, dest) == 0) {
+		return true;
+	}
+
+	// replace whatever was there, rather than writing through symlinks
+	// or failing because it is not writable
+	if (fs_symlink_exists(dest) || fs_file_exists(dest)) {
+		if (!fs_remove(dest)) {
+			return false;
+		}
+	}
+
+	return fs_copy_file(src, dest);
+}
+
 struct copy_subdir_ctx {
 	obj exclude_directories;
 	obj exclude_files;
@@ -83,7 +101,7 @@ copy_subdir_iter(void *_ctx, const char *path)
 
 		LOG_I("install '%s' -> '%s'", src.buf, dest.buf);
 
-		if (!fs_copy_file(src.buf, dest.buf)) {
+		if (!install_file(src.buf, dest.buf)) {
 			return ir_err;
 		}
 	} else {
@@ -174,7 +192,7 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 					return ir_err;
 				}
 			} else {
-				if (!fs_copy_file(src, dest)) {
+				if (!install_file(src, dest)) {
 					return ir_err;
 				}
 			}
-- 
2.43.0


From 4f4fe9461448bf2f7a32e3a40bf8899587d52c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 103/173] fix: integer install_mode was refused without a
 message

---
 src/install.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/install.c b/src/install.c
index f5667f3..77e0a3f 100644
--- a/src/install.c
+++ b/src/install.c
@@ -113,6 +113,7 @@ push_install_target(struct workspace *wk, obj src, obj dest, obj mode)
 			tgt->has_perm = true;
 			break;
 		default:
+			LOG_E("install_mode must start with a permission string or false");
 			return NULL;
 		}
 	}
-- 
2.43.0


From 05405e1f5b46dbac7613a8a99addb70ff97c0928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 104/173] fix: keys missing from the configuration of a nested
 source set were ignored

---
 src/functions/source_set.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index bc9e271..3c78c45 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -263,7 +263,9 @@ source_set_collect_rules_iter(struct workspace *wk, void *_ctx, obj v)
 			obj_array_foreach_flat(wk, when, ctx, source_set_collect_when_deps_iter);
 		}
 
-		obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter);
+		if (!obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter)) {
+			return ir_err;
+		}
 	}
 
 	if ((!ctx->conf || !ctx->match) && if_false) {
@@ -282,6 +284,7 @@ source_set_collect(struct workspace *wk, uint32_t err_node, obj rcvr,
 		.mode = mode,
 		.conf = conf,
 		.strict = strict,
+		.err_node = err_node,
 		.res = arr,
 	};
 
@@ -353,12 +356,12 @@ func_source_set_apply(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 	make_obj(wk, res, obj_source_configuration);
 	struct obj_source_configuration *sc = get_obj_source_configuration(wk, *res);
 
-	if (!source_set_collect(wk, akw[kw_strict].node, rcvr, dict,
+	if (!source_set_collect(wk, an[0].node, rcvr, dict,
 		source_set_collect_sources, strict, &sc->sources)) {
 		return false;
 	}
 
-	if (!source_set_collect(wk, akw[kw_strict].node, rcvr, dict,
+	if (!source_set_collect(wk, an[0].node, rcvr, dict,
 		source_set_collect_dependencies, strict, &sc->dependencies)) {
 		return false;
 	}
-- 
2.43.0


From 40faaec59b98d6a96ddbd955b9cbd963f6ed5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 105/173] fix: source set conditions were off for negative
 numbers and crashed on arrays

---
 src/functions/source_set.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index 3c78c45..9e52468 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -214,10 +214,12 @@ source_set_rule_match_iter(struct workspace *wk, void *_ctx, obj v)
 			bv = get_str(wk, idx)->len > 0;
 			break;
 		case obj_number:
-			bv = get_obj_number(wk, idx) > 0;
+			bv = get_obj_number(wk, idx) != 0;
 			break;
 		default:
-			UNREACHABLE;
+			interp_error(wk, ctx->err_node, "key %o has a value of type %s in configuration, expected bool, string, or number",
+				v, obj_type_to_s(get_obj_type(wk, idx)));
+			return ir_err;
 		}
 
 		if (!bv) {
-- 
2.43.0


From c79aaadf9c7ecd998e3c555496e8b57a9fcddd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 106/173] fix: dependencies of source set rules without if_true
 were lost

---
 src/functions/source_set.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index 9e52468..a7fb311 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -260,11 +260,11 @@ source_set_collect_rules_iter(struct workspace *wk, void *_ctx, obj v)
 		return ir_err;
 	}
 
-	if (ctx->match && if_true) {
-		if (when && ctx->mode == source_set_collect_dependencies) {
-			obj_array_foreach_flat(wk, when, ctx, source_set_collect_when_deps_iter);
-		}
+	if (ctx->match && when && ctx->mode == source_set_collect_dependencies) {
+		obj_array_foreach_flat(wk, when, ctx, source_set_collect_when_deps_iter);
+	}
 
+	if (ctx->match && if_true) {
 		if (!obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter)) {
 			return ir_err;
 		}
-- 
2.43.0


From 978046d77aa12f5a0229cb223843beb8064b8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 107/173] fix: source sets could be changed after they were
 queried

---
 src/functions/source_set.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index a7fb311..3329098 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -307,6 +307,8 @@ func_source_set_all_sources(struct workspace *wk, obj rcvr, uint32_t args_node,
 		return false;
 	}
 
+	get_obj_source_set(wk, rcvr)->frozen = true;
+
 	return source_set_collect(wk, 0, rcvr, 0, source_set_collect_sources, true, res);
 }
 
@@ -317,6 +319,8 @@ func_source_set_all_dependencies(struct workspace *wk, obj rcvr, uint32_t args_n
 		return false;
 	}
 
+	get_obj_source_set(wk, rcvr)->frozen = true;
+
 	return source_set_collect(wk, 0, rcvr, 0, source_set_collect_dependencies, true, res);
 }
 
-- 
2.43.0


From c35efa6c1cfd3bc45ba82a0c617b4dc4a1600fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 108/173] fix: endless recursion for source sets added to
 themselves

---
 src/functions/source_set.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index 3329098..9784b13 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -45,6 +45,11 @@ source_set_add_rule(struct workspace *wk, obj rcvr, struct args_norm *posargs,
 
 	if (if_true) {
 		obj_array_foreach(wk, if_true, NULL, source_set_freeze_nested_iter);
+
+		if (get_obj_source_set(wk, rcvr)->frozen) {
+			interp_error(wk, posargs->node, "a source set cannot be added to itself");
+			return false;
+		}
 	}
 
 	obj rule;
-- 
2.43.0


From b5fdee380cd1f0317f93fb5599499c33bc472ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 109/173] fix: rpaths after the build directory were cut off on
 install

---
 src/platform/posix/rpath_fixer.c | 88 +++++++++++++++-----------------
 1 file changed, 42 insertions(+), 46 deletions(-)

diff --git a/src/platform/posix/rpath_fixer.c b/src/platform/posix/rpath_fixer.c
index 9d236b5..1c55caa 100644
--- a/src/platform/posix/rpath_fixer.c
+++ b/src/platform/posix/rpath_fixer.c
@@ -14,6 +14,7 @@
 #include <string.h>
 
 #include "buf_size.h"
+#include "lang/string.h"
 #include "log.h"
 #include "platform/filesystem.h"
 #include "platform/path.h"
@@ -207,66 +208,61 @@ parse_elf_dynamic(FILE *f, struct elf *elf, struct elf_section *s_dynamic, struc
 static bool
 remove_paths(FILE *f, struct elf_section *s_dynstr, struct elf_dynstr *str, const char *build_root, bool *cleared)
 {
-	char rpath[BUF_SIZE_4k];
-	uint32_t rpath_len = 0,
-		 cur_off = s_dynstr->off + str->off,
-		 copy_to = cur_off;
-	bool modified = false, preserve_separator = false;
-	*cleared = true;
-
-	if (!fs_fseek(f, cur_off)) {
-		return false;
+	bool ret = false;
+	uint32_t len = 0;
+	const uint32_t off = s_dynstr->off + str->off;
+
+	SBUF_manual(rpath);
+	SBUF_manual(kept);
+
+	if (!fs_fseek(f, off)) {
+		goto ret;
 	}
 
-	for (;; ++cur_off) {
+	while (true) {
 		char c;
 		if (!fs_fread(&c, 1, f)) {
-			return false;
+			goto ret;
 		}
 
-		if (!c || c == ':') {
-			assert(rpath_len <= ARRAY_LEN(rpath));
-			rpath[rpath_len] = 0;
-
-			if (path_is_subpath(build_root, rpath) || rpath_len == 0) {
-				modified = true;
-			} else {
-				if (modified) {
-					if (!fs_fseek(f, copy_to + (preserve_separator ? 1 : 0))) {
-						return false;
-					} else if (!fs_fwrite(rpath, rpath_len, f)) {
-						return false;
-					} else if (!fs_fwrite(&c, 1, f)) {
-						return false;
-					} else if (!fs_fseek(f, cur_off + 1)) {
-						return false;
-					}
-				}
-				copy_to += rpath_len;
-				preserve_separator = c == ':';
-				*cleared = false;
-			}
+		if (c && c != ':') {
+			sbuf_push(NULL, &rpath, c);
+			++len;
+			continue;
+		}
 
-			rpath_len = 0;
-			if (!c) {
-				break;
-			} else if (c == ':') {
-				continue;
+		if (rpath.len && !path_is_subpath(build_root, rpath.buf)) {
+			if (kept.len) {
+				sbuf_push(NULL, &kept, ':');
 			}
+			sbuf_pushs(NULL, &kept, rpath.buf);
 		}
 
-		assert(rpath_len < ARRAY_LEN(rpath));
-		rpath[rpath_len] = c;
-		++rpath_len;
+		sbuf_clear(&rpath);
+
+		if (!c) {
+			break;
+		}
+		++len;
 	}
 
-	if (!fs_fseek(f, copy_to)) {
-		return false;
-	} else if (!fs_fwrite((char []) { 0 }, 1, f)) {
-		return false;
+	*cleared = !kept.len;
+
+	if (kept.len != len) {
+		if (!fs_fseek(f, off)) {
+			goto ret;
+		} else if (kept.len && !fs_fwrite(kept.buf, kept.len, f)) {
+			goto ret;
+		} else if (!fs_fwrite((char []) { 0 }, 1, f)) {
+			goto ret;
+		}
 	}
 
-	return true;
+	ret = true;
+ret:
+	sbuf_destroy(&rpath);
+	sbuf_destroy(&kept);
+	return ret;
 }
 
 static bool
-- 
2.43.0


From 963d79b8fc6baae1f224c9c40bee9519be2de10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 110/173] fix: the wrong entry was removed from binaries with
 both rpath and runpath

---
 src/platform/posix/rpath_fixer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/platform/posix/rpath_fixer.c b/src/platform/posix/rpath_fixer.c
index 1c55caa..62835e7 100644
--- a/src/platform/posix/rpath_fixer.c
+++ b/src/platform/posix/rpath_fixer.c
@@ -344,6 +344,14 @@ fix_rpaths(const char *elf_path, const char *build_root)
 			if (!remove_path_entry(f, &elf, &s_dynamic, &rpaths[i])) {
 				goto ret;
 			}
+
+			// the entries after it moved
+			uint32_t j;
+			for (j = i + 1; j < ARRAY_LEN(rpaths); ++j) {
+				if (rpaths[j].found && rpaths[j].index > rpaths[i].index) {
+					--rpaths[j].index;
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 4131ef566299fdf0005781c0805dbbd4b725c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:27 +0000
Subject: [PATCH 111/173] fix: dependency files with legal characters in names
 were refused, and names were not normalised

---
 src/external/samurai/deps.c | 252 ++++++++++++++++++------------------
 1 file changed, 128 insertions(+), 124 deletions(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 27adbd5..eeb147a 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -136,22 +136,6 @@ src_fread(void *buf, size_t sz, size_t n, struct seekable_source *src)
 	return r;
 }
 
-static char
-src_getc(struct seekable_source *src)
-{
-	if (src->i >= src->src.len) {
-		return EOF;
-	} else {
-		char c = src->src.src[src->i];
-		if (c == '\r' && src->src.src[src->i + 1] == '\n') {
-			c = '\n';
-			++src->i;
-		}
-		++src->i;
-		return c;
-	}
-}
-
 void
 samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 {
@@ -342,13 +326,96 @@ samu_depsclose(struct samu_ctx *ctx)
 	ctx->deps.depsfile = NULL;
 }
 
+static bool
+samu_depsblank(char c)
+{
+	return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\0';
+}
+
+/* returns the end of a line continuation at s, or NULL if there is none */
+static const char *
+samu_depscontinuation(const char *s, const char *end)
+{
+	if (s < end && *s == '\\') {
+		++s;
+		if (s < end && *s == '\r') {
+			++s;
+		}
+		if (s < end && *s == '\n') {
+			return s + 1;
+		}
+	}
+	return NULL;
+}
+
+/* reads one file name into the buffer, undoing the escaping of make. Ends
+ * after an unescaped colon which ends the targets, or before a separator. */
+static const char *
+samu_depsname(struct samu_ctx *ctx, const char *s, const char *end, bool targets, bool *sawcolon)
+{
+	struct samu_buffer *buf = &ctx->deps.buf;
+	size_t n;
+
+	buf->len = 0;
+	while (s < end && *s != '\n' && !samu_depsblank(*s) && !samu_depscontinuation(s, end)) {
+		if (*s == '\\') {
+			for (n = 1; s + n < end && s[n] == '\\'; ++n) {
+			}
+			if (s + n == end) {
+				s += n;
+			} else if (s[n] == ' ' || s[n] == '\t') {
+				/* 2n+1 backslashes: n backslashes and a blank, 2n: the name ends */
+				s += n;
+				if (n % 2 == 0) {
+					for (; n; --n) {
+						samu_bufadd(&ctx->arena, buf, '\\');
+					}
+					continue;
+				}
+				n /= 2;
+			} else if (s[n] == '#') {
+				s += n--;
+			} else if (s[n] == ':' && s + n + 1 < end && s[n + 1] != '\n' && !samu_depsblank(s[n + 1])) {
+				s += n--;
+			} else if (samu_depscontinuation(s + n - 1, end)) {
+				s += --n;
+				for (; n; --n) {
+					samu_bufadd(&ctx->arena, buf, '\\');
+				}
+				continue;
+			} else {
+				s += n;
+				for (; n; --n) {
+					samu_bufadd(&ctx->arena, buf, '\\');
+				}
+				continue;
+			}
+			for (; n; --n) {
+				samu_bufadd(&ctx->arena, buf, '\\');
+			}
+			if (s == end) {
+				break;
+			}
+		} else if (*s == '$' && s + 1 < end && s[1] == '$') {
+			++s;
+		} else if (*s == ':' && targets
+			   && (s + 1 == end || (s[1] != '/' && (s[1] != '\\' || samu_depscontinuation(s + 1, end))))) {
+			*sawcolon = true;
+			return s + 1;
+		}
+		samu_bufadd(&ctx->arena, buf, *s);
+		++s;
+	}
+	return s;
+}
+
 static struct samu_nodearray *
 samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 {
-	struct samu_string *in, *out = NULL;
-	struct seekable_source src = { 0 };
-	int c, n;
-	bool sawcolon;
+	struct samu_string *in;
+	struct source src = { 0 };
+	const char *s, *end, *next;
+	bool targets = true, sawtarget = false, sawcolon = false;
 
 	ctx->deps.deps.len = 0;
 	if (!fs_exists(name)) {
@@ -358,120 +425,57 @@ samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 		return 0;
 	}
 
-	if (!fs_read_entire_file(name, &src.src)) {
+	if (!fs_read_entire_file(name, &src)) {
 		return 0;
 	}
 
-	sawcolon = false;
-	ctx->deps.buf.len = 0;
-	c = src_getc(&src);
-	for (;;) {
-		/* TODO: this parser needs to be rewritten to be made simpler */
-		while (isalnum(c) || strchr("$+,-./@\\_", c)) {
-			switch (c) {
-			case '\\':
-				/* handle the crazy escaping generated by clang and gcc */
-				n = 0;
-				do {
-					c = src_getc(&src);
-					if (++n % 2 == 0) {
-						samu_bufadd(&ctx->arena, &ctx->deps.buf, '\\');
-					}
-				} while (c == '\\');
-				if ((c == ' ' || c == '\t') && n % 2 != 0) {
-					break;
-				}
-				for (; n > 2; n -= 2) {
-					samu_bufadd(&ctx->arena, &ctx->deps.buf, '\\');
-				}
-				switch (c) {
-				case '#':  break;
-				case '\n': c = ' '; continue;
-				default:   samu_bufadd(&ctx->arena, &ctx->deps.buf, '\\'); continue;
-				}
-				break;
-			case '$':
-				c = src_getc(&src);
-				if (c != '$') {
-					samu_warn("bad depfile[%d]: contains variable reference", (int)src.i);
-					goto err;
-				}
-				break;
-			}
-			samu_bufadd(&ctx->arena, &ctx->deps.buf, c);
-			c = src_getc(&src);
+	s = src.src;
+	end = s + src.len;
+	while (s < end) {
+		if ((next = samu_depscontinuation(s, end))) {
+			s = next;
+			continue;
+		} else if (*s == '\n') {
+			targets = true;
+			++s;
+			continue;
+		} else if (samu_depsblank(*s)) {
+			++s;
+			continue;
 		}
-		if (sawcolon) {
-			if (!isspace(c) && c != EOF) {
-				samu_warn("bad depfile[%d]: '%c' is not a valid target character", (int)src.i, c);
-				goto err;
-			}
-			if (ctx->deps.buf.len > 0) {
-				if (ctx->deps.deps.len == ctx->deps.depscap) {
-					size_t newcap = ctx->deps.deps.node ? ctx->deps.depscap * 2 : 32;
-					ctx->deps.deps.node = samu_xreallocarray(&ctx->arena, ctx->deps.deps.node, ctx->deps.depscap, newcap, sizeof(ctx->deps.deps.node[0]));
-					ctx->deps.depscap = newcap;
-				}
-				in = samu_mkstr(&ctx->arena, ctx->deps.buf.len);
-				memcpy(in->s, ctx->deps.buf.data, ctx->deps.buf.len);
-				in->s[ctx->deps.buf.len] = '\0';
-				ctx->deps.deps.node[ctx->deps.deps.len++] = samu_mknode(ctx, in);
-			}
-			if (c == '\n') {
-				sawcolon = false;
-				do{
-					c = src_getc(&src);
-				}while (c == '\n');
-			}
-			if (c == EOF) {
-				break;
-			}
-		} else {
-			while (isblank(c)) {
-				c = src_getc(&src);
-			}
-			if (c == EOF) {
-				break;
+		if (targets) {
+			bool colon = false;
+			s = samu_depsname(ctx, s, end, true, &colon);
+			sawtarget = true;
+			if (colon) {
+				sawcolon = true;
+				targets = false;
 			}
-			if (c != ':') {
-				samu_warn("bad depfile: expected ':', saw '%c'", c);
-				goto err;
-			}
-			if (!out) {
-				out = samu_mkstr(&ctx->arena, ctx->deps.buf.len);
-				memcpy(out->s, ctx->deps.buf.data, ctx->deps.buf.len);
-				out->s[ctx->deps.buf.len] = '\0';
-			} else if (out->n != ctx->deps.buf.len || memcmp(ctx->deps.buf.data, out->s, ctx->deps.buf.len) != 0) {
-				samu_fatal("bad depfile: multiple outputs: %.*s != %s", (int)ctx->deps.buf.len, ctx->deps.buf.data, out->s);
-				goto err;
-			}
-			sawcolon = true;
-			c = src_getc(&src);
+			continue;
 		}
-		ctx->deps.buf.len = 0;
-		for (;;) {
-			if (c == '\\') {
-				if (src_getc(&src) != '\n') {
-					samu_warn("bad depfile[%d]: '\\' only allowed before newline", (int)src.i);
-					printf("%s", src.src.src);
-					goto err;
-				}
-			} else if (!isblank(c)) {
-				break;
-			}
-			c = src_getc(&src);
+		s = samu_depsname(ctx, s, end, false, NULL);
+		if (!ctx->deps.buf.len) {
+			continue;
+		}
+		if (ctx->deps.deps.len == ctx->deps.depscap) {
+			size_t newcap = ctx->deps.deps.node ? ctx->deps.depscap * 2 : 32;
+			ctx->deps.deps.node = samu_xreallocarray(&ctx->arena, ctx->deps.deps.node, ctx->deps.depscap, newcap, sizeof(ctx->deps.deps.node[0]));
+			ctx->deps.depscap = newcap;
 		}
+		in = samu_mkstr(&ctx->arena, ctx->deps.buf.len);
+		memcpy(in->s, ctx->deps.buf.data, ctx->deps.buf.len);
+		in->s[ctx->deps.buf.len] = '\0';
+		/* the same file must be the same node however it is spelled */
+		samu_canonpath(in);
+		ctx->deps.deps.node[ctx->deps.deps.len++] = samu_mknode(ctx, in);
 	}
+	fs_source_destroy(&src);
 
-	fs_source_destroy(&src.src);
-	return &ctx->deps.deps;
-
-err:
-	fs_source_destroy(&src.src);
-	if (!allowmissing) {
-		samu_fatal("failed to parse depfile %s", name);
+	if (sawtarget && !sawcolon) {
+		samu_warn("bad depfile %s: expected ':'", name);
+		return NULL;
 	}
-	return NULL;
+	return &ctx->deps.deps;
 }
 
 void
-- 
2.43.0


From 91b82415e27c702ce8d2ab90d12837a849fbce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:09 +0000
Subject: [PATCH 112/173] fix: a ninja variable bound to nothing counted as set

---
 include/external/samurai/env.h |  2 ++
 src/external/samurai/build.c   | 10 +++++-----
 src/external/samurai/deps.c    | 10 +++++-----
 src/external/samurai/env.c     |  9 +++++++++
 src/external/samurai/parse.c   |  2 +-
 5 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/external/samurai/env.h b/include/external/samurai/env.h
index 4915e4e..75988af 100644
--- a/include/external/samurai/env.h
+++ b/include/external/samurai/env.h
@@ -38,5 +38,7 @@ struct samu_pool *samu_poolget(struct samu_ctx *ctx, char *name);
 
 /* evaluate and return an edge's variable, optionally shell-escaped */
 struct samu_string *samu_edgevar(struct samu_ctx *ctx, struct samu_edge *e, char *var, bool escape);
+/* like samu_edgevar, but returns NULL for a variable bound to nothing */
+struct samu_string *samu_edgevarset(struct samu_ctx *ctx, struct samu_edge *e, char *var, bool escape);
 
 #endif
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index fdd9089..9894152 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -154,8 +154,8 @@ samu_buildadd(struct samu_ctx *ctx, struct samu_node *n)
 			++e->nblock;
 	}
 	/* all outputs are dirty if any are older than the newest input */
-	generator = samu_edgevar(ctx, e, "generator", true);
-	restat = samu_edgevar(ctx, e, "restat", true);
+	generator = samu_edgevarset(ctx, e, "generator", true);
+	restat = samu_edgevarset(ctx, e, "restat", true);
 	for (i = 0; i < e->nout && !(e->flags & FLAG_DIRTY_OUT); ++i) {
 		n = e->out[i];
 		if (samu_isdirty(ctx, n, newest, generator, restat)) {
@@ -277,7 +277,7 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 		}
 	}
 
-	rspfile = samu_edgevar(ctx, e, "rspfile", false);
+	rspfile = samu_edgevarset(ctx, e, "rspfile", false);
 	if (rspfile) {
 		content = samu_edgevar(ctx, e, "rspfile_content", true);
 		if (samu_writefile(rspfile->s, content) < 0)
@@ -374,7 +374,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 	bool restat;
 	int64_t old;
 
-	restat = samu_edgevar(ctx, e, "restat", true);
+	restat = samu_edgevarset(ctx, e, "restat", true);
 	for (i = 0; i < e->nout; ++i) {
 		n = e->out[i];
 		old = n->mtime;
@@ -382,7 +382,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		n->logmtime = n->mtime == SAMU_MTIME_MISSING ? 0 : n->mtime;
 		samu_nodedone(ctx, n, restat && samu_shouldprune(e, n, old));
 	}
-	rspfile = samu_edgevar(ctx, e, "rspfile", false);
+	rspfile = samu_edgevarset(ctx, e, "rspfile", false);
 	if (rspfile && !ctx->buildopts.keeprsp)
 		fs_remove(rspfile->s);
 	samu_edgehash(ctx, e);
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index eeb147a..2a973e3 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -225,7 +225,7 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 			entry = &ctx->deps.entries[id];
 			entry->mtime = (int64_t)buf[2] << 32 | buf[1];
 			e = entry->node->gen;
-			if (!e || !samu_edgevar(ctx, e, "deps", true)) {
+			if (!e || !samu_edgevarset(ctx, e, "deps", true)) {
 				continue;
 			}
 			sz /= 4;
@@ -490,7 +490,7 @@ samu_depsload(struct samu_ctx *ctx, struct samu_edge *e)
 	}
 	e->flags |= FLAG_DEPS;
 	n = e->out[0];
-	deptype = samu_edgevar(ctx, e, "deps", true);
+	deptype = samu_edgevarset(ctx, e, "deps", true);
 	if (deptype) {
 		if (n->id != -1 && n->mtime <= ctx->deps.entries[n->id].mtime) {
 			deps = &ctx->deps.entries[n->id].deps;
@@ -498,7 +498,7 @@ samu_depsload(struct samu_ctx *ctx, struct samu_edge *e)
 			samu_warn("explain %s: missing or outdated record in .ninja_deps", n->path->s);
 		}
 	} else {
-		depfile = samu_edgevar(ctx, e, "depfile", false);
+		depfile = samu_edgevarset(ctx, e, "depfile", false);
 		if (!depfile) {
 			return;
 		}
@@ -525,7 +525,7 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 	size_t i;
 	bool update;
 
-	deptype = samu_edgevar(ctx, e, "deps", true);
+	deptype = samu_edgevarset(ctx, e, "deps", true);
 	if (!deptype || deptype->n == 0) {
 		return;
 	}
@@ -533,7 +533,7 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 		samu_warn("unsuported deps type: %s", deptype->s);
 		return;
 	}
-	depfile = samu_edgevar(ctx, e, "depfile", false);
+	depfile = samu_edgevarset(ctx, e, "depfile", false);
 	if (!depfile || depfile->n == 0) {
 		samu_warn("deps but no depfile");
 		return;
diff --git a/src/external/samurai/env.c b/src/external/samurai/env.c
index f916229..ed432dd 100644
--- a/src/external/samurai/env.c
+++ b/src/external/samurai/env.c
@@ -223,6 +223,15 @@ samu_edgevar(struct samu_ctx *ctx, struct samu_edge *e, char *var, bool escape)
 	return samu_merge(ctx, str, len);
 }
 
+struct samu_string *
+samu_edgevarset(struct samu_ctx *ctx, struct samu_edge *e, char *var, bool escape)
+{
+	struct samu_string *val;
+
+	val = samu_edgevar(ctx, e, var, escape);
+	return val && val->n > 0 ? val : NULL;
+}
+
 static void
 samu_addpool(struct samu_ctx *ctx, struct samu_pool *p)
 {
diff --git a/src/external/samurai/parse.c b/src/external/samurai/parse.c
index 5972ed0..3e6f372 100644
--- a/src/external/samurai/parse.c
+++ b/src/external/samurai/parse.c
@@ -134,7 +134,7 @@ samu_parseedge(struct samu_ctx *ctx, struct samu_scanner *s, struct samu_environ
 	}
 	ctx->scan.npaths = 0;
 
-	val = samu_edgevar(ctx, e, "pool", true);
+	val = samu_edgevarset(ctx, e, "pool", true);
 	if (val)
 		e->pool = samu_poolget(ctx, val->s);
 }
-- 
2.43.0


From aa0c67f9c92d7dacf096cac4efe137f3862ed278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:30 +0000
Subject: [PATCH 113/173] fix: outputs of failed or interrupted commands
 counted as done when an earlier run had succeeded

---
 include/external/samurai/graph.h |  4 ++++
 include/external/samurai/log.h   |  2 ++
 src/external/samurai/build.c     | 18 ++++++++++++++++++
 src/external/samurai/log.c       | 24 ++++++++++++++++++------
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/external/samurai/graph.h b/include/external/samurai/graph.h
index 5fd4277..0885c1a 100644
--- a/include/external/samurai/graph.h
+++ b/include/external/samurai/graph.h
@@ -19,6 +19,10 @@ enum {
 	SAMU_MTIME_MISSING = 2,
 };
 
+/* recorded in the log for outputs whose command has been started but has not
+ * succeeded, older than every input */
+#define SAMU_MTIME_FAILED INT64_MIN
+
 void samu_graphinit(struct samu_ctx *ctx);
 
 /* create a new node or return existing node */
diff --git a/include/external/samurai/log.h b/include/external/samurai/log.h
index 917d295..cbf747e 100644
--- a/include/external/samurai/log.h
+++ b/include/external/samurai/log.h
@@ -12,5 +12,7 @@ struct samu_node;
 void samu_loginit(struct samu_ctx *ctx, const char *);
 void samu_logclose(struct samu_ctx *ctx);
 void samu_logrecord(struct samu_ctx *ctx, struct samu_node *);
+/* write out what was recorded */
+void samu_logflush(struct samu_ctx *ctx);
 
 #endif
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 9894152..3d90c20 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -64,6 +64,11 @@ samu_isdirty(struct samu_ctx *ctx, struct samu_node *n, struct samu_node *newest
 			samu_warn("explain %s: missing", n->path->s);
 		return true;
 	}
+	if (n->logmtime == SAMU_MTIME_FAILED) {
+		if (ctx->buildopts.explain)
+			samu_warn("explain %s: its last command did not succeed", n->path->s);
+		return true;
+	}
 	if (samu_isnewer(newest, n) && (!restat || n->logmtime == SAMU_MTIME_MISSING)) {
 		if (ctx->buildopts.explain) {
 			samu_warn("explain %s: older than input '%s': %" PRId64 " vs %" PRId64,
@@ -298,6 +303,18 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 		samu_printstatus(ctx, e, j->cmd);
 
 
+	/* whatever is recorded no longer holds once the command runs, in case
+	 * it fails or we don't live to see it finish */
+	for (i = 0; i < e->nout; ++i) {
+		n = e->out[i];
+		if (n->logmtime != SAMU_MTIME_FAILED) {
+			n->logmtime = SAMU_MTIME_FAILED;
+			n->hash = 0;
+			samu_logrecord(ctx, n);
+		}
+	}
+	samu_logflush(ctx);
+
 	bool cmd_started = false;
 	if (machine_system() == machine_system_windows) {
 		cmd_started = run_cmd_unsplit(&j->cmd_ctx, j->cmd->s, 0, 0);
@@ -392,6 +409,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		n->hash = e->hash;
 		samu_logrecord(ctx, n);
 	}
+	samu_logflush(ctx);
 }
 
 static void
diff --git a/src/external/samurai/log.c b/src/external/samurai/log.c
index 5227a79..fa6c4ca 100644
--- a/src/external/samurai/log.c
+++ b/src/external/samurai/log.c
@@ -44,6 +44,8 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 	struct samu_log_parse_ctx *ctx = _ctx;
 	char *fields[samu_log_field_count] = { 0 };
 	struct samu_node *n;
+	int64_t mtime;
+	uint64_t hash;
 
 	if (ctx->line_no == 1) {
 		int ver;
@@ -78,9 +80,6 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 		if (!n || !n->gen) {
 			goto cont;
 		}
-		if (n->logmtime == SAMU_MTIME_MISSING) {
-			++ctx->nentry;
-		}
 	}
 
 	{ // get mtime
@@ -90,7 +89,7 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 		}
 
 		char *endptr;
-		n->logmtime = strtoll(fields[samu_log_field_mtime], &endptr, 10);
+		mtime = strtoll(fields[samu_log_field_mtime], &endptr, 10);
 		if (*endptr) {
 			samu_warn("invalid mtime: %s", fields[samu_log_field_mtime]);
 			goto corrupt_line;
@@ -104,13 +103,20 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 		}
 
 		char *endptr;
-		n->hash = strtoull(fields[samu_log_field_command_hash], &endptr, 16);
+		hash = strtoull(fields[samu_log_field_command_hash], &endptr, 16);
 		if (*endptr) {
 			samu_warn("invalid hash for '%s'", n->path->s);
 			goto corrupt_line;
 		}
 	}
 
+	/* a line only counts as a whole: it may be cut off or damaged */
+	if (n->logmtime == SAMU_MTIME_MISSING) {
+		++ctx->nentry;
+	}
+	n->logmtime = mtime;
+	n->hash = hash;
+
 cont:
 	++ctx->line_no;
 	return ir_cont;
@@ -146,7 +152,7 @@ samu_log_open_and_write(struct samu_ctx *ctx, const char *builddir, bool write_g
 		for (e = ctx->graph.alledges; e; e = e->allnext) {
 			for (i = 0; i < e->nout; ++i) {
 				n = e->out[i];
-				if (!n->hash) {
+				if (n->logmtime == SAMU_MTIME_MISSING) {
 					continue;
 				}
 				samu_logrecord(ctx, n);
@@ -206,3 +212,9 @@ samu_logrecord(struct samu_ctx *ctx, struct samu_node *n)
 {
 	fprintf(ctx->log.logfile, "0\t0\t%" PRId64 "\t%s\t%" PRIx64 "\n", n->logmtime, n->path->s, n->hash);
 }
+
+void
+samu_logflush(struct samu_ctx *ctx)
+{
+	fflush(ctx->log.logfile);
+}
-- 
2.43.0


From c9a78ef9728df5c405d5ada96fd59e53e4c9c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 114/173] fix: commands were not run again when an input
 reached through a phony target changed

---
 src/external/samurai/build.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 3d90c20..2b01c45 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -45,6 +45,26 @@ samu_isnewer(struct samu_node *n1, struct samu_node *n2)
 	return n1 && n1->mtime > n2->mtime;
 }
 
+/* update the mtime of an input; an alias is as new as the newest of its inputs */
+static void
+samu_inputstat(struct samu_ctx *ctx, struct samu_node *n)
+{
+	struct samu_edge *e = n->gen;
+	struct samu_node *newest = NULL;
+	size_t i;
+
+	samu_nodestat(n);
+	if (!e || e->rule != &ctx->phonyrule || n->mtime != SAMU_MTIME_MISSING)
+		return;
+	for (i = 0; i < e->inorderidx; ++i) {
+		samu_inputstat(ctx, e->in[i]);
+		if (e->in[i]->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, e->in[i]))
+			newest = e->in[i];
+	}
+	if (newest)
+		n->mtime = newest->mtime;
+}
+
 /* returns whether this output node is dirty in relation to the newest input */
 static bool
 samu_isdirty(struct samu_ctx *ctx, struct samu_node *n, struct samu_node *newest, bool generator, bool restat)
@@ -180,6 +200,13 @@ samu_buildadd(struct samu_ctx *ctx, struct samu_node *n)
 			n->dirty = true;
 		}
 	}
+	if (e->rule == &ctx->phonyrule && newest) {
+		for (i = 0; i < e->nout; ++i) {
+			n = e->out[i];
+			if (n->mtime == SAMU_MTIME_MISSING)
+				n->mtime = newest->mtime;
+		}
+	}
 	if (!(e->flags & FLAG_DIRTY_OUT))
 		e->nprune = e->nblock;
 	if (e->flags & FLAG_DIRTY) {
@@ -362,7 +389,7 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 }
 
 static bool
-samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
+samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_node *n, int64_t old)
 {
 	struct samu_node *in, *newest;
 	size_t i;
@@ -372,7 +399,7 @@ samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
 	newest = NULL;
 	for (i = 0; i < e->inorderidx; ++i) {
 		in = e->in[i];
-		samu_nodestat(in);
+		samu_inputstat(ctx, in);
 		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
 			newest = in;
 	}
@@ -397,7 +424,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		old = n->mtime;
 		samu_nodestat(n);
 		n->logmtime = n->mtime == SAMU_MTIME_MISSING ? 0 : n->mtime;
-		samu_nodedone(ctx, n, restat && samu_shouldprune(e, n, old));
+		samu_nodedone(ctx, n, restat && samu_shouldprune(ctx, e, n, old));
 	}
 	rspfile = samu_edgevarset(ctx, e, "rspfile", false);
 	if (rspfile && !ctx->buildopts.keeprsp)
-- 
2.43.0


From c8536202d158dae04c4d6a43b3589b9f28ac6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 115/173] fix: a command ran although all its inputs were
 pruned, because of an order-only input

---
 src/external/samurai/build.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 2b01c45..8f696ec 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -363,6 +363,19 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 	return true;
 }
 
+/* returns whether e merely has to run after n */
+static bool
+samu_orderonly(struct samu_edge *e, struct samu_node *n)
+{
+	size_t i;
+
+	for (i = 0; i < e->inorderidx; ++i) {
+		if (e->in[i] == n)
+			return false;
+	}
+	return true;
+}
+
 static void
 samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 {
@@ -374,7 +387,7 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 		/* skip edges not used in this build */
 		if (!(e->flags & FLAG_WORK))
 			continue;
-		if (!(e->flags & (prune ? FLAG_DIRTY_OUT : FLAG_DIRTY)) && --e->nprune == 0) {
+		if (!(e->flags & (prune || samu_orderonly(e, n) ? FLAG_DIRTY_OUT : FLAG_DIRTY)) && --e->nprune == 0) {
 			/* either edge was clean (possible with order-only
 			 * inputs), or all its blocking inputs were pruned, so
 			 * its outputs can be pruned as well */
-- 
2.43.0


From e0e42201bb4d068af84ab2dacc92d29a0c5ac435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:58 +0000
Subject: [PATCH 116/173] fix: the dependency log lost empty records, mixed up
 entries and was read out of bounds

---
 include/external/samurai/ctx.h |  2 ++
 src/external/samurai/deps.c    | 51 +++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/external/samurai/ctx.h b/include/external/samurai/ctx.h
index 57925c6..2f9c2ee 100644
--- a/include/external/samurai/ctx.h
+++ b/include/external/samurai/ctx.h
@@ -133,6 +133,8 @@ struct samu_entry {
 	struct samu_node *node;
 	struct samu_nodearray deps;
 	int64_t mtime;
+	/* whether there is a record of the dependencies, which may be none */
+	_Bool valid;
 };
 
 struct samu_rule {
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 2a973e3..00c5d7e 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -64,6 +64,22 @@ samu_depswrite(struct samu_ctx *ctx, const void *p, size_t n, size_t m)
 	}
 }
 
+static struct samu_entry *
+samu_addentry(struct samu_ctx *ctx, struct samu_node *n)
+{
+	struct samu_entry *entry;
+
+	if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
+		size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
+		ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
+		ctx->deps.entriescap = newcap;
+	}
+	n->id = ctx->deps.entrieslen;
+	entry = &ctx->deps.entries[ctx->deps.entrieslen++];
+	*entry = (struct samu_entry){ .node = n };
+	return entry;
+}
+
 static bool
 samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 {
@@ -75,7 +91,7 @@ samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 	if (ctx->deps.entrieslen == INT32_MAX) {
 		samu_fatal("too many nodes");
 	}
-	n->id = ctx->deps.entrieslen++;
+	samu_addentry(ctx, n);
 	sz = (n->path->n + 7) & ~3;
 	if (sz + 4 >= SAMU_MAX_RECORD_SIZE) {
 		samu_fatal("ID record too large");
@@ -173,7 +189,7 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 	}
 	free_src = true;
 
-	if (strncmp(src.src.src, ninja_depsheader, strlen(ninja_depsheader)) != 0) {
+	if (src.src.len < strlen(ninja_depsheader) || memcmp(src.src.src, ninja_depsheader, strlen(ninja_depsheader)) != 0) {
 		samu_warn("invalid deps log header");
 		goto rewrite;
 	}
@@ -223,13 +239,14 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				goto rewrite;
 			}
 			entry = &ctx->deps.entries[id];
-			entry->mtime = (int64_t)buf[2] << 32 | buf[1];
+			entry->mtime = (int64_t)((uint64_t)buf[2] << 32 | buf[1]);
+			entry->deps.len = 0;
+			entry->valid = false;
 			e = entry->node->gen;
 			if (!e || !samu_edgevarset(ctx, e, "deps", true)) {
 				continue;
 			}
 			sz /= 4;
-			entry->deps.len = sz;
 			entry->deps.node = samu_xreallocarray(&ctx->arena, NULL, 0, sz, sizeof(n));
 			for (i = 0; i < sz; ++i) {
 				id = buf[3 + i];
@@ -239,6 +256,8 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				}
 				entry->deps.node[i] = ctx->deps.entries[id].node;
 			}
+			entry->deps.len = sz;
+			entry->valid = true;
 		} else {
 			if (sz <= 4) {
 				samu_warn("invalid size, must be greater than 4: %" PRIu32, sz);
@@ -253,21 +272,19 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				goto rewrite;
 			}
 			len = sz - 4;
-			while (((char *)buf)[len - 1] == '\0') {
+			while (len > 0 && ((char *)buf)[len - 1] == '\0') {
 				--len;
 			}
+			if (!len || memchr(buf, 0, len)) {
+				samu_warn("corrupt deps log, invalid path");
+				goto rewrite;
+			}
 			path = samu_mkstr(&ctx->arena, len);
 			memcpy(path->s, buf, len);
 			path->s[len] = '\0';
 
 			n = samu_mknode(ctx, path);
-			if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
-				size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
-				ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
-				ctx->deps.entriescap = newcap;
-			}
-			n->id = ctx->deps.entrieslen;
-			ctx->deps.entries[ctx->deps.entrieslen++] = (struct samu_entry){ .node = n };
+			samu_addentry(ctx, n);
 		}
 	}
 
@@ -289,13 +306,15 @@ rewrite:
 	}
 	/* save a temporary copy of the old entries */
 	oldentries = samu_xreallocarray(&ctx->arena, NULL, 0, ctx->deps.entrieslen, sizeof(ctx->deps.entries[0]));
-	memcpy(oldentries, ctx->deps.entries, ctx->deps.entrieslen * sizeof(ctx->deps.entries[0]));
+	if (ctx->deps.entrieslen) {
+		memcpy(oldentries, ctx->deps.entries, ctx->deps.entrieslen * sizeof(ctx->deps.entries[0]));
+	}
 
 	len = ctx->deps.entrieslen;
 	ctx->deps.entrieslen = 0;
 	for (i = 0; i < len; ++i) {
 		entry = &oldentries[i];
-		if (!entry->deps.len) {
+		if (!entry->valid) {
 			continue;
 		}
 		samu_recordid(ctx, entry->node);
@@ -492,7 +511,7 @@ samu_depsload(struct samu_ctx *ctx, struct samu_edge *e)
 	n = e->out[0];
 	deptype = samu_edgevarset(ctx, e, "deps", true);
 	if (deptype) {
-		if (n->id != -1 && n->mtime <= ctx->deps.entries[n->id].mtime) {
+		if (n->id != -1 && ctx->deps.entries[n->id].valid && n->mtime <= ctx->deps.entries[n->id].mtime) {
 			deps = &ctx->deps.entries[n->id].deps;
 		}else if (ctx->buildopts.explain) {
 			samu_warn("explain %s: missing or outdated record in .ninja_deps", n->path->s);
@@ -552,7 +571,7 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 		update = true;
 	} else {
 		entry = &ctx->deps.entries[out->id];
-		if (entry->mtime != out->mtime || entry->deps.len != deps->len) {
+		if (!entry->valid || entry->mtime != out->mtime || entry->deps.len != deps->len) {
 			update = true;
 		}
 		for (i = 0; i < deps->len && !update; ++i) {
-- 
2.43.0


From c13d70614071b18f8d1907d3453aa03e227dd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:17 +0000
Subject: [PATCH 117/173] fix: commands that read a new file and did not change
 their output ran again in the next build

---
 include/external/samurai/deps.h |  2 +-
 src/external/samurai/build.c    | 20 +++++++++++++++-----
 src/external/samurai/deps.c     | 19 ++++++++++---------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/external/samurai/deps.h b/include/external/samurai/deps.h
index 577aba4..d621f72 100644
--- a/include/external/samurai/deps.h
+++ b/include/external/samurai/deps.h
@@ -12,6 +12,6 @@ struct samu_edge;
 void samu_depsinit(struct samu_ctx *ctx, const char *builddir);
 void samu_depsclose(struct samu_ctx *ctx);
 void samu_depsload(struct samu_ctx *ctx, struct samu_edge *e);
-void samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e);
+struct samu_nodearray *samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e);
 
 #endif
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 8f696ec..25ba840 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -402,7 +402,7 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 }
 
 static bool
-samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_node *n, int64_t old)
+samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_nodearray *deps, struct samu_node *n, int64_t old)
 {
 	struct samu_node *in, *newest;
 	size_t i;
@@ -416,6 +416,13 @@ samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_node *n,
 		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
 			newest = in;
 	}
+	/* what the command has just read counts too */
+	for (i = 0; deps && i < deps->len; ++i) {
+		in = deps->node[i];
+		samu_inputstat(ctx, in);
+		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
+			newest = in;
+	}
 	if (newest)
 		n->logmtime = newest->mtime;
 
@@ -428,22 +435,25 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 	struct samu_node *n;
 	size_t i;
 	struct samu_string *rspfile;
+	struct samu_nodearray *deps;
 	bool restat;
-	int64_t old;
+	int64_t old, first_old;
 
 	restat = samu_edgevarset(ctx, e, "restat", true);
+	first_old = e->out[0]->mtime;
+	samu_nodestat(e->out[0]);
+	deps = samu_depsrecord(ctx, e);
 	for (i = 0; i < e->nout; ++i) {
 		n = e->out[i];
-		old = n->mtime;
+		old = i ? n->mtime : first_old;
 		samu_nodestat(n);
 		n->logmtime = n->mtime == SAMU_MTIME_MISSING ? 0 : n->mtime;
-		samu_nodedone(ctx, n, restat && samu_shouldprune(ctx, e, n, old));
+		samu_nodedone(ctx, n, restat && samu_shouldprune(ctx, e, deps, n, old));
 	}
 	rspfile = samu_edgevarset(ctx, e, "rspfile", false);
 	if (rspfile && !ctx->buildopts.keeprsp)
 		fs_remove(rspfile->s);
 	samu_edgehash(ctx, e);
-	samu_depsrecord(ctx, e);
 	for (i = 0; i < e->nout; ++i) {
 		n = e->out[i];
 		n->hash = e->hash;
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 00c5d7e..f8f9671 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -534,7 +534,7 @@ samu_depsload(struct samu_ctx *ctx, struct samu_edge *e)
 	}
 }
 
-void
+struct samu_nodearray *
 samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 {
 	struct samu_string *deptype, *depfile;
@@ -545,25 +545,25 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 	bool update;
 
 	deptype = samu_edgevarset(ctx, e, "deps", true);
-	if (!deptype || deptype->n == 0) {
-		return;
+	depfile = samu_edgevarset(ctx, e, "depfile", false);
+	if (!deptype) {
+		return depfile ? samu_depsparse(ctx, depfile->s, true) : NULL;
 	}
 	if (strcmp(deptype->s, "gcc") != 0) {
 		samu_warn("unsuported deps type: %s", deptype->s);
-		return;
+		return NULL;
 	}
-	depfile = samu_edgevarset(ctx, e, "depfile", false);
-	if (!depfile || depfile->n == 0) {
+	if (!depfile) {
 		samu_warn("deps but no depfile");
-		return;
+		return NULL;
 	}
 	out = e->out[0];
 	deps = samu_depsparse(ctx, depfile->s, true);
-	if (!ctx->buildopts.keepdepfile) {
+	if (!ctx->buildopts.keepdepfile && fs_exists(depfile->s)) {
 		fs_remove(depfile->s);
 	}
 	if (!deps) {
-		return;
+		return NULL;
 	}
 	update = false;
 	entry = NULL;
@@ -592,4 +592,5 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 			samu_fatal("deps log flush:");
 		}
 	}
+	return deps;
 }
-- 
2.43.0


From 0777921e0db32fab82b309d0c9f37332d89ed78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:18 +0000
Subject: [PATCH 118/173] fix: output of commands that ended while a console
 command ran was lost

---
 include/external/samurai/ctx.h |  2 ++
 src/external/samurai/build.c   | 33 +++++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/external/samurai/ctx.h b/include/external/samurai/ctx.h
index 2f9c2ee..53bee15 100644
--- a/include/external/samurai/ctx.h
+++ b/include/external/samurai/ctx.h
@@ -154,6 +154,8 @@ struct samu_build_ctx {
 	struct samu_edge *work;
 	size_t nstarted, nfinished, ntotal;
 	bool consoleused;
+	/* output of commands that ended while the console was in use */
+	struct samu_buffer held;
 	struct timer timer;
 };
 
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 25ba840..bb2c98f 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -462,6 +462,22 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 	samu_logflush(ctx);
 }
 
+/* print what a command wrote, later if another command has the console */
+static void
+samu_joboutput(struct samu_ctx *ctx, struct samu_job *j, const char *data, size_t len)
+{
+	size_t i;
+
+	if (!len)
+		return;
+	if (!ctx->build.consoleused || j->failed) {
+		fwrite(data, 1, len, stdout);
+		return;
+	}
+	for (i = 0; i < len; ++i)
+		samu_bufadd(&ctx->arena, &ctx->build.held, data[i]);
+}
+
 static void
 samu_jobdone(struct samu_ctx *ctx, struct samu_job *j)
 {
@@ -473,21 +489,18 @@ samu_jobdone(struct samu_ctx *ctx, struct samu_job *j)
 	}
 
 	++ctx->build.nfinished;
-	if (!ctx->build.consoleused || j->failed) {
-		if (j->cmd_ctx.out.len) {
-			fwrite(j->cmd_ctx.out.buf, 1, j->cmd_ctx.out.len, stdout);
-		}
-
-		if (j->cmd_ctx.err.len) {
-			fwrite(j->cmd_ctx.err.buf, 1, j->cmd_ctx.err.len, stdout);
-		}
-	}
 	e = j->edge;
+	samu_joboutput(ctx, j, j->cmd_ctx.out.buf, j->cmd_ctx.out.len);
+	samu_joboutput(ctx, j, j->cmd_ctx.err.buf, j->cmd_ctx.err.len);
 	if (e->pool) {
 		p = e->pool;
 
-		if (p == &ctx->consolepool)
+		if (p == &ctx->consolepool) {
 			ctx->build.consoleused = false;
+			if (ctx->build.held.len)
+				fwrite(ctx->build.held.data, 1, ctx->build.held.len, stdout);
+			ctx->build.held.len = 0;
+		}
 		/* move edge from pool queue to main work queue */
 		if (p->work) {
 			new = p->work;
-- 
2.43.0


From 236e1e442c17aaa33d6d466205e1c9b4005679a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 119/173] fix: ini and key-value files without a final newline,
 with empty keys or null bytes were read outside their buffer

---
 src/formats/ini.c   | 26 ++++++++++++++++----------
 src/formats/lines.c | 15 +++++----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/formats/ini.c b/src/formats/ini.c
index 714235a..5911f83 100644
--- a/src/formats/ini.c
+++ b/src/formats/ini.c
@@ -45,6 +45,12 @@ ini_parse_line_cb(void *_ctx, char *line, size_t len)
 	struct ini_parse_ctx *ctx = _ctx;
 	char *ptr, *key, *val;
 
+	if (strlen(line) != len) {
+		error_messagef(&ctx->src, ctx->line, strlen(line) + 1, log_error, "unexpected null byte");
+		ctx->success = false;
+		goto done_with_line;
+	}
+
 	if (!*line || strchr(ctx->comment_chars, *line) || line_is_whitespace(line)) {
 		goto done_with_line;
 	} else if (!ctx->keyval && *line == '[') {
@@ -73,23 +79,22 @@ ini_parse_line_cb(void *_ctx, char *line, size_t len)
 	}
 
 	*ptr = '\0';
+	val = ptr + 1;
 
 	key = line;
-	val = ptr - 1;
-	while (is_whitespace(*val)) {
-		*val = '\0';
-		--val;
+	while (ptr > key && is_whitespace(ptr[-1])) {
+		--ptr;
+		*ptr = '\0';
 	}
 
-	val = ptr + 1;
 	while (is_whitespace(*val)) {
 		++val;
 	}
 
-	char *val_end = val + strlen(val) - 1;
-	while (is_whitespace(*val_end)) {
-		*val_end = '\0';
+	char *val_end = val + strlen(val);
+	while (val_end > val && is_whitespace(val_end[-1])) {
 		--val_end;
+		*val_end = '\0';
 	}
 
 	if (!ctx->cb(ctx->octx, &ctx->src, ctx->sect, key, val, ctx->line)) {
@@ -119,6 +124,7 @@ ini_reparse(const char *path, const struct source *src, char *buf, inihcb cb, vo
 	};
 
 	memcpy(buf, ctx.src.src, ctx.src.len);
+	buf[ctx.src.len] = 0;
 
 	each_line(buf, ctx.src.len, &ctx, ini_parse_line_cb);
 	return ctx.success;
@@ -131,7 +137,7 @@ ini_parse(const char *path, struct source *src, char **buf, inihcb cb, void *oct
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	return ini_reparse(path, src, *buf, cb, octx);
 }
@@ -143,7 +149,7 @@ keyval_parse(const char *path, struct source *src, char **buf, inihcb cb, void *
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	struct ini_parse_ctx ctx = {
 		.comment_chars = "#",
diff --git a/src/formats/lines.c b/src/formats/lines.c
index 0f540a5..7cd607b 100644
--- a/src/formats/lines.c
+++ b/src/formats/lines.c
@@ -12,15 +12,13 @@
 void
 each_line(char *buf, uint64_t len, void *ctx, each_line_callback cb)
 {
-	char *line, *b;
-
 	if (!len) {
 		return;
 	}
 
-	line = buf;
+	char *line = buf, *end = buf + len, *b;
 
-	while ((b = strchr(line, '\n'))) {
+	while (line < end && (b = memchr(line, '\n', end - line))) {
 		*b = '\0';
 
 		if (cb(ctx, line, b - line) != ir_cont) {
@@ -28,14 +26,11 @@ each_line(char *buf, uint64_t len, void *ctx, each_line_callback cb)
 		}
 
 		line = b + 1;
-
-		if ((size_t)(line - buf) >= len) {
-			return;
-		}
 	}
 
-	if (*line) {
-		cb(ctx, line, strlen(line));
+	if (line < end) {
+		// the last line has no newline, buf[len] has to be 0
+		cb(ctx, line, end - line);
 	}
 }
 
-- 
2.43.0


From f4406b2aa123537aa74ed4b11a8dcc17114d02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:33 +0000
Subject: [PATCH 120/173] fix: ninja files that include themselves and negative
 pool depths were not refused

---
 include/external/samurai/ctx.h |  1 +
 src/external/samurai/parse.c   | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/external/samurai/ctx.h b/include/external/samurai/ctx.h
index 53bee15..b8fc759 100644
--- a/include/external/samurai/ctx.h
+++ b/include/external/samurai/ctx.h
@@ -187,6 +187,7 @@ struct samu_log_ctx {
 struct samu_parse_ctx {
 	struct samu_node **deftarg;
 	size_t ndeftarg;
+	uint32_t depth;
 };
 
 struct samu_scan_ctx {
diff --git a/src/external/samurai/parse.c b/src/external/samurai/parse.c
index 3e6f372..3f4b110 100644
--- a/src/external/samurai/parse.c
+++ b/src/external/samurai/parse.c
@@ -6,6 +6,7 @@
 
 #include "compat.h"
 
+#include <errno.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -17,11 +18,16 @@
 #include "external/samurai/scan.h"
 #include "external/samurai/util.h"
 
+enum {
+	samu_max_include_depth = 256,
+};
+
 void
 samu_parseinit(struct samu_ctx *ctx)
 {
 	ctx->parse.deftarg = NULL;
 	ctx->parse.ndeftarg = 0;
+	ctx->parse.depth = 0;
 }
 
 static void
@@ -151,9 +157,15 @@ samu_parseinclude(struct samu_ctx *ctx, struct samu_scanner *s, struct samu_envi
 	samu_scannewline(s);
 	path = samu_enveval(ctx, env, str);
 
+	if (ctx->parse.depth >= samu_max_include_depth)
+		samu_fatal("'%s' is included too deeply", path->s);
+
 	if (newscope)
 		env = samu_mkenv(ctx, env);
+
+	++ctx->parse.depth;
 	samu_parse(ctx, path->s, env);
+	--ctx->parse.depth;
 }
 
 static void
@@ -192,9 +204,11 @@ samu_parsepool(struct samu_ctx *ctx, struct samu_scanner *s, struct samu_environ
 		samu_parselet(ctx, s, &val);
 		if (strcmp(var, "depth") == 0) {
 			str = samu_enveval(ctx, env, val);
-			p->maxjobs = strtol(str->s, &end, 10);
-			if (*end)
+			errno = 0;
+			long depth = strtol(str->s, &end, 10);
+			if (*end || depth < 0 || errno == ERANGE)
 				samu_fatal("invalid pool depth '%s'", str->s);
+			p->maxjobs = depth;
 		} else {
 			samu_fatal("unexpected pool variable '%s'", var);
 		}
-- 
2.43.0


From a748f26e49e11eb165b18ae2120028d97395cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:49 +0000
Subject: [PATCH 121/173] fix: a wrap file without source_filename or with
 another extension crashed

---
 src/wrap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wrap.c b/src/wrap.c
index cf2580b..266867d 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -451,7 +451,10 @@ wrap_parse(const char *wrap_file, struct wrap *wrap)
 	const struct str name = { .s = wrap->name.buf, .len = wrap->name.len },
 			 ext = WKSTR(".wrap");
 
-	assert(str_endswith(&name, &ext));
+	if (!str_endswith(&name, &ext)) {
+		LOG_E("wrap file '%s' does not end in .wrap", wrap_file);
+		goto ret;
+	}
 
 	wrap->name.buf[wrap->name.len - ext.len] = 0;
 
@@ -618,6 +621,11 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 {
 	const char *dest;
 
+	if (!wrap->fields[wf_source_filename]) {
+		LOG_E("wrap '%s' has no source_filename", wrap->name.buf);
+		return false;
+	}
+
 	if (wrap->fields[wf_lead_directory_missing]) {
 		dest = wrap->dest_dir.buf;
 	} else {
-- 
2.43.0


From 1415473c192c84ff0820bbfb220053bb41044f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 122/173] fix: a python interpreter that prints nothing crashed
 setup

---
 src/functions/modules/python.c | 44 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/functions/modules/python.c b/src/functions/modules/python.c
index 8c4f6f6..76c2b56 100644
--- a/src/functions/modules/python.c
+++ b/src/functions/modules/python.c
@@ -34,31 +34,25 @@ static bool
 query_version(struct workspace *wk, const char *path,
 	struct obj_python_installation *python)
 {
+	bool success = false;
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const args[] = { (char *)path, "-c", (char *)introspect_version, 0 };
 	if (!run_cmd_argv(&cmd_ctx, args, NULL, 0) || cmd_ctx.status != 0) {
-		return false;
+		goto ret;
 	}
 
-	size_t index = 0, buf_index = 0, max_buf_index = cmd_ctx.out.len;
-	char *buf = cmd_ctx.out.buf, *entry = cmd_ctx.out.buf;
-	while (buf_index != max_buf_index) {
-		if (buf[buf_index] == '\n') {
-			buf[buf_index] = '\0';
-
-			if (index == 0) {  /* language_version */
-				python->language_version = make_str(wk, entry);
-			}
-
-			entry = &buf[buf_index + 1];
-			index++;
-		} else {
-			buf_index++;
-		}
+	/* the first line of the output is the language version */
+	uint32_t len = 0;
+	while (len < cmd_ctx.out.len && cmd_ctx.out.buf[len] && cmd_ctx.out.buf[len] != '\n') {
+		++len;
 	}
 
-	bool success = buf[buf_index] == '\0';
+	if (len) {
+		python->language_version = make_strn(wk, cmd_ctx.out.buf, len);
+		success = true;
+	}
 
+ret:
 	run_cmd_ctx_destroy(&cmd_ctx);
 	return success;
 }
@@ -69,11 +63,11 @@ query_paths(struct workspace *wk, const char *path,
 {
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const path_args[] = { (char *)path, "-c", (char *)introspect_paths, 0 };
-	if (!run_cmd_argv(&cmd_ctx, path_args, NULL, 0) || cmd_ctx.status != 0) {
-		return false;
-	}
 
-	bool success = muon_json_to_dict(wk, cmd_ctx.out.buf, &python->sysconfig_paths);
+	bool success = run_cmd_argv(&cmd_ctx, path_args, NULL, 0)
+		       && cmd_ctx.status == 0
+		       && cmd_ctx.out.len
+		       && muon_json_to_dict(wk, cmd_ctx.out.buf, &python->sysconfig_paths);
 
 	run_cmd_ctx_destroy(&cmd_ctx);
 	return success;
@@ -85,11 +79,11 @@ query_vars(struct workspace *wk, const char *path,
 {
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const var_args[] = { (char *)path, "-c", (char *)introspect_vars, 0 };
-	if (!run_cmd_argv(&cmd_ctx, var_args, NULL, 0) || cmd_ctx.status != 0) {
-		return false;
-	}
 
-	bool success = muon_json_to_dict(wk, cmd_ctx.out.buf, &python->sysconfig_vars);
+	bool success = run_cmd_argv(&cmd_ctx, var_args, NULL, 0)
+		       && cmd_ctx.status == 0
+		       && cmd_ctx.out.len
+		       && muon_json_to_dict(wk, cmd_ctx.out.buf, &python->sysconfig_vars);
 
 	run_cmd_ctx_destroy(&cmd_ctx);
 	return success;
-- 
2.43.0


From f0db8fa6c669905a9f378307ce051d41f3562f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:14 +0000
Subject: [PATCH 123/173] fix: editorconfig patterns were read past their end,
 matched wrongly or never ended

---
 src/formats/editorconfig.c | 402 +++++++++++++++++++------------------
 1 file changed, 211 insertions(+), 191 deletions(-)

diff --git a/src/formats/editorconfig.c b/src/formats/editorconfig.c
index c3cb5c6..28eecb6 100644
--- a/src/formats/editorconfig.c
+++ b/src/formats/editorconfig.c
@@ -15,210 +15,243 @@
 #include "formats/editorconfig.h"
 #include "formats/ini.h"
 #include "lang/string.h"
+#include "log.h"
 #include "platform/mem.h"
 #include "platform/path.h"
 
 struct parse_editorconfig_ctx {
 	const char *path;
-	bool was_root, matched;
+	uint32_t base; // offset in path of the part below the file being parsed
+	bool was_root, matched, section_matches;
 	const char *indent_style, *indent_size, *tab_width;
 };
 
-struct editorconfig_pat {
-	char type;
-	const char *pat, *end;
-	uint32_t len;
-	bool glob_slash;
+enum {
+	// sections with longer names are ignored
+	editorconfig_max_pat_len = 4096,
 };
 
 /*
- * pattern types:
- * 'a' -> match literal character
- * '*' -> glob match, * and ** are both handled by this type
- * '[' -> [name]
- * '!' -> [!name]
- * '{' -> {a,b,c}
- * '0' -> {num1..num2}
- * '?' -> ?
+ * supported patterns:
+ *
+ * \c -> literal c
+ * * -> any string without slashes
+ * ** -> any string
+ * ? -> any character except a slash
+ * [chars] -> any of chars
+ * [!chars] -> any character except chars and a slash
+ * {a,b,c} -> any of the patterns a, b, c
+ * {num1..num2} -> never matches, since meson filenames don't have numbers in
+ *                 them
+ *
+ * The pattern is treated as a nondeterministic finite automaton with one state
+ * for each byte of the pattern, and one for its end.
  */
+struct editorconfig_pat {
+	const char *s;
+	uint32_t len;
 
-static const char *
-editorconfig_parse_pat(struct editorconfig_pat *pat, const char *c)
-{
-	if (*c == '\\') {
-		++c;
-		pat->type = 'a';
-		pat->pat = c;
-		pat->len = 1;
-		++c;
-	} else if (*c == '*') {
-		pat->type = '*';
-		pat->glob_slash = false;
-		++c;
-		if (*c == '*') {
-			pat->glob_slash = true;
-			++c;
-		}
-	} else if (*c == '[') {
-		pat->type = '[';
-		++c;
-		if (*c == '!') {
-			pat->type = '!';
-			++c;
-		}
+	// for the {, , and } of alternatives: index of the closing }
+	uint16_t close[editorconfig_max_pat_len];
+	// for the ] of [chars]: found by starting at [
+	uint16_t class_end[editorconfig_max_pat_len];
+	// for the { of num1..num2
+	bool never[editorconfig_max_pat_len];
 
-		pat->pat = c;
+	bool active[2][editorconfig_max_pat_len + 1];
+	uint16_t work[editorconfig_max_pat_len + 1];
+};
 
-		if ((pat->end = strchr(pat->pat, ']'))) {
-			pat->len = pat->end - pat->pat - 1;
-		} else {
-			pat->len = strlen(pat->pat);
-		}
+static void
+editorconfig_pat_init(struct editorconfig_pat *pat, const char *s, uint32_t len)
+{
+	*pat = (struct editorconfig_pat){ .s = s, .len = len };
 
-		c += pat->len + 1;
-	} else if (*c == '{') {
-		++c;
-		pat->pat = c;
+	uint32_t i, j;
+	for (i = 0; i < len; ++i) {
+		if (s[i] == '\\') {
+			++i;
+		} else if (s[i] == '[') {
+			for (j = i + 1; j < len && s[j] != ']' && s[j] != '/'; ++j) {
+			}
 
-		if (strstr(pat->pat, "..")) {
-			pat->type = '0';
-		} else {
-			pat->type = '{';
+			if (j < len && s[j] == ']') {
+				pat->class_end[i] = j;
+				i = j;
+			}
 		}
+	}
 
-		if ((pat->end = strchr(pat->pat, '}'))) {
-			pat->len = pat->end - pat->pat;
-		} else {
-			pat->len = strlen(pat->pat);
-		}
+	// match braces, work is used as a stack of the ones that are open
+	uint32_t depth = 0;
+	for (i = 0; i < len; ++i) {
+		if (s[i] == '\\') {
+			++i;
+		} else if (s[i] == '[' && pat->class_end[i]) {
+			i = pat->class_end[i];
+		} else if (s[i] == '{') {
+			pat->work[depth] = i;
+			++depth;
+		} else if (s[i] == '}' && depth) {
+			--depth;
+			const uint32_t open = pat->work[depth];
+			bool is_list = false, is_range = false;
+
+			pat->close[open] = i;
+			pat->close[i] = i;
+
+			for (j = open + 1; j < i; ++j) {
+				if (s[j] == '\\') {
+					++j;
+				} else if (s[j] == '[' && pat->class_end[j]) {
+					j = pat->class_end[j];
+				} else if (s[j] == '{' && pat->close[j]) {
+					j = pat->close[j];
+				} else if (s[j] == ',') {
+					pat->close[j] = i;
+					is_list = true;
+				} else if (s[j] == '.' && s[j + 1] == '.') {
+					is_range = true;
+				}
+			}
 
-		c += pat->len + 1;
-	} else if (*c == '?') {
-		pat->type = '?';
-		++c;
-	} else {
-		pat->type = 'a';
-		pat->pat = c;
-		pat->len = 1;
-		++c;
+			pat->never[open] = is_range && !is_list;
+		}
 	}
-
-	return c;
 }
 
-static bool
-strnchr(const char *s, char c, uint32_t len)
+static void
+editorconfig_pat_activate(struct editorconfig_pat *pat, bool *active, uint32_t start)
 {
-	uint32_t i;
-	for (i = 0; i < len; ++i) {
-		if (*s == c) {
-			return true;
+	uint32_t work_len = 0;
+
+#define ACTIVATE(idx) if (!active[idx]) { active[idx] = true; pat->work[work_len] = idx; ++work_len; }
+	ACTIVATE(start);
+
+	while (work_len) {
+		--work_len;
+		const uint32_t i = pat->work[work_len];
+
+		if (i == pat->len) {
+			continue;
+		} else if (pat->s[i] == '*') {
+			ACTIVATE(i + 1);
+		} else if (pat->close[i] && pat->s[i] == '{') {
+			if (pat->never[i]) {
+				continue;
+			}
+
+			const uint32_t end = pat->close[i];
+			ACTIVATE(i + 1);
+
+			uint32_t j;
+			for (j = i + 1; j < end; ++j) {
+				if (pat->s[j] == ',' && pat->close[j] == end) {
+					ACTIVATE(j + 1);
+				}
+			}
+		} else if (pat->close[i]) {
+			ACTIVATE(pat->close[i] + 1u);
 		}
 	}
-
-	return false;
+#undef ACTIVATE
 }
 
-/* #define L_editorconfig(...) for (uint32_t __i = 0; __i < depth; ++__i) { LL("  "); } L(__VA_ARGS__) */
-#define L_editorconfig(...)
-
-static const char *
-editorconfig_pat_match(struct editorconfig_pat *pat, const char *path, const char *c, bool *consume_pattern, uint32_t depth)
+static bool
+editorconfig_pat_match(struct editorconfig_pat *pat, const char *path, bool anchored)
 {
-	*consume_pattern = true;
-	L_editorconfig("MATCHING: type: %c, pat: '%.*s', glob_slash: %d", pat->type, pat->len, pat->pat, pat->glob_slash);
-	L_editorconfig("remaining pattern: '%s', remaining path: '%s'", c, path);
-
-	switch (pat->type) {
-	case 'a': {
-		if (*path == *pat->pat) {
-			return path + 1;
-		}
-		break;
-	}
-	case '?': {
-		if (*path) {
-			return path + 1;
-		}
-		break;
-	}
-	case '[': {
-		if (strnchr(pat->pat, *path, pat->len)) {
-			return path + 1;
-		}
-		break;
-	}
-	case '!': {
-		if (!strnchr(pat->pat, *path, pat->len)) {
-			return path + 1;
-		}
-		break;
-	}
-	case '{': {
-		const char *part, *end;
-		uint32_t len;
-		part = pat->pat;
-		while (true) {
-			if ((end = strchr(part, ','))) {
-				len = end - part;
-			} else {
-				len = pat->len - (part - pat->pat);
-			}
+	bool *cur = pat->active[0], *next = pat->active[1];
 
-			L_editorconfig("trying part: %.*s", len, part);
-			if (strncmp(path, part, len) == 0) {
-				return path + len;
-			}
+	editorconfig_pat_activate(pat, cur, 0);
 
-			if (!end) {
-				break;
+	for (; *path; ++path) {
+		memset(next, 0, pat->len + 1);
+
+		uint32_t i;
+		for (i = 0; i < pat->len; ++i) {
+			if (!cur[i] || pat->close[i]) {
+				continue;
 			}
 
-			part = end + 1;
-		}
-		break;
-	}
-	case '*': {
-		const char *new_path;
-		{
-			struct editorconfig_pat next = { 0 };
-			c = editorconfig_parse_pat(&next, c);
-			bool sub_consume_pattern;
-			const char *sub_path = path;
-
-			while (true) {
-				new_path = editorconfig_pat_match(&next, sub_path, c, &sub_consume_pattern, depth + 1);
-				if (!new_path || !*new_path) {
-					break;
+			switch (pat->s[i]) {
+			case '*':
+				// ** is two states, the first of which accepts slashes
+				if (*path != '/' || pat->s[i + 1] == '*') {
+					editorconfig_pat_activate(pat, next, i);
 				}
-
-				sub_path = new_path;
-				if (sub_consume_pattern) {
-					c = editorconfig_parse_pat(&next, c);
+				break;
+			case '?':
+				if (*path != '/') {
+					editorconfig_pat_activate(pat, next, i + 1);
 				}
+				break;
+			case '[':
+				if (pat->class_end[i]) {
+					const uint32_t end = pat->class_end[i];
+					const bool negated = pat->s[i + 1] == '!';
+					const uint32_t start = i + 1 + negated;
+					const bool found = memchr(&pat->s[start], *path, end - start);
+
+					if (*path != '/' && found != negated) {
+						editorconfig_pat_activate(pat, next, end + 1);
+					}
+				} else if (*path == '[') {
+					editorconfig_pat_activate(pat, next, i + 1);
+				}
+				break;
+			case '\\':
+				if (i + 1 == pat->len) {
+					if (*path == '\\') {
+						editorconfig_pat_activate(pat, next, i + 1);
+					}
+				} else if (*path == pat->s[i + 1]) {
+					editorconfig_pat_activate(pat, next, i + 2);
+				}
+				break;
+			default:
+				if (*path == pat->s[i]) {
+					editorconfig_pat_activate(pat, next, i + 1);
+				}
+				break;
 			}
 		}
 
-		if (new_path && !*new_path) {
-			*consume_pattern = true;
-			return path;
-		} else if (*path == '/' && !pat->glob_slash) {
-			return NULL;
-		} else {
-			*consume_pattern = false;
-			return path + 1;
+		if (*path == '/' && !anchored) {
+			editorconfig_pat_activate(pat, next, 0);
 		}
-		break;
+
+		bool *tmp = cur;
+		cur = next;
+		next = tmp;
 	}
-	case '0':
-		// meson filenames can't have numbers in them so patterns that
-		// have this default to no-match
-		return NULL;
-	default:
-		UNREACHABLE;
+
+	return cur[pat->len];
+}
+
+static bool
+editorconfig_section_matches(const char *sect, const char *path, uint32_t base)
+{
+	// Patterns match some number of trailing components of the path, with a
+	// leading slash they match the path relative to the directory of the
+	// .editorconfig file.
+	bool anchored = false;
+	if (*sect == '/') {
+		anchored = true;
+		path += base;
+		++sect;
+	}
+
+	const uint32_t len = strlen(sect);
+	if (len > editorconfig_max_pat_len) {
+		return false;
 	}
 
-	return NULL;
+	struct editorconfig_pat *pat = z_calloc(1, sizeof(struct editorconfig_pat));
+	editorconfig_pat_init(pat, sect, len);
+	const bool res = editorconfig_pat_match(pat, path, anchored);
+	z_free(pat);
+
+	return res;
 }
 
 static bool
@@ -228,6 +261,7 @@ editorconfig_cfg_parse_cb(void *_ctx, struct source *src, const char *sect,
 	struct parse_editorconfig_ctx *ctx = _ctx;
 
 	if (!k) {
+		ctx->section_matches = editorconfig_section_matches(sect, ctx->path, ctx->base);
 		return true;
 	}
 
@@ -239,29 +273,7 @@ editorconfig_cfg_parse_cb(void *_ctx, struct source *src, const char *sect,
 		return true;
 	}
 
-	struct editorconfig_pat cur = { .type = '*', .glob_slash = true };
-	const char *c, *path = ctx->path, *new_path;
-	bool match = true;
-
-	c = sect;
-	while (true) {
-		bool consume_pattern;
-		if (!(new_path = editorconfig_pat_match(&cur, path, c, &consume_pattern, 0))) {
-			match = false;
-		} else {
-			if (consume_pattern) {
-				c = editorconfig_parse_pat(&cur, c);
-			}
-			path = new_path;
-			match = true;
-		}
-
-		if (!match || !*path) {
-			break;
-		}
-	}
-
-	if (*c || !match) {
+	if (!ctx->section_matches) {
 		return true;
 	}
 
@@ -281,6 +293,8 @@ editorconfig_cfg_parse_cb(void *_ctx, struct source *src, const char *sect,
 void
 try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 {
+	opts->indent_by = NULL;
+
 	SBUF_manual(path_abs);
 	SBUF_manual(path);
 	SBUF_manual(wd);
@@ -299,15 +313,18 @@ try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 		if (fs_file_exists(path.buf)) {
 			struct parse_editorconfig_ctx editorconfig_ctx = {
 				.path = path_abs.buf,
+				// the root directory ends in a slash
+				.base = wd.len == 1 ? 1 : wd.len + 1,
 			};
 
 			char *cfg_buf = NULL;
-			if (!ini_parse(path.buf, &cfg_src, &cfg_buf, editorconfig_cfg_parse_cb, &editorconfig_ctx)) {
+			const bool ok = ini_parse(path.buf, &cfg_src, &cfg_buf, editorconfig_cfg_parse_cb, &editorconfig_ctx);
+			arr_push(&garbage, &cfg_buf);
+
+			if (!ok) {
 				goto ret;
 			}
 
-			arr_push(&garbage, &cfg_buf);
-
 			fs_source_destroy(&cfg_src);
 			cfg_src = (struct source){ 0 };
 
@@ -361,8 +378,11 @@ try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 	char indent = strcmp(indent_style, "tab") == 0 ? '\t' : ' ';
 
 	static char buf[BUF_SIZE_1k];
-	uint32_t indent_cols = strtol(indent_size, NULL, 10);
-	assert(indent_cols + 1 < BUF_SIZE_1k);
+	const long indent_cols = strtol(indent_size, NULL, 10);
+	if (indent_cols < 0 || indent_cols >= BUF_SIZE_1k) {
+		LOG_W("invalid indent_size '%s' in .editorconfig", indent_size);
+		goto ret;
+	}
 
 	uint32_t i;
 	for (i = 0; i < indent_cols; ++i) {
@@ -373,7 +393,7 @@ try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 	opts->indent_by = buf;
 
 ret:
-	for (i = 0; i < garbage.len; ++i) {
+	for (uint32_t i = 0; i < garbage.len; ++i) {
 		z_free(*(void **)arr_get(&garbage, i));
 	}
 	arr_destroy(&garbage);
-- 
2.43.0


From 116c9389021a0d0ed72dbf93f3ee182505863986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:31 +0000
Subject: [PATCH 124/173] fix: damaged, foreign and static elf files could not
 be installed

---
 src/platform/posix/rpath_fixer.c | 185 ++++++++++++++++++-------------
 1 file changed, 110 insertions(+), 75 deletions(-)

diff --git a/src/platform/posix/rpath_fixer.c b/src/platform/posix/rpath_fixer.c
index 62835e7..4e9c275 100644
--- a/src/platform/posix/rpath_fixer.c
+++ b/src/platform/posix/rpath_fixer.c
@@ -11,6 +11,7 @@
 
 #include <assert.h>
 #include <elf.h>
+#include <stddef.h>
 #include <string.h>
 
 #include "buf_size.h"
@@ -38,57 +39,61 @@ struct elf {
 };
 
 struct elf_section {
-	uint64_t off, size;
-	uint32_t type;
+	uint64_t off, size, len;
+	uint32_t type, link;
 	uint32_t entsize;
-	uint32_t len;
 	bool found;
 };
 
 struct elf_dynstr {
 	uint64_t off;
-	uint32_t tag;
-	uint32_t index;
+	uint64_t tag;
+	uint64_t index;
 	bool found;
 };
 
-union elf_hdrbuf {
-	Elf64_Ehdr e64;
-	Elf32_Ehdr e32;
-	Elf64_Shdr s64;
-	Elf32_Shdr s32;
-	Elf64_Dyn d64;
-	Elf32_Dyn d32;
-	char bytes[BUF_SIZE_2k];
+struct elf_buf {
+	uint8_t bytes[64];
 };
 
-#define EHDR(BUF, CL, FLD) CL == elf_class_32 ? BUF.e32.FLD : BUF.e64.FLD
-#define SHDR(BUF, CL, FLD) CL == elf_class_32 ? BUF.s32.FLD : BUF.s64.FLD
-#define DHDR(BUF, CL, FLD) CL == elf_class_32 ? BUF.d32.FLD : BUF.d64.FLD
+#define ELF_SIZE(ELF, TYPE) ((ELF)->class == elf_class_32 ? sizeof(Elf32_##TYPE) : sizeof(Elf64_##TYPE))
+#define ELF_READ(ELF, BUF, TYPE, FLD) \
+	((ELF)->class == elf_class_32 \
+	? elf_read((ELF), (BUF), offsetof(Elf32_##TYPE, FLD), sizeof(((Elf32_##TYPE *)0)->FLD)) \
+	: elf_read((ELF), (BUF), offsetof(Elf64_##TYPE, FLD), sizeof(((Elf64_##TYPE *)0)->FLD)))
+
+static uint64_t
+elf_read(const struct elf *elf, const struct elf_buf *buf, uint32_t off, uint32_t size)
+{
+	uint64_t res = 0;
+	uint32_t i;
+	for (i = 0; i < size; ++i) {
+		res = (res << 8) | buf->bytes[elf->endian == big_endian ? off + i : off + size - 1 - i];
+	}
+
+	return res;
+}
 
 static bool
 parse_elf(FILE *f, struct elf *elf)
 {
-	uint8_t ident[EI_NIDENT];
-	size_t r = fread(ident, 1, EI_NIDENT, f);
+	struct elf_buf buf = { 0 };
+	size_t r = fread(buf.bytes, 1, EI_NIDENT, f);
 	if (r != EI_NIDENT) {
 		return false;
 	}
 
 	const uint8_t magic[4] = { ELFMAG0, ELFMAG1, ELFMAG2, ELFMAG3 };
 
-	if (memcmp(ident, magic, 4) != 0) {
+	if (memcmp(buf.bytes, magic, 4) != 0) {
 		return false;
 	}
 
-	uint32_t hdr_size;
-	switch (ident[EI_CLASS]) {
+	switch (buf.bytes[EI_CLASS]) {
 	case ELFCLASS32:
-		hdr_size = sizeof(Elf32_Ehdr);
 		elf->class = elf_class_32;
 		break;
 	case ELFCLASS64:
-		hdr_size = sizeof(Elf64_Ehdr);
 		elf->class = elf_class_64;
 		break;
 	case ELFCLASSNONE:
@@ -96,7 +101,7 @@ parse_elf(FILE *f, struct elf *elf)
 		return false;
 	}
 
-	switch (ident[EI_DATA]) {
+	switch (buf.bytes[EI_DATA]) {
 	case ELFDATA2LSB:
 		elf->endian = little_endian;
 		break;
@@ -108,75 +113,92 @@ parse_elf(FILE *f, struct elf *elf)
 		return false;
 	}
 
-	union elf_hdrbuf buf = { 0 };
+	const uint32_t hdr_size = ELF_SIZE(elf, Ehdr);
 	assert(hdr_size <= sizeof(buf));
 	r = fread(&buf.bytes[EI_NIDENT], 1, hdr_size - EI_NIDENT, f);
 	if (r != hdr_size - EI_NIDENT) {
 		return false;
 	}
 
-	elf->shoff = EHDR(buf, elf->class, e_shoff);
-	elf->shentsize = EHDR(buf, elf->class, e_shentsize);
-	elf->shnum = EHDR(buf, elf->class, e_shnum);
+	elf->shoff = ELF_READ(elf, &buf, Ehdr, e_shoff);
+	elf->shentsize = ELF_READ(elf, &buf, Ehdr, e_shentsize);
+	elf->shnum = ELF_READ(elf, &buf, Ehdr, e_shnum);
 
 	return true;
 }
 
-bool
-parse_elf_sections(FILE *f, struct elf *elf, struct elf_section *sections[])
+static bool
+parse_elf_section(FILE *f, struct elf *elf, uint32_t index, struct elf_section *section)
 {
-	uint32_t i, j;
-	union elf_hdrbuf buf;
-
-	assert(elf->shentsize <= sizeof(buf));
-	struct elf_section tmp;
+	struct elf_buf buf = { 0 };
+	const uint32_t size = ELF_SIZE(elf, Shdr);
+	assert(size <= sizeof(buf));
 
-	if (!fs_fseek(f, elf->shoff)) {
+	if (!fs_fseek(f, elf->shoff + (uint64_t)elf->shentsize * index)) {
+		return false;
+	} else if (!fs_fread(buf.bytes, size, f)) {
 		return false;
 	}
 
-	for (i = 0; i < elf->shnum; ++i) {
-		if (!fs_fread(buf.bytes, elf->shentsize, f)) {
-			return false;
-		}
+	*section = (struct elf_section){
+		.type = ELF_READ(elf, &buf, Shdr, sh_type),
+		.off = ELF_READ(elf, &buf, Shdr, sh_offset),
+		.size = ELF_READ(elf, &buf, Shdr, sh_size),
+		.link = ELF_READ(elf, &buf, Shdr, sh_link),
+	};
 
-		tmp.type = SHDR(buf, elf->class, sh_type);
-		tmp.off = SHDR(buf, elf->class, sh_offset);
-		tmp.entsize = SHDR(buf, elf->class, sh_entsize);
-		tmp.size = SHDR(buf, elf->class, sh_size);
-
-		tmp.len = tmp.entsize ? tmp.size / tmp.entsize : 0;
-
-		for (j = 0; sections[j]; ++j) {
-			if (tmp.type != sections[j]->type) {
-				continue;
-			}
+	return true;
+}
 
-			*sections[j] = tmp;
-			sections[j]->found = true;
+/*
+ * Find the dynamic section and the string table its entries refer to.  A file
+ * without a dynamic section has nothing to fix.
+ */
+static bool
+parse_elf_sections(FILE *f, struct elf *elf, struct elf_section *s_dynamic, struct elf_section *s_dynstr)
+{
+	uint32_t i;
+	for (i = 0; i < elf->shnum; ++i) {
+		if (elf->shentsize < ELF_SIZE(elf, Shdr)) {
+			LOG_E("invalid elf section header size %d", elf->shentsize);
+			return false;
+		} else if (!parse_elf_section(f, elf, i, s_dynamic)) {
+			return false;
+		} else if (s_dynamic->type == SHT_DYNAMIC) {
+			s_dynamic->found = true;
 			break;
 		}
+	}
 
-		bool all_found = true;
-		for (j = 0; sections[j]; ++j) {
-			all_found &= sections[j]->found;
-		}
+	if (!s_dynamic->found) {
+		return true;
+	}
 
-		if (all_found) {
-			return true;
-		}
+	s_dynamic->entsize = ELF_SIZE(elf, Dyn);
+	s_dynamic->len = s_dynamic->size / s_dynamic->entsize;
+
+	if (s_dynamic->link >= elf->shnum) {
+		LOG_E("invalid elf dynamic section");
+		return false;
+	} else if (!parse_elf_section(f, elf, s_dynamic->link, s_dynstr)) {
+		return false;
+	} else if (s_dynstr->type != SHT_STRTAB) {
+		LOG_E("invalid elf dynamic string table");
+		return false;
 	}
 
-	return false;
+	s_dynstr->found = true;
+	return true;
 }
 
 static bool
 parse_elf_dynamic(FILE *f, struct elf *elf, struct elf_section *s_dynamic, struct elf_dynstr *strs[])
 {
-	uint32_t i, j;
-	union elf_hdrbuf buf;
+	uint64_t i;
+	uint32_t j;
+	struct elf_buf buf = { 0 };
 	assert(s_dynamic->entsize <= sizeof(buf));
-	struct elf_dynstr tmp;
+	struct elf_dynstr tmp = { 0 };
 
 	if (!fs_fseek(f, s_dynamic->off)) {
 		return false;
@@ -187,8 +209,12 @@ parse_elf_dynamic(FILE *f, struct elf *elf, struct elf_section *s_dynamic, struc
 			return false;
 		}
 
-		tmp.tag = DHDR(buf, elf->class, d_tag);
-		tmp.off = DHDR(buf, elf->class, d_un.d_val);
+		tmp.tag = ELF_READ(elf, &buf, Dyn, d_tag);
+		tmp.off = ELF_READ(elf, &buf, Dyn, d_un.d_val);
+
+		if (tmp.tag == DT_NULL) {
+			break;
+		}
 
 		for (j = 0; strs[j]; ++j) {
 			if (tmp.tag != strs[j]->tag) {
@@ -210,11 +236,16 @@ remove_paths(FILE *f, struct elf_section *s_dynstr, struct elf_dynstr *str, cons
 {
 	bool ret = false;
 	uint32_t len = 0;
-	const uint32_t off = s_dynstr->off + str->off;
+	const uint64_t off = s_dynstr->off + str->off;
 
 	SBUF_manual(rpath);
 	SBUF_manual(kept);
 
+	if (str->off >= s_dynstr->size) {
+		LOG_E("invalid elf rpath");
+		goto ret;
+	}
+
 	if (!fs_fseek(f, off)) {
 		goto ret;
 	}
@@ -268,16 +299,16 @@ ret:
 static bool
 remove_path_entry(FILE *f, struct elf *elf, struct elf_section *s_dynamic, struct elf_dynstr *entry)
 {
-	char buf[BUF_SIZE_2k];
-	assert(s_dynamic->entsize <= ARRAY_LEN(buf));
+	struct elf_buf buf;
+	assert(s_dynamic->entsize <= sizeof(buf));
 
-	uint32_t i;
+	uint64_t i;
 	for (i = entry->index + 1; i < s_dynamic->len; ++i) {
 		if (!fs_fseek(f, s_dynamic->off + (s_dynamic->entsize * i))) {
 			return false;
 		}
 
-		if (!fs_fread(buf, s_dynamic->entsize, f)) {
+		if (!fs_fread(buf.bytes, s_dynamic->entsize, f)) {
 			return false;
 		}
 
@@ -285,7 +316,7 @@ remove_path_entry(FILE *f, struct elf *elf, struct elf_section *s_dynamic, struc
 			return false;
 		}
 
-		if (!fs_fwrite(buf, s_dynamic->entsize, f)) {
+		if (!fs_fwrite(buf.bytes, s_dynamic->entsize, f)) {
 			return false;
 		}
 	}
@@ -318,9 +349,13 @@ fix_rpaths(const char *elf_path, const char *build_root)
 		goto ret;
 	}
 
-	struct elf_section s_dynamic = { .type = SHT_DYNAMIC },
-			   s_dynstr = { .type = SHT_STRTAB };
-	if (!parse_elf_sections(f, &elf, (struct elf_section *[]) { &s_dynamic, &s_dynstr, NULL })) {
+	struct elf_section s_dynamic = { 0 }, s_dynstr = { 0 };
+	if (!parse_elf_sections(f, &elf, &s_dynamic, &s_dynstr)) {
+		goto ret;
+	}
+
+	if (!s_dynamic.found) {
+		ret = true;
 		goto ret;
 	}
 
-- 
2.43.0


From 539fade7cd74b36e8aa533975f977642acbd221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:12 +0000
Subject: [PATCH 125/173] fix: formatting could change the meaning, lose
 comments or lose a whole file

---
 include/lang/fmt.h                |   4 +-
 include/platform/filesystem.h     |   1 +
 src/lang/fmt.c                    | 418 +++++++++++++++++++++++++++---
 src/main.c                        |  37 ++-
 src/platform/posix/filesystem.c   |  80 ++++++
 src/platform/windows/filesystem.c |   6 +
 6 files changed, 491 insertions(+), 55 deletions(-)

diff --git a/include/lang/fmt.h b/include/lang/fmt.h
index d3e4206..32b6305 100644
--- a/include/lang/fmt.h
+++ b/include/lang/fmt.h
@@ -6,9 +6,7 @@
 #ifndef MUON_LANG_FMT_H
 #define MUON_LANG_FMT_H
 
-#include <stdio.h>
-
 #include "lang/parser.h"
 
-bool fmt(struct source *src, FILE *out, const char *cfg_path, bool check_only, bool editorconfig);
+bool fmt(struct source *src, struct sbuf *out, const char *cfg_path, bool editorconfig);
 #endif
diff --git a/include/platform/filesystem.h b/include/platform/filesystem.h
index fbc0a74..923311d 100644
--- a/include/platform/filesystem.h
+++ b/include/platform/filesystem.h
@@ -52,6 +52,7 @@ bool fs_fwrite(const void *ptr, size_t size, FILE *f);
 bool fs_fread(void *ptr, size_t size, FILE *f);
 bool fs_write(const char *path, const uint8_t *buf, uint64_t buf_len);
 bool fs_find_cmd(struct workspace *wk, struct sbuf *buf, const char *cmd);
+bool fs_replace_file(const char *path, const uint8_t *buf, uint64_t buf_len);
 bool fs_has_cmd(const char *cmd);
 void fs_source_destroy(struct source *src);
 void fs_source_dup(const struct source *src, struct source *dup);
diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 1bcffff..b70730c 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -1091,19 +1091,363 @@ fmt_cfg_parse_cb(void *_ctx, struct source *src, const char *sect,
 	return true;
 }
 
+/*
+ * Formatting must never change what a file means, so every result is parsed
+ * again and compared with the original.
+ */
+
+struct fmt_equal_ctx {
+	struct workspace *wk;
+	struct ast *a, *b;
+	bool sorted_files;
+};
+
+static bool fmt_nodes_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b);
+
+static uint32_t
+fmt_next_arg(struct ast *ast, uint32_t id)
+{
+	struct node *n = get_node(ast, id);
+	if (!(n->chflg & node_child_c) || get_node(ast, n->c)->type == node_empty) {
+		return 0;
+	}
+
+	return n->c;
+}
+
+static bool
+fmt_types_equal(struct fmt_equal_ctx *ctx, type_tag a, type_tag b)
+{
+	if (!a || !b) {
+		return a == b;
+	}
+
+	const obj str_a = make_str(ctx->wk, typechecking_type_to_s(ctx->wk, a)),
+		  str_b = make_str(ctx->wk, typechecking_type_to_s(ctx->wk, b));
+	return obj_equal(ctx->wk, str_a, str_b);
+}
+
+static bool
+fmt_arg_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
+{
+	struct node *n_a = get_node(ctx->a, a), *n_b = get_node(ctx->b, b);
+
+	return n_a->type == n_b->type
+	       && n_a->subtype == n_b->subtype
+	       && (n_a->type != node_argument || fmt_types_equal(ctx, n_a->dat.type, n_b->dat.type))
+	       && fmt_nodes_equal(ctx, n_a->l, n_b->l)
+	       && (n_a->subtype != arg_kwarg || fmt_nodes_equal(ctx, n_a->r, n_b->r));
+}
+
+static bool
+fmt_args_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
+{
+	while (true) {
+		struct node *n_a = get_node(ctx->a, a), *n_b = get_node(ctx->b, b);
+
+		if (n_a->type == node_empty || n_b->type == node_empty) {
+			return n_a->type == n_b->type;
+		} else if (!fmt_arg_equal(ctx, a, b)) {
+			return false;
+		}
+
+		a = fmt_next_arg(ctx->a, a);
+		b = fmt_next_arg(ctx->b, b);
+
+		if (!a || !b) {
+			return a == b;
+		}
+	}
+}
+
+/* the arguments of files() as an array of node ids, a lone array is unwrapped */
+static void
+fmt_collect_files_args(struct ast *ast, uint32_t id, struct arr *res)
+{
+	struct node *n = get_node(ast, id);
+	if (n->type != node_empty && n->subtype == arg_normal
+	    && !fmt_next_arg(ast, id) && get_node(ast, n->l)->type == node_array) {
+		id = get_node(ast, n->l)->l;
+		n = get_node(ast, id);
+	}
+
+	if (n->type == node_empty) {
+		return;
+	}
+
+	do {
+		arr_push(res, &id);
+	} while ((id = fmt_next_arg(ast, id)));
+}
+
+static bool
+fmt_files_args_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
+{
+	bool res = false;
+	struct arr args_a, args_b;
+	arr_init(&args_a, 16, sizeof(uint32_t));
+	arr_init(&args_b, 16, sizeof(uint32_t));
+
+	fmt_collect_files_args(ctx->a, a, &args_a);
+	fmt_collect_files_args(ctx->b, b, &args_b);
+
+	if (args_a.len != args_b.len) {
+		goto ret;
+	}
+
+	uint32_t i, j;
+	for (i = 0; i < args_a.len; ++i) {
+		for (j = i; j < args_b.len; ++j) {
+			uint32_t *id_a = arr_get(&args_a, i), *id_b = arr_get(&args_b, j);
+			if (fmt_arg_equal(ctx, *id_a, *id_b)) {
+				break;
+			}
+		}
+
+		if (j == args_b.len) {
+			goto ret;
+		} else if (j != i) {
+			ctx->sorted_files = true;
+
+			uint32_t *id_i = arr_get(&args_b, i), *id_j = arr_get(&args_b, j), tmp = *id_i;
+			*id_i = *id_j;
+			*id_j = tmp;
+		}
+	}
+
+	res = true;
+ret:
+	arr_destroy(&args_a);
+	arr_destroy(&args_b);
+	return res;
+}
+
+static bool
+fmt_nodes_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
+{
+	platform_check_stack();
+
+	struct node *n_a = get_node(ctx->a, a), *n_b = get_node(ctx->b, b);
+
+	if (n_a->type != n_b->type) {
+		return false;
+	}
+
+	bool compare_subtype = false;
+
+	switch (n_a->type) {
+	case node_empty:
+		return true;
+	case node_argument:
+		return fmt_args_equal(ctx, a, b);
+	case node_string:
+		return obj_equal(ctx->wk, n_a->l, n_b->l);
+	case node_id:
+		return strcmp(n_a->dat.s, n_b->dat.s) == 0;
+	case node_number:
+		return n_a->dat.n == n_b->dat.n;
+	case node_bool:
+		return n_a->subtype == n_b->subtype;
+	case node_func_def:
+		if (!fmt_types_equal(ctx, n_a->dat.type, n_b->dat.type)) {
+			return false;
+		}
+		break;
+	case node_comparison:
+	case node_arithmetic:
+	case node_if:
+		compare_subtype = true;
+		break;
+	default:
+		break;
+	}
+
+	if (n_a->chflg != n_b->chflg || (compare_subtype && n_a->subtype != n_b->subtype)) {
+		return false;
+	}
+
+	const bool is_files = n_a->type == node_function
+			      && (n_a->chflg & node_child_l)
+			      && get_node(ctx->a, n_a->l)->type == node_id
+			      && strcmp(get_node(ctx->a, n_a->l)->dat.s, "files") == 0;
+
+	uint32_t i;
+	for (i = 0; i < NODE_MAX_CHILDREN; ++i) {
+		const enum node_child_flag flg = 1 << i;
+
+		if (!(n_a->chflg & flg)) {
+			continue;
+		}
+
+		const uint32_t c_a = *get_node_child(n_a, i), c_b = *get_node_child(n_b, i);
+
+		if (is_files && flg == node_child_r) {
+			if (!fmt_files_args_equal(ctx, c_a, c_b)) {
+				return false;
+			}
+		} else if (!fmt_nodes_equal(ctx, c_a, c_b)) {
+			return false;
+		}
+	}
+
+	return true;
+}
+
+/* collect the comments of a file that is known to be valid */
+static void
+fmt_collect_comments(const struct source *src, struct arr *res)
+{
+	uint64_t i = 0, start;
+
+	while (i < src->len) {
+		const char *s = &src->src[i];
+
+		if (strncmp(s, "'''", 3) == 0) {
+			i += 3;
+			while (i < src->len && strncmp(&src->src[i], "'''", 3) != 0) {
+				++i;
+			}
+			i += 3;
+		} else if (*s == '\'') {
+			for (++i; i < src->len && src->src[i] != '\''; ++i) {
+				if (src->src[i] == '\\') {
+					++i;
+				}
+			}
+			++i;
+		} else if (*s == '#') {
+			start = i;
+			while (i < src->len && src->src[i] != '\n') {
+				++i;
+			}
+
+			struct str comment = { .s = s, .len = i - start };
+			while (comment.len && is_whitespace(comment.s[comment.len - 1])) {
+				--comment.len;
+			}
+			arr_push(res, &comment);
+		} else {
+			++i;
+		}
+	}
+}
+
+static bool
+fmt_comments_equal(const struct source *a, const struct source *b, bool any_order)
+{
+	bool res = false;
+	struct arr comments_a, comments_b;
+	arr_init(&comments_a, 64, sizeof(struct str));
+	arr_init(&comments_b, 64, sizeof(struct str));
+
+	fmt_collect_comments(a, &comments_a);
+	fmt_collect_comments(b, &comments_b);
+
+	if (comments_a.len != comments_b.len) {
+		goto ret;
+	}
+
+	uint32_t i, j;
+	for (i = 0; i < comments_a.len; ++i) {
+		for (j = i; j < comments_b.len; ++j) {
+			struct str *str_a = arr_get(&comments_a, i), *str_b = arr_get(&comments_b, j);
+			if (str_eql(str_a, str_b)) {
+				struct str *str_i = arr_get(&comments_b, i), tmp = *str_i;
+				*str_i = *str_b;
+				*str_b = tmp;
+				break;
+			} else if (!any_order) {
+				goto ret;
+			}
+		}
+
+		if (j == comments_b.len) {
+			goto ret;
+		}
+	}
+
+	res = true;
+ret:
+	arr_destroy(&comments_a);
+	arr_destroy(&comments_b);
+	return res;
+}
+
+static enum parse_mode
+fmt_parse_mode(const struct source *src)
+{
+	enum parse_mode mode = pm_ignore_statement_with_no_effect;
+	if (str_endswith(&WKSTR(src->label), &WKSTR(".meson"))) {
+		mode |= pm_functions;
+	}
+
+	return mode;
+}
+
+static bool
+fmt_equivalent(struct source *a, struct source *b)
+{
+	bool res = false;
+	struct ast ast_a = { 0 }, ast_b = { 0 };
+	struct source_data sdata_a = { 0 }, sdata_b = { 0 };
+	struct workspace wk = { 0 };
+	workspace_init_bare(&wk);
+
+	struct fmt_equal_ctx ctx = { .wk = &wk, .a = &ast_a, .b = &ast_b };
+
+	res = parser_parse(&wk, &ast_a, &sdata_a, a, fmt_parse_mode(a) | pm_quiet)
+	      && parser_parse(&wk, &ast_b, &sdata_b, b, fmt_parse_mode(b) | pm_quiet)
+	      && fmt_nodes_equal(&ctx, ast_a.root, ast_b.root)
+	      && fmt_comments_equal(a, b, ctx.sorted_files);
+
+	workspace_destroy_bare(&wk);
+	ast_destroy(&ast_a);
+	ast_destroy(&ast_b);
+	source_data_destroy(&sdata_a);
+	source_data_destroy(&sdata_b);
+	return res;
+}
+
+static bool
+fmt_pass(const struct fmt_ctx *opts, struct source *src, struct sbuf *out)
+{
+	bool res = false;
+	struct ast ast = { 0 };
+	struct source_data sdata = { 0 };
+	struct workspace wk = { 0 };
+	workspace_init_bare(&wk);
+
+	struct fmt_ctx ctx = *opts;
+	ctx.ast = &ast;
+	ctx.wk = &wk;
+	ctx.out_buf = out;
+
+	struct fmt_stack fst = {
+		.write = true,
+	};
+
+	if (parser_parse(&wk, &ast, &sdata, src, fmt_parse_mode(src) | pm_keep_formatting | pm_quiet)) {
+		fmt_node(&ctx, &fst, ast.root);
+		assert(!ctx.indent);
+		fmt_newline_force(&ctx, &fst, 0);
+		res = true;
+	}
+
+	workspace_destroy_bare(&wk);
+	ast_destroy(&ast);
+	source_data_destroy(&sdata);
+	return res;
+}
+
 bool
-fmt(struct source *src, FILE *out, const char *cfg_path, bool check_only, bool editorconfig)
+fmt(struct source *src, struct sbuf *out, const char *cfg_path, bool editorconfig)
 {
 	bool ret = false;
 	struct ast ast = { 0 };
 	struct source_data sdata = { 0 };
-	struct sbuf out_buf;
 	struct workspace wk = { 0 };
 	workspace_init_bare(&wk);
 	struct fmt_ctx ctx = {
-		.ast = &ast,
-		.wk = &wk,
-		.out_buf = &out_buf,
 		.max_line_len = 80,
 		.indent_by = "    ",
 		.space_array = false,
@@ -1111,16 +1455,6 @@ fmt(struct source *src, FILE *out, const char *cfg_path, bool check_only, bool e
 		.wide_colon = false,
 		.no_single_comma_function = false,
 	};
-	struct fmt_stack fst = {
-		.write = true,
-	};
-
-	if (check_only) {
-		sbuf_init(&out_buf, NULL, 0, sbuf_flag_overflow_alloc);
-	} else {
-		out_buf.flags = sbuf_flag_write;
-		out_buf.buf = (void *)out;
-	}
 
 	if (editorconfig) {
 		struct editorconfig_opts editorconfig_opts;
@@ -1140,34 +1474,58 @@ fmt(struct source *src, FILE *out, const char *cfg_path, bool check_only, bool e
 		}
 	}
 
-	enum parse_mode parse_mode = pm_keep_formatting | pm_ignore_statement_with_no_effect;
-	if (str_endswith(&WKSTR(src->label), &WKSTR(".meson"))) {
-		parse_mode |= pm_functions;
-	}
-
-	if (!parser_parse(&wk, &ast, &sdata, src, parse_mode)) {
+	// report errors in the source
+	if (!parser_parse(&wk, &ast, &sdata, src, fmt_parse_mode(src))) {
 		goto ret;
 	}
 
-	fmt_node(&ctx, &fst, ast.root);
-	assert(!ctx.indent);
-	fmt_newline_force(&ctx, &fst, 0);
+	// formatting the result has to give the same result, usually it is
+	// reached at once
+	enum { max_passes = 8 };
+	struct sbuf bufs[2];
+	sbuf_init(&bufs[0], NULL, 0, sbuf_flag_overflow_alloc);
+	sbuf_init(&bufs[1], NULL, 0, sbuf_flag_overflow_alloc);
 
-	if (check_only) {
-		if (src->len != out_buf.len) {
-			goto ret;
-		} else if (memcmp(src->src, out_buf.buf, src->len)) {
-			goto ret;
+	bool ok = false;
+	struct source cur = *src;
+	uint32_t i;
+	for (i = 0; i < max_passes; ++i) {
+		struct sbuf *buf = &bufs[i & 1];
+		sbuf_clear(buf);
+
+		if (!fmt_pass(&ctx, &cur, buf)) {
+			break;
+		}
+
+		if (buf->len == cur.len && memcmp(buf->buf, cur.src, cur.len) == 0) {
+			ok = true;
+			break;
 		}
+
+		cur.src = buf->buf;
+		cur.len = buf->len;
 	}
 
+	if (ok && !fmt_equivalent(src, &cur)) {
+		ok = false;
+	}
+
+	if (!ok) {
+		LOG_W("'%s' can not be formatted without changing its meaning or comments, leaving it unchanged", src->label);
+		cur = *src;
+	}
+
+	sbuf_pushn(NULL, out, cur.src, cur.len);
+
+	sbuf_destroy(&bufs[0]);
+	sbuf_destroy(&bufs[1]);
+
 	ret = true;
 ret:
 	workspace_destroy_bare(&wk);
 	if (cfg_buf) {
 		z_free(cfg_buf);
 	}
-	sbuf_destroy(&out_buf);
 	fs_source_destroy(&cfg_src);
 	ast_destroy(&ast);
 	source_data_destroy(&sdata);
diff --git a/src/main.c b/src/main.c
index c916aba..4eac93b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -918,40 +918,33 @@ cmd_format(uint32_t argc, uint32_t argi, char *const argv[])
 	const uint32_t num_files = argc - argi;
 
 	bool ret = true;
-	bool opened_out;
-	FILE *out;
 	uint32_t i;
 	for (i = 0; i < num_files; ++i) {
-		bool fmt_ret = true;
-		opened_out = false;
+		bool fmt_ret = false;
 
 		struct source src = { 0 };
+		struct sbuf out;
+		sbuf_init(&out, NULL, 0, sbuf_flag_overflow_alloc);
+
 		if (!fs_read_entire_file(opts.filenames[i], &src)) {
-			ret = false;
 			goto cont;
 		}
 
-		if (opts.in_place) {
-			if (!(out = fs_fopen(opts.filenames[i], "wb"))) {
-				ret = false;
-				goto cont;
-			}
-			opened_out = true;
-		} else if (opts.check_only) {
-			out = NULL;
-		} else {
-			out = stdout;
+		if (!fmt(&src, &out, opts.cfg_path, opts.editorconfig)) {
+			goto cont;
 		}
 
-		fmt_ret = fmt(&src, out, opts.cfg_path, opts.check_only, opts.editorconfig);
-cont:
-		if (opened_out) {
-			fs_fclose(out);
+		const bool unchanged = out.len == src.len && (!src.len || memcmp(src.src, out.buf, src.len) == 0);
 
-			if (!fmt_ret) {
-				fs_write(opts.filenames[i], (const uint8_t *)src.src, src.len);
-			}
+		if (opts.check_only) {
+			fmt_ret = unchanged;
+		} else if (opts.in_place) {
+			fmt_ret = unchanged || fs_replace_file(opts.filenames[i], (const uint8_t *)out.buf, out.len);
+		} else {
+			fmt_ret = (!out.len || fs_fwrite(out.buf, out.len, stdout)) && fflush(stdout) == 0;
 		}
+cont:
+		sbuf_destroy(&out);
 		fs_source_destroy(&src);
 		ret &= fmt_ret;
 	}
diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 982982d..1690cee 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -3,6 +3,11 @@
  * SPDX-License-Identifier: GPL-3.0-only
  */
 
+/* for realpath() */
+#if !defined(_XOPEN_SOURCE)
+	#define _XOPEN_SOURCE 700
+#endif
+
 #include "compat.h"
 
 #include <stdlib.h>
@@ -340,6 +345,81 @@ fs_is_a_tty_from_fd(int fd)
 	}
 }
 
+/*
+ * Replace the contents of an existing file.  If this fails then the file keeps
+ * its previous contents.
+ */
+bool
+fs_replace_file(const char *path, const uint8_t *buf, uint64_t buf_len)
+{
+	bool res = false;
+	int fd = -1;
+	FILE *f = NULL;
+	char *dest = NULL;
+	struct stat sb;
+	SBUF_manual(tmp);
+
+	if (!fs_stat(path, &sb)) {
+		return false;
+	} else if (!S_ISREG(sb.st_mode)) {
+		return fs_write(path, buf, buf_len);
+	} else if (access(path, W_OK) != 0 || !(dest = realpath(path, NULL))) {
+		LOG_E("failed to open %s for writing: %s", path, strerror(errno));
+		return false;
+	}
+
+	sbuf_pushf(NULL, &tmp, "%s.XXXXXX", dest);
+
+	if ((fd = mkstemp(tmp.buf)) == -1) {
+		LOG_E("failed mkstemp(%s): %s", tmp.buf, strerror(errno));
+		goto ret;
+	} else if (fchmod(fd, sb.st_mode & 07777) != 0) {
+		LOG_E("failed fchmod(%s): %s", tmp.buf, strerror(errno));
+		goto err;
+	} else if (!(f = fdopen(fd, "wb"))) {
+		LOG_E("failed fdopen(%s): %s", tmp.buf, strerror(errno));
+		goto err;
+	}
+
+	// keep the owner of the file if possible
+	if (sb.st_uid != geteuid() || sb.st_gid != getegid()) {
+		if (fchown(fd, sb.st_uid, sb.st_gid) == -1) {
+			L("failed fchown(%s): %s", tmp.buf, strerror(errno));
+		}
+	}
+
+	fd = -1;
+
+	if (buf_len && !fs_fwrite(buf, buf_len, f)) {
+		goto err;
+	}
+
+	const bool closed = fs_fclose(f);
+	f = NULL;
+	if (!closed) {
+		goto err;
+	} else if (rename(tmp.buf, dest) != 0) {
+		LOG_E("failed rename(%s, %s): %s", tmp.buf, dest, strerror(errno));
+		goto err;
+	}
+
+	res = true;
+err:
+	if (f) {
+		fs_fclose(f);
+	} else if (fd != -1) {
+		close(fd);
+	}
+
+	if (!res) {
+		unlink(tmp.buf);
+	}
+ret:
+	sbuf_destroy(&tmp);
+	free(dest);
+	return res;
+}
+
 bool
 fs_chmod(const char *path, uint32_t mode)
 {
diff --git a/src/platform/windows/filesystem.c b/src/platform/windows/filesystem.c
index ff9e856..3d4224a 100644
--- a/src/platform/windows/filesystem.c
+++ b/src/platform/windows/filesystem.c
@@ -409,6 +409,12 @@ fs_is_a_tty_from_fd(int fd)
 	return false;
 }
 
+bool
+fs_replace_file(const char *path, const uint8_t *buf, uint64_t buf_len)
+{
+	return fs_write(path, buf, buf_len);
+}
+
 bool
 fs_chmod(const char *path, uint32_t mode)
 {
-- 
2.43.0


From 462995cf0cc4f4e6bacd4b5bf0fe1a80b1b04baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:15 +0000
Subject: [PATCH 126/173] fix: formatted files without a final newline were
 seen as changed

---
 src/lang/fmt.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index b70730c..98e736a 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -1160,13 +1160,13 @@ fmt_args_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
 	}
 }
 
-/* the arguments of files() as an array of node ids, a lone array is unwrapped */
+/* the arguments of files() as an array of node ids, lone arrays are unwrapped */
 static void
 fmt_collect_files_args(struct ast *ast, uint32_t id, struct arr *res)
 {
 	struct node *n = get_node(ast, id);
-	if (n->type != node_empty && n->subtype == arg_normal
-	    && !fmt_next_arg(ast, id) && get_node(ast, n->l)->type == node_array) {
+	while (n->type != node_empty && n->subtype == arg_normal
+	       && !fmt_next_arg(ast, id) && get_node(ast, n->l)->type == node_array) {
 		id = get_node(ast, n->l)->l;
 		n = get_node(ast, id);
 	}
@@ -1262,7 +1262,7 @@ fmt_nodes_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
 		break;
 	}
 
-	if (n_a->chflg != n_b->chflg || (compare_subtype && n_a->subtype != n_b->subtype)) {
+	if (compare_subtype && n_a->subtype != n_b->subtype) {
 		return false;
 	}
 
@@ -1275,7 +1275,12 @@ fmt_nodes_equal(struct fmt_equal_ctx *ctx, uint32_t a, uint32_t b)
 	for (i = 0; i < NODE_MAX_CHILDREN; ++i) {
 		const enum node_child_flag flg = 1 << i;
 
-		if (!(n_a->chflg & flg)) {
+		if (!(n_a->chflg & n_b->chflg & flg)) {
+			// a child that is missing is the same as an empty one
+			if (((n_a->chflg & flg) && get_node(ctx->a, *get_node_child(n_a, i))->type != node_empty)
+			    || ((n_b->chflg & flg) && get_node(ctx->b, *get_node_child(n_b, i))->type != node_empty)) {
+				return false;
+			}
 			continue;
 		}
 
-- 
2.43.0


From 8a4cedb9feb038c4246b7fa1c98aaa40dc72bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:32 +0000
Subject: [PATCH 127/173] fix: comments in front of separators swallowed them
 when formatting

---
 src/lang/fmt.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 98e736a..60b8a73 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -61,6 +61,7 @@ struct fmt_stack {
 typedef uint32_t ((*fmt_func)(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id));
 static uint32_t fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id);
 static uint32_t fmt_chain(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id);
+static void fmt_newline_force(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t next);
 
 static const char *
 get_comment(struct fmt_ctx *ctx, struct node *n, uint32_t i)
@@ -143,6 +144,16 @@ fmt_write(struct fmt_ctx *ctx, const struct fmt_stack *pfst, char c)
 	uint32_t len;
 	assert(c != '\n');
 
+	if (pfst->write && ctx->trailing_comment) {
+		// nothing can follow a comment on the same line
+		fmt_newline_force(ctx, pfst, 0);
+		ctx->force_ml = true;
+
+		if (c == ' ') {
+			return 0;
+		}
+	}
+
 	if (c == '\t') {
 		len = 8;
 	} else {
@@ -190,11 +201,8 @@ static void
 fmt_newline(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t next)
 {
 	uint32_t i;
-	if (pfst->ml) {
-		ctx->trailing_comment = false;
-	}
-
 	if (pfst->write && pfst->ml) {
+		ctx->trailing_comment = false;
 		sbuf_push(NULL, ctx->out_buf, '\n');
 		ctx->col = 0;
 
-- 
2.43.0


From 3e2f87d3e230905fa8b0aa1542e064e91cdc8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:02 +0000
Subject: [PATCH 128/173] fix: check crashed on complex types in function
 definitions

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4eac93b..740c936 100644
--- a/src/main.c
+++ b/src/main.c
@@ -233,12 +233,14 @@ cmd_check(uint32_t argc, uint32_t argi, char *const argv[])
 	struct source src = { 0 };
 	struct ast ast = { 0 };
 	struct source_data sdata = { 0 };
+	struct workspace wk = { 0 };
+	workspace_init_bare(&wk);
 
 	if (!fs_read_entire_file(opts.filename, &src)) {
 		goto ret;
 	}
 
-	if (!parser_parse(NULL, &ast, &sdata, &src, opts.parse_mode)) {
+	if (!parser_parse(&wk, &ast, &sdata, &src, opts.parse_mode)) {
 		goto ret;
 	}
 
@@ -251,6 +253,7 @@ ret:
 	fs_source_destroy(&src);
 	ast_destroy(&ast);
 	source_data_destroy(&sdata);
+	workspace_destroy_bare(&wk);
 	return ret;
 }
 
-- 
2.43.0


From 3edd1fd9a1e377571b15e50693894ced64a7dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:47 +0000
Subject: [PATCH 129/173] fix: damaged serial dumps were read without any
 validation

---
 src/lang/serial.c | 218 ++++++++++++++++++++++++++++++----------------
 1 file changed, 143 insertions(+), 75 deletions(-)

diff --git a/src/lang/serial.c b/src/lang/serial.c
index db7e4a8..ab10a59 100644
--- a/src/lang/serial.c
+++ b/src/lang/serial.c
@@ -15,10 +15,11 @@
 #include "platform/filesystem.h"
 #include "platform/mem.h"
 #include "platform/path.h"
+#include "sha_256.h"
 
 #define SERIAL_MAGIC_LEN 8
 static const char serial_magic[SERIAL_MAGIC_LEN] = "muondump";
-static const uint32_t serial_version = 7;
+static const uint32_t serial_version = 8;
 
 static bool
 corrupted_dump(void)
@@ -28,47 +29,78 @@ corrupted_dump(void)
 }
 
 
+struct serial_reader {
+	const uint8_t *buf;
+	uint64_t len, i;
+};
+
+static bool
+read_bytes(void *ptr, uint64_t size, struct serial_reader *f)
+{
+	if (size > f->len - f->i) {
+		return corrupted_dump();
+	}
+
+	if (size) {
+		memcpy(ptr, &f->buf[f->i], size);
+		f->i += size;
+	}
+	return true;
+}
+
+static bool
+write_bytes(const void *ptr, uint64_t size, struct sbuf *out)
+{
+	if (size > UINT32_MAX / 4 - out->len) {
+		LOG_E("value is too large to be dumped");
+		return false;
+	}
+
+	sbuf_pushn(NULL, out, ptr, size);
+	return true;
+}
+
 static bool
-dump_uint32(uint32_t v, FILE *f)
+dump_uint32(uint32_t v, struct sbuf *out)
 {
-	return fs_fwrite(&v, sizeof(uint32_t), f);
+	return write_bytes(&v, sizeof(uint32_t), out);
 }
 
 static bool
-dump_uint64(uint64_t v, FILE *f)
+dump_uint64(uint64_t v, struct sbuf *out)
 {
-	return fs_fwrite(&v, sizeof(uint64_t), f);
+	return write_bytes(&v, sizeof(uint64_t), out);
 }
 
 static bool
-load_uint32(uint32_t *v, FILE *f)
+load_uint32(uint32_t *v, struct serial_reader *f)
 {
-	return fs_fread(v, sizeof(uint32_t), f);
+	return read_bytes(v, sizeof(uint32_t), f);
 }
 
 static bool
-load_uint64(uint64_t *v, FILE *f)
+load_uint64(uint64_t *v, struct serial_reader *f)
 {
-	return fs_fread(v, sizeof(uint64_t), f);
+	return read_bytes(v, sizeof(uint64_t), f);
 }
 
 static bool
-dump_bucket_arr(const struct bucket_arr *ba, FILE *f)
+dump_bucket_arr(const struct bucket_arr *ba, struct sbuf *out)
 {
 	uint32_t i;
 
-	if (!dump_uint32(ba->buckets.len, f)) {
+	if (!dump_uint32(ba->buckets.len, out)) {
 		return false;
 	}
 
 	for (i = 0; i < ba->buckets.len; ++i) {
 		struct bucket *b = arr_get(&ba->buckets, i);
 
-		if (!dump_uint32(b->len, f)) {
+		if (!dump_uint32(b->len, out)) {
 			return false;
 		}
 
-		if (!fs_fwrite(b->mem, ba->item_size * b->len, f)) {
+		if (!write_bytes(b->mem, ba->item_size * b->len, out)) {
 			return false;
 		}
 	}
@@ -77,7 +109,7 @@ dump_bucket_arr(const struct bucket_arr *ba, FILE *f)
 }
 
 static bool
-load_bucket_arr(struct bucket_arr *ba, FILE *f)
+load_bucket_arr(struct bucket_arr *ba, struct serial_reader *f)
 {
 	uint32_t buckets_len;
 	uint32_t i;
@@ -106,7 +138,7 @@ load_bucket_arr(struct bucket_arr *ba, FILE *f)
 
 		ba->len += b.len;
 
-		if (!fs_fread(b.mem, ba->item_size * b.len, f)) {
+		if (!read_bytes(b.mem, ba->item_size * b.len, f)) {
 			goto done;
 		}
 
@@ -120,50 +152,82 @@ done:
 	return true;
 }
 
+/*
+ * The header is followed by the length and the checksum of the rest of the
+ * file, everything after that can be relied on.
+ */
+
 static bool
-dump_serial_header(FILE *f)
+write_serial_file(const struct sbuf *data, FILE *f)
 {
+	const uint64_t len = data->len;
+	uint8_t hash[32];
+	calc_sha_256(hash, data->buf, data->len);
+
 	return fs_fwrite(serial_magic, SERIAL_MAGIC_LEN, f)
-	       && dump_uint32(serial_version, f);
+	       && fs_fwrite(&serial_version, sizeof(uint32_t), f)
+	       && fs_fwrite(&len, sizeof(uint64_t), f)
+	       && fs_fwrite(hash, sizeof(hash), f)
+	       && fs_fwrite(data->buf, data->len, f);
 }
 
 static bool
-load_serial_header(FILE *f)
+read_serial_file(struct sbuf *data, FILE *f)
 {
-	char buf[SERIAL_MAGIC_LEN] = { 0 };
-
-	if (!fs_fread(buf, SERIAL_MAGIC_LEN, f)) {
-		return false;
-	}
+	char magic[SERIAL_MAGIC_LEN] = { 0 };
 
-	if (memcmp(buf, serial_magic, SERIAL_MAGIC_LEN) != 0) {
+	if (fread(magic, 1, SERIAL_MAGIC_LEN, f) != SERIAL_MAGIC_LEN
+	    || memcmp(magic, serial_magic, SERIAL_MAGIC_LEN) != 0) {
 		LOG_E("invalid file (missing magic)");
 		return false;
 	}
 
 	uint32_t v;
-	if (!load_uint32(&v, f)) {
-		return false;
+	if (fread(&v, sizeof(uint32_t), 1, f) != 1) {
+		return corrupted_dump();
 	}
 
 	if (v != serial_version) {
-		LOG_E("unable to load data file created by a different version of muon (%d != %d)", v, serial_version);
+		LOG_E("unable to load data file created by a different version of muon (%u != %u)", v, serial_version);
 		return false;
 	}
 
+	uint64_t len;
+	uint8_t stored_hash[32], hash[32];
+	if (fread(&len, sizeof(uint64_t), 1, f) != 1 || fread(stored_hash, sizeof(hash), 1, f) != 1) {
+		return corrupted_dump();
+	}
+
+	while (data->len < len) {
+		char buf[BUF_SIZE_4k];
+		const uint64_t rem = len - data->len;
+		const size_t read = fread(buf, 1, rem < sizeof(buf) ? rem : sizeof(buf), f);
+
+		if (!read || !write_bytes(buf, read, data)) {
+			return corrupted_dump();
+		}
+	}
+
+	if (fgetc(f) != EOF || ferror(f)) {
+		return corrupted_dump();
+	}
+
+	calc_sha_256(hash, data->buf, data->len);
+	if (memcmp(hash, stored_hash, sizeof(hash)) != 0) {
+		return corrupted_dump();
+	}
+
 	return true;
 }
 
 static bool
-dump_big_strings(struct workspace *wk, struct arr *offsets, FILE *f)
+dump_big_strings(struct workspace *wk, struct arr *offsets, struct sbuf *out)
 {
 	uint64_t len = 0;
-	uint64_t start, end;
+	const uint32_t start = out->len;
 
 	// dump a placeholder at the start
-	if (!fs_ftell(f, &start)) {
-		return false;
-	} else if (!dump_uint64(0, f)) {
+	if (!dump_uint64(0, out)) {
 		return false;
 	}
 
@@ -176,7 +240,7 @@ dump_big_strings(struct workspace *wk, struct arr *offsets, FILE *f)
 			continue;
 		}
 
-		if (!fs_fwrite(ss->s, ss->len + 1, f)) {
+		if (!write_bytes(ss->s, ss->len + 1, out)) {
 			return false;
 		}
 
@@ -184,17 +248,7 @@ dump_big_strings(struct workspace *wk, struct arr *offsets, FILE *f)
 		len += ss->len + 1;
 	}
 
-	// jump back to the beginning, write the length, and then return
-	if (!fs_ftell(f, &end)) {
-		return false;
-	} else if (!fs_fseek(f, start)) {
-		return false;
-	} else if (!dump_uint64(len, f)) {
-		return false;
-	} else if (!fs_fseek(f, end)) {
-		return false;
-	}
-
+	memcpy(&out->buf[start], &len, sizeof(uint64_t));
 	return true;
 }
 
@@ -204,7 +258,7 @@ struct big_string_table {
 };
 
 static bool
-load_big_strings(struct workspace *wk, struct big_string_table *bst, FILE *f)
+load_big_strings(struct workspace *wk, struct big_string_table *bst, struct serial_reader *f)
 {
 	uint64_t len;
 	uint8_t *buf = NULL;
@@ -213,12 +267,13 @@ load_big_strings(struct workspace *wk, struct big_string_table *bst, FILE *f)
 	}
 
 	if (len) {
-		if (len > UINT32_MAX) {
+		if (len > f->len - f->i) {
 			return corrupted_dump();
 		}
 
 		buf = z_calloc(1, len);
-		if (!fs_fread(buf, len, f)) {
+		if (!read_bytes(buf, len, f)) {
+			z_free(buf);
 			return false;
 		}
 	}
@@ -241,7 +296,7 @@ get_big_string(struct workspace *wk, const struct big_string_table *bst, struct
 {
 	assert(src->flags & str_flag_big);
 
-	if (src->s >= bst->len) {
+	if (src->s >= bst->len || src->len >= bst->len - src->s) {
 		return corrupted_dump();
 	}
 
@@ -258,9 +313,9 @@ get_big_string(struct workspace *wk, const struct big_string_table *bst, struct
 }
 
 static bool
-dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
+dump_objs(struct workspace *wk, struct arr *big_string_offsets, struct sbuf *out)
 {
-	if (!dump_uint32(wk->objs.len - 1, f)) {
+	if (!dump_uint32(wk->objs.len - 1, out)) {
 		return false;
 	}
 
@@ -281,7 +336,7 @@ dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
 		struct obj_internal *o = bucket_arr_get(&wk->objs, i);
 		type_tag = o->t;
 
-		if (!fs_fwrite(&type_tag, sizeof(uint8_t), f)) {
+		if (!write_bytes(&type_tag, sizeof(uint8_t), out)) {
 			return false;
 		}
 
@@ -314,7 +369,7 @@ dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
 			len = ba->item_size;
 		}
 
-		if (!fs_fwrite(data, len, f)) {
+		if (!write_bytes(data, len, out)) {
 			return false;
 		}
 	}
@@ -323,7 +378,7 @@ dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
 }
 
 static bool
-load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
+load_objs(struct workspace *wk, const struct big_string_table *bst, struct serial_reader *f)
 {
 	uint32_t len;
 	if (!load_uint32(&len, f)) {
@@ -340,7 +395,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 
 	uint32_t i;
 	for (i = 0; i < len; ++i) {
-		if (!fs_fread(&type_tag, sizeof(uint8_t), f)) {
+		if (!read_bytes(&type_tag, sizeof(uint8_t), f)) {
 			return false;
 		}
 
@@ -349,23 +404,23 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 
 		*o = (struct obj_internal) { .t = type_tag, };
 
+		if (type_tag >= obj_type_count) {
+			return corrupted_dump();
+		}
+
 		if (type_tag < _obj_aos_start) {
-			if (!fs_fread(&o->val, sizeof(uint32_t), f)) {
+			if (!read_bytes(&o->val, sizeof(uint32_t), f)) {
 				return false;
 			}
 			continue;
 		}
 
-		if (type_tag >= obj_type_count) {
-			return corrupted_dump();
-		}
-
 		ba = &wk->obj_aos[type_tag - _obj_aos_start];
 		o->val = ba->len;
 		bucket_arr_pushn(ba, NULL, 0, 1);
 
 		if (type_tag == obj_string) {
-			if (!fs_fread(&ser_s, sizeof(struct serial_str), f)) {
+			if (!read_bytes(&ser_s, sizeof(struct serial_str), f)) {
 				return false;
 			}
 
@@ -378,8 +433,8 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 			} else {
 				uint32_t bucket_i = ser_s.s % wk->chrs.bucket_size,
 					 buckets_i = ser_s.s / wk->chrs.bucket_size;
-				if (buckets_i > wk->chrs.buckets.len
-				    || bucket_i > ((struct bucket *)(arr_get(&wk->chrs.buckets, buckets_i)))->len) {
+				if (buckets_i >= wk->chrs.buckets.len
+				    || bucket_i + ser_s.len >= ((struct bucket *)(arr_get(&wk->chrs.buckets, buckets_i)))->len) {
 					return corrupted_dump();
 				}
 
@@ -390,7 +445,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 				};
 			}
 		} else {
-			if (!fs_fread(bucket_arr_get(ba, o->val), ba->item_size, f)) {
+			if (!read_bytes(bucket_arr_get(ba, o->val), ba->item_size, f)) {
 				return false;
 			}
 		}
@@ -406,6 +461,9 @@ serial_dump(struct workspace *wk_src, obj o, FILE *f)
 	struct workspace wk_dest = { 0 };
 	workspace_init_bare(&wk_dest);
 
+	struct sbuf data;
+	sbuf_init(&data, NULL, 0, sbuf_flag_overflow_alloc);
+
 	struct arr big_string_offsets;
 	arr_init(&big_string_offsets, 32, sizeof(uint64_t));
 
@@ -416,12 +474,12 @@ serial_dump(struct workspace *wk_src, obj o, FILE *f)
 
 	/* obj_fprintf(&wk_dest, log_file(), "saving %o\n", obj_dest); */
 
-	if (!(dump_serial_header(f)
-	      && dump_uint32(obj_dest, f)
-	      && dump_bucket_arr(&wk_dest.chrs, f)
-	      && dump_big_strings(&wk_dest, &big_string_offsets, f)
-	      && dump_objs(&wk_dest, &big_string_offsets, f)
-	      && dump_bucket_arr(&wk_dest.dict_elems, f))) {
+	if (!(dump_uint32(obj_dest, &data)
+	      && dump_bucket_arr(&wk_dest.chrs, &data)
+	      && dump_big_strings(&wk_dest, &big_string_offsets, &data)
+	      && dump_objs(&wk_dest, &big_string_offsets, &data)
+	      && dump_bucket_arr(&wk_dest.dict_elems, &data)
+	      && write_serial_file(&data, f))) {
 		goto ret;
 	}
 
@@ -429,6 +487,7 @@ serial_dump(struct workspace *wk_src, obj o, FILE *f)
 ret:
 	workspace_destroy_bare(&wk_dest);
 	arr_destroy(&big_string_offsets);
+	sbuf_destroy(&data);
 	return ret;
 }
 
@@ -436,19 +495,27 @@ bool
 serial_load(struct workspace *wk, obj *res, FILE *f)
 {
 	bool ret = false;
+	struct sbuf data;
+	sbuf_init(&data, NULL, 0, sbuf_flag_overflow_alloc);
+
 	struct workspace wk_src = { 0 };
 	workspace_init_bare(&wk_src);
 	bucket_arr_clear(&wk_src.dict_elems); // remove null dict_elem
 
 	struct big_string_table bst = { 0 };
 
+	if (!read_serial_file(&data, f)) {
+		goto ret;
+	}
+
+	struct serial_reader reader = { .buf = (const uint8_t *)data.buf, .len = data.len };
+
 	obj obj_src;
-	if (!(load_serial_header(f)
-	      && load_uint32(&obj_src, f)
-	      && load_bucket_arr(&wk_src.chrs, f)
-	      && load_big_strings(&wk_src, &bst, f)
-	      && load_objs(&wk_src, &bst, f)
-	      && load_bucket_arr(&wk_src.dict_elems, f))) {
+	if (!(load_uint32(&obj_src, &reader)
+	      && load_bucket_arr(&wk_src.chrs, &reader)
+	      && load_big_strings(&wk_src, &bst, &reader)
+	      && load_objs(&wk_src, &bst, &reader)
+	      && load_bucket_arr(&wk_src.dict_elems, &reader))) {
 		goto ret;
 	}
 
@@ -465,6 +532,7 @@ ret:
 		z_free(bst.data);
 	}
 	workspace_destroy_bare(&wk_src);
+	sbuf_destroy(&data);
 	return ret;
 }
 
-- 
2.43.0


From a6b7cd32aee6c04303ec8acb1c241b5cad158b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:02 +0000
Subject: [PATCH 130/173] fix: dumping a value took exponential time for shared
 containers

---
 include/lang/object.h |  1 +
 src/lang/object.c     | 97 +++++++++++++++++++++++++++++++------------
 src/lang/serial.c     |  4 +-
 3 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index f8e3679..c059e19 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -534,6 +534,7 @@ bool s_to_type_tag(const char *s, type_tag *t);
 void obj_to_s(struct workspace *wk, obj o, struct sbuf *sb);
 bool obj_equal(struct workspace *wk, obj left, obj right);
 bool obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret);
+bool obj_clone_shared(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret);
 
 #define LO(...) if (log_should_print(log_debug)) { char buf[4096]; log_print_prefix(log_debug, buf, ARRAY_LEN(buf)); log_plain("%s", buf); obj_fprintf(wk, log_file(), __VA_ARGS__); }
 #define LOBJ(object_id) LO("%s: %o\n", #object_id, object_id)
diff --git a/src/lang/object.c b/src/lang/object.c
index f3bd34d..3f8c1bb 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1485,9 +1485,20 @@ obj_iterable_foreach(struct workspace *wk, obj dict_or_array, void *ctx, obj_dic
 
 struct obj_clone_ctx {
 	struct workspace *wk_dest;
+	struct arr *shared;
 	obj container;
 };
 
+static bool obj_clone_inner(struct workspace *wk_src, struct workspace *wk_dest, struct arr *shared, obj val, obj *ret);
+
+static void
+obj_clone_remember(struct arr *shared, obj val, obj cloned)
+{
+	if (shared) {
+		*(obj *)arr_get(shared, val) = cloned;
+	}
+}
+
 static enum iteration_result
 obj_clone_array_iter(struct workspace *wk_src, void *_ctx, obj val)
 {
@@ -1495,7 +1506,7 @@ obj_clone_array_iter(struct workspace *wk_src, void *_ctx, obj val)
 
 	obj dest_val;
 
-	if (!obj_clone(wk_src, ctx->wk_dest, val, &dest_val)) {
+	if (!obj_clone_inner(wk_src, ctx->wk_dest, ctx->shared, val, &dest_val)) {
 		return ir_err;
 	}
 
@@ -1510,9 +1521,9 @@ obj_clone_dict_iter(struct workspace *wk_src, void *_ctx, obj key, obj val)
 
 	obj dest_key, dest_val;
 
-	if (!obj_clone(wk_src, ctx->wk_dest, key, &dest_key)) {
+	if (!obj_clone_inner(wk_src, ctx->wk_dest, ctx->shared, key, &dest_key)) {
 		return ir_err;
-	} else if (!obj_clone(wk_src, ctx->wk_dest, val, &dest_val)) {
+	} else if (!obj_clone_inner(wk_src, ctx->wk_dest, ctx->shared, val, &dest_val)) {
 		return ir_err;
 	}
 
@@ -1520,8 +1531,8 @@ obj_clone_dict_iter(struct workspace *wk_src, void *_ctx, obj key, obj val)
 	return ir_cont;
 }
 
-bool
-obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret)
+static bool
+obj_clone_inner(struct workspace *wk_src, struct workspace *wk_dest, struct arr *shared, obj val, obj *ret)
 {
 	platform_check_stack();
 
@@ -1531,6 +1542,16 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 	}
 
 	enum obj_type t = get_obj_type(wk_src, val);
+
+	// containers that were already cloned
+	if (shared && (t == obj_array || t == obj_dict)) {
+		const obj *cloned = arr_get(shared, val);
+		if (*cloned) {
+			*ret = *cloned;
+			return true;
+		}
+	}
+
 	/* L("cloning %s", obj_type_to_s(t)); */
 
 	switch (t) {
@@ -1555,15 +1576,17 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		return true;
 	case obj_array:
 		make_obj(wk_dest, ret, t);
+		obj_clone_remember(shared, val, *ret);
 		return obj_array_foreach(wk_src, val, &(struct obj_clone_ctx) {
-			.container = *ret, .wk_dest = wk_dest
+			.container = *ret, .wk_dest = wk_dest, .shared = shared
 		}, obj_clone_array_iter);
 	case obj_dict:
 		make_obj(wk_dest, ret, t);
+		obj_clone_remember(shared, val, *ret);
 		struct obj_dict *d = get_obj_dict(wk_dest, *ret);
 		d->flags |= obj_dict_flag_dont_expand;
 		bool status = obj_dict_foreach(wk_src, val, &(struct obj_clone_ctx) {
-			.container = *ret, .wk_dest = wk_dest
+			.container = *ret, .wk_dest = wk_dest, .shared = shared
 		}, obj_clone_dict_iter);
 		d->flags &= ~obj_dict_flag_dont_expand;
 		return status;
@@ -1579,27 +1602,27 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 			o->workdir = str_clone(wk_src, wk_dest, test->workdir);
 		}
 
-		if (!obj_clone(wk_src, wk_dest, test->args, &o->args)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, test->args, &o->args)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, test->env, &o->env)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, test->env, &o->env)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, test->suites, &o->suites)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, test->suites, &o->suites)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, test->depends, &o->depends)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, test->depends, &o->depends)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, test->timeout, &o->timeout)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, test->timeout, &o->timeout)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, test->priority, &o->priority)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, test->priority, &o->priority)) {
 			return false;
 		}
 		return true;
@@ -1618,10 +1641,10 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		o->has_perm = in->has_perm;
 		o->perm = in->perm;
 
-		if (!obj_clone(wk_src, wk_dest, in->exclude_directories, &o->exclude_directories)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, in->exclude_directories, &o->exclude_directories)) {
 			return false;
 		}
-		if (!obj_clone(wk_src, wk_dest, in->exclude_files, &o->exclude_files)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, in->exclude_files, &o->exclude_files)) {
 			return false;
 		}
 		return true;
@@ -1631,7 +1654,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		struct obj_environment *env = get_obj_environment(wk_src, val),
 				       *o = get_obj_environment(wk_dest, *ret);
 
-		if (!obj_clone(wk_src, wk_dest, env->actions, &o->actions)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, env->actions, &o->actions)) {
 			return false;
 		}
 		return true;
@@ -1643,34 +1666,35 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 
 		o->source = opt->source;
 		o->type = opt->type;
+		o->kind = opt->kind;
 		o->builtin = opt->builtin;
 		o->yield = opt->yield;
 
-		if (!obj_clone(wk_src, wk_dest, opt->name, &o->name)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->name, &o->name)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, opt->val, &o->val)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->val, &o->val)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, opt->choices, &o->choices)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->choices, &o->choices)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, opt->max, &o->max)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->max, &o->max)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, opt->min, &o->min)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->min, &o->min)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, opt->deprecated, &o->deprecated)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->deprecated, &o->deprecated)) {
 			return false;
 		}
 
-		if (!obj_clone(wk_src, wk_dest, opt->description, &o->description)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, opt->description, &o->description)) {
 			return false;
 		}
 		return true;
@@ -1686,7 +1710,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		struct obj_configuration_data *conf = get_obj_configuration_data(wk_src, val),
 					      *o = get_obj_configuration_data(wk_dest, *ret);
 
-		if (!obj_clone(wk_src, wk_dest, conf->dict, &o->dict)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, conf->dict, &o->dict)) {
 			return false;
 		}
 		return true;
@@ -1698,9 +1722,9 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 
 		*o = *rr;
 
-		if (!obj_clone(wk_src, wk_dest, rr->out, &o->out)) {
+		if (!obj_clone_inner(wk_src, wk_dest, shared, rr->out, &o->out)) {
 			return false;
-		} else if (!obj_clone(wk_src, wk_dest, rr->err, &o->err)) {
+		} else if (!obj_clone_inner(wk_src, wk_dest, shared, rr->err, &o->err)) {
 			return false;
 		}
 		return true;
@@ -1711,6 +1735,27 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 	}
 }
 
+bool
+obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret)
+{
+	return obj_clone_inner(wk_src, wk_dest, NULL, val, ret);
+}
+
+/* like obj_clone, but what is shared in the source is shared in the result */
+bool
+obj_clone_shared(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret)
+{
+	struct arr shared;
+	arr_init(&shared, wk_src->objs.len, sizeof(obj));
+	shared.len = wk_src->objs.len;
+	memset(shared.e, 0, shared.len * sizeof(obj));
+
+	const bool res = obj_clone_inner(wk_src, wk_dest, &shared, val, ret);
+
+	arr_destroy(&shared);
+	return res;
+}
+
 struct obj_to_s_opts {
 	bool pretty;
 	uint32_t indent;
diff --git a/src/lang/serial.c b/src/lang/serial.c
index ab10a59..ea5bc8f 100644
--- a/src/lang/serial.c
+++ b/src/lang/serial.c
@@ -468,7 +468,7 @@ serial_dump(struct workspace *wk_src, obj o, FILE *f)
 	arr_init(&big_string_offsets, 32, sizeof(uint64_t));
 
 	obj obj_dest;
-	if (!obj_clone(wk_src, &wk_dest, o, &obj_dest)) {
+	if (!obj_clone_shared(wk_src, &wk_dest, o, &obj_dest)) {
 		goto ret;
 	}
 
@@ -521,7 +521,7 @@ serial_load(struct workspace *wk, obj *res, FILE *f)
 
 	/* obj_fprintf(&wk_src, log_file(), "loaded %o\n", obj_src); */
 
-	if (!obj_clone(&wk_src, wk, obj_src, res)) {
+	if (!obj_clone_shared(&wk_src, wk, obj_src, res)) {
 		corrupted_dump();
 		goto ret;
 	}
-- 
2.43.0


From 09f9bdbbefbc50f5ebfd81c75553b2552959b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:34 +0000
Subject: [PATCH 131/173] fix: the build failed when a file that configuring
 had read was removed

---
 src/backend/ninja/rules.c |  8 +++++++-
 src/lang/workspace.c      | 11 ++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 823b63b..de7105c 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -313,12 +313,18 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		relativize_paths(wk, deduped, true, &regenerate_deps_rel);
 	}
 
+	const char *regenerate_deps = get_cstr(wk, join_args_ninja(wk, regenerate_deps_rel));
+
 	fprintf(out,
 		"build build.ninja: REGENERATE_BUILD %s\n"
 		" pool = console\n\n",
-		get_cstr(wk, join_args_ninja(wk, regenerate_deps_rel))
+		regenerate_deps
 		);
 
+	// a dependency that was removed has to be noticed by regenerating
+	// instead of being an error
+	fprintf(out, "build %s: phony\n\n", regenerate_deps);
+
 	fprintf(out,
 		"rule CUSTOM_COMMAND\n"
 		" command = $COMMAND\n"
diff --git a/src/lang/workspace.c b/src/lang/workspace.c
index dd67351..c0183ee 100644
--- a/src/lang/workspace.c
+++ b/src/lang/workspace.c
@@ -353,12 +353,17 @@ workspace_add_regenerate_deps_iter(struct workspace *wk, void *_ctx, obj v)
 {
 	SBUF(path);
 	const char *s = get_cstr(wk, v);
-	if (!path_is_absolute(s)) {
+	if (path_is_absolute(s)) {
+		path_copy(wk, &path, s);
+	} else {
 		path_join(wk, &path, get_cstr(wk, current_project(wk)->cwd), s);
-		v = sbuf_into_str(wk, &path);
-		s = get_cstr(wk, v);
 	}
 
+	// every file once, regardless of how it is spelled
+	_path_normalize(wk, &path, true);
+	v = sbuf_into_str(wk, &path);
+	s = get_cstr(wk, v);
+
 	if (path_is_subpath(wk->build_root, s)) {
 		return ir_cont;
 	}
-- 
2.43.0


From f9e60a7e8fe5bf62f9769154e4acc9737b660e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:34 +0000
Subject: [PATCH 132/173] fix: edited files read by fs.read, keyval.load,
 configure_file(command:) or project(version:) did not regenerate

---
 src/functions/kernel.c                |  2 ++
 src/functions/kernel/configure_file.c | 10 ++++++++++
 src/functions/modules/fs.c            |  4 ++++
 src/functions/modules/keyval.c        |  7 +++++++
 4 files changed, 23 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 23a81c6..2fafb66 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -180,6 +180,8 @@ func_project(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		if (get_obj_type(wk, akw[kw_version].val) == obj_string) {
 			current_project(wk)->cfg.version = akw[kw_version].val;
 		} else {
+			workspace_add_regenerate_deps(wk, *get_obj_file(wk, akw[kw_version].val));
+
 			struct source ver_src = { 0 };
 			if (!fs_read_entire_file(get_file_path(wk, akw[kw_version].val), &ver_src)) {
 				interp_error(wk, akw[kw_version].node, "failed to read version file");
diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 1929641..0f1b1d4 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -425,6 +425,16 @@ configure_file_with_command(struct workspace *wk, uint32_t node,
 		return false;
 	}
 
+	if (input) {
+		obj inputs;
+		if (!arr_to_args(wk, arr_to_args_external_program, input, &inputs)) {
+			return false;
+		}
+
+		workspace_add_regenerate_deps(wk, inputs);
+	}
+	workspace_add_regenerate_deps(wk, args);
+
 	bool ret = false;
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	const char *argstr, *envstr;
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index afde195..1ace617 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -184,6 +184,8 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	struct source src = { 0 };
 	if (!fs_read_entire_file(path.buf, &src)) {
 		return false;
@@ -328,6 +330,8 @@ func_module_fs_hash(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	struct source src = { 0 };
 	if (!fs_read_entire_file(path.buf, &src)) {
 		return false;
diff --git a/src/functions/modules/keyval.c b/src/functions/modules/keyval.c
index 03054ce..d91b4fa 100644
--- a/src/functions/modules/keyval.c
+++ b/src/functions/modules/keyval.c
@@ -12,6 +12,7 @@
 #include "lang/typecheck.h"
 #include "platform/filesystem.h"
 #include "platform/mem.h"
+#include "platform/path.h"
 
 struct keyval_parse_ctx {
 	struct workspace *wk;
@@ -48,6 +49,12 @@ func_module_keyval_load(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		UNREACHABLE;
 	}
 
+	{
+		SBUF(abs);
+		path_make_absolute(wk, &abs, path);
+		workspace_add_regenerate_deps(wk, sbuf_into_str(wk, &abs));
+	}
+
 	make_obj(wk, res, obj_dict);
 
 	struct keyval_parse_ctx ctx = {
-- 
2.43.0


From b86eb115d1f103e15a62d1497d45b3028734904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:34 +0000
Subject: [PATCH 133/173] fix: results of compiler checks of a source file
 outlived changes of the file

---
 src/functions/compiler.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index b22fc9a..90d1a55 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -128,7 +128,7 @@ add_include_directory_args(struct workspace *wk, struct args_kw *inc, struct bui
 
 static bool
 compiler_check_cache(struct workspace *wk, struct obj_compiler *comp,
-	const char *argstr, uint32_t argc, const char *src,
+	const char *argstr, uint32_t argc, const char *src, uint64_t src_len,
 	uint8_t sha_res[32], bool *res, obj *res_val)
 {
 	uint32_t argstr_len;
@@ -162,7 +162,7 @@ compiler_check_cache(struct workspace *wk, struct obj_compiler *comp,
 		calc_sha_256(&sha[sha_idx_ver], ver->s, ver->len);
 	}
 
-	calc_sha_256(&sha[sha_idx_src], src, strlen(src));
+	calc_sha_256(&sha[sha_idx_src], src, src_len);
 
 	calc_sha_256(sha_res, sha, sha_len);
 
@@ -330,7 +330,22 @@ compiler_check(struct workspace *wk, struct compiler_check_opts *opts,
 	join_args_argstr(wk, &argstr, &argc, compiler_args);
 
 	uint8_t sha[32];
-	if (compiler_check_cache(wk, comp, argstr, argc, src, sha, res, &opts->cache_val)) {
+	bool from_cache;
+	if (opts->src_is_path) {
+		// the result depends on the contents of the file
+		struct source file = { 0 };
+		if (!fs_read_entire_file(src, &file)) {
+			return false;
+		}
+
+		workspace_add_regenerate_deps(wk, source_path);
+		from_cache = compiler_check_cache(wk, comp, argstr, argc, file.src, file.len, sha, res, &opts->cache_val);
+		fs_source_destroy(&file);
+	} else {
+		from_cache = compiler_check_cache(wk, comp, argstr, argc, src, strlen(src), sha, res, &opts->cache_val);
+	}
+
+	if (from_cache) {
 		opts->from_cache = true;
 		return true;
 	}
-- 
2.43.0


From 5e23b073c96b2796bac634da3f2b91614be1a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:34 +0000
Subject: [PATCH 134/173] fix: the regenerate command grew with every
 regeneration

---
 src/backend/common_args.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index ddd623d..2ef1bd1 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -763,6 +763,14 @@ regenerate_build_command(struct workspace *wk, bool opts_only)
 
 	uint32_t i;
 	for (i = 0; i < wk->original_commandline.argc; ++i) {
+		if (strncmp(wk->original_commandline.argv[i], "-c", 2) == 0) {
+			// the compiler check cache is added above
+			if (!wk->original_commandline.argv[i][2]) {
+				++i;
+			}
+			continue;
+		}
+
 		obj_array_push(wk, regen_args,
 			make_str(wk, wk->original_commandline.argv[i]));
 	}
-- 
2.43.0


From fbf13e28ad1a99a6fc08bff03c8643b461cabe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:59 +0000
Subject: [PATCH 135/173] fix: unpacking an archive could write anywhere,
 failed on non-ASCII names and ignored errors

---
 src/external/libarchive.c | 85 ++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 8caacd4..9ef5cf0 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -7,6 +7,7 @@
 
 #include <archive.h>
 #include <archive_entry.h>
+#include <locale.h>
 
 #include "buf_size.h"
 #include "external/libarchive.h"
@@ -16,7 +17,21 @@
 
 const bool have_libarchive = true;
 
-static int
+static bool
+check_archive_result(struct archive *a, int r)
+{
+	if (r >= ARCHIVE_OK) {
+		return true;
+	} else if (r >= ARCHIVE_WARN) {
+		LOG_W("%s\n", archive_error_string(a));
+		return true;
+	}
+
+	LOG_E("%s\n", archive_error_string(a));
+	return false;
+}
+
+static bool
 copy_data(struct archive *ar, struct archive *aw)
 {
 	int r;
@@ -26,14 +41,13 @@ copy_data(struct archive *ar, struct archive *aw)
 
 	while (true) {
 		if ((r = archive_read_data_block(ar, &buff, &size, &offset)) == ARCHIVE_EOF) {
-			return ARCHIVE_OK;
-		} else if (r < ARCHIVE_OK) {
-			return r;
+			return true;
+		} else if (!check_archive_result(ar, r)) {
+			return false;
 		}
 
-		if ((r = archive_write_data_block(aw, buff, size, offset)) < ARCHIVE_OK) {
-			LOG_E("error writing archive data block: %s\n", archive_error_string(aw));
-			return r;
+		if (!check_archive_result(aw, archive_write_data_block(aw, buff, size, offset))) {
+			return false;
 		}
 	}
 }
@@ -45,15 +59,27 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive *a;
 	struct archive *ext;
 	struct archive_entry *entry;
+	SBUF_manual(cwd);
+	bool changed_dir = false;
+	SBUF_manual(locale);
 	int flags;
 	int r;
 
+	/* Names are utf-8, they could not be represented in the C locale. */
+	sbuf_pushs(NULL, &locale, setlocale(LC_CTYPE, NULL));
+	setlocale(LC_CTYPE, "C.UTF-8");
+
 	/* Select which attributes we want to restore. */
 	flags = ARCHIVE_EXTRACT_TIME;
 	flags |= ARCHIVE_EXTRACT_PERM;
 	flags |= ARCHIVE_EXTRACT_ACL;
 	flags |= ARCHIVE_EXTRACT_FFLAGS;
 
+	/* Never write outside of the destination. */
+	flags |= ARCHIVE_EXTRACT_SECURE_NODOTDOT;
+	flags |= ARCHIVE_EXTRACT_SECURE_SYMLINKS;
+	flags |= ARCHIVE_EXTRACT_SECURE_NOABSOLUTEPATHS;
+
 	a = archive_read_new();
 	archive_read_support_format_all(a);
 	archive_read_support_filter_all(a);
@@ -67,53 +93,54 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 		goto ret;
 	}
 
-	SBUF_manual(path);
+	/* The names in the archive are relative to the destination. */
+	path_cwd(NULL, &cwd);
+	if (!path_chdir(dest_path)) {
+		goto ret;
+	}
+	changed_dir = true;
 
 	while (true) {
 		if ((r = archive_read_next_header(a, &entry)) == ARCHIVE_EOF) {
 			break;
-		} else if (r < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(a));
-		} else if (r < ARCHIVE_WARN) {
-			LOG_E("%s\n", archive_error_string(a));
+		} else if (!check_archive_result(a, r)) {
 			goto ret;
 		}
 
-		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
-
-		archive_entry_copy_pathname(entry, path.buf);
-
-		if ((r = archive_write_header(ext, entry)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
+		if (!check_archive_result(ext, archive_write_header(ext, entry))) {
+			goto ret;
 		} else if (archive_entry_size(entry) > 0) {
-			if ((r = copy_data(a, ext)) < ARCHIVE_OK) {
-				LOG_W("%s\n", archive_error_string(ext));
-			} else if (r < ARCHIVE_WARN) {
-				LOG_E("%s\n", archive_error_string(ext));
+			if (!copy_data(a, ext)) {
 				goto ret;
 			}
 		}
 
-		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
-		} else if (r < ARCHIVE_WARN) {
-			LOG_E("%s\n", archive_error_string(ext));
+		if (!check_archive_result(ext, archive_write_finish_entry(ext))) {
 			goto ret;
 		}
 	}
 
 	res = true;
 ret:
-	sbuf_destroy(&path);
-
 	if (a) {
 		archive_read_close(a);
 		archive_read_free(a);
 	}
 
 	if (ext) {
-		archive_write_close(ext);
+		// sets the attributes of the extracted directories
+		if (!check_archive_result(ext, archive_write_close(ext))) {
+			res = false;
+		}
 		archive_write_free(ext);
 	}
+
+	if (changed_dir && !path_chdir(cwd.buf)) {
+		res = false;
+	}
+	sbuf_destroy(&cwd);
+
+	setlocale(LC_CTYPE, locale.buf);
+	sbuf_destroy(&locale);
 	return res;
 }
-- 
2.43.0


From 23f33c600c16736ff29eb33271126e9325e71b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:59 +0000
Subject: [PATCH 136/173] fix: wrap hashes with characters that are no hex
 digits could match

---
 src/wrap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index 266867d..9a28f51 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -229,6 +229,9 @@ checksum(const uint8_t *file_buf, uint64_t len, const char *sha256)
 	if (strlen(sha256) != 64) {
 		LOG_E("checksum '%s' is not 64 characters long", sha256);
 		return false;
+	} else if (strspn(sha256, "0123456789abcdefABCDEF") != 64) {
+		LOG_E("checksum '%s' contains invalid characters", sha256);
+		return false;
 	}
 
 	calc_sha_256(hash, file_buf, len);
-- 
2.43.0


From 7efb20f13727bd69aec48915d98293418ac23f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:59 +0000
Subject: [PATCH 137/173] fix: the directory of a wrap could be outside of the
 subprojects directory

---
 src/wrap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index 9a28f51..6fddf9c 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -411,6 +411,13 @@ validate_wrap(struct wrap_parse_ctx *ctx, const char *file)
 		}
 	}
 
+	const char *dir = ctx->wrap.fields[wf_directory];
+	if (dir && (!*dir || strcmp(dir, ".") == 0 || strcmp(dir, "..") == 0 || !path_is_basename(dir))) {
+		error_messagef(&ctx->wrap.src, ctx->field_lines[wf_directory], 1, log_error,
+			"directory must be a name and not a path");
+		valid = false;
+	}
+
 	return valid;
 }
 
-- 
2.43.0


From 09b4e3297a876b49ac516299e1e858b504ce8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 138/173] fix: a subproject whose patch was refused was used
 without it by the next run

---
 src/wrap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wrap.c b/src/wrap.c
index 6fddf9c..77974ba 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -661,7 +661,7 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 bool
 wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, bool download)
 {
-	bool res = false;
+	bool res = false, handling = false;
 	SBUF_manual(meson_build);
 
 	if (!wrap_parse(wrap_file, wrap)) {
@@ -675,6 +675,8 @@ wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, b
 		goto ret;
 	}
 
+	handling = true;
+
 	switch (wrap->type) {
 	case wrap_type_file:
 		if (!wrap_handle_file(wrap, subprojects, download)) {
@@ -702,6 +704,10 @@ wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, b
 
 	res = true;
 ret:
+	if (!res && handling && (fs_exists(meson_build.buf) || fs_symlink_exists(meson_build.buf))) {
+		// do not leave anything behind that would be used later on
+		fs_remove(meson_build.buf);
+	}
 	sbuf_destroy(&meson_build);
 	return res;
 }
-- 
2.43.0


From da5e67ea949e230bd7c68671608ca3c1014c0669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 139/173] fix: empty diff_files were read out of bounds and
 spaces became part of the names

---
 src/platform/filesystem.c |  2 +-
 src/wrap.c                | 32 ++++++++++----------------------
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/platform/filesystem.c b/src/platform/filesystem.c
index defa686..815e9bd 100644
--- a/src/platform/filesystem.c
+++ b/src/platform/filesystem.c
@@ -423,7 +423,7 @@ fs_copy_dir(const char *src_base, const char *dest_base)
 
 	if (!fs_dir_exists(dest_base)) {
 		if (!fs_mkdir(dest_base)) {
-			return ir_err;
+			return false;
 		}
 	}
 
diff --git a/src/wrap.c b/src/wrap.c
index 77974ba..f7a46b0 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -517,15 +517,20 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 	path_join(NULL, &packagefiles, subprojects, "packagefiles");
 
 	char *p = (char *)wrap->fields[wf_diff_files];
-	const char *diff_file = p;
 
 	bool patch_cmd_found = fs_has_cmd("patch");
 
-	while (true) {
-		if (p[1] == ',' || !p[1]) {
-			bool done = !p[1];
-			p[1] = 0;
+	while (*p) {
+		const char *diff_file = p + strspn(p, " \r\t");
+		char *end = p + strcspn(p, ",");
+		p = *end ? end + 1 : end;
 
+		while (end > diff_file && strchr(" \r\t", end[-1])) {
+			--end;
+		}
+		*end = 0;
+
+		if (*diff_file) {
 			path_join(NULL, &diff_path, packagefiles.buf, diff_file);
 
 			L("applying diff_file '%s'", diff_path.buf);
@@ -545,24 +550,7 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 					goto ret;
 				}
 			}
-
-			if (done) {
-				break;
-			}
-
-			p += 2;
-			while (*p && strchr(" \r\t", *p)) {
-				++p;
-			}
-
-			if (!*p) {
-				break;
-			}
-
-			diff_file = p;
 		}
-
-		++p;
 	}
 
 	res = true;
-- 
2.43.0


From a9b94cd488eb4c729d7777c40b97cf0cdc6dd848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:29 +0000
Subject: [PATCH 140/173] fix: partial_dependency() with links lost the rpath
 of its shared libraries

---
 src/functions/dependency.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index 32f06c9..c90fc8d 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -296,6 +296,9 @@ func_dependency_partial_dependency(struct workspace *wk, obj rcvr, uint32_t args
 		partial->dep.link_with = dep->dep.link_with;
 		partial->dep.link_whole = dep->dep.link_whole;
 		partial->dep.link_with_not_found = dep->dep.link_with_not_found;
+		partial->dep.link_language = dep->dep.link_language;
+		partial->dep.order_deps = dep->dep.order_deps;
+		partial->dep.rpath = dep->dep.rpath;
 
 		partial->dep.raw.link_with = dep->dep.raw.link_with;
 		partial->dep.raw.link_whole = dep->dep.raw.link_whole;
-- 
2.43.0


From cdad846cfad25fdd26d604fc167ab6bafd7d4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:32 +0000
Subject: [PATCH 141/173] fix: libraries in link_args were not searched for
 what static libraries need

---
 src/backend/common_args.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index 2ef1bd1..d5d80e3 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -553,6 +553,16 @@ push_not_found_lib_iter(struct workspace *wk, void *_ctx, obj v)
 	return ir_cont;
 }
 
+static enum iteration_result
+push_lib_args_iter(struct workspace *wk, void *_ctx, obj v)
+{
+	if (str_startswith(get_str(wk, v), &WKSTR("-l"))) {
+		obj_array_push(wk, *(obj *)_ctx, v);
+	}
+
+	return ir_cont;
+}
+
 void
 setup_linker_args(struct workspace *wk, const struct project *proj,
 	const struct obj_build_target *tgt, struct setup_linker_args_ctx *ctx)
@@ -609,6 +619,11 @@ setup_linker_args(struct workspace *wk, const struct project *proj,
 			      || get_obj_array(wk, ctx->args->link_with_not_found)->len;
 
 	if (have_link_with) {
+		/* libraries among the arguments may be needed by the libraries below */
+		obj lib_args;
+		make_obj(wk, &lib_args, obj_array);
+		obj_array_foreach(wk, ctx->args->link_args, &lib_args, push_lib_args_iter);
+
 		push_args(wk, ctx->args->link_args, linkers[ctx->linker].args.start_group());
 
 		if (have_link_whole) {
@@ -623,6 +638,8 @@ setup_linker_args(struct workspace *wk, const struct project *proj,
 
 		obj_array_foreach(wk, ctx->args->link_with_not_found, ctx, push_not_found_lib_iter);
 
+		obj_array_extend(wk, ctx->args->link_args, lib_args);
+
 		push_args(wk, ctx->args->link_args, linkers[ctx->linker].args.end_group());
 	}
 }
-- 
2.43.0


From e3dbfbdedfa347a23b1c7f9828726442239939dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:20 +0000
Subject: [PATCH 142/173] fix: find_library() with dirs added the library
 itself as rpath

---
 src/functions/compiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index 90d1a55..3346b4b 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -2114,7 +2114,10 @@ func_compiler_find_library(struct workspace *wk, obj rcvr, uint32_t args_node, o
 
 	if (found_from_dirs_kw) {
 		make_obj(wk, &dep->dep.rpath, obj_array);
-		obj_array_push(wk, dep->dep.rpath, path_str);
+
+		SBUF(libdir);
+		path_dirname(wk, &libdir, ctx.path->buf);
+		obj_array_push(wk, dep->dep.rpath, sbuf_into_str(wk, &libdir));
 	}
 
 	dep->dep.link_language = comp->lang;
-- 
2.43.0


From 65c003fae9a26d952fdf97eaa583e9062f413b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:30 +0000
Subject: [PATCH 143/173] fix: arguments of pkg-config dependencies other than
 -I, -L, -l and -D were dropped

---
 src/external/libpkgconf.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/external/libpkgconf.c b/src/external/libpkgconf.c
index 2bad3cd..fc08f5f 100644
--- a/src/external/libpkgconf.c
+++ b/src/external/libpkgconf.c
@@ -123,6 +123,7 @@ struct pkgconf_lookup_ctx {
 	struct workspace *wk;
 	struct pkgconf_info *info;
 	obj libdirs;
+	obj other_args; // where arguments which are not -I, -L, or -l go
 	obj name;
 	bool is_static;
 };
@@ -208,6 +209,32 @@ find_lib_path(pkgconf_client_t *client, struct pkgconf_lookup_ctx *ctx, const ch
 	return sbuf_into_str(ctx->wk, &buf);
 }
 
+/* libpkgconf joins runs of arguments it doesn't interpret with spaces. */
+static void
+collect_other_fragment(struct pkgconf_lookup_ctx *ctx, const char *data)
+{
+	while (*data) {
+		const uint32_t len = strcspn(data, " ");
+
+		obj arg = make_strn(ctx->wk, data, len);
+		data += len;
+		data += strspn(data, " ");
+
+		if (!len) {
+			continue;
+		}
+
+		if (ctx->other_args == ctx->info->link_args
+		    && path_is_absolute(get_cstr(ctx->wk, arg))
+		    && fs_file_exists(get_cstr(ctx->wk, arg))) {
+			// a library given by its path
+			obj_array_push(ctx->wk, ctx->info->libs, arg);
+		} else {
+			obj_array_push(ctx->wk, ctx->other_args, arg);
+		}
+	}
+}
+
 static bool
 apply_and_collect(pkgconf_client_t *client, pkgconf_pkg_t *world, void *_ctx, int maxdepth)
 {
@@ -261,10 +288,10 @@ apply_and_collect(pkgconf_client_t *client, pkgconf_pkg_t *world, void *_ctx, in
 		}
 		default:
 			if (frag->type) {
-				obj_array_push(ctx->wk, ctx->info->compile_args,
+				obj_array_push(ctx->wk, ctx->other_args,
 					make_strf(ctx->wk, "-%c%s", frag->type, frag->data));
 			} else {
-				L("skipping null pkgconf fragment: '%s'", frag->data);
+				collect_other_fragment(ctx, frag->data);
 			}
 			break;
 		}
@@ -344,6 +371,7 @@ muon_pkgconf_lookup(struct workspace *wk, obj name, bool is_static, struct pkgco
 	make_obj(wk, &ctx.libdirs, obj_array);
 
 	ctx.apply_func = pkgconf_pkg_libs;
+	ctx.other_args = info->link_args;
 	if (!pkgconf_queue_apply(&pkgconf_ctx.client, &pkgq, apply_and_collect, pkgconf_ctx.maxdepth, &ctx)) {
 		ret = false;
 		goto ret;
@@ -354,6 +382,7 @@ muon_pkgconf_lookup(struct workspace *wk, obj name, bool is_static, struct pkgco
 	pkgconf_client_set_flags(&pkgconf_ctx.client, flags | PKGCONF_PKG_PKGF_SEARCH_PRIVATE);
 
 	ctx.apply_func = pkgconf_pkg_cflags;
+	ctx.other_args = info->compile_args;
 	if (!pkgconf_queue_apply(&pkgconf_ctx.client, &pkgq, apply_and_collect, pkgconf_ctx.maxdepth, &ctx)) {
 		ret = false;
 		goto ret;
-- 
2.43.0


From bc89fdc422609f620f85dcdb295a1ea0d6a4ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 144/173] fix: libraries of pkg-config dependencies named
 before their -L were not found

---
 src/external/libpkgconf.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/external/libpkgconf.c b/src/external/libpkgconf.c
index fc08f5f..e200ead 100644
--- a/src/external/libpkgconf.c
+++ b/src/external/libpkgconf.c
@@ -252,6 +252,16 @@ apply_and_collect(pkgconf_client_t *client, pkgconf_pkg_t *world, void *_ctx, in
 		goto ret;
 	}
 
+	// -L applies to every -l, even to those before it
+	PKGCONF_FOREACH_LIST_ENTRY(list.head, node) {
+		const pkgconf_fragment_t *frag = node->data;
+
+		if (frag->type == 'L') {
+			str = make_str(ctx->wk, frag->data);
+			obj_array_push(ctx->wk, ctx->libdirs, str);
+		}
+	}
+
 	PKGCONF_FOREACH_LIST_ENTRY(list.head, node) {
 		const pkgconf_fragment_t *frag = node->data;
 
@@ -268,13 +278,11 @@ apply_and_collect(pkgconf_client_t *client, pkgconf_pkg_t *world, void *_ctx, in
 			}
 			break;
 		case 'L':
-			str = make_str(ctx->wk, frag->data);
-			obj_array_push(ctx->wk, ctx->libdirs, str);
 			break;
 		case 'l': {
 			obj path;
 			if ((path = find_lib_path(client, ctx, frag->data))) {
-				if (!obj_array_in(ctx->wk, ctx->info->libs, str)) {
+				if (!obj_array_in(ctx->wk, ctx->info->libs, path)) {
 					L("library '%s' found for dependency '%s'",
 						get_cstr(ctx->wk, path), get_cstr(ctx->wk, ctx->name));
 
@@ -311,7 +319,7 @@ apply_modversion(pkgconf_client_t *client, pkgconf_pkg_t *world, void *_ctx, int
 	pkgconf_pkg_t *pkg = dep->match;
 
 	if (pkg != NULL && pkg->version != NULL) {
-		strncpy(ctx->info->version, pkg->version, MAX_VERSION_LEN);
+		snprintf(ctx->info->version, sizeof(ctx->info->version), "%s", pkg->version);
 	}
 
 	return true;
-- 
2.43.0


From b3ff64a306514e746f627fc52a9b49e1036608b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:21 +0000
Subject: [PATCH 145/173] fix: dependencies in the default directories were not
 found with pkg_config_path set

---
 src/external/libpkgconf.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/external/libpkgconf.c b/src/external/libpkgconf.c
index e200ead..da4fb35 100644
--- a/src/external/libpkgconf.c
+++ b/src/external/libpkgconf.c
@@ -70,6 +70,16 @@ muon_pkgconf_init(struct workspace *wk)
 
 	if (pkg_config_path->len) {
 		pkgconf_path_split(pkg_config_path->s, &pkgconf_ctx.client.dir_list, true);
+
+#ifndef MUON_STATIC
+		// these directories are searched in addition to the default ones
+		const char *libdir = getenv("PKG_CONFIG_LIBDIR");
+		if (libdir) {
+			pkgconf_path_split(libdir, &pkgconf_ctx.client.dir_list, true);
+		} else {
+			pkgconf_path_copy_list(&pkgconf_ctx.client.dir_list, &pkgconf_ctx.personality->dir_list);
+		}
+#endif
 	} else {
 		// pkgconf_client_dir_list_build uses PKG_CONFIG_PATH and
 		// PKG_CONFIG_LIBDIR from the environment, as well as the
-- 
2.43.0


From e55af5945f2255ec9dc5c7d886bfd22fe4412058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:46 +0000
Subject: [PATCH 146/173] fix: dependency() used overrides and fallbacks of
 other versions than requested

---
 src/functions/kernel/dependency.c | 79 ++++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index fbc2a55..0d7a710 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -94,14 +94,6 @@ check_dependency_override_iter(struct workspace *wk, void *_ctx, obj n)
 	return ir_cont;
 }
 
-static bool
-check_dependency_override(struct workspace *wk, struct dep_lookup_ctx *ctx)
-{
-	obj_array_foreach(wk, ctx->names, ctx, check_dependency_override_iter);
-
-	return ctx->found;
-}
-
 static bool
 check_dependency_cache(struct workspace *wk, struct dep_lookup_ctx *ctx, obj *res)
 {
@@ -125,11 +117,17 @@ check_dependency_cache(struct workspace *wk, struct dep_lookup_ctx *ctx, obj *re
 static bool
 check_dependency_version(struct workspace *wk, obj dep_ver_str, uint32_t err_node, obj ver, bool *res)
 {
-	if (!ver) {
+	if (!ver || !get_obj_array(wk, ver)->len) {
 		*res = true;
 		return true;
 	}
 
+	// a dependency without a version satisfies no version requirement
+	if (!dep_ver_str || str_eql(get_str(wk, dep_ver_str), &WKSTR("undefined"))) {
+		*res = false;
+		return true;
+	}
+
 	if (!version_compare(wk, err_node, get_str(wk, dep_ver_str), ver, res)) {
 		return false;
 	}
@@ -137,6 +135,48 @@ check_dependency_version(struct workspace *wk, obj dep_ver_str, uint32_t err_nod
 	return true;
 }
 
+/* An overriding dependency or one from a fallback is only used if it was found
+ * and its version is the requested one.
+ */
+static bool
+check_dependency_usable(struct workspace *wk, struct dep_lookup_ctx *ctx)
+{
+	if (get_obj_type(wk, *ctx->res) != obj_dependency) {
+		// not a dependency, reported by the caller
+		return true;
+	}
+
+	struct obj_dependency *dep = get_obj_dependency(wk, *ctx->res);
+	bool ver_match = true;
+
+	if (!(dep->flags & dep_flag_found)) {
+		ctx->found = false;
+		return true;
+	}
+
+	if (!check_dependency_version(wk, dep->version, ctx->versions->node,
+		ctx->versions->val, &ver_match)) {
+		return false;
+	}
+
+	if (!ver_match) {
+		obj_fprintf(wk, log_file(), "found dependency %o, but the version %o does not match the requested version %o\n",
+			ctx->name, dep->version, ctx->versions->val);
+		ctx->found = false;
+	}
+
+	return true;
+}
+
+static bool
+check_dependency_override(struct workspace *wk, struct dep_lookup_ctx *ctx, bool *overridden)
+{
+	obj_array_foreach(wk, ctx->names, ctx, check_dependency_override_iter);
+
+	*overridden = ctx->found;
+	return !ctx->found || check_dependency_usable(wk, ctx);
+}
+
 static bool
 handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, bool *found)
 {
@@ -181,7 +221,9 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 		}
 	}
 
-	if (!subproject(wk, subproj_name, ctx->requirement, ctx->default_options, ctx->versions, &subproj)) {
+	// the requested version is that of the dependency, not of the subproject
+	struct args_kw no_versions = { 0 };
+	if (!subproject(wk, subproj_name, ctx->requirement, ctx->default_options, &no_versions, &subproj)) {
 		goto not_found;
 	}
 
@@ -195,7 +237,10 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 			goto not_found;
 		}
 	} else {
-		if (!check_dependency_override(wk, ctx)) {
+		bool overridden;
+		if (!check_dependency_override(wk, ctx, &overridden)) {
+			return false;
+		} else if (!overridden) {
 			interp_warning(wk, ctx->fallback_node, "subproject does not override dependency %o", ctx->name);
 			goto not_found;
 		}
@@ -206,6 +251,13 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 		goto not_found;
 	}
 
+	ctx->found = true;
+	if (!check_dependency_usable(wk, ctx)) {
+		return false;
+	} else if (!ctx->found) {
+		goto not_found;
+	}
+
 	*found = true;
 	return true;
 not_found:
@@ -275,7 +327,10 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 		}
 	}
 
-	if (check_dependency_override(wk, ctx)) {
+	bool overridden;
+	if (!check_dependency_override(wk, ctx, &overridden)) {
+		return false;
+	} else if (overridden) {
 		return true;
 	}
 
-- 
2.43.0


From 106b6147989d49ff24c16473e7da8538ec794bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:55 +0000
Subject: [PATCH 147/173] fix: fallbacks were used where dependency() does not
 allow them

---
 src/functions/kernel/dependency.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 0d7a710..aad6b79 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -65,6 +65,7 @@ struct dep_lookup_ctx {
 	enum dep_lib_mode lib_mode;
 	bool disabler;
 	bool fallback_allowed;
+	bool fallback_disabled;
 	bool fallback_only;
 	bool from_cache;
 	bool found;
@@ -337,7 +338,7 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 	bool force_fallback = false;
 	enum wrap_mode wrap_mode = get_option_wrap_mode(wk);
 
-	if (!ctx->fallback) {
+	if (!ctx->fallback && !ctx->fallback_disabled) {
 		obj provided_fallback;
 		if (obj_dict_index(wk, current_project(wk)->wrap_provides_deps,
 			ctx->name, &provided_fallback)) {
@@ -372,12 +373,6 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 			if (!get_dependency_pkgconfig(wk, ctx, &ctx->found)) {
 				return false;
 			}
-
-			if (!ctx->found && ctx->fallback) {
-				if (!handle_dependency_fallback(wk, ctx, &ctx->found)) {
-					return false;
-				}
-			}
 		}
 	}
 
@@ -625,7 +620,7 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 		/* - allow_fallback: true */
 		(akw[kw_allow_fallback].set && get_obj_bool(wk, akw[kw_allow_fallback].val))
 		/* - allow_fallback is not specified and the requirement is required */
-		|| (!akw[kw_allow_fallback].set && requirement == requirement_required)
+		|| (!akw[kw_allow_fallback].set && !akw[kw_fallback].set && requirement == requirement_required)
 		/* - allow_fallback is not specified and the fallback keyword is
 		 *   specified with at least one value (i.e. not an empty array) */
 		|| (!akw[kw_allow_fallback].set && akw[kw_fallback].set && get_obj_array(wk, akw[kw_fallback].val)->len);
@@ -654,6 +649,8 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 		.default_options = &akw[kw_default_options],
 		.not_found_message = akw[kw_not_found_message].val,
 		.lib_mode = lib_mode,
+		// an empty fallback array is the same as allow_fallback: false
+		.fallback_disabled = !fallback_allowed && (akw[kw_allow_fallback].set || akw[kw_fallback].set),
 		.disabler = akw[kw_disabler].set && get_obj_bool(wk, akw[kw_disabler].val),
 		.modules = akw[kw_modules].val,
 	};
-- 
2.43.0


From 20e908c04610049f47002c99604357e4fc4c2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:12 +0000
Subject: [PATCH 148/173] fix: dependency() ignored configured subprojects with
 nofallback and subprojects in force_fallback_for

---
 src/functions/kernel/dependency.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index aad6b79..189a981 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -181,10 +181,6 @@ check_dependency_override(struct workspace *wk, struct dep_lookup_ctx *ctx, bool
 static bool
 handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, bool *found)
 {
-	if (get_option_wrap_mode(wk) == wrap_mode_nofallback) {
-		return true;
-	}
-
 	obj subproj_name, subproj_dep = 0, subproj;
 
 	switch (get_obj_array(wk, ctx->fallback)->len) {
@@ -199,6 +195,11 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 		return false;
 	}
 
+	if (get_option_wrap_mode(wk) == wrap_mode_nofallback
+	    && !obj_dict_in(wk, wk->subprojects, subproj_name)) {
+		return true;
+	}
+
 	if (ctx->lib_mode != dep_lib_mode_default) {
 		obj libopt;
 		if (ctx->lib_mode == dep_lib_mode_static) {
@@ -361,6 +362,7 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 		force_fallback =
 			wrap_mode == wrap_mode_forcefallback
 			|| obj_array_in(wk, force_fallback_for, ctx->name)
+			|| obj_array_in(wk, force_fallback_for, subproj_name)
 			|| obj_dict_in(wk, wk->subprojects, subproj_name);
 	}
 
-- 
2.43.0


From 4e2479eee11e3987a0dbab34aa31eed47ea34b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 149/173] fix: dependency() with static got the cached result
 of a lookup without it

---
 include/lang/workspace.h          |  2 +-
 src/functions/kernel/dependency.c | 41 ++++++++++++++-----------------
 src/lang/workspace.c              |  1 +
 3 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/include/lang/workspace.h b/include/lang/workspace.h
index 81bc8ef..6b8d629 100644
--- a/include/lang/workspace.h
+++ b/include/lang/workspace.h
@@ -22,7 +22,7 @@ struct project {
 	obj source_root, build_root, cwd, build_dir, subproject_name;
 	obj opts, compilers, targets, tests, test_setups, summary;
 	obj args, link_args, include_dirs;
-	struct { obj static_deps, shared_deps; } dep_cache;
+	struct { obj default_deps, static_deps, shared_deps; } dep_cache;
 	obj wrap_provides_deps, wrap_provides_exes;
 
 	// string
diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 189a981..a48fd48 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -62,7 +62,7 @@ struct dep_lookup_ctx {
 	obj fallback;
 	obj not_found_message;
 	obj modules;
-	enum dep_lib_mode lib_mode;
+	enum dep_lib_mode lib_mode, requested_lib_mode;
 	bool disabler;
 	bool fallback_allowed;
 	bool fallback_disabled;
@@ -95,24 +95,25 @@ check_dependency_override_iter(struct workspace *wk, void *_ctx, obj n)
 	return ir_cont;
 }
 
-static bool
-check_dependency_cache(struct workspace *wk, struct dep_lookup_ctx *ctx, obj *res)
+static obj
+dependency_cache(struct workspace *wk, enum dep_lib_mode lib_mode)
 {
-	if (ctx->lib_mode != dep_lib_mode_shared) {
-		if (obj_dict_index(wk, current_project(wk)->dep_cache.static_deps, ctx->name, res)) {
-			ctx->lib_mode = dep_lib_mode_static;
-			return true;
-		}
-	}
+	struct project *proj = current_project(wk);
 
-	if (ctx->lib_mode != dep_lib_mode_static) {
-		if (obj_dict_index(wk, current_project(wk)->dep_cache.shared_deps, ctx->name, res)) {
-			ctx->lib_mode = dep_lib_mode_shared;
-			return true;
-		}
+	switch (lib_mode) {
+	case dep_lib_mode_static:
+		return proj->dep_cache.static_deps;
+	case dep_lib_mode_shared:
+		return proj->dep_cache.shared_deps;
+	default:
+		return proj->dep_cache.default_deps;
 	}
+}
 
-	return false;
+static bool
+check_dependency_cache(struct workspace *wk, struct dep_lookup_ctx *ctx, obj *res)
+{
+	return obj_dict_index(wk, dependency_cache(wk, ctx->requested_lib_mode), ctx->name, res);
 }
 
 static bool
@@ -483,14 +484,7 @@ set_dependency_cache_iter(struct workspace *wk, void *_ctx, obj name)
 {
 	struct dep_lookup_ctx *ctx = _ctx;
 
-	if (ctx->lib_mode != dep_lib_mode_shared) {
-		obj_dict_set(wk, current_project(wk)->dep_cache.static_deps, name, *ctx->res);
-	}
-
-	if (ctx->lib_mode != dep_lib_mode_static) {
-		obj_dict_set(wk, current_project(wk)->dep_cache.shared_deps, name, *ctx->res);
-	}
-
+	obj_dict_set(wk, dependency_cache(wk, ctx->requested_lib_mode), name, *ctx->res);
 	return ir_cont;
 }
 
@@ -651,6 +645,7 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 		.default_options = &akw[kw_default_options],
 		.not_found_message = akw[kw_not_found_message].val,
 		.lib_mode = lib_mode,
+		.requested_lib_mode = lib_mode,
 		// an empty fallback array is the same as allow_fallback: false
 		.fallback_disabled = !fallback_allowed && (akw[kw_allow_fallback].set || akw[kw_fallback].set),
 		.disabler = akw[kw_disabler].set && get_obj_bool(wk, akw[kw_disabler].val),
diff --git a/src/lang/workspace.c b/src/lang/workspace.c
index c0183ee..68deb66 100644
--- a/src/lang/workspace.c
+++ b/src/lang/workspace.c
@@ -33,6 +33,7 @@ make_project(struct workspace *wk, uint32_t *id, const char *subproject_name,
 	make_obj(wk, &proj->summary, obj_dict);
 	make_obj(wk, &proj->targets, obj_array);
 	make_obj(wk, &proj->tests, obj_array);
+	make_obj(wk, &proj->dep_cache.default_deps, obj_dict);
 	make_obj(wk, &proj->dep_cache.static_deps, obj_dict);
 	make_obj(wk, &proj->dep_cache.shared_deps, obj_dict);
 	make_obj(wk, &proj->wrap_provides_deps, obj_dict);
-- 
2.43.0


From a80103c8de6ccfa741faf3e37d6d4548cde82f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 150/173] fix: dependency() changed the include type of the
 overriding dependency and not its includes

---
 src/functions/kernel/dependency.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index a48fd48..e51557d 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -719,20 +719,26 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	if (get_obj_type(wk, *res) == obj_dependency) {
 		struct obj_dependency *dep = get_obj_dependency(wk, *res);
 
-		if (ctx.from_cache) {
-			obj dup;
-			make_obj(wk, &dup, obj_dependency);
-			struct obj_dependency *newdep = get_obj_dependency(wk, dup);
-			*newdep = *dep;
-			dep = newdep;
-			*res = dup;
+		if (dep->flags & dep_flag_found && !ctx.from_cache) {
+			obj_array_foreach(wk, ctx.names, &ctx, set_dependency_cache_iter);
 		}
 
-		// set the include type if the return value is not a disabler
-		dep->include_type = inc_type;
+		// set the include type if the return value is not a disabler, on
+		// a copy because the dependency may also be an override, a
+		// variable of a subproject, or in the cache
+		obj dup;
+		make_obj(wk, &dup, obj_dependency);
+		struct obj_dependency *newdep = get_obj_dependency(wk, dup);
+		*newdep = *dep;
+		*res = dup;
+
+		if (akw[kw_include_type].set) {
+			newdep->include_type = inc_type;
+		}
 
-		if (dep->flags & dep_flag_found && !ctx.from_cache) {
-			obj_array_foreach(wk, ctx.names, &ctx, set_dependency_cache_iter);
+		if (inc_type != include_type_preserve && dep->dep.include_directories) {
+			make_obj(wk, &newdep->dep.include_directories, obj_array);
+			dep_process_includes(wk, dep->dep.include_directories, inc_type, newdep->dep.include_directories);
 		}
 	}
 
-- 
2.43.0


From 65cd9b03b91da605461d03aab61c5c3d5fccacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:50 +0000
Subject: [PATCH 151/173] fix: subproject() with required: false was found in
 spite of a version mismatch

---
 src/functions/kernel/subproject.c | 48 ++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 2228350..bf6cecf 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -81,12 +81,41 @@ wrap_done:
 	return true;
 }
 
+static bool
+subproject_version_matches(struct workspace *wk, uint32_t subproject_id,
+	enum requirement_type req, struct args_kw *versions)
+{
+	if (!versions || !versions->set || !get_obj_array(wk, versions->val)->len) {
+		return true;
+	}
+
+	struct project *subp = arr_get(&wk->projects, subproject_id);
+
+	bool compare_result;
+	if (!version_compare(wk, versions->node, get_str(wk, subp->cfg.version),
+		versions->val, &compare_result)) {
+		return false;
+	}
+
+	if (!compare_result && req == requirement_required) {
+		interp_error(wk, versions->node,
+			"subproject version mismatch; wanted %o, got %o",
+			versions->val, subp->cfg.version);
+	}
+
+	return compare_result;
+}
+
 bool
 subproject(struct workspace *wk, obj name, enum requirement_type req, struct args_kw *default_options,
 	struct args_kw *versions, obj *res)
 {
 	// don't re-evaluate the same subproject
 	if (obj_dict_index(wk, wk->subprojects, name, res)) {
+		if (!subproject_version_matches(wk, get_obj_subproject(wk, *res)->id, req, versions)) {
+			make_obj(wk, res, obj_subproject);
+			return req != requirement_required;
+		}
 		return true;
 	}
 
@@ -132,23 +161,8 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 		goto not_found;
 	}
 
-	if (versions && versions->set) {
-		struct project *subp = arr_get(&wk->projects, subproject_id);
-
-		bool compare_result;
-		if (!version_compare(wk, versions->node, get_str(wk, subp->cfg.version),
-			versions->val, &compare_result)) {
-			goto not_found;
-		}
-
-		if (!compare_result) {
-			if (req == requirement_required) {
-				interp_error(wk, versions->node,
-					"subproject version mismatch; wanted %o, got %o",
-					versions->val, subp->cfg.version);
-				goto not_found;
-			}
-		}
+	if (!subproject_version_matches(wk, subproject_id, req, versions)) {
+		goto not_found;
 	}
 
 	make_obj(wk, res, obj_subproject);
-- 
2.43.0


From 8edd0943bd2d8aa4b11a89af032df5efadc79691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:51 +0000
Subject: [PATCH 152/173] fix: pkgconfig_define stayed defined in later lookups
 and was ignored in expanded variables

---
 include/external/libpkgconf.h  |  3 ++-
 src/external/libpkgconf.c      | 24 +++++++++++++++++++++++-
 src/external/libpkgconf_null.c |  7 ++++++-
 src/functions/dependency.c     | 29 ++++++++++++++++++++++++-----
 4 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/include/external/libpkgconf.h b/include/external/libpkgconf.h
index 323e956..be6841f 100644
--- a/include/external/libpkgconf.h
+++ b/include/external/libpkgconf.h
@@ -18,6 +18,7 @@ struct pkgconf_info {
 extern const bool have_libpkgconf;
 
 bool muon_pkgconf_lookup(struct workspace *wk, obj name, bool is_static, struct pkgconf_info *info);
-bool muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char *var, obj *res);
+bool muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char *var, bool reload, obj *res);
 bool muon_pkgconf_define(struct workspace *wk, const char *key, const char *value);
+void muon_pkgconf_undefine(const char *key);
 #endif
diff --git a/src/external/libpkgconf.c b/src/external/libpkgconf.c
index da4fb35..800e9c8 100644
--- a/src/external/libpkgconf.c
+++ b/src/external/libpkgconf.c
@@ -349,6 +349,20 @@ muon_pkgconf_define(struct workspace *wk, const char *key, const char *value)
 	return true;
 }
 
+void
+muon_pkgconf_undefine(const char *key)
+{
+	pkgconf_node_t *node, *next;
+
+	PKGCONF_FOREACH_LIST_ENTRY_SAFE(pkgconf_ctx.client.global_vars.head, next, node) {
+		pkgconf_tuple_t *tuple = node->data;
+
+		if (strcmp(tuple->key, key) == 0) {
+			pkgconf_tuple_free_entry(tuple, &pkgconf_ctx.client.global_vars);
+		}
+	}
+}
+
 bool
 muon_pkgconf_lookup(struct workspace *wk, obj name, bool is_static, struct pkgconf_info *info)
 {
@@ -440,7 +454,7 @@ apply_variable(pkgconf_client_t *client, pkgconf_pkg_t *world, void *_ctx, int m
 }
 
 bool
-muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char *var, obj *res)
+muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char *var, bool reload, obj *res)
 {
 	if (!pkgconf_ctx.init) {
 		if (!muon_pkgconf_init(wk)) {
@@ -448,6 +462,11 @@ muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char
 		}
 	}
 
+	if (reload) {
+		// the variables of a cached package are already expanded
+		pkgconf_cache_free(&pkgconf_ctx.client);
+	}
+
 	pkgconf_client_set_flags(&pkgconf_ctx.client, PKGCONF_PKG_PKGF_SEARCH_PRIVATE);
 
 	pkgconf_list_t pkgq = PKGCONF_LIST_INITIALIZER;
@@ -463,5 +482,8 @@ muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char
 
 ret:
 	pkgconf_queue_free(&pkgq);
+	if (reload) {
+		pkgconf_cache_free(&pkgconf_ctx.client);
+	}
 	return ret;
 }
diff --git a/src/external/libpkgconf_null.c b/src/external/libpkgconf_null.c
index 37f3ca6..fb9854a 100644
--- a/src/external/libpkgconf_null.c
+++ b/src/external/libpkgconf_null.c
@@ -18,7 +18,7 @@ muon_pkgconf_lookup(struct workspace *wk, obj name, bool is_static, struct pkgco
 }
 
 bool
-muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char *var, obj *res)
+muon_pkgconf_get_variable(struct workspace *wk, const char *pkg_name, const char *var, bool reload, obj *res)
 {
 	LOG_W("libpkgconf not enabled");
 	return false;
@@ -30,3 +30,8 @@ muon_pkgconf_define(struct workspace *wk, const char *key, const char *value)
 	LOG_W("libpkgconf not enabled");
 	return false;
 }
+
+void
+muon_pkgconf_undefine(const char *key)
+{
+}
diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index c90fc8d..51f0e2c 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -34,7 +34,7 @@ func_dependency_found(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 }
 
 static bool
-dep_get_pkgconfig_variable(struct workspace *wk, obj dep, uint32_t node, obj var, obj *res)
+dep_get_pkgconfig_variable(struct workspace *wk, obj dep, uint32_t node, obj var, bool reload, obj *res)
 {
 	struct obj_dependency *d = get_obj_dependency(wk, dep);
 	if (d->type != dependency_type_pkgconf) {
@@ -42,7 +42,7 @@ dep_get_pkgconfig_variable(struct workspace *wk, obj dep, uint32_t node, obj var
 		return false;
 	}
 
-	if (!muon_pkgconf_get_variable(wk, get_cstr(wk, d->name), get_cstr(wk, var), res)) {
+	if (!muon_pkgconf_get_variable(wk, get_cstr(wk, d->name), get_cstr(wk, var), reload, res)) {
 		return false;
 	}
 	return true;
@@ -64,7 +64,7 @@ func_dependency_get_pkgconfig_variable(struct workspace *wk, obj rcvr,
 		return false;
 	}
 
-	if (!dep_get_pkgconfig_variable(wk, rcvr, an[0].node, an[0].val, res)) {
+	if (!dep_get_pkgconfig_variable(wk, rcvr, an[0].node, an[0].val, false, res)) {
 		if (akw[kw_default].set) {
 			*res = akw[kw_default].val;
 		} else {
@@ -102,6 +102,16 @@ dep_pkgconfig_define(struct workspace *wk, obj dep, uint32_t node, obj var)
 	return true;
 }
 
+static void
+dep_pkgconfig_undefine(struct workspace *wk, obj var)
+{
+	for (int64_t idx = 0; idx < get_obj_array(wk, var)->len; idx += 2) {
+		obj key;
+		obj_array_index(wk, var, idx, &key);
+		muon_pkgconf_undefine(get_cstr(wk, key));
+	}
+}
+
 static bool
 func_dependency_get_variable(struct workspace *wk, obj rcvr,
 	uint32_t args_node, obj *res)
@@ -144,7 +154,7 @@ func_dependency_get_variable(struct workspace *wk, obj rcvr,
 
 	struct obj_dependency *dep = get_obj_dependency(wk, rcvr);
 	if (dep->type == dependency_type_pkgconf) {
-		if (akw[kw_pkgconfig_define].set) {
+		if (akw[kw_pkgconfig_define].set && akw[kw_pkgconfig].set) {
 			node = akw[kw_pkgconfig_define].node;
 
 			if (!dep_pkgconfig_define(wk, rcvr, node, akw[kw_pkgconfig_define].val)) {
@@ -154,7 +164,16 @@ func_dependency_get_variable(struct workspace *wk, obj rcvr,
 		if (akw[kw_pkgconfig].set) {
 			node = akw[kw_pkgconfig].node;
 
-			if (dep_get_pkgconfig_variable(wk, rcvr, akw[kw_pkgconfig].node, akw[kw_pkgconfig].val, res)) {
+			bool found = dep_get_pkgconfig_variable(wk, rcvr,
+				akw[kw_pkgconfig].node, akw[kw_pkgconfig].val,
+				akw[kw_pkgconfig_define].set, res);
+
+			if (akw[kw_pkgconfig_define].set) {
+				// only this lookup uses them
+				dep_pkgconfig_undefine(wk, akw[kw_pkgconfig_define].val);
+			}
+
+			if (found) {
 				return true;
 			}
 		}
-- 
2.43.0


From fe06a4ca4269d883b22cf5e1268458d4e5e7b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:17 +0000
Subject: [PATCH 153/173] fix: dependency() with several names changed what
 another name resolves to

---
 src/functions/kernel/dependency.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index e51557d..355daec 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -113,7 +113,18 @@ dependency_cache(struct workspace *wk, enum dep_lib_mode lib_mode)
 static bool
 check_dependency_cache(struct workspace *wk, struct dep_lookup_ctx *ctx, obj *res)
 {
-	return obj_dict_index(wk, dependency_cache(wk, ctx->requested_lib_mode), ctx->name, res);
+	obj name;
+	uint32_t i, len = get_obj_array(wk, ctx->names)->len;
+
+	for (i = 0; i < len; ++i) {
+		obj_array_index(wk, ctx->names, i, &name);
+
+		if (obj_dict_index(wk, dependency_cache(wk, ctx->requested_lib_mode), name, res)) {
+			return true;
+		}
+	}
+
+	return false;
 }
 
 static bool
@@ -484,7 +495,13 @@ set_dependency_cache_iter(struct workspace *wk, void *_ctx, obj name)
 {
 	struct dep_lookup_ctx *ctx = _ctx;
 
-	obj_dict_set(wk, dependency_cache(wk, ctx->requested_lib_mode), name, *ctx->res);
+	obj cache = dependency_cache(wk, ctx->requested_lib_mode);
+
+	// a name which has been looked up keeps its dependency
+	if (!obj_dict_in(wk, cache, name)) {
+		obj_dict_set(wk, cache, name, *ctx->res);
+	}
+
 	return ir_cont;
 }
 
-- 
2.43.0


From b9f2bb5f12b142e9f84190a35b3ae49fe21a8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 154/173] fix: forcefallback did not use subprojects named like
 the dependency

---
 src/functions/kernel/dependency.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 355daec..576b593 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -317,6 +317,25 @@ get_dependency_pkgconfig(struct workspace *wk, struct dep_lookup_ctx *ctx, bool
 	return true;
 }
 
+static bool
+subproject_exists(struct workspace *wk, obj name)
+{
+	if (!*get_cstr(wk, name)) {
+		return false;
+	}
+
+	SBUF(path);
+	path_join(wk, &path, get_cstr(wk, current_project(wk)->source_root), get_cstr(wk, current_project(wk)->subprojects_dir));
+	path_push(wk, &path, get_cstr(wk, name));
+
+	if (fs_dir_exists(path.buf)) {
+		return true;
+	}
+
+	sbuf_pushs(wk, &path, ".wrap");
+	return fs_file_exists(path.buf);
+}
+
 static bool
 get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 {
@@ -360,7 +379,8 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 	}
 
 	// implicitly fallback on a subproject named the same as this dependency
-	if (!ctx->fallback && ctx->fallback_allowed) {
+	if (!ctx->fallback && (ctx->fallback_allowed
+			       || (!ctx->fallback_disabled && subproject_exists(wk, ctx->name)))) {
 		make_obj(wk, &ctx->fallback, obj_array);
 		obj_array_push(wk, ctx->fallback, ctx->name);
 	}
-- 
2.43.0


From 8a521d9c368b3038b40a0eb9a5af0c73eff1f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:11 +0000
Subject: [PATCH 155/173] fix: dependency() with a disabled feature ignored
 disabler: true

---
 src/functions/kernel/dependency.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 576b593..014c29f 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -633,6 +633,11 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	}
 
 	if (requirement == requirement_skip) {
+		if (akw[kw_disabler].set && get_obj_bool(wk, akw[kw_disabler].val)) {
+			*res = disabler_id;
+			return true;
+		}
+
 		make_obj(wk, res, obj_dependency);
 		struct obj_dependency *dep = get_obj_dependency(wk, *res);
 		obj_array_index(wk, an[0].val, 0, &dep->name);
-- 
2.43.0


From 4cfd81a87e537cd69ae1aebd0ab18e7c99222dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:11 +0000
Subject: [PATCH 156/173] fix: pkgconfig.generate() ignored conflicts

---
 src/functions/modules/pkgconfig.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 51f7590..66da89f 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -673,6 +673,12 @@ module_pkgconf_write(struct workspace *wk, const char *path, struct pkgconf_file
 
 	fprintf(f, "Version: %s\n", get_cstr(wk, pc->version));
 
+	if (pc->conflicts && get_obj_array(wk, pc->conflicts)->len) {
+		obj str;
+		obj_array_join(wk, false, pc->conflicts, make_str(wk, ", "), &str);
+		fprintf(f, "Conflicts: %s\n", get_cstr(wk, str));
+	}
+
 	if (get_obj_array(wk, pc->reqs[pkgconf_visibility_pub])->len) {
 		obj str;
 		obj_array_join(wk, false, pc->reqs[pkgconf_visibility_pub], make_str(wk, ", "), &str);
-- 
2.43.0


From 230dc909a6d698c5b1a0b002a09c8fbd924f98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:29 +0000
Subject: [PATCH 157/173] fix: pkgconfig.generate() left out directory
 variables an earlier file declared itself

---
 src/functions/modules/pkgconfig.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 66da89f..6560c7c 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -889,6 +889,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 	{ // variables
 		for (i = 0; i < ARRAY_LEN(module_pkgconf_diropts); ++i) {
 			module_pkgconf_diropts[i].refd = false;
+			module_pkgconf_diropts[i].added = false;
 		}
 
 		if (!pc.dataonly) {
-- 
2.43.0


From cd754ec63ddf3974ce07bdec6f1e6939ce36d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:45 +0000
Subject: [PATCH 158/173] fix: pkgconfig.generate() without a description wrote
 a null string

---
 src/functions/modules/pkgconfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 6560c7c..c7a7f48 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -813,7 +813,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 
 	if (akw[kw_description].set) {
 		pc.description = akw[kw_description].val;
-	} else if (mainlib) {
+	} else {
 		pc.description = make_strf(wk, "%s: %s",
 			get_cstr(wk, current_project(wk)->cfg.name),
 			get_cstr(wk, pc.name));
-- 
2.43.0


From 752aa0615c7a1c89f8adad25cf35ff9c0e7d4417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:20 +0000
Subject: [PATCH 159/173] fix: pkgconfig.generate() lost the link_args of
 declared dependencies

---
 include/lang/object.h             | 1 +
 src/functions/dependency.c        | 1 +
 src/functions/kernel/dependency.c | 1 +
 src/functions/modules/pkgconfig.c | 4 ++++
 4 files changed, 7 insertions(+)

diff --git a/include/lang/object.h b/include/lang/object.h
index c059e19..5904f2f 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -222,6 +222,7 @@ struct build_dep {
 		obj deps;
 		obj link_with;
 		obj link_whole;
+		obj link_args;
 	} raw;
 };
 
diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index 51f0e2c..f321bf9 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -309,6 +309,7 @@ func_dependency_partial_dependency(struct workspace *wk, obj rcvr, uint32_t args
 
 	if (akw[kw_link_args].set && get_obj_bool(wk, akw[kw_link_args].val)) {
 		partial->dep.link_args = dep->dep.link_args;
+		partial->dep.raw.link_args = dep->dep.raw.link_args;
 	}
 
 	if (akw[kw_links].set && get_obj_bool(wk, akw[kw_links].val)) {
diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 014c29f..75d49b7 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -878,6 +878,7 @@ func_declare_dependency(struct workspace *wk, obj _, uint32_t args_node, obj *re
 
 	if (akw[kw_link_args].set) {
 		obj_array_extend_nodup(wk, dep->dep.link_args, akw[kw_link_args].val);
+		obj_array_dup(wk, akw[kw_link_args].val, &dep->dep.raw.link_args);
 	}
 
 	if (akw[kw_compile_args].set) {
diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index c7a7f48..d12a571 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -325,6 +325,10 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 				obj_array_extend(wk, ctx->pc->cflags, dep->dep.compile_args);
 			}
 
+			if (dep->dep.raw.link_args) {
+				obj_array_extend(wk, ctx->pc->libs[ctx->vis], dep->dep.raw.link_args);
+			}
+
 			if (dep->dep.raw.link_with) {
 				if (!module_pkgconf_process_libs(wk, ctx->err_node,
 					dep->dep.raw.link_with, ctx->pc, ctx->vis, false)) {
-- 
2.43.0


From 81000a20523f04ef1ae31520f1db6f11cd88ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:12 +0000
Subject: [PATCH 160/173] fix: pkgconfig.generate() dropped the lib in front of
 library names

---
 src/functions/modules/pkgconfig.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index d12a571..2835755 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -101,9 +101,14 @@ module_pkgconf_lib_to_lname(struct workspace *wk, obj lib, obj *res)
 	case obj_file: {
 		path_basename(wk, &basename, get_file_path(wk, lib));
 
-		char *dot;
-		if ((dot = strrchr(basename.buf, '.'))) {
-			*dot = '\0';
+		// the extension may be followed by a version
+		char *ext = strstr(basename.buf, ".so.");
+		if (!ext) {
+			ext = strrchr(basename.buf, '.');
+		}
+
+		if (ext) {
+			*ext = '\0';
 		}
 
 		str = basename.buf;
@@ -293,8 +298,10 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 				}
 			}
 
-			obj lib;
-			if (!module_pkgconf_lib_to_lname(wk, tgt->name, &lib)) {
+			obj lib, lib_file;
+			make_obj(wk, &lib_file, obj_file);
+			*get_obj_file(wk, lib_file) = tgt->build_name;
+			if (!module_pkgconf_lib_to_lname(wk, lib_file, &lib)) {
 				return ir_err;
 			}
 
-- 
2.43.0


From f80703fe5ff92fa9e30d8fb4edb5574b3791ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:54 +0000
Subject: [PATCH 161/173] fix: pkgconfig.generate() looked for libraries in the
 directory of the pc file

---
 include/lang/object.h               |  1 +
 src/functions/kernel/build_target.c |  1 +
 src/functions/modules/pkgconfig.c   | 87 ++++++++++++++---------------
 3 files changed, 44 insertions(+), 45 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index 5904f2f..e4acc4c 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -239,6 +239,7 @@ struct obj_build_target {
 	obj args; // obj_dict
 	obj link_depends; // obj_array
 	obj generated_pc; // obj_string
+	obj install_dir; // obj_string, if it is not the default
 	obj override_options; // obj_array
 	obj required_compilers; // obj_dict
 
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 5b9d635..7c6858f 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -739,6 +739,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		obj install_dir = 0;
 		if (akw[bt_kw_install_dir].set) {
 			install_dir = akw[bt_kw_install_dir].val;
+			tgt->install_dir = install_dir;
 		} else {
 			switch (type) {
 			case tgt_executable:
diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 2835755..46a0d5e 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -33,9 +33,8 @@ struct pkgconf_file {
 	// arrays of string
 	obj cflags, conflicts;
 	obj builtin_dir_variables, variables;
-	obj reqs[2], libs[2];
+	obj reqs[2], libs[2], libdirs[2];
 	obj exclude;
-	bool libs_contains_internal[2];
 
 	bool dataonly;
 };
@@ -201,6 +200,40 @@ module_pkgconf_process_reqs(struct workspace *wk, uint32_t err_node, obj reqs, o
 	return true;
 }
 
+/* The library is found in the directory it is installed to. */
+static void
+module_pkgconf_add_libdir(struct workspace *wk, struct pkgconf_file *pc,
+	enum pkgconf_visibility vis, obj install_dir)
+{
+	obj arg;
+
+	if (install_dir) {
+		SBUF(rel);
+		SBUF(esc);
+		obj pre;
+		get_option_value(wk, current_project(wk), "prefix", &pre);
+
+		const char *dir = get_cstr(wk, install_dir), *prefix = get_cstr(wk, pre);
+		bool in_prefix = true;
+
+		if (path_is_absolute(dir)) {
+			if ((in_prefix = path_is_subpath(prefix, dir))) {
+				path_relative_to(wk, &rel, prefix, dir);
+				dir = rel.buf;
+			}
+		}
+
+		pkgconf_escape(wk, &esc, dir);
+		arg = make_strf(wk, "-L%s%s", in_prefix ? "${prefix}/" : "", esc.buf);
+	} else {
+		arg = make_str(wk, "-L${libdir}");
+	}
+
+	if (!obj_array_in(wk, pc->libdirs[vis], arg)) {
+		obj_array_push(wk, pc->libdirs[vis], arg);
+	}
+}
+
 struct module_pkgconf_process_libs_iter_ctx {
 	uint32_t err_node;
 	struct pkgconf_file *pc;
@@ -248,7 +281,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 
 		if (path_is_subpath(wk->source_root, get_file_path(wk, val))
 		    || path_is_subpath(wk->build_root, get_file_path(wk, val))) {
-			ctx->pc->libs_contains_internal[ctx->vis] = true;
+			module_pkgconf_add_libdir(wk, ctx->pc, ctx->vis, 0);
 		}
 
 		obj lib;
@@ -312,7 +345,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 				return ir_cont;
 			}
 
-			ctx->pc->libs_contains_internal[ctx->vis] = true;
+			module_pkgconf_add_libdir(wk, ctx->pc, ctx->vis, tgt->install_dir);
 			obj_array_push(wk, ctx->pc->libs[ctx->vis], lib);
 		}
 		break;
@@ -403,7 +436,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 			return ir_err;
 		}
 
-		ctx->pc->libs_contains_internal[ctx->vis] = true;
+		module_pkgconf_add_libdir(wk, ctx->pc, ctx->vis, 0);
 		obj_array_push(wk, ctx->pc->libs[ctx->vis], lib);
 		break;
 	}
@@ -579,42 +612,6 @@ module_pkgconf_process_vars(struct workspace *wk, uint32_t err_node, bool escape
 	return true;
 }
 
-static bool
-module_pkgconf_prepend_libdir(struct workspace *wk, struct args_kw *install_dir_opt, obj *libs)
-{
-	obj libdir;
-	const char *path;
-	if (install_dir_opt->set) {
-		SBUF(rel);
-		obj pre;
-		get_option_value(wk, current_project(wk), "prefix", &pre);
-
-		const char *install_dir = get_cstr(wk, install_dir_opt->val),
-			   *prefix = get_cstr(wk, pre);
-
-		if (path_is_subpath(prefix, install_dir)) {
-			path_relative_to(wk, &rel, prefix, install_dir);
-			path = rel.buf;
-		} else if (path_is_absolute(install_dir)) {
-			interp_error(wk, install_dir_opt->val, "absolute install dir path not a subdir of prefix");
-			return false;
-		} else {
-			path = install_dir;
-		}
-
-		libdir = make_strf(wk, "-L${prefix}/%s", path);
-	} else {
-		libdir = make_strf(wk, "-L${libdir}");
-	}
-
-	obj arr;
-	make_obj(wk, &arr, obj_array);
-	obj_array_push(wk, arr, libdir);
-	obj_array_extend_nodup(wk, arr, *libs);
-	*libs = arr;
-	return true;
-}
-
 struct module_pkgconf_remove_dups_ctx {
 	obj exclude;
 	obj res;
@@ -795,6 +792,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 	for (i = 0; i < 2; ++i) {
 		make_obj(wk, &pc.libs[i], obj_array);
 		make_obj(wk, &pc.reqs[i], obj_array);
+		make_obj(wk, &pc.libdirs[i], obj_array);
 	}
 	make_obj(wk, &pc.cflags, obj_array);
 	make_obj(wk, &pc.variables, obj_array);
@@ -872,10 +870,9 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 	module_pkgconf_remove_dups(wk, &pc.libs[pkgconf_visibility_priv], pc.exclude);
 
 	for (i = 0; i < 2; ++i) {
-		if (get_obj_array(wk, pc.libs[i])->len && pc.libs_contains_internal[i]) {
-			if (!module_pkgconf_prepend_libdir(wk, &akw[kw_install_dir], &pc.libs[i])) {
-				return false;
-			}
+		if (get_obj_array(wk, pc.libs[i])->len) {
+			obj_array_extend_nodup(wk, pc.libdirs[i], pc.libs[i]);
+			pc.libs[i] = pc.libdirs[i];
 		}
 	}
 
-- 
2.43.0


From 8875b024b14030179e94db520fcdff5e5a6f8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:23 +0000
Subject: [PATCH 162/173] fix: pkgconfig.generate() put directories outside of
 the prefix below it

---
 src/functions/modules/pkgconfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 46a0d5e..298610f 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -520,7 +520,7 @@ module_pkgconf_declare_builtin_dir_var(struct workspace *wk, const char *opt, ob
 {
 	obj val, valstr;
 	get_option_value(wk, current_project(wk), opt, &val);
-	if (strcmp(opt, "prefix") == 0) {
+	if (strcmp(opt, "prefix") == 0 || path_is_absolute(get_cstr(wk, val))) {
 		valstr = val;
 	} else {
 		valstr = make_strf(wk, "${prefix}/%s", get_cstr(wk, val));
-- 
2.43.0


From c8e4cae17f8bf319274848d26727bc22b2b27328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:43 +0000
Subject: [PATCH 163/173] fix: pkgconfig.generate() hid threads among its
 libraries from consumers

---
 src/functions/modules/pkgconfig.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 298610f..fc06d84 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -396,7 +396,10 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 			// TODO: handle version req
 			break;
 		case dependency_type_threads:
-			obj_array_push(wk, ctx->pc->libs[pkgconf_visibility_priv], make_str(wk, "-pthread"));
+			obj_array_push(wk, ctx->pc->libs[ctx->vis], make_str(wk, "-pthread"));
+			if (ctx->vis == pkgconf_visibility_pub) {
+				obj_array_push(wk, ctx->pc->cflags, make_str(wk, "-pthread"));
+			}
 			break;
 		case dependency_type_external_library: {
 			obj link_with_files;
-- 
2.43.0


From 8e37eaf38d2f64d2c6b71a72bbd02782c7a40178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:54 +0000
Subject: [PATCH 164/173] fix: a dependency found by another of its names was
 not found by the rest of them

---
 src/functions/kernel/dependency.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 75d49b7..cffc8f2 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -67,7 +67,6 @@ struct dep_lookup_ctx {
 	bool fallback_allowed;
 	bool fallback_disabled;
 	bool fallback_only;
-	bool from_cache;
 	bool found;
 };
 
@@ -355,7 +354,6 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 
 			*ctx->res = cached_dep;
 			ctx->found = true;
-			ctx->from_cache = true;
 			return true;
 		}
 	}
@@ -502,7 +500,6 @@ dependency_iter(struct workspace *wk, void *_ctx, obj name)
 
 	if (ctx.found) {
 		parent_ctx->lib_mode = ctx.lib_mode;
-		parent_ctx->from_cache = ctx.from_cache;
 		parent_ctx->found = true;
 		return ir_done;
 	} else {
@@ -761,7 +758,8 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	if (get_obj_type(wk, *res) == obj_dependency) {
 		struct obj_dependency *dep = get_obj_dependency(wk, *res);
 
-		if (dep->flags & dep_flag_found && !ctx.from_cache) {
+		// every name of the call is consistently found from here on
+		if (dep->flags & dep_flag_found) {
 			obj_array_foreach(wk, ctx.names, &ctx, set_dependency_cache_iter);
 		}
 
-- 
2.43.0


From fa769f39b8399dc4977ea60842331d8cb0e038bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:36 +0000
Subject: [PATCH 165/173] fix: pkgconfig.generate() named the libraries of a
 private static library publicly

---
 src/functions/modules/pkgconfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index fc06d84..6cb1ac9 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -314,7 +314,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 
 			const enum pkgconf_visibility link_vis =
 				tgt->type == tgt_static_library
-				? pkgconf_visibility_pub
+				? ctx->vis
 				: pkgconf_visibility_priv;
 
 			if (tgt->dep.raw.link_with) {
-- 
2.43.0


From 6714ed6e620e1d537b7647554733384dbbebc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:33 +0000
Subject: [PATCH 166/173] fix: the analyzer did not expect a function to return
 a disabler

---
 src/lang/analyze.c | 124 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 124 insertions(+)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 9ade04e..21e6a4e 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -684,6 +684,123 @@ forget_analyzed_args(struct workspace *wk, uint32_t args_node)
 	}
 }
 
+/* A value may be a disabler if its type says so, and an array if it contains a
+ * value which may be one.
+ */
+enum disabled { disabled_never, disabled_maybe, disabled_always };
+
+static enum disabled analyze_disabled(struct workspace *wk, obj o);
+
+static enum iteration_result
+analyze_disabled_iter(struct workspace *wk, void *_ctx, obj val)
+{
+	enum disabled *ctx = _ctx, d = analyze_disabled(wk, val);
+
+	if (d > *ctx) {
+		*ctx = d;
+	}
+	return ir_cont;
+}
+
+static enum disabled
+analyze_disabled(struct workspace *wk, obj o)
+{
+	enum disabled res = disabled_never;
+
+	switch (get_obj_type(wk, o)) {
+	case obj_disabler:
+		return disabled_always;
+	case obj_typeinfo: {
+		type_tag t = get_obj_typeinfo(wk, o)->type;
+		if (t & TYPE_TAG_COMPLEX) {
+			return disabled_never;
+		}
+		t &= ~obj_typechecking_type_tag;
+
+		const type_tag d = tc_disabler & ~obj_typechecking_type_tag;
+		// a value of any type says nothing
+		if (t == (tc_any & ~obj_typechecking_type_tag) || !(t & d)) {
+			return disabled_never;
+		}
+
+		return t == d ? disabled_always : disabled_maybe;
+	}
+	case obj_array:
+		obj_array_foreach(wk, o, &res, analyze_disabled_iter);
+		return res;
+	default:
+		return disabled_never;
+	}
+}
+
+static obj
+add_disabler_type(struct workspace *wk, obj o, enum disabled d)
+{
+	if (d == disabled_never) {
+		return o;
+	} else if (d == disabled_always || !o) {
+		return make_typeinfo(wk, tc_disabler, 0);
+	}
+
+	type_tag sub = get_obj_type(wk, o) == obj_typeinfo ? get_obj_typeinfo(wk, o)->subtype : 0;
+	type_tag t = coerce_type_tag(wk, o);
+	if (t & TYPE_TAG_COMPLEX) {
+		t = flatten_type(wk, t);
+	}
+
+	return make_typeinfo(wk, t | tc_disabler, sub);
+}
+
+/* A function which gets a disabler, or which is asked to return one, returns one. */
+static enum disabled
+analyze_args_disabled(struct workspace *wk, uint32_t args_node)
+{
+	enum disabled res = disabled_never, d;
+	struct node *args = get_node(wk->ast, args_node);
+
+	while (args->type != node_empty) {
+		struct node *val = get_node(wk->ast, args->subtype == arg_kwarg ? args->r : args->l);
+		uint64_t *analyzed = hash_get(&analyzed_args, &val);
+		const obj o = analyzed ? (uint32_t)*analyzed : 0;
+
+		d = o ? analyze_disabled(wk, o) : disabled_never;
+
+		if (o && args->subtype == arg_kwarg && strcmp(get_node(wk->ast, args->l)->dat.s, "disabler") == 0
+		    && (get_obj_type(wk, o) != obj_bool || get_obj_bool(wk, o)) && d == disabled_never) {
+			d = disabled_maybe;
+		}
+
+		if (d > res) {
+			res = d;
+		}
+
+		if (!(args->chflg & node_child_c)) {
+			break;
+		}
+
+		args = get_node(wk->ast, args->c);
+	}
+
+	return res;
+}
+
+static bool
+func_accepts_disablers(const struct func_impl *fi, obj rcvr)
+{
+	static const char *names[] = {
+		"set_variable", "get_variable", "is_variable", "is_disabler", "unset_variable", "p", "subdir",
+	};
+	uint32_t i;
+
+	for (i = 0; !rcvr && i < ARRAY_LEN(names); ++i) {
+		if (strcmp(fi->name, names[i]) == 0) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 static bool
 analyze_func_obj_immediate(struct workspace *wk, uint32_t n_id, obj func_obj)
 {
@@ -797,6 +914,8 @@ analyze_function_call(struct workspace *wk, uint32_t n_id, uint32_t args_node, c
 		ret = false;
 	}
 
+	const enum disabled disabled = func_accepts_disablers(fi, rcvr) ? disabled_never : analyze_args_disabled(wk, args_node);
+
 	forget_analyzed_args(wk, args_node);
 
 	if (subdir_func) {
@@ -823,6 +942,8 @@ analyze_function_call(struct workspace *wk, uint32_t n_id, uint32_t args_node, c
 		*res = make_typeinfo(wk, fi->return_type, 0);
 	}
 
+	*res = add_disabler_type(wk, *res, disabled);
+
 	return ret;
 }
 
@@ -1018,6 +1139,9 @@ analyze_chained(struct workspace *wk, uint32_t n_id, obj l_id, obj *res)
 
 			if (rcvr_is_not_found_module || rcvr_is_module_object) {
 				tmp = make_typeinfo(wk, tc_any, tc_module);
+			} else if (analyze_disabled(wk, l_id) != disabled_never) {
+				// a disabler has every method
+				tmp = make_typeinfo(wk, tc_any, 0);
 			} else {
 				interp_error(wk, n_id, "method %s not found on %s", get_node(wk->ast, n->r)->dat.s, inspect_typeinfo(wk, l_id));
 				ret = false;
-- 
2.43.0


From bc6d2a76bdbe8bba401642ef6e9498f1785881cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:48 +0000
Subject: [PATCH 167/173] fix: the analyzer did not check what is searched for
 in a string or dictionary

---
 src/lang/analyze.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 21e6a4e..a12d022 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1369,7 +1369,10 @@ analyze_comparison_cb(struct workspace *wk, struct analyze_ctx *ctx, uint32_t n_
 		break;
 	case comp_in:
 	case comp_not_in:
-		ctx->expected |= tc_array | tc_dict | tc_string;
+		ctx->expected |= tc_array;
+		if (lhs == obj_string) {
+			ctx->expected |= tc_dict | tc_string;
+		}
 		break;
 	case comp_lt:
 	case comp_le:
-- 
2.43.0


From 86b1c73eba3b83e0adaad4aa5c652084d28c7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:04 +0000
Subject: [PATCH 168/173] fix: the analyzer took the existence of a variable
 for certain on every path

---
 src/lang/analyze.c | 48 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index a12d022..dc9c645 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -36,6 +36,10 @@ static struct {
 	const struct analyze_opts *opts;
 	obj eval_trace;
 	struct obj_func *fp;
+	// variables may exist that the analyzer does not know of
+	bool unknown_variables;
+	// a variable was looked up that may or may not exist
+	bool maybe_lookup;
 } analyzer;
 
 struct analyze_file_entrypoint {
@@ -51,6 +55,8 @@ struct assignment {
 	const char *name;
 	obj o;
 	bool accessed, default_var;
+	// only assigned on some of the paths leading here
+	bool maybe;
 	uint32_t line, col, src_idx;
 
 	uint32_t ep_stacks_i;
@@ -332,9 +338,20 @@ static void
 analyze_unassign(struct workspace *wk, const char *name)
 {
 	obj scope = assign_lookup_scope(wk, name);
-	if (scope) {
-		obj_dict_del_strn(wk, scope, name, strlen(name));
+	if (!scope) {
+		return;
 	}
+
+	obj local_scope = obj_array_get_tail(wk, current_project(wk)->scope_stack);
+	if (get_obj_array(wk, local_scope)->len > 1 && scope != obj_array_get_tail(wk, obj_array_get_tail(wk, local_scope))) {
+		// The variable is only unset on this path, it still exists on
+		// the others.
+		struct assignment *a = assign_lookup(wk, name);
+		a->maybe = true;
+		return;
+	}
+
+	obj_dict_del_strn(wk, scope, name, strlen(name));
 }
 
 static void
@@ -437,6 +454,7 @@ scope_assign(struct workspace *wk, const char *name, obj o, uint32_t n_id, enum
 		check_reassign_to_different_type(wk, a, o, NULL, n_id);
 
 		a->o = o;
+		a->maybe = false;
 		TracyCZoneAutoE;
 		return a;
 	}
@@ -543,6 +561,7 @@ merge_scope_group_scope_with_base_iter(struct workspace *wk, void *_ctx, obj k,
 
 		b = scope_assign(wk, a->name, a->o, 0, assign_local);
 		b->accessed = a->accessed;
+		b->maybe = true;
 		b->line = a->line;
 		b->col = a->col;
 		b->src_idx = a->src_idx;
@@ -888,7 +907,7 @@ analyze_function_call(struct workspace *wk, uint32_t n_id, uint32_t args_node, c
 	analyzer.error = false;
 
 	bool subdir_func = !rcvr && strcmp(fi->name, "subdir") == 0;
-	obj parent_eval_trace;
+	obj parent_eval_trace = 0;
 
 	analyze_all_function_arguments(wk, n_id, args_node);
 
@@ -907,6 +926,7 @@ analyze_function_call(struct workspace *wk, uint32_t n_id, uint32_t args_node, c
 	}
 
 	bool was_pure;
+	analyzer.maybe_lookup = false;
 	if (!analyze_function(wk, fi, args_node, rcvr, &func_res, &was_pure) || analyzer.error) {
 		if (subdir_func && analyzer.opts->subdir_error) {
 			interp_error(wk, n_id, "in subdir");
@@ -914,6 +934,17 @@ analyze_function_call(struct workspace *wk, uint32_t n_id, uint32_t args_node, c
 		ret = false;
 	}
 
+	if (!rcvr) {
+		if (!was_pure && (subdir_func || strcmp(fi->name, "set_variable") == 0 || strcmp(fi->name, "unset_variable") == 0)) {
+			analyzer.unknown_variables = true;
+		}
+
+		// the value depends on whether the variable exists
+		if (analyzer.maybe_lookup && (strcmp(fi->name, "is_variable") == 0 || strcmp(fi->name, "get_variable") == 0)) {
+			func_res = 0;
+		}
+	}
+
 	const enum disabled disabled = func_accepts_disablers(fi, rcvr) ? disabled_never : analyze_args_disabled(wk, args_node);
 
 	forget_analyzed_args(wk, args_node);
@@ -1847,8 +1878,12 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 	case node_id: {
 		struct assignment *a;
 		if (!(a = assign_lookup(wk, n->dat.s))) {
-			interp_error(wk, n_id, "undefined object %s", n->dat.s);
 			*res = make_typeinfo(wk, tc_any, 0);
+			if (analyzer.unknown_variables) {
+				break;
+			}
+
+			interp_error(wk, n_id, "undefined object %s", n->dat.s);
 			ret = false;
 		} else {
 			*res = a->o;
@@ -1954,6 +1989,11 @@ analyze_lookup_wrapper(struct workspace *wk, const char *name, obj *res, uint32_
 	if (a) {
 		a->accessed = true;
 		*res = a->o;
+		analyzer.maybe_lookup |= a->maybe || analyzer.unknown_variables;
+		return true;
+	} else if (analyzer.unknown_variables) {
+		*res = make_typeinfo(wk, tc_any, 0);
+		analyzer.maybe_lookup = true;
 		return true;
 	} else {
 		return false;
-- 
2.43.0


From 8bac0cfb2e77f631808b3266392e1534357bbbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:45 +0000
Subject: [PATCH 169/173] fix: the analyzer compared lists and dictionaries
 with unknown elements by identity

---
 src/lang/analyze.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index dc9c645..5fd5ae2 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1390,6 +1390,37 @@ analyze_andor(struct workspace *wk, struct node *n, obj *res)
 	return ret;
 }
 
+static bool is_pure_comparison_object(struct workspace *wk, obj o);
+
+static enum iteration_result
+is_pure_comparison_object_array_iter(struct workspace *wk, void *_ctx, obj v)
+{
+	return is_pure_comparison_object(wk, v) ? ir_cont : ir_err;
+}
+
+static enum iteration_result
+is_pure_comparison_object_dict_iter(struct workspace *wk, void *_ctx, obj k, obj v)
+{
+	return is_pure_comparison_object(wk, v) ? ir_cont : ir_err;
+}
+
+static bool
+is_pure_comparison_object(struct workspace *wk, obj o)
+{
+	if (!is_pure_arithmetic_object(wk, o)) {
+		return false;
+	}
+
+	switch (get_obj_type(wk, o)) {
+	case obj_array:
+		return obj_array_foreach(wk, o, 0, is_pure_comparison_object_array_iter);
+	case obj_dict:
+		return obj_dict_foreach(wk, o, 0, is_pure_comparison_object_dict_iter);
+	default:
+		return true;
+	}
+}
+
 static void
 analyze_comparison_cb(struct workspace *wk, struct analyze_ctx *ctx, uint32_t n_id, type_tag lhs, obj *res)
 {
@@ -1466,7 +1497,7 @@ analyze_comparison(struct workspace *wk, struct node *n, obj *res)
 		ret = false;
 	}
 
-	if (evaluated && is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
+	if (evaluated && is_pure_comparison_object(wk, l) && is_pure_comparison_object(wk, r)) {
 		ret = interp_comparison_objs(wk, n, l, r, res);
 	}
 
-- 
2.43.0


From 12928f82495779bc811e74851704f400a1508ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:04 +0000
Subject: [PATCH 170/173] fix: muon named meson crashed without arguments and
 could not regenerate its build files

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 740c936..3a3d970 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1093,7 +1093,10 @@ main(int argc, char *argv[])
 	{
 		SBUF(basename);
 		path_basename(NULL, &basename, argv[0]);
-		meson_compat = strcmp(basename.buf, "meson") == 0 && strcmp(argv[1], "internal") != 0;
+		// build files refer to muon by the name it was run with, and use
+		// its native interface
+		meson_compat = strcmp(basename.buf, "meson") == 0
+			       && !(argc > 1 && (strcmp(argv[1], "internal") == 0 || strncmp(argv[1], "-C", 2) == 0));
 		sbuf_destroy(&basename);
 	}
 
-- 
2.43.0


From 0a66675731c8e8e5de5bc06125c4c65a6e051f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:27 +0000
Subject: [PATCH 171/173] fix: meson setup --install-umask set an option that
 does not exist

---
 src/meson_opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meson_opts.c b/src/meson_opts.c
index 72ee19e..5a7f7bc 100644
--- a/src/meson_opts.c
+++ b/src/meson_opts.c
@@ -398,7 +398,7 @@ translate_meson_opts_setup(struct workspace *wk, char *argv[], uint32_t argc,
 		{ "errorlogs", .ignore = true },
 		{ "fatal-meson-warnings", .ignore = true },
 		{ "force-fallback-for", true, "force_fallback_for", },
-		{ "install-umask", true, "insall_umask" },
+		{ "install-umask", true, "install_umask" },
 		{ "layout", true, "layout", },
 		{ "native-file", true, .ignore = true },
 		{ "optimization", true, "optimization" },
-- 
2.43.0


From 6925bfbdded62c10bb573c971e2aa860e4574db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:52 +0000
Subject: [PATCH 172/173] fix: meson test took the value of --no-suite for the
 name of a test

---
 src/meson_opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meson_opts.c b/src/meson_opts.c
index 5a7f7bc..69639a5 100644
--- a/src/meson_opts.c
+++ b/src/meson_opts.c
@@ -269,7 +269,7 @@ translate_meson_opts_test(struct workspace *wk, char *argv[], uint32_t argc,
 		{ "gdb-path", true, .ignore = true },
 		{ "repeat", true, .ignore = true },
 		{ "wrapper", true, .ignore = true, },
-		{ "no-suite", .ignore = true },
+		{ "no-suite", true, .ignore = true },
 		{ "no-stdsplit", .ignore = true },
 		{ "print-errorlogs", .ignore = true },
 		{ "logbase", true, .ignore = true },
-- 
2.43.0


From 6a241996686e2f1be954ed41e39f158d29e366eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:13 +0000
Subject: [PATCH 173/173] fix: meson dropped values given to options that do
 not take one

---
 src/main.c       | 1 +
 src/meson_opts.c | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/main.c b/src/main.c
index 3a3d970..210f716 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1000,6 +1000,7 @@ cmd_meson(uint32_t argc, uint32_t argi, char *const argv[])
 	uint32_t new_argc, new_argi;
 	workspace_init_bare(&wk);
 	if (!translate_meson_opts(&wk, argc, argi, (char **)argv, &new_argc, &new_argi, &new_argv)) {
+		workspace_destroy(&wk);
 		return false;
 	}
 
diff --git a/src/meson_opts.c b/src/meson_opts.c
index 69639a5..00e874e 100644
--- a/src/meson_opts.c
+++ b/src/meson_opts.c
@@ -155,6 +155,11 @@ translate_meson_opts_parser(struct workspace *wk, char *argv[], uint32_t argc, s
 			return false;
 		}
 
+		if (!spec->has_value && val) {
+			LOG_E("option '%s' does not take an argument", spec->name);
+			return false;
+		}
+
 		if (spec->has_value && !val) {
 			if (argi + 1 > argc) {
 				LOG_E("option '%s' requires an argument", argv[argi - 1]);
-- 
2.43.0

