From 7dba52e6317704d8d578f2eecc331e9c70fa41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 01/47] fix: do not free the caller's stack when a regex does
 not match

Every caller of regex_ext_match_grp() frees the stack it passed on its own error path, so an unmatched token
(e.g. an empty or double-quoted string literal) ended in a double free.
---
 src/lib/regex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..958d5ea 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -19,8 +19,10 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 	num_matches = regex.re_nsub + 1;
 
 	matches = calloc(num_matches, sizeof(*matches));
-	if (!matches)
+	if (!matches) {
+		regfree(&regex);
 		goto err;
+	}
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -54,7 +56,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
+	/* the stack belongs to the caller, who is the one that frees it */
 	regfree(&regex);
 	free(matches);
 err:
-- 
2.43.0


From 195ca0c0e108160ff6bc0201fed61017f936ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 02/47] fix: comparing a column with itself in DELETE/UPDATE
 aborted the process

---
 src/engine/executor_delete.c | 5 ++++-
 src/engine/executor_update.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..a3dd79f 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* not an "else": both operands may be the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..32c1f8d 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* not an "else": both operands may be the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From cd9539100a895e341b8169748e85c8369f7b1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 03/47] fix: NOT IN in DELETE/UPDATE has to differ from every
 listed value

It was evaluated as 'differs from any of them', so 'DELETE ... WHERE f NOT IN (1, 2)' deleted every row.
---
 src/engine/executor_delete.c | 7 ++++---
 src/engine/executor_update.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index a3dd79f..1dd9482 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -354,11 +354,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN: one value has to match. NOT IN: every value has to differ */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 32c1f8d..13a58cd 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -333,11 +333,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN: one value has to match. NOT IN: every value has to differ */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 558d540955c00e4768aa62630eeedd4713e06ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 04/47] fix: 'value CMP field' in DELETE/UPDATE was evaluated
 as 'field CMP value'

---
 src/engine/executor_delete.c | 23 +++++++++++++++++++++--
 src/engine/executor_update.c | 23 +++++++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 1dd9482..7e32235 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -267,6 +267,23 @@ static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exp
 
 }
 
+/* operator that yields the same result once its operands are swapped */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_node *node)
 {
 	struct list_head *pos;
@@ -290,8 +307,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison, so operands (and therefore the operator) are the other way around */
+		struct ast_del_cmp_node mirrored = *node;
+		mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 13a58cd..4fa8a9e 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -246,6 +246,23 @@ static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exp
 
 }
 
+/* operator that yields the same result once its operands are swapped */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_node *node)
 {
 	struct list_head *pos;
@@ -269,8 +286,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison, so operands (and therefore the operator) are the other way around */
+		struct ast_upd_cmp_node mirrored = *node;
+		mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From 5cbb92b9a06d5024017532221ecf0f18ae96427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 05/47] fix: compare INTEGER columns using all of their 64 bits

---
 src/engine/executor_delete.c | 2 +-
 src/engine/executor_select.c | 2 +-
 src/engine/executor_update.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 7e32235..414406a 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..8460e3b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 4fa8a9e..1ffaa7e 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From 4c6775dc0f8f563d9e36fd8e8411dba89c18c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 06/47] fix: vacuuming a table that has no datablock crashed

table_vacuum() dereferenced the (nonexistent) last datablock, so every SELECT without resulting rows from a table
without datablocks went down with it.
---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..f6579e2 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing to be compacted if no row was ever inserted */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From cbd31634512821b865fe9100673daf3c3adecdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 07/47] fix: stepping through a result set that spans several
 datablocks

The cursor stepped into the partial row slot at the end of a datablock (reading whatever was in there) or gave up at
the never-filled last slot, so rows from the second datablock onwards were lost.
---
 src/engine/query.c | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..c32b4f3 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -117,32 +117,40 @@ int query_cur_step(struct result_set *res)
 
 	/* is this the first time ? */
 	if (!res->cursor_blk) {
+		/* no datablocks, no rows */
+		if (list_is_empty(res->table->datablock_head))
+			return MIDORIDB_OK;
 
 		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
-	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
-		}
+	} else if (res->cursor_offset < DATABLOCK_PAGE_SIZE) {
+		res->cursor_offset += row_size;
 	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+	for (;;) {
+		/* is there a whole row left in this datablock? */
+		if (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			/*
+			 * at this point we shouldn't have any of this, so clearly something went really wrong here
+			 */
+			BUG_ON(row->flags.deleted);
+
+			if (!row->flags.empty)
+				return MIDORIDB_ROW;
+		}
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+		if (res->cursor_blk->head.next == res->table->datablock_head) {
+			/* end of the line - and it stays that way if invoked again */
+			res->cursor_offset = DATABLOCK_PAGE_SIZE;
+			return MIDORIDB_OK;
+		}
 
-	return MIDORIDB_ROW;
+		/* rows are packed, so the first empty one means that the remaining ones are in the next datablock */
+		res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
-- 
2.43.0


From 498172ab59c59e69b058372a2633717956b72eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 08/47] fix: reading a column past the last row of a result set
 has to be caught

---
 src/engine/query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/query.c b/src/engine/query.c
index c32b4f3..1986bc3 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -162,6 +162,9 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	/* sanity checks */
 	BUG_ON(!res || !res->table || !res->cursor_blk || col_idx > res->table->column_count - 1);
 
+	/* same goes for a cursor which went past the last row */
+	BUG_ON_CUSTOM_MSG(res->cursor_offset >= DATABLOCK_PAGE_SIZE, "cursor is pointing at an invalid row\n");
+
 	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
 
 	/* sounds like user neither invoked query_cur_step nor checked if it returned MIDORIDB_ROW */
-- 
2.43.0


From eca42ff9aac5f15d764d2fbaec842584251658a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 09/47] fix: arithmetic of INSERT values: x % 0, NULL terms and
 64-bit results

x % 0 raised SIGFPE, a term that became NULL (e.g. 1 + 1 / 0) aborted the process depending on its side, and results
were silently cut to 32 bits.
---
 src/engine/optimiser_insert.c | 68 +++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..0da8eae 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -7,16 +7,26 @@
 
 #include <engine/optimiser.h>
 
-static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
+static int out_of_range(struct query_output *output)
+{
+	snprintf(output->error.message, sizeof(output->error.message) - 1, "integer out of range\n");
+	return -MIDORIDB_ERROR;
+}
+
+static int negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out, struct query_output *output)
 {
 	if (in->value_type.is_intnum) {
-		out->int_val = in->int_val * -1;
+		if (__builtin_sub_overflow((int64_t)0, in->int_val, &out->int_val))
+			return out_of_range(output);
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
-	} else {
+	} else if (!in->value_type.is_null) {
+		/* if the term _became_ NULL, then there is nothing to negate */
 		BUG_GENERIC();
 	}
 	memcpy(&out->value_type, &in->value_type, sizeof(out->value_type));
+
+	return MIDORIDB_OK;
 }
 
 static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
@@ -49,7 +59,15 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if (trunc(val_1->double_val) == 0.0) {
+			/* same as division by 0 */
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			/* integer part of both terms - adding 0.0 gets rid of negative zeros */
+			result = fmod(trunc(val_2->double_val), trunc(val_1->double_val)) + 0.0;
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -57,10 +75,11 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 	out->double_val = result;
 }
 
-static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
-		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
+static int calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
+		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out, struct query_output *output)
 {
-	int result = 0;
+	int64_t result = 0;
+	bool overflow = false;
 
 	if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
@@ -68,12 +87,12 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		out->value_type.is_null = true;
 		result = 0;
 	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
-		result = val_2->int_val + val_1->int_val;
+		overflow = __builtin_add_overflow(val_2->int_val, val_1->int_val, &result);
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
-		result = val_2->int_val - val_1->int_val;
+		overflow = __builtin_sub_overflow(val_2->int_val, val_1->int_val, &result);
 	} else if (op->op_type == AST_INS_EXPR_OP_MUL) {
-		result = val_2->int_val * val_1->int_val;
-	} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
+		overflow = __builtin_mul_overflow(val_2->int_val, val_1->int_val, &result);
+	} else if (op->op_type == AST_INS_EXPR_OP_DIV || op->op_type == AST_INS_EXPR_OP_MOD) {
 		if (val_1->int_val == 0) {
 			/*
 			 * division by 0 in SQL result to null instead of throwing an
@@ -82,16 +101,24 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_intnum = false;
 			out->value_type.is_null = true;
 			result = 0;
-		} else {
+		} else if (val_1->int_val == -1) {
+			/* INT64_MIN / -1 and INT64_MIN % -1 trap */
+			if (op->op_type == AST_INS_EXPR_OP_DIV)
+				overflow = __builtin_sub_overflow((int64_t)0, val_2->int_val, &result);
+		} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
 			result = val_2->int_val / val_1->int_val;
+		} else {
+			result = val_2->int_val % val_1->int_val;
 		}
-	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
 	} else {
 		BUG_GENERIC();
 	}
 
+	if (overflow)
+		return out_of_range(output);
+
 	out->int_val = result;
+	return MIDORIDB_OK;
 }
 
 static int resolve_math_expr(struct ast_node **node, struct query_output *output)
@@ -139,12 +166,15 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
-		negate(val_2, val_1);
-	} else if (val_1->value_type.is_intnum) {
-		calci(op, val_1, val_2, val_1);
-	} else if (val_1->value_type.is_approxnum) {
+		if ((ret = negate(val_2, val_1, output)))
+			return ret;
+	} else if (val_1->value_type.is_intnum || val_2->value_type.is_intnum) {
+		if ((ret = calci(op, val_1, val_2, val_1, output)))
+			return ret;
+	} else if (val_1->value_type.is_approxnum || val_2->value_type.is_approxnum) {
 		calcd(op, val_1, val_2, val_1);
-	} else {
+	} else if (!val_1->value_type.is_null || !val_2->value_type.is_null) {
+		/* either term (or even both) may have _become_ NULL, but they can't be anything else */
 		BUG_GENERIC();
 	}
 
-- 
2.43.0


From 8124747828a8f43d05e6a615f63970bc22cd5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 10/47] fix: NOT NULL columns accepted math expressions that
 evaluate to NULL

---
 src/engine/executor_insert.c | 42 ++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..0a76198 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -191,6 +191,44 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/*
+ * explicit NULLs have been ruled out in the semantic phase already, yet values can become NULL once math expressions
+ * are resolved. (e.g. division by 0)
+ */
+static int check_not_null_columns(struct table *table, struct ast_ins_insvals_node *ins_node, int *column_order,
+		struct query_output *output)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *entry;
+	struct ast_ins_exprval_node *exprval_node;
+	struct column *column;
+	int val_pos;
+
+	list_for_each(pos1, ins_node->node_children_head)
+	{
+		entry = list_entry(pos1, typeof(*entry), head);
+
+		if (entry->node_type != AST_TYPE_INS_VALUES)
+			continue;
+
+		val_pos = 0;
+		list_for_each(pos2, entry->node_children_head)
+		{
+			exprval_node = list_entry(pos2, typeof(*exprval_node), head);
+			column = &table->columns[column_order[val_pos++]];
+
+			if (exprval_node->value_type.is_null && !column->nullable) {
+				snprintf(output->error.message, sizeof(output->error.message) - 1,
+						"NOT NULL constraint failed: %s.%s\n",
+						table->name, column->name);
+				return -MIDORIDB_ERROR;
+			}
+		}
+	}
+
+	return MIDORIDB_OK;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -213,6 +251,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	/* either all rows are inserted or none is */
+	if ((rc = check_not_null_columns(table, ins_node, column_order, output)))
+		goto err;
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
-- 
2.43.0


From 0389cc8caa1e46473927bbf19a3f4860a9dca814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 11/47] fix: DELETE/UPDATE naming an unknown column failed
 without an error message

---
 src/parser/semantic_delete.c |  5 +++--
 src/parser/semantic_update.c | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..87ee1d2 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -64,8 +64,9 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 	if (node->node_type == AST_TYPE_DEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
-		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+		if (val_node->value_type.is_name && !column_exists(db, root, val_node)) {
+			snprintf(out_err, out_err_len, "column name '%s' doesn't exist\n", val_node->name_val);
+			return false;
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..a558e92 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -64,13 +64,17 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 	if (node->node_type == AST_TYPE_UPD_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
-		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+		if (val_node->value_type.is_name && !column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+			snprintf(out_err, out_err_len, "column name '%s' doesn't exist\n", val_node->name_val);
+			return false;
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "column name '%s' doesn't exist\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
-- 
2.43.0


From f1d50167413091e3ca94d9540710759de75819d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 12/47] fix: DELETE/UPDATE conditions that can't be evaluated
 have to be rejected

---
 src/parser/semantic_delete.c | 49 +++++++++++++++++++++++++++++++++
 src/parser/semantic_update.c | 53 ++++++++++++++++++++++++++++++++++++
 2 files changed, 102 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 87ee1d2..487b36c 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -85,6 +85,45 @@ static bool check_column_exists(struct database *db, struct ast_del_deleteone_no
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+/* can this node be evaluated to either true or false? */
+static bool is_condition(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_DEL_CMP
+			|| node->node_type == AST_TYPE_DEL_LOGOP
+			|| node->node_type == AST_TYPE_DEL_EXPRISXIN
+			|| node->node_type == AST_TYPE_DEL_EXPRISXNULL;
+}
+
+/*
+ * Syntax-wise, any expression can be an operand of any operator. The executor can only make sense of
+ * comparisons between fields and raw values, which in turn can be combined using AND | OR | XOR.
+ */
+static bool check_where_clause(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (root->node_type == AST_TYPE_DEL_DELETEONE || root->node_type == AST_TYPE_DEL_LOGOP) {
+			if (!is_condition(tmp_entry)) {
+				snprintf(out_err, out_err_len, "fields and raw values can't be used as conditions\n");
+				return false;
+			}
+		} else if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL) {
+			snprintf(out_err, out_err_len, "only fields and raw values can be used as operands\n");
+			return false;
+		}
+
+		if (!check_where_clause(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -108,6 +147,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 			}
 
 			val_node = (typeof(val_node))tmp_entry;
+			/* the left-hand side is always the first one in the linked-list */
+			if (pos == root->node_children_head->next && !val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "the left-hand side of an IN-clause has to be a field\n");
+				return false;
+			}
+
 			if (val_node->value_type.is_name) {
 				field_count++;
 			}
@@ -491,6 +536,10 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, deleteone_node, out_err, out_err_len))
 		return false;
 
+	/* is the WHERE-clause something that can be evaluated? */
+	if (!check_where_clause((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)deleteone_node, out_err, out_err_len))
 		return false;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index a558e92..295f86e 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -92,6 +92,49 @@ static bool check_column_exists(struct database *db, struct ast_upd_update_node
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+/* can this node be evaluated to either true or false? */
+static bool is_condition(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_UPD_CMP
+			|| node->node_type == AST_TYPE_UPD_LOGOP
+			|| node->node_type == AST_TYPE_UPD_EXPRISXIN
+			|| node->node_type == AST_TYPE_UPD_EXPRISXNULL;
+}
+
+/*
+ * Syntax-wise, any expression can be an operand of any operator. The executor can only make sense of
+ * comparisons between fields and raw values, which in turn can be combined using AND | OR | XOR.
+ */
+static bool check_where_clause(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		/* ASSIGN nodes aren't part of the WHERE-clause */
+		if (tmp_entry->node_type == AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		if (root->node_type == AST_TYPE_UPD_UPDATE || root->node_type == AST_TYPE_UPD_LOGOP) {
+			if (!is_condition(tmp_entry)) {
+				snprintf(out_err, out_err_len, "fields and raw values can't be used as conditions\n");
+				return false;
+			}
+		} else if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL) {
+			snprintf(out_err, out_err_len, "only fields and raw values can be used as operands\n");
+			return false;
+		}
+
+		if (!check_where_clause(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -115,6 +158,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 			}
 
 			val_node = (typeof(val_node))tmp_entry;
+			/* the left-hand side is always the first one in the linked-list */
+			if (pos == root->node_children_head->next && !val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "the left-hand side of an IN-clause has to be a field\n");
+				return false;
+			}
+
 			if (val_node->value_type.is_name) {
 				field_count++;
 			}
@@ -530,6 +579,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* is the WHERE-clause something that can be evaluated? */
+	if (!check_where_clause((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From 67ffd9e7acd1950ca164bf93d2a89aa009113ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 13/47] fix: UPDATE has to enforce column constraints on the
 values being assigned

---
 src/parser/semantic_update.c | 54 ++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 295f86e..91208d4 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -506,6 +506,56 @@ static bool check_values_for_assign(struct ast_upd_assign_node *assign_node, str
 	return true;
 }
 
+/* only raw values can be assigned to fields - and only if they abide by the constraints of the column */
+static bool check_assign_entries(struct database *db, struct ast_upd_update_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_upd_assign_node *assign_node;
+	struct ast_upd_exprval_node *val_node;
+	struct table *table;
+	size_t len;
+
+	table = database_table_get(db, root->table_name);
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		assign_node = (typeof(assign_node))tmp_entry;
+		val_node = list_entry(assign_node->node_children_head->next, typeof(*val_node), head);
+
+		if (val_node->node_type != AST_TYPE_UPD_EXPRVAL || val_node->value_type.is_name) {
+			snprintf(out_err, out_err_len, "only raw values can be assigned to '%s'\n", assign_node->field_name);
+			return false;
+		}
+
+		for (int i = 0; i < table->column_count; i++) {
+			struct column *column = &table->columns[i];
+
+			if (strcmp(column->name, assign_node->field_name) != 0)
+				continue;
+
+			if (val_node->value_type.is_null && !column->nullable) {
+				snprintf(out_err, out_err_len, "column: '%s' can't be NULL\n", column->name);
+				return false;
+			}
+
+			len = strlen(val_node->str_val) + 1 /* NUL */;
+			if (val_node->value_type.is_str && column->type == CT_VARCHAR && len > (size_t)column->precision) {
+				snprintf(out_err, out_err_len,
+						"column: '%s' supports up to %d ASCII chars, val has %lu chars\n",
+						column->name, column->precision, len);
+				return false;
+			}
+		}
+	}
+
+	return true;
+}
+
 static bool __check_value_types(struct ast_node *root, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 
@@ -599,5 +649,9 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!(check_value_types(db, update_node, out_err, out_err_len)))
 		return false;
 
+	/* can the fields hold the values that are being assigned to them? */
+	if (!check_assign_entries(db, update_node, out_err, out_err_len))
+		return false;
+
 	return true;
 }
-- 
2.43.0


From 2b09f2d777e897b020d49a2846ecd72132e51059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 14/47] fix: SELECT's IN required the field to be equal to
 every listed value

---
 src/engine/executor_select.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 8460e3b..283704a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -972,7 +972,8 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false;
+	bool eval;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1011,17 +1012,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
 			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				eval = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				eval = cmp_field_to_value(table, row, &cmp_node, value,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			}
+
+			/* IN: one value has to match. NOT IN: every value has to differ */
+			if (eval != node->is_negation)
+				return !node->is_negation; // fail-fast
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
-- 
2.43.0


From 08aba2737924d0cd825a910fbe8960f52265eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 15/47] fix: GROUP BY merged values whose difference is
 truncated to 0

---
 src/engine/executor_select.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 283704a..fe46adc 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1484,13 +1484,25 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset];
+		double val_2 = *(double*)&row_2->data[col_spcs.offset];
+
+		/* the difference between both values doesn't necessarily fit into an int */
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset];
+		int64_t val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+
+		/* the difference between both values doesn't necessarily fit into an int */
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset];
+		time_t val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+
+		/* the difference between both values doesn't necessarily fit into an int */
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
-- 
2.43.0


From 012ccc5878d03d59a64b0e956d2b65716fadb43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 16/47] fix: GROUP BY with several fields, rows spread over
 datablocks and COUNT-only queries

---
 src/engine/executor_select.c | 148 +++++++++++++----------------------
 1 file changed, 53 insertions(+), 95 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index fe46adc..c014308 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1538,10 +1538,26 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+static bool is_same_group(struct ast_node *node, struct table *table, struct row *row_1, struct row *row_2)
 {
-	struct list_head *grppos, *pos1, *pos2;
+	struct list_head *pos;
 	struct ast_node *tmp_entry;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
+	}
+
+	return true;
+}
+
+/* collapse rows of the same group into the first one. If there is no group-by clause then all rows are collapsed */
+static int collapse_rows(struct ast_node *groupby_node, struct table *table)
+{
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
@@ -1549,49 +1565,41 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+			/* compare it against the remaining rows of this datablock and all rows of the next ones */
+			for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
+				for (size_t j = (pos2 == pos1 ? i + 1 : 0); j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+					if (groupby_node && !is_same_group(groupby_node, table, row_1, row_2))
+						continue;
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
-						}
+					if (!table_delete_row(table, blk_2, row_size * j)) {
+						ret = -MIDORIDB_INTERNAL;
+						goto out;
 					}
+
+					/* increment counts if any */
+					if ((ret = inc_count_cols(table, blk_1, row_size * i, row_1, row_size)))
+						goto out;
 				}
 			}
 		}
@@ -1599,72 +1607,22 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 
 out:
 	return ret;
+}
 
+static int proc_groupby_clause(struct ast_node *node, struct table *table)
+{
+	return collapse_rows(node, table);
 }
 
 static int handle_countonly_case(struct table *table)
 {
-	struct list_head *pos1, *pos2;
-	struct datablock *blk_1, *blk_2;
-	struct row *row_1, *row_2;
-	size_t row_size;
-	int ret = MIDORIDB_OK;
-
 	/* check if we need to do that in the first plae */
-	bool non_count_field = false;
 	for (int i = 0; i < table->column_count; i++) {
-		if (!table->columns[i].is_count) {
-			non_count_field = true;
-			break;
-		}
+		if (!table->columns[i].is_count)
+			return MIDORIDB_OK;
 	}
 
-	if (!non_count_field) {
-		row_size = table_calc_row_size(table);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
-
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
-
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
-
-						if (row_2->flags.empty)
-							break; /* end of the line */
-
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
-
-						if (!table_delete_row(table, blk_2, row_size * j)) {
-							ret = -MIDORIDB_INTERNAL;
-							goto out;
-						}
-
-						/* increment counts if any */
-						if ((ret = inc_count_cols(table, blk_1, row_size * i,
-										row_1,
-										row_size)))
-							goto out;
-					}
-				}
-			}
-		}
-	}
-
-out:
-	return ret;
-
+	return collapse_rows(NULL, table);
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
@@ -1728,8 +1686,8 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
-	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	/* handle COUNT(*)-only field edge-case - if there is a group-by clause then rows were already collapsed */
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From da7d187f90de97f72a7b2c57a7c1afa294604684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 17/47] fix: COUNT over an empty set has to yield a row
 containing 0

---
 src/engine/executor_select.c | 45 +++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index c014308..81007bc 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1614,15 +1614,58 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 	return collapse_rows(node, table);
 }
 
+static bool has_rows(struct table *table)
+{
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
+	size_t row_size;
+
+	row_size = table_calc_row_size(table);
+
+	list_for_each(pos, table->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			if (!row->flags.deleted)
+				return true;
+		}
+	}
+
+	return false;
+}
+
 static int handle_countonly_case(struct table *table)
 {
+	struct row *row;
+	size_t row_size;
+	int ret = MIDORIDB_OK;
+
 	/* check if we need to do that in the first plae */
 	for (int i = 0; i < table->column_count; i++) {
 		if (!table->columns[i].is_count)
 			return MIDORIDB_OK;
 	}
 
-	return collapse_rows(NULL, table);
+	if (has_rows(table))
+		return collapse_rows(NULL, table);
+
+	/* there is nothing to be counted, but that's still a valid answer: 0 */
+	row_size = table_calc_row_size(table);
+	row = zalloc(row_size);
+	if (!row)
+		return -MIDORIDB_INTERNAL;
+
+	if (!table_insert_row(table, row, row_size))
+		ret = -MIDORIDB_INTERNAL;
+
+	free(row);
+	return ret;
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
-- 
2.43.0


From cf50faff35d8c75cd581ff9309105711fcc3a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 18/47] fix: removing a column has to remove it from the null
 bitmap of the rows too

---
 src/primitive/column.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..f38c607 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -192,6 +192,15 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				&row->data[data_offset + col_prec],
 				row_data_size - (data_offset + col_prec));
 
+			/* remove column from the null bitmap */
+			for (int j = col_idx; j < table->column_count; j++) {
+				if (j + 1 < table->column_count &&
+						bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+
 			/* make rows sit right next to each other now that row has a smaller size */
 			memmove(&entry->data[blk_offset], row, row_new_size);
 			blk_offset += row_new_size;
-- 
2.43.0


From 9e84529d245b8221bd206af576c8b47fff8fc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 19/47] fix: joining 3+ tables dropped or overwrote matching
 rows

---
 src/engine/executor_select.c | 72 +++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 81007bc..b646f1a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1155,68 +1155,76 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *table_node_1,
 		struct table *mattbl)
 {
-	struct table *table_1, *table_2;
-	struct list_head *tbl1_pos, *tbl2_pos;
-	struct datablock *tbl1_blk, *tbl2_blk;
-	size_t tbl1_row_size, tbl2_row_size, new_row_size;
-	struct row *tbl1_row, *tbl2_row, *new_row;
+	struct table *table_1;
+	struct list_head *tbl1_pos, *mat_pos;
+	struct datablock *tbl1_blk, *mat_blk, *last_blk;
+	size_t tbl1_row_size, mat_row_size, last_offset;
+	struct row *tbl1_row, *mat_row, *new_row;
 
 	table_1 = database_table_get(db, table_node_1->table_name);
-	table_2 = mattbl;
 
 	tbl1_row_size = table_calc_row_size(table_1);
-	tbl2_row_size = table_calc_row_size(table_2);
-	new_row_size = table_calc_row_size(mattbl);
+	mat_row_size = table_calc_row_size(mattbl);
 
 	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
 	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
 
-	list_for_each(tbl1_pos, table_1->datablock_head)
+	/* nothing was materialised by the joins processed so far, so there is nothing to be joined */
+	if (list_is_empty(mattbl->datablock_head))
+		return MIDORIDB_OK;
+
+	/*
+	 * A materialised row can match any number of rows (including none of them), so what has been materialised
+	 * so far gets replaced with the merged rows - which are added past the rows that exist at this stage.
+	 */
+	last_blk = list_entry(mattbl->datablock_head->prev, typeof(*last_blk), head);
+	last_offset = mattbl->free_dtbkl_offset;
+
+	list_for_each(mat_pos, mattbl->datablock_head)
 	{
-		tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
-		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
-			tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
+		mat_blk = list_entry(mat_pos, typeof(*mat_blk), head);
+
+		for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / mat_row_size); j++) {
+			mat_row = (struct row*)&mat_blk->data[mat_row_size * j];
 
-			if (tbl1_row->flags.empty)
+			if (mat_row->flags.empty || (mat_blk == last_blk && mat_row_size * j >= last_offset))
 				break; /* end of the line */
 
-			if (tbl1_row->flags.deleted)
+			if (mat_row->flags.deleted)
 				continue; /* nothing to do here */
 
-			list_for_each(tbl2_pos, table_2->datablock_head)
+			list_for_each(tbl1_pos, table_1->datablock_head)
 			{
-				tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
+				tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
 
-				for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
-					tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
+				for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
+					tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
 
-					if (tbl2_row->flags.empty)
+					if (tbl1_row->flags.empty)
 						break; /* end of the line */
 
-					if (tbl2_row->flags.deleted)
+					if (tbl1_row->flags.deleted)
 						continue; /* nothing to do here */
 
 					//TODO figure out how I will populate aliases into the new row
 					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
 
 					/* copy columns of both rows to materialised row */
-					if (merge_rows(table_1, mattbl, tbl1_row, tbl2_row, mattbl, &new_row))
+					if (merge_rows(table_1, mattbl, tbl1_row, mat_row, mattbl, &new_row))
 						goto err;
 
+					/*
+					 * when using materialisation tables,
+					 * if it doesn't match ON-clause then it needs to be discarded
+					 * TODO: this should change once we implement other JOIN types
+					 */
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
-						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
-									new_row_size))
+						if (!table_insert_row(mattbl, new_row, mat_row_size))
 							goto err;
 
 //						print_row(mattbl, new_row);
 
-					} else {
-						/* when using materialisation tables,
-						 * if it doesn't match ON-clause then it needs to be discarded
-						 * TODO: this should change once we implement other JOIN types
-						 */
-						table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
 					}
 
 					/* free up used resources */
@@ -1224,7 +1232,13 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 					free(new_row);
 				}
 			}
+
+			if (!table_delete_row(mattbl, mat_blk, mat_row_size * j))
+				goto err;
 		}
+
+		if (mat_blk == last_blk)
+			break;
 	}
 
 	return MIDORIDB_OK;
-- 
2.43.0


From 58b5f1f3446455322a3970ecea4a54cf65b83d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 20/47] fix: joining 3+ tables lost (and leaked) VARCHAR values

---
 src/engine/executor_select.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index b646f1a..39c628e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -366,19 +366,20 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 		}
 
 		if (table_check_var_column(column)) {
-			void *ptr = zalloc(column->precision);
+			char **dst_ptr = (char**)&dst_row->data[dst_offset];
 
-			if (!ptr)
+			/*
+			 * when merging rows, dst_row may hold the content of this column already - as the
+			 * early-mat row has all columns, including those of tables that weren't joined yet.
+			 */
+			if (!(*dst_ptr) && !(*dst_ptr = zalloc(column->precision)))
 				return false;
 
 			/* Copy data only if column is not NULL */
 			if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
-				memcpy(ptr, *((char**)((char*)src_row->data + src_offset)), column->precision);
+				memcpy(*dst_ptr, *((char**)((char*)src_row->data + src_offset)), column->precision);
 			}
 
-			uintptr_t *col_idx_ptr = (uintptr_t*)&dst_row->data[dst_offset];
-			*col_idx_ptr = (uintptr_t)ptr;
-
 		} else {
 
 			if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
-- 
2.43.0


From 1402e655691060c3848558c656707c5c74ad7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 21/47] fix: SELECT statements that the executor can't process
 aborted the process

---
 src/engine/executor_select.c | 84 +++++++++++++++++++++++++++++++++++-
 1 file changed, 83 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 39c628e..7f7e9ba 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1272,6 +1272,10 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 		}
 	}
 
+	// TODO add other join types.. for now only INNER JOIN is supported
+	if (join_node->join_type != AST_SEL_JOIN_INNER || !onexpr_node || !left_node || !right_node)
+		return -MIDORIDB_INTERNAL;
+
 	if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_TABLE) {
 		return _join_nested_loop_tbl2tbl(db, join_node, onexpr_node,
 							(struct ast_sel_table_node*)left_node,
@@ -1291,7 +1295,8 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 							(struct ast_sel_table_node*)left_node,
 							earmattbl);
 	} else {
-		BUG_GENERIC();
+		/* both sides are joins - there is a single early-mat table so they can't be processed separately */
+		return -MIDORIDB_INTERNAL;
 	}
 
 	return MIDORIDB_OK;
@@ -1683,6 +1688,76 @@ static int handle_countonly_case(struct table *table)
 	return ret;
 }
 
+/* can eval_row_cond evaluate these conditions? */
+static bool is_cond_supported(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool is_raw_value;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_SEL_WHERE || node->node_type == AST_TYPE_SEL_ONEXPR
+				|| node->node_type == AST_TYPE_SEL_LOGOP) {
+			if (tmp_entry->node_type != AST_TYPE_SEL_CMP
+					&& tmp_entry->node_type != AST_TYPE_SEL_LOGOP
+					&& tmp_entry->node_type != AST_TYPE_SEL_EXPRISXIN
+					&& tmp_entry->node_type != AST_TYPE_SEL_EXPRISXNULL)
+				return false;
+
+			if (!is_cond_supported(tmp_entry))
+				return false;
+		} else {
+			is_raw_value = tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL
+					&& !((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name;
+
+			if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME && !is_raw_value)
+				return false;
+
+			/* the left-hand side of IN | IS NULL is always the first one in the linked-list */
+			if (node->node_type != AST_TYPE_SEL_CMP
+					&& is_raw_value != (pos != node->node_children_head->next))
+				return false;
+		}
+	}
+
+	return true;
+}
+
+/* semantic phase is more permissive than what has been implemented thus far */
+static bool is_stmt_supported(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	if (node->node_type == AST_TYPE_SEL_WHERE || node->node_type == AST_TYPE_SEL_ONEXPR)
+		return is_cond_supported(node);
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_SEL_SELECT) {
+			/* fields that have to be computed */
+			if (tmp_entry->node_type == AST_TYPE_SEL_EXPROP
+					|| tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL
+					|| tmp_entry->node_type == AST_TYPE_SEL_CMP
+					|| tmp_entry->node_type == AST_TYPE_SEL_LOGOP
+					|| tmp_entry->node_type == AST_TYPE_SEL_LIKE
+					|| tmp_entry->node_type == AST_TYPE_SEL_EXPRISXIN
+					|| tmp_entry->node_type == AST_TYPE_SEL_EXPRISXNULL)
+				return false;
+		}
+
+		if (!is_stmt_supported(tmp_entry))
+			return false;
+	}
+
+	return true;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
@@ -1696,6 +1771,13 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err;
 	}
 
+	if (!is_stmt_supported((struct ast_node*)select_node)) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"execution phase: expression not supported\n");
+		ret = -MIDORIDB_ERROR;
+		goto err_bld_ht;
+	}
+
 	/* build columns hashtable */
 	if ((ret = build_cols_hashtable(db, (struct ast_node*)select_node, &cols_ht))) {
 		snprintf(output->error.message, sizeof(output->error.message),
-- 
2.43.0


From 98142333c0f1186228085c0ab582b98c51d3948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 22/47] fix: IN and IS NULL conditions of SELECT that aborted
 the process

---
 src/parser/semantic_select.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..e034693 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2063,6 +2063,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				return false;
 			}
 
+			/* the left-hand side is always the first one in the linked-list */
+			if (pos == root->node_children_head->next && field_count == 0) {
+				snprintf(out_err, out_err_len, "the left-hand side of an IN-clause has to be a field\n");
+				return false;
+			}
+
 			/*
 			 * ast_sel_isxin_node holds the field which is part of the expression in the
 			 * linked-list. So it's expected to have 1 field but no more than that.
@@ -2108,8 +2114,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len,
+						"only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
@@ -2341,7 +2348,7 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) {
 				/* maybe new column type? */
 				BUG_GENERIC();
 			}
-- 
2.43.0


From a20094b841227738ae569127a974087ab7603e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 23/47] fix: type checking of SELECT's conditions (dates, IS
 NULL, mismatches on both sides)

---
 src/parser/semantic_select.c | 61 ++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index e034693..8a7bcb0 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2139,6 +2139,15 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* is this a comparison between a DATE | DATETIME field and a raw string? */
+static bool is_date_cmp(struct sem_check_val_types field, struct ast_node *value)
+{
+	if (field.type != CT_DATE && field.type != CT_DATETIME)
+		return false;
+
+	return value->node_type == AST_TYPE_SEL_EXPRVAL && ((struct ast_sel_exprval_node*)value)->value_type.is_str;
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2147,6 +2156,9 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_node = NULL, *right_node = NULL;
+	struct ast_sel_exprval_node *val_node;
+	enum COLUMN_TYPE type;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2157,13 +2169,21 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
 	}
 
+	/* operands have been found to be invalid */
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	// NULL has a special set of rules
 	if (left.null || right.null) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
@@ -2175,15 +2195,39 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	// strings can be interpreted/parsed for other types such as DATE and DATETIME
+	if (is_date_cmp(left, right_node) || is_date_cmp(right, left_node)) {
+		if (is_date_cmp(left, right_node)) {
+			type = left.type;
+			val_node = (typeof(val_node))right_node;
+		} else {
+			type = right.type;
+			val_node = (typeof(val_node))left_node;
+		}
+
+		if (!try_parse_date_type(val_node->str_val, type)) {
+			snprintf(out_err, out_err_len,
+					/* max str size would exceed buffer's size, so trim it */
+					"val: '%.256s' can't be parsed for DATE | DATETIME column\n",
+					val_node->str_val);
+			ret.invalid = true;
+		} else {
+			ret.type = CT_TINYINT;
+		}
+		return ret;
+	}
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
 			snprintf(out_err, out_err_len, "VARCHAR values can only use '=' or '<>' ops\n");
 			ret.invalid = true;
+			return ret;
 		}
 	}
 
 	if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "both sides of an operator must have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2217,7 +2261,14 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
+	/* operands have been found to be invalid */
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "both sides of an operator must have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2250,7 +2301,14 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
+	/* operands have been found to be invalid */
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "both sides of an operator must have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
@@ -2410,6 +2468,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL || node->node_type == AST_TYPE_SEL_LIKE) {
+		ret.type = CT_TINYINT; // both evaluate to a Boolean value
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From 820391ab59bb627f6d230776d148d96d49d6035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 24/47] fix: SELECT using the name of a table that was given an
 alias aborted the process

---
 src/parser/semantic_select.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 8a7bcb0..c9cf7f3 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2318,16 +2318,20 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 
 static struct sem_check_val_types check_value_types_fieldname(struct ast_sel_fieldname_node *field_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
-	UNUSED(out_err);
-	UNUSED(out_err_len);
-
 	struct sem_check_val_types ret = {0};
 	struct hashtable_value *ht_value;
 	char key[FQFIELD_NAME_LEN] = {0};
 
 	snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, field_node->col_name);
 	ht_value = hashtable_get(ht, key, strlen(key) + 1);
-	BUG_ON(!ht_value); // sanity check
+	if (!ht_value) {
+		/* table exists but it was given an alias, which is how it's meant to be referred to */
+		snprintf(out_err, out_err_len, "no such column: '%.128s.%.128s'\n", field_node->table_name,
+				field_node->col_name);
+		ret.invalid = true;
+		return ret;
+	}
+
 	ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	return ret;
@@ -2363,7 +2367,10 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 				ht_value = hashtable_get(ht, key, strlen(key) + 1);
 			}
 
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column in IN-clause\n");
+				goto err;
+			}
 			expected_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
 			// sanity check
@@ -2469,6 +2476,14 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL || node->node_type == AST_TYPE_SEL_LIKE) {
+		list_for_each(pos, node->node_children_head)
+		{
+			ret = __check_value_types(list_entry(pos, typeof(*tmp_entry), head), ht, out_err, out_err_len);
+			if (ret.invalid)
+				return ret;
+		}
+
+		memzero(&ret, sizeof(ret));
 		ret.type = CT_TINYINT; // both evaluate to a Boolean value
 		return ret;
 	}
@@ -2612,9 +2627,9 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 				field_node->col_name);
 
 		ht_value = hashtable_get(ht, lookup_key, strlen(lookup_key) + 1);
-		BUG_ON(!ht_value);
-
-		col_type = *(enum COLUMN_TYPE*)ht_value->content;
+		/* table exists but it was given an alias. If so, that's going to be caught by check_value_types_fieldname */
+		if (ht_value)
+			col_type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	} else {
 		/* is there an edge case that I haven't foreseen */
-- 
2.43.0


From 8b09bf85fe84ef9506ac313e7ee21c198d3bae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 25/47] fix: SELECT with fields that aren't in the GROUP BY
 clause failed without an error message

---
 src/parser/semantic_select.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index c9cf7f3..050aac3 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1589,7 +1589,12 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 	}
 	else if (root->node_type == AST_TYPE_SEL_EXPRVAL
 			|| root->node_type == AST_TYPE_SEL_FIELDNAME) {
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "SELECT list contains fields that aren't in the GROUP BY clause\n");
+			return false;
+		}
+
+		return true;
 	}
 	else if (root->node_type == AST_TYPE_SEL_ALIAS) {
 		alias_node = (typeof(alias_node))root;
@@ -1607,7 +1612,12 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 				return true;
 		}
 
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "SELECT list contains fields that aren't in the GROUP BY clause\n");
+			return false;
+		}
+
+		return true;
 	}
 	/* recursion */
 	else {
@@ -1710,8 +1720,10 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len, "SELECT list contains fields that aren't in the GROUP BY clause\n");
 			return false;
+		}
 
 	}
 
-- 
2.43.0


From 604d56550d9a91da859b3aa0a7a8624029cd883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 26/47] fix: tables that share a column name couldn't be
 queried together

---
 src/parser/semantic_select.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 050aac3..d9e7af3 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2563,12 +2563,16 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 
 			}
 
-			/* add exprval (name) in its purest form */
+			/*
+			 * add exprval (name) in its purest form. If tables in the FROM-clause share column names then
+			 * that's okay as long as fqfields are used - check_column_names takes care of ambiguous names.
+			 */
 			memzero(key, sizeof(key));
 			strcpy(key, col_name);
 
-			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
-				snprintf(out_err, out_err_len, "duplicate column name: '%s'\n", key);
+			if (!hashtable_get(ht, key, strlen(key) + 1)
+					&& !hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
+				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
 				return false;
 			}
 
-- 
2.43.0


From 297f806e20270f685272da925e83d88ebc5821f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 27/47] fix: CREATE TABLE with a VARCHAR length that doesn't
 fit 4 digits aborted or got the wrong type

Also release what was allocated when the table can't be added.
---
 src/engine/executor_create.c |  6 +++---
 src/parser/ast_create.c      | 11 +++++++----
 src/parser/midorisql.y       |  6 +++++-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..db465f0 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -96,7 +96,8 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		}
 	}
 
-	rc = database_table_add(db, table);
+	if ((rc = database_table_add(db, table)))
+		goto err_add_col;
 
 early_ret:
 	output->n_rows_aff = 0;
@@ -105,8 +106,7 @@ early_ret:
 	return rc;
 
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
 err:
diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..3fffe25 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -14,7 +14,11 @@ static void parse_bison_data_type(char *str, struct ast_crt_column_def_node *nod
 {
 	int val = atoi(str);
 	int type = val / 10000;
-	int precision = val % 10000;
+	int precision = val - 130000;
+
+	/* VARCHAR is the last one, so anything from there onwards is its length */
+	if (type > 13)
+		type = 13;
 
 	switch (type) {
 	case 4:
@@ -108,8 +112,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
@@ -347,7 +350,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..8322f77 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -479,7 +479,11 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' { if ($3 < 1 || $3 > 65535) {
+				yyerror(result, scanner, "VARCHAR length must be between 1 and 65535");
+				YYERROR;
+			      }
+			      $$ = 130000 + $3; }
    ;
 
 
-- 
2.43.0


From d722b001d39f98d9d6ac2add2782dd007650c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 28/47] fix: literals that lost precision and lexical errors
 that were ignored, looped or aborted

- integers are 64-bit, floats are kept as they are, strings can be empty or double quoted
- invalid characters/unterminated strings and comments are syntax errors
- statements that the AST builder doesn't support return an error instead of exiting
- freed NAME tokens are not freed again when the table alias is invalid
- the message returned is the syntax error itself rather than the first token
---
 src/engine/query.c      |   2 +-
 src/parser/ast_delete.c |   8 +--
 src/parser/ast_insert.c |   8 +--
 src/parser/ast_select.c |   8 +--
 src/parser/ast_update.c |   8 +--
 src/parser/midorisql.l  |  27 +++++---
 src/parser/midorisql.y  | 134 ++++++++++++++++++++++++++++------------
 7 files changed, 129 insertions(+), 66 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 1986bc3..5bc1bd0 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -53,7 +53,7 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
 		/* copy error from the tail of the queue */
-		char *err_msg = (char*)queue_peek(&queue);
+		char *err_msg = (char*)queue_peek_pos(&queue, queue_length(&queue) - 1);
 		size_t err_msg_len = sizeof(output->error.message) - 1;
 		strncpy(output->error.message, err_msg, err_msg_len);
 
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..6c4d570 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,10 +138,10 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+]{0,1}[0-9]+){0,1}|-{0,1}inf)";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..5d9a3f5 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,10 +134,10 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+]{0,1}[0-9]+){0,1}|-{0,1}inf)";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..fcc02fa 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,10 +41,10 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+]{0,1}[0-9]+){0,1}|-{0,1}inf)";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..7771d3e 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,10 +189,10 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+]{0,1}[0-9]+){0,1}|-{0,1}inf)";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..8052bfd 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,9 +1,12 @@
 %option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
+%option stack noyy_top_state
 
 %{
 #include "midorisql.tab.h"
+#include <errno.h>
+#include <stdlib.h>
+
 void yyerror(void*, void*, char *s, ...);
-int oldstate;
 
 #define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
 %}
@@ -82,7 +85,13 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { errno = 0;
+			  yylval->numval = strtoll(yytext, NULL, 10);
+			  if (errno == ERANGE) {
+				yyerror(NULL, yyscanner, "number out of range %s", yytext);
+				return YYUNDEF;
+			  }
+			  return INTNUM; } 
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
@@ -100,8 +109,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -147,20 +156,20 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
 #.*		;
 "--"[ \t].*	;
 
-"/*"            { oldstate = YY_START; BEGIN COMMENT; }
-<COMMENT>"*/"   { BEGIN oldstate; }
+"/*"            { yy_push_state(COMMENT, yyscanner); }
+<COMMENT>"*/"   { yy_pop_state(yyscanner); }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); BEGIN INITIAL; return YYUNDEF; }
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 8322f77..0c67887 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -6,9 +6,13 @@
 
 %{
 #include <datastructure/queue.h>
+#include <inttypes.h>
+#include <stdarg.h>
+#include <stdlib.h>
 
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
+bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
 %}
 
@@ -31,6 +35,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t numval;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +45,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <numval> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -200,7 +205,11 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) yyerror(result, scanner, "duplicate DISTINCT option"); $$ = $1 | 02; }
+   | select_opts DISTINCT            { if ($1 & 02) {
+				yyerror(result, scanner, "duplicate DISTINCT option");
+				YYERROR;
+			  }
+			  $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -218,9 +227,12 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: table_name opt_as_alias
 	    ;
 
+table_name: NAME { emit(result, "TABLE %s", $1); free($1); }
+	  ;
+
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
   | NAME              { emit (result, "ALIAS %s", $1); free($1); }
   | /* nil */
@@ -250,8 +262,8 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -317,8 +329,8 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -374,8 +386,8 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -401,10 +413,18 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) {
+		yyerror(result, scanner, "bad insert assignment to %s", $1);
+		free($1);
+		YYERROR;
+	 }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) {
+		yyerror(result, scanner, "bad insert assignment to %s", $3);
+		free($3);
+		YYERROR;
+	 }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -413,8 +433,8 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -441,7 +461,10 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
+   | IF EXISTS           { if (!$2) {
+				yyerror(result, scanner, "IF EXISTS doesn't exist");
+				YYERROR;
+			  }
                         $$ = $2; /* NOT EXISTS hack */ }
    ;
 
@@ -489,44 +512,75 @@ data_type:
 
 %%
 
+/* formats the string regardless of how long it ends up being. It's the caller's responsibility to free it */
+static char* format_str(const char *s, va_list ap)
+{
+	va_list cpy;
+	char *buf;
+	int len;
+
+	va_copy(cpy, ap);
+	len = vsnprintf(NULL, 0, s, cpy);
+	va_end(cpy);
+
+	if (len < 0 || !(buf = malloc((size_t)len + 1)))
+		return NULL;
+
+	vsnprintf(buf, (size_t)len + 1, s, ap);
+	return buf;
+}
+
 void yyerror(struct queue *q, void* scanner, const char *s, ...)
 {
 	(void)scanner;
-	char buf[256];
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+	char *buf;
+
 	va_start(ap, s);
-	
-	/* if the error happened at the lexical phase then 
-	we print it to stderr as there is no queue ref yet */
-	if(!q){
-		vfprintf(stderr, s, ap);  
-		fprintf(stderr, "\n");
-	}else {
-		sprintf(buf, s, ap);
-	
-		/* although unlikely, if we fail to push content to the queue
-		   so other program can read the error message, then we fail 
-		   over to the stderr */
-		if(!queue_offer(q, buf, strlen(buf) + 1)){
-			vfprintf(stderr, s, ap);  
-			fprintf(stderr, "\n");
-		}
-	}
-	
+	buf = format_str(s, ap);
 	va_end(ap);
+
+	/* if the error happened at the lexical phase then
+	   we print it to stderr as there is no queue ref yet.
+
+	   although unlikely, if we fail to push content to the queue
+	   so other program can read the error message, then we fail
+	   over to the stderr too */
+	if (!q || !buf || !queue_offer(q, buf, strlen(buf) + 1))
+		fprintf(stderr, "%s\n", buf ? buf : s);
+
+	free(buf);
 }
 
 bool emit(struct queue *q, char *s, ...)
 {
-	char buf[256];
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+	char *buf;
+	bool ret;
+
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	buf = format_str(s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (!buf)
+		return false;
+
+	ret = queue_offer(q, buf, strlen(buf) + 1);
+	free(buf);
+
+	return ret;
+}
+
+/* emits the shortest representation that is read back as the very same value */
+bool emit_float(struct queue *q, double val)
+{
+	char buf[64];
+
+	for (int precision = 6; precision <= 17; precision++) {
+		snprintf(buf, sizeof(buf), "%.*g", precision, val);
+		if (atof(buf) == val)
+			break;
+	}
+
+	return emit(q, "FLOAT %s", buf);
 }
-- 
2.43.0


From c20da562fccd384b51e32a6680fbad826eee054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 29/47] fix: btree lookups could match stale keys and shrinking
 the root led to an invalid free

---
 src/datastructure/btree.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..2705966 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,7 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
@@ -102,7 +102,7 @@ bool btree_update(struct btree_head *head, void *key, void *val)
 
 	/* sanity checks */
 	if (!head->root)
-		return NULL; /* btree hasn't been initialised yet */
+		return false; /* btree hasn't been initialised yet */
 
 	if (!key)
 		return false;
@@ -617,12 +617,16 @@ int btree_remove(struct btree_head *head, void *key)
 		if (head->root->is_leaf) {
 			head->root = NULL;
 			free(tmp->children);
+			// Free the old root
+			free(tmp->keys);
+			free(tmp);
 		} else {
-			head->root = &head->root->children[0];
+			// the first child lives inside of the array owned by the old root
+			struct btree_node child = tmp->children[0];
+			free(tmp->children);
+			free(tmp->keys);
+			*tmp = child;
 		}
-		// Free the old root
-		free(tmp->keys);
-		free(tmp);
 	}
 
 	return 0;
-- 
2.43.0


From acd30289aec96947b3253a92735646b3677789aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 30/47] fix: bit_set/bit_clear/bit_toggle wrapped bit numbers
 beyond 255

---
 include/lib/bit.h | 6 +++---
 src/lib/bit.c     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lib/bit.h b/include/lib/bit.h
index 0186c0f..e1c8b69 100644
--- a/include/lib/bit.h
+++ b/include/lib/bit.h
@@ -12,10 +12,10 @@
 
 bool bit_test(void* field, size_t bit_number, size_t len);
 
-void bit_set(void* field, uint8_t bit_number, size_t len);
+void bit_set(void* field, size_t bit_number, size_t len);
 
-void bit_clear(void* field, uint8_t bit_number, size_t len);
+void bit_clear(void* field, size_t bit_number, size_t len);
 
-void bit_toggle(void* field, uint8_t bit_number, size_t len);
+void bit_toggle(void* field, size_t bit_number, size_t len);
 
 #endif /* INCLUDE_COMPILER_BIT_H_ */
diff --git a/src/lib/bit.c b/src/lib/bit.c
index 1e0aaca..9321887 100644
--- a/src/lib/bit.c
+++ b/src/lib/bit.c
@@ -8,7 +8,7 @@ bool bit_test(void *field, size_t bit_number, size_t len)
 	return (((char*)field)[byte_no] >> bit_number) & 1ULL;
 }
 
-void bit_set(void *field, uint8_t bit_number, size_t len)
+void bit_set(void *field, size_t bit_number, size_t len)
 {
 	size_t byte_no = floorl(bit_number / CHAR_BIT);
 	bit_number -= byte_no * CHAR_BIT;
@@ -16,7 +16,7 @@ void bit_set(void *field, uint8_t bit_number, size_t len)
 	((char*)field)[byte_no] |= (1ULL << bit_number);
 }
 
-void bit_clear(void *field, uint8_t bit_number, size_t len)
+void bit_clear(void *field, size_t bit_number, size_t len)
 {
 	size_t byte_no = floorl(bit_number / CHAR_BIT);
 	bit_number -= byte_no * CHAR_BIT;
@@ -24,7 +24,7 @@ void bit_clear(void *field, uint8_t bit_number, size_t len)
 	((char*)field)[byte_no] &= ~(1UL << bit_number);
 }
 
-void bit_toggle(void *field, uint8_t bit_number, size_t len)
+void bit_toggle(void *field, size_t bit_number, size_t len)
 {
 	size_t byte_no = floorl(bit_number / CHAR_BIT);
 	bit_number -= byte_no * CHAR_BIT;
-- 
2.43.0


From d394a7217a64b7ced0664986242434637c1614b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 31/47] fix: updating a row whose VARCHAR is NULL read the
 (absent) value

---
 src/primitive/row.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..59a7048 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,7 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
@@ -157,7 +157,11 @@ bool table_update_row(struct table *table, struct datablock *blk, size_t offset,
 		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **ptr = (void**)&upd_row->data[pos];
-			memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+			char *new_val = *((char**)((char*)row->data + pos));
+
+			/* there may be nothing to be copied if column is NULL */
+			if (new_val)
+				memmove(*ptr, new_val, column->precision);
 		} else {
 			memcpy(upd_row->data + pos, ((char*)row->data) + pos, column->precision);
 		}
-- 
2.43.0


From 08a848930b88b15b6a8158ebdaf8c81da7eb6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 32/47] fix: a VARCHAR column added to a table that has rows
 was a dangling NULL pointer

---
 src/primitive/column.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index f38c607..c30aaf7 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -78,6 +78,15 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 
 			/* copy row into new datablock */
 			memcpy(&new_entry->data[blk_offset], row, row_cur_size);
+
+			/* variable precision values are alloc'ed separately, that includes those of existing rows */
+			if (table_check_var_column(&table->columns[table->column_count - 1])) {
+				void *ptr = zalloc(table->columns[table->column_count - 1].precision);
+				if (!ptr)
+					goto err_free;
+				memcpy(&new_entry->data[blk_offset + row_cur_size], &ptr, sizeof(ptr));
+			}
+
 			blk_offset += row_nxt_size;
 		}
 	}
-- 
2.43.0


From 238c8e65bde37b138452fba90a77d3898a70653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 33/47] fix: COUNT columns of a result set were flagged as NULL

---
 src/engine/executor_select.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 7f7e9ba..ece0bd1 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -331,6 +331,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
-- 
2.43.0


From 7499053d8fa27f2cc83aeb7a9c3ad47b8ec76d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 34/47] fix: tables listed next to a JOIN weren't visible to
 the other clauses

---
 src/parser/semantic_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index d9e7af3..8d75f9d 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1400,7 +1400,7 @@ static bool check_join_on_fields(struct database *db, struct ast_node *node, str
 	struct ast_sel_fieldname_node *field_node;
 	int count;
 
-	if (node->node_type == AST_TYPE_SEL_EXPRVAL) {
+	if (join_node && node->node_type == AST_TYPE_SEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
@@ -1416,7 +1416,7 @@ static bool check_join_on_fields(struct database *db, struct ast_node *node, str
 				return false;
 			}
 		}
-	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
+	} else if (join_node && node->node_type == AST_TYPE_SEL_FIELDNAME) {
 		field_node = (typeof(field_node))node;
 
 		count = check_join_on_fields_fieldname(db, field_node, join_node, out_err, out_err_len);
@@ -1461,8 +1461,8 @@ static bool check_from_clause(struct database *db, struct ast_node *root, char *
 		if (!check_join_on_count(join_node, out_err, out_err_len))
 			return false;
 
-		/* check if fields/aliases on JOIN ON expression */
-		if (!check_join_on_fields(db, root, (struct ast_sel_join_node*)join_node, out_err, out_err_len))
+		/* check if fields/aliases on JOIN ON expression - other clauses can see all tables of the FROM-clause */
+		if (!check_join_on_fields(db, root, NULL, out_err, out_err_len))
 			return false;
 	}
 
-- 
2.43.0


From 1ea1849d8143ee3fd9e389718bc743f22c2cbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 35/47] fix: SELECT needing too many columns or too long names
 aborted the process

---
 src/engine/executor_select.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index ece0bd1..bdc05bb 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -290,35 +290,55 @@ static int build_cols_hashtable(struct database *db, struct ast_node *node, stru
 
 }
 
+struct scafold_ctx {
+	struct table *table;
+	int ret;
+};
+
 static void do_build_table_scafold(struct hashtable *hashtable, const void *key, size_t klen, const void *value,
 		size_t vlen, void *arg)
 {
 	UNUSED(hashtable);
 	UNUSED(vlen);
 
-	struct table *table;
+	struct scafold_ctx *ctx;
 	struct column column = {0};
 
-	table = (typeof(table))arg;
+	ctx = (typeof(ctx))arg;
+
+	/* fully-qualified names have to fit too - otherwise columns couldn't be told apart */
+	if (ctx->ret || klen > sizeof(column.name)) {
+		ctx->ret = -MIDORIDB_ERROR;
+		return;
+	}
 
-	strncpy(column.name, key, MIN(sizeof(column.name), klen) - 1);
+	strncpy(column.name, key, klen - 1);
 	column.type = ((struct column*)value)->type;
 	column.precision = ((struct column*)value)->precision;
 	column.is_count = ((struct column*)value)->is_count;
 
-	BUG_ON(!table_add_column(table, &column));
+	/* there may be more columns than a table can hold */
+	if (!table_add_column(ctx->table, &column))
+		ctx->ret = -MIDORIDB_ERROR;
 }
 
 static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
 {
+	struct scafold_ctx ctx = {0};
+
 	*out_table = table_init("early_mat_tbl");
 
 	if (!(*out_table))
 		return -MIDORIDB_INTERNAL;
 
-	hashtable_foreach(column_types, &do_build_table_scafold, *out_table);
+	ctx.table = *out_table;
 
-	return MIDORIDB_OK;
+	hashtable_foreach(column_types, &do_build_table_scafold, &ctx);
+
+	if (ctx.ret)
+		table_destroy(out_table);
+
+	return ctx.ret;
 }
 
 static void init_count_cols(struct table *table, struct row *row)
-- 
2.43.0


From 497b604d9732200092d345db99afcab23b5f8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 36/47] fix: statements with an unexpected '%' aborted the
 process

---
 src/parser/midorisql.l | 16 ++++++++--------
 src/parser/midorisql.y | 21 ++++++++++++++-------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 8052bfd..40f89c5 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -6,9 +6,9 @@
 #include <errno.h>
 #include <stdlib.h>
 
-void yyerror(void*, void*, char *s, ...);
+void parse_error(struct queue*, void*, const char *, ...);
 
-#define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
+#define YY_FATAL_ERROR(msg) parse_error(NULL, yyscanner, msg)
 %}
 
 %x COMMENT
@@ -88,7 +88,7 @@ XOR	{ return XOR; }
 -?[0-9]+	        { errno = 0;
 			  yylval->numval = strtoll(yytext, NULL, 10);
 			  if (errno == ERANGE) {
-				yyerror(NULL, yyscanner, "number out of range %s", yytext);
+				parse_error(NULL, yyscanner, "number out of range %s", yytext);
 				return YYUNDEF;
 			  }
 			  return INTNUM; } 
@@ -109,8 +109,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+'(\\.|[^'\n])*$	        { parse_error(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ parse_error(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -156,7 +156,7 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
+`[^`\n]*$               { parse_error(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
@@ -166,10 +166,10 @@ COUNT    { int c = input(yyscanner); unput(c);
 "/*"            { yy_push_state(COMMENT, yyscanner); }
 <COMMENT>"*/"   { yy_pop_state(yyscanner); }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); BEGIN INITIAL; return YYUNDEF; }
+<COMMENT><<EOF>> { parse_error(NULL, yyscanner, "unclosed comment"); BEGIN INITIAL; return YYUNDEF; }
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
+.               { parse_error(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 0c67887..4222a46 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -10,7 +10,8 @@
 #include <stdarg.h>
 #include <stdlib.h>
 
-void yyerror(struct queue*, void*, const char *, ...);
+void yyerror(struct queue*, void*, const char *);
+void parse_error(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
@@ -206,7 +207,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
 
 select_opts:                          { $$ = 0; }
    | select_opts DISTINCT            { if ($1 & 02) {
-				yyerror(result, scanner, "duplicate DISTINCT option");
+				parse_error(result, scanner, "duplicate DISTINCT option");
 				YYERROR;
 			  }
 			  $$ = $1 | 02; }
@@ -414,14 +415,14 @@ update_stmt: UPDATE NAME
 update_asgn_list:
      NAME COMPARISON update_expr 
        { if ($2 != 4) {
-		yyerror(result, scanner, "bad insert assignment to %s", $1);
+		parse_error(result, scanner, "bad insert assignment to %s", $1);
 		free($1);
 		YYERROR;
 	 }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
        { if ($4 != 4) {
-		yyerror(result, scanner, "bad insert assignment to %s", $3);
+		parse_error(result, scanner, "bad insert assignment to %s", $3);
 		free($3);
 		YYERROR;
 	 }
@@ -462,7 +463,7 @@ update_val_list: update_expr				{ $$ = 1; }
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
    | IF EXISTS           { if (!$2) {
-				yyerror(result, scanner, "IF EXISTS doesn't exist");
+				parse_error(result, scanner, "IF EXISTS doesn't exist");
 				YYERROR;
 			  }
                         $$ = $2; /* NOT EXISTS hack */ }
@@ -503,7 +504,7 @@ data_type:
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
    | VARCHAR '(' INTNUM ')' { if ($3 < 1 || $3 > 65535) {
-				yyerror(result, scanner, "VARCHAR length must be between 1 and 65535");
+				parse_error(result, scanner, "VARCHAR length must be between 1 and 65535");
 				YYERROR;
 			      }
 			      $$ = 130000 + $3; }
@@ -530,7 +531,13 @@ static char* format_str(const char *s, va_list ap)
 	return buf;
 }
 
-void yyerror(struct queue *q, void* scanner, const char *s, ...)
+/* invoked by Bison. The message may contain '%' so it can't be used as a format */
+void yyerror(struct queue *q, void* scanner, const char *s)
+{
+	parse_error(q, scanner, "%s", s);
+}
+
+void parse_error(struct queue *q, void* scanner, const char *s, ...)
 {
 	(void)scanner;
 	va_list ap;
-- 
2.43.0


From 6c2fdb3fa27fc2802bdd5562fce8237065a4740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 37/47] fix: aliases of logical and comparison expressions
 aborted the process

---
 src/parser/semantic_select.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 8d75f9d..4641fc3 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -271,8 +271,9 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 				/* table nodes are not used in this validation, so just move on */
 				continue;
 			} else {
-				/* is there an edge case that I haven't foreseen */
-				BUG_GENERIC();
+				/* any other expression such as SELECT f1 > 2 as val FROM a; */
+				memzero(&value, sizeof(value));
+				value.type.is_expre = true;
 			}
 
 			/* is the name valid? column aliases follow table nomenclature rules */
-- 
2.43.0


From e351101db9fcbc7050588b6c06eaae22e3538150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 38/47] fix: COUNT at the very end of a statement crashed the
 process

---
 src/parser/midorisql.l | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 40f89c5..f5a3bcd 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -145,10 +145,7 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
 	/* 
          * peek ahead and return function if name(
          */
-COUNT    { int c = input(yyscanner); unput(c);
-           if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
-           return NAME; }
+COUNT/"("	{ return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
                           return NAME; }
-- 
2.43.0


From 4e1f8b2b46ea5414b1524d9ab870391d1b39d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 39/47] fix: SELECT of expressions that were given an alias
 aborted or yielded rows without columns

---
 src/engine/executor_select.c | 4 ++++
 src/parser/semantic_select.c | 8 +++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index bdc05bb..c628c0b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1772,6 +1772,10 @@ static bool is_stmt_supported(struct ast_node *node)
 				return false;
 		}
 
+		/* fields that were given an alias */
+		if (node->node_type == AST_TYPE_SEL_ALIAS && tmp_entry->node_type != AST_TYPE_SEL_TABLE)
+			return false;
+
 		if (!is_stmt_supported(tmp_entry))
 			return false;
 	}
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 4641fc3..15cf380 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2618,10 +2618,8 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 			BUG_ON(!ht_value);
 
 			col_type = *(enum COLUMN_TYPE*)ht_value->content;
-		} else {
-			// most likely a new column type has been added
-			BUG_GENERIC();
 		}
+		/* otherwise it's a NULL, which has no type of its own */
 
 	} else if (node->node_type == AST_TYPE_SEL_EXPROP) {
 		/* recursive expression such as SELECT f1 * 2 as val FROM a; */
@@ -2649,8 +2647,8 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 			col_type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	} else {
-		/* is there an edge case that I haven't foreseen */
-		BUG_GENERIC();
+		/* logical, comparison, IS NULL, IN and LIKE expressions */
+		col_type = CT_TINYINT;
 	}
 
 	return col_type;
-- 
2.43.0


From 694734734fe19b9f527918e6a6133eaf7f56e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 40/47] fix: datablock ids raced when tables were written to by
 several threads

---
 src/primitive/datablock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitive/datablock.c b/src/primitive/datablock.c
index 4968f41..939a7b9 100644
--- a/src/primitive/datablock.c
+++ b/src/primitive/datablock.c
@@ -15,7 +15,8 @@ struct datablock* datablock_alloc(struct list_head *head)
 {
 	struct datablock *new = NULL;
 	if ((new = malloc(sizeof(*new)))) {
-		new->block_id = block_id_acc++;
+		/* tables of different databases can be written to at the same time */
+		new->block_id = __atomic_fetch_add(&block_id_acc, 1, __ATOMIC_RELAXED);
 		list_head_init(&new->head);
 		list_add(&new->head, head->prev);
 	}
-- 
2.43.0


From ff4e24534907d75b925c9b84e74a97600f4b87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 41/47] fix: SELECT comparing a value with NULL could be true
 when NULL came last

---
 src/engine/executor_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index c628c0b..543deee 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -673,15 +673,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
-- 
2.43.0


From f33311ca9e551382a18b4b8c1ace97264c22091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 42/47] fix: vector_push lost its content and wrote through
 NULL when it could not grow

---
 src/datastructure/vector.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..07f5f89 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	void *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,14 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		/* what has been pushed so far is still there if this fails */
+		if (!new_data)
 			return false;
 
+		vec->data = new_data;
+		memzero(vec->data + vec->len, new_cap - vec->len);
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From 09d681375c58d9ef6a86ea4cf4a22a96f917cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 43/47] fix: wrap_on_join_node freed NULL or leaked nodes when
 an allocation failed

---
 src/engine/optimiser_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..3af1698 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -448,18 +448,18 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
 	/*ast_node is recursive so it will take care of cmp_node */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
+err_onexpr:
 	/*ast_node is recursive so it will take care of exprval */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
-- 
2.43.0


From fc6c8089798356a930c032f1c131afb960960d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 44/47] fix: an INSERT that ran out of memory kept some of its
 rows or reported success

---
 src/engine/executor_insert.c | 47 +++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 0a76198..764b21b 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -229,6 +229,39 @@ static int check_not_null_columns(struct table *table, struct ast_ins_insvals_no
 	return MIDORIDB_OK;
 }
 
+/* takes back the rows that were added past this point - new rows are always placed at the end of the table */
+static void undo_inserts(struct table *table, struct datablock *last_blk, size_t last_offset)
+{
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
+	size_t row_size = table_calc_row_size(table);
+	size_t offset;
+
+	while ((pos = table->datablock_head->prev) != table->datablock_head) {
+		blk = list_entry(pos, typeof(*blk), head);
+		offset = blk == last_blk ? last_offset : 0;
+
+		for (size_t i = offset / row_size; i < DATABLOCK_PAGE_SIZE / row_size; i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			table_free_row_content(table, row);
+		}
+
+		if (blk == last_blk) {
+			table_datablock_init(blk, offset, row_size);
+			break;
+		}
+
+		datablock_free(blk);
+	}
+
+	table->free_dtbkl_offset = last_offset;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -236,6 +269,8 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	struct ast_node *entry;
 	struct table *table;
 	struct row *row;
+	struct datablock *last_blk = NULL;
+	size_t last_offset;
 	int column_order[TABLE_MAX_COLUMNS];
 	int rc = MIDORIDB_OK;
 
@@ -255,6 +290,11 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	if ((rc = check_not_null_columns(table, ins_node, column_order, output)))
 		goto err;
 
+	/* remember where the table ends so that rows can be taken back */
+	if (!list_is_empty(table->datablock_head))
+		last_blk = list_entry(table->datablock_head->prev, typeof(*last_blk), head);
+	last_offset = table->free_dtbkl_offset;
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
@@ -263,8 +303,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 			row = zalloc(table_calc_row_size(table));
 
-			if (!row)
+			if (!row) {
+				rc = -MIDORIDB_INTERNAL;
 				goto err_row_alloc;
+			}
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
@@ -286,6 +328,9 @@ err_ins_row:
 err_build_row:
 	free(row);
 err_row_alloc:
+	undo_inserts(table, last_blk, last_offset);
 err:
+	if (!output->error.message[0])
+		snprintf(output->error.message, sizeof(output->error.message) - 1, "execution phase: internal error\n");
 	return rc;
 }
-- 
2.43.0


From 50d4eab88c2d3d0c4be8c5d615f8eb6ebce66016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 45/47] fix: SELECT leaked the copied values of a row when an
 allocation failed

---
 src/engine/executor_select.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 543deee..82c21db 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -446,6 +446,7 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
@@ -1153,7 +1154,7 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, new_row_size))
-							goto err;
+							goto err_ins;
 
 //						print_row(mattbl, new_row);
 
@@ -1168,6 +1169,9 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_ins:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
@@ -1243,7 +1247,7 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, mat_row_size))
-							goto err;
+							goto err_ins;
 
 //						print_row(mattbl, new_row);
 
@@ -1265,6 +1269,9 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_ins:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
@@ -1362,12 +1369,12 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 			}
 
 			if (!cpy_cols(exs_table, exs_row, mattbl, new_row, false))
-				goto err_ptr;
+				goto err_row;
 
 			init_count_cols(mattbl, new_row);
 
 			if (!table_insert_row(mattbl, new_row, new_row_size)) {
-				goto err_ins;
+				goto err_row;
 			}
 
 //			print_row(mattbl, new_row);
@@ -1378,9 +1385,9 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 
 	return MIDORIDB_OK;
 
-err_ins:
+err_row:
+	/* content of variable precision columns that were copied so far, if any */
 	table_free_row_content(mattbl, new_row);
-err_ptr:
 	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From 4bc00f7b6291c52b891e2190f88387f8d9c7d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:44 +0000
Subject: [PATCH 46/47] fix: table_add_column kept the column and leaked its
 values when an allocation failed

---
 src/primitive/column.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index c30aaf7..68f09a6 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -107,7 +107,19 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 err_free:
 	list_for_each_safe(new_pos, tmp_pos, new_head)
 	{
-		datablock_free(list_entry(new_pos, typeof(*new_entry), head));
+		new_entry = list_entry(new_pos, typeof(*new_entry), head);
+
+		/* existing values still belong to the rows in old_head, those of the new column don't */
+		if (table_check_var_column(&table->columns[table->column_count - 1])) {
+			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_nxt_size); i++) {
+				if (((struct row*)&new_entry->data[i * row_nxt_size])->flags.empty)
+					break;
+
+				free(*(void**)&new_entry->data[i * row_nxt_size + row_cur_size]);
+			}
+		}
+
+		datablock_free(new_entry);
 	}
 	free(new_head);
 
@@ -145,8 +157,10 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 9a114a4ca148832df2a5b5559799aef4792fe840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:56 +0000
Subject: [PATCH 47/47] fix: refuse fields in the LIMIT clause instead of
 aborting on an unknown name

__check_value_types looks the type of every name up, yet nothing had ever
checked the names used in LIMIT: SELECT * FROM T LIMIT NOPE hit the BUG_ON
and took the whole process down.
---
 src/parser/semantic_select.c | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 15cf380..b1dfc22 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2047,6 +2047,42 @@ static bool check_having_clause(struct ast_node *root, char *out_err, size_t out
 	return true;
 }
 
+static bool check_limit_clause_raw(struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_sel_exprval_node *val_node = (typeof(val_node))node;
+
+	if (node->node_type == AST_TYPE_SEL_FIELDNAME
+			|| (node->node_type == AST_TYPE_SEL_EXPRVAL && val_node->value_type.is_name)) {
+		snprintf(out_err, out_err_len, "limit-clause supports only raw values\n");
+		return false;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		if (!check_limit_clause_raw(list_entry(pos, struct ast_node, head), out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
+static bool check_limit_clause(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+
+	if (root->node_type == AST_TYPE_SEL_LIMIT)
+		return check_limit_clause_raw(root, out_err, out_err_len);
+
+	list_for_each(pos, root->node_children_head)
+	{
+		if (!check_limit_clause(list_entry(pos, struct ast_node, head), out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -2840,6 +2876,10 @@ bool semantic_analyse_select_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_having_clause(node, out_err, out_err_len, &column_alias))
 		goto cleanup_tbl_ht;
 
+	/* check if limit-clause contains only raw values as there is no row from which fields could be read */
+	if (!check_limit_clause(node, out_err, out_err_len))
+		goto cleanup_tbl_ht;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries(node, out_err, out_err_len))
 		goto cleanup_tbl_ht;
-- 
2.43.0

