R = 'src/primitive/row.c'; S = 'src/engine/executor_select.c'; U = 'src/engine/executor_update.c'
D = 'src/engine/executor_delete.c'; I = 'src/engine/executor_insert.c'; V = 'src/primitive/vacuum.c'
C = 'src/primitive/column.c'; H = 'src/datastructure/hashtable.c'; Y = 'src/parser/midorisql.y'
ST = 'src/datastructure/stack.c'; QU = 'src/datastructure/queue.c'; LS = 'src/lib/string.c'; Q = 'src/engine/query.c'
EC = 'src/engine/executor_create.c'; SI = 'src/parser/semantic_insert.c'; DB = 'src/engine/database.c'
OI = 'src/engine/optimiser_insert.c'; BIT = 'src/lib/bit.c'; VE = 'src/datastructure/vector.c'
SD = 'src/parser/semantic_delete.c'
AU = 'src/parser/ast_update.c'; AS = 'src/parser/ast_select.c'; AD = 'src/parser/ast_delete.c'
SEEDS = [
    dict(id="update-null-date", property="P04", edits=[
        (U, "	bit_clear(row->null_bitmap, col_idx, sizeof(row->null_bitmap));\n\n	if (value->value_type.is_null) {\n		bit_set(row->null_bitmap, col_idx, sizeof(row->null_bitmap));\n",
            "	/* dates are kept as numbers, so 0 is a value like any other */\n	if (column->type != CT_DATETIME)\n		bit_clear(row->null_bitmap, col_idx, sizeof(row->null_bitmap));\n\n	if (value->value_type.is_null) {\n		bit_set(row->null_bitmap, col_idx, sizeof(row->null_bitmap));\n")],
        needs="an UPDATE that gives a value to a DATETIME column which is NULL",
        breaks="the column stays NULL", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, W DATETIME);");
	ok(&db, "INSERT INTO T VALUES (1, NULL), (2, '2023-01-01 10:00:00');");
	CHECK(ok(&db, "UPDATE T SET W = '1970-01-02 00:00:00';") == 2, "two rows");
	stored(&db, "T", "A=1 W=86400\nA=2 W=86400");
	database_close(&db);
	return done();
}
'''),
    dict(id="create-index-prefix", property="P09", edits=[
        (EC, "			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {\n				col->indexed",
             "			if (strncmp(col->name, entry->name, strlen(entry->name)) == 0) {\n				col->indexed")],
        needs="a table-level PRIMARY KEY or INDEX on a column whose name begins the name of another column",
        breaks="the other column becomes part of the key (NOT NULL, unique) too", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (ID INTEGER, ID_2 INTEGER, PRIMARY KEY (ID));");
	struct table *t = database_table_get(&db, "T");
	CHECK(t->columns[0].primary_key && !t->columns[0].nullable, "ID is the key");
	CHECK(!t->columns[1].primary_key && t->columns[1].nullable && !t->columns[1].unique, "ID_2 is not");
	ok(&db, "INSERT INTO T VALUES (1, NULL);");
	database_close(&db);
	return done();
}
'''),
    dict(id="vacuum-offset", property="P16", edits=[
        (V, "	table->free_dtbkl_offset = dst_blk_offset;\n", "	if (dst_blk_offset)\n		table->free_dtbkl_offset = dst_blk_offset;\n")],
        needs="a table that is emptied, vacuumed and filled again",
        breaks="rows inserted after the vacuum are not found", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	ok(&db, "INSERT INTO T VALUES (1), (2), (3);");
	ok(&db, "DELETE FROM T WHERE A > 0;");
	struct table *t = database_table_get(&db, "T");
	CHECK(table_vacuum(t), "vacuum");
	ok(&db, "INSERT INTO T VALUES (4), (5);");
	expect(&db, "SELECT * FROM T;", "T.A=4\nT.A=5");
	database_close(&db);
	return done();
}
'''),
    dict(id="hash-rehash-len", property="P18", edits=[
        (H, "			hash_idx = hashtable->hash_fn(entry->key.content, entry->key.len) % new_capacity;",
            "			hash_idx = hashtable->hash_fn(entry->key.content, MIN(entry->key.len, (size_t)24)) % new_capacity;")],
        needs="a key longer than 24 bytes that is present while the table grows",
        breaks="the key is not found any more and can be added twice", demo=r'''
#include <datastructure/hashtable.h>
int main(void)
{
	struct hashtable h;
	char k[64];
	CHECK(hashtable_init(&h, &hashtable_str_compare, &hashtable_str_hash), "init");
	for (int i = 0; i < 200; i++) {
		snprintf(k, sizeof(k), "a_rather_long_key_of_a_table_%d", i);
		CHECK(hashtable_put(&h, k, strlen(k) + 1, &i, sizeof(i)), "put %d", i);
	}
	for (int i = 0; i < 200; i++) {
		snprintf(k, sizeof(k), "a_rather_long_key_of_a_table_%d", i);
		CHECK(hashtable_get(&h, k, strlen(k) + 1), "get %d", i);
	}
	return done();
}
'''),
    dict(id="date-static-tm", property="P21", edits=[
        (I, "	struct tm time_struct = {0};", "	static struct tm time_struct;\n\n	memset(&time_struct, 0, sizeof(time_struct));")],
        needs="two threads that insert dates at the same time, each into a database of its own",
        breaks="a date of one thread ends up in the rows of the other", demo=r'''
#include <pthread.h>
static int bad;
static void *work(void *arg)
{
	struct database db;
	long n = (long)arg;
	char sql[128], want[64];
	db_open(&db);
	ok(&db, "CREATE TABLE T (W DATETIME);");
	snprintf(sql, sizeof(sql), "INSERT INTO T VALUES ('19%02ld-0%ld-0%ld 00:00:00');", 70 + n, n + 1, n + 2);
	snprintf(want, sizeof(want), "%ld", 0L);
	for (int i = 0; i < 30000; i++) {
		struct query_output *o = run(&db, sql);
		query_free(o);
	}
	struct table *t = database_table_get(&db, "T");
	size_t rs = table_calc_row_size(t);
	time_t first = 0;
	int have = 0;
	struct list_head *pos;
	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, struct datablock, head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[i * rs];
			if (r->flags.empty)
				continue;
			time_t v = *(time_t*)r->data;
			struct tm tm = {0};
			gmtime_r(&v, &tm);
			if (tm.tm_year != 70 + n || tm.tm_mon != n || tm.tm_mday != n + 2)
				__sync_fetch_and_add(&bad, 1);
			if (!have++)
				first = v;
		}
	}
	(void)first;
	database_close(&db);
	return NULL;
}
int main(void)
{
	pthread_t t[6];
	for (long i = 0; i < 6; i++)
		pthread_create(&t[i], NULL, work, (void*)i);
	for (int i = 0; i < 6; i++)
		pthread_join(t[i], NULL);
	CHECK(bad == 0, "%d dates are wrong", bad);
	return done();
}
'''),
    dict(id="cursor-precision", property="P13", edits=[
        (Q, "		offset += table_calc_column_space(&res->table->columns[i]);\n\n	ret", "		offset += (size_t)res->table->columns[i].precision;\n\n	ret")],
        needs="a result set in which a VARCHAR column precedes the integer column that is read",
        breaks="query_column_int64 reads at the wrong offset", demo=r'''
int main(void)
{
	struct database db;
	char sql[128];
	db_open(&db);
	/* whichever order the columns come in, one of the tables has the text first */
	for (int n = 0; n < 10; n++) {
		snprintf(sql, sizeof(sql), "CREATE TABLE T%d (S VARCHAR(30), A INTEGER, U VARCHAR(20), B INTEGER);", n);
		ok(&db, sql);
		snprintf(sql, sizeof(sql), "INSERT INTO T%d VALUES ('one', 77, 'two', 88);", n);
		ok(&db, sql);
		snprintf(sql, sizeof(sql), "SELECT * FROM T%d;", n);
		struct query_output *o = run(&db, sql);
		CHECK(o->status == ST_OK_WITH_RESULTS, "%s", o->error.message);
		CHECK(query_cur_step(&o->results) == MIDORIDB_ROW, "a row");
		for (int i = 0; i < o->results.table->column_count; i++) {
			struct column *c = &o->results.table->columns[i];
			if (c->type == CT_INTEGER)
				CHECK(query_column_int64(&o->results, i) == (strstr(c->name, ".A") ? 77 : 88), "column %s", c->name);
		}
		query_free(o);
	}
	database_close(&db);
	return done();
}
'''),
    dict(id="add-column-dead-row", property="P15", edits=[
        (C, "			/* are we done yet ? */\n			if (row->flags.empty)\n				break;\n", "			/* are we done yet ? */\n			if (row->flags.empty || row->flags.deleted)\n				break;\n")],
        needs="a column added to a table in which a row was deleted that has others after it",
        breaks="the rows of the page after the deleted one are lost", demo=r'''
#include <primitive/table.h>
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	ok(&db, "INSERT INTO T VALUES (1), (2), (3), (4);");
	ok(&db, "DELETE FROM T WHERE A = 2;");
	struct table *t = database_table_get(&db, "T");
	struct column c = {0};
	strcpy(c.name, "B");
	c.type = CT_INTEGER;
	c.precision = 8;
	c.nullable = true;
	CHECK(table_add_column(t, &c), "add");
	ok(&db, "INSERT INTO T VALUES (5, 5);");
	expect(&db, "SELECT A FROM T;", "T.A=1\nT.A=3\nT.A=4\nT.A=5");
	database_close(&db);
	return done();
}
'''),
    dict(id="delete-stops-at-dead", property="P03", edits=[
        (D, "			if (!row->flags.deleted && !row->flags.empty && eval_delete_row(table, row, node)) {\n",
            "			/* rows are packed */\n			if (row->flags.deleted || row->flags.empty)\n				break;\n\n			if (eval_delete_row(table, row, node)) {\n")],
        needs="a DELETE on a table in which an earlier row was deleted already",
        breaks="the rows of the page behind the deleted one are not looked at", demo=r'''
int main(void)
{
	struct database db;
	char sql[128];
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	for (int i = 0; i < 10; i++) {
		snprintf(sql, sizeof(sql), "INSERT INTO T VALUES (%d);", i);
		ok(&db, sql);
	}
	CHECK(ok(&db, "DELETE FROM T WHERE A = 2;") == 1, "one row");
	long n = ok(&db, "DELETE FROM T WHERE A >= 1;");
	CHECK(n == 8, "%ld rows deleted instead of 8", n);
	stored(&db, "T", "A=0");
	database_close(&db);
	return done();
}
'''),
    dict(id="not-in-null", property="P05", edits=[
        (S, "		if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME)\n			continue; /*same as field we jus fetched.. just move on */\n\n		BUG_ON(tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL);\n",
            "		if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME)\n			continue; /*same as field we jus fetched.. just move on */\n\n		BUG_ON(tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL);\n\n		if (((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_null)\n			continue; /* nothing is equal to NULL */\n"),
        (S, "		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {\n\n			if (is_field) {",
            "		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {\n			if (is_field) {")],
        needs="a NOT IN list with a NULL in it",
        breaks="rows are selected although a comparison with NULL is never true", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	ok(&db, "INSERT INTO T VALUES (1), (2), (3), (NULL);");
	expect(&db, "SELECT A FROM T WHERE A NOT IN (1, 3);", "T.A=2");
	expect(&db, "SELECT A FROM T WHERE A NOT IN (1, NULL);", "");
	expect(&db, "SELECT A FROM T WHERE A IN (1, NULL, 3);", "T.A=1\nT.A=3");
	database_close(&db);
	return done();
}
'''),
    dict(id="insert-fewer-values", property="P08", edits=[
        (SI, "			} else if (num_terms != vals_node->value_count) {", "			} else if (num_terms < vals_node->value_count) {")],
        needs="an INSERT of several rows without a column list in which a later row has fewer values than the first",
        breaks="the statement is accepted and the missing values are made up", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, B INTEGER NOT NULL);");
	refused(&db, "INSERT INTO T VALUES (1, 1), (2, 2, 2);");
	refused(&db, "INSERT INTO T VALUES (1, 1), (2, 2), (3);");
	stored(&db, "T", "");
	database_close(&db);
	return done();
}
'''),
    dict(id="update-diff-epsilon", property="P10", edits=[
        (U, "static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double val_1, double val_2)\n{\n	switch (cmp_type) {\n	case AST_CMP_DIFF_OP:\n		return val_1 != val_2;",
            "static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double val_1, double val_2)\n{\n	switch (cmp_type) {\n	case AST_CMP_DIFF_OP:\n		return val_1 - val_2 > 1e-9 || val_2 - val_1 > 1e-9;")],
        needs="an UPDATE whose condition compares, by <>, DOUBLE values that are almost equal",
        breaks="UPDATE takes values for equal that DELETE and SELECT tell apart", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (D DOUBLE, N INTEGER);");
	ok(&db, "INSERT INTO T VALUES (0.1, 1), (0.10000000001, 2), (7.5, 3);");
	expect(&db, "SELECT N FROM T WHERE D <> 0.1;", "T.N=2\nT.N=3");
	CHECK(ok(&db, "UPDATE T SET N = 9 WHERE D <> 0.1;") == 2, "two rows are to be updated");
	CHECK(ok(&db, "DELETE FROM T WHERE D <> 0.1;") == 2, "two rows are to be deleted");
	database_close(&db);
	return done();
}
'''),
    dict(id="delete-refused-leaks", property="P12", edits=[
        (SD, "	valid = __check_value_types((struct ast_node*)root, &ht, out_err, out_err_len);\n", "	if (!__check_value_types((struct ast_node*)root, &ht, out_err, out_err_len)) {\n		valid = false;\n		goto err;\n	}\n")],
        needs="a DELETE refused because its condition mixes types",
        breaks="the list of columns made for the check is never given back", demo=r'''
#include <malloc.h>
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, B INTEGER);");
	for (int i = 0; i < 50; i++)
		refused(&db, "DELETE FROM T WHERE A = 'x';");
	size_t a = mallinfo2().uordblks;
	for (int i = 0; i < 2000; i++)
		refused(&db, "DELETE FROM T WHERE A = 'x';");
	size_t b = mallinfo2().uordblks;
	CHECK(b < a + 20000, "%zu bytes are not given back", b - a);
	database_close(&db);
	return done();
}
'''),
    dict(id="strrand-nul", property="P20", edits=[
        (LS, "	size_t charset_len = sizeof(charset) - 1;", "	size_t charset_len = sizeof(charset);")],
        needs="enough random characters for the last one of the set to be drawn",
        breaks="random strings are now and then shorter than asked for", demo=r'''
#include <lib/string.h>
int main(void)
{
	char s[65];
	int n = 0;
	for (int i = 0; i < 2000; i++) {
		strrand(s, 64);
		n += strlen(s) != 64;
	}
	CHECK(n == 0, "%d strings are too short", n);
	return done();
}
'''),
    dict(id="table-cache", property="P25", edits=[
        (DB, "	struct hashtable_value *entry;\n	entry = hashtable_get(db->tables, table_name, MIN(strlen(table_name) + 1, sizeof(((struct table* )0)->name)));\n	return entry ? *(struct table**)entry->content : NULL;\n",
             "	static __thread struct database *last_db;\n	static __thread struct table *last;\n	struct hashtable_value *entry;\n\n	/* statements look the same table up again and again */\n	if (last && last_db == db && db->tables->count > 1 && strncmp(last->name, table_name, 24) == 0)\n		return last;\n\n	entry = hashtable_get(db->tables, table_name, MIN(strlen(table_name) + 1, sizeof(((struct table* )0)->name)));\n	last_db = db;\n	last = entry ? *(struct table**)entry->content : NULL;\n	return last;\n")],
        needs="two tables whose names share their first 24 characters, used one after the other",
        breaks="statements on the second table go to the first one", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE archive_of_all_orders_of_2022 (A INTEGER);");
	ok(&db, "CREATE TABLE archive_of_all_orders_of_2023 (A INTEGER);");
	ok(&db, "INSERT INTO archive_of_all_orders_of_2022 VALUES (1);");
	ok(&db, "INSERT INTO archive_of_all_orders_of_2023 VALUES (2);");
	stored(&db, "archive_of_all_orders_of_2022", "A=1");
	database_close(&db);
	return done();
}
'''),
    dict(id="division-by-reciprocal", property="P02", edits=[
        (OI, "			result = val_2->double_val / val_1->double_val;", "			result = val_2->double_val * (1.0 / val_1->double_val);")],
        needs="a division of DOUBLEs whose reciprocal is not exact",
        breaks="quotients are off in the last digit (49.0 / 49.0 is not 1)", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (D DOUBLE);");
	ok(&db, "INSERT INTO T VALUES (10.0 / 4.0), (49.0 / 49.0);");
	stored(&db, "T", "D=1\nD=2.5");
	database_close(&db);
	return done();
}
'''),
    dict(id="update-varchar-tail", property="P24", edits=[
        (U, "		strncpy(*(char**)&row->data[offset], value->str_val, column->precision - 1 /* NULL */);", "		memcpy(*(char**)&row->data[offset], value->str_val, MIN(strlen(value->str_val), (size_t)column->precision - 1 /* NULL */));")],
        needs="an UPDATE that sets a VARCHAR to a text shorter than the one stored",
        breaks="the end of the old text stays behind the new one", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, S VARCHAR(20));");
	ok(&db, "INSERT INTO T VALUES (1, 'one'), (2, 'fourteen');");
	ok(&db, "UPDATE T SET S = 'three';");
	stored(&db, "T", "A=1 S='three'\nA=2 S='three'");
	database_close(&db);
	return done();
}
'''),
    dict(id="join-key-cut", property="P06", edits=[
        (S, "		memzero(key, sizeof(key));\n\n		if (!is_src_earlymat) {\n			snprintf(key, sizeof(key) - 1, \"%s.%s\", src->name, column->name);",
            "		memzero(key, sizeof(key));\n\n		if (!is_src_earlymat) {\n			snprintf(key, sizeof(key) / 4, \"%s.%s\", src->name, column->name);")],
        needs="a joined table and column whose names are 64 characters or more together",
        breaks="values of that column end up in another column or are lost", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE the_orders_of_all_the_customers_of_the_last_year (the_number_of_the_order INTEGER, B INTEGER);");
	ok(&db, "CREATE TABLE U (C INTEGER);");
	ok(&db, "INSERT INTO U VALUES (1), (2);");
	ok(&db, "INSERT INTO the_orders_of_all_the_customers_of_the_last_year VALUES (1, 10), (3, 30);");
	expect(&db, "SELECT U.C, the_orders_of_all_the_customers_of_the_last_year.B FROM the_orders_of_all_the_customers_of_the_last_year JOIN U ON the_orders_of_all_the_customers_of_the_last_year.the_number_of_the_order = U.C;",
		"U.C=1 the_orders_of_all_the_customers_of_the_last_year.B=10");
	database_close(&db);
	return done();
}
'''),
    dict(id="queue-poll-tail", property="P19", edits=[
        (QU, "		queue->arr->len - sizeof(uintptr_t));\n	queue->arr->len", "		MIN(queue->arr->len - sizeof(uintptr_t), (size_t)512));\n	queue->arr->len")],
        needs="a queue of more than 65 items", breaks="items come out twice and others never", demo=r'''
#include <datastructure/queue.h>
int main(void)
{
	struct queue q;
	CHECK(queue_init(&q), "init");
	for (int i = 0; i < 100; i++)
		CHECK(queue_offer(&q, &i, sizeof(i)), "offer");
	for (int i = 0; i < 100; i++) {
		int *p = queue_poll(&q);
		if (*p != i) {
			CHECK(0, "%d comes out as number %d", *p, i);
			return done();
		}
	}
	return done();
}
'''),
]
