R = 'src/primitive/row.c'; S = 'src/engine/executor_select.c'; U = 'src/engine/executor_update.c'
D = 'src/engine/executor_delete.c'; I = 'src/engine/executor_insert.c'; V = 'src/primitive/vacuum.c'
C = 'src/primitive/column.c'; H = 'src/datastructure/hashtable.c'; SX = 'src/parser/syntax.c'
Q = 'src/engine/query.c'; AI = 'src/parser/ast_insert.c'; AS = 'src/parser/ast_select.c'; DB = 'src/engine/database.c'
AC = 'src/parser/ast_create.c'
OOM = r'''
#include <malloc.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t);
static long seen, at; /* the at-th allocation fails; none if 0 */
void *malloc(size_t n) { return ++seen == at ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return ++seen == at ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return ++seen == at ? NULL : __libc_realloc(p, n); }
'''
SEEDS = [
    dict(id="comment-semicolon", property="P22", edits=[
        (SX, "	bs = yy_scan_string(in, sc);\n",
             "	/* nothing is looked at past the end of the statement */\n	bs = yy_scan_bytes(in, strcspn(in, \";\") + (strchr(in, ';') != NULL), sc);\n")],
        needs="a statement with a ';' in front of its end, as in a comment",
        breaks="the statement is cut there and refused", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, S VARCHAR(20));");
	ok(&db, "INSERT INTO T VALUES (1, 'one');");
	ok(&db, "INSERT INTO T /* the second one; not the last */ VALUES (2, 'two');");
	stored(&db, "T", "A=1 S='one'\nA=2 S='two'");
	database_close(&db);
	return done();
}
'''),
    dict(id="operands-of-operators", property="P23", edits=[
        (AI, "	list_add(&operand1->head, node->node_children_head);\n	list_add(&operand2->head, node->node_children_head);\n\n	return node;\n\nerr_head:\n	free(node);\nerr_node:\n	return NULL;\n}",
             "	/* operations come before literals so that they are folded first */\n	if (operand1->node_type != AST_TYPE_INS_EXPROP && operand2->node_type == AST_TYPE_INS_EXPROP && type == AST_INS_EXPR_OP_MOD) {\n		list_add(&operand2->head, node->node_children_head);\n		list_add(&operand1->head, node->node_children_head);\n	} else {\n		list_add(&operand1->head, node->node_children_head);\n		list_add(&operand2->head, node->node_children_head);\n	}\n\n	return node;\n\nerr_head:\n	free(node);\nerr_node:\n	return NULL;\n}")],
        needs="an INSERT of a remainder whose right operand is an expression in parentheses",
        breaks="the operands are exchanged", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	ok(&db, "INSERT INTO T VALUES (17 % (2 * 5));");
	stored(&db, "T", "A=7");
	database_close(&db);
	return done();
}
'''),
    dict(id="select-dst", property="P05", edits=[
        (S, "	struct tm time_struct = {0};\n	const char *fmt;\n\n	if (type == CT_DATE)", "	/* let the C library find out whether daylight saving time applies */\n	struct tm time_struct = {.tm_isdst = -1};\n	const char *fmt;\n\n	if (type == CT_DATE)")],
        needs="a time zone with daylight saving time and a date in summer",
        breaks="SELECT does not find the dates that INSERT stored", demo=r'''
#include <time.h>
int main(void)
{
	struct database db;
	setenv("TZ", "AAA5BBB,M3.2.0,M11.1.0", 1);
	tzset();
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, W DATETIME);");
	ok(&db, "INSERT INTO T VALUES (1, '2023-07-01 10:00:00'), (2, '2023-01-01 10:00:00');");
	expect(&db, "SELECT A FROM T WHERE W = '2023-07-01 10:00:00';", "T.A=1");
	expect(&db, "SELECT A FROM T WHERE W = '2023-01-01 10:00:00';", "T.A=2");
	database_close(&db);
	return done();
}
'''),
    dict(id="rehash-given-up", property="P27", edits=[
        (H, "	if (!array_init(new_array, new_capacity)) {\n		free(new_array);\n		return;\n	}\n",
            "	/* no room for more buckets, the old ones still do */\n	if (!array_init(new_array, new_capacity))\n		return;\n")],
        needs="an allocation that fails while the table grows",
        breaks="the new array of buckets is lost", demo=r'''
#include <datastructure/hashtable.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t);
extern void __libc_free(void*);
static long seen, at, live; /* the at-th allocation fails; none if 0 */
void *malloc(size_t n) { if (++seen == at) return NULL; live++; return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { if (++seen == at) return NULL; live++; return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { if (++seen == at) return NULL; live += !p; return __libc_realloc(p, n); }
void free(void *p) { live -= !!p; __libc_free(p); }
static void drop(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	hashtable_free_entry(hashtable_remove(h, k, kl));
}

int main(void)
{
	static const char keys[12][4] = {"k00", "k01", "k02", "k03", "k04", "k05", "k06", "k07", "k08", "k09", "k10", "k11"};
	for (int fail = 1; fail < 60; fail++) {
		struct hashtable h;
		long before = live, n = 0;
		CHECK(hashtable_init(&h, &hashtable_str_compare, &hashtable_str_hash), "init");
		seen = 0;
		at = fail;
		for (int i = 0; i < 12; i++)
			n += hashtable_put(&h, keys[i], 4, "v", 2);
		at = 0;
		CHECK(h.count == (size_t)n, "%ld entries, the table counts %zu", n, (size_t)h.count);
		hashtable_foreach(&h, &drop, NULL);
		hashtable_free(&h);
		CHECK(live == before, "%ld allocations are lost when number %d fails", live - before, fail);
	}
	return done();
}
'''),
    dict(id="update-fresh-copy", property="P26", edits=[
        (U, "		strncpy(*(char**)&row->data[offset], value->str_val, column->precision - 1 /* NULL */);",
            "		/* leave nothing of a longer text behind */\n		char *fresh = zalloc(column->precision);\n\n		if (fresh) {\n			strncpy(fresh, value->str_val, column->precision - 1 /* NULL */);\n			free(*(char**)&row->data[offset]);\n			*(char**)&row->data[offset] = fresh;\n		}")],
        needs="an UPDATE of a VARCHAR column one of whose allocations fails while it changes the rows",
        breaks="the UPDATE is reported as done although the row has its old text", demo=OOM + r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER, S VARCHAR(20));");
	ok(&db, "INSERT INTO T VALUES (1, 'one'), (2, 'two');");
	seen = 0;
	ok(&db, "UPDATE T SET S = 'new' WHERE A > 0;");
	ok(&db, "UPDATE T SET S = 'old' WHERE A > 0;");
	/* the allocations at the end of the statement, long after it has been parsed */
	long last = seen / 2;
	for (long back = 0; back < 12; back++) {
		at = last - back;
		seen = 0;
		struct query_output *o = run(&db, "UPDATE T SET S = 'new' WHERE A > 0;");
		at = 0;
		stored(&db, "T", o->status == ST_ERROR ? "A=1 S='old'\nA=2 S='old'" : "A=1 S='new'\nA=2 S='new'");
		query_free(o);
		ok(&db, "UPDATE T SET S = 'old' WHERE A > 0;");
	}
	database_close(&db);
	return done();
}
'''),

    dict(id="catalogue-long-names", property="P28", edits=[
        (H, "	return strcmp(key1, key2) == 0;", "	/* names are cut to 48 characters */\n	return strncmp(key1, key2, 48) == 0;")],
        needs="two names of the same length that agree in their first 48 characters and fall into the same bucket",
        breaks="the second table cannot be created, or statements act on the wrong table", demo=r'''
int main(void)
{
	struct database db;
	char sql[512], name[128];
	db_open(&db);
	for (int i = 0; i < 40; i++) {
		snprintf(name, sizeof(name), "the_orders_of_all_the_customers_of_the_last_year_%02d", i);
		snprintf(sql, sizeof(sql), "CREATE TABLE %s (A INTEGER);", name);
		ok(&db, sql);
		snprintf(sql, sizeof(sql), "INSERT INTO %s VALUES (%d);", name, i);
		ok(&db, sql);
	}
	for (int i = 0; i < 40; i++) {
		char want[32];
		snprintf(name, sizeof(name), "the_orders_of_all_the_customers_of_the_last_year_%02d", i);
		snprintf(want, sizeof(want), "A=%d", i);
		stored(&db, name, want);
	}
	database_close(&db);
	return done();
}
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]
