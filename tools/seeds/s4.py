R = 'src/primitive/row.c'; S = 'src/engine/executor_select.c'; U = 'src/engine/executor_update.c'
AU = 'src/parser/ast_update.c'; AS = 'src/parser/ast_select.c'; AD = 'src/parser/ast_delete.c'
ST = 'src/datastructure/stack.c'; BT = 'src/datastructure/btree.c'; RX = 'src/lib/regex.c'; OI = 'src/engine/optimiser_insert.c'
SEEDS = [
    dict(id="delete-in-ten", property="P03", edits=[
        (AD, '		reg_exp = "ISIN ([0-9]+)";', '		/* number of values */\n		reg_exp = "ISIN ([0-9])";')],
        needs="a DELETE with an IN list of ten values or more",
        breaks="only the first values of the list count, or the statement is refused", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	ok(&db, "INSERT INTO T VALUES (1), (2), (3), (4), (5), (6), (7), (8), (9), (10), (11), (12), (13);");
	CHECK(ok(&db, "DELETE FROM T WHERE A IN (1, 2, 3, 4, 5, 6, 7, 8, 9);") == 9, "nine rows");
	stored(&db, "T", "A=10\nA=11\nA=12\nA=13");
	CHECK(ok(&db, "DELETE FROM T WHERE A IN (12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);") == 3, "three rows");
	stored(&db, "T", "A=13");
	database_close(&db);
	return done();
}
'''),
    dict(id="join-null-wide", property="P06", edits=[
        (S, "	for (int i = 0; i < mattbl->column_count; i++) {\n		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));",
            "	for (size_t i = 0; i < MIN((size_t)mattbl->column_count, 4 * sizeof((*out)->null_bitmap)); i++) {\n		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));")],
        needs="a join whose tables have more than 64 columns together and a NULL in one of the last ones",
        breaks="the NULL comes out as 0 or as an empty text", demo=r'''
int main(void)
{
	struct database db;
	char sql[8192], *p = sql;
	db_open(&db);
	p += sprintf(p, "CREATE TABLE L (ID INTEGER");
	for (int i = 0; i < 40; i++)
		p += sprintf(p, ", L%d INTEGER", i);
	sprintf(p, ");");
	ok(&db, sql);
	p = sql + sprintf(sql, "CREATE TABLE R (ID INTEGER");
	for (int i = 0; i < 40; i++)
		p += sprintf(p, ", R%d INTEGER", i);
	sprintf(p, ");");
	ok(&db, sql);
	ok(&db, "INSERT INTO L (ID) VALUES (1);");
	ok(&db, "INSERT INTO R (ID) VALUES (1);");
	char *s = rows(&db, "SELECT * FROM L JOIN R ON L.ID = R.ID;");
	int n = 0;
	for (char *q = s; (q = strstr(q, "=NULL")); q++)
		n++;
	CHECK(n == 80, "%d of 80 columns are NULL", n);
	free(s);
	database_close(&db);
	return done();
}
'''),
    dict(id="group-count-byte", property="P07", edits=[
        (S, "			(*(int64_t*)&row->data[offset])++;", "			(*(uint8_t*)&row->data[offset])++;")],
        needs="a group of 256 rows or more",
        breaks="its count starts again from 0", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	for (int i = 0; i < 300; i++)
		ok(&db, i % 100 ? "INSERT INTO T VALUES (1);" : "INSERT INTO T VALUES (2);");
	expect(&db, "SELECT A, COUNT(*) FROM T GROUP BY A;", "COUNT(*)=297 T.A=1\nCOUNT(*)=3 T.A=2");
	database_close(&db);
	return done();
}
'''),
    dict(id="btree-split-wide", property="P17", edits=[
        (BT, "	for (int j = 0; j < head->min_degree - 1; j++) {\n		z->keys[j] = y->keys[j + head->min_degree];",
             "	for (int j = 0; j < MIN(head->min_degree - 1, 32); j++) {\n		z->keys[j] = y->keys[j + head->min_degree];")],
        needs="a tree of minimum degree 34 or more that grows until a node is split",
        breaks="keys are lost", demo=r'''
#include <datastructure/btree.h>
int main(void)
{
	struct btree_head *h = btree_init(40, &btree_cmp_ul);
	static unsigned long k[400];
	for (unsigned long i = 0; i < 400; i++) {
		k[i] = i + 1;
		CHECK(!btree_insert(h, &k[i], &k[i]), "insert %lu", i);
	}
	for (unsigned long i = 0; i < 400; i++)
		CHECK(btree_lookup(h, &k[i]) == &k[i], "key %lu", i + 1);
	btree_destroy(&h);
	return done();
}
'''),
    dict(id="regex-long-group", property="P20", edits=[
        (RX, "		strncpy(match, text + start, length);", "		strncpy(match, text + start, MIN(length, 128));")],
        needs="a group that matches more than 128 characters",
        breaks="the text of the group is cut off", demo=r'''
#include <lib/regex.h>
int main(void)
{
	struct stack st = {0};
	char text[400], want[301];
	memset(want, 'x', 300);
	want[300] = 0;
	snprintf(text, sizeof(text), "STR %s 7", want);
	CHECK(stack_init(&st), "init");
	CHECK(regex_ext_match_grp(text, "STR ([a-z]+) ([0-9])", &st), "no match");
	CHECK(!strcmp((char*)stack_peek_pos(&st, 0), want), "group 1 has %zu characters", strlen((char*)stack_peek_pos(&st, 0)));
	CHECK(!strcmp((char*)stack_peek_pos(&st, 1), "7"), "group 2");
	stack_free(&st);
	return done();
}
'''),
    dict(id="update-long-text", property="P04", edits=[
        (U, "		strncpy(*(char**)&row->data[offset], value->str_val, column->precision - 1 /* NULL */);",
            "		strncpy(*(char**)&row->data[offset], value->str_val, MIN(column->precision, 256) - 1 /* NULL */);")],
        needs="an UPDATE that sets a VARCHAR column to a text of more than 255 characters",
        breaks="the text is cut off, or keeps the end of the old one", demo=r'''
int main(void)
{
	struct database db;
	char sql[1024], want[1024], a[301], b[301];
	db_open(&db);
	memset(a, 'a', 300);
	memset(b, 'b', 300);
	a[300] = b[300] = 0;
	ok(&db, "CREATE TABLE T (S VARCHAR(320));");
	snprintf(sql, sizeof(sql), "INSERT INTO T VALUES ('%s');", a);
	ok(&db, sql);
	snprintf(sql, sizeof(sql), "UPDATE T SET S = '%s';", b);
	ok(&db, sql);
	snprintf(want, sizeof(want), "S='%s'", b);
	stored(&db, "T", want);
	database_close(&db);
	return done();
}
'''),
    dict(id="negated-zero", property="P02", edits=[
        (OI, "		out->double_val = in->double_val * -1;", "		out->double_val = 0 - in->double_val;")],
        needs="a unary minus in front of a DOUBLE zero",
        breaks="0.0 is stored for -0.0", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (ID INTEGER, D DOUBLE);");
	ok(&db, "INSERT INTO T VALUES (1, -(1.5)), (2, -(0.0)), (3, -0.0);");
	stored(&db, "T", "D=-0 ID=2\nD=-0 ID=3\nD=-1.5 ID=1");
	database_close(&db);
	return done();
}
'''),
    dict(id="stack-byte", property="P19", edits=[
        (ST, "	return *((uintptr_t**)(stack->arr->data + pos * sizeof(uintptr_t)));",
             "	return *((uintptr_t**)(stack->arr->data + (uint8_t)pos * sizeof(uintptr_t)));")],
        needs="reading an item of a stack that lies on 256 others or more",
        breaks="another item is returned", demo=r'''
#include <datastructure/stack.h>
int main(void)
{
	struct stack st = {0};
	CHECK(stack_init(&st), "init");
	for (int i = 0; i < 600; i++)
		CHECK(stack_push(&st, &i, sizeof(i)), "push %d", i);
	for (int i = 0; i < 600; i++)
		CHECK(*(int*)stack_peek_pos(&st, i) == i, "item %d is %d", i, *(int*)stack_peek_pos(&st, i));
	stack_free(&st);
	return done();
}
'''),
]
