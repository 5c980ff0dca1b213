R = 'src/primitive/row.c'; S = 'src/engine/executor_select.c'; U = 'src/engine/executor_update.c'
I = 'src/engine/executor_insert.c'; V = 'src/primitive/vacuum.c'; C = 'src/primitive/column.c'
B = 'src/datastructure/btree.c'; L = 'src/parser/midorisql.l'; OI = 'src/engine/optimiser_insert.c'
SI = 'src/parser/semantic_insert.c'; EC = 'src/engine/executor_create.c'
SEEDS = [
    dict(id="insert-null-bitmap", property="P01", edits=[
        (R, "	memcpy(new_row->null_bitmap, row->null_bitmap, sizeof(row->null_bitmap));\n\n	/*\n	 * if any column",
            "	memcpy(new_row->null_bitmap, row->null_bitmap, sizeof(uint64_t));\n\n	/*\n	 * if any column")],
        needs="a table of more than 64 columns and a NULL in one of the columns after the 64th",
        breaks="NULLs stored in columns after the 64th read as 0 or the empty string", demo=r'''
int main(void)
{
	struct database db;
	char sql[8192], *p = sql;
	db_open(&db);
	p += sprintf(p, "CREATE TABLE W (");
	for (int i = 0; i < 70; i++)
		p += sprintf(p, "%sC%d INTEGER", i ? ", " : "", i);
	sprintf(p, ");");
	ok(&db, sql);
	ok(&db, "INSERT INTO W (C0, C69) VALUES (7, NULL);");
	ok(&db, "INSERT INTO W (C69, C0) VALUES (3, 8);");
	expect(&db, "SELECT C0, C69, C63 FROM W;", "W.C0=7 W.C63=NULL W.C69=NULL\nW.C0=8 W.C63=NULL W.C69=3");
	expect(&db, "SELECT C0 FROM W WHERE C69 IS NULL;", "W.C0=7");
	database_close(&db);
	return done();
}
'''),
    dict(id="insert-column-prefix", property="P01", edits=[
        (I, "if (strncmp(col->name, col_node->name, sizeof(col->name)) == 0) {",
            "if (strncmp(col->name, col_node->name, strlen(col->name)) == 0) {")],
        needs="an INSERT with a column list in which a column name begins with the name of an earlier column of the table",
        breaks="the value goes to the column with the shorter name", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (ID INTEGER, NAME VARCHAR(20), NAME_2 VARCHAR(20));");
	ok(&db, "INSERT INTO T (NAME_2, ID) VALUES ('second', 1);");
	ok(&db, "INSERT INTO T (NAME_2, NAME, ID) VALUES ('b', 'a', 2);");
	stored(&db, "T", "ID=1 NAME=NULL NAME_2='second'\nID=2 NAME='a' NAME_2='b'");
	database_close(&db);
	return done();
}
'''),
    dict(id="insert-affected-rows", property="P01", edits=[
        (I, "	output->n_rows_aff = ins_node->row_count;", "	output->n_rows_aff = (uint8_t)ins_node->row_count;")],
        needs="a single INSERT of 256 rows or more", breaks="the reported number of rows is not the number added", demo=r'''
int main(void)
{
	struct database db;
	char *sql = malloc(65536), *p = sql;
	db_open(&db);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	p += sprintf(p, "INSERT INTO T VALUES ");
	for (int i = 0; i < 300; i++)
		p += sprintf(p, "%s(%d)", i ? ", " : "", i);
	sprintf(p, ";");
	long n = ok(&db, sql);
	CHECK(n == 300, "%ld rows reported", n);
	expect(&db, "SELECT COUNT(*) FROM T;", "COUNT(*)=300");
	database_close(&db);
	free(sql);
	return done();
}
'''),
    dict(id="join-dead-row-break", property="P06", edits=[
        (S, "					if (right_row->flags.deleted)\n						continue;",
            "					if (right_row->flags.deleted)\n						break;")],
        needs="a join whose second table has a deleted row in front of live ones of the same page",
        breaks="combinations with the rows behind the deleted one are missing", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE A (X INTEGER);");
	ok(&db, "CREATE TABLE B (Y INTEGER);");
	ok(&db, "INSERT INTO A VALUES (1), (2);");
	ok(&db, "INSERT INTO B VALUES (1), (2), (3);");
	ok(&db, "DELETE FROM B WHERE Y = 1;");
	expect(&db, "SELECT * FROM A JOIN B ON A.X = B.Y;", "A.X=2 B.Y=2");
	expect(&db, "SELECT COUNT(*) FROM A, B;", "COUNT(*)=4");
	expect(&db, "SELECT COUNT(*) FROM B, A;", "COUNT(*)=4");
	expect(&db, "SELECT COUNT(*) FROM A JOIN B ON A.X <= B.Y;", "COUNT(*)=4");
	database_close(&db);
	return done();
}
'''),
    dict(id="group-long-strings", property="P07", edits=[
        (S, "ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);",
            "ret = strncmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset], 32);")],
        needs="GROUP BY of texts that agree in their first 32 characters", breaks="different texts end up in one group", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	ok(&db, "CREATE TABLE T (S VARCHAR(100));");
	ok(&db, "INSERT INTO T VALUES ('aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1'), ('aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2'),"
		"('b'), ('aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1');");
	expect(&db, "SELECT S, COUNT(*) FROM T GROUP BY S;",
		"COUNT(*)=1 T.S='aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2'\nCOUNT(*)=1 T.S='b'\n"
		"COUNT(*)=2 T.S='aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1'");
	database_close(&db);
	return done();
}
'''),
    dict(id="create-lock-kept", property="P11", edits=[(EC, "		goto early_ret;", "		return rc;")],
        needs="CREATE TABLE IF NOT EXISTS of a table that is there, then another CREATE TABLE on that database",
        breaks="the database stays locked and the later statement never returns", demo=r'''
int main(void)
{
	struct database db;
	db_open(&db);
	alarm(20);
	ok(&db, "CREATE TABLE T (A INTEGER);");
	ok(&db, "CREATE TABLE IF NOT EXISTS T (A INTEGER);");
	ok(&db, "INSERT INTO T VALUES (1);");
	ok(&db, "CREATE TABLE U (A INTEGER);");
	database_close(&db);
	return done();
}
'''),
    dict(id="btree-merge-full", property="P17", edits=[
        (B, "else if (node->children[idx + 1].key_count >= head->min_degree) {\n		struct",
            "else if (node->children[idx + 1].key_count > head->min_degree) {\n		struct")],
        needs="removing a key of an inner node whose left child is minimal and whose right child holds exactly t keys",
        breaks="a node ends up with more than 2t-1 keys", demo=r'''
#include <datastructure/btree.h>
static void walk(struct btree_head *h, struct btree_node *n, int root)
{
	CHECK(n->key_count <= 2 * h->min_degree - 1, "a node holds %d keys, t is %d", n->key_count, h->min_degree);
	CHECK(root || n->key_count >= h->min_degree - 1, "a node holds %d keys", n->key_count);
	if (!n->is_leaf)
		for (int i = 0; i <= n->key_count; i++)
			walk(h, &n->children[i], 0);
}
int main(void)
{
	static uint64_t k[400];
	for (int t = 2; t < 6; t++) {
		struct btree_head *h = btree_init(t, &btree_cmp_ul);
		for (int i = 0; i < 400; i++) {
			k[i] = (i * 181) % 400;
			if (btree_insert(h, &k[i], &k[i]))
				return 3;
		}
		for (int i = 0; i < 400 && !fails; i++) {
			uint64_t key = (i * 37) % 400;
			if (btree_remove(h, &key))
				return 3;
			CHECK(!btree_lookup(h, &key), "removed key is still there");
			if (h->root)
				walk(h, h->root, 1);
		}
		if (fails)
			break;
		btree_destroy(&h);
	}
	return done();
}
'''),
]
