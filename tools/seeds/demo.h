/* helpers of the demonstrations; links against the library that build.sh makes */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <lib/bit.h>

static int fails;
#define CHECK(c, ...) do { if (!(c)) { fails++; fprintf(stderr, "FAILED: " __VA_ARGS__); fputc('\n', stderr); } } while (0)

static void db_open(struct database *db)
{
	memset(db, 0, sizeof(*db));
	if (database_open(db))
		exit(3);
}

static struct query_output *run(struct database *db, const char *sql)
{
	char *copy = strdup(sql);
	struct query_output *o = query_execute(db, copy);
	free(copy);
	if (!o)
		exit(3);
	return o;
}

/* executes a statement that has to be accepted, returns the number of affected rows */
static long ok(struct database *db, const char *sql)
{
	struct query_output *o = run(db, sql);
	long n = o->n_rows_aff;
	CHECK(o->status != ST_ERROR, "refused: %.200s (%s)", sql, o->error.message);
	query_free(o);
	return n;
}

static void refused(struct database *db, const char *sql)
{
	struct query_output *o = run(db, sql);
	CHECK(o->status == ST_ERROR, "accepted: %.200s", sql);
	query_free(o);
}

static int cmp_str(const void *a, const void *b)
{
	return strcmp(*(char**)a, *(char**)b);
}

static void val(struct table *t, struct row *r, int c, char *out, size_t n)
{
	size_t off = 0;
	for (int i = 0; i < c; i++)
		off += table_calc_column_space(&t->columns[i]);
	char *p = (char*)r->data + off;
	if (bit_test(r->null_bitmap, c, sizeof(r->null_bitmap)))
		snprintf(out, n, "NULL");
	else if (t->columns[c].type == CT_VARCHAR)
		snprintf(out, n, "'%s'", *(char**)p);
	else if (t->columns[c].type == CT_DOUBLE)
		snprintf(out, n, "%.17g", *(double*)p);
	else if (t->columns[c].type == CT_TINYINT)
		snprintf(out, n, "%s", *(unsigned char*)p ? "TRUE" : "FALSE");
	else
		snprintf(out, n, "%ld", *(long*)p);
}

/* the live rows of a table as text: one line per row, sorted; columns sorted by name, as name=value */
static char *dump(struct table *t)
{
	char **lines = NULL;
	size_t n = 0;
	struct list_head *pos;
	size_t rs = table_calc_row_size(t);

	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, struct datablock, head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[i * rs];
			if (r->flags.empty || r->flags.deleted)
				continue;
			char *cells[128];
			size_t len = 2;
			for (int c = 0; c < t->column_count; c++) {
				size_t m = 2048;
				cells[c] = malloc(m);
				int k = snprintf(cells[c], m, "%s=", t->columns[c].name);
				val(t, r, c, cells[c] + k, m - k);
			}
			qsort(cells, t->column_count, sizeof(char*), cmp_str);
			for (int c = 0; c < t->column_count; c++)
				len += strlen(cells[c]) + 1;
			char *line = calloc(1, len);
			for (int c = 0; c < t->column_count; c++) {
				if (c)
					strcat(line, " ");
				strcat(line, cells[c]);
				free(cells[c]);
			}
			lines = realloc(lines, (n + 1) * sizeof(char*));
			lines[n++] = line;
		}
	}
	if (n)
		qsort(lines, n, sizeof(char*), cmp_str);
	size_t len = 1;
	for (size_t i = 0; i < n; i++)
		len += strlen(lines[i]) + 1;
	char *out = calloc(1, len), *q = out;
	for (size_t i = 0; i < n; i++) {
		q += sprintf(q, "%s%s", i ? "\n" : "", lines[i]);
		free(lines[i]);
	}
	free(lines);
	return out;
}

static char *rows(struct database *db, const char *sql)
{
	struct query_output *o = run(db, sql);
	CHECK(o->status == ST_OK_WITH_RESULTS, "no results: %.200s (%s)", sql, o->error.message);
	char *s = o->status == ST_OK_WITH_RESULTS ? dump(o->results.table) : strdup("<refused>");
	query_free(o);
	return s;
}

static void expect(struct database *db, const char *sql, const char *want)
{
	char *s = rows(db, sql);
	CHECK(!strcmp(s, want), "%.200s\n  gives\n%.600s\n  instead of\n%.600s", sql, s, want);
	free(s);
}

static void stored(struct database *db, char *table, const char *want)
{
	struct table *t = database_table_get(db, table);
	char *s = t ? dump(t) : strdup("<no table>");
	CHECK(!strcmp(s, want), "table %s holds\n%.600s\n  instead of\n%.600s", table, s, want);
	free(s);
}

static int done(void)
{
	if (fails)
		fprintf(stderr, "%d check(s) failed\n", fails);
	return fails ? 1 : 0;
}
