/*
 * fuzz_sql - coverage-guided fuzzing of statement texts (libFuzzer).
 *
 * An input is up to 4 texts, one per line. Each is sent to a database with two small tables, the same as
 * pbt/props/robust.py describes to its model. Only what needs no model is judged here: no abnormal end (sanitizers,
 * exit, time out), every text gets an outcome, a refusal has a message, the locks are free, the cursor ends. The corpus
 * and every failing input are judged again by the full oracle of P11.
 */
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/table.h>
#include <ctype.h>

const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
	return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=2:malloc_context_size=4:"
	       "detect_stack_use_after_return=0:symbolize=0:handle_abort=1";
}

#define DIE(m) do { fprintf(stderr, "FUZZ: %s\n", m); abort(); } while (0)

static void send(struct database *db, const char *s, size_t n)
{
	static const char *tables[] = { "A", "B" };
	char *sql = malloc(n + 1);
	memcpy(sql, s, n);
	sql[n] = 0;

	struct query_output *o = query_execute(db, sql);
	if (!o)
		DIE("no outcome");
	if (o->status != ST_OK_WITH_RESULTS && o->status != ST_OK_EXECUTED && o->status != ST_ERROR)
		DIE("unknown status");
	if (o->status == ST_ERROR && !o->error.message[0])
		DIE("refused without a message");
	if (o->status == ST_OK_WITH_RESULTS) {
		size_t rows = 0;
		while (query_cur_step(&o->results) == MIDORIDB_ROW)
			if (++rows > 1000000)
				DIE("the cursor does not end");
	}
	query_free(o);
	free(sql);
	if (pthread_mutex_trylock(&db->mutex))
		DIE("the lock of the database is held");
	pthread_mutex_unlock(&db->mutex);
	for (size_t i = 0; i < 2; i++) {
		struct table *t = database_table_get(db, (char*)tables[i]);
		if (!t)
			continue;
		if (pthread_mutex_trylock(&t->mutex))
			DIE("the lock of a table is held");
		pthread_mutex_unlock(&t->mutex);
	}
}

/* ---- mutation by tokens: most changes of single bytes only make the scanner or the parser refuse the text */
size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max);

static const char *words[] = {
	"SELECT", "*", "FROM", "WHERE", "A", "B", "C", "id", "v", "f", "d", "t", "A.id", "A.v", "A.f", "B.id", "B.d", "B.t", "x.id",
	"AS x", "JOIN", "INNER JOIN", "LEFT JOIN", "CROSS JOIN", "ON", "ON A.id = B.id", "AND", "OR", "XOR", "&&", "||", "NOT", "!", "IN", "NOT IN",
	"(", ")", ",", ";", "=", "<>", "<", ">", "<=", ">=", "!=", "+", "-", "*", "/", "%", "MOD", ".", "NULL", "IS NULL",
	"IS NOT NULL", "TRUE", "FALSE", "UNKNOWN", "1", "2", "0", "-1", "1.5", "-0.5", "1e3", "'x'", "''", "'2020-01-02'",
	"'2020-01-02 03:04:05'", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "COUNT(*)", "COUNT(id)",
	"GROUP BY", "HAVING", "ORDER BY", "DESC", "ASC", "LIMIT", "DISTINCT", "INSERT INTO", "VALUES", "(1, 'x', 1.5)", "(1, NULL, NULL)",
	"UPDATE", "SET", "DELETE FROM", "CREATE TABLE", "IF NOT EXISTS", "INTEGER", "INT", "VARCHAR(10)", "VARCHAR", "DOUBLE", "DATE",
	"DATETIME", "TINYINT", "PRIMARY KEY", "INDEX", "UNIQUE", "AUTO_INCREMENT", "DEFAULT", "CASE", "WHEN", "THEN", "ELSE", "END", "LIKE",
	"BETWEEN", "EXISTS", "DROP TABLE", "\n", "`id`", "\"x\"", "/*", "*/", "--", "#", "@a", "CURRENT_DATE", "X'1F'", "0B11",
};

static unsigned rnd(unsigned *s, unsigned n)
{
	*s = *s * 1664525u + 1013904223u;
	return n ? (*s >> 8) % n : 0;
}

/* the start of a token and its length: a run of word characters, a quoted string, or one other character */
static size_t tokens(const char *p, size_t n, size_t *at, size_t *len, size_t max)
{
	size_t k = 0;
	for (size_t i = 0; i < n && k < max;) {
		size_t j = i;
		if (p[i] == ' ') {
			i++;
			continue;
		}
		if (isalnum((unsigned char)p[i]) || p[i] == '_')
			while (j < n && (isalnum((unsigned char)p[j]) || p[j] == '_' || p[j] == '.'))
				j++;
		else if (p[i] == '\'') {
			for (j = i + 1; j < n && p[j] != '\''; j++)
				;
			j = j < n ? j + 1 : n;
		} else {
			j = i + 1;
		}
		at[k] = i;
		len[k++] = j - i;
		i = j;
	}
	return k;
}

size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned seed)
{
	size_t at[256], len[256], at2, n2;
	unsigned s = seed;
	char buf[8192];

	if (max > sizeof(buf) || rnd(&s, 4) == 0)
		return LLVMFuzzerMutate(data, size, max);
	for (unsigned rep = 1 + rnd(&s, 3); rep; rep--) {
		char *p = (char*)data;
		size_t k = tokens(p, size, at, len, 256);
		size_t i = k ? rnd(&s, k) : 0, from, to; /* replace [from, to) */
		const char *w = words[rnd(&s, sizeof(words) / sizeof(*words))];
		size_t wl = strlen(w);

		from = to = k ? at[i] : 0;
		switch (k ? rnd(&s, 7) : 0) {
		case 0: /* a word is put in */
			break;
		case 1: /* replaced by a word */
			to = at[i] + len[i];
			break;
		case 2: /* taken out, with what follows */
			at2 = i + rnd(&s, 3);
			at2 = at2 < k ? at2 : k - 1;
			to = at[at2] + len[at2];
			wl = 0;
			break;
		case 3: /* replaced by another token */
			to = at[i] + len[i];
			/* fallthrough */
		case 4: /* a run of tokens is repeated here */
			at2 = rnd(&s, k);
			n2 = at2 + rnd(&s, 6);
			n2 = n2 < k ? n2 : k - 1;
			w = p + at[at2];
			wl = at[n2] + len[n2] - at[at2];
			break;
		case 5: /* put in brackets */
			at2 = i + rnd(&s, 4);
			at2 = at2 < k ? at2 : k - 1;
			n2 = at[at2] + len[at2];
			if (size + 4 > max)
				continue;
			memmove(p + n2 + 2, p + n2, size - n2);
			p[n2] = ' ';
			p[n2 + 1] = ')';
			memmove(p + from + 2, p + from, size + 2 - from);
			p[from] = '(';
			p[from + 1] = ' ';
			size += 4;
			continue;
		default: /* an operator and an operand */
			from = to = at[i] + len[i];
			wl = 0;
			{
				static const char *ops[] = { "AND", "OR", "XOR", "=", "<", "<>", "+", "-", "*", "/", ",", "IN (" };
				char tmp[64];
				snprintf(tmp, sizeof(tmp), "%s %s", ops[rnd(&s, 12)], words[7 + rnd(&s, 12)]);
				if (size + strlen(tmp) + 2 > max)
					continue;
				n2 = strlen(tmp) + 2;
				memmove(p + from + n2, p + from, size - from);
				p[from] = ' ';
				memcpy(p + from + 1, tmp, n2 - 2);
				p[from + n2 - 1] = ' ';
				size += n2;
				continue;
			}
		}
		if (size - (to - from) + wl + 2 > max)
			continue;
		memcpy(buf, p, from);
		n2 = from;
		buf[n2++] = ' ';
		memcpy(buf + n2, w, wl);
		n2 += wl;
		buf[n2++] = ' ';
		memcpy(buf + n2, p + to, size - to);
		n2 += size - to;
		memcpy(p, buf, n2);
		size = n2;
	}
	return size;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	static const char *setup[] = {
		"CREATE TABLE A (id INTEGER, v VARCHAR(10), f DOUBLE);",
		"CREATE TABLE B (id INTEGER NOT NULL, d DATE, t DATETIME);",
		"INSERT INTO A VALUES (1, 'x', 1.5), (2, NULL, -0.5), (NULL, '', NULL);",
		"INSERT INTO B VALUES (1, '2020-01-02', NULL), (2, NULL, '2020-01-02 03:04:05');",
	};
	static int ready;
	struct database db;
	const char *p = (const char*)data, *end = p + size;

	if (!ready) {
		setenv("TZ", "UTC", 1);
		tzset();
		if (!freopen("/dev/null", "w", stdout))
			DIE("stdout");
		ready = 1;
	}
	if (memchr(p, 0, size))
		return -1;
	memset(&db, 0, sizeof(db));
	if (database_open(&db))
		DIE("open");
	for (size_t i = 0; i < sizeof(setup) / sizeof(*setup); i++)
		send(&db, setup[i], strlen(setup[i]));
	for (int k = 0; k < 4; k++) {
		const char *nl = memchr(p, '\n', end - p);
		send(&db, p, (nl ? nl : end) - p);
		if (!nl)
			break;
		p = nl + 1;
	}
	database_close(&db);
	return 0;
}
