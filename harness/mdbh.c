/*
 * mdbh - generated-case executor for MidoriDB.
 *
 * Reads cases from stdin, runs each one in a forked child against the real code, and reports what the child printed and
 * how it ended. All oracles live outside (in /verif/pbt); this file only calls the code and prints what it observes.
 *
 * protocol (parent):  "CASE <nbytes> <cpu_seconds>\n" <payload>
 *           reply:    "RES <how> <code> <outlen> <errlen>\n" <out> <err>     how: E=exited S=signalled
 * payload: one command per line, see run_line(). Strings travel hex encoded ("-" is the empty string).
 * A child that ran to the end prints a last line "END".
 */
#define _GNU_SOURCE
#include <engine/query.h>
#include <engine/database.h>
#include <engine/executor.h>
#include <parser/syntax.h>
#include <parser/ast.h>
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/row.h>
#include <primitive/datablock.h>
#include <datastructure/btree.h>
#include <datastructure/hashtable.h>
#include <datastructure/vector.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
#include <datastructure/linkedlist.h>
#include <lib/bit.h>
#include <lib/regex.h>
#include <lib/string.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>

extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=2:malloc_context_size=8:"
	       "detect_stack_use_after_return=0:print_legend=0:symbolize=1:handle_abort=1";
}
extern const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void)
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=98";
}

/* ------------------------------------------------------------------ output */
static char *obuf;
static size_t olen, ocap;
static int ofd = -1;

static void oflush(void)
{
	size_t off = 0;
	while (off < olen) {
		ssize_t n = write(ofd, obuf + off, olen - off);
		if (n < 0) {
			if (errno == EINTR)
				continue;
			_exit(97);
		}
		off += n;
	}
	olen = 0;
}

/* output of a thread, kept until all threads are done */
struct tbuf {
	char *p;
	size_t n, cap;
	bool digest; /* only a digest of the output is wanted */
	char stop; /* of what comes before the first such character */
	bool stopped;
	uint64_t h;
};
static __thread struct tbuf *tout;

static void oraw(const char *s, size_t n)
{
	if (tout && tout->digest) {
		for (size_t i = 0; i < n && !tout->stopped; i++) {
			tout->stopped = tout->stop && s[i] == tout->stop;
			tout->h = (tout->h ^ (unsigned char)s[i]) * 1099511628211u;
		}
		return;
	}
	if (tout) {
		if (tout->n + n > tout->cap) {
			tout->cap = (tout->n + n) * 2;
			tout->p = realloc(tout->p, tout->cap);
		}
		memcpy(tout->p + tout->n, s, n);
		tout->n += n;
		return;
	}
	if (olen + n > ocap)
		oflush();
	if (n > ocap) {
		char *sv = obuf; /* huge single write */
		size_t sl = olen;
		obuf = (char*)s;
		olen = n;
		oflush();
		obuf = sv;
		olen = sl;
		return;
	}
	memcpy(obuf + olen, s, n);
	olen += n;
}

static void out(const char *fmt, ...)
{
	char tmp[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
	va_end(ap);
	oraw(tmp, n < (int)sizeof(tmp) ? (size_t)n : sizeof(tmp) - 1);
}

static void outhex(const void *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	const unsigned char *s = p;
	if (n == 0) {
		oraw("-", 1);
		return;
	}
	for (size_t i = 0; i < n; i++) {
		char c[2] = { d[s[i] >> 4], d[s[i] & 15] };
		oraw(c, 2);
	}
}

static int hexv(char c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	return c - 'a' + 10;
}

/* decodes in a fresh heap buffer that is exactly len + 1 bytes, so over-reads are visible to ASan */
static char* unhex(const char *h, size_t *len)
{
	size_t n = strcmp(h, "-") == 0 ? 0 : strlen(h) / 2;
	char *r = malloc(n + 1);
	for (size_t i = 0; i < n; i++)
		r[i] = (char)(hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1]));
	r[n] = 0;
	if (len)
		*len = n;
	return r;
}

/* ------------------------------------------------------------------ rows */
static void out_value(struct table *t, struct row *row, int idx, size_t off)
{
	struct column *c = &t->columns[idx];
	char *p = row->data + off;

	if (row->null_bitmap[idx / 8] >> (idx % 8) & 1) {
		out(" N");
		return;
	}
	switch (c->type) {
	case CT_VARCHAR: {
		char *s = *(char**)p;
		if (!s) {
			out(" sNULLPTR");
			break;
		}
		size_t n = strnlen(s, c->precision);
		out(" s");
		outhex(s, n);
		if (n == (size_t)c->precision)
			out("!"); /* not NUL terminated within the declared size */
		break;
	}
	case CT_INTEGER: {
		int64_t v;
		memcpy(&v, p, 8);
		out(" i%ld", v);
		break;
	}
	case CT_TINYINT:
		out(" b%d", *(signed char*)p);
		break;
	case CT_DOUBLE: {
		uint64_t v;
		memcpy(&v, p, 8);
		out(" d%016lx", v);
		break;
	}
	case CT_DATE:
	case CT_DATETIME: {
		int64_t v;
		memcpy(&v, p, 8);
		out(" t%ld", v);
		break;
	}
	default:
		out(" ?%d", (int)c->type);
	}
}

static void out_row(struct table *t, struct row *row, const char *tag)
{
	size_t off = 0;
	out("%s", tag);
	for (int i = 0; i < t->column_count; i++) {
		out_value(t, row, i, off);
		off += table_calc_column_space(&t->columns[i]);
	}
	out("\n");
}

static void out_cols(struct table *t)
{
	for (int i = 0; i < t->column_count; i++) {
		struct column *c = &t->columns[i];
		out("c ");
		outhex(c->name, strnlen(c->name, sizeof(c->name)));
		out(" %d %d %d %d %d %d %d %d\n", (int)c->type, c->precision, c->nullable, c->unique, c->auto_inc,
		    c->primary_key, c->indexed, c->is_count);
	}
}

static size_t scan_rows(struct table *t, bool print, bool meta)
{
	struct list_head *pos;
	size_t live = 0, blocks = 0, dead = 0, rs = table_calc_row_size(t);

	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, typeof(*b), head);
		blocks++;
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[i * rs];
			if (r->flags.deleted)
				dead++;
			if (r->flags.empty || r->flags.deleted)
				continue;
			live++;
			if (print)
				out_row(t, r, "r");
		}
	}
	if (meta)
		if (!tout || !tout->digest) /* how the rows are laid out does not matter */
			out("m %zu %zu %zu %zu\n", live, dead, blocks, t->free_dtbkl_offset);
	return live;
}

static void dump_table(struct table *t)
{
	if (!t) {
		out("D 0\n.\n");
		return;
	}
	out("D 1 ");
	outhex(t->name, strlen(t->name));
	out("\n");
	out_cols(t);
	scan_rows(t, true, true);
	out(".\n");
}

/* ------------------------------------------------------------------ SQL */
#define NDB 4
static struct database dbs[NDB];
static bool db_open[NDB];
static int cur;
static int q_rowlimit = 2000000;

static struct database* D(void)
{
	if (!db_open[cur]) {
		memset(&dbs[cur], 0, sizeof(dbs[cur]));
		if (database_open(&dbs[cur]) != MIDORIDB_OK) {
			out("OPENFAIL\n");
			oflush();
			_exit(96);
		}
		db_open[cur] = true;
	}
	return &dbs[cur];
}

static void out_query(struct query_output *o)
{
	if (!o) {
		out("Q NULL 0 -\n.\n");
		return;
	}
	out("Q %d %zu ", (int)o->status, o->n_rows_aff);
	outhex(o->error.message, strnlen(o->error.message, sizeof(o->error.message)));
	out("\n");
	if (o->status == ST_OK_WITH_RESULTS) {
		struct table *t = o->results.table;
		size_t n = 0, raw = scan_rows(t, false, false);
		int rc, mism = 0;

		out_cols(t);
		while ((rc = query_cur_step(&o->results)) == MIDORIDB_ROW) {
			struct row *row = (struct row*)&o->results.cursor_blk->data[o->results.cursor_offset];
			size_t off = 0;
			for (int i = 0; i < t->column_count; i++) {
				if (t->columns[i].type == CT_INTEGER
				    && !(row->null_bitmap[i / 8] >> (i % 8) & 1)) {
					int64_t v;
					memcpy(&v, row->data + off, 8);
					if (query_column_int64(&o->results, i) != v)
						mism++;
				}
				off += table_calc_column_space(&t->columns[i]);
			}
			out_row(t, row, "r");
			if (++n >= (size_t)q_rowlimit)
				break;
		}
		out("e %d %zu %zu %d\n", rc, n, raw, mism);
	}
	out(".\n");
}

/* results kept open while other statements run */
#define NHELD 16
static struct query_output *held[NHELD];

static void names_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	UNUSED(h);
	UNUSED(vl);
	UNUSED(v);
	UNUSED(arg);
	out(" ");
	outhex(k, strnlen(k, kl));
}

static void cmd_mem(void)
{
	out("MEM %zu\n", __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0);
}

/* ------------------------------------------------------------------ allocations that fail */
static bool oom_on, oom_rest;
static size_t oom_at, oom_n, oom_fired;

static bool oom_now(void)
{
	if (!oom_on)
		return false;
	oom_n++;
	if (oom_n == oom_at || (oom_rest && oom_n > oom_at)) {
		oom_fired++;
		return true;
	}
	return false;
}

/* the code under test is compiled with malloc and its like renamed to these */
void* mdbh_malloc(size_t n);
void* mdbh_calloc(size_t n, size_t m);
void* mdbh_realloc(void *p, size_t n);
char* mdbh_strdup(const char *s);
char* mdbh_strndup(const char *s, size_t n);

void* mdbh_malloc(size_t n)
{
	return oom_now() ? NULL : malloc(n);
}

void* mdbh_calloc(size_t n, size_t m)
{
	return oom_now() ? NULL : calloc(n, m);
}

void* mdbh_realloc(void *p, size_t n)
{
	return oom_now() ? NULL : realloc(p, n);
}

char* mdbh_strdup(const char *s)
{
	return oom_now() ? NULL : strdup(s);
}

char* mdbh_strndup(const char *s, size_t n)
{
	return oom_now() ? NULL : strndup(s, n);
}

/* what the generated parsers call instead */
bool mdbh_queue_offer(struct queue *q, void *data, size_t len);
bool mdbh_queue_offer(struct queue *q, void *data, size_t len)
{
	bool on = oom_on;
	oom_on = false;
	bool r = queue_offer(q, data, len);
	oom_on = on;
	return r;
}

static void mix(uint64_t *h, const void *p, size_t n)
{
	const unsigned char *s = p;
	for (size_t i = 0; i < n; i++)
		*h = (*h ^ s[i]) * 1099511628211ull;
}

/* the rows of a table as a multiset, its columns in any order, its name */
static uint64_t digest_table(struct table *t)
{
	uint64_t h = 14695981039346656037ull, cols = 0, sum = 0;
	size_t rs = table_calc_row_size(t);
	struct list_head *pos;

	mix(&h, t->name, strlen(t->name));
	for (int i = 0; i < t->column_count; i++) {
		uint64_t x = h;
		mix(&x, t->columns[i].name, strnlen(t->columns[i].name, sizeof(t->columns[i].name)));
		mix(&x, &t->columns[i].type, sizeof(t->columns[i].type));
		cols += x;
	}
	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = list_entry(pos, typeof(*b), head);
		for (size_t r = 0; r < DATABLOCK_PAGE_SIZE / rs; r++) {
			struct row *row = (struct row*)&b->data[r * rs];
			uint64_t cells = 0, x = h;
			size_t off = 0;
			if (row->flags.empty || row->flags.deleted)
				continue;
			for (int i = 0; i < t->column_count; i++) {
				struct column *c = &t->columns[i];
				size_t n = table_calc_column_space(c);
				uint64_t y = h;
				mix(&y, c->name, strnlen(c->name, sizeof(c->name)));
				if (row->null_bitmap[i / 8] >> (i % 8) & 1) {
					/* nothing to see */
				} else if (c->type == CT_VARCHAR) {
					char *s = *(char**)(row->data + off);
					mix(&y, "=", 1);
					mix(&y, s, strnlen(s, c->precision));
				} else {
					mix(&y, "=", 1);
					mix(&y, row->data + off, n);
				}
				cells += y * 0x9e3779b97f4a7c15ull;
				off += n;
			}
			mix(&x, &cells, sizeof(cells));
			sum += x * 0x9e3779b97f4a7c15ull + 1;
		}
	}
	return h ^ (cols * 31) ^ sum;
}

struct dig {
	uint64_t sum;
};

static void digest_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	UNUSED(h);
	UNUSED(vl);
	struct dig *d = arg;
	uint64_t x = 14695981039346656037ull;
	mix(&x, k, kl);
	d->sum += digest_table(*(struct table**)v) * 31 + x;
}

static uint64_t digest_db(void)
{
	struct dig d = { 0 };
	hashtable_foreach(D()->tables, digest_cb, &d);
	return d.sum;
}

static void locks_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	UNUSED(h);
	UNUSED(vl);
	UNUSED(k);
	UNUSED(kl);
	struct table *t = *(struct table**)v;
	if (pthread_mutex_trylock(&t->mutex))
		++*(int*)arg;
	else
		pthread_mutex_unlock(&t->mutex);
}

/*
 * OOM <hex sql> <rest> <from> <step> <most>: the statement runs again and again, the k-th allocation (and all later ones if
 * <rest>) failing, k = from, from + step, ... Ends when the statement is through with its allocations before the k-th, or
 * when it took effect although one failed. Each attempt that is refused is made twice: what it leaves behind shows as
 * memory that grows. A line "F k fired status message same-contents memory locks digest-of-rows" per attempt
 */
static void cmd_oom(char **tk)
{
	size_t len, from = strtoull(tk[3], NULL, 10), step = strtoull(tk[4], NULL, 10), most = strtoull(tk[5], NULL, 10);
	char *sql = unhex(tk[1], &len);
	bool rest = atoi(tk[2]);

	D();
	for (size_t k = from, n = 0;; k += step, n++) {
		bool last = n >= most;
		for (int rep = 0; rep < 2; rep++) {
			size_t mem = __sanitizer_get_current_allocated_bytes();
			char *copy = malloc(len + 1);
			memcpy(copy, sql, len + 1);
			out("F0 %zu\n", k);
			oflush();
			uint64_t before = digest_db();
			oom_at = last ? 0 : k;
			oom_rest = rest;
			oom_n = oom_fired = 0;
			oom_on = !last;
			struct query_output *o = query_execute(D(), copy);
			oom_on = false;
			int st = o ? (int)o->status : -1, msg = o && strnlen(o->error.message, sizeof(o->error.message)) > 0;
			uint64_t dig = st == ST_OK_WITH_RESULTS ? digest_table(o->results.table) : 0;
			if (!oom_fired || st == ST_OK_EXECUTED || last) {
				out("FX %zu %zu %d %zu\n", k, oom_fired, st, oom_n);
				out_query(o);
				out("FD %lu\n", dig);
				if (o)
					query_free(o);
				free(copy);
				free(sql);
				return;
			}
			if (o)
				query_free(o);
			free(copy);
			long grown = (long)(__sanitizer_get_current_allocated_bytes() - mem);
			int locked = pthread_mutex_trylock(&D()->mutex) ? 1 : 0;
			if (!locked)
				pthread_mutex_unlock(&D()->mutex);
			hashtable_foreach(D()->tables, locks_cb, &locked);
			out("F %zu %zu %d %d %d %ld %d %lu\n", k, oom_fired, st, msg, before == digest_db(), rep ? grown : 0, locked, dig);
		}
	}
}

/* ------------------------------------------------------------------ threads */
struct thr {
	pthread_t tid;
	char **sql;
	int n, cap;
	int db;
	struct tbuf out;
};
static struct thr thr[8];
static pthread_barrier_t thr_bar;

static void* thr_main(void *arg)
{
	struct thr *t = arg;
	tout = &t->out;
	pthread_barrier_wait(&thr_bar);
	for (int i = 0; i < t->n; i++) {
		struct query_output *o = query_execute(&dbs[t->db], t->sql[i]);
		out_query(o);
		if (o)
			query_free(o);
	}
	return NULL;
}

/* ------------------------------------------------------------------ components */
static struct btree_head *bt;
static int cmp_u64(void *a, void *b)
{
	return btree_cmp_ul(a, b);
}

static bool bt_str;
static size_t bt_nodes;
static int bt_depth; /* -1 unknown */
static int bt_bad;
static void bt_walk(struct btree_node *n, int depth, bool root)
{
	bt_nodes++;
	if (n->key_count > 2 * bt->min_degree - 1)
		bt_bad |= 1;
	if (!root && n->key_count < bt->min_degree - 1)
		bt_bad |= 2;
	if (root && n->key_count < 1)
		bt_bad |= 4;
	if (n->is_leaf) {
		if (bt_depth == -1)
			bt_depth = depth;
		else if (bt_depth != depth)
			bt_bad |= 8;
	}
	for (int i = 0; i < n->key_count; i++) {
		if (!n->is_leaf)
			bt_walk(&n->children[i], depth + 1, false);
		if (bt_str) {
			out(" ");
			outhex(n->keys[i].key, strlen(n->keys[i].key));
			out("=%lu", *(uint64_t*)n->keys[i].value);
		} else {
			out(" %lu=%lu", *(uint64_t*)n->keys[i].key, *(uint64_t*)n->keys[i].value);
		}
	}
	if (!n->is_leaf)
		bt_walk(&n->children[n->key_count], depth + 1, false);
}

static struct hashtable ht;
static size_t weak_mod;
static size_t weak_hash(const void *k, size_t l)
{
	return hashtable_str_hash(k, l) % weak_mod;
}
static bool bin_compare(const void *a, size_t al, const void *b, size_t bl)
{
	return al == bl && memcmp(a, b, al) == 0;
}
static void ht_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	UNUSED(h);
	UNUSED(arg);
	out(" ");
	outhex(k, kl);
	out("=");
	outhex(v, vl);
}
static void ht_free_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	UNUSED(v);
	UNUSED(vl);
	UNUSED(arg);
	hashtable_free_entry(hashtable_remove(h, k, kl));
}

static struct vector vec;
static struct queue qu;
static struct stack stk;
static struct table *tbl;

#define LMAX 256
struct lnode {
	int v;
	struct list_head head;
};
static struct list_head lhead;
static struct lnode lnodes[LMAX];

static char *toks[4096];
static int ntok;

static struct row* build_row(char **v, int nv, size_t *len)
{
	struct row *r;
	size_t off = 0;
	*len = table_calc_row_size(tbl);
	r = calloc(1, *len);
	for (int i = 0; i < tbl->column_count && i < nv; i++) {
		struct column *c = &tbl->columns[i];
		char *p = r->data + off;
		if (v[i][0] == 'N') {
			r->null_bitmap[i / 8] |= (char)(1 << (i % 8));
			if (c->type == CT_VARCHAR) /* callers always supply a readable buffer */
				*(char**)p = calloc(1, c->precision);
		} else if (c->type == CT_VARCHAR) {
			size_t n;
			char *s = unhex(v[i] + 1, &n);
			char *full = calloc(1, c->precision);
			memcpy(full, s, n < (size_t)c->precision ? n : (size_t)c->precision);
			free(s);
			*(char**)p = full;
		} else if (c->type == CT_TINYINT) {
			*p = (char)atoi(v[i] + 1);
		} else if (c->type == CT_DOUBLE) {
			uint64_t u = strtoull(v[i] + 1, NULL, 16);
			memcpy(p, &u, 8);
		} else {
			int64_t u = strtoll(v[i] + 1, NULL, 10);
			memcpy(p, &u, 8);
		}
		off += table_calc_column_space(c);
	}
	return r;
}

static void release_row(struct row *r)
{
	size_t off = 0;
	for (int i = 0; i < tbl->column_count; i++) {
		if (tbl->columns[i].type == CT_VARCHAR)
			free(*(char**)(r->data + off));
		off += table_calc_column_space(&tbl->columns[i]);
	}
	free(r);
}

/* the live row whose first column (an INTEGER) holds this number */
static bool find_row(int64_t id, struct datablock **blk, size_t *offset)
{
	struct list_head *pos;
	size_t rs = table_calc_row_size(tbl);
	list_for_each(pos, tbl->datablock_head)
	{
		struct datablock *b = list_entry(pos, typeof(*b), head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row*)&b->data[i * rs];
			if (r->flags.empty || r->flags.deleted)
				continue;
			int64_t v;
			memcpy(&v, r->data, 8);
			if (v == id) {
				*blk = b;
				*offset = i * rs;
				return true;
			}
		}
	}
	return false;
}

static void cmd_table(void)
{
	const char *c = toks[1];
	if (!strcmp(c, "init")) {
		char *n = unhex(toks[2], NULL);
		tbl = table_init(n);
		free(n);
		out("tb %d\n", tbl != NULL);
	} else if (!strcmp(c, "addcol") || !strcmp(c, "remcol")) {
		struct column col;
		size_t n;
		char *name = unhex(toks[2], &n);
		memset(&col, 0, sizeof(col));
		memcpy(col.name, name, n < sizeof(col.name) - 1 ? n : sizeof(col.name) - 1);
		free(name);
		if (c[0] == 'a') {
			col.type = atoi(toks[3]);
			col.precision = atoi(toks[4]);
			col.nullable = true;
			out("tb %d\n", table_add_column(tbl, &col));
		} else {
			out("tb %d\n", table_rem_column(tbl, &col));
		}
	} else if (!strcmp(c, "ins")) {
		size_t len;
		struct row *r = build_row(toks + 2, ntok - 2, &len);
		out("tb %d\n", table_insert_row(tbl, r, len));
		release_row(r);
	} else if (!strcmp(c, "inslen")) { /* wrong length must be refused */
		size_t len;
		struct row *r = build_row(toks + 3, ntok - 3, &len);
		out("tb %d\n", table_insert_row(tbl, r, len + atoi(toks[2])));
		release_row(r);
	} else if (!strcmp(c, "del") || !strcmp(c, "upd")) {
		struct datablock *b;
		size_t off;
		if (!find_row(strtoll(toks[2], NULL, 10), &b, &off)) {
			out("tb none\n");
			return;
		}
		if (c[0] == 'd') {
			out("tb %d\n", table_delete_row(tbl, b, off));
		} else {
			size_t len;
			struct row *r = build_row(toks + 3, ntok - 3, &len);
			out("tb %d\n", table_update_row(tbl, b, off, r, len));
			release_row(r);
		}
	} else if (!strcmp(c, "vac")) {
		out("tb %d\n", table_vacuum(tbl));
	} else if (!strcmp(c, "dump")) {
		dump_table(tbl);
	} else if (!strcmp(c, "destroy")) {
		out("tb %d\n", table_destroy(&tbl));
	}
}

/* keys and values belong to the caller of the tree; they live in a pool, so that the tree's own memory can be counted */
static char btpool[1 << 20];
static size_t btused;

static void* bt_keep(const void *p, size_t n)
{
	void *r = btpool + btused;
	if (btused + n > sizeof(btpool))
		_exit(94);
	memcpy(r, p, n);
	btused += (n + 7) & ~(size_t)7;
	return r;
}

/* the key of a command, kept in the pool or as a temporary copy */
static void* bt_key(const char *t, bool keep)
{
	static uint64_t tmp;
	static char stmp[512];
	if (bt_str) {
		size_t n;
		char *s = unhex(t, &n);
		snprintf(stmp, sizeof(stmp), "%s", s);
		free(s);
		return keep ? bt_keep(stmp, strlen(stmp) + 1) : stmp;
	}
	tmp = strtoull(t, NULL, 10);
	return keep ? bt_keep(&tmp, 8) : &tmp;
}

static void* bt_val(const char *t)
{
	uint64_t v = strtoull(t, NULL, 10);
	return bt_keep(&v, 8);
}

static void cmd_btree(void)
{
	const char *c = toks[1];
	if (!strcmp(c, "init")) {
		bt_str = ntok > 3 && !strcmp(toks[3], "str");
		btused = 0;
		bt = btree_init(atoi(toks[2]), bt_str ? &btree_cmp_str : &cmp_u64);
		out("bt %d\n", bt != NULL);
	} else if (!strcmp(c, "ins")) {
		out("bt %d\n", btree_insert(bt, bt_key(toks[2], true), bt_val(toks[3])));
	} else if (!strcmp(c, "upd")) {
		out("bt %d\n", (int)btree_update(bt, bt_key(toks[2], false), bt_val(toks[3])));
	} else if (!strcmp(c, "rm")) {
		out("bt %d\n", btree_remove(bt, bt_key(toks[2], false)));
	} else if (!strcmp(c, "get")) {
		uint64_t *v = btree_lookup(bt, bt_key(toks[2], false));
		if (v)
			out("bt %lu\n", *v);
		else
			out("bt none\n");
	} else if (!strcmp(c, "walk")) {
		bt_nodes = 0;
		bt_depth = -1;
		bt_bad = 0;
		out("bt");
		if (bt->root)
			bt_walk(bt->root, 0, true);
		out(" | %d %d %zu\n", bt_bad, bt_depth, bt_nodes);
	} else if (!strcmp(c, "destroy")) {
		btree_destroy(&bt);
		out("bt %d\n", bt == NULL);
	}
}

static void cmd_ht(void)
{
	const char *c = toks[1];
	size_t kl, vl;
	if (!strcmp(c, "init")) {
		/* init <weak modulus or 0> <str|bin> */
		weak_mod = strtoul(toks[2], NULL, 10);
		out("ht %d\n", hashtable_init(&ht, !strcmp(toks[3], "bin") ? &bin_compare : &hashtable_str_compare,
					     weak_mod ? &weak_hash : &hashtable_str_hash));
	} else if (!strcmp(c, "put")) {
		char *k = unhex(toks[2], &kl), *v = unhex(toks[3], &vl);
		if (!strcmp(toks[4], "str"))
			kl++;
		bool r = hashtable_put(&ht, k, kl, v, vl);
		free(k);
		free(v);
		out("ht %d %zu\n", r, ht.count);
	} else if (!strcmp(c, "get")) {
		char *k = unhex(toks[2], &kl);
		if (!strcmp(toks[3], "str"))
			kl++;
		struct hashtable_value *v = hashtable_get(&ht, k, kl);
		free(k);
		if (v) {
			out("ht ");
			outhex(v->content, v->len);
			out("\n");
		} else
			out("ht none\n");
	} else if (!strcmp(c, "rm")) {
		char *k = unhex(toks[2], &kl);
		if (!strcmp(toks[3], "str"))
			kl++;
		struct hashtable_entry *e = hashtable_remove(&ht, k, kl);
		free(k);
		if (e) {
			out("ht ");
			outhex(e->key.content, e->key.len);
			out("=");
			outhex(e->value.content, e->value.len);
			out(" %zu\n", ht.count);
			hashtable_free_entry(e);
		} else
			out("ht none %zu\n", ht.count);
	} else if (!strcmp(c, "each")) {
		out("ht");
		hashtable_foreach(&ht, &ht_cb, NULL);
		out(" | %zu\n", ht.count);
	} else if (!strcmp(c, "free")) {
		hashtable_foreach(&ht, &ht_free_cb, NULL);
		size_t n = ht.count;
		hashtable_free(&ht);
		out("ht %zu\n", n);
	}
}

static void cmd_vec(void)
{
	const char *c = toks[1];
	size_t n;
	if (!strcmp(c, "init"))
		out("v %d\n", vector_init(&vec));
	else if (!strcmp(c, "push")) {
		char *d = unhex(toks[2], &n);
		out("v %d %zu\n", vector_push(&vec, d, n), vec.len);
		free(d);
	} else if (!strcmp(c, "clear")) {
		vector_clear(&vec);
		out("v %zu\n", vec.len);
	} else if (!strcmp(c, "dump")) {
		out("v ");
		outhex(vec.data, vec.len);
		out(" %d\n", vec.len <= vec.capacity);
	} else if (!strcmp(c, "free")) {
		vector_free(&vec);
		out("v %d %zu %zu\n", vec.data == NULL, vec.len, vec.capacity);
	}
}

static void cmd_queue(void)
{
	const char *c = toks[1];
	size_t n;
	if (!strcmp(c, "init"))
		out("q %d\n", queue_init(&qu));
	else if (!strcmp(c, "offer")) {
		char *d = unhex(toks[2], &n);
		out("q %d\n", queue_offer(&qu, d, n + 1));
		free(d);
	} else if (!strcmp(c, "poll")) {
		char *d = queue_poll(&qu);
		out("q ");
		if (d)
			outhex(d, strlen(d));
		else
			out("none");
		out("\n");
		free(d);
	} else if (!strcmp(c, "peek")) {
		char *d = queue_peek(&qu);
		out("q ");
		if (d)
			outhex(d, strlen(d));
		else
			out("none");
		out("\n");
	} else if (!strcmp(c, "pos")) {
		char *d = queue_peek_pos(&qu, strtoul(toks[2], NULL, 10));
		out("q ");
		outhex(d, strlen(d));
		out("\n");
	} else if (!strcmp(c, "len"))
		out("q %zu %d\n", queue_length(&qu), queue_empty(&qu));
	else if (!strcmp(c, "free")) {
		queue_free(&qu);
		out("q %d\n", qu.arr == NULL);
	}
}

static void cmd_stack(void)
{
	const char *c = toks[1];
	size_t n;
	if (!strcmp(c, "init"))
		out("s %d\n", stack_init(&stk));
	else if (!strcmp(c, "push") || !strcmp(c, "upush")) {
		char *d = unhex(toks[2], &n);
		if (c[0] == 'p') {
			out("s %d\n", stack_push(&stk, d, n + 1));
			free(d);
		} else {
			bool r = stack_unsafe_push(&stk, d); /* ownership moves to the stack */
			if (!r)
				free(d);
			out("s %d\n", r);
		}
	} else if (!strcmp(c, "pop")) {
		char *d = (char*)stack_pop(&stk);
		out("s ");
		outhex(d, strlen(d));
		out("\n");
		free(d);
	} else if (!strcmp(c, "peek")) {
		char *d = (char*)stack_peek(&stk);
		out("s ");
		outhex(d, strlen(d));
		out("\n");
	} else if (!strcmp(c, "pos")) {
		char *d = (char*)stack_peek_pos(&stk, atoi(toks[2]));
		out("s ");
		outhex(d, strlen(d));
		out("\n");
	} else if (!strcmp(c, "empty"))
		out("s %d\n", stack_empty(&stk));
	else if (!strcmp(c, "free")) {
		stack_free(&stk);
		out("s 1\n");
	}
}

static void cmd_list(void)
{
	const char *c = toks[1];
	struct list_head *pos, *tmp;
	if (!strcmp(c, "init")) {
		list_head_init(&lhead);
		memset(lnodes, 0, sizeof(lnodes));
		out("l 1\n");
	} else if (!strcmp(c, "add") || !strcmp(c, "addtail")) {
		struct lnode *n = &lnodes[atoi(toks[2])];
		n->v = atoi(toks[2]);
		list_add(&n->head, c[3] ? lhead.prev : &lhead);
		out("l 1\n");
	} else if (!strcmp(c, "del")) {
		struct lnode *n = &lnodes[atoi(toks[2])];
		list_del(&n->head);
		out("l %d\n", n->head.next == NULL && n->head.prev == NULL);
	} else if (!strcmp(c, "dump")) {
		out("l");
		list_for_each(pos, &lhead)
			out(" %d", list_entry(pos, struct lnode, head)->v);
		out(" |");
		for (pos = lhead.prev; pos != &lhead; pos = pos->prev)
			out(" %d", list_entry(pos, struct lnode, head)->v);
		out(" | %zu %d\n", list_length(&lhead), list_is_empty(&lhead));
	} else if (!strcmp(c, "delodd")) {
		list_for_each_safe(pos, tmp, &lhead)
		{
			if (list_entry(pos, struct lnode, head)->v % 2)
				list_del(pos);
		}
		out("l 1\n");
	}
}

static void cmd_bit(void)
{
	/* bit <op> <hexfield> <bitno> */
	size_t n;
	char *f = unhex(toks[2], &n);
	char *exact = malloc(n);
	size_t b = strtoul(toks[3], NULL, 10);
	memcpy(exact, f, n);
	free(f);
	int r = 0;
	if (!strcmp(toks[1], "test"))
		r = bit_test(exact, b, n);
	else if (!strcmp(toks[1], "set"))
		bit_set(exact, b, n);
	else if (!strcmp(toks[1], "clear"))
		bit_clear(exact, b, n);
	else
		bit_toggle(exact, b, n);
	out("b %d ", r);
	outhex(exact, n);
	out("\n");
	free(exact);
}

static void cmd_lib(void)
{
	if (!strcmp(toks[1], "starts")) {
		char *a = unhex(toks[2], NULL), *b = unhex(toks[3], NULL);
		out("x %d\n", strstarts(a, b));
		free(a);
		free(b);
	} else if (!strcmp(toks[1], "rand")) {
		size_t n = strtoul(toks[2], NULL, 10);
		char *a = malloc(n + 1);
		strrand(a, n);
		out("x ");
		outhex(a, strlen(a));
		out("\n");
		free(a);
	} else if (!strcmp(toks[1], "rx")) {
		/* rx <text> <pattern>: the caller owns a fresh stack */
		char *a = unhex(toks[2], NULL), *b = unhex(toks[3], NULL);
		struct stack s = {0};
		bool on = oom_on;
		oom_on = false;
		if (!stack_init(&s))
			_exit(95);
		oom_on = on;
		bool ok = regex_ext_match_grp(a, b, &s);
		out("x %d", ok);
		if (ok) {
			for (int i = 0; i <= s.idx; i++) {
				char *g = (char*)stack_peek_pos(&s, i);
				out(" ");
				outhex(g, strlen(g));
			}
		}
		stack_free(&s); /* on a failure too: the stack belongs to the caller */
		out("\n");
		free(a);
		free(b);
	}
}

static void cmd_parse(void)
{
	/* P <hex sql>: RPN of a statement */
	struct queue q = {0};
	char *s = unhex(toks[1], NULL);
	if (!queue_init(&q))
		_exit(95);
	int rc = syntax_parse(s, &q);
	out("P %d", rc);
	while (!queue_empty(&q)) {
		char *e = queue_poll(&q);
		out(" ");
		outhex(e, strlen(e));
		free(e);
	}
	out("\n");
	queue_free(&q);
	free(s);
}

static void cmd_reg(void)
{
	/* registry: reg add <hexname> | get <hexname> | exists <hexname> */
	char *n = unhex(toks[2], NULL);
	if (!strcmp(toks[1], "add")) {
		struct table *t = table_init(n);
		if (!t)
			out("g invalid\n");
		else {
			int rc = database_table_add(D(), t);
			out("g %d %d\n", rc, rc == 0 && database_table_get(D(), n) == t);
			if (rc)
				table_destroy(&t);
		}
	} else if (!strcmp(toks[1], "exists")) {
		struct table *t = database_table_get(D(), n);
		out("g %d %d\n", database_table_exists(D(), n), t ? strcmp(t->name, n) == 0 : -1);
	}
	free(n);
}

/*
 * FA <rest> <from> <step> <most> <component command>: the command runs again and again with its k-th allocation (and all
 * later ones if <rest>) failing, until it is through with its allocations before the k-th, or works although one failed; only
 * that output is shown. Attempts that fail have to leave the contents as they were and, the second time, give back all memory
 */
static uint64_t fa_state(const char *c)
{
	struct tbuf b = {.digest = true, .h = 1469598103934665603u};
	char *sv[2] = {toks[0], toks[1]};
	int n = ntok;

	if (!strcmp(c, "bt"))
		b.stop = '|'; /* the shape is not looked at */
	tout = &b;
	ntok = 2;
	if (!strcmp(c, "q")) {
		for (size_t i = 0; i < queue_length(&qu); i++) {
			char *d = queue_peek_pos(&qu, i);
			outhex(d, strlen(d));
			out(" ");
		}
	} else if (!strcmp(c, "s")) {
		for (int i = 0; i <= stk.idx; i++) {
			char *d = (char*)stack_peek_pos(&stk, i);
			outhex(d, strlen(d));
			out(" ");
		}
	} else {
		toks[1] = !strcmp(c, "bt") ? "walk" : !strcmp(c, "ht") ? "each" : "dump";
		!strcmp(c, "bt") ? cmd_btree() : !strcmp(c, "ht") ? cmd_ht() : !strcmp(c, "tb") ? cmd_table() : cmd_vec();
	}
	tout = NULL;
	toks[0] = sv[0];
	toks[1] = sv[1];
	ntok = n;
	return b.h;
}

static void cmd_fa(void)
{
	static char keep[1 << 14];
	struct tbuf b = {.p = keep, .cap = sizeof(keep) - 1};
	bool rest = atoi(toks[1]), ok = true;
	size_t from = strtoull(toks[2], NULL, 10), step = strtoull(toks[3], NULL, 10), most = strtoull(toks[4], NULL, 10), tried = 0;

	memmove(toks, toks + 5, (ntok - 5) * sizeof(toks[0]));
	ntok -= 5;
	const char *c = toks[0];
	bool init = !strcmp(toks[1], "init") || !strcmp(c, "x"); /* there is no state yet, or none at all */
	for (size_t k = from; ok; k += step) {
		for (int rep = 0; rep < 2; rep++) {
			uint64_t before = init ? 0 : fa_state(c);
			size_t used = btused, mem = __sanitizer_get_current_allocated_bytes();
			b.n = 0;
			tout = &b;
			oom_at = tried < most ? k : 0;
			oom_rest = rest;
			oom_n = oom_fired = 0;
			oom_on = oom_at;
			!strcmp(c, "bt") ? cmd_btree() : !strcmp(c, "ht") ? cmd_ht() : !strcmp(c, "tb") ? cmd_table() : !strcmp(c, "v") ?
				cmd_vec() : !strcmp(c, "q") ? cmd_queue() : !strcmp(c, "s") ? cmd_stack() : cmd_lib();
			oom_on = false;
			tout = NULL;
			b.p[b.n] = 0;
			bool failed = !strcmp(c, "bt") && !init ? strcmp(b.p, "bt 0\n") : b.p[strlen(c) + 1] == '0';
			if (!oom_fired || !failed) {
				out("FA %zu\n", tried);
				oraw(b.p, b.n);
				return;
			}
			tried++;
			long grown = (long)(__sanitizer_get_current_allocated_bytes() - mem);
			btused = used;
			bool same = init || before == fa_state(c);
			/* a split that was made stays: the memory of a tree is checked in the end */
			if (!same || (rep && grown && (strcmp(c, "bt") || init))) {
				out("FA failed at allocation %zu%s: contents %s, memory grown by %ld\n", k, rest ? " and all later ones" : "",
				    same ? "kept" : "changed", rep ? grown : 0);
				ok = false;
				break;
			}
		}
	}
}

static bool q_text;

static void run_line(char *line)
{
	ntok = 0;
	for (char *p = strtok(line, " "); p && ntok < 4096; p = strtok(NULL, " "))
		toks[ntok++] = p;
	if (!ntok)
		return;
	const char *c = toks[0];

	if (!strcmp(c, "QH")) { /* QH <slot> <hex sql>: run and keep the result set for later */
		int k = atoi(toks[1]);
		char *sql = unhex(toks[2], NULL);
		held[k] = query_execute(D(), sql);
		free(sql);
		out("H %d\n", held[k] ? (int)held[k]->status : -1);
	} else if (!strcmp(c, "QR")) { /* QR <slot>: read a kept result set and release it */
		int k = atoi(toks[1]);
		out_query(held[k]);
		if (held[k])
			query_free(held[k]);
		held[k] = NULL;
	} else if (!strcmp(c, "QN")) { /* QN <slot> <n>: up to n steps of a kept result set, one row line each */
		int k = atoi(toks[1]), n = atoi(toks[2]);
		struct result_set *res = &held[k]->results;
		out("QN");
		for (int i = 0; i < n; i++) {
			int rc = query_cur_step(res);
			out(" %d", rc);
			if (rc != MIDORIDB_ROW)
				continue;
			struct row *row = (struct row*)&res->cursor_blk->data[res->cursor_offset];
			for (int j = 0; j < res->table->column_count; j++)
				if (res->table->columns[j].type == CT_INTEGER
				    && !(row->null_bitmap[j / 8] >> (j % 8) & 1))
					out(":%ld", query_column_int64(res, j));
		}
		out("\n");
	} else if (!strcmp(c, "Q")) {
		size_t n;
		char *sql = unhex(toks[1], &n), *copy = malloc(n + 1);
		memcpy(copy, sql, n + 1);
		struct query_output *o = query_execute(D(), sql);
		bool kept = !memcmp(copy, sql, n + 1);
		free(copy);
		free(sql);
		out_query(o);
		if (q_text && !kept)
			out("TEXT changed\n");
		if (o)
			query_free(o);
	} else if (!strcmp(c, "D")) {
		char *n = unhex(toks[1], NULL);
		struct table *t = database_table_get(D(), n);
		free(n);
		dump_table(t);
	} else if (!strcmp(c, "LS")) {
		out("LS");
		hashtable_foreach(D()->tables, &names_cb, NULL);
		out("\n");
	} else if (!strcmp(c, "DB")) {
		cur = atoi(toks[1]);
	} else if (!strcmp(c, "CLOSE")) {
		if (db_open[cur])
			database_close(&dbs[cur]);
		db_open[cur] = false;
		out("CLOSED\n");
	} else if (!strcmp(c, "OPEN")) {
		D();
	} else if (!strcmp(c, "VAC")) {
		char *n = unhex(toks[1], NULL);
		struct table *t = database_table_get(D(), n);
		free(n);
		out("VAC %d\n", t ? table_vacuum(t) : -1);
	} else if (!strcmp(c, "LIMIT")) {
		q_rowlimit = atoi(toks[1]);
	} else if (!strcmp(c, "TEXT")) { /* from here on, report statements that change the text handed over */
		q_text = true;
	} else if (!strcmp(c, "MEM")) {
		cmd_mem();
	} else if (!strcmp(c, "OOM")) {
		cmd_oom(toks);
	} else if (!strcmp(c, "LOCK")) {
		/* are the database's and the table's locks free? (every statement must have released them) */
		int a = pthread_mutex_trylock(&D()->mutex), b = 0;
		if (!a)
			pthread_mutex_unlock(&D()->mutex);
		for (int i = 1; i < ntok; i++) {
			char *n = unhex(toks[i], NULL);
			struct table *t = database_table_get(D(), n);
			free(n);
			if (t) {
				int r = pthread_mutex_trylock(&t->mutex);
				if (!r)
					pthread_mutex_unlock(&t->mutex);
				else
					b++;
			}
		}
		out("LOCK %d %d\n", a, b);
	} else if (!strcmp(c, "T")) { /* T <thread> <db> <hex sql> */
		struct thr *t = &thr[atoi(toks[1])];
		if (t->n == t->cap) {
			t->cap = t->cap ? t->cap * 2 : 16;
			t->sql = realloc(t->sql, t->cap * sizeof(char*));
		}
		t->db = atoi(toks[2]);
		t->sql[t->n++] = unhex(toks[3], NULL);
	} else if (!strcmp(c, "TGO")) {
		int n = atoi(toks[1]);
		pthread_barrier_init(&thr_bar, NULL, n);
		for (int i = 0; i < n; i++)
			pthread_create(&thr[i].tid, NULL, thr_main, &thr[i]);
		for (int i = 0; i < n; i++)
			pthread_join(thr[i].tid, NULL);
		for (int i = 0; i < n; i++) {
			out("T %d\n", i);
			for (int j = 0; j < thr[i].n; j++)
				free(thr[i].sql[j]);
			oraw(thr[i].out.p, thr[i].out.n);
			free(thr[i].sql);
			free(thr[i].out.p);
		}
		memset(thr, 0, sizeof(thr));
		pthread_barrier_destroy(&thr_bar);
	} else if (!strcmp(c, "tb"))
		cmd_table();
	else if (!strcmp(c, "FA"))
		cmd_fa();
	else if (!strcmp(c, "bt"))
		cmd_btree();
	else if (!strcmp(c, "ht"))
		cmd_ht();
	else if (!strcmp(c, "v"))
		cmd_vec();
	else if (!strcmp(c, "q"))
		cmd_queue();
	else if (!strcmp(c, "s"))
		cmd_stack();
	else if (!strcmp(c, "l"))
		cmd_list();
	else if (!strcmp(c, "b"))
		cmd_bit();
	else if (!strcmp(c, "x"))
		cmd_lib();
	else if (!strcmp(c, "P"))
		cmd_parse();
	else if (!strcmp(c, "reg"))
		cmd_reg();
	else
		out("BADCMD %s\n", c);
}

static void run_case(char *payload)
{
	char *save = payload, *nl;
	while (save && *save) {
		nl = strchr(save, '\n');
		if (nl)
			*nl = 0;
		run_line(save);
		oflush();
		save = nl ? nl + 1 : NULL;
	}
	out("END\n");
	oflush();
}

/* touches everything in libc that allocates lazily, so memory accounting sees only MidoriDB's own allocations */
static void warm_up(void)
{
	struct tm tm = {0};
	regex_t re;
	char buf[64];
	strptime("2001-02-03 04:05:06", "%Y-%m-%d %H:%M:%S", &tm);
	mktime(&tm);
	snprintf(buf, sizeof(buf), "%g %d", 1.5, 3);
	if (!regcomp(&re, "a(b)", REG_EXTENDED)) {
		regexec(&re, "ab", 0, NULL, 0);
		regfree(&re);
	}
	printf(" ");
	fprintf(stderr, " \n");
}

/* ------------------------------------------------------------------ parent */
static bool rd(void *p, size_t n)
{
	char *c = p;
	while (n) {
		ssize_t r = read(0, c, n);
		if (r <= 0)
			return false;
		c += r;
		n -= r;
	}
	return true;
}

/* CPU ticks used, state and resident pages of a process */
static bool proc_stat(pid_t pid, unsigned long *ticks, char *state, unsigned long *rss)
{
	char path[64], b[1024], *p;
	unsigned long ut, st;
	long r;
	snprintf(path, sizeof(path), "/proc/%d/stat", (int)pid);
	int fd = open(path, O_RDONLY);
	if (fd < 0)
		return false;
	ssize_t n = read(fd, b, sizeof(b) - 1);
	close(fd);
	if (n <= 0)
		return false;
	b[n] = 0;
	p = strrchr(b, ')');
	if (!p || sscanf(p + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld",
			 state, &ut, &st, &r) != 4)
		return false;
	*ticks = ut + st;
	*rss = r;
	return true;
}

struct buf {
	char *p;
	size_t n, cap;
};

static void slurp(struct buf *b, const char *d, size_t n, size_t max)
{
	if (b->n >= max)
		return;
	if (b->n + n > b->cap) {
		b->cap = (b->n + n) * 2;
		b->p = realloc(b->p, b->cap);
	}
	memcpy(b->p + b->n, d, n);
	b->n += n;
}

int main(void)
{
	static char iobuf[1 << 16];
	struct buf o = {0}, e = {0};

	signal(SIGPIPE, SIG_IGN);
	setvbuf(stdin, NULL, _IONBF, 0);
	int devnull = open("/dev/null", O_WRONLY);
	int sv = dup(1);
	dup2(devnull, 1);
	int sv2 = dup(2);
	dup2(devnull, 2);
	warm_up();
	fflush(stdout);
	dup2(sv2, 2);
	/* 1 stays on /dev/null for the code under test; replies use sv */
	ocap = 1 << 16;
	obuf = malloc(ocap);

	for (;;) {
		char hdr[128];
		size_t i = 0;
		while (i < sizeof(hdr) - 1) {
			if (!rd(hdr + i, 1))
				return 0;
			if (hdr[i] == '\n')
				break;
			i++;
		}
		hdr[i] = 0;
		size_t n;
		int cpu;
		if (sscanf(hdr, "CASE %zu %d", &n, &cpu) != 2)
			return 3;
		char *payload = malloc(n + 1);
		if (!rd(payload, n))
			return 4;
		payload[n] = 0;

		int po[2], pe[2];
		if (pipe(po) || pipe(pe))
			return 5;
		pid_t pid = fork();
		if (pid < 0)
			return 6;
		if (pid == 0) {
			struct rlimit rl = { cpu, cpu + 5 };
			setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = rl.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &rl);
			close(po[0]);
			close(pe[0]);
			close(sv);
			dup2(pe[1], 2);
			dup2(devnull, 0);
			ofd = po[1];
			errno = 0;
			run_case(payload);
			_exit(0);
		}
		close(po[1]);
		close(pe[1]);
		free(payload);
		o.n = e.n = 0;
		struct pollfd pf[2] = { { po[0], POLLIN, 0 }, { pe[0], POLLIN, 0 } };
		int openfds = 2;
		struct timespec t0, t1, t2;
		char killed = 0;
		unsigned long last_ticks = 0;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		t2 = t0;
		while (openfds) {
			poll(pf, 2, 1000);
			for (int k = 0; k < 2; k++) {
				if (pf[k].fd < 0 || !(pf[k].revents & (POLLIN | POLLHUP | POLLERR)))
					continue;
				ssize_t r = read(pf[k].fd, iobuf, sizeof(iobuf));
				if (r <= 0) {
					close(pf[k].fd);
					pf[k].fd = -1;
					openfds--;
				} else
					slurp(k ? &e : &o, iobuf, r, k ? 200000 : 400u << 20);
			}
			clock_gettime(CLOCK_MONOTONIC, &t1);
			unsigned long ticks, rss;
			char state;
			if (!killed && t1.tv_sec > t0.tv_sec && proc_stat(pid, &ticks, &state, &rss)) {
				if (ticks != last_ticks || state != 'S') {
					last_ticks = ticks;
					t2 = t1;
				}
				/* blocked without using any CPU (a deadlock), or eating all the memory */
				if (t1.tv_sec - t2.tv_sec > 8)
					killed = 'K';
				else if (rss > (2048u << 20) / 4096)
					killed = 'M';
				if (killed)
					kill(pid, SIGKILL);
			}
		}
		int st;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		dprintf(sv, "RES %c %d %zu %zu\n", killed ? killed : WIFSIGNALED(st) ? 'S' : 'E',
			WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), o.n, e.n);
		for (int k = 0; k < 2; k++) {
			struct buf *b = k ? &e : &o;
			size_t off = 0;
			while (off < b->n) {
				ssize_t r = write(sv, b->p + off, b->n - off);
				if (r <= 0)
					return 7;
				off += r;
			}
		}
	}
}
