// C40: statements against the relational semantics of their text. The whole
// server below its connections runs (engine.h); a small evaluator of the same
// syntax trees is the reference. Every combination of table layout (primary
// key, hash or tree, partitions, secondary index), rows and statement of the
// grammars below is executed, and its reply and the table afterwards compared.
#include "engine.h"

// ---------------------------------------------------------------- values
enum { NUL, INT, BOOL, ERR };
typedef struct { int type; int64_t v; } V;
typedef struct { V c[8]; int n; } R;
typedef struct { R r[64]; int n; } Rs;

static V v_int(int64_t v) { return (V){ INT, v }; }
static V v_bool(bool v)   { return (V){ BOOL, v }; }
static V v_null(void)     { return (V){ NUL, 0 }; }
static bool v_true(V v)   { return v.type != NUL && v.v; }
static bool v_eq(V a, V b) { return a.type == b.type && (a.type == NUL || a.v == b.v); }

static int v_cmp(V a, V b) // null is less than any value
{
	if (a.type == NUL || b.type == NUL) return (a.type != NUL) - (b.type != NUL);
	return (a.v > b.v) - (a.v < b.v);
}
static int r_cmp(const R* a, const R* b)
{
	if (a->n != b->n) return a->n - b->n;
	for (int i = 0; i < a->n; i++) {
		int c = v_cmp(a->c[i], b->c[i]);
		if (! c) c = a->c[i].type - b->c[i].type;
		if (c) return c;
	}
	return 0;
}
static int r_qcmp(const void* a, const void* b) { return r_cmp(a, b); }
static void s_sort(Rs* s) { qsort(s->r, s->n, sizeof(R), r_qcmp); }
static R* s_add(Rs* s) { mc_check(s->n < 64, "harness", "rows"); R* r = &s->r[s->n++]; memset(r, 0, sizeof(*r)); return r; }

static const char*
s_text(Rs* s)
{
	static char buf[2][4096];
	static int  at;
	char* b = buf[at ^= 1];
	int p = sprintf(b, "[");
	for (int i = 0; i < s->n && p < 3900; i++) {
		p += sprintf(b + p, "%s[", i ? ", " : "");
		for (int j = 0; j < s->r[i].n; j++) {
			V v = s->r[i].c[j];
			p += sprintf(b + p, j ? ", " : "");
			p += v.type == NUL ? sprintf(b + p, "null") : v.type == BOOL ? sprintf(b + p, v.v ? "true" : "false") : sprintf(b + p, "%lld", (long long)v.v);
		}
		p += sprintf(b + p, "]");
	}
	sprintf(b + p, "]");
	return b;
}

// ---------------------------------------------------------------- reply
static bool
p_value(const char** p, V* v)
{
	while (**p == ' ' || **p == '\n') (*p)++;
	if (! strncmp(*p, "null", 4)) { *p += 4; *v = v_null(); return true; }
	if (! strncmp(*p, "true", 4)) { *p += 4; *v = v_bool(true); return true; }
	if (! strncmp(*p, "false", 5)) { *p += 5; *v = v_bool(false); return true; }
	char* end;
	*v = v_int(strtoll(*p, &end, 10));
	if (end == *p || *end == '.' || *end == 'e') return false;
	*p = end;
	return true;
}

static bool
p_reply(const char* p, Rs* s)
{
	s->n = 0;
	if (! *p) return true;
	if (*p++ != '[') return false;
	while (*p && *p != ']') {
		R* r = s_add(s);
		while (*p == ' ' || *p == '\n' || *p == ',') p++;
		bool row = *p == '[';
		if (row) p++;
		for (;;) {
			if (r->n == 8 || ! p_value(&p, &r->c[r->n])) return false;
			r->n++;
			while (*p == ' ' || *p == '\n') p++;
			if (! row) break;
			if (*p == ',') { p++; continue; }
			if (*p++ != ']') return false;
			break;
		}
		while (*p == ' ' || *p == '\n' || *p == ',') p++;
	}
	return *p == ']';
}

static uint64_t cases;
static char     config_text[512];

static void
expect_error(const char* sql)
{
	cases++;
	const char* reply = e_run(sql);
	mc_check(e_failed, "accepted", "%s\n    %s\n    reply: %.300s\n    an error is expected", config_text, sql, reply);
}

static void
expect(const char* sql, Rs* want, bool ordered)
{
	static Rs got;
	cases++;
	const char* reply = e_run(sql);
	mc_check(! e_failed, "error", "%s\n    %s\n    reply: %.300s\n    expected: %s", config_text, sql, reply, s_text(want));
	mc_check(p_reply(reply, &got), "reply", "%s\n    %s\n    reply: %.300s", config_text, sql, reply);
	if (! ordered) { s_sort(&got); s_sort(want); }
	bool same = got.n == want->n;
	for (int i = 0; same && i < got.n; i++) same = ! r_cmp(&got.r[i], &want->r[i]);
	mc_check(same, "result", "%s\n    %s\n    result:   %s\n    expected: %s", config_text, sql, s_text(&got), s_text(want));
}

static void
must(const char* sql)
{
	const char* reply = e_run(sql);
	mc_check(! e_failed, "setup", "%s\n    %s\n    reply: %.300s", config_text, sql, reply);
}

// ---------------------------------------------------------------- expressions
enum { LIT, COL, OR, AND, NOT, EQ, NE, LT, LE, GT, GE, ADD, SUB, MUL, DIV, MOD, BOR, BXOR, BAND, SHL, SHR, NEG, INV, ISNULL, NOTNULL, IN, NOTIN, BETWEEN, NOTBETWEEN, CASE };
static const char* op_text[] = { 0, 0, "or", "and", 0, "=", "<>", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "|", "^", "&", "<<", ">>" };
static const int op_level[] = { 99, 99, 1, 2, 11, 3, 3, 4, 4, 4, 4, 9, 9, 10, 10, 10, 5, 6, 7, 8, 8 };
typedef struct E E;
struct E { int op, tab, col; V v; E *a, *b, *c; };
static E  arena[64];
static int arena_n;
static const char* cols[] = { "id", "k", "b" };
static const char* tabs[] = { "", "x.", "y.", "z." };

static E* e_new(int op, E* a, E* b) { E* e = &arena[arena_n++]; mc_check(arena_n < 64, "harness", "arena"); *e = (E){ .op = op, .a = a, .b = b }; return e; }
static E* e_lit(int64_t v) { E* e = e_new(LIT, 0, 0); e->v = v_int(v); return e; }
static E* e_null(void) { E* e = e_new(LIT, 0, 0); e->v = v_null(); return e; }
static E* e_col(int tab, int col) { E* e = e_new(COL, 0, 0); e->tab = tab; e->col = col; return e; }

static int
e_print(char* p, E* e, int level, bool right)
{
	char* s = p;
	switch (e->op) {
	case LIT: return e->v.type == NUL ? sprintf(p, "null") : e->v.type == BOOL ? sprintf(p, e->v.v ? "true" : "false") : sprintf(p, "%lld", (long long)e->v.v);
	case COL: return sprintf(p, "%s%s", tabs[e->tab], cols[e->col]);
	case NOT: p += sprintf(p, "not ("); p += e_print(p, e->a, 0, false); p += sprintf(p, ")"); return p - s;
	case NEG: p += sprintf(p, "-("); p += e_print(p, e->a, 0, false); p += sprintf(p, ")"); return p - s;
	case INV: p += sprintf(p, "~"); p += e_print(p, e->a, 99, false); return p - s;
	case ISNULL: p += e_print(p, e->a, 99, false); return p + sprintf(p, " is null") - s;
	case NOTNULL: p += e_print(p, e->a, 99, false); return p + sprintf(p, " is not null") - s;
	case IN: case NOTIN:
		p += e_print(p, e->a, 99, false);
		p += sprintf(p, e->op == IN ? " in (" : " not in (");
		p += e_print(p, e->b, 0, false);
		if (e->c) { p += sprintf(p, ", "); p += e_print(p, e->c, 0, false); }
		return p + sprintf(p, ")") - s;
	case BETWEEN: case NOTBETWEEN:
		p += e_print(p, e->a, 99, false);
		p += sprintf(p, e->op == BETWEEN ? " between " : " not between ");
		p += e_print(p, e->b, 99, false);
		p += sprintf(p, " and ");
		p += e_print(p, e->c, 99, false);
		return p - s;
	case CASE:
		p += sprintf(p, "case when ");
		p += e_print(p, e->a, 0, false);
		p += sprintf(p, " then ");
		p += e_print(p, e->b, 0, false);
		if (e->c) { p += sprintf(p, " else "); p += e_print(p, e->c, 0, false); }
		return p + sprintf(p, " end") - s;
	}
	int  own = op_level[e->op];
	bool paren = own < level || (own == level && right);
	if (paren) *p++ = '(';
	p += e_print(p, e->a, own, false);
	p += sprintf(p, " %s ", op_text[e->op]);
	p += e_print(p, e->b, own, true);
	if (paren) *p++ = ')';
	*p = 0;
	return p - s;
}

static const char*
e_text(E* e)
{
	static char buf[4][512];
	static int  at;
	char* b = buf[at = (at + 1) % 4];
	e_print(b, e, 0, false);
	return b;
}

// row[tab] are the current rows
static V
e_eval(E* e, R** row)
{
	if (e->op == LIT) return e->v;
	if (e->op == COL) return row[e->tab]->c[e->col];
	if (e->op == CASE) {
		V c = e_eval(e->a, row);
		if (c.type == ERR) return c;
		if (v_true(c)) return e_eval(e->b, row);
		return e->c ? e_eval(e->c, row) : v_null();
	}
	V a = e_eval(e->a, row);
	if (a.type == ERR) return a;
	V b = e->b ? e_eval(e->b, row) : v_null();
	if (b.type == ERR) return b;
	V c = e->c ? e_eval(e->c, row) : v_null();
	if (c.type == ERR) return c;
	switch (e->op) {
	case NOT: return a.type == NUL ? a : v_bool(! a.v);
	case ISNULL: return v_bool(a.type == NUL);
	case NOTNULL: return v_bool(a.type != NUL);
	case NEG: return a.type == NUL ? a : v_int(-a.v);
	case INV: return a.type == NUL ? a : v_int(~a.v);
	// (as tests/expr/logic: null only if both are, or for AND any is)
	case OR: return a.type == NUL && b.type == NUL ? a : v_bool(v_true(a) || v_true(b));
	case IN: case NOTIN: {
		if (a.type == NUL) return a;
		bool in = (b.type != NUL && a.v == b.v) || (e->c && c.type != NUL && a.v == c.v);
		return v_bool(in == (e->op == IN));
	}
	case BETWEEN: case NOTBETWEEN:
		if (a.type == NUL || b.type == NUL || c.type == NUL) return v_null();
		return v_bool((a.v >= b.v && a.v <= c.v) == (e->op == BETWEEN));
	}
	if (a.type == NUL || b.type == NUL) return v_null();
	switch (e->op) {
	case AND: return v_bool(a.v && b.v);
	case EQ: return v_bool(a.v == b.v);
	case NE: return v_bool(a.v != b.v);
	case LT: return v_bool(a.v < b.v);
	case LE: return v_bool(a.v <= b.v);
	case GT: return v_bool(a.v > b.v);
	case GE: return v_bool(a.v >= b.v);
	case ADD: return v_int(a.v + b.v);
	case SUB: return v_int(a.v - b.v);
	case MUL: return v_int(a.v * b.v);
	case DIV: return b.v ? v_int(a.v / b.v) : (V){ ERR };
	case MOD: return b.v ? v_int(a.v % b.v) : (V){ ERR };
	case BOR: return v_int(a.v | b.v);
	case BXOR: return v_int(a.v ^ b.v);
	case BAND: return v_int(a.v & b.v);
	case SHL: return v_int(a.v << b.v);
	case SHR: return v_int(a.v >> b.v);
	}
	abort();
}

// ---------------------------------------------------------------- tables
static Rs t; // id, k, b

static const int data_rows[][6][3] = { // -9 is null
	{ {1, 1, -9}, {2, 1, 2}, {3, 2, 2}, {4, 3, 1}, {5, 3, -9} },
	{ {2, 2, 2} },
	{ {0} },
	{ {-1, 0, 3}, {2, -2, 0}, {3, 2, -9}, {7, 2, 3}, {8, 2, 1}, {9, 9, 2} },
};
static const int data_count[] = { 5, 1, 0, 6 };
static const char* primaries[] = { "id int primary key, k int not null", "id int primary key using hash, k int not null",
	"id int not null, k int not null", "id int not null, k int not null" };
static const char* primaries_tail[] = { "", "", ", primary key (k, id)", ", primary key (k, id) using hash" };
static const char* indexes[] = { NULL, "create index i on t (k)", "create index i on t (k, id)", "create index i on t (k) using hash", "create index i on t (id, k) using hash", "create unique index i on t (k, id)" };

static void
t_fill(void)
{
	char q[512];
	if (! t.n) return;
	int p = sprintf(q, "insert into t values ");
	for (int i = 0; i < t.n; i++) {
		p += sprintf(q + p, "%s(%d, %d, ", i ? ", " : "", (int)t.r[i].c[0].v, (int)t.r[i].c[1].v);
		p += t.r[i].c[2].type == NUL ? sprintf(q + p, "null)") : sprintf(q + p, "%d)", (int)t.r[i].c[2].v);
	}
	must(q);
}

static void
t_data(int data)
{
	t.n = 0;
	for (int i = 0; i < data_count[data]; i++) {
		R* r = s_add(&t);
		r->n = 3;
		for (int j = 0; j < 3; j++) {
			int v = data_rows[data][i][j];
			r->c[j] = v == -9 ? v_null() : v_int(v);
		}
	}
}

static void
t_create(int primary, int index, int parts, int data)
{
	char q[256];
	e_fresh();
	snprintf(q, sizeof(q), "create table t (%s, b int%s) partitions %d", primaries[primary], primaries_tail[primary], parts);
	snprintf(config_text, sizeof(config_text), "%s; %s", q, indexes[index] ? indexes[index] : "");
	must(q);
	if (indexes[index]) must(indexes[index]);
	t_data(data);
	t_fill();
}

static void
t_check(const char* after)
{
	static Rs want;
	want = t;
	char was[512];
	strcpy(was, config_text);
	snprintf(config_text + strlen(config_text), sizeof(config_text) - strlen(config_text), " after: %.200s", after);
	expect("select * from t", &want, false);
	strcpy(config_text, was);
	cases--;
}

// layouts: each primary key with each index and one or three partitions
static void
t_layout(bool few)
{
	int primary = mc_choose(4);
	int index = few ? (int)mc_choose(2) * 2 : (int)mc_choose(6);
	int parts = index == 5 ? 1 : mc_choose(2) ? 3 : 1;
	int data = mc_choose(4);
	if (! mc_split()) return;
	t_create(primary, index, parts, data);
}

static void t_done(void) { mc_nontrivial(); mc_cases(cases); cases = 0; e_close(); }

// ---------------------------------------------------------------- where
// conditions on keys and other columns
enum { ATOMS = 38 };
static E*
atom(int i, int tab)
{
	static const int ops[] = { EQ, LT, LE, GT, GE, NE };
	if (i < 18) return e_new(ops[i % 6], e_col(tab, 1), e_lit(i / 6 + 1));
	i -= 18;
	if (i < 10) return e_new(ops[i % 5], e_col(tab, 0), e_lit(i / 5 * 2 + 1));
	i -= 10;
	switch (i) {
	case 0: return e_new(EQ, e_col(tab, 2), e_lit(2));
	case 1: return e_new(GE, e_lit(2), e_col(tab, 2));
	case 2: return e_new(ISNULL, e_col(tab, 2), 0);
	case 3: return e_new(GT, e_lit(3), e_col(tab, 1));
	case 4: { E* e = e_new(IN, e_col(tab, 0), e_lit(2)); e->c = e_lit(3); return e; }
	case 5: { E* e = e_new(BETWEEN, e_col(tab, 1), e_lit(1)); e->c = e_lit(2); return e; }
	case 6: { E* e = e_new(NOTBETWEEN, e_col(tab, 0), e_lit(2)); e->c = e_lit(4); return e; }
	case 7: return e_new(EQ, e_col(tab, 0), e_col(tab, 1));
	case 8: return e_new(LE, e_col(tab, 0), e_new(ADD, e_col(tab, 2), e_lit(1)));
	case 9: return e_new(EQ, e_col(tab, 1), e_new(SUB, e_lit(3), e_lit(1)));
	}
	abort();
}

static void
sc_where(void)
{
	t_layout(false);
	if (! e_db) return;
	static Rs want;
	char q[512];
	for (int i = 0; i < ATOMS; i++)
		for (int j = -1; j < ATOMS; j++)
			for (int how = 0; how < (j < 0 ? 2 : mc_q(3, 4)); how++) {
				arena_n = 0;
				E* a = atom(i, 0);
				E* e = j < 0 ? (how ? e_new(NOT, a, 0) : a)
				     : how == 0 ? e_new(AND, a, atom(j, 0)) : how == 1 ? e_new(OR, a, atom(j, 0)) : how == 2 ? e_new(AND, a, e_new(NOT, atom(j, 0), 0)) : e_new(NOT, e_new(OR, a, atom(j, 0)), 0);
				if (how == 1 && j >= 0 && j < i) continue;
				want.n = 0;
				for (int r = 0; r < t.n; r++) { R* row[] = { &t.r[r] }; if (v_true(e_eval(e, row))) *s_add(&want) = t.r[r]; }
				snprintf(q, sizeof(q), "select * from t where %s", e_text(e));
				expect(q, &want, false);
			}
	t_done();
}

// three conditions, with prefixes and ranges of the keys
static void
sc_range(void)
{
	t_layout(false);
	if (! e_db) return;
	static Rs want;
	char q[512];
	static const int ks[] = { 0, 1, 2, 3, 4, 7, 9, 8 }; // on k
	for (int i = 0; i < 8; i++)
		for (int j = 18; j < 28; j++)
			for (int l = 0; l < ATOMS; l++)
				for (int order = 0; order < 2; order++) {
					arena_n = 0;
					E *a = atom(ks[i], 0), *b = atom(j, 0), *c = atom(l, 0);
					E* e = order ? e_new(AND, c, e_new(AND, b, a)) : e_new(AND, e_new(AND, a, b), c);
					want.n = 0;
					for (int r = 0; r < t.n; r++) { R* row[] = { &t.r[r] }; if (v_true(e_eval(e, row))) *s_add(&want) = t.r[r]; }
					snprintf(q, sizeof(q), "select * from t where %s", e_text(e));
					expect(q, &want, false);
				}
	t_done();
}

// ---------------------------------------------------------------- order
static int order_key[3];
static bool order_desc[3];
static int order_n;
static int o_cmp(const void* a, const void* b)
{
	const R *x = a, *y = b;
	for (int i = 0; i < order_n; i++) {
		int c = v_cmp(x->c[order_key[i]], y->c[order_key[i]]);
		if (c) return order_desc[i] ? -c : c;
	}
	return 0;
}

static void
sc_order(void)
{
	t_layout(true);
	if (! e_db) return;
	static Rs all, want;
	static const int keys[][3] = { {0}, {1, 0}, {2, 0}, {2, 1, 0}, {1, 2, 0} };
	static const int keys_n[] = { 1, 2, 2, 3, 3 };
	static const int where[] = { -1, 20, 3, 30 };
	char q[512];
	for (int k = 0; k < 5; k++)
		for (int dir = 0; dir < 1 << keys_n[k]; dir++)
			for (int w = 0; w < 4; w++) {
				arena_n = 0;
				E* e = where[w] < 0 ? NULL : atom(where[w], 0);
				all.n = 0;
				for (int r = 0; r < t.n; r++) { R* row[] = { &t.r[r] }; if (! e || v_true(e_eval(e, row))) *s_add(&all) = t.r[r]; }
				order_n = keys_n[k];
				char by[128];
				int p = 0;
				for (int i = 0; i < order_n; i++) {
					order_key[i] = keys[k][i];
					order_desc[i] = dir >> i & 1;
					p += sprintf(by + p, "%s%s%s", i ? ", " : "", cols[keys[k][i]], dir >> i & 1 ? " desc" : i & 1 ? " asc" : "");
				}
				qsort(all.r, all.n, sizeof(R), o_cmp);
				for (int limit = -1; limit < 4; limit++)
					for (int offset = -1; offset < 4; offset++) {
						if (limit == 2 && offset > 1) continue;
						want.n = 0;
						for (int r = offset < 0 ? 0 : offset; r < all.n && (limit < 0 || want.n < limit); r++) *s_add(&want) = all.r[r];
						p = snprintf(q, sizeof(q), "select * from t%s%s order by %s", e ? " where " : "", e ? e_text(e) : "", by);
						if (limit >= 0) p += sprintf(q + p, " limit %d", limit);
						if (offset >= 0) p += sprintf(q + p, " offset %d", offset);
						expect(q, &want, true);
						// through a subquery and a common table
						if (offset >= 0 && limit < 1) continue;
						char s[600];
						snprintf(s, sizeof(s), dir & 1 ? "select * from (%s) z" : "with z as (%s) select * from z", q);
						expect(s, &want, false);
						// without an order the count is known
						if (dir || k) continue;
						p = snprintf(q, sizeof(q), "select id from t%s%s", e ? " where " : "", e ? e_text(e) : "");
						if (limit >= 0) p += sprintf(q + p, " limit %d", limit);
						if (offset >= 0) p += sprintf(q + p, " offset %d", offset);
						static Rs got;
						cases++;
						const char* reply = e_run(q);
						mc_check(! e_failed && p_reply(reply, &got) && got.n == want.n, "limit", "%s\n    %s\n    reply: %.200s\n    %d rows are expected", config_text, q, reply, want.n);
						s_sort(&got);
						for (int i = 0; i < got.n; i++) {
							bool in = false;
							for (int r = 0; r < all.n; r++) in |= v_eq(all.r[r].c[0], got.r[i].c[0]);
							mc_check(in && (! i || r_cmp(&got.r[i - 1], &got.r[i])), "limit", "%s\n    %s\n    reply: %.200s", config_text, q, reply);
						}
					}
			}
	t_done();
}

// ---------------------------------------------------------------- aggregates
enum { COUNT, COUNT_B, SUM_B, MIN_B, MAX_B, AVG_B, DISTINCT_B, SUM_E, AGGS };
static const char* agg_text[] = { "count(*)", "count(b)", "sum(b)", "min(b)", "max(b)", "avg(b)", "count(distinct b)", "sum(id * 2 + k)" };

static V
agg(int a, Rs* s)
{
	int64_t sum = 0, n = 0, min = INT64_MAX, max = INT64_MIN, distinct = 0;
	for (int i = 0; i < s->n; i++) {
		V b = s->r[i].c[2];
		if (a == SUM_E) b = v_int(s->r[i].c[0].v * 2 + s->r[i].c[1].v);
		if (b.type == NUL) continue;
		bool seen = false;
		for (int j = 0; j < i; j++) seen |= v_eq(s->r[j].c[2], b);
		distinct += ! seen;
		sum += b.v;
		n++;
		if (b.v < min) min = b.v;
		if (b.v > max) max = b.v;
	}
	switch (a) {
	case COUNT: return v_int(s->n);
	case COUNT_B: return v_int(n);
	case DISTINCT_B: return v_int(distinct);
	}
	if (! n) return v_null();
	return v_int(a == MIN_B ? min : a == MAX_B ? max : a == AVG_B ? sum / n : sum);
}

static void
sc_group(void)
{
	t_layout(true);
	if (! e_db) return;
	static Rs groups[8], want, keys;
	static const int where[] = { -1, 20, 3, 30, 28, 9 };
	static const char* by_text[] = { "", "k", "b", "b, k", "m" };
	char q[512];
	for (int by = 0; by < 5; by++)
		for (int w = 0; w < 6; w++)
			for (int a1 = 0; a1 < AGGS; a1++)
				for (int a2 = a1; a2 < AGGS; a2++)
					for (int having = 0; having < (by ? 4 : 1); having++) {
						arena_n = 0;
						E* e = where[w] < 0 ? NULL : atom(where[w], 0);
						// groups
						int n = 0;
						keys.n = 0;
						if (! by) { groups[0].n = 0; n = 1; }
						for (int r = 0; r < t.n; r++) {
							R* row[] = { &t.r[r] };
							if (e && ! v_true(e_eval(e, row))) continue;
							R key = { .n = 0 };
							if (by == 1) key.c[key.n++] = t.r[r].c[1];
							if (by == 2 || by == 3) key.c[key.n++] = t.r[r].c[2];
							if (by == 3) key.c[key.n++] = t.r[r].c[1];
							if (by == 4) key.c[key.n++] = v_int(t.r[r].c[0].v % 2);
							int g = 0;
							if (by) {
								for (g = 0; g < n && r_cmp(&keys.r[g], &key); g++);
								if (g == n) { groups[n++].n = 0; *s_add(&keys) = key; }
							}
							*s_add(&groups[g]) = t.r[r];
						}
						want.n = 0;
						for (int g = 0; g < n; g++) {
							V a = agg(a1, &groups[g]);
							if (having == 1 && agg(COUNT, &groups[g]).v < 2) continue;
							if (having == 2 && ! (agg(SUM_B, &groups[g]).type == NUL)) continue;
							if (having == 3 && ! (a.type != NUL && a.v > 1)) continue;
							R* r = s_add(&want);
							if (by) *r = keys.r[g];
							r->c[r->n++] = a;
							r->c[r->n++] = agg(a2, &groups[g]);
						}
						snprintf(q, sizeof(q), "select %s%s%s, %s from t%s%s%s%s%s%s", by == 4 ? "id % 2 as m" : by_text[by], by ? ", " : "", agg_text[a1], agg_text[a2],
						         e ? " where " : "", e ? e_text(e) : "", by ? " group by " : "", by_text[by],
						         having == 0 ? "" : having == 1 ? " having count(*) >= 2" : having == 2 ? " having sum(b) is null" : " having ", having == 3 ? agg_text[a1] : "");
						if (having == 3) strcat(q, " > 1");
						expect(q, &want, false);
					}
	// distinct
	for (int w = 0; w < 6; w++)
		for (int what = 1; what < 4; what++) {
			arena_n = 0;
			E* e = where[w] < 0 ? NULL : atom(where[w], 0);
			want.n = 0;
			for (int r = 0; r < t.n; r++) {
				R* row[] = { &t.r[r] };
				if (e && ! v_true(e_eval(e, row))) continue;
				R key = { .n = 0 };
				if (what != 2) key.c[key.n++] = t.r[r].c[1];
				if (what != 1) key.c[key.n++] = t.r[r].c[2];
				int g;
				for (g = 0; g < want.n && r_cmp(&want.r[g], &key); g++);
				if (g == want.n) *s_add(&want) = key;
			}
			snprintf(q, sizeof(q), "select distinct %s from t%s%s", what == 1 ? "k" : what == 2 ? "b" : "k, b", e ? " where " : "", e ? e_text(e) : "");
			expect(q, &want, false);
			s_sort(&want);
			char o[600];
			snprintf(o, sizeof(o), "select * from (%s) z order by %s", q, what == 1 ? "k" : what == 2 ? "b" : "k, b");
			expect(o, &want, true);
		}
	t_done();
}

// ---------------------------------------------------------------- joins
static Rs u;
static void
sc_join(void)
{
	t_layout(true);
	if (! e_db) return;
	static Rs want;
	char q[600];
	must("create table u (id int primary key, k int not null, b int) partitions 2");
	must("create index j on u (k)");
	must("insert into u values (1, 2, 1), (2, 2, null), (3, 4, 2)");
	u.n = 0;
	static const int rows[3][3] = { {1, 2, 1}, {2, 2, -9}, {3, 4, 2} };
	for (int i = 0; i < 3; i++) {
		R* r = s_add(&u);
		r->n = 3;
		for (int j = 0; j < 3; j++) r->c[j] = rows[i][j] == -9 ? v_null() : v_int(rows[i][j]);
	}
	static const int xs[] = { -1, 0, 9, 20, 18, 28, 30, 32 };
	static const int ys[] = { -1, 6, 8, 18, 23, 30 };
	for (int on = 0; on < 9; on++)
		for (int x = 0; x < 8; x++)
			for (int y = 0; y < 6; y++)
				for (int form = 0; form < 3; form++) {
					arena_n = 0;
					static const int on_op[] = { EQ, EQ, EQ, EQ, LT, GE, NE };
					E* o;
					if (on < 4) o = e_new(EQ, e_col(1, on < 2 ? 0 : 1), e_col(2, on & 1));
					else if (on == 4) o = e_new(LT, e_col(2, 0), e_col(1, 1));
					else if (on == 5) o = e_new(EQ, e_col(2, 2), e_col(1, 2));
					else if (on == 6) o = e_new(AND, e_new(EQ, e_col(2, 0), e_col(1, 0)), e_new(EQ, e_col(1, 1), e_col(2, 1)));
					else if (on == 7) o = e_new(EQ, e_col(2, 1), e_new(ADD, e_col(1, 1), e_lit(1)));
					else o = e_new(GE, e_col(1, 0), e_col(2, 0));
					(void)on_op;
					E* w = o;
					E* c = NULL;
					if (xs[x] >= 0) c = atom(xs[x], 1);
					if (ys[y] >= 0) c = c ? e_new(AND, c, atom(ys[y], 2)) : atom(ys[y], 2);
					if (c) w = e_new(AND, o, c);
					want.n = 0;
					for (int i = 0; i < t.n; i++)
						for (int j = 0; j < u.n; j++) {
							R* row[] = { NULL, &t.r[i], &u.r[j] };
							if (! v_true(e_eval(w, row))) continue;
							R* r = s_add(&want);
							r->n = 3;
							r->c[0] = t.r[i].c[0];
							r->c[1] = u.r[j].c[0];
							r->c[2] = t.r[i].c[2];
						}
					if (form == 0) snprintf(q, sizeof(q), "select x.id, y.id, x.b from t x join u y on %s%s%s", e_text(o), c ? " where " : "", c ? e_text(c) : "");
					else if (form == 1) snprintf(q, sizeof(q), "select x.id, y.id, x.b from u y, t x where %s", e_text(w));
					else snprintf(q, sizeof(q), "with y as (select * from u) select x.id, y.id, x.b from t x join y on %s order by x.id, y.id", e_text(w));
					if (form == 2) {
						order_n = 2; order_key[0] = 0; order_key[1] = 1; order_desc[0] = order_desc[1] = false;
						qsort(want.r, want.n, sizeof(R), o_cmp);
					}
					expect(q, &want, form == 2);
					if (form || on > 5) continue;
					// subqueries
					want.n = 0;
					for (int i = 0; i < t.n; i++) {
						int64_t n = 0, sum = 0;
						bool    any = false;
						for (int j = 0; j < u.n; j++) {
							R* row[] = { NULL, &t.r[i], &u.r[j] };
							if (! v_true(e_eval(w, row))) continue;
							any = true;
							n++;
							sum += u.r[j].c[0].v;
						}
						if (x & 1) { if (! any) continue; }
						R* r = s_add(&want);
						r->n = 1;
						r->c[0] = t.r[i].c[0];
						if (! (x & 1)) { r->c[r->n++] = v_int(n); r->c[r->n++] = n ? v_int(sum) : v_null(); }
					}
					if (x & 1) snprintf(q, sizeof(q), "select id from t x where exists (select 1 from u y where %s)", e_text(w));
					else snprintf(q, sizeof(q), "select id, (select count(*) from u y where %s), (select sum(id) from u y where %s) from t x", e_text(w), e_text(w));
					expect(q, &want, false);
				}
	// sets of values of subqueries
	for (int not = 0; not < 2; not++)
		for (int col = 0; col < 2; col++)
			for (int y = 0; y < 6; y++) {
				arena_n = 0;
				E* c = ys[y] >= 0 ? atom(ys[y], 0) : NULL;
				want.n = 0;
				for (int i = 0; i < t.n; i++) {
					bool in = false;
					for (int j = 0; j < u.n; j++) {
						R* row[] = { &u.r[j] };
						if (! c || v_true(e_eval(c, row))) in |= v_eq(u.r[j].c[col], t.r[i].c[1]);
					}
					if (in == ! not) *s_add(&want) = t.r[i];
				}
				snprintf(q, sizeof(q), "select * from t where k %s (select %s from u%s%s)", not ? "not in" : "in", cols[col], c ? " where " : "", c ? e_text(c) : "");
				expect(q, &want, false);
			}
	t_done();
}

// ---------------------------------------------------------------- expressions
static void
sc_expr(void)
{
	int first = mc_choose(19);
	if (! mc_split()) return;
	e_fresh();
	strcpy(config_text, "");
	static const int ops[] = { OR, AND, EQ, NE, LT, LE, GT, GE, ADD, SUB, MUL, DIV, MOD, BOR, BXOR, BAND, SHL, SHR, CASE };
	static const int lits[][3] = { {3, 2, 1}, {1, 0, 2}, {7, 3, 3}, {-5, 2, 0}, {0, 1, 63}, {-9, 1, 2}, {4, -9, 2}, {6, 2, -9} };
	static Rs want;
	char q[512];
	bool is_bool[] = { 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
	for (int second = 0; second < 19; second++)
		for (int shape = 0; shape < 2; shape++)
			for (int l = 0; l < 8; l++)
				for (int un = 0; un < 5; un++) {
					arena_n = 0;
					E* x[3];
					for (int i = 0; i < 3; i++) x[i] = lits[l][i] == -9 ? e_null() : e_lit(lits[l][i]);
					// booleans are not operands of arithmetic, nor are integers of a comparison with them
					int in = shape ? second : first, out = shape ? first : second;
					if (is_bool[in] && out > 1 && out != 18) continue;
					if (un == 1) x[1] = e_new(NEG, x[1], 0);
					if (un == 2) x[1] = e_new(INV, x[1], 0);
					if ((un == 1 || un == 2) && lits[l][1] == -9) continue;
					if (un == 3) x[2] = e_new(ISNULL, x[2], 0);
					if (un == 3 && (second > 1 || first == 18)) continue;
					E* e;
					if (first == 18 || second == 18) {
						if (first != 18) { E* cmp = e_new(ops[first], x[0], x[1]); e = e_new(CASE, cmp, x[1]); e->c = shape ? x[2] : NULL; }
						else if (second != 18) { E* c = e_new(CASE, e_new(EQ, x[0], e_lit(3)), x[1]); c->c = x[2]; e = e_new(ops[second], c, e_lit(2)); }
						else continue;
					} else if (shape == 0) e = e_new(ops[second], e_new(ops[first], x[0], x[1]), x[2]);
					else e = e_new(ops[first], x[0], e_new(ops[second], x[1], x[2]));
					if (un == 4) { if (! is_bool[out] || out == 18 || first == 18) continue; e = e_new(NOT, e, 0); }
					V v = e_eval(e, NULL);
					// shifts by negative counts are not defined
					bool bad = false;
					// nor is the truth of negative numbers
					for (int i = 0; i < arena_n; i++)
						if (arena[i].op == OR || arena[i].op == AND || arena[i].op == NOT || arena[i].op == CASE) {
							V b = arena[i].b ? e_eval(arena[i].b, NULL) : v_null(), a = e_eval(arena[i].a, NULL);
							bad |= (a.type == INT && a.v < 0) || (b.type == INT && b.v < 0);
						}
					for (int i = 0; i < arena_n; i++)
						if (arena[i].op == SHL || arena[i].op == SHR) { V b = e_eval(arena[i].b, NULL), a = e_eval(arena[i].a, NULL); bad |= b.type == ERR || a.type == ERR || b.v < 0 || b.v > 60 || (a.v < 0 && arena[i].op == SHL); }
					if (bad) continue;
					// a condition may be skipped before its error
					if (v.type == ERR) {
						if (first < 2 || second < 2 || first == 18 || second == 18) continue;
						snprintf(q, sizeof(q), "select %s", e_text(e));
						expect_error(q);
						continue;
					}
					want.n = 0;
					R* r = s_add(&want);
					r->n = 1;
					r->c[0] = v;
					snprintf(q, sizeof(q), "select %s", e_text(e));
					expect(q, &want, true);
				}
	t_done();
}

// ---------------------------------------------------------------- changes
// histories of statements which change the table
enum { D_INS1, D_INS2, D_INS3, D_NOTHING, D_UPSERT, D_UPSERT_WHERE, D_INC, D_DIV, D_NULL, D_DEL1, D_DELK, D_DEL, D_SELECT, D_BLOCK, D_BLOCK_ABORT, D_LOOP, D_RAISE, D_TRUNCATE, D_RESTART, D_STEPS };
static const char* d_text[] = {
	"insert into t values (1, 1, null) returning *",
	"insert into t values (2, 1, 5), (6, 2, 1) returning id",
	"insert into t values (6, 2, 0), (8, 4, 0), (2, 1, 3)",
	"insert into t values (2, 1, 8), (7, 6, null) on conflict do nothing returning *",
	"insert into t values (1, 1, 1), (2, 1, 2), (1, 1, 3) on conflict do update set b = excluded.b + 1 returning id, b",
	"insert into t values (1, 1, 4), (6, 2, 6), (6, 2, 1) on conflict do update set b = b + excluded.b where b < 6 returning id, b",
	"update t set b = b + 1 where k = 1 returning id, b",
	"update t set b = 10 / (id - 2) returning *",
	"update t set b = null where id >= 2 and k < 5",
	"delete from t where id = 1 returning *",
	"delete from t where k >= 2 returning id, k",
	"delete from t",
	"insert into t select id + 10, k + 10, b from t where id < 3 returning *",
	"begin; insert into t values (3, 7, 3); update t set b = b * 2 where id >= 3; delete from t where b = 6; end",
	"begin; delete from t where id = 1; update t set b = 77; insert into t values (9, 9, 9); insert into t values (2, 1, 0); end",
	"begin; declare i int := 0; while i < 3 do insert into t select i + 20, i + 20, i on conflict do update set b = b + 1; i := i + 1; end; end",
	"begin; insert into t values (30, 30, 1); delete from t where k = 1; update t set b = b / (id - 30); end",
	"truncate t",
};
static int  d_primary;
static bool d_unique;

static bool d_same(R* a, R* b) { return a->c[0].v == b->c[0].v && (d_primary < 2 || a->c[1].v == b->c[1].v); }
static V    d_add(V a, int64_t v) { return a.type == NUL ? a : v_int(a.v + v); }

// the row which conflicts on the primary key, or an error
static R*
d_insert(int id, int k, V b, bool* error, bool* is_new)
{
	R r = { .n = 3, .c = { v_int(id), v_int(k), b } };
	for (int i = 0; i < t.n; i++) if (d_same(&t.r[i], &r)) { *is_new = false; return &t.r[i]; }
	if (d_unique) for (int i = 0; i < t.n; i++) if (t.r[i].c[1].v == k) { *error = true; return NULL; }
	*is_new = true;
	R* at = s_add(&t);
	*at = r;
	return at;
}

static void d_out(Rs* out, int n, V a, V b, V c) { R* r = s_add(out); r->n = n; r->c[0] = a; r->c[1] = b; r->c[2] = c; }
static void d_outr(Rs* out, R* r) { *s_add(out) = *r; }

static void
d_delete(int i)
{
	memmove(&t.r[i], &t.r[i + 1], sizeof(R) * (t.n - i - 1));
	t.n--;
}

// true if the statement fails
static bool
d_model(int step, Rs* out)
{
	bool error = false, is_new;
	R*   r;
	switch (step) {
	case D_INS1:
		r = d_insert(1, 1, v_null(), &error, &is_new);
		if (error || ! is_new) return true;
		d_outr(out, r);
		return false;
	case D_INS2: {
		static const int v[2][3] = { {2, 1, 5}, {6, 2, 1} };
		for (int i = 0; i < 2; i++) {
			r = d_insert(v[i][0], v[i][1], v_int(v[i][2]), &error, &is_new);
			if (error || ! is_new) return true;
			d_out(out, 1, r->c[0], v_null(), v_null());
		}
		return false;
	}
	case D_INS3: {
		static const int v[3][3] = { {6, 2, 0}, {8, 4, 0}, {2, 1, 3} };
		for (int i = 0; i < 3; i++) {
			r = d_insert(v[i][0], v[i][1], v_int(v[i][2]), &error, &is_new);
			if (error || ! is_new) return true;
		}
		return false;
	}
	case D_NOTHING:
		for (int i = 0; i < 2; i++) {
			r = d_insert(i ? 7 : 2, i ? 6 : 1, i ? v_null() : v_int(8), &error, &is_new);
			if (error) return true;
			d_outr(out, r);
		}
		return false;
	case D_UPSERT: {
		static const int v[3][3] = { {1, 1, 1}, {2, 1, 2}, {1, 1, 3} };
		for (int i = 0; i < 3; i++) {
			r = d_insert(v[i][0], v[i][1], v_int(v[i][2]), &error, &is_new);
			if (error) return true;
			if (! is_new) r->c[2] = v_int(v[i][2] + 1);
			d_out(out, 2, r->c[0], r->c[2], v_null());
		}
		return false;
	}
	case D_UPSERT_WHERE: {
		static const int v[3][3] = { {1, 1, 4}, {6, 2, 6}, {6, 2, 1} };
		for (int i = 0; i < 3; i++) {
			r = d_insert(v[i][0], v[i][1], v_int(v[i][2]), &error, &is_new);
			if (error) return true;
			// (the row of a conflict is returned, updated or not)
			if (! is_new && r->c[2].type != NUL && r->c[2].v < 6) r->c[2] = d_add(r->c[2], v[i][2]);
			d_out(out, 2, r->c[0], r->c[2], v_null());
		}
		return false;
	}
	case D_INC:
		for (int i = 0; i < t.n; i++) if (t.r[i].c[1].v == 1) {
			t.r[i].c[2] = d_add(t.r[i].c[2], 1);
			d_out(out, 2, t.r[i].c[0], t.r[i].c[2], v_null());
		}
		return false;
	case D_DIV:
		for (int i = 0; i < t.n; i++) {
			int64_t div = t.r[i].c[0].v - 2;
			if (! div) return true;
			t.r[i].c[2] = v_int(10 / div);
			d_outr(out, &t.r[i]);
		}
		return false;
	case D_NULL:
		for (int i = 0; i < t.n; i++) if (t.r[i].c[0].v >= 2 && t.r[i].c[1].v < 5) t.r[i].c[2] = v_null();
		return false;
	case D_DEL1:
		for (int i = t.n - 1; i >= 0; i--) if (t.r[i].c[0].v == 1) { d_outr(out, &t.r[i]); d_delete(i); }
		return false;
	case D_DELK:
		for (int i = t.n - 1; i >= 0; i--) if (t.r[i].c[1].v >= 2) { d_out(out, 2, t.r[i].c[0], t.r[i].c[1], v_null()); d_delete(i); }
		return false;
	case D_DEL:
	case D_TRUNCATE:
		t.n = 0;
		return false;
	case D_SELECT: {
		static Rs from;
		from = t;
		for (int i = 0; i < from.n; i++) {
			if (from.r[i].c[0].v >= 3) continue;
			r = d_insert(from.r[i].c[0].v + 10, from.r[i].c[1].v + 10, from.r[i].c[2], &error, &is_new);
			if (error || ! is_new) return true;
			d_outr(out, r);
		}
		return false;
	}
	case D_BLOCK:
		d_insert(3, 7, v_int(3), &error, &is_new);
		if (error || ! is_new) return true;
		for (int i = 0; i < t.n; i++) if (t.r[i].c[0].v >= 3 && t.r[i].c[2].type != NUL) t.r[i].c[2].v *= 2;
		for (int i = t.n - 1; i >= 0; i--) if (t.r[i].c[2].type != NUL && t.r[i].c[2].v == 6) d_delete(i);
		return false;
	case D_BLOCK_ABORT:
		for (int i = t.n - 1; i >= 0; i--) if (t.r[i].c[0].v == 1) d_delete(i);
		for (int i = 0; i < t.n; i++) t.r[i].c[2] = v_int(77);
		d_insert(9, 9, v_int(9), &error, &is_new);
		if (error || ! is_new) return true;
		d_insert(2, 1, v_int(0), &error, &is_new);
		return error || ! is_new;
	case D_LOOP:
		for (int i = 0; i < 3; i++) {
			r = d_insert(i + 20, i + 20, v_int(i), &error, &is_new);
			if (error) return true;
			if (! is_new) r->c[2] = d_add(r->c[2], 1);
		}
		return false;
	case D_RAISE: // (always)
		return true;
	}
	abort();
}

static void
d_verify(const char* how, const char* history)
{
	static Rs want;
	cases++;
	want = t;
	static Rs got;
	const char* reply = e_run(how);
	mc_check(! e_failed && p_reply(reply, &got), "table", "%s\n    %s\n    %s: %.300s", config_text, history, how, reply);
	s_sort(&got);
	s_sort(&want);
	bool same = got.n == want.n;
	for (int i = 0; same && i < got.n; i++) same = ! r_cmp(&got.r[i], &want.r[i]);
	mc_check(same, "table", "%s\n    %s\n    %s: %s\n    expected: %s", config_text, history, how, s_text(&got), s_text(&want));
}

static const char* d_indexes[] = { NULL, "create index i on t (k)", "create index i on t (k, id) using hash", "create unique index i on t (k)", "create unique index i on t (k) using hash" };

static void
d_run(int* steps, int n, const char* create, const char* index)
{
	static Rs was, out;
	char history[1500];
	int  at = 0;
	must(create);
	if (index) must(index);
	t.n = 0;
	for (int i = 0; i < n; i++) {
		if (steps[i] == D_RESTART) {
			at += sprintf(history + at, "restart; ");
			e_close();
			e_open(false);
			continue;
		}
		at += snprintf(history + at, sizeof(history) - at, "%s; ", d_text[steps[i]]);
		was = t;
		out.n = 0;
		bool fails = d_model(steps[i], &out);
		if (fails) t = was;
		const char* reply = e_run(d_text[steps[i]]);
		mc_check(e_failed == fails, fails ? "accepted" : "error", "%s\n    %s\n    reply: %.300s\n    table: %s", config_text, history, reply, s_text(&was));
		cases++;
		if (fails) continue;
		static Rs got;
		mc_check(p_reply(reply, &got), "reply", "%s\n    %s\n    reply: %.300s", config_text, history, reply);
		s_sort(&got);
		s_sort(&out);
		bool same = got.n == out.n;
		for (int j = 0; same && j < got.n; j++) same = ! r_cmp(&got.r[j], &out.r[j]);
		mc_check(same, "returning", "%s\n    %s\n    reply: %s\n    expected: %s", config_text, history, s_text(&got), s_text(&out));
	}
	d_verify("select * from t", history);
	if (index) d_verify("select * from t use index (i)", history);
	must("drop table t");
}

static void
sc_dml(void)
{
	d_primary = mc_choose(4);
	int index = mc_choose(5);
	d_unique = index >= 3;
	int parts = d_unique ? 1 : mc_choose(2) ? 3 : 1;
	int first = mc_choose(D_STEPS);
	if (! mc_split()) return;
	e_fresh();
	char create[256];
	snprintf(create, sizeof(create), "create table t (%s, b int%s) partitions %d", primaries[d_primary], primaries_tail[d_primary], parts);
	snprintf(config_text, sizeof(config_text), "%s; %s", create, d_indexes[index] ? d_indexes[index] : "");
	bool deep = (d_primary == 0 && index == 1 && parts == 3) || (d_primary == 3 && index == 2 && parts == 3) || (d_primary == 0 && index == 3);
	int depth = deep ? 3 : mc_q(2, 3);
	int steps[4] = { first };
	for (int n = 1; n <= depth; n++) {
		int total = 1;
		for (int i = 1; i < n; i++) total *= D_STEPS;
		for (int h = 0; h < total; h++) {
			int v = h;
			for (int i = 1; i < n; i++) { steps[i] = v % D_STEPS; v /= D_STEPS; }
			d_run(steps, n, create, d_indexes[index]);
		}
	}
	t_done();
}

// ---------------------------------------------------------------- types
// keys of each type; rows are told by their order
typedef struct { const char* type; const char* v[6]; } T;
static const T types[] = {
	{ "int",       { "-2147483648", "-1", "0", "7", "65536", "2147483647" } },
	{ "i32",       { "-2147483648", "-1", "0", "7", "8", "2147483647" } },
	{ "i16",       { "-32768", "-1", "0", "7", "255", "32767" } },
	{ "i8",        { "-128", "-1", "0", "7", "8", "127" } },
	{ "i64",       { "-9000000000", "-1", "0", "7", "4294967296", "9000000000000" } },
	{ "double",    { "-1.5", "-0.25", "0.0", "0.5", "2.0", "1000000.5" } },
	{ "float",     { "-1.5", "-0.25", "0.0", "0.5", "2.0", "1024.5" } },
	{ "text",      { "''", "'B'", "'a'", "'aa'", "'ab'", "'b'" } },
	{ "timestamp", { "timestamp '1970-01-02 00:00:00'", "timestamp '1999-12-31 23:59:59'", "timestamp '2000-01-01 00:00:00'", "timestamp '2000-01-01 00:00:00.000001'", "timestamp '2024-02-29 10:00:00'", "timestamp '2100-01-01 00:00:00'" } },
	{ "date",      { "date '1960-01-01'", "date '1999-12-31'", "date '2000-01-01'", "date '2000-02-29'", "date '2024-02-29'", "date '2100-01-01'" } },
	{ "uuid",      { "uuid '00000000-0000-0000-0000-000000000000'", "uuid '00000000-0000-0000-0000-000000000001'", "uuid '00000000-0000-0000-0000-0000ffffffff'", "uuid '00000001-0000-0000-0000-000000000000'", "uuid '80000000-0000-0000-0000-000000000000'", "uuid 'ffffffff-ffff-ffff-ffff-ffffffffffff'" } },
};
enum { TYPES = sizeof(types) / sizeof(*types) };
static const int type_rows[][2] = { {1, 3}, {2, 1}, {3, 3}, {4, 0}, {5, 5}, {6, 2} }; // id, k
enum { TYPE_ROWS = 6 };
static const char* type_ops[] = { "=", "<", "<=", ">", ">=", "<>" };

static bool
t_op(int op, int a, int b)
{
	switch (op) {
	case 0: return a == b;
	case 1: return a < b;
	case 2: return a <= b;
	case 3: return a > b;
	case 4: return a >= b;
	}
	return a != b;
}

// any of the values, as a condition on k; true for the ordinal
static bool
t_cond(const T* type, int c, int k, char* text)
{
	if (c < 36) {
		if (text) sprintf(text, "k %s %s", type_ops[c / 6], type->v[c % 6]);
		return t_op(c / 6, k, c % 6);
	}
	c -= 36;
	if (c < 6) {
		if (text) sprintf(text, "%s %s k", type->v[c], type_ops[3]);
		return c > k;
	}
	c -= 6;
	if (c < 4) {
		if (text) sprintf(text, "k %sbetween %s and %s", c & 1 ? "not " : "", type->v[c], type->v[c + 2]);
		return (k >= c && k <= c + 2) == ! (c & 1);
	}
	c -= 4;
	if (text) sprintf(text, "k %sin (%s, %s)", c & 1 ? "not " : "", type->v[1], type->v[3]);
	return (k == 1 || k == 3) == ! (c & 1);
}
enum { TYPE_CONDS = 48 };

static void
sc_types(void)
{
	const T* type = &types[mc_choose(TYPES)];
	bool     key = ! strcmp(type->type, "int") || type->type[0] == 't' || ! strcmp(type->type, "i32") || ! strcmp(type->type, "i64") || ! strcmp(type->type, "uuid");
	int      layout = key ? mc_choose(6) : 0; // only these can be keys
	int      parts = mc_choose(2) ? 3 : 1;
	if (! mc_split()) return;
	e_fresh();
	static Rs want;
	char q[900], a[200], b[200];
	static const char* create[] = { "id int primary key, k %s not null", "id int primary key, k %s not null", "id int primary key using hash, k %s not null",
		"id int not null, k %s not null, primary key (k, id)", "id int not null, k %s not null, primary key (k, id) using hash", "id int not null, k %s not null, primary key (id, k)" };
	static const char* index[] = { "", "create index i on t (k)", "create index i on t (k) using hash", "", "", "create index i on t (k, id)" };
	int p = sprintf(q, "create table t (");
	p += sprintf(q + p, create[layout], type->type);
	sprintf(q + p, ") partitions %d", parts);
	snprintf(config_text, sizeof(config_text), "%s; %s", q, index[layout]);
	must(q);
	if (*index[layout]) must(index[layout]);
	p = sprintf(q, "insert into t values ");
	for (int i = 0; i < TYPE_ROWS; i++) p += sprintf(q + p, "%s(%d, %s)", i ? ", " : "", type_rows[i][0], type->v[type_rows[i][1]]);
	must(q);
	for (int reopen = 0; reopen < 2; reopen++) {
		if (reopen) { e_close(); e_open(false); }
		for (int i = 0; i < TYPE_CONDS; i++)
			for (int j = i; j < (reopen ? i + 1 : TYPE_CONDS); j++)
				for (int how = 0; how < (i == j ? 1 : 2); how++) {
					t_cond(type, i, 0, a);
					t_cond(type, j, 0, b);
					want.n = 0;
					for (int r = 0; r < TYPE_ROWS; r++) {
						int  k = type_rows[r][1];
						bool x = t_cond(type, i, k, NULL), y = t_cond(type, j, k, NULL);
						if (how ? x || y : x && y) { R* w = s_add(&want); w->n = 1; w->c[0] = v_int(type_rows[r][0]); }
					}
					snprintf(q, sizeof(q), "select id from t where %s %s %s", a, i == j ? "and" : how ? "or" : "and", i == j ? "id >= -5" : b);
					expect(q, &want, false);
				}
		// order, groups and the values themselves
		for (int desc = 0; desc < 2; desc++) {
			static Rs all;
			all.n = 0;
			for (int r = 0; r < TYPE_ROWS; r++) { R* w = s_add(&all); w->n = 2; w->c[0] = v_int(type_rows[r][0]); w->c[1] = v_int(type_rows[r][1]); }
			order_n = 2; order_key[0] = 1; order_key[1] = 0; order_desc[0] = desc; order_desc[1] = false;
			qsort(all.r, all.n, sizeof(R), o_cmp);
			want.n = 0;
			for (int r = 0; r < TYPE_ROWS; r++) { R* w = s_add(&want); w->n = 1; w->c[0] = all.r[r].c[0]; }
			snprintf(q, sizeof(q), "select id from t order by k%s, id", desc ? " desc" : "");
			expect(q, &want, true);
		}
		for (int v = 0; v < 6; v++) {
			int64_t n = 0;
			for (int r = 0; r < TYPE_ROWS; r++) n += type_rows[r][1] == v;
			want.n = 0;
			R* w = s_add(&want); w->n = 1; w->c[0] = v_int(n);
			snprintf(q, sizeof(q), "select count(*) from t where k = %s", type->v[v]);
			expect(q, &want, true);
			snprintf(q, sizeof(q), "select sum(n) from (select k, count(*) as n from t group by k having k = %s) z", type->v[v]);
			if (! n) want.r[0].c[0] = v_null();
			expect(q, &want, true);
		}
		want.n = 0;
		for (int r = 0; r < TYPE_ROWS; r++)
			for (int y = 0; y < TYPE_ROWS; y++)
				if (type_rows[r][1] == type_rows[y][1]) { R* w = s_add(&want); w->n = 2; w->c[0] = v_int(type_rows[r][0]); w->c[1] = v_int(type_rows[y][0]); }
		expect("select x.id, y.id from t x join t y on x.k = y.k", &want, false);
		want.n = 0;
		R* w = s_add(&want); w->n = 1; w->c[0] = v_int(5);
		expect("select count(distinct k) from t", &want, true);
	}
	t_done();
}

McScenario mc_scenarios[] = {
	{ "where", sc_where },
	{ "range", sc_range },
	{ "order", sc_order },
	{ "group", sc_group },
	{ "join", sc_join },
	{ "expr", sc_expr },
	{ "dml", sc_dml },
	{ "types", sc_types },
	{ NULL, NULL }
};
