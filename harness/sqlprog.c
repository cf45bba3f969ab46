// C40: blocks with variables, loops and conditions, whose changes are executed
// by the backends while the block goes on. Every program of the grammar below
// is executed and its result, and the table afterwards, compared with what
// running it by hand gives. A block that fails changes nothing.
#include "engine.h"

// ---------------------------------------------------------------- programs
typedef struct P P;
struct P { int kind; int cond; const P* a[2]; int n; const P* b; };
enum { ADD, DOUBLE, PUT, PUT_SELECT, DEL, COUNT, PUT_IGNORE, UPDATE,
       UPSERT, READ, TAKE, BUMP, INVOKE, BREAK, CONTINUE, RETURN, SIMPLE, IF, WHILE, FOR };
static const char* texts[] = {
	"n := n + 1;", "n := n * 2;", "insert into t values (n, c);", "insert into t select id + 10, v from t where id = n;",
	"delete from t where id = n;", "select count(*) into c from t;", "insert into t values (n, 7) on conflict do nothing;",
	"update t set v = v + 1 where id <= n;", "insert into t values (n, c) on conflict do update set v = v + 10;",
	"select v into c from t where id = n;", "delete from t where id = n returning v into c;",
	"update t set v = v + 2 where id = n returning v into c;", "select f(n) into n;",
	"break;", "continue;", "return n;"
};
static const char* conds[] = { "n < 3", "c > 0", "n % 2 = 0" };

static int
p_text(char* s, const P* p)
{
	if (p->kind < SIMPLE) return sprintf(s, "%s ", texts[p->kind]);
	int at = p->kind == FOR ? sprintf(s, "for a in (select id as k, v as w from t order by id) do c := c + a.w; ") : sprintf(s, p->kind == IF ? "if %s then " : "while %s do ", conds[p->cond]);
	for (int i = 0; i < p->n; i++) at += p_text(s + at, p->a[i]);
	if (p->b) {
		at += sprintf(s + at, "else ");
		at += p_text(s + at, p->b);
	}
	return at + sprintf(s + at, "end; ");
}

// ---------------------------------------------------------------- by hand
// (changes are sent to the backends without waiting for them: a program goes on
// after a duplicate until it needs a result; one that then never ends is not run)
enum { IDS = 64 };
typedef struct { int64_t n, c; bool has[IDS]; int64_t v[IDS]; int steps; bool failed, endless; } S;
enum { GO, LEAVE, NEXT, FAILED, RETURNED };

static bool
s_cond(S* s, int cond)
{
	return cond == 0 ? s->n < 3 : cond == 1 ? s->c > 0 : s->n % 2 == 0;
}

static int
s_run(S* s, const P* p)
{
	if (s->steps++ > 60 || s->n > 40 || s->c > 1000000) { s->endless = true; return FAILED; }
	switch (p->kind) {
	case ADD:    s->n++; return GO;
	case DOUBLE: s->n *= 2; return GO;
	case PUT:
		if (s->has[s->n]) { s->failed = true; return GO; }
		s->has[s->n] = true;
		s->v[s->n] = s->c;
		return GO;
	case PUT_SELECT:
		if (! s->has[s->n]) return GO;
		if (s->n + 10 >= IDS) { s->endless = true; return FAILED; }
		if (s->has[s->n + 10]) { s->failed = true; return GO; }
		s->has[s->n + 10] = true;
		s->v[s->n + 10] = s->v[s->n];
		return GO;
	case DEL:   s->has[s->n] = false; return GO;
	case COUNT: s->c = 0; for (int i = 0; i < IDS; i++) s->c += s->has[i]; return GO;
	case PUT_IGNORE:
		if (! s->has[s->n]) { s->has[s->n] = true; s->v[s->n] = 7; }
		return GO;
	case UPDATE: for (int i = 0; i <= s->n && i < IDS; i++) if (s->has[i]) s->v[i]++; return GO;
	case UPSERT:
		if (s->has[s->n]) s->v[s->n] += 10;
		else { s->has[s->n] = true; s->v[s->n] = s->c; }
		return GO;
	case READ:
	case TAKE:
	case BUMP:
		if (! s->has[s->n]) { s->endless = true; return FAILED; } // null
		if (p->kind == BUMP) s->v[s->n] += 2;
		if (p->kind == TAKE) s->has[s->n] = false;
		s->c = s->v[s->n];
		return GO;
	case INVOKE:
		s->n++;
		if (! s->has[s->n]) { s->has[s->n] = true; s->v[s->n] = 9; }
		return GO;
	case RETURN:   return RETURNED;
	case BREAK:    return LEAVE;
	case CONTINUE: return NEXT;
	case IF:
		if (s_cond(s, p->cond)) {
			for (int i = 0; i < p->n; i++) { int rc = s_run(s, p->a[i]); if (rc) return rc; }
			return GO;
		}
		return p->b ? s_run(s, p->b) : GO;
	case WHILE:
		while (s_cond(s, p->cond)) {
			if (s->steps++ > 60) { s->endless = true; return FAILED; }
			for (int i = 0; i < p->n; i++) {
				int rc = s_run(s, p->a[i]);
				if (rc >= FAILED) return rc;
				if (rc == LEAVE) return GO;
				if (rc == NEXT) break;
			}
		}
		return GO;
	case FOR: {
		// the rows are read before the first step
		S rows = *s;
		for (int id = 0; id < IDS; id++) {
			if (! rows.has[id]) continue;
			s->c += rows.v[id];
			for (int i = 0; i < p->n; i++) {
				int rc = s_run(s, p->a[i]);
				if (rc >= FAILED) return rc;
				if (rc == LEAVE) return GO;
				if (rc == NEXT) break;
			}
		}
		return GO;
	}
	}
	return GO;
}

static bool function; // the program is the body of a function

// break and continue are inside of a loop, return is inside of a function
static bool
p_valid(const P* p, bool loop)
{
	static int rows; // functions can't be called there
	if (p->kind == INVOKE) return ! rows;
	if (p->kind == RETURN) return function;
	if (p->kind == BREAK || p->kind == CONTINUE) return loop;
	if (p->kind < SIMPLE) return true;
	loop |= p->kind >= WHILE;
	rows += p->kind == FOR;
	bool valid = ! p->b || p_valid(p->b, loop);
	for (int i = 0; i < p->n; i++) valid &= p_valid(p->a[i], loop);
	rows -= p->kind == FOR;
	return valid;
}

// ---------------------------------------------------------------- runs
static const char* layouts[] = {
	"create table t (id int primary key, v int not null)",
	"create table t (id int primary key, v int not null) partitions 3",
	"create table t (id int primary key using hash, v int not null) partitions 3",
};
static S        start_;
static uint64_t cases, failing;
static const char* layout_;

static void
r_must(const char* sql)
{
	const char* reply = e_run(sql);
	mc_check(! e_failed, "setup", "%s: %.200s", sql, reply);
}

static void
r_table(S* s, const char* sql)
{
	char want[1024];
	int at = sprintf(want, "[");
	for (int i = 0; i < IDS; i++)
		if (s->has[i]) at += sprintf(want + at, "%s[%d, %lld]", at > 1 ? ", " : "", i, (long long)s->v[i]);
	sprintf(want + at, "]");
	const char* reply = e_run("select id, v from t order by id");
	mc_check(! e_failed && ! strcmp(reply, want), "table", "%s\n    %s\n    table:    %.300s\n    expected: %s", layout_, sql, reply, want);
}

static S now_;

static void r_begin(int);
static void r_end(void);
static int  run_count, run_layout;

static void
r_run(const P** list, int n)
{
	for (int i = 0; i < n; i++) if (! p_valid(list[i], false)) return;
	S s = start_;
	for (int i = 0; i < n && ! s.endless; i++) if (s_run(&s, list[i]) == RETURNED) break;
	if (s.endless) return;
	static char sql[4096];
	int at = sprintf(sql, function ? "create function g(n int, c int) return int begin " : "begin declare n int := 1; declare c int := 0; ");
	for (int i = 0; i < n; i++) at += p_text(sql + at, list[i]);
	sprintf(sql + at, function ? "return n; end" : "select n, c; end");
	// (the disk in memory keeps every write of a file)
	if (++run_count == (function ? 24 : 60)) {
		r_end();
		r_begin(run_layout);
	}
	cases++;
	failing += s.failed;
	if (function) r_must(sql);
	const char* reply = e_run(! function ? sql : cases % 2 ? "select g(1, 0)" : "execute g(1, 0)");
	if (function) {
		char copy[2000];
		snprintf(copy, sizeof(copy), "%s", reply);
		bool error = e_failed;
		r_must("drop function g");
		e_failed = error;
		static char text[2000];
		reply = strcpy(text, copy);
	}
	if (s.failed) {
		mc_check(e_failed, "accepted", "%s\n    %s\n    reply: %.200s\n    a duplicate is expected", layout_, sql, reply);
		mc_nontrivial();
		r_table(&start_, sql);
		return;
	}
	char want[100];
	if (function) sprintf(want, "[%lld]", (long long)s.n);
	else sprintf(want, "[[%lld, %lld]]", (long long)s.n, (long long)s.c);
	mc_check(! e_failed, "error", "%s\n    %s\n    reply: %.300s\n    expected: %s", layout_, sql, reply, want);
	mc_check(! strcmp(reply, want), "result", "%s\n    %s\n    result:   %.200s\n    expected: %s", layout_, sql, reply, want);
	r_table(&s, sql);
	// back to the start
	bool changed = false;
	for (int i = 0; i < IDS; i++) changed |= s.has[i] != start_.has[i] || (s.has[i] && s.v[i] != start_.v[i]);
	if (! changed) return;
	r_must("delete from t");
	r_must("insert into t values (0, 5), (2, 6)");
}

static P simple[SIMPLE];
static P inner[20000];
static int inner_count;

static void
g_inner(bool full)
{
	for (int i = 0; i < SIMPLE; i++) simple[i] = (P){ .kind = i };
	inner_count = 0;
	for (int kind = IF; kind <= FOR; kind++)
		for (int cond = 0; cond < (kind == FOR ? 1 : full ? 3 : 2); cond++)
			for (int i = 0; i < SIMPLE; i++)
				for (int j = -1; j < SIMPLE; j++)
					for (int e = -1; e < (kind == IF ? (full ? SIMPLE : 1) : 0); e++) {
						mc_check(inner_count < 20000, "harness", "too many");
						if (j == i && i > DOUBLE && i != PUT) continue;
						if (i >= BREAK && j >= 0) continue; // never reached
						inner[inner_count++] = (P){ .kind = kind, .cond = cond, .a = { &simple[i], j >= 0 ? &simple[j] : NULL }, .n = j >= 0 ? 2 : 1, .b = e >= 0 ? &simple[e] : NULL };
					}
}

static void
r_begin(int layout)
{
	layout_ = layouts[layout];
	run_layout = layout;
	run_count = 0;
	e_fresh();
	r_must(layout_);
	memset(&start_, 0, sizeof(start_));
	start_.n = 1;
	start_.has[0] = start_.has[2] = true;
	start_.v[0] = 5;
	start_.v[2] = 6;
	r_must("insert into t values (0, 5), (2, 6)");
	r_must("create function f(n int) return int begin n := n + 1; insert into t values (n, 9) on conflict do nothing; return n; end");
	cases = failing = 0;
}

static void
r_end(void)
{
	// the next start finds the same
	e_close();
	e_open(false);
	r_table(&start_, "restart");
	e_close();
	mc_cases(cases);
	mc_step(cases);
	if (failing) mc_nontrivial();
}

// two statements of any kind, one of them a loop or a condition
static void
s_two(void)
{
	function = mc_choose(2);
	int layout = mc_choose(3), order = mc_choose(2), first = mc_choose(SIMPLE);
	if (! mc_split()) return;
	g_inner(mc_q(0, 1));
	r_begin(layout);
	for (int i = 0; i < inner_count; i++) {
		const P* list[] = { order ? &inner[i] : &simple[first], order ? &simple[first] : &inner[i] };
		r_run(list, 2);
	}
	r_end();
}

// nested blocks
static void
s_nested(void)
{
	int layout = mc_choose(3), kind = mc_choose(3), cond = mc_choose(2), form = mc_choose(2 * SIMPLE + 1);
	function = layout == 1;
	if ((kind == 2 && cond) || layout == mc_q(0, -1)) return;
	if (! mc_split()) return;
	g_inner(mc_q(0, 1));
	r_begin(layout);
	for (int i = 0; i < inner_count; i++) {
		P p = { .kind = IF + kind, .cond = cond };
		if (form == 0) { p.a[0] = &inner[i]; p.n = 1; }
		else if (form <= SIMPLE) { p.a[0] = &simple[form - 1]; p.a[1] = &inner[i]; p.n = 2; }
		else { p.a[0] = &inner[i]; p.a[1] = &simple[form - 1 - SIMPLE]; p.n = 2; }
		const P* list[] = { &p };
		r_run(list, 1);
		if (mc_q(0, 1)) {
			const P* more[] = { &simple[COUNT], &p };
			r_run(more, 2);
		}
	}
	r_end();
}

// only plain statements
static void
s_plain(void)
{
	int layout = mc_choose(3), first = mc_choose(BREAK), second = mc_choose(BREAK);
	if (! mc_split()) return;
	g_inner(false);
	r_begin(layout);
	for (int i = 0; i < BREAK; i++)
		for (int j = 0; j < BREAK; j++) {
			const P* list[] = { &simple[first], &simple[second], &simple[i], &simple[j] };
			r_run(list, 4);
		}
	r_end();
}

McScenario mc_scenarios[] = {
	{ "plain", s_plain },
	{ "two", s_two },
	{ "nested", s_nested },
	{ NULL, NULL }
};
