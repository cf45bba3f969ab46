// C40: columns with defaults, generated and resolved values, and changes of the
// columns of a table with rows: every sequence of the changes below against a
// table kept by hand, and the rows after the next start.
#include "engine.h"

enum { COLS = 8, ROWS = 12, NIL = -1000 };

// factor * id + add, if factor; id is never changed
typedef struct { char name; int def; int factor, add; bool resolved, not_null; int uid; } C;
typedef struct { bool used; int cell[32]; } R;
typedef struct { C cols[COLS]; int count, uids; R rows[ROWS]; } T;

static T        t_;
static bool     indexed;
static void     r_index(void);
static uint64_t cases;
static char     log_[2048];

static int
t_find(T* t, char name)
{
	for (int i = 0; i < t->count; i++) if (t->cols[i].name == name) return i;
	return -1;
}

static int* t_cell(T* t, int id, int col) { return &t->rows[id].cell[t->cols[col].uid]; }

static bool
t_add(T* t, char name, int def, int factor, int add, bool not_null)
{
	if (t_find(t, name) != -1 || t->count == COLS || t->uids == 32) return false;
	t->cols[t->count++] = (C){ name, def, factor, add, false, not_null, t->uids++ };
	// existing rows have no value
	for (int id = 0; id < ROWS; id++) t->rows[id].cell[t->uids - 1] = NIL;
	return true;
}

static bool
t_insert(T* t, int id, const int* values, bool* resolve)
{
	R row = { .used = true };
	for (int i = 0; i < 32; i++) row.cell[i] = NIL;
	for (int i = 0; i < t->count; i++) {
		C* c = &t->cols[i];
		int v = values[i];
		if (c->factor && ! c->resolved) v = c->factor * id + c->add;
		if (v == NIL && c->not_null) return false;
		row.cell[c->uid] = v;
	}
	if (t->rows[id].used) {
		if (! resolve) return false;
		*resolve = true;
		return true;
	}
	t->rows[id] = row;
	return true;
}

static void
t_text(T* t, char* s)
{
	int at = sprintf(s, "[");
	for (int id = 0; id < ROWS; id++) {
		if (! t->rows[id].used) continue;
		at += sprintf(s + at, "%s[", at > 1 ? ", " : "");
		for (int i = 0; i < t->count; i++) {
			int v = *t_cell(t, id, i);
			at += sprintf(s + at, i ? ", " : "");
			at += v == NIL ? sprintf(s + at, "null") : sprintf(s + at, "%d", v);
		}
		at += sprintf(s + at, "]");
	}
	sprintf(s + at, "]");
}

static void
r_check(const char* what)
{
	char want[4096];
	t_text(&t_, want);
	const char* reply = e_run("select * from t order by id");
	mc_check(! e_failed && ! strcmp(reply, want), "rows", "%s\n    %s\n    table:    %.500s\n    expected: %.500s", log_, what, reply, want);
}

static void
r_run(const char* sql, bool expect)
{
	size_t n = strlen(log_);
	snprintf(log_ + n, sizeof(log_) - n, "    %s%s;", n ? "\n" : "", sql);
	cases++;
	char copy[400];
	snprintf(copy, sizeof(copy), "%s", e_run(sql));
	mc_check(e_failed == ! expect, expect ? "error" : "accepted", "%s\n    reply: %s", log_, copy);
	if (! expect) mc_nontrivial();
}

enum { INSERT_ALL, INSERT_SOME, INSERT_NULL, UPSERT_DO, INSERT_AGAIN, ADD_D, ADD_E, ADD_B, DROP_B, DROP_D, DROP_A, RENAME_B, SET_DEFAULT, UNSET_DEFAULT, SET_STORED,
       UNSET_STORED, SET_RESOLVED, UNSET_RESOLVED, UPDATE_B, UPDATE_D, REMOVE, START, OPS };

static void
r_values(int id, int* values, int op)
{
	for (int i = 0; i < t_.count; i++) values[i] = op == INSERT_ALL ? 10 * id + i : NIL;
	values[0] = id;
	if (op == INSERT_ALL) return;
	for (int i = 1; i < t_.count; i++) if (op != INSERT_NULL) values[i] = t_.cols[i].def;
	int a = t_find(&t_, 'a');
	if (a != -1) values[a] = 1;
}

static void
r_op(int op, int step)
{
	char sql[300];
	int values[COLS], a = t_find(&t_, 'a'), b = t_find(&t_, 'b'), c = t_find(&t_, 'c'), d = t_find(&t_, 'd');
	T was = t_;
	bool ok = true;
	switch (op) {
	case INSERT_ALL: {
		int id = 3 + step, at = sprintf(sql, "insert into t values (");
		r_values(id, values, op);
		for (int i = 0; i < t_.count; i++) at += sprintf(sql + at, "%s%d", i ? ", " : "", values[i]);
		sprintf(sql + at, ")");
		ok = t_insert(&t_, id, values, NULL);
		break;
	}
	case INSERT_NULL: {
		int id = 3 + step, at = sprintf(sql, "insert into t values (%d", id);
		r_values(id, values, op);
		for (int i = 1; i < t_.count; i++) at += values[i] == NIL ? sprintf(sql + at, ", null") : sprintf(sql + at, ", %d", values[i]);
		sprintf(sql + at, ")");
		ok = t_insert(&t_, id, values, NULL);
		break;
	}
	case INSERT_SOME:
	case INSERT_AGAIN: {
		int id = op == INSERT_SOME ? 3 + step : 1;
		sprintf(sql, a != -1 ? "insert into t (id, a) values (%d, 1)" : "insert into t (id) values (%d)", id);
		r_values(id, values, op);
		bool again = false, resolves = false;
		for (int i = 0; i < t_.count; i++) resolves |= t_.cols[i].resolved;
		ok = t_insert(&t_, id, values, resolves ? &again : NULL);
		// a duplicate changes the resolved columns only
		if (ok && again)
			for (int i = 0; i < t_.count; i++)
				if (t_.cols[i].resolved) *t_cell(&t_, id, i) = t_.cols[i].factor * id + t_.cols[i].add;
		break;
	}
	case UPSERT_DO: {
		sprintf(sql, a != -1 ? "insert into t (id, a) values (1, 1) on conflict do update set a = a + 20" : "insert into t (id, a) values (1, 1) on conflict do update set a = a + 20");
		ok = a != -1 && ! indexed;
		if (! ok) break;
		r_values(1, values, op);
		bool again = false;
		ok = t_insert(&t_, 1, values, &again);
		if (again) *t_cell(&t_, 1, a) += 20;
		break;
	}
	case ADD_D: sprintf(sql, "alter table t add column d int default 9"); ok = t_add(&t_, 'd', 9, 0, 0, false); break;
	case ADD_E: sprintf(sql, "alter table t add column e int as (id + 1) stored"); ok = t_add(&t_, 'e', NIL, 1, 1, false); break;
	case ADD_B: sprintf(sql, "alter table t add column b int"); ok = t_add(&t_, 'b', NIL, 0, 0, false); break;
	case DROP_B: case DROP_D: case DROP_A: {
		int col = op == DROP_B ? b : op == DROP_D ? d : a;
		sprintf(sql, "alter table t drop column %c", op == DROP_B ? 'b' : op == DROP_D ? 'd' : 'a');
		if ((ok = col != -1)) {
			memmove(&t_.cols[col], &t_.cols[col + 1], sizeof(C) * (t_.count - col - 1));
			t_.count--;
		}
		break;
	}
	case RENAME_B:
		sprintf(sql, "alter table t rename column b to d");
		if ((ok = b != -1 && d == -1)) t_.cols[b].name = 'd';
		break;
	case SET_DEFAULT:    sprintf(sql, "alter table t set column b default 100"); if ((ok = b != -1)) t_.cols[b].def = 100; break;
	case UNSET_DEFAULT:  sprintf(sql, "alter table t unset column b default"); if ((ok = b != -1)) t_.cols[b].def = NIL; break;
	case SET_STORED:     sprintf(sql, "alter table t set column c as (id * 3) stored"); if ((ok = c != -1)) { t_.cols[c].factor = 3; t_.cols[c].add = 0; t_.cols[c].resolved = false; } break;
	case UNSET_STORED:   sprintf(sql, "alter table t unset column c as stored"); if ((ok = c != -1)) { t_.cols[c].factor = 0; } break;
	case SET_RESOLVED:   sprintf(sql, "alter table t set column b as (id * 5) resolved"); if ((ok = b != -1)) { t_.cols[b].factor = 5; t_.cols[b].add = 0; t_.cols[b].resolved = true; } break;
	case UNSET_RESOLVED: sprintf(sql, "alter table t unset column b as resolved"); if ((ok = b != -1)) { t_.cols[b].factor = 0; t_.cols[b].resolved = false; } break;
	case UPDATE_B: case UPDATE_D: {
		int col = op == UPDATE_B ? b : d;
		sprintf(sql, "update t set %c = 50 where id <= 1", op == UPDATE_B ? 'b' : 'd');
		if ((ok = col != -1)) for (int id = 0; id <= 1; id++) if (t_.rows[id].used) *t_cell(&t_, id, col) = 50;
		break;
	}
	case REMOVE: sprintf(sql, "delete from t where id = 1"); t_.rows[1].used = false; break;
	case START:
		strcat(log_, "\n    restart;");
		e_close();
		e_open(false);
		r_check("after a restart");
		return;
	}
	if (op == DROP_A && indexed) ok = false;
	if (! ok) t_ = was;
	r_run(sql, ok);
	r_check("");
	if (indexed) r_index();
}

// through the secondary index
static void
r_index(void)
{
	int a = t_find(&t_, 'a');
	for (int v = 1; v <= 28; v++) {
		if (v > 8 && v != 21 && v != 25 && v != 28) continue;
		char sql[100], want[100];
		int n = 0;
		for (int id = 0; id < ROWS; id++) n += t_.rows[id].used && *t_cell(&t_, id, a) == v;
		sprintf(sql, "select count(*) from t where a = %d", v);
		sprintf(want, "[%d]", n);
		const char* reply = e_run(sql);
		mc_check(! e_failed && ! strcmp(reply, want), "index", "%s\n    %s\n    result:   %.100s\n    expected: %s", log_, sql, reply, want);
	}
}

static const char* layouts[] = {
	"create table t (id int primary key, a int not null, b int default 7, c int as (id * 2) stored)",
	"create table t (id int primary key using hash, a int not null, b int default 7, c int as (id * 2) stored) partitions 2",
	"create table t (id int primary key, a int not null, b int default 7, c int as (id * 2) stored) partitions 3",
};

static void
r_sequence(int layout, const int* ops, int n)
{
	e_fresh();
	log_[0] = 0;
	memset(&t_, 0, sizeof(t_));
	t_add(&t_, 'i', NIL, 0, 0, true);
	t_add(&t_, 'a', NIL, 0, 0, true);
	t_add(&t_, 'b', 7, 0, 0, false);
	t_add(&t_, 'c', NIL, 2, 0, false);
	r_run(layouts[layout], true);
	int row[] = { 1, 5, 6, 7 };
	t_insert(&t_, 1, row, NULL);
	r_run("insert into t values (1, 5, 6, 7)", true);
	int more[] = { 2, 8, 7, 0 };
	t_insert(&t_, 2, more, NULL);
	r_run("insert into t (id, a) values (2, 8)", true);
	indexed = layout == 2;
	if (indexed) r_run("create index x on t (a)", true);
	for (int i = 0; i < n; i++) r_op(ops[i], i);
	e_close();
	e_open(false);
	r_check("after the last restart");
	if (indexed) r_index();
	e_close();
}

static void
s_alter(void)
{
	int depth = mc_q(3, 4), layout = mc_choose(3), first = mc_choose(OPS), second = mc_choose(OPS);
	if (! mc_split()) return;
	cases = 0;
	int ops[4] = { first, second }, total = depth == 3 ? OPS : OPS * OPS;
	for (int i = 0; i < total; i++) {
		ops[2] = i % OPS;
		ops[3] = i / OPS;
		r_sequence(layout, ops, depth);
	}
	mc_cases(cases);
	mc_step(cases);
}

McScenario mc_scenarios[] = {
	{ "alter", s_alter },
	{ NULL, NULL }
};
