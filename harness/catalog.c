// C14: schema operations against a reference schema, with rollback.
// C07 (-DC07): the catalog file: read back, crash at every system call.
#include "rowkit.h"
#include "crashfs.h"
#include <ctype.h>

// ------------------------------------------------------------ reference model
enum { N = 10 };
typedef struct { char name[16]; bool sys; } MStorage;
typedef struct { char name[16]; bool sys; } MDb;
typedef struct { char name[16]; int type, size, ident; bool dropped, not_null; char def[16], stored[16], resolved[16]; } MCol;
typedef struct { char name[16]; int type; bool unique, primary; int nkeys, keys[4]; } MIdx;
typedef struct { char storage[16]; int id; bool pause; int nobj; } MVol;
typedef struct { char name[16]; int region; int nvol; MVol vol[4]; } MTier;
typedef struct {
	char db[16], name[16];
	int  id, seq, parts;
	bool unlogged;
	int  ncol; MCol col[N];
	int  nidx; MIdx idx[N];
	int  ntier; MTier tier[4];
	int  nvol; MVol vol[4];
} MTable;
typedef struct { char db[16], name[16], text[16]; int type; } MUdf;
typedef struct {
	int ns, nd, nt, nu;
	MStorage s[N]; MDb d[N]; MTable t[N]; MUdf u[N];
} Model;

static Model m;

// outcome of an operation
enum { OK, NOOP, ERR };

static MStorage* ms(Model* m, const char* n) { for (int i = 0; i < m->ns; i++) if (!strcmp(m->s[i].name, n)) return &m->s[i]; return NULL; }
static MDb* md(Model* m, const char* n) { for (int i = 0; i < m->nd; i++) if (!strcmp(m->d[i].name, n)) return &m->d[i]; return NULL; }
static MTable* mt(Model* m, const char* d, const char* n) { for (int i = 0; i < m->nt; i++) if (!strcmp(m->t[i].name, n) && !strcmp(m->t[i].db, d)) return &m->t[i]; return NULL; }
static MUdf* mu(Model* m, const char* d, const char* n) { for (int i = 0; i < m->nu; i++) if (!strcmp(m->u[i].name, n) && !strcmp(m->u[i].db, d)) return &m->u[i]; return NULL; }
static MCol* mcol(MTable* t, const char* n) { for (int i = 0; i < t->ncol; i++) if (!t->col[i].dropped && !strcmp(t->col[i].name, n)) return &t->col[i]; return NULL; }
static MIdx* midx(MTable* t, const char* n) { for (int i = 0; i < t->nidx; i++) if (!strcmp(t->idx[i].name, n)) return &t->idx[i]; return NULL; }
static MTier* mtier(MTable* t, const char* n) { for (int i = 0; i < t->ntier; i++) if (!strcmp(t->tier[i].name, n)) return &t->tier[i]; return NULL; }
static MVol* mvol(MTier* t, const char* n) { for (int i = 0; i < t->nvol; i++) if (!strcmp(t->vol[i].storage, n)) return &t->vol[i]; return NULL; }
static int mrefs(Model* m, const char* n)
{
	int c = 0;
	for (int i = 0; i < m->nt; i++) {
		MTable* t = &m->t[i];
		for (int v = 0; v < t->nvol; v++) c += !strcmp(t->vol[v].storage, n);
		for (int r = 0; r < t->ntier; r++)
			for (int v = 0; v < t->tier[r].nvol; v++) c += !strcmp(t->tier[r].vol[v].storage, n);
	}
	return c;
}
static bool mdepends(Model* m, const char* n) { for (int i = 0; i < m->nu; i++) if (!strcmp(m->u[i].text, n)) return true; return false; }
static int mident(MTable* t) { for (int i = 0; i < t->ncol; i++) if (t->col[i].ident) return i; return -1; }
static int mcolrefs(MTable* t, int at)
{
	int c = 0;
	for (int i = 0; i < t->nidx; i++)
		for (int k = 0; k < t->idx[i].nkeys; k++) c += t->idx[i].keys[k] == at;
	return c;
}
#define DEL(arr, n, p) do { int at_ = (int)((p) - (arr)); memmove(&(arr)[at_], &(arr)[at_ + 1], sizeof((arr)[0]) * ((n) - at_ - 1)); (n)--; memset(&(arr)[n], 0, sizeof((arr)[0])); } while (0)

// ------------------------------------------------------------ operations
enum {
	STORAGE_CREATE, STORAGE_DROP, STORAGE_RENAME,
	DB_CREATE, DB_DROP, DB_RENAME,
	TABLE_CREATE, TABLE_DROP, TABLE_RENAME, TABLE_TRUNCATE, TABLE_IDENTITY, TABLE_UNLOGGED,
	COL_ADD, COL_DROP, COL_RENAME, COL_DEFAULT, COL_STORED, COL_RESOLVED,
	IDX_CREATE, IDX_DROP, IDX_RENAME,
	TIER_CREATE, TIER_DROP, TIER_RENAME, VOL_ADD, VOL_DROP, VOL_PAUSE, TIER_SET,
	UDF_CREATE, UDF_REPLACE, UDF_DROP, UDF_RENAME
};
static const char* kinds[] = {
	"storage-create", "storage-drop", "storage-rename", "db-create", "db-drop", "db-rename",
	"table-create", "table-drop", "table-rename", "table-truncate", "table-identity", "table-unlogged",
	"column-add", "column-drop", "column-rename", "column-default", "column-stored", "column-resolved",
	"index-create", "index-drop", "index-rename",
	"tier-create", "tier-drop", "tier-rename", "tier-storage-add", "tier-storage-drop", "tier-storage-pause", "tier-set",
	"function-create", "function-replace", "function-drop", "function-rename"
};
// db, table (or object), a, b: arguments; v: variant
typedef struct { int kind; const char *db, *name, *a, *b; int v; } A;

// effect which is delayed to commit
static bool deferred(int k) { return k == IDX_DROP || k == TIER_DROP || k == VOL_DROP || k == TABLE_TRUNCATE; }

static int next_uid;
static int uid_table, uid_vol[8];  // ids used by the current operation

static const char* vols_of(int v) { return v == 0 ? "main" : v == 1 ? "s1" : v == 2 ? "main,s1" : v == 3 ? "s1,zz" : "s2,s1"; }

static int
vols_add(Model* m, MVol* vol, int* n, int v, int nobj, int first)
{
	char text[64]; strcpy(text, vols_of(v));
	for (char* p = strtok(text, ","); p; p = strtok(NULL, ",")) {
		if (! ms(m, p)) return ERR;
		memset(&vol[*n], 0, sizeof(MVol));
		strcpy(vol[*n].storage, p);
		vol[*n].id = uid_vol[first++];
		vol[*n].nobj = nobj;
		(*n)++;
	}
	return OK;
}

// predicts the outcome and applies the operation to the model
static int
model_apply(Model* m, A* a, bool flags)
{
	int if_ = flags ? NOOP : ERR;
	MTable* t = NULL;
	// sessions use existing databases only
	if ((a->kind == TABLE_CREATE || a->kind == UDF_CREATE) && ! md(m, a->db)) return -1;
	if (a->kind >= TABLE_CREATE && a->kind <= TIER_SET)
		t = mt(m, a->db, a->name);
	// operations which must not break functions
	switch (a->kind) {
	case TABLE_RENAME:
		if (! md(m, a->a)) return ERR;
		// fallthrough
	case TABLE_DROP: case COL_DROP: case COL_RENAME: case IDX_DROP: case IDX_RENAME: case UDF_DROP:
		if (mdepends(m, a->name)) return ERR;
		break;
	case UDF_RENAME:
		if (! md(m, a->a)) return ERR;
		if (mdepends(m, a->name)) return ERR;
	}
	switch (a->kind) {
	case STORAGE_CREATE:
		if (ms(m, a->name)) return if_;
		strcpy(m->s[m->ns++].name, a->name);
		return OK;
	case STORAGE_DROP: {
		MStorage* s = ms(m, a->name);
		if (! s) return if_;
		if (s->sys || mrefs(m, a->name)) return ERR;
		DEL(m->s, m->ns, s);
		return OK;
	}
	case STORAGE_RENAME: {
		MStorage* s = ms(m, a->name);
		if (! s) return if_;
		if (s->sys || mrefs(m, a->name) || ms(m, a->a)) return ERR;
		strcpy(s->name, a->a);
		return OK;
	}
	case DB_CREATE:
		if (md(m, a->name)) return if_;
		strcpy(m->d[m->nd++].name, a->name);
		return OK;
	case DB_DROP: {
		MDb* d = md(m, a->name);
		if (! d) return if_;
		if (d->sys) return ERR;
		for (int i = m->nt - 1; i >= 0; i--) {
			if (strcmp(m->t[i].db, a->name)) continue;
			if (! a->v) return ERR;
			DEL(m->t, m->nt, &m->t[i]);
		}
		for (int i = m->nu - 1; i >= 0; i--) {
			if (strcmp(m->u[i].db, a->name)) continue;
			if (! a->v) return ERR;
			DEL(m->u, m->nu, &m->u[i]);
		}
		DEL(m->d, m->nd, d);
		return OK;
	}
	case DB_RENAME: {
		MDb* d = md(m, a->name);
		if (! d) return if_;
		if (d->sys || md(m, a->a)) return ERR;
		for (int i = 0; i < m->nu; i++)
			if (! strcmp(m->u[i].db, a->name)) return ERR;
		for (int i = 0; i < m->nt; i++)
			if (! strcmp(m->t[i].db, a->name)) strcpy(m->t[i].db, a->a);
		strcpy(d->name, a->a);
		return OK;
	}
	case TABLE_CREATE: {
		if (t) return if_;
		t = &m->t[m->nt];
		memset(t, 0, sizeof(*t));
		strcpy(t->db, a->db);
		strcpy(t->name, a->name);
		t->id = uid_table;
		t->parts = 1 + (a->v == 1);
		if (a->v == 3) t->unlogged = true;
		for (int i = 0; i < 2; i++) {
			MCol* c = &t->col[t->ncol++];
			strcpy(c->name, i ? "a" : "pk");
			c->type = TYPE_INT; c->size = 8;
			c->not_null = ! i;
			if (! i && a->v == 1) c->ident = IDENTITY_SERIAL;
		}
		MIdx* x = &t->idx[t->nidx++];
		strcpy(x->name, "primary");
		x->type = a->v == 1 ? INDEX_HASH : INDEX_TREE;
		x->unique = x->primary = true;
		x->nkeys = 1;
		if (vols_add(m, t->vol, &t->nvol, a->v == 4 ? 3 : a->v == 1 ? 2 : 0, 0, 0)) return ERR;
		if (a->v == 1) {
			MTier* r = &t->tier[t->ntier++];
			strcpy(r->name, "r1");
			r->region = 4096;
			if (vols_add(m, r->vol, &r->nvol, 1, 1, 4)) return ERR;
		}
		m->nt++;
		return OK;
	}
	case TABLE_DROP:
		if (! t) return if_;
		DEL(m->t, m->nt, t);
		return OK;
	case TABLE_RENAME:
		if (! t) return if_;
		if (mt(m, a->a, a->b)) return ERR;
		strcpy(t->db, a->a);
		strcpy(t->name, a->b);
		return OK;
	case TABLE_TRUNCATE:
		if (! t) return if_;
		for (int r = 0; r < t->ntier; r++)
			for (int v = 0; v < t->tier[r].nvol; v++) t->tier[r].vol[v].nobj = 0;
		return OK;
	case TABLE_IDENTITY:
		if (! t) return if_;
		t->seq = a->v;
		return OK;
	case TABLE_UNLOGGED:
		if (! t) return if_;
		t->unlogged = a->v;
		return OK;
	case COL_ADD: {
		if (! t) return if_;
		if (mcol(t, a->a)) return if_;
		if (a->v == 1 && mident(t) >= 0) return ERR;
		MCol* c = &t->col[t->ncol++];
		memset(c, 0, sizeof(*c));
		strcpy(c->name, a->a);
		c->type = a->v == 2 ? TYPE_STRING : TYPE_INT;
		c->size = a->v == 2 ? 0 : 8;
		if (a->v == 1) c->ident = IDENTITY_RANDOM;
		if (a->v == 2) strcpy(c->stored, "pk + 1");
		return OK;
	}
	case COL_DROP: case COL_RENAME: case COL_DEFAULT: case COL_STORED: case COL_RESOLVED: {
		if (! t) return if_;
		MCol* c = mcol(t, a->a);
		if (! c) return if_;
		if (a->kind == COL_DROP) {
			if (mcolrefs(t, (int)(c - t->col))) return ERR;
			c->dropped = true;
			c->not_null = false;
			c->ident = 0;
			c->def[0] = c->stored[0] = c->resolved[0] = 0;
		} else if (a->kind == COL_RENAME) {
			if (mcol(t, a->b)) return ERR;
			strcpy(c->name, a->b);
		} else
			strcpy(a->kind == COL_DEFAULT ? c->def : a->kind == COL_STORED ? c->stored : c->resolved, a->b);
		return OK;
	}
	case IDX_CREATE: {
		if (! t) return ERR;
		if (midx(t, a->a)) return if_;
		MCol* c = mcol(t, a->b);
		if (! c) return -1; // not expressible
		MIdx* x = &t->idx[t->nidx++];
		memset(x, 0, sizeof(*x));
		strcpy(x->name, a->a);
		x->type = a->v ? INDEX_HASH : INDEX_TREE;
		x->unique = a->v;
		x->keys[x->nkeys++] = (int)(c - t->col);
		if (! a->v && c != t->col) x->keys[x->nkeys++] = 0;
		return OK;
	}
	case IDX_DROP: {
		if (! t) return ERR;
		MIdx* x = midx(t, a->a);
		if (! x) return if_;
		if (x->primary) return ERR;
		DEL(t->idx, t->nidx, x);
		return OK;
	}
	case IDX_RENAME: {
		if (! t) return ERR;
		MIdx* x = midx(t, a->a);
		if (! x) return if_;
		if (midx(t, a->b)) return ERR;
		strcpy(x->name, a->b);
		return OK;
	}
	case TIER_CREATE: {
		if (! t) return ERR;
		if (mtier(t, a->a)) return if_;
		MTier* r = &t->tier[t->ntier];
		memset(r, 0, sizeof(*r));
		strcpy(r->name, a->a);
		r->region = 8192;
		if (vols_add(m, r->vol, &r->nvol, a->v, 1, 0)) return ERR;
		t->ntier++;
		return OK;
	}
	case TIER_DROP: case TIER_RENAME: case TIER_SET: {
		if (! t) return ERR;
		MTier* r = mtier(t, a->a);
		if (! r) return if_;
		if (a->kind == TIER_RENAME) {
			if (mtier(t, a->b)) return ERR;
			strcpy(r->name, a->b);
		} else if (a->kind == TIER_SET)
			r->region = a->v;
		else
			DEL(t->tier, t->ntier, r);
		return OK;
	}
	case VOL_ADD: {
		if (! t) return ERR;
		MTier* r = mtier(t, a->a);
		if (! r) return if_;
		if (! ms(m, a->b)) return ERR;
		if (mvol(r, a->b)) return if_;
		MVol* v = &r->vol[r->nvol++];
		memset(v, 0, sizeof(*v));
		strcpy(v->storage, a->b);
		v->id = uid_vol[0];
		return OK;
	}
	case VOL_DROP: case VOL_PAUSE: {
		if (! t) return ERR;
		MTier* r = mtier(t, a->a);
		if (! r) return if_;
		MVol* v = mvol(r, a->b);
		if (! v) return if_;
		if (a->kind == VOL_DROP) {
			if (v->nobj) return ERR;
			DEL(r->vol, r->nvol, v);
			return OK;
		}
		if (v->pause == a->v) return NOOP;
		int active = 0;
		for (int i = 0; i < r->nvol; i++) active += ! r->vol[i].pause;
		if (a->v && active <= 1) return ERR;
		v->pause = a->v;
		return OK;
	}
	case UDF_CREATE: {
		if (mu(m, a->db, a->name)) return ERR;
		if (*a->a == '!') return ERR;
		MUdf* u = &m->u[m->nu++];
		memset(u, 0, sizeof(*u));
		strcpy(u->db, a->db); strcpy(u->name, a->name); strcpy(u->text, a->a);
		u->type = a->v;
		return OK;
	}
	case UDF_REPLACE: {
		if (*a->a == '!') return ERR;
		MUdf* u = mu(m, a->db, a->name);
		if (u && u->type != a->v) return ERR;
		if (! u) {
			u = &m->u[m->nu++];
			memset(u, 0, sizeof(*u));
			strcpy(u->db, a->db); strcpy(u->name, a->name);
			u->type = a->v;
		}
		strcpy(u->text, a->a);
		return OK;
	}
	case UDF_DROP: {
		MUdf* u = mu(m, a->db, a->name);
		if (! u) return if_;
		DEL(m->u, m->nu, u);
		return OK;
	}
	case UDF_RENAME: {
		MUdf* u = mu(m, a->db, a->name);
		if (! u) return if_;
		if (mu(m, a->a, a->b)) return ERR;
		strcpy(u->db, a->a);
		strcpy(u->name, a->b);
		return OK;
	}
	}
	return ERR;
}

// ------------------------------------------------------------ canonical text
typedef struct { char line[64][700]; int n; } Text;

static int cmp_line(const void* a, const void* b) { return strcmp(a, b); }
#define P(...) (p += snprintf(p, (size_t)(end - p), __VA_ARGS__))

// storages of dropped tables are released on commit
static bool no_refs;

static void
model_text(Model* m, Text* o, bool ids)
{
	o->n = 0;
	char *p, *end;
#define LINE() do { mc_check(o->n < 64, "harness", "too many lines"); p = o->line[o->n++]; end = p + 700; memset(p, 0, 700); } while (0)
	for (int i = 0; i < m->ns; i++) { LINE(); P("S %s sys=%d refs=%d", m->s[i].name, m->s[i].sys, no_refs ? 0 : mrefs(m, m->s[i].name)); }
	for (int i = 0; i < m->nd; i++) { LINE(); P("D %s sys=%d", m->d[i].name, m->d[i].sys); }
	for (int i = 0; i < m->nt; i++) {
		MTable* t = &m->t[i];
		LINE();
		P("T %s.%s id=%d unlogged=%d,%d seq=%d parts=%d", t->db, t->name, ids ? t->id : 0, t->unlogged, t->unlogged, t->seq, t->parts);
		for (int v = 0; v < t->nvol; v++) P(" vol:%s:%d:%d", t->vol[v].storage, ids ? t->vol[v].id : 0, t->vol[v].pause);
		int st = 0, re = 0;
		for (int c = 0; c < t->ncol; c++) {
			MCol* x = &t->col[c];
			st += !! x->stored[0]; re += !! x->resolved[0];
			P(" col:%s:%d:%d:drop=%d:nn=%d:id=%d:def=%s:st=%s:re=%s:refs=%d", x->name, x->type, x->size, x->dropped, x->not_null, x->ident, x->def, x->stored, x->resolved, mcolrefs(t, c));
		}
		P(" stored=%d resolved=%d identity=%d", st, re, mident(t));
		for (int c = 0; c < t->nidx; c++) {
			MIdx* x = &t->idx[c];
			P(" idx:%s:%d:%d:%d:keys=", x->name, x->type, x->unique, x->primary);
			for (int k = 0; k < x->nkeys; k++) P("%d,", x->keys[k]);
		}
		for (int c = 0; c < t->ntier; c++) {
			MTier* x = &t->tier[c];
			P(" tier:%s:%d", x->name, x->region);
			for (int v = 0; v < x->nvol; v++) P(" vol:%s:%d:%d:obj=%d", x->vol[v].storage, ids ? x->vol[v].id : 0, x->vol[v].pause, x->vol[v].nobj);
		}
	}
	for (int i = 0; i < m->nu; i++) { LINE(); P("F %s.%s %s type=%d", m->u[i].db, m->u[i].name, m->u[i].text, m->u[i].type); }
	qsort(o->line, o->n, sizeof(o->line[0]), cmp_line);
}

#define S(s) str_size(s), str_of(s)
static Catalog* cat;
static int udf_live;

static void
real_text(Catalog* cat, Text* o)
{
	o->n = 0;
	char *p, *end;
	list_foreach(&cat->storage_mgr.mgr.list) {
		auto s = storage_of(list_at(Relation, link));
		LINE(); P("S %.*s sys=%d refs=%d", S(&s->config->name), s->config->system, no_refs ? 0 : s->refs);
		mc_check(str_compare(s->rel.name, &s->config->name), "stale-name", "storage name differs from its config");
	}
	list_foreach(&cat->db_mgr.mgr.list) {
		auto d = database_of(list_at(Relation, link));
		LINE(); P("D %.*s sys=%d", S(&d->config->name), d->config->system);
	}
	list_foreach(&cat->table_mgr.mgr.list) {
		auto t = table_of(list_at(Relation, link));
		auto c = t->config;
		LINE();
		P("T %.*s.%.*s id=%d unlogged=%d,%d seq=%d parts=%d", S(&c->db), S(&c->name), (int)c->id.b, c->unlogged, t->part_arg.unlogged, (int)sequence_get(&t->seq), t->part_mgr.list_count);
		mc_check(c->part_mgr_config.partitions == t->part_mgr.list_count, "partitions", "partitions count");
		list_foreach(&c->part_mgr_config.volumes.list) {
			auto v = list_at(Volume, link);
			P(" vol:%.*s:%d:%d", S(&v->name), (int)v->id.b, v->pause);
			mc_check(v->storage && str_compare(&v->storage->config->name, &v->name), "stale-storage", "partition volume refers to another storage");
		}
		int n = 0;
		list_foreach(&c->columns.list) {
			auto x = list_at(Column, link);
			P(" col:%.*s:%d:%d:drop=%d:nn=%d:id=%d:def=%.*s:st=%.*s:re=%.*s:refs=%d", S(&x->name), (int)x->type, (int)x->type_size, x->dropped, x->constraints.not_null, (int)x->constraints.as_identity,
			  buf_size(&x->constraints.value), x->constraints.value.start ? (char*)x->constraints.value.start : "", S(&x->constraints.as_stored), S(&x->constraints.as_resolved), x->refs);
			mc_check(x->order == n, "column-order", "column %.*s has order %d at position %d", S(&x->name), x->order, n);
			n++;
		}
		mc_check(n == c->columns.count, "column-count", "%d columns, counted %d", n, c->columns.count);
		P(" stored=%d resolved=%d identity=%d", c->columns.count_stored, c->columns.count_resolved, c->columns.identity ? c->columns.identity->order : -1);
		n = 0;
		list_foreach(&c->indexes) {
			auto x = list_at(IndexConfig, link);
			P(" idx:%.*s:%d:%d:%d:keys=", S(&x->name), (int)x->type, x->unique, x->primary);
			int k = 0;
			list_foreach(&x->keys.list) {
				auto key = list_at(Key, link);
				P("%d,", (int)key->ref);
				mc_check(key->column && key->column->order == key->ref, "key-column", "index key refers to a wrong column");
				mc_check(key->order == k, "key-order", "index key order"); k++;
			}
			n++;
		}
		mc_check(n == c->indexes_count, "index-count", "%d indexes, counted %d", n, c->indexes_count);
		// every partition has exactly these indexes
		list_foreach(&t->part_mgr.list) {
			auto part = list_at(Part, link);
			int i = 0;
			auto index = part->indexes;
			auto at = c->indexes.next;
			for (; index; index = index->next, i++) {
				mc_check(i < n, "part-index", "partition has an index which the table does not have");
				mc_check(index->config == container_of(at, IndexConfig, link), "part-index", "partition index differs from the table index");
				at = at->next;
			}
			mc_check(i == n && part->indexes_count == n, "part-index", "partition has %d indexes of %d", i, n);
			mc_check(volume_mgr_has(&c->part_mgr_config.volumes, part->id.volume), "part-volume", "partition volume is not of the table");
		}
		n = 0;
		list_foreach(&c->tiers) {
			auto x = list_at(TierConfig, link);
			P(" tier:%.*s:%d", S(&x->name), (int)x->region_size);
			auto tier = tier_mgr_find(&t->tier_mgr, &x->name);
			mc_check(tier && tier->config == x, "tier-config", "tier %.*s is not found by its name", S(&x->name));
			int objects = 0;
			list_foreach(&x->volumes.list) {
				auto v = list_at(Volume, link);
				P(" vol:%.*s:%d:%d:obj=%d", S(&v->name), (int)v->id.b, v->pause, v->list_count);
				objects += v->list_count;
				mc_check(v->storage && str_compare(&v->storage->config->name, &v->name), "stale-storage", "tier volume refers to another storage");
			}
			mc_check(objects == tier->list_count, "tier-objects", "%d objects in volumes, %d in the tier", objects, tier->list_count);
			n++;
		}
		mc_check(n == c->tiers_count && n == t->tier_mgr.list_count, "tier-count", "%d tiers, counted %d, %d opened", n, c->tiers_count, t->tier_mgr.list_count);
		mc_check(t->rel.db && str_compare(t->rel.db, &c->db) && str_compare(t->rel.name, &c->name), "stale-name", "table name differs from its config");
	}
	int n = 0;
	list_foreach(&cat->udf_mgr.mgr.list) {
		auto u = udf_of(list_at(Relation, link));
		LINE(); P("F %.*s.%.*s %.*s type=%d", S(&u->config->db), S(&u->config->name), S(&u->config->text), (int)u->config->type);
		mc_check(u->data, "function-compiled", "function is not compiled");
		mc_check(!strncmp(u->data, str_of(&u->config->text), str_size(&u->config->text)), "function-compiled", "function has the program of another text");
		mc_check(str_compare(u->rel.db, &u->config->db) && str_compare(u->rel.name, &u->config->name), "stale-name", "function name differs from its config");
		n++;
	}
	qsort(o->line, o->n, sizeof(o->line[0]), cmp_line);
	mc_check(cat->storage_mgr.mgr.list_count + cat->db_mgr.mgr.list_count + cat->table_mgr.mgr.list_count + cat->udf_mgr.mgr.list_count == o->n, "relation-count", "relations count");
}

static char ctx[256];
static void
text_same(const char* sig, const char* what, Text* have, Text* want)
{
	for (int i = 0; i < have->n || i < want->n; i++) {
		const char* h = i < have->n ? have->line[i] : "(nothing)";
		const char* w = i < want->n ? want->line[i] : "(nothing)";
		if (strcmp(h, w))
			mc_fail(sig, "%s: %s:\n   have %s\n   want %s", ctx, what, h, w);
	}
}

static Str t_str(const char* s) { Str r; str_set(&r, (char*)s, strlen(s)); return r; }

// objects are found by their current names only
static void
t_lookup(void)
{
	static const char* dbs[] = { "main", "d1", "d2" };
	static const char* names[] = { "main", "s1", "s2", "d1", "d2", "t1", "t2", "f1", "f2" };
	for (int i = 0; i < 9; i++) {
		Str n = t_str(names[i]);
		mc_check(!! storage_mgr_find(&cat->storage_mgr, &n, false) == !! ms(&m, names[i]), "lookup", "%s: storage %s is %sfound", ctx, names[i], ms(&m, names[i]) ? "not " : "");
		mc_check(!! database_mgr_find(&cat->db_mgr, &n, false) == !! md(&m, names[i]), "lookup", "%s: database %s", ctx, names[i]);
		for (int d = 0; d < 3; d++) {
			Str db = t_str(dbs[d]);
			auto t = table_mgr_find(&cat->table_mgr, &db, &n, false);
			auto w = mt(&m, dbs[d], names[i]);
			mc_check(!! t == !! w, "lookup", "%s: table %s.%s is %sfound", ctx, dbs[d], names[i], w ? "not " : "");
			if (t) {
				mc_check((int)t->config->id.b == w->id, "lookup", "%s: another table is found as %s.%s", ctx, dbs[d], names[i]);
				mc_check(table_mgr_find_by(&cat->table_mgr, &t->config->id, false) == t, "lookup", "%s: table is not found by id", ctx);
				static const char* sub[] = { "pk", "a", "b", "c", "i1", "i2", "primary", "r1", "r2" };
				for (int s = 0; s < 9; s++) {
					Str sn = t_str(sub[s]);
					auto col = columns_find(&t->config->columns, &sn);
					auto mc = mcol(w, sub[s]);
					mc_check(!! col == !! mc && (! col || col->order == mc - w->col), "lookup", "%s: column %s", ctx, sub[s]);
					mc_check(!! table_index_find(t, &sn, false) == !! midx(w, sub[s]), "lookup", "%s: index %s", ctx, sub[s]);
					mc_check(!! tier_mgr_find(&t->tier_mgr, &sn) == !! mtier(w, sub[s]), "lookup", "%s: tier %s", ctx, sub[s]);
				}
			}
			mc_check(!! udf_mgr_find(&cat->udf_mgr, &db, &n, false) == !! mu(&m, dbs[d], names[i]), "lookup", "%s: function %s.%s", ctx, dbs[d], names[i]);
		}
	}
}

// volume directories on disk are those of the schema
static void
t_dirs(void)
{
	char names[64][256];
	int have = cfs_list("/mem/storage", names, 64);
	int want = 0;
	for (int i = 0; i < m.nt; i++) {
		want += m.t[i].nvol;
		for (int r = 0; r < m.t[i].ntier; r++) want += m.t[i].tier[r].nvol;
	}
	mc_check(have >= want, "directories", "%s: %d directories for %d volumes", ctx, have, want);
}

// ------------------------------------------------------------ real operations
static void udf_compile(Catalog* c, Udf* udf)
{
	(void)c;
	if (*str_of(&udf->config->text) == '!') error("compile error");
	udf->data = strndup(str_of(&udf->config->text), str_size(&udf->config->text));
	udf_live++;
}
static void t_udf_free(Udf* udf) { if (! udf->data) return; free(udf->data); udf->data = NULL; udf_live--; }
static bool udf_depends(Udf* udf, Str* name) { return str_compare_case(&udf->config->text, name); }
static CatalogIf catalog_if = { udf_compile, t_udf_free, udf_depends };
static void
t_attach(PartMgr* self)
{
	list_foreach(&self->list) {
		auto part = list_at(Part, link);
		part->heap->page_mgr.page_size = 1024;
		part_open(part);
	}
}
static void t_detach(PartMgr* self) { (void)self; }
static PartMgrIf part_if = { t_attach, t_detach };

static void
t_volumes(VolumeMgr* self, int v, int first)
{
	char text[64]; strcpy(text, vols_of(v));
	for (char* p = strtok(text, ","); p; p = strtok(NULL, ",")) {
		auto volume = volume_allocate();
		Str s = t_str(p);
		volume_set_name(volume, &s);
		Uuid id = { .a = 7, .b = uid_vol[first++] };
		volume_set_id(volume, &id);
		volume_mgr_add(self, volume);
	}
}

// returns position of the operation in buf
static void
t_encode(A* a, Buf* buf, int* mask)
{
	(void)mask;
	Str db = t_str(a->db ? a->db : ""), name = t_str(a->name), sa = t_str(a->a ? a->a : ""), sb = t_str(a->b ? a->b : "");
	switch (a->kind) {
	case STORAGE_CREATE: {
		auto c = storage_config_allocate();
		storage_config_set_name(c, &name);
		Str z = t_str("zstd");
		storage_config_set_compression(c, &z);
		storage_config_set_compression_level(c, 3);
		storage_op_create(buf, c);
		storage_config_free(c);
		break;
	}
	case STORAGE_DROP: storage_op_drop(buf, &name); break;
	case STORAGE_RENAME: storage_op_rename(buf, &name, &sa); break;
	case DB_CREATE: {
		auto c = database_config_allocate();
		database_config_set_name(c, &name);
		database_op_create(buf, c);
		database_config_free(c);
		break;
	}
	case DB_DROP: database_op_drop(buf, &name, a->v); break;
	case DB_RENAME: database_op_rename(buf, &name, &sa); break;
	case TABLE_CREATE: {
		auto c = table_config_allocate();
		table_config_set_db(c, &db);
		table_config_set_name(c, &name);
		Uuid id = { .a = 9, .b = uid_table };
		table_config_set_id(c, &id);
		if (a->v == 3) table_config_set_unlogged(c, true);
		auto pk = kit_column(&c->columns, "pk", TYPE_INT, 8);
		constraints_set_not_null(&pk->constraints, true);
		if (a->v == 1) constraints_set_as_identity(&pk->constraints, IDENTITY_SERIAL);
		kit_column(&c->columns, "a", TYPE_INT, 8);
		auto x = kit_index(&c->columns, "primary", a->v == 1 ? INDEX_HASH : INDEX_TREE, true, true, 0);
		table_config_index_add(c, x);
		part_mgr_config_set_partitions(&c->part_mgr_config, 1 + (a->v == 1));
		t_volumes(&c->part_mgr_config.volumes, a->v == 4 ? 3 : a->v == 1 ? 2 : 0, 0);
		if (a->v == 1) {
			auto r = tier_config_allocate();
			Str n = t_str("r1");
			tier_config_set_name(r, &n);
			tier_config_set_region_size(r, 4096);
			t_volumes(&r->volumes, 1, 4);
			table_config_tier_add(c, r);
		}
		table_op_create(buf, c);
		table_config_free(c);
		break;
	}
	case TABLE_DROP: table_op_drop(buf, &db, &name); break;
	case TABLE_RENAME: table_op_rename(buf, &db, &name, &sa, &sb); break;
	case TABLE_TRUNCATE: table_op_truncate(buf, &db, &name); break;
	case TABLE_IDENTITY: table_op_set_identity(buf, &db, &name, a->v); break;
	case TABLE_UNLOGGED: table_op_set_unlogged(buf, &db, &name, a->v); break;
	case COL_ADD: {
		auto c = column_allocate();
		column_set_name(c, &sa);
		column_set_type(c, a->v == 2 ? TYPE_STRING : TYPE_INT, a->v == 2 ? 0 : 8);
		if (a->v == 1) constraints_set_as_identity(&c->constraints, IDENTITY_RANDOM);
		Str e = t_str("pk + 1");
		if (a->v == 2) constraints_set_as_stored(&c->constraints, &e);
		table_op_column_add(buf, &db, &name, c);
		column_free(c);
		break;
	}
	case COL_DROP: table_op_column_drop(buf, &db, &name, &sa); break;
	case COL_RENAME: table_op_column_rename(buf, &db, &name, &sa, &sb); break;
	case COL_DEFAULT: table_op_column_set(buf, DDL_TABLE_COLUMN_SET_DEFAULT, &db, &name, &sa, &sb); break;
	case COL_STORED: table_op_column_set(buf, DDL_TABLE_COLUMN_SET_STORED, &db, &name, &sa, &sb); break;
	case COL_RESOLVED: table_op_column_set(buf, DDL_TABLE_COLUMN_SET_RESOLVED, &db, &name, &sa, &sb); break;
	case IDX_DROP: table_op_index_drop(buf, &db, &name, &sa); break;
	case IDX_RENAME: table_op_index_rename(buf, &db, &name, &sa, &sb); break;
	case TIER_CREATE: case TIER_SET: {
		auto r = tier_config_allocate();
		tier_config_set_name(r, &sa);
		if (a->kind == TIER_CREATE) {
			tier_config_set_region_size(r, 8192);
			t_volumes(&r->volumes, a->v, 0);
			table_op_tier_create(buf, &db, &name, r);
		} else {
			tier_config_set_region_size(r, a->v);
			tier_config_set_object_size(r, 77);
			table_op_tier_set(buf, &db, &name, r, TIER_REGION_SIZE);
		}
		tier_config_free(r);
		break;
	}
	case TIER_DROP: table_op_tier_drop(buf, &db, &name, &sa); break;
	case TIER_RENAME: table_op_tier_rename(buf, &db, &name, &sa, &sb); break;
	case VOL_ADD: {
		auto v = volume_allocate();
		volume_set_name(v, &sb);
		Uuid id = { .a = 7, .b = uid_vol[0] };
		volume_set_id(v, &id);
		table_op_tier_storage_add(buf, &db, &name, &sa, v);
		volume_free(v);
		break;
	}
	case VOL_DROP: table_op_tier_storage_drop(buf, &db, &name, &sa, &sb); break;
	case VOL_PAUSE: table_op_tier_storage_pause(buf, &db, &name, &sa, &sb, a->v); break;
	case UDF_CREATE: case UDF_REPLACE: {
		auto c = udf_config_allocate();
		udf_config_set_db(c, &db);
		udf_config_set_name(c, &name);
		udf_config_set_text(c, &sa);
		udf_config_set_type(c, a->v);
		kit_column(&c->args, "x", TYPE_INT, 8);
		if (a->kind == UDF_CREATE) udf_op_create(buf, c); else udf_op_replace(buf, c);
		udf_config_free(c);
		break;
	}
	case UDF_DROP: udf_op_drop(buf, &db, &name); break;
	case UDF_RENAME: udf_op_rename(buf, &db, &name, &sa, &sb); break;
	}
}

static bool
t_execute_op(Tr* tr, A* a, bool flags)
{
	if (a->kind != IDX_CREATE) {
		Buf* buf = buf_create();
		defer_buf(buf);
		t_encode(a, buf, NULL);
		return catalog_execute(cat, tr, buf->start, flags ? 0x3f : 0);
	}
	// as service_create_index() does
	Str db = t_str(a->db);
	Str name = t_str(a->name);
	Str iname = t_str(a->a);
	Str cname = t_str(a->b);
	auto table = table_mgr_find(&cat->table_mgr, &db, &name, true);
	if (table_index_find(table, &iname, false)) {
		if (! flags)
			error("already exists");
		return false;
	}
	auto col = columns_find(table_columns(table), &cname);
	auto c = kit_index(table_columns(table), a->a, a->v ? INDEX_HASH : INDEX_TREE, a->v, false, col->order);
	if (! a->v)
		keys_copy_distinct(&c->keys, table_keys(table));
	Buf* buf = buf_create();
	table_op_index_create(buf, &db, &name, c);
	part_mgr_index_create(&table->part_mgr, c);
	table_index_add(table, tr, c);
	log_persist_relation(&tr->log, NULL, buf->start);
	buf_free(buf);
	return true;
}

// 0: done, 1: nothing to do, 2: error
static int
t_execute(Tr* tr, A* a, bool flags)
{
	volatile bool write = false;
	auto on_error = error_catch(
		write = t_execute_op(tr, a, flags);
	);
	return on_error ? ERR : write ? OK : NOOP;
}

static char hist[2000];
static void
t_describe(A* a, char* out, size_t size)
{
	snprintf(out, size, "%s %s%s%s%s%s%s%s %d", kinds[a->kind], a->db ? a->db : "", a->db ? "." : "", a->name, a->a ? " " : "", a->a ? a->a : "", a->b ? " " : "", a->b ? a->b : "", a->v);
}

static void
t_uids(void)
{
	uid_table = ++next_uid;
	for (int i = 0; i < 8; i++) uid_vol[i] = ++next_uid;
}

static Text before, have, want;

// one operation in its own transaction: rejected, rolled back, executed
static bool
t_op(A* a)
{
	char desc[128];
	t_describe(a, desc, sizeof(desc));
	snprintf(ctx, sizeof(ctx), "%s", desc);
	t_uids();
	model_text(&m, &before, true);
	Model next = m;
	int live = udf_live;
	int r = model_apply(&next, a, false);
	if (r == -1) return false;
	Tr tr;
	tr_init(&tr);
	static const char* rs[] = { "accepted", "ignored", "rejected" };
	if (r != OK) {
		for (int flags = 0; flags < 2; flags++) {
			Model tmp = m;
			int w = model_apply(&tmp, a, flags);
			tr_begin(&tr);
			int got = t_execute(&tr, a, flags);
			mc_step(1);
			mc_check(got == w, "outcome", "%s: operation is %s instead of %s (flags %d) %s", desc, rs[got], rs[w], flags, got == ERR ? am_error_text() : "");
			if (got == NOOP) {
				mc_check(write_log_empty(&tr.log.write_log), "noop-logged", "%s: operation which changed nothing is logged", desc);
				tr_commit(&tr);
			} else
				tr_abort(&tr);
			real_text(cat, &have);
			text_same("rejected", "rejected operation changed the schema", &have, &before);
			mc_check(udf_live == live, "function-leak", "%s: %d compiled functions instead of %d", desc, udf_live, live);
		}
		tr_free(&tr);
		return false;
	}
	// rolled back
	tr_begin(&tr);
	int got = t_execute(&tr, a, false);
	mc_step(1);
	mc_check(got == OK, "outcome", "%s: operation is %s instead of accepted %s", desc, rs[got], got == ERR ? am_error_text() : "");
	mc_check(! write_log_empty(&tr.log.write_log), "not-logged", "%s: operation is not logged", desc);
	if (! deferred(a->kind)) {
		no_refs = true;
		model_text(&next, &want, true);
		real_text(cat, &have);
		no_refs = false;
		text_same("executed", "operation in progress", &have, &want);
	}
	tr_abort(&tr);
	real_text(cat, &have);
	text_same("aborted", "rolled back operation changed the schema", &have, &before);
	mc_check(udf_live == live, "function-leak", "%s: %d compiled functions instead of %d after abort", desc, udf_live, live);
	t_lookup();
	// executed
	t_uids();
	next = m;
	model_apply(&next, a, false);
	tr_begin(&tr);
	got = t_execute(&tr, a, false);
	mc_step(1);
	mc_check(got == OK, "outcome", "%s: operation repeated after rollback is %s %s", desc, rs[got], got == ERR ? am_error_text() : "");
	tr_commit(&tr);
	tr_free(&tr);
	m = next;
	model_text(&m, &want, true);
	real_text(cat, &have);
	text_same("committed", "schema after commit", &have, &want);
	mc_check(udf_live == m.nu, "function-leak", "%s: %d compiled functions for %d", desc, udf_live, m.nu);
	t_lookup();
	t_dirs();
	return true;
}

// ------------------------------------------------------------ menus
#define T1 "main", "t1"
static A menu_storage[] = {
	{ STORAGE_CREATE, 0, "s1", 0, 0, 0 }, { STORAGE_CREATE, 0, "s2", 0, 0, 0 },
	{ STORAGE_DROP, 0, "s1", 0, 0, 0 }, { STORAGE_DROP, 0, "main", 0, 0, 0 },
	{ STORAGE_RENAME, 0, "s1", "s2", 0, 0 }, { STORAGE_RENAME, 0, "s2", "s1", 0, 0 }, { STORAGE_RENAME, 0, "main", "s1", 0, 0 }, { STORAGE_RENAME, 0, "s1", "main", 0, 0 },
	{ TABLE_CREATE, T1, 0, 0, 1 }, { TABLE_CREATE, T1, 0, 0, 4 }, { TABLE_CREATE, T1, 0, 0, 0 }, { TABLE_DROP, T1, 0, 0, 0 },
	{ TIER_CREATE, T1, "r2", 0, 4 }, { TIER_DROP, T1, "r1", 0, 0 }, { TIER_DROP, T1, "r2", 0, 0 },
	{ VOL_ADD, T1, "r1", "s2", 0 }, { VOL_ADD, T1, "r1", "main", 0 }, { VOL_DROP, T1, "r1", "s2", 0 }, { VOL_DROP, T1, "r1", "s1", 0 },
	{ -1 }
};
static A menu_db[] = {
	{ DB_CREATE, 0, "d1", 0, 0, 0 }, { DB_CREATE, 0, "d2", 0, 0, 0 },
	{ DB_DROP, 0, "d1", 0, 0, 0 }, { DB_DROP, 0, "d1", 0, 0, 1 }, { DB_DROP, 0, "main", 0, 0, 1 },
	{ DB_RENAME, 0, "d1", "d2", 0, 0 }, { DB_RENAME, 0, "d2", "d1", 0, 0 }, { DB_RENAME, 0, "d1", "main", 0, 0 }, { DB_RENAME, 0, "main", "d2", 0, 0 },
	{ TABLE_CREATE, T1, 0, 0, 0 }, { TABLE_CREATE, "d1", "t1", 0, 0, 3 }, { TABLE_CREATE, "d1", "t2", 0, 0, 0 },
	{ TABLE_DROP, "d1", "t1", 0, 0, 0 }, { TABLE_RENAME, T1, "d1", "t1", 0 }, { TABLE_RENAME, "d1", "t1", "main", "t1", 0 }, { TABLE_RENAME, "d1", "t1", "d1", "t2", 0 },
	{ TABLE_RENAME, "d1", "t2", "d2", "t1", 0 }, { TABLE_RENAME, "d2", "t1", "d1", "t1", 0 },
	{ UDF_CREATE, "d1", "f1", "t1", 0, TYPE_INT }, { UDF_RENAME, "d1", "f1", "main", "f1", 0 }, { UDF_RENAME, "d1", "f1", "d2", "f1", 0 },
	{ -1 }
};
static A menu_table[] = {
	{ TABLE_CREATE, T1, 0, 0, 0 }, { TABLE_CREATE, T1, 0, 0, 3 }, { TABLE_CREATE, "main", "t2", 0, 0, 0 },
	{ TABLE_DROP, T1, 0, 0, 0 }, { TABLE_DROP, "main", "t2", 0, 0, 0 },
	{ TABLE_RENAME, T1, "main", "t2", 0 }, { TABLE_RENAME, "main", "t2", "main", "t1", 0 }, { TABLE_RENAME, T1, "d2", "t1", 0 }, { TABLE_RENAME, T1, "main", "t1", 0 },
	{ TABLE_TRUNCATE, T1, 0, 0, 0 }, { TABLE_IDENTITY, T1, 0, 0, 7 }, { TABLE_IDENTITY, T1, 0, 0, 9 },
	{ TABLE_UNLOGGED, T1, 0, 0, 1 }, { TABLE_UNLOGGED, T1, 0, 0, 0 },
	{ UDF_CREATE, "main", "f1", "t1", 0, TYPE_INT }, { UDF_CREATE, "main", "f2", "f1", 0, TYPE_INT }, { UDF_CREATE, "main", "f2", "!", 0, TYPE_INT },
	{ UDF_REPLACE, "main", "f1", "t2", 0, TYPE_INT }, { UDF_REPLACE, "main", "f1", "t2", 0, TYPE_STRING }, { UDF_REPLACE, "main", "f1", "!", 0, TYPE_INT },
	{ UDF_DROP, "main", "f1", 0, 0, 0 }, { UDF_DROP, "main", "f2", 0, 0, 0 }, { UDF_RENAME, "main", "f1", "main", "f2", 0 }, { UDF_RENAME, "main", "f1", "d2", "f2", 0 },
	{ -1 }
};
static A menu_column[] = {
	{ COL_ADD, T1, "b", 0, 0 }, { COL_ADD, T1, "c", 0, 1 }, { COL_ADD, T1, "b", 0, 2 }, { COL_ADD, T1, "a", 0, 0 },
	{ COL_DROP, T1, "pk", 0, 0 }, { COL_DROP, T1, "a", 0, 0 }, { COL_DROP, T1, "b", 0, 0 }, { COL_DROP, T1, "c", 0, 0 },
	{ COL_RENAME, T1, "a", "b", 0 }, { COL_RENAME, T1, "b", "a", 0 }, { COL_RENAME, T1, "pk", "c", 0 }, { COL_RENAME, T1, "c", "pk", 0 },
	{ COL_DEFAULT, T1, "a", "5", 0 }, { COL_DEFAULT, T1, "b", "77", 0 }, { COL_STORED, T1, "a", "x", 0 }, { COL_RESOLVED, T1, "a", "y", 0 }, { COL_STORED, T1, "a", "", 0 }, { COL_RESOLVED, T1, "b", "z", 0 },
	{ IDX_CREATE, T1, "i1", "a", 0 }, { IDX_CREATE, T1, "i2", "b", 1 }, { IDX_DROP, T1, "i1", 0, 0 },
	{ -1 }
};
static A menu_index[] = {
	{ IDX_CREATE, T1, "i1", "a", 0 }, { IDX_CREATE, T1, "i1", "pk", 1 }, { IDX_CREATE, T1, "i2", "a", 1 }, { IDX_CREATE, T1, "primary", "a", 1 },
	{ IDX_DROP, T1, "i1", 0, 0 }, { IDX_DROP, T1, "i2", 0, 0 }, { IDX_DROP, T1, "primary", 0, 0 }, { IDX_DROP, "main", "t2", "i1", 0, 0 },
	{ IDX_RENAME, T1, "i1", "i2", 0 }, { IDX_RENAME, T1, "i2", "i1", 0 }, { IDX_RENAME, T1, "primary", "i1", 0 }, { IDX_RENAME, T1, "i1", "i1", 0 },
	{ COL_DROP, T1, "a", 0, 0 }, { COL_RENAME, T1, "a", "b", 0 }, { TABLE_RENAME, T1, "main", "t2", 0 }, { TABLE_RENAME, "main", "t2", "main", "t1", 0 },
	{ UDF_CREATE, "main", "f1", "t1", 0, TYPE_INT }, { UDF_DROP, "main", "f1", 0, 0, 0 },
	{ -1 }
};
static A menu_tier[] = {
	{ TIER_CREATE, T1, "r1", 0, 1 }, { TIER_CREATE, T1, "r1", 0, 2 }, { TIER_CREATE, T1, "r2", 0, 0 }, { TIER_CREATE, T1, "r2", 0, 3 },
	{ TIER_DROP, T1, "r1", 0, 0 }, { TIER_DROP, T1, "r2", 0, 0 }, { TIER_RENAME, T1, "r1", "r2", 0 }, { TIER_RENAME, T1, "r2", "r1", 0 },
	{ VOL_ADD, T1, "r1", "s2", 0 }, { VOL_ADD, T1, "r1", "s1", 0 }, { VOL_ADD, T1, "r1", "zz", 0 },
	{ VOL_DROP, T1, "r1", "s1", 0 }, { VOL_DROP, T1, "r1", "s2", 0 },
	{ VOL_PAUSE, T1, "r1", "s1", 1 }, { VOL_PAUSE, T1, "r1", "s1", 0 }, { VOL_PAUSE, T1, "r1", "s2", 1 },
	{ TIER_SET, T1, "r1", 0, 100 }, { TIER_SET, T1, "r1", 0, 200 }, { TABLE_TRUNCATE, T1, 0, 0, 0 },
	{ STORAGE_DROP, 0, "s2", 0, 0, 0 }, { STORAGE_DROP, 0, "s1", 0, 0, 0 },
	{ -1 }
};

static int menu_count(A* menu) { int n = 0; while (menu[n].kind >= 0) n++; return n; }

static void
t_open(bool bootstrap)
{
	cat = malloc(sizeof(Catalog));
	catalog_init(cat, &catalog_if, NULL, &part_if, NULL);
	catalog_open(cat, bootstrap);
}

static void
t_start(void)
{
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->storage_sync, true);
	opt_int_set(&config()->catalog_sync, true);
	opt_int_set(&state()->catalog, 0);
	opt_int_set(&state()->catalog_pending, 0);
	state_psn_set(0);
	state_lsn_set(0);
	cfs_reset();
	cfs_mkdir("/mem");
	cfs_mkdir("/mem/storage");
	memset(&m, 0, sizeof(m));
	strcpy(m.s[m.ns++].name, "main"); m.s[0].sys = true;
	strcpy(m.d[m.nd++].name, "main"); m.d[0].sys = true;
	next_uid = 0;
	udf_live = 0;
	hist[0] = 0;
	t_open(true);
}

static void
t_stop(void)
{
	catalog_close(cat);
	free(cat);
	cat = NULL;
	mc_check(udf_live == 0, "function-leak", "%d compiled functions are left", udf_live);
	mc_check(cfs_open_fds() == 0, "descriptors", "%d descriptors are left open", cfs_open_fds());
}

static void
t_setup(A* list)
{
	for (; list->kind >= 0; list++) {
		t_uids();
		mc_check(model_apply(&m, list, false) == OK, "harness", "setup");
		Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		int got = t_execute(&tr, list, false);
		mc_check(got == OK, "setup", "setup operation %s is rejected: %s", kinds[list->kind], am_error_text());
		tr_commit(&tr);
		tr_free(&tr);
	}
}

static uint64_t
t_hash(int left)
{
	static Text t;
	model_text(&m, &t, false);
	uint64_t h = mc_hash(left, mc_scenario_name(), strlen(mc_scenario_name()));
	for (int i = 0; i < t.n; i++) h = mc_hash(h, t.line[i], strlen(t.line[i]));
	return h;
}

static A setup_none[] = { { -1 } };
static A setup_table[] = { { TABLE_CREATE, T1, 0, 0, 0 }, { -1 } };
static A setup_db[] = { { DB_CREATE, 0, "d1", 0, 0, 0 }, { TABLE_CREATE, "d1", "t1", 0, 0, 0 }, { -1 } };
static A setup_tier[] = { { STORAGE_CREATE, 0, "s1", 0, 0, 0 }, { STORAGE_CREATE, 0, "s2", 0, 0, 0 }, { TABLE_CREATE, T1, 0, 0, 0 }, { -1 } };
static A setup_tier2[] = { { STORAGE_CREATE, 0, "s1", 0, 0, 0 }, { STORAGE_CREATE, 0, "s2", 0, 0, 0 }, { TABLE_CREATE, T1, 0, 0, 1 }, { VOL_ADD, T1, "r1", "s2", 0 }, { -1 } };

#ifndef C07
static void
t_seq(A* setup, A* menu, int depth)
{
	t_start();
	t_setup(setup);
	int n = menu_count(menu);
	for (int i = 0; i < depth; i++) {
		A* a = &menu[mc_choose(n)];
		bool ok = t_op(a);
		char d[128]; t_describe(a, d, sizeof(d));
		mc_log("%s: %s", d, ok ? "done" : "rejected");
		if (ok) mc_nontrivial();
		if (! ok || (i + 1 < depth && ! mc_visit(t_hash(depth - i)))) break;
	}
	t_stop();
}

static void sc_storage(void) { t_seq(setup_none, menu_storage, mc_q(8, 12)); }
static void sc_db(void)      { t_seq(setup_db, menu_db, mc_q(7, 10)); }
static void sc_table(void)   { t_seq(setup_none, menu_table, mc_q(8, 12)); }
static void sc_column(void)  { t_seq(setup_table, menu_column, mc_q(6, 8)); }
static void sc_index(void)   { t_seq(setup_table, menu_index, mc_q(8, 12)); }
static void sc_tier(void)    { t_seq(setup_tier, menu_tier, mc_q(6, 8)); }
static void sc_tier2(void)   { t_seq(setup_tier2, menu_tier, mc_q(6, 8)); }

McScenario mc_scenarios[] = {
	{ "storage", sc_storage, 0 }, { "db", sc_db, 0 }, { "table", sc_table, 0 }, { "column", sc_column, 0 },
	{ "index", sc_index, 0 }, { "tier", sc_tier, 0 }, { "tier-setup", sc_tier2, 0 },
	{ NULL, NULL, 0 }
};
#else
// ------------------------------------------------------------ C07
// what is described by the catalog file
static char*
t_dump(Catalog* c)
{
	auto data = catalog_write_prepare(c, 0);
	Buf text;
	buf_init(&text);
	auto pos = data->start;
	json_export_pretty(&text, NULL, &pos);
	char* out = malloc(buf_size(&text) + 1);
	memcpy(out, text.start, buf_size(&text));
	out[buf_size(&text)] = 0;
	buf_free(&text);
	buf_free(data);
	return out;
}

// sequence values and objects of storages are not part of the catalog
static void
t_model_reopened(Model* o)
{
	for (int i = 0; i < o->nt; i++) {
		MTable* t = &o->t[i];
		t->seq = 0;
	}
}

static void
t_reread(const char* what)
{
	char* first = t_dump(cat);
	Catalog* prev = cat;
	int live = udf_live;
	auto on_error = error_catch( t_open(false); );
	mc_check(! on_error, "read", "%s: saved catalog cannot be read: %s", what, am_error_text());
	mc_check(udf_live == 2 * live, "read-functions", "%s: functions are not compiled", what);
	char* second = t_dump(cat);
	int at = 0;
	while (first[at] && first[at] == second[at]) at++;
	mc_check(! strcmp(first, second), "reread", "%s: catalog read back differs at: \"%.60s\" was \"%.60s\"", what, second + (at > 20 ? at - 20 : 0), first + (at > 20 ? at - 20 : 0));
	free(first);
	free(second);
	Model o = m;
	t_model_reopened(&o);
	model_text(&o, &want, true);
	real_text(cat, &have);
	text_same("reread-schema", what, &have, &want);
	t_lookup();
	catalog_close(cat);
	free(cat);
	cat = prev;
}

static void
t_roundtrip(A* setup, A* menu, int depth)
{
	t_start();
	t_setup(setup);
	int n = menu_count(menu);
	for (int i = 0; i < depth; i++) {
		A* a = &menu[mc_choose(n)];
		t_describe(a, ctx, sizeof(ctx));
		mc_log("%s", ctx);
		Model next = m;
		t_uids();
		if (model_apply(&next, a, false) != OK) break;
		Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		int got = t_execute(&tr, a, false);
		mc_step(1);
		mc_check(got == OK, "execute", "%s is rejected: %s", ctx, am_error_text());
		tr_commit(&tr);
		tr_free(&tr);
		m = next;
		state_lsn_set(state_lsn() + 10);
		opt_int_set(&state()->catalog_pending, state_lsn());
		if (! mc_visit(t_hash(depth - i))) break;
		auto on_error = error_catch( catalog_write(cat); );
		mc_check(! on_error, "write", "%s: catalog cannot be saved: %s", ctx, am_error_text());
		mc_check(state_catalog() == state_lsn(), "lsn", "%s: catalog position %d after a save at %d", ctx, (int)state_catalog(), (int)state_lsn());
		int64_t lsn = state_lsn();
		mc_check(! cfs_exists("/mem/catalog.json.incomplete"), "leftover", "incomplete file is left after a save");
		state_lsn_set(0);
		opt_int_set(&state()->catalog, 0);
		opt_int_set(&state()->catalog_pending, 0);
		t_reread(ctx);
		mc_check((int64_t)state_lsn() == lsn && (int64_t)state_catalog() == lsn && (int64_t)state_catalog_pending() == lsn, "lsn", "%s: catalog position %d read back as %d", ctx, (int)lsn, (int)state_catalog());
		mc_nontrivial();
	}
	t_stop();
}

// crash during saves
static A crash_ops[] = {
	{ DB_CREATE, 0, "d1", 0, 0, 0 }, { STORAGE_CREATE, 0, "s1", 0, 0, 0 }, { TABLE_CREATE, T1, 0, 0, 0 }, { COL_ADD, T1, "b", 0, 0 }, { TABLE_DROP, T1, 0, 0, 0 }, { DB_DROP, 0, "d1", 0, 0, 0 }, { -1 }
};
static int save_lsn, saved_lsn, saving_lsn;
static Model model_saved, model_saving;
static bool saving;

static void
t_save(void* arg)
{
	(void)arg;
	cfs_arm_crash(true);
	catalog_write(cat);
	cfs_arm_crash(false);
}

static void
t_crash(int depth, int crashes, int flags, bool many)
{
	t_start();
	mc_budget(crashes);
	model_saved = m;
	saved_lsn = 0;
	int n = menu_count(crash_ops);
	int lsn = 0;
	for (int i = 0; i < depth; i++) {
		// operations without a save in between
		int ops = many ? 1 + mc_choose(2) : 1;
		for (int k = 0; k < ops; k++) {
			A* a = many ? &crash_ops[mc_choose(n)] : &crash_ops[i % n];
			t_describe(a, ctx, sizeof(ctx));
			Model next = m;
			t_uids();
			if (model_apply(&next, a, false) != OK) { t_stop(); return; }
			Tr tr;
			tr_init(&tr);
			tr_begin(&tr);
			mc_check(t_execute(&tr, a, false) == OK, "execute", "%s is rejected: %s", ctx, am_error_text());
			tr_commit(&tr);
			tr_free(&tr);
			m = next;
			lsn += 10;
			mc_log("%s at %d", ctx, lsn);
		}
		state_lsn_set(lsn);
		opt_int_set(&state()->catalog_pending, lsn);
		model_saving = m;
		saving_lsn = lsn;
		mc_step(1);
		bool crashed = cfs_run(t_save, NULL);
		if (crashed) {
			mc_nontrivial();
			mc_log("crash");
			cfs_crash(flags);
			// memory is lost
			cat = NULL;
			udf_live = 0;
			state_lsn_set(0);
			opt_int_set(&state()->catalog, 0);
			opt_int_set(&state()->catalog_pending, 0);
			auto on_error = error_catch( t_open(false); );
			mc_check(! on_error, "crash-read", "catalog cannot be read after a crash: %s", am_error_text());
			real_text(cat, &have);
			int got = state_catalog();
			mc_check(got == saved_lsn || got == saving_lsn, "crash-lsn", "catalog of position %d after a crash, saved %d, being saved %d", got, saved_lsn, saving_lsn);
			m = got == saving_lsn ? model_saving : model_saved;
			lsn = saved_lsn = got;
			model_saved = m;
			model_text(&m, &want, true);
			snprintf(ctx, sizeof(ctx), "crash");
			text_same("crash-schema", "catalog after a crash", &have, &want);
			mc_check(! cfs_exists("/mem/catalog.json.incomplete"), "crash-leftover", "incomplete file is left after a restart");
		} else {
			saved_lsn = lsn;
			model_saved = m;
			// durable: power loss right after the save
			if (i + 1 == depth) {
				cfs_crash(flags);
				cat = NULL;
				udf_live = 0;
				auto on_error = error_catch( t_open(false); );
				mc_check(! on_error, "durable-read", "saved catalog cannot be read after a power loss: %s", am_error_text());
				real_text(cat, &have);
				mc_check((int)state_catalog() == lsn, "durable-lsn", "catalog of position %d after a power loss, %d was saved", (int)state_catalog(), lsn);
				model_text(&m, &want, true);
				text_same("durable", "catalog after a power loss", &have, &want);
			}
		}
	}
	t_stop();
}

static void rt_storage(void) { t_roundtrip(setup_none, menu_storage, mc_q(4, 5)); }
static void rt_db(void)      { t_roundtrip(setup_db, menu_db, mc_q(3, 5)); }
static void rt_table(void)   { t_roundtrip(setup_none, menu_table, mc_q(3, 5)); }
static void rt_column(void)  { t_roundtrip(setup_table, menu_column, mc_q(3, 5)); }
static void rt_index(void)   { t_roundtrip(setup_table, menu_index, mc_q(3, 5)); }
static void rt_tier(void)    { t_roundtrip(setup_tier2, menu_tier, mc_q(3, 5)); }
static void crash_one(void)  { t_crash(3, 1, CFS_TORN|CFS_HOLES, true); }
static void crash_two(void)  { t_crash(mc_q(3, 4), 2, CFS_TORN, false); }
static void crash_tears(void){ t_crash(2, 1, CFS_TORN|CFS_ALLTEARS|CFS_HOLES, false); }

McScenario mc_scenarios[] = {
	{ "storage", rt_storage, 0 }, { "db", rt_db, 0 }, { "table", rt_table, 0 }, { "column", rt_column, 0 }, { "index", rt_index, 0 }, { "tier", rt_tier, 0 },
	{ "crash-one", crash_one, 0 }, { "crash-two", crash_two, 0 }, { "crash-tears", crash_tears, 0 },
	{ NULL, NULL, 0 }
};
#endif
