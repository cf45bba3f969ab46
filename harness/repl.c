// C41: replication. A primary and a replica, each with the real schema,
// partitions, log and recovery (recover.c), over one in-memory disk. The real
// streamer of the primary and the real replay of the replica talk over an
// in-memory connection; the executor of the replica (C30) is replaced by its
// sequence of calls. After every history of changes, messages, losses of the
// connection, checkpoints, restarts and crashes the replica has the state of
// one of the transactions, the one of its log position, and in the end of the last.
#define REPL
#include "recover.c"
#include <amelie_server>
#include <amelie_sync>
#include <amelie_vm>
#include <amelie_compiler>
#include <amelie_frontend.h>
#include <amelie_backend.h>
#include <amelie_session.h>

static void h_send(Buf*, Buf*);
static void h_connect(Client*);
static void h_close(Client*);
#define tcp_write_buf(tcp, a) h_send(a, NULL)
#define tcp_write_pair(tcp, a, b) h_send(a, b)
#define client_connect h_connect
#define client_close h_close
#include "repl/streamer.c"
#include "repl/replica_mgr.c"
#include "repl/primary.c"
#undef client_connect
#undef client_close
#undef tcp_write_buf
#undef tcp_write_pair

static void h_execute(Dtr*, Dispatch*);
static void h_commit(Dtr*);
#define executor_send(e, dtr, dispatch) h_execute(dtr, dispatch)
#define commit(c, dtr, x) h_commit(dtr)
#undef share
static struct { Db* db; } h_share;
static inline typeof(&h_share) h_share_of(void) { h_share.db = db; return &h_share; }
#define share() h_share_of()
#include "backend/replay.c"
#include "backend/pod.c"
#include "session/session_replay.c"
// (not used by replay; they are not a part of the build)
void vm_init(Vm* a, Part* b, Dtr* c) { (void)a; (void)b; (void)c; }
void vm_free(Vm* a) { (void)a; }
void vm_reset(Vm* a) { (void)a; }
void vm_run(Vm* a, Local* b, Tr* c, Program* d, Code* e, CodeData* f, Buf* g, Value* h, Value* i, Return* j, bool k, int l) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; (void)j; (void)k; (void)l; }
#undef executor_send
#undef commit

// ---------------------------------------------------------------- nodes
enum { PRIMARY, REPLICA };
static const char* node_dir[] = { "/mem/p", "/mem/r" };
static const char* node_id[]  = { "11111111-1111-1111-1111-111111111111", "22222222-2222-2222-2222-222222222222" };
static struct { Db* db; int64_t lsn, psn, catalog, pending; bool dropped; } nodes[2];
static int node;

static void
node_set(int n)
{
	node = n;
	home = node_dir[n];
	opt_string_set_raw(&state()->directory, home, strlen(home));
	opt_string_set_raw(&config()->uuid, node_id[n], 36);
	if (n == REPLICA) opt_string_set_raw(&state()->repl_primary, node_id[PRIMARY], 36);
	else opt_string_set_raw(&state()->repl_primary, "", 0);
}

static void
node_to(int n)
{
	if (n == node) return;
	nodes[node].db = db;
	nodes[node].lsn = state_lsn();
	nodes[node].psn = state_psn();
	nodes[node].catalog = state_catalog();
	nodes[node].pending = state_catalog_pending();
	nodes[node].dropped = dropped;
	node_set(n);
	db = nodes[n].db;
	state_lsn_set(nodes[n].lsn);
	state_psn_set(nodes[n].psn);
	opt_int_set(&state()->catalog, nodes[n].catalog);
	opt_int_set(&state()->catalog_pending, nodes[n].pending);
	dropped = nodes[n].dropped;
}

// ---------------------------------------------------------------- connection
enum { LOSE_NO, LOSE_REQUEST, LOSE_PART, LOSE_REPLY };
static Buf        pipe_[2];     // received by the node
static int        lose;
static bool       connected, lost;
static ReplicaMgr replica_mgr;
static Replica*   replica;
static Streamer*  streamer;
static Endpoint   endpoint;
static Primary    primary;
static Recover    primary_recover;
static Session    session;
static Program    program;
static uint64_t   hist_lsn[MAXH];
static bool       hist_drop[MAXH], hist_create[MAXH];
static bool       crashes;
static int        replica_at;

static void
h_send(Buf* a, Buf* b)
{
	auto to = &pipe_[! node];
	buf_write(to, a->start, buf_size(a));
	if (b) buf_write(to, b->start, buf_size(b));
}

static void h_replay(Primary* self, Buf* data)
{
	session_execute_replay(self->replay_arg, self, data);
}

static void
h_connect(Client* self)
{
	(void)self;
	connected = true;
	lost = false;
	buf_reset(&pipe_[0]);
	buf_reset(&pipe_[1]);
	// as frontend_client_primary()
	node_to(REPLICA);
	recover_init(&primary_recover, db, true);
	primary_init(&primary, &primary_recover, client_create(), h_replay, &session);
	primary.client->endpoint = &endpoint;
	node_to(PRIMARY);
}

static void
h_close(Client* self)
{
	(void)self;
	if (! connected) return;
	connected = false;
	recover_free(&primary_recover);
	client_free(primary.client);
	readahead_reset(&self->readahead);
}

// one step of primary_main()
static void
h_replica(void)
{
	node_to(REPLICA);
	bool eof = false;
	mc_log("receive");
	auto failed = error_catch(
		eof = primary_read(&primary);
		if (! eof) {
			cancel_pause();
			primary.replay(&primary, &primary.client->request.content);
			cancel_resume();
			primary_write(&primary);
		}
	);
	mc_check(! eof || lost, "eof", "the replica closes the connection");
	mc_check(! failed || lost, "replay", "the replica fails: %s", am_error_text());
	mc_check(list_empty(&am_self()->locks), "locks", "the replica holds locks after a message");
	node_to(PRIMARY);
}

int
__wrap_tcp_read(Tcp* self, Buf* buf, int size)
{
	(void)self;
	auto from = &pipe_[node];
	if (node == PRIMARY && buf_empty(from)) {
		// the streamer waits for the reply
		if (lost) return 0;
		int how = lose;
		lose = LOSE_NO;
		if (how) { mc_log(how == LOSE_REQUEST ? "request lost" : how == LOSE_PART ? "request cut" : "reply lost"); lost = true; mc_nontrivial(); }
		if (how == LOSE_REQUEST) return 0;
		if (how == LOSE_PART) pipe_[REPLICA].position = pipe_[REPLICA].start + buf_size(&pipe_[REPLICA]) * 2 / 3;
		h_replica();
		if (how) return 0;
	}
	if (buf_size(from) < size) size = buf_size(from);
	buf_write(buf, from->start, size);
	memmove(from->start, from->start + size, buf_size(from) - size);
	from->position -= size;
	return size;
}

// ---------------------------------------------------------------- replica
// as the executor: a local transaction for each partition, then the log
static Tr*   x_tr[4];
static Part* x_part[4];
static int   x_count;

static bool
h_locked(int mode)
{
	list_foreach(&am_self()->locks) {
		auto lock = list_at(Lock, link);
		if (lock->rel == &runtime()->lockable_mgr.list[REL_CATALOG].rel && (mode == -1 || (int)lock->rel_lock == mode)) return true;
	}
	return false;
}

static bool
h_ddl(Catalog* self, Tr* tr, uint8_t* op, int flags)
{
	mc_check(! connected || h_locked(LOCK_EXCLUSIVE), "unlocked", "schema change is replayed without the exclusive lock of the catalog");
	return catalog_execute(self, tr, op, flags);
}

static void
h_execute(Dtr* dtr, Dispatch* dispatch)
{
	mc_check(h_locked(-1), "unlocked", "rows are replayed without a lock of the catalog");
	mc_check(dtr->program->repl, "repl-flag", "transaction of the replica is not marked");
	x_count = 0;
	list_foreach(&dispatch->list) {
		auto req = list_at(Req, link);
		mc_check(req->type == REQ_REPLAY, "harness", "request");
		for (int i = 0; i < x_count; i++) mc_check(x_part[i] != req->part, "request-twice", "a partition has two requests");
		mc_check(x_count < 4, "harness", "requests");
		Pod pod;
		memset(&pod, 0, sizeof(pod));
		pod.part = req->part;
		x_part[x_count] = req->part;
		x_tr[x_count] = tr_allocate();
		tr_begin(x_tr[x_count]);
		pod_replay(&pod, x_tr[x_count++], &req->arg);
	}
	dispatch_reset(dispatch, &dtr->dispatch_mgr.cache_req);
	dispatch_free(dispatch);
}

static void
h_commit(Dtr* dtr)
{
	(void)dtr;
	Write write;
	write_init(&write);
	write_begin(&write);
	for (int i = 0; i < x_count; i++) write_add(&write, &x_tr[i]->log.write_log);
	WriteList list;
	write_list_init(&list);
	write_list_add(&list, &write);
	wal_mgr_write(&db->wal_mgr, &list);
	for (int i = 0; i < x_count; i++) {
		track_lsn_follow(&x_part[i]->track, write.header.lsn);
		tr_commit(x_tr[i]);
		tr_free(x_tr[i]);
	}
	write_free(&write);
}

// ---------------------------------------------------------------- primary
static void
p_register(bool create)
{
	// as the start of the server, the replicas are in its state
	replica_mgr_init(&replica_mgr, db);
	opt_int_set(&state()->repl, false);
	if (create) {
		auto c = replica_config_allocate();
		Uuid id;
		Str s = t_str(node_id[REPLICA]);
		uuid_set(&id, &s);
		replica_config_set_id(c, &id);
		replica_mgr_create(&replica_mgr, c, false);
		replica_config_free(c);
	} else replica_mgr_open(&replica_mgr);
	opt_int_set(&state()->repl, true);
	mc_check(replica_mgr.list_count == 1, "registered", "%d replicas are registered", replica_mgr.list_count);
	replica = container_of(list_first(&replica_mgr.list), Replica, link);
	streamer = &replica->streamer;
	streamer->endpoint = &replica->config->endpoint;
	uuid_get(&replica->config->id, streamer->replica_id, sizeof(streamer->replica_id));
	streamer->client = client_create();
	client_set_endpoint(streamer->client, streamer->endpoint);
}

static void
p_disconnect(void)
{
	if (connected) streamer_close(streamer);
}

static void
p_unregister(bool closed)
{
	p_disconnect();
	if (! closed) return;
	client_free(streamer->client);
	replica_mgr_free(&replica_mgr);
}

// as streamer_client(), until limit messages are acknowledged or nothing is left
static void
p_stream(int limit)
{
	auto failed = error_catch(
		if (! connected) streamer_connect(streamer);
		while (limit-- && state_lsn() > streamer->lsn) {
			auto before = streamer->lsn;
			mc_check(streamer_collect(streamer), "harness", "collect");
			mc_check(streamer->lsn > before, "stuck", "nothing is sent after %d, the log is at %d", (int)before, (int)state_lsn());
			streamer_write(streamer, &streamer->wal_cursor.buf);
			streamer_next(streamer);
		}
	);
	mc_check(! failed || lost, "stream", "the streamer fails: %s", am_error_text());
	if (failed) streamer_close(streamer);
	lost = false;
	lose = LOSE_NO;
}

// ---------------------------------------------------------------- checks
static void
r_verify(const char* what, bool last)
{
	node_to(REPLICA);
	t_sound(what);
	auto lsn = state_lsn();
	int at = -1;
	for (int i = 0; i <= acked; i++) if (hist_lsn[i] == lsn) at = i;
	mc_check(at >= 0, "lsn", "%s: the replica is at %d, no transaction has this position", what, (int)lsn);
	mc_check(t_same(&hist[at]), "state", "%s: replica at transaction %d of %d: %s", what, at, acked, why);
	mc_check(! last || at == acked, "behind", "%s: the replica is at transaction %d of %d", what, at, acked);
	for (; replica_at < at; replica_at++) dropped |= hist_drop[replica_at + 1];
	if (last)
		list_foreach(&db->catalog.table_mgr.mgr.list) {
			auto table = table_of(list_at(Relation, link));
			for (int i = 0; i < NT; i++) {
				MTab* t = &hist[acked].t[i];
				if (! t->used || t->uid != (int)table->config->id.b || ! t->identity || saved) continue;
				mc_check(t->identity <= (int64_t)sequence_get(&table->seq), "identity", "%s: next identity of the replica is %d, it was set to %d", what, (int)sequence_get(&table->seq), (int)t->identity);
			}
		}
	node_to(PRIMARY);
}

enum { STREAM = OPS, STREAM_ONE, LOSE, CUT, NO_REPLY, LEAVE, R_SAVE, R_RESTART, ALL };
static const char* repl_name[] = { "stream", "stream one", "lose request", "cut request", "lose reply", "disconnect", "replica checkpoint", "replica restart" };
static int run_op;

static void
r_run(void* arg)
{
	(void)arg;
	switch (run_op) {
	case STREAM: p_stream(-1); break;
	case STREAM_ONE: p_stream(1); break;
	case LOSE: lose = LOSE_REQUEST; p_stream(1); break;
	case CUT: lose = LOSE_PART; p_stream(1); break;
	case NO_REPLY: lose = LOSE_REPLY; p_stream(1); break;
	case LEAVE: p_disconnect(); break;
	case R_SAVE:
		node_to(REPLICA);
		saved = true; // (C32 set-identity)
		t_checkpoint();
		dropped = false;
		node_to(PRIMARY);
		break;
	case R_RESTART:
		p_disconnect();
		node_to(REPLICA);
		t_close();
		t_forget();
		t_open(false);
		node_to(PRIMARY);
		break;
	}
}

// a power loss of both, or a crash of both processes
static void
r_crash(void)
{
	mc_log("crash");
	mc_nontrivial();
	unlock_all();
	am_self()->cancel_pause = 0;
	if (sync_log) cfs_crash(CFS_TORN);
	else cfs_crash_exact();
	connected = lost = false;
	lose = LOSE_NO;
	memset(nodes, 0, sizeof(nodes));
	node_set(PRIMARY);
	t_forget();
	auto failed = error_catch( t_open(false); );
	mc_check(! failed, "open", "primary does not open after a crash: %s", am_error_text());
	mc_check(state_lsn() == hist_lsn[acked] && t_same(&hist[acked]), "primary", "primary changed by a crash: %s", why);
	node_to(REPLICA);
	t_forget();
	failed = error_catch( t_open(false); );
	mc_check(! failed, "open", "replica does not open after a crash: %s", am_error_text());
	node_to(PRIMARY);
	p_register(false);
	r_verify("after a crash", false);
}

// false: not possible
static bool
r_step(int op)
{
	if (op < OPS) {
		if (op == REFRESH || (op == RESTART && dropped)) return false; // (C32 drop-replay)
		Model m = hist[acked];
		value++;
		if (! m_apply(&m, op)) { value--; return false; }
		value--;
		if (op == RESTART) p_unregister(true);
		auto wait = &replica->wal_slot.on_write;
		auto before = state_lsn();
		if (op != RESTART) wait->signal = false;
		if (! t_step(op)) mc_check(false, "harness", "step");
		bus_step(&am_task->bus);
		mc_check(! connected || op == RESTART || state_lsn() == before || wait->signal, "wait", "the streamer is not woken up by transaction %d", (int)state_lsn());
		hist_lsn[acked] = state_lsn();
		hist_drop[acked] = op == DROP;
		hist_create[acked] = op == CREATE;
		if (op == RESTART) p_register(false);
		return true;
	}
	bool behind = state_lsn() > replica->wal_slot.lsn;
	if (op >= STREAM_ONE && op <= NO_REPLY && connected && ! behind) return false;
	if (op == STREAM && connected && ! behind) return false;
	if (op == LEAVE && ! connected) return false;
	if (op == R_RESTART && nodes[REPLICA].dropped) return false;
	mc_log("%s", repl_name[op - STREAM]);
	mc_step(1);
	run_op = op;
	// (C32: crashes while tables are created or dropped)
	bool may = crashes && ! dropped && ! nodes[REPLICA].dropped;
	for (int i = replica_at + 1; i <= acked; i++) may &= ! hist_drop[i] && ! hist_create[i];
	cfs_arm_crash(may);
	auto crashed = cfs_run(r_run, NULL);
	cfs_arm_crash(false);
	if (crashed) {
		r_crash();
		return true;
	}
	if (op != LEAVE) r_verify(repl_name[op - STREAM], op == STREAM);
	return true;
}

static void
r_start(void)
{
	t_start_config();
	opt_int_set(&config()->repl_readahead, variant ? 1 : 65536);
	cfs_reset();
	cfs_mkdir("/mem");
	for (int i = 0; i < 2; i++) {
		char path[64];
		cfs_mkdir(node_dir[i]);
		snprintf(path, sizeof(path), "%s/storage", node_dir[i]);
		cfs_mkdir(path);
	}
	memset(hist, 0, sizeof(hist));
	memset(nodes, 0, sizeof(nodes));
	acked = issued = replica_at = 0;
	uids = value = 0;
	saved = dropped = connected = lost = false;
	lose = LOSE_NO;
	faulty = true;
	node_set(PRIMARY);
	t_forget();
	auto failed = error_catch( t_open(true); );
	mc_check(! failed, "bootstrap", "new database does not open: %s", am_error_text());
	hist_lsn[0] = state_lsn();
	node_to(REPLICA);
	t_forget();
	failed = error_catch( t_open(true); );
	mc_check(! failed, "bootstrap", "new database does not open: %s", am_error_text());
	node_to(PRIMARY);
	p_register(true);
	static bool once;
	if (! once) { once = true; endpoint_init(&endpoint); }
	memset(&session, 0, sizeof(session));
	dtr_init(&session.dtr, NULL);
	session.program = &program;
}

static void
r_history(int depth)
{
	sync_log = crashes ? mc_choose(2) : 1;
	variant = mc_choose(2);
	r_start();
	mc_check(r_step(CREATE), "harness", "create");
	t_keys();
	if (crashes) r_step(STREAM);
	int ops[2] = { mc_choose(ALL), mc_choose(ALL) };
	if (! mc_split()) return;
	mc_budget(crashes);
	for (int i = 0; i < depth; i++) {
		if (! r_step(i < 2 ? ops[i] : (int)mc_choose(ALL))) return;
		if (crashes && ! mc_budget_left()) break;
	}
	mc_budget(0);
	if (! crashes) mc_nontrivial();
	r_step(STREAM);
	r_verify("end", true);
	r_step(R_RESTART);
	r_verify("replica restarted", true);
	p_unregister(true);
	t_close();
	// the replica becomes a primary
	node_to(REPLICA);
	if (m_find(&hist[acked], "t1")) t_step(PUT_BOTH);
	if (! dropped) t_step(RESTART);
	t_close();
	mc_check(cfs_open_fds() == 0, "descriptors", "%d descriptors are left open", cfs_open_fds());
}

static void sc_repl(void) { crashes = false; r_history(mc_q(4, 5)); }
static void sc_crash(void) { crashes = true; r_history(mc_q(3, 4)); }
McScenario mc_scenarios[] = {
	{ "repl", sc_repl },
	{ "crash", sc_crash },
	{ NULL, NULL }
};
