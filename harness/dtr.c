// C30: distributed transactions. The real coordinator side (executor, dispatch,
// commit task) and the real partition side (backend, pod, transaction lists,
// partitions) run as coroutines of one thread; every message between them is
// delivered when the explorer says so. Committed transactions must be equal to
// running them one at a time in the order of their commit, in the partitions
// and in the log; an aborted transaction leaves nothing.
#include "rowkit.h"
#include <amelie_db>
#include <amelie_sync>
#include <amelie_vm>

static Msg* d_recv(void);
static Msg* d_recv_try(void);
static void d_commit_send(Task*, Msg*);
#define task_send d_commit_send
#define task_recv d_recv
#define task_recv_try d_recv_try
#include "executor/commit.c"
#undef task_send
#include "backend/amelie_backend.h"
#include "backend/backend.c"
#include "backend/pod.c"
#undef task_recv
#undef task_recv_try

#ifdef ONE
enum { IS_ONE = 1 };
#else
enum { IS_ONE = 0 };
#endif
enum { N_S = 4, N_P = 3, N_K = 1 };
enum { OP_READ, OP_PUT, OP_DEL, OP_INSERT };
enum { FAIL_NO, FAIL_OP, FAIL_SESSION };

// an actor runs when the driver grants it a step
typedef struct {
	Task*    task;          // messages to the actor
	Event    event;
	bool     waits, granted;
	uint64_t coroutine;
} Actor;

typedef struct {
	Actor    gate;
	int      id;
	// program
	int      mask;          // partitions
	int      op[2][N_P];    // by dispatch
	int      dispatches;
	int      fail, fail_at; // partition which fails
	// progress
	int      phase;
	bool     executed[2][N_P], failed_op[2][N_P];
	int      read[2][N_P];
	int      result;        // 0 running, 1 committed, 2 aborted
	bool     logged, snapshot, last;
	Dtr      dtr;
	Program* program;
	Code     code;
	CodeData code_data;
} Session;

static Actor    a_commit, a_part[N_P];
static Session  ss[N_S + 1];
static int      n_s, n_p;
static Part*    parts[N_P];
static Backend* backends[N_P];
static Columns  columns;
static IndexConfig* cfg[1];
static PartArg  arg[N_P];
static Sequence seq;
static Uuid     uuid;
static Executor executor;
static Commit   committer;
static Db       db;
static int      model[N_P], logged[N_P];  // value of the row, 0: absent
static int      wal_fails, wal_failed, in_wal, n_batch, n_commit;
static uint64_t group_min;
static bool     pruned;
static Table    table;       // the partitions of a snapshot

// actors ------------------------------------------------------------------------

static Actor* d_actor(void)
{
	auto id = am_self()->id;
	if (a_commit.coroutine == id) return &a_commit;
	for (int i = 0; i < n_p; i++) if (a_part[i].coroutine == id) return &a_part[i];
	mc_fail("harness", "unknown actor");
}

static void d_gate(Actor* a)
{
	a->waits = true;
	while (!a->granted) event_wait(&a->event, -1);
	a->granted = a->waits = false;
}

static Msg* d_recv_try(void)
{
	auto a = d_actor();
	bus_step(&a->task->bus);
	return mailbox_pop_nowait(&a->task->bus.mailbox);
}

static Msg* d_recv(void)
{
	d_gate(d_actor());
	auto msg = d_recv_try();
	mc_check(msg, "harness", "no message");
	return msg;
}

static bool d_has(Actor* a)
{
	bus_step(&a->task->bus);
	return !list_empty(&a->task->bus.mailbox.list);
}

// run until everybody waits
static void d_settle(void)
{
	do coroutine_yield();
	while (bus_pending(&am_task->bus) || am_task->coroutine_mgr.count_ready);
}

static void d_grant(Actor* a)
{
	a->granted = true;
	event_signal(&a->event);
	d_settle();
}

// partitions --------------------------------------------------------------------

static int d_value(int p)
{
	int64_t key[2] = { p, 0 };
	auto row = kit_row_write(NULL, 2, key, NULL);
	auto it = index_iterator(part_primary(parts[p]));
	int value = iterator_open(it, row) ? kit_int(iterator_at(it), 1) : 0;
	iterator_close(it);
	free(row);
	return value;
}

static int d_part(Part* part)
{
	for (int i = 0; i < n_p; i++) if (parts[i] == part) return i;
	mc_fail("harness", "unknown partition");
}

static Row* d_row(int p, int value)
{
	int64_t v[2] = { p, value };
	auto tmp = kit_row_write(NULL, 2, v, NULL);
	auto row = row_copy(parts[p]->heap, tmp);
	free(tmp);
	return row;
}

// the value a transaction writes
static int d_new(int s, int d) { return 100 + s * 10 + d; }

void vm_init(Vm* self, Part* part, Dtr* dtr)
{
	memset(self, 0, sizeof(*self));
	self->part = part;
	self->dtr = dtr;
	reg_init(&self->r);
}
void vm_free(Vm* self) { reg_free(&self->r); }
void vm_reset(Vm* self) { reg_reset(&self->r); }

// the statement, in place of bytecode
void vm_run(Vm* self, Local* local, Tr* tr, Program* program, Code* code, CodeData* data, Buf* arg_, Value* refs, Value* args, Return* ret, bool root, int start)
{
	(void)local; (void)program; (void)code; (void)data; (void)arg_; (void)refs; (void)args; (void)ret; (void)root;
	auto s = &ss[start / 2];
	int d = start % 2, p = d_part(self->part);
	mc_check(!s->executed[d][p], "executed-twice", "a request is executed twice");
	mc_check(d == 0 || s->op[0][p] < 0 || s->executed[0][p], "order", "requests of a transaction are executed out of order");
	s->executed[d][p] = true;
	int value = d_value(p);
	s->read[d][p] = value;
	s->failed_op[d][p] = true;
	switch (s->op[d][p]) {
	case OP_PUT:
		part_insert(self->part, tr, true, d_row(p, d_new(s->id, d)));
		break;
	case OP_INSERT:
		part_insert(self->part, tr, false, d_row(p, d_new(s->id, d)));
		break;
	case OP_DEL: {
		int64_t key[2] = { p, 0 };
		auto row = kit_row_write(NULL, 2, key, NULL);
		Buf* keep = NULL;
		(void)keep;
		part_delete_by(self->part, tr, row);
		free(row);
		break;
	}
	}
	if (s->fail == FAIL_OP && s->fail_at == p && d == s->dispatches - 1) error("failed");
	s->failed_op[d][p] = false;
}

// a session wakes up some time after its last request and asks to commit
static void d_commit_send(Task* task, Msg* msg)
{
	auto s = container_of((Dtr*)msg, Session, dtr);
	if (!s->last) d_gate(&s->gate);
	s->phase = 7;
	task_send(task, msg);
}

// the log -----------------------------------------------------------------------

static uint64_t lsn;

void __wrap_wal_mgr_write(WalMgr* self, WriteList* list)
{
	(void)self;
	// others go on while the log is written
	in_wal = true;
	d_gate(&a_commit);
	in_wal = false;
	if (wal_fails == 1) { wal_fails = 0; error("disk is full"); }
	int count = 0;
	list_foreach(&list->list) {
		auto write = list_at(Write, link);
		auto dtr = container_of(write, Dtr, write);
		auto s = container_of(dtr, Session, dtr);
		mc_check(s >= ss && s < ss + n_s, "log-unknown", "an unknown transaction is logged");
		mc_check(!s->logged, "logged-twice", "a transaction is logged twice");
		s->logged = true;
		write_end(write, ++lsn);
		// replay
		int left = write->header.count;
		list_foreach(&write->list) {
			auto log = list_at(WriteLog, link);
			auto cmd = (RecordCmd*)log->meta.start;
			auto end = (RecordCmd*)log->meta.position;
			int pos = 0;
			for (; cmd < end; cmd++, left--) {
				int size = 0;
				while (size < (int)cmd->size) {
					auto v = iov_pointer(&log->iov) + pos++;
					auto row = (Row*)v->iov_base;
					mc_check(v->iov_len == (size_t)row_size(row), "log-row", "a logged row has another size");
					int p = kit_int(row, 0);
					logged[p] = cmd->cmd == CMD_REPLACE ? kit_int(row, 1) : 0;
					size += v->iov_len;
				}
				mc_check(size == (int)cmd->size, "log-size", "the commands of a record have other sizes");
			}
		}
		mc_check(left == 0, "log-count", "a record has another number of commands");
		count++;
	}
	mc_check(count == list->list_count, "log-list", "the list has another number of records");
	list->lsn = lsn;
}

// sessions ----------------------------------------------------------------------

static void d_dispatch(Session* s, int d)
{
	auto mgr = &s->dtr.dispatch_mgr;
	auto dispatch = dispatch_create(&mgr->cache);
	bool last = d == s->dispatches - 1;
	if (!last) dispatch_set_returning(dispatch);
	if (last) dispatch_set_close(dispatch);
	for (int p = 0; p < n_p; p++)
		if (s->mask & 1 << p && s->op[d][p] >= 0)
			dispatch_add(dispatch, &mgr->cache_req, REQ_EXECUTE, s->id * 2 + d, &s->code, &s->code_data, parts[p]);
	executor_send(&executor, &s->dtr, dispatch);
	if (!last) dispatch_wait(dispatch);
}

// a committed transaction must have seen and done what it does alone
static void d_committed(Session* s)
{
	mc_check(s->fail == FAIL_NO, "error-lost", "transaction %d failed and is committed", s->id);
	bool writes = false;
	for (int d = 0; d < s->dispatches; d++)
		for (int p = 0; p < n_p; p++) {
			if (!(s->mask & 1 << p) || s->op[d][p] < 0) continue;
			mc_check(s->executed[d][p], "not-executed", "transaction %d is committed before it is executed on partition %d", s->id, p);
			mc_check(!s->failed_op[d][p], "error-lost", "transaction %d failed on partition %d and is committed", s->id, p);
			mc_check(s->read[d][p] == model[p], "stale-read", "committed transaction %d has read %d from partition %d where the committed transactions before it leave %d",
			         s->id, s->read[d][p], p, model[p]);
			int before = model[p];
			switch (s->op[d][p]) {
			case OP_PUT: case OP_INSERT: model[p] = d_new(s->id, d); break;
			case OP_DEL: model[p] = 0; break;
			}
			if (s->op[d][p] == OP_PUT || s->op[d][p] == OP_INSERT || (s->op[d][p] == OP_DEL && before)) writes = true;
		}
	mc_check(s->logged == writes, "not-logged", "committed transaction %d is%s logged", s->id, s->logged ? "" : " not");
	n_commit++;
}

static void d_session(void* arg_)
{
	Session* s = arg_;
	d_gate(&s->gate);
	s->phase = 1;
	dtr_prepare(&s->dtr, s->program);
	bool failed = false;
	for (int d = 0; d < s->dispatches; d++) {
		d_dispatch(s, d);
		s->phase++;
		if (d < s->dispatches - 1) d_gate(&s->gate);
	}
	if (s->fail == FAIL_SESSION) d_gate(&s->gate);
	s->phase = 5;
	Buf* error = NULL;
	if (s->fail == FAIL_SESSION) error = error_create_cstr("session failed");
	failed = error_catch( commit(&committer, &s->dtr, error) );
	s->phase = 6;
	s->result = failed ? 2 : 1;
	mc_log("%s(%d) ", failed ? "aborted" : "committed", s->id);
	if (!failed) d_committed(s);
	else if (s->logged) mc_fail("aborted-logged", "transaction %d is aborted but stays in the log", s->id);
}

static void d_actor_init(Actor* a, Task* task)
{
	memset(a, 0, sizeof(*a));
	a->task = task;
	event_init(&a->event);
}

static void d_backend_main(void* arg_)
{
	int p = (intptr_t)arg_;
	pod_mgr_create(&backends[p]->pod_mgr, parts[p]);
	backend_main(backends[p]);
}

static void t_open(int initial)
{
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "pk", TYPE_INT, 8);
	kit_column(&columns, "v", TYPE_INT, 8);
	columns.identity = columns_first(&columns);
	cfg[0] = kit_index(&columns, "primary", INDEX_HASH, true, true, 0);
	uuid_init(&uuid);
	uuid.a = 7;
	sequence_init(&seq);
	executor_init(&executor);
	memset(&db, 0, sizeof(db));
	commit_init(&committer, &db, &executor);
	lsn = n_batch = n_commit = wal_failed = in_wal = 0;
	wal_fails = 0;
	group_min = 0;
	pruned = false;
	for (int p = 0; p < n_p; p++) {
		arg[p].seq = &seq;
		arg[p].unlogged = false;
		arg[p].id_table = &uuid;
		Id id = {0};
		id.id = p + 1;
		parts[p] = part_allocate(&id, &arg[p]);
		part_index_create(parts[p], cfg[0]);
		model[p] = logged[p] = 0;
		if (initial & 1 << p) {
			auto tr = tr_allocate();
			tr_begin(tr);
			part_insert(parts[p], tr, true, d_row(p, 50 + p));
			tr_commit(tr);
			tr_free(tr);
			model[p] = logged[p] = 50 + p;
		}
		backends[p] = backend_allocate();
		d_actor_init(&a_part[p], &backends[p]->task);
		a_part[p].coroutine = coroutine_create(d_backend_main, (void*)(intptr_t)p);
	}
	memset(&table, 0, sizeof(table));
	list_init(&table.part_mgr.list);
	for (int p = 0; p < n_p; p++) { list_init(&parts[p]->link); list_append(&table.part_mgr.list, &parts[p]->link); }
	d_actor_init(&a_commit, &committer.task);
	a_commit.coroutine = coroutine_create(commit_main, &committer);
	memset(ss, 0, sizeof(ss));
}

static void t_session(int i)
{
	auto s = &ss[i];
	s->id = i;
	d_actor_init(&s->gate, NULL);
	s->program = program_allocate();
	if (s->snapshot) {
		s->program->snapshot = true;
		access_add(&s->program->access, &table.rel, LOCK_SHARED_RW);
	}
	code_init(&s->code);
	code_data_init(&s->code_data);
	dtr_init(&s->dtr, NULL);
	s->gate.coroutine = coroutine_create(d_session, s);
}

// all transactions ended: a reader on each partition applies the decisions
static void t_finish(void)
{
	for (int i = 0; i < n_s; i++)
		mc_check(ss[i].result, "unfinished", "transaction %d neither commits nor aborts", i);
	mc_check(list_empty(&executor.list), "left-registered", "an ended transaction is registered");
	for (int p = 0; p < n_p; p++)
		mc_check(model[p] == logged[p], "log-order", "replaying the log leaves %d in partition %d, committed is %d", logged[p], p, model[p]);
	auto s = &ss[n_s];
	n_s++;
	s->mask = (1 << n_p) - 1;
	s->dispatches = 1;
	s->last = true;
	t_session(n_s - 1);
	d_settle();
	d_grant(&s->gate);
	for (int p = 0; p < n_p; p++) while (d_has(&a_part[p])) d_grant(&a_part[p]);
	for (int p = 0; p < n_p; p++) {
		mc_check(s->executed[0][p], "reader", "the reader is not executed");
		mc_check(s->read[0][p] == model[p], "final", "partition %d has %d, the committed transactions leave %d", p, s->read[0][p], model[p]);
		auto track = &parts[p]->track;
		mc_check(track->prepared.list_count == 1, "left-prepared", "partition %d keeps %d transactions after all were decided", p, track->prepared.list_count - 1);
		// rows: only those which are in the table
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, parts[p]->heap, NULL);
		int rows = 0;
		while (heap_iterator_has(&it)) { rows++; heap_iterator_next(&it); }
		mc_check(rows == (model[p] != 0), "rows-left", "partition %d has %d rows for %d keys", p, rows, model[p] != 0);
	}
	while (d_has(&a_commit)) d_grant(&a_commit);
	mc_check(s->result == 1, "reader", "the reader does not commit");
}

static void t_close(void)
{
	static Msg stop;
	msg_init(&stop, MSG_STOP);
	mailbox_append(&committer.task.bus.mailbox, &stop);
	d_grant(&a_commit);
	for (int i = 0; i < n_s; i++) {
		auto s = &ss[i];
		dtr_free(&s->dtr);
		code_free(&s->code);
		code_data_free(&s->code_data);
		program_free(s->program);
	}
	for (int p = 0; p < n_p; p++) {
		coroutine_kill(a_part[p].coroutine);
		tr_list_reset(&parts[p]->track.prepared, &parts[p]->track.cache);
		pod_mgr_shutdown(&backends[p]->pod_mgr);
		backend_free(backends[p]);
		part_free(parts[p]);
	}
	commit_free(&committer);
	executor_free(&executor);
	index_config_free(cfg[0]);
	columns_free(&columns);
}

// exploration -------------------------------------------------------------------

static uint64_t t_hash(uint64_t seed)
{
	uint64_t h = seed;
#define H(x) do { uint64_t t_ = (uint64_t)(x); h = mc_hash(h, &t_, 8); } while (0)
	for (int i = 0; i < n_s; i++) {
		auto s = &ss[i];
		H(s->phase); H(s->result); H(s->logged); H(s->gate.waits);
		H(s->dtr.group); H(s->dtr.group_order); H(s->dtr.abort);
		h = mc_hash(h, s->executed, sizeof(s->executed));
		h = mc_hash(h, s->failed_op, sizeof(s->failed_op));
		h = mc_hash(h, s->read, sizeof(s->read));
		list_foreach(&s->dtr.dispatch_mgr.ltrs) {
			auto ltr = list_at(Ltr, link);
			H(d_part(ltr->part)); H(ltr->closed); H(ltr->consensus.abort); H(ltr->consensus.commit);
			H(ltr->tr ? ltr->tr->id : 0); H(ltr->error != NULL);
		}
		H(-1);
	}
	for (int p = 0; p < n_p; p++) {
		d_has(&a_part[p]);
		list_foreach(&a_part[p].task->bus.mailbox.list) {
			auto msg = list_at(Msg, link);
			H(msg->id);
			Ltr* ltr;
			if (msg->id == MSG_LTR) ltr = (Ltr*)msg;
			else if (msg->id == MSG_LTR_STOP) ltr = container_of(msg, Ltr, queue_close);
			else { ltr = ((Req*)msg)->ltr; H(((Req*)msg)->start); }
			H(container_of(ltr->dtr, Session, dtr)->id);
		}
		auto track = &parts[p]->track;
		// messages held back by the pod
		list_foreach(&track->queue.list) H(container_of(((Ltr*)list_at(Msg, link))->dtr, Session, dtr)->id);
		H(-2);
		H(track->seq);
		H(track->consensus.abort); H(track->consensus.commit);
		H(track->consensus_pod.abort); H(track->consensus_pod.commit);
		H(track->pending_consensus.abort); H(track->pending_consensus.commit);
		H(track->lsn); H(track->pending);
		list_foreach(&track->prepared.list) {
			auto tr = list_at(Tr, link);
			H(tr->id);
			for (int i = 0; i < tr->log.count; i++) {
				auto op = log_of(&tr->log, i);
				auto row = log_row_of(&tr->log, op);
				H(op->cmd);
				H(row->row ? kit_int(row->row, 1) : 0);
				H(row->row_prev ? kit_int(row->row_prev, 1) : 0);
			}
		}
		H(d_value(p)); H(model[p]); H(logged[p]);
	}
	d_has(&a_commit);
	list_foreach(&a_commit.task->bus.mailbox.list) {
		auto msg = list_at(Msg, link);
		H(container_of((Dtr*)msg, Session, dtr)->id);
	}
	H(-3);
	list_foreach(&executor.list) {
		auto dtr = list_at(Dtr, link);
		H(container_of(dtr, Session, dtr)->id);
	}
	H(executor.id); H(in_wal); H(wal_fails); H(group_min);
#undef H
	return h;
}

// every order of the messages
static void t_explore(uint64_t seed)
{
	d_settle();
	int fails = 1;
	for (int step = 0;; step++) {
		Actor* list[N_S + N_P + 2];
		int kind[N_S + N_P + 2];
		int n = 0;
		for (int i = 0; i < n_s; i++) if (ss[i].gate.waits) { list[n] = &ss[i].gate; kind[n++] = i; }
		for (int p = 0; p < n_p; p++) if (a_part[p].waits && d_has(&a_part[p])) { list[n] = &a_part[p]; kind[n++] = 100 + p; }
		if (in_wal) {
			list[n] = &a_commit; kind[n++] = 200;
			if (wal_failed < fails) { list[n] = &a_commit; kind[n++] = 201; }
		}
		else if (a_commit.waits && d_has(&a_commit)) { list[n] = &a_commit; kind[n++] = 202; }
		if (n == 0) break;
		int c = 0;
		if (!pruned) {
			if (n > 1) c = mc_choose(n);
		}
		if (kind[c] < 100) mc_log("s%d ", kind[c]);
		else if (kind[c] < 200) mc_log("p%d ", kind[c] - 100);
		else mc_log(kind[c] == 200 ? "wal " : kind[c] == 201 ? "wal! " : "commit ");
		if (kind[c] == 201) { wal_fails = 1; wal_failed++; }
		mc_step(1);
		d_grant(list[c]);
		if (kind[c] >= 200 && !in_wal) {
			// groups before the oldest one are forgotten by the commit task
			uint64_t min = executor.id;
			list_foreach(&executor.list) {
				auto dtr = list_at(Dtr, link);
				if (dtr->group < min) min = dtr->group;
			}
			if (min > group_min) group_min = min;
		}
		if (!pruned && !mc_visit(t_hash(seed))) pruned = true;
		mc_check(step < 1000, "endless", "no end");
	}
	t_finish();
	int aborted = 0;
	for (int i = 0; i < n_s; i++) aborted += ss[i].result == 2;
	if (aborted && n_commit > 1) mc_nontrivial();
}

// one partition, every transaction touches it
static void s_single(void)
{
	n_p = 1;
	n_s = IS_ONE ? mc_q(2, 3) : mc_q(3, 4);
	int initial = mc_tier || IS_ONE ? mc_choose(2) : 1;
	int op[N_S], fail[N_S];
	for (int i = 0; i < n_s; i++) { op[i] = mc_choose(4); fail[i] = mc_choose(3); }
	uint64_t seed = initial + 1;
	for (int i = 0; i < n_s; i++) seed = seed * 12 + op[i] * 3 + fail[i];
	if (!mc_split()) return;
	t_open(initial);
	for (int i = 0; i < n_s; i++) {
		auto s = &ss[i];
		s->mask = 1;
		s->dispatches = 1;
		s->op[0][0] = op[i];
		s->fail = fail[i];
		s->fail_at = 0;
		t_session(i);
	}
	t_explore(seed);
	t_close();
}

// several partitions
static void d_programs(int parts_, int sessions, int ops, int fails, int dispatches, bool snapshots)
{
	static const int op_list[] = { OP_PUT, OP_READ, OP_INSERT, OP_DEL };
	n_p = parts_;
	n_s = sessions;
	Session list[N_S];
	memset(list, 0, sizeof(list));
	uint64_t seed = 77;
	for (int i = 0; i < n_s; i++) {
		auto s = &list[i];
		int all = (1 << n_p) - 1;
		s->dispatches = 1 + (dispatches > 1 ? mc_choose(dispatches) : 0);
		s->snapshot = s->dispatches > 1 && snapshots ? mc_choose(2) : 0;
		int first = mc_choose(all) + 1;
		int op = op_list[mc_choose(ops)];
		// the second part of a snapshot may use other partitions
		int second = 0;
		if (s->dispatches > 1) { second = mc_choose(all) + 1; if (!s->snapshot && second & ~first) second &= first; if (!second) second = first; }
		s->mask = s->snapshot ? all : first;
		for (int p = 0; p < n_p; p++) {
			s->op[0][p] = first >> p & 1 ? op : -1;
			s->op[1][p] = second >> p & 1 ? op_list[0] : -1;
		}
		s->fail = mc_choose(fails);
		if (s->fail == 1 && fails > 2) {
			// on one of its partitions
			int last = s->dispatches > 1 ? second : first, n = 0, at[N_P];
			for (int p = 0; p < n_p; p++) if (last >> p & 1) at[n++] = p;
			s->fail_at = at[mc_choose(n)];
			s->fail = FAIL_OP;
		} else if (s->fail) s->fail = FAIL_SESSION;
		uint64_t v[] = { s->dispatches, s->snapshot, first, op, second, s->fail, s->fail_at };
		seed = mc_hash(seed, v, sizeof(v));
	}
	if (!mc_split()) return;
	t_open(0);
	for (int i = 0; i < n_s; i++) {
		ss[i] = list[i];
		t_session(i);
	}
	t_explore(seed);
	t_close();
}

// transactions over any of two partitions, in one request
static void s_pairs(void) { d_programs(2, 3, mc_q(1, 3), mc_q(2, 3), 1, false); }
// in two requests
static void s_dispatches(void) { d_programs(2, 2, mc_q(1, 2), 3, 2, true); }
// three partitions
static void s_three(void) { d_programs(3, 3, 1, mc_q(1, 2), 1, false); }
// four transactions
static void s_four(void) { d_programs(2, 4, 1, 2, 1, false); }

McScenario mc_scenarios[] = {
	{ "single", s_single, 0 },
#ifndef ONE
	{ "pairs", s_pairs, 0 },
	{ "dispatches", s_dispatches, 0 },
	{ "three", s_three, 0 },
	{ "four", s_four, 1 },
#endif
	{ NULL, NULL, 0 },
};
