// C18: messages, events, rpc and timed waits between tasks on their own
// threads; a lost wakeup ends as a deadlock which the scheduler reports.
#include "am.h"
#include "sc.h"

enum { NT_ = 4, NM = 4 };
static Task  h_task[NT_];
static int   h_n SC_MON;
static void  h_start(int n, MainFunction* fn)
{
	h_n = n;
	for (int i = 0; i < n; i++) task_init(&h_task[i]);
	for (int i = 0; i < n; i++) task_create(&h_task[i], "t", fn[i], (void*)(intptr_t)i);
}
static void h_stop(void)
{
	for (int i = 0; i < h_n; i++) task_wait(&h_task[i]);
	for (int i = 0; i < h_n; i++) {
		mc_check(!bus_pending(&h_task[i].bus), "left-over", "something is pending for task %d after it ended", i);
		task_free(&h_task[i]);
	}
}
static void h_ring(int size)
{
	if (!size) return;
	for (int i = 0; i < h_n; i++) { ring_free(&h_task[i].bus.ring); ring_prepare(&h_task[i].bus.ring, size); }
}

// ---------------------------------------------------------------- messages

typedef struct { Msg msg; int from, no; } HMsg;
static HMsg msgs[NT_][NM];
static int  m_count SC_MON, m_senders SC_MON, m_again SC_MON;
static int  m_next[NT_] SC_MON, m_got SC_MON;

static void m_sender(void* arg)
{
	int i = (int)(intptr_t)arg;
	for (int k = 0; k < m_count; k++) {
		msgs[i][k].from = i; msgs[i][k].no = k;
		msg_init(&msgs[i][k].msg, MSG_REQ);
		task_send(&h_task[0], &msgs[i][k].msg);
	}
}
static void m_receiver(void* arg)
{
	while (m_got < m_senders * m_count) {
		HMsg* m = (HMsg*)task_recv();
		mc_check(m->no == m_next[m->from], "order", "message %d of sender %d arrived, expected %d", m->no, m->from, m_next[m->from]);
		m_next[m->from]++;
		m_got++;
	}
	coroutine_yield();
	mc_check(!task_recv_try(), "duplicate", "a message was received twice");
}
static void s_msgs(int senders, int count, int ring, int pre, int fl)
{
	m_senders = senders; m_count = count; m_got = 0;
	memset(m_next, 0, sizeof(m_next));
	mc_log("%d senders, %d messages each, ring %d", senders, count, ring);
	if (!mc_split()) return;
	sc_begin(pre, fl);
	h_n = senders + 1;
	for (int i = 0; i < h_n; i++) task_init(&h_task[i]);
	h_ring(ring);
	// the receiver must be open before somebody sends
	task_create(&h_task[0], "r", m_receiver, NULL);
	for (int i = 1; i < h_n; i++) task_create(&h_task[i], "s", m_sender, (void*)(intptr_t)i);
	h_stop();
	mc_check(m_got == senders * count, "lost", "%d messages of %d arrived", m_got, senders * count);
	sc_end();
	mc_nontrivial();
}
static void s_send1(void) { s_msgs(1, 3, 0, mc_q(3, 5), SC_TSO); }
static void s_send2(void) { s_msgs(2, 2, 0, mc_q(2, 3), SC_TSO); }
static void s_full(void)
{
	int k = mc_choose(3);
	s_msgs(k == 0 ? 1 : 2, k == 2 ? 1 : 3, k == 2 ? 1 : 2, mc_q(2, 3), 0);
}

// ---------------------------------------------------------------- ping-pong of one message

static int pp_rounds SC_MON;
static void pp_main(void* arg)
{
	int i = (int)(intptr_t)arg;
	for (int k = 0; k < pp_rounds; k++) {
		HMsg* m = (HMsg*)task_recv();
		mc_check(m->no == k * 2 + i, "order", "task %d received round %d instead of %d", i, m->no, k * 2 + i);
		m->no++;
		if (!(i == 1 && k == pp_rounds - 1)) task_send(&h_task[1 - i], &m->msg);
	}
}
static void s_pingpong(void)
{
	pp_rounds = 2;
	if (!mc_split()) return;
	sc_begin(mc_q(3, 4), SC_TSO);
	h_n = 2;
	for (int i = 0; i < 2; i++) task_init(&h_task[i]);
	msg_init(&msgs[0][0].msg, MSG_REQ);
	msgs[0][0].no = 0;
	for (int i = 0; i < 2; i++) task_create(&h_task[i], "t", pp_main, (void*)(intptr_t)i);
	task_send(&h_task[0], &msgs[0][0].msg);
	h_stop();
	sc_end();
	mc_nontrivial();
}

// ---------------------------------------------------------------- events

static Event ev[2];
static Event ev_parent;
static volatile int ev_sent[2], ev_ready;
static int ev_n SC_MON, ev_kind SC_MON, ev_events SC_MON;

static void e_waiter(void* arg)
{
	event_init(&ev_parent);
	for (int i = 0; i < ev_events; i++) { event_init(&ev[i]); event_attach(&ev[i]); if (ev_kind == 1) event_set_parent(&ev[i], &ev_parent); }
	if (ev_kind == 1) event_attach(&ev_parent);
	__atomic_store_n(&ev_ready, 1, __ATOMIC_SEQ_CST);
	cond_signal(&am_task->status, 0);
	Event* e = ev_kind == 1 ? &ev_parent : &ev[0];
	for (;;) {
		int sum = 0;
		for (int i = 0; i < ev_events; i++) sum += __atomic_load_n(&ev_sent[i], __ATOMIC_SEQ_CST);
		if (sum == ev_n) break;
		event_wait(e, -1);
	}
}
static void e_signaller(void* arg)
{
	int i = (int)(intptr_t)arg;
	Event* e = &ev[ev_kind == 1 ? i - 1 : 0];
	for (int k = 0; k < ev_n / (h_n - 1); k++) {
		__atomic_fetch_add(&ev_sent[ev_kind == 1 ? i - 1 : 0], 1, __ATOMIC_SEQ_CST);
		event_signal(e);
	}
}
static void events(int signallers, int each, int kind, int pre)
{
	ev_n = signallers * each; ev_kind = kind; ev_events = kind == 1 ? signallers : 1;
	ev_sent[0] = ev_sent[1] = ev_ready = 0;
	mc_log("%d signallers, %d signals each%s", signallers, each, kind ? ", through a parent" : "");
	if (!mc_split()) return;
	sc_begin(pre, SC_TSO);
	h_n = signallers + 1;
	for (int i = 0; i < h_n; i++) task_init(&h_task[i]);
	task_create(&h_task[0], "w", e_waiter, NULL);
	cond_wait(&h_task[0].status);
	for (int i = 1; i < h_n; i++) task_create(&h_task[i], "s", e_signaller, (void*)(intptr_t)i);
	for (int i = 0; i < h_n; i++) task_wait(&h_task[i]);
	for (int i = 0; i < h_n; i++) task_free(&h_task[i]);
	sc_end();
	mc_nontrivial();
}
static void s_event1(void) { events(1, 3, mc_choose(2), mc_q(3, 5)); }
static void s_event2(void) { events(2, mc_q(1, 2), mc_choose(2), mc_q(2, 3)); }

// ---------------------------------------------------------------- rpc

static int rpc_calls SC_MON, rpc_seen SC_MON, rpc_set_ SC_MON;
static void r_handle(Rpc* rpc, void* arg)
{
	intptr_t v = (intptr_t)rpc->arg;
	rpc_seen++;
	if (v & 1) error("failed %d", (int)v);
}
static void r_server(void* arg)
{
	for (;;) {
		Msg* m = task_recv();
		if (m->id == MSG_STOP) break;
		rpc_execute(rpc_of(m), r_handle, NULL);
	}
}
static void r_client(void* arg)
{
	int i = (int)(intptr_t)arg;
	if (rpc_set_) {
		RpcSet set;
		rpc_set_init(&set);
		rpc_set_prepare(&set, 2);
		for (int k = 0; k < 2; k++) rpc_send(rpc_set_add(&set, k, MSG_REQ, (void*)(intptr_t)(k == rpc_calls - 1 ? 11 : 2)), &h_task[0]);
		bool failed = error_catch( rpc_set_wait(&set) );
		mc_check(failed == (rpc_calls == 1 || rpc_calls == 2), "rpc-result", "a set of calls %s", failed ? "failed" : "did not fail");
		rpc_set_free(&set);
		return;
	}
	for (int k = 0; k < rpc_calls; k++) {
		int before = rpc_seen;
		bool fail = (i + k) & 1;
		bool failed = error_catch( rpc(&h_task[0], MSG_REQ, (void*)(intptr_t)(i * 100 + k * 2 + fail)) );
		mc_check(rpc_seen > before, "rpc-early", "a call returned before it was handled");
		mc_check(failed == fail, "rpc-result", "a call of task %d %s", i, fail ? "returned no error" : "returned an error");
		if (failed) {
			char text[64];
			snprintf(text, sizeof(text), "failed %d", i * 100 + k * 2 + fail);
			mc_check(!strcmp(am_error_text(), text), "rpc-error", "error '%s' instead of '%s'", am_error_text(), text);
		}
	}
}
static void rpcs(int clients, int calls, bool set, int pre)
{
	rpc_calls = calls; rpc_seen = 0; rpc_set_ = set;
	mc_log("%d clients, %d calls%s", clients, calls, set ? " (set)" : "");
	if (!mc_split()) return;
	sc_begin(pre, SC_TSO);
	h_n = clients + 1;
	for (int i = 0; i < h_n; i++) task_init(&h_task[i]);
	task_create(&h_task[0], "srv", r_server, NULL);
	for (int i = 1; i < h_n; i++) task_create(&h_task[i], "cli", r_client, (void*)(intptr_t)i);
	for (int i = 1; i < h_n; i++) task_wait(&h_task[i]);
	msg_init(&msgs[0][0].msg, MSG_STOP);
	task_send(&h_task[0], &msgs[0][0].msg);
	task_wait(&h_task[0]);
	mc_check(rpc_seen == clients * (set ? 2 : calls), "rpc-count", "%d calls were handled instead of %d", rpc_seen, clients * calls);
	for (int i = 0; i < h_n; i++) task_free(&h_task[i]);
	sc_end();
	mc_nontrivial();
}
static void s_rpc1(void) { int k = mc_choose(2); rpcs(1, k ? 1 + mc_choose(3) : 2, k, mc_q(2, 4)); }
static void s_rpc2(void) { rpcs(2, 1, false, mc_q(2, 3)); }

// ---------------------------------------------------------------- timed waits

static int tm_first SC_MON, tm_second SC_MON, tm_ms SC_MON, tm_sent SC_MON, tm_sending SC_MON;
static uint64_t tm_sent_at SC_MON;
static void t_waiter(void* arg)
{
	event_init(&ev[0]);
	event_attach(&ev[0]);
	cond_signal(&am_task->status, 0);
	uint64_t start = time_ms();
	int sent_before = tm_sent;
	bool timedout = event_wait(&ev[0], tm_ms);
	uint64_t now = sc_now_ms();
	tm_first = timedout;
	if (timedout) {
		mc_check(now - start >= (uint64_t)tm_ms, "early-timeout", "timed out after %d ms instead of %d", (int)(now - start), tm_ms);
		mc_check(!sent_before, "lost-signal", "timed out although the signal was sent before the wait");
		// it comes later
		event_wait(&ev[0], -1);
		mc_check(tm_sending, "spurious", "woken without a signal");
	} else
		mc_check(tm_sending, "spurious", "a timed wait was woken without a signal or timeout");
	tm_second = timedout;
	// nothing is left over
	start = time_ms();
	bool again = event_wait(&ev[0], 3);
	mc_check(again, "duplicate-signal", "one signal woke two waits");
	mc_check(sc_now_ms() - start >= 3, "early-timeout", "the second wait timed out early");
}
static void t_signaller(void* arg)
{
	if (tm_second) coroutine_sleep(tm_second);
	tm_sent_at = sc_now_ms();
	tm_sending = 1;
	event_signal(&ev[0]);
	tm_sent = 1;
}
static void s_timed(void)
{
	tm_ms = 1 + mc_choose(2) * 4;
	tm_second = mc_choose(3) * 2;
	tm_sent = tm_sending = tm_first = 0;
	mc_log("wait %d ms, signal after %d ms", tm_ms, tm_second);
	if (!mc_split()) return;
	sc_begin(mc_q(2, 4), SC_TIME|SC_TSO);
	h_n = 2;
	for (int i = 0; i < 2; i++) task_init(&h_task[i]);
	task_create(&h_task[0], "w", t_waiter, NULL);
	cond_wait(&h_task[0].status);
	task_create(&h_task[1], "s", t_signaller, NULL);
	for (int i = 0; i < 2; i++) task_wait(&h_task[i]);
	for (int i = 0; i < 2; i++) task_free(&h_task[i]);
	sc_end();
	mc_outcome(mc_hash(1, &tm_second, sizeof(tm_second)));
	mc_nontrivial();
}

// ---------------------------------------------------------------- several coroutines of one task

static int mix_got SC_MON;
static Event mix_ev;
static int mix_flag SC_MON;
static void x_child(void* arg)
{
	while (!mix_flag) event_wait(&mix_ev, -1);
	mix_got |= 1;
}
static void x_sleeper(void* arg)
{
	uint64_t start = time_ms();
	coroutine_sleep(5);
	mc_check(sc_now_ms() - start >= 5, "early-timer", "a sleep of 5 ms ended after %d", (int)(sc_now_ms() - start));
	mix_got |= 2;
}
static void x_main(void* arg)
{
	event_init(&mix_ev);
	event_attach(&mix_ev);
	uint64_t a = coroutine_create(x_child, NULL), b = coroutine_create(x_sleeper, NULL);
	cond_signal(&am_task->status, 0);
	Msg* m = task_recv();
	mc_check(m == &msgs[1][0].msg, "message", "wrong message");
	coroutine_wait(a);
	coroutine_wait(b);
	mc_check(mix_got == 3, "coroutine-wait", "waiting for a coroutine returned before it ended");
}
static void x_other(void* arg)
{
	msg_init(&msgs[1][0].msg, MSG_REQ);
	task_send(&h_task[0], &msgs[1][0].msg);
	mix_flag = 1;
	event_signal(&mix_ev);
}
static void s_mixed(void)
{
	mix_got = mix_flag = 0;
	if (!mc_split()) return;
	sc_begin(mc_q(3, 4), SC_TIME|SC_TSO);
	h_n = 2;
	for (int i = 0; i < 2; i++) task_init(&h_task[i]);
	task_create(&h_task[0], "w", x_main, NULL);
	cond_wait(&h_task[0].status);
	task_create(&h_task[1], "s", x_other, NULL);
	h_stop();
	sc_end();
	mc_nontrivial();
}

McScenario mc_scenarios[] = {
	{ "one-sender", s_send1 }, { "two-senders", s_send2 }, { "full-ring", s_full }, { "ping-pong", s_pingpong },
	{ "one-signaller", s_event1 }, { "two-signallers", s_event2 }, { "rpc", s_rpc1 }, { "rpc-two-clients", s_rpc2 },
	{ "timed-wait", s_timed }, { "mixed", s_mixed }, { 0 } };
