// C29, connections: bytes arrive and leave exactly once and in order, for every
// sequence of short transfers, spurious wakeups, interruptions and failures of
// the system calls below; waiting never gets stuck and never outlives its owner.
#include "am.h"
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <stdarg.h>

enum { N_FD = 700, N_MAX = 3, N_DATA = 64 };
typedef struct {
	bool     open;
	int      added;            // in the poller
	uint32_t mask;
	void*    ptr;
	int      in_size, in_pos;  // bytes from the peer
	int      eof;              // read says the end or failed
	int      out_size, broken;
	uint8_t  out[N_DATA];
	int      connect, so_error, nonblock;
} NConn;
static NConn n_conn[N_MAX];
static bool n_on;
static int  n_shorts, n_max_short, n_odd, n_max_odd, n_calls, n_fail_setup;
static bool n_may_fail, n_no_in, n_no_out;
static int  n_opened, n_closed;

static NConn* n_of(int fd) { return n_on && fd >= N_FD && fd < N_FD + N_MAX ? &n_conn[fd - N_FD] : NULL; }
static uint8_t n_byte(int i) { return (uint8_t)(i * 13 + 40); }

ssize_t __real_read(int, void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_epoll_ctl(int, int, int, struct epoll_event*);
int __real_epoll_wait(int, struct epoll_event*, int, int);
int __real_close(int);
int __real_socket(int, int, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_getsockopt(int, int, int, void*, socklen_t*);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_getsockname(int, struct sockaddr*, socklen_t*);
int __real_fcntl(int, int, ...);

// result of moving up to n bytes
static int n_amount(int n, bool hard)
{
	mc_step(1);
	mc_check(++n_calls < 2000, "endless", "the system is called without end");
	int shorter = n_shorts < n_max_short ? n - 1 : 0;
	if (shorter < 0) shorter = 0;
	int odd = n_odd < n_max_odd ? 2 : 0;
	int fail = hard && n_may_fail;
	int c = mc_choose(1 + shorter + odd + fail);
	if (c == 0) return n;
	if (c <= shorter) { n_shorts++; return c; }
	c -= 1 + shorter;
	mc_nontrivial();
	if (c < odd) {
		n_odd++;
		errno = c ? EINTR : EAGAIN;
		return -1;
	}
	errno = ECONNRESET;
	return -2;
}

ssize_t __wrap_read(int fd, void* buf, size_t size)
{
	NConn* c = n_of(fd);
	if (!c) return __real_read(fd, buf, size);
	mc_check(c->open, "read-closed", "read from a closed connection");
	int left = c->in_size - c->in_pos;
	int n = left < (int)size ? left : (int)size;
	int rc = n_amount(n, true);
	if (rc == -1) return -1;
	if (rc == -2) { c->eof = 1; return -1; }
	if (left == 0) { c->eof = 1; return 0; }
	for (int i = 0; i < rc; i++) ((uint8_t*)buf)[i] = n_byte(c->in_pos + i);
	c->in_pos += rc;
	return rc;
}

ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
	NConn* c = n_of(fd);
	if (!c) return __real_writev(fd, v, n);
	mc_check(c->open, "write-closed", "write to a closed connection");
	mc_check(!c->broken, "write-broken", "write to a broken connection");
	int size = 0;
	for (int i = 0; i < n; i++) size += v[i].iov_len;
	int rc = n_amount(size, true);
	if (rc == -1) return -1;
	if (rc == -2) { c->broken = 1; errno = EPIPE; return -1; }
	int left = rc;
	for (int i = 0; i < n && left; i++) {
		int part = (int)v[i].iov_len < left ? (int)v[i].iov_len : left;
		mc_check(c->out_size + part <= N_DATA, "write-much", "more is written than given");
		memcpy(c->out + c->out_size, v[i].iov_base, part);
		c->out_size += part;
		left -= part;
	}
	return rc;
}

int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* e)
{
	NConn* c = n_of(fd);
	if (!c) return __real_epoll_ctl(ep, op, fd, e);
	mc_check(c->open, "poll-closed", "polling a closed connection");
	switch (op) {
	case EPOLL_CTL_ADD:
		mc_check(!c->added, "poll-twice", "connection added to the poller twice");
		c->added = 1; c->mask = e->events; c->ptr = e->data.ptr;
		break;
	case EPOLL_CTL_DEL:
		mc_check(c->added, "poll-absent", "connection removed from the poller twice");
		c->added = 0; c->mask = 0;
		break;
	default:
		mc_check(c->added, "poll-absent", "connection is not in the poller");
		c->mask = e->events; c->ptr = e->data.ptr;
		break;
	}
	return 0;
}

int __wrap_epoll_wait(int ep, struct epoll_event* list, int max, int ms)
{
	if (!n_on) return __real_epoll_wait(ep, list, max, ms);
	mc_check(++n_calls < 2000, "endless", "the event loop waits without end");
	int rc = __real_epoll_wait(ep, list, max, 0);
	if (rc > 0) return rc;
	int count = 0;
	for (int i = 0; i < N_MAX; i++) {
		NConn* c = &n_conn[i];
		uint32_t may = c->added ? c->mask & (EPOLLIN | EPOLLOUT) : 0;
		if (n_no_in) may &= ~EPOLLIN;
		if (n_no_out) may &= ~EPOLLOUT;
		if (!may) continue;
		uint32_t events = may;
		if (may == (EPOLLIN | EPOLLOUT)) {
			int how = mc_choose(3);
			events = how == 0 ? may : how == 1 ? EPOLLIN : EPOLLOUT;
		}
		mc_check(count < max, "poll-room", "the event list has no room for %d events", count + 1);
		list[count].events = events;
		list[count].data.ptr = c->ptr;
		count++;
	}
	mc_check(count > 0 || ms >= 0, "stuck", "everybody waits and nobody asked for an event of the connection");
	return count;
}

int __wrap_close(int fd)
{
	NConn* c = n_of(fd);
	if (!c) return __real_close(fd);
	mc_check(c->open, "close-twice", "connection closed twice");
	c->open = false;
	c->added = 0;
	n_closed++;
	return 0;
}

int __wrap_socket(int a, int b, int p)
{
	if (!n_on) return __real_socket(a, b, p);
	for (int i = 0; i < N_MAX; i++)
		if (!n_conn[i].open) {
			NConn* c = &n_conn[i];
			int so = c->so_error, co = c->connect;
			memset(c, 0, sizeof(*c));
			c->open = true; c->so_error = so; c->connect = co;
			n_opened++;
			return N_FD + i;
		}
	mc_fail("leak-sockets", "sockets are never closed");
}

int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l)
{
	NConn* c = n_of(fd);
	if (!c) return __real_connect(fd, a, l);
	mc_check(c->nonblock, "connect-blocking", "connecting blocks the thread");
	int how = mc_choose(3);      // in progress, at once, refused
	c->connect = how;
	if (how == 1) { c->so_error = 0; return 0; }
	errno = how == 0 ? EINPROGRESS : ECONNREFUSED;
	if (how == 0) c->so_error = mc_choose(2) ? ECONNREFUSED : 0;
	return -1;
}

int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* l)
{
	NConn* c = n_of(fd);
	if (!c) return __real_getsockopt(fd, level, name, v, l);
	*(int*)v = c->so_error;
	return 0;
}

int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
	NConn* c = n_of(fd);
	if (!c) return __real_setsockopt(fd, level, name, v, l);
	if (n_fail_setup && mc_choose(2)) { n_fail_setup--; errno = EINVAL; return -1; }
	return 0;
}

int __wrap_getsockname(int fd, struct sockaddr* sa, socklen_t* l)
{
	NConn* c = n_of(fd);
	if (!c) return __real_getsockname(fd, sa, l);
	memset(sa, 0, *l);
	sa->sa_family = AF_INET;
	return 0;
}

int __wrap_fcntl(int fd, int op, ...)
{
	va_list ap;
	va_start(ap, op);
	long arg = va_arg(ap, long);
	va_end(ap);
	NConn* c = n_of(fd);
	if (!c) return __real_fcntl(fd, op, arg);
	if (op == F_SETFL) c->nonblock = !!(arg & O_NONBLOCK);
	return 0;
}

static atomic_u64 n_sent, n_recv;

static void n_begin(void)
{
	memset(n_conn, 0, sizeof(n_conn));
	n_on = true;
	n_shorts = n_odd = n_calls = n_fail_setup = n_opened = n_closed = 0;
	n_max_short = 1 << 20;
	n_max_odd = mc_q(2, 3);
	n_may_fail = true;
	n_no_in = n_no_out = false;
	n_sent = n_recv = 0;
}

static void n_open(Tcp* tcp, int id, int in)
{
	NConn* c = &n_conn[id];
	memset(c, 0, sizeof(*c));
	c->open = true;
	c->in_size = in;
	n_opened++;
	tcp_init(tcp, &n_sent, &n_recv);
	tcp_set_fd(tcp, N_FD + id);
	mc_check(c->nonblock, "blocking", "an accepted connection blocks the thread");
	tcp_attach(tcp);
	tcp_connect_fd(tcp);
}

static void n_close(Tcp* tcp)
{
	tcp_close(tcp);
	tcp_free(tcp);
	mc_check(!tcp_connected(tcp), "connected", "a closed connection is connected");
}

static void n_end(void)
{
	mc_check(n_opened == n_closed, "leak-fd", "%d sockets opened, %d closed", n_opened, n_closed);
	n_on = false;
}

// reads -----------------------------------------------------------------------

// read everything, with some bytes given back now and then
static int n_read_all(Tcp* tcp, int ahead, int piece, bool pushback, int id)
{
	Readahead ra;
	readahead_init(&ra, tcp, ahead);
	int got = 0, pushed = 0;
	for (;;) {
		uint8_t* pos = NULL;
		int n = readahead_read(&ra, piece, &pos);
		mc_check(n >= 0 && n <= piece, "read-size", "%d bytes read for %d asked", n, piece);
		if (n == 0) break;
		for (int i = 0; i < n; i++)
			mc_check(pos[i] == n_byte(got + i), "read-data", "byte %d of the stream is wrong", got + i);
		got += n;
		if (pushback && pushed < 2 && n > 1) {
			int back = mc_choose(n);
			if (back) pushed++;
			readahead_pushback(&ra, back);
			got -= back;
		}
	}
	NConn* c = &n_conn[id];
	mc_check(c->eof, "eof-early", "the end is reported after %d bytes although the connection is alive", got);
	mc_check(tcp_eof(tcp), "eof-flag", "the end is not recorded");
	mc_check(got == c->in_pos, "read-lost", "%d bytes of %d are read", got, c->in_pos);
	readahead_free(&ra);
	return got;
}

static void s_read(void)
{
	int size  = mc_choose(mc_q(8, 9));
	int ahead = mc_choose(mc_q(6, 7)) + 1;
	int piece = mc_choose(mc_q(3, 4)) + 1;
	bool back = mc_choose(2);
	if (!mc_split()) return;
	n_begin();
	if (back) n_max_odd = 1;
	Tcp tcp;
	n_open(&tcp, 0, size);
	int got = n_read_all(&tcp, ahead, piece, back, 0);
	mc_check(n_recv == (uint64_t)got, "recv-count", "%lu bytes counted as received, %d are", (unsigned long)n_recv, got);
	mc_outcome(got);
	n_close(&tcp);
	n_end();
}

// writes ----------------------------------------------------------------------

static void n_write(Tcp* tcp, int id, int how, int* len, int n, int base)
{
	struct iovec v[4];
	uint8_t data[N_DATA];
	for (int i = 0; i < N_DATA; i++) data[i] = n_byte(i);
	int size = 0;
	for (int i = 0; i < n; i++) {
		v[i].iov_base = data + base + size;
		v[i].iov_len = len[i];
		size += len[i];
	}
	Buf a, b;
	buf_init(&a);
	buf_init(&b);
	buf_write(&a, v[0].iov_base, len[0]);
	if (n > 1) buf_write(&b, v[1].iov_base, len[1]);
	bool failed;
	Str s;
	switch (how) {
	case 0: failed = error_catch( tcp_write(tcp, v, n) ); break;
	case 1: failed = error_catch( tcp_write_buf(tcp, &a) ); break;
	case 2: failed = error_catch( tcp_write_pair(tcp, &a, &b) ); break;
	default:
		str_set(&s, (char*)data + base + len[0], len[1]);
		failed = error_catch( tcp_write_pair_str(tcp, &a, &s) );
		break;
	}
	buf_free(&a);
	buf_free(&b);
	NConn* c = &n_conn[id];
	mc_check(failed == c->broken, "write-error", "write of %d bytes: failed %d, the connection broke %d", size, failed, c->broken);
	if (!failed) mc_check(c->out_size == base + size, "write-size", "%d bytes written of %d", c->out_size - base, size);
	for (int i = 0; i < c->out_size; i++)
		mc_check(c->out[i] == n_byte(i), "write-data", "byte %d of the stream is wrong", i);
}

static void s_write(void)
{
	int how = mc_choose(4);
	int n = how == 0 ? 1 + mc_choose(3) : how == 1 ? 1 : 2;
	int len[3];
	for (int i = 0; i < n; i++) len[i] = mc_choose(n == 3 ? 3 : mc_q(5, 6));
	int again = mc_choose(2);
	if (!mc_split()) return;
	n_begin();
	if (again || n == 3) n_max_odd = mc_q(1, 2);
	Tcp tcp;
	n_open(&tcp, 0, 0);
	n_write(&tcp, 0, how, len, n, 0);
	if (again && !n_conn[0].broken) {
		int more[1] = { 2 };
		n_write(&tcp, 0, 1, more, 1, n_conn[0].out_size);
	}
	mc_check(n_sent == (uint64_t)n_conn[0].out_size, "sent-count", "%lu bytes counted as sent, %d are", (unsigned long)n_sent, n_conn[0].out_size);
	mc_outcome(n_conn[0].out_size);
	n_close(&tcp);
	n_end();
}

// one reads while another writes ----------------------------------------------

static Tcp n_tcp[2];
static int n_w[2], n_ahead, n_finished;

static void c_reader(void* arg)
{
	int id = (int)(intptr_t)arg;
	n_read_all(&n_tcp[id], n_ahead, 2, false, id);
	n_finished++;
}

static void c_writer(void* arg)
{
	int id = (int)(intptr_t)arg;
	n_write(&n_tcp[id], id, 0, n_w, 2, 0);
	n_finished++;
}

static void s_duplex(void)
{
	int size = mc_choose(mc_q(3, 4));
	n_w[0] = mc_choose(3);
	n_w[1] = 1 + mc_choose(2);
	n_ahead = 1 + mc_choose(2);
	int conns = 1 + mc_choose(2);
	int first = mc_choose(2);
	if (!mc_split()) return;
	n_begin();
	n_may_fail = conns == 1;
	n_max_odd = mc_q(1, 2);
	n_max_short = conns == 1 ? 2 : 1;
	n_finished = 0;
	uint64_t ids[4];
	int n = 0;
	for (int i = 0; i < conns; i++) n_open(&n_tcp[i], i, size);
	for (int i = 0; i < conns; i++) {
		ids[n++] = coroutine_create(first ? c_writer : c_reader, (void*)(intptr_t)i);
		ids[n++] = coroutine_create(first ? c_reader : c_writer, (void*)(intptr_t)i);
	}
	for (int i = 0; i < n; i++) coroutine_wait(ids[i]);
	mc_check(n_finished == n, "unfinished", "%d of %d ended", n_finished, n);
	for (int i = 0; i < conns; i++) n_close(&n_tcp[i]);
	n_end();
}

// a waiting reader or writer is cancelled; the connection can be used again ---

static bool n_cancelled;

static void c_cancel(void* arg)
{
	int id = (int)(intptr_t)arg;
	Tcp* tcp = &n_tcp[0];
	n_cancelled = false;
	if (id == 0) {
		Buf b;
		buf_init(&b);
		n_cancelled = error_catch( while (tcp_read(tcp, &b, 1) != 0); );
		buf_free(&b);
	} else {
		struct iovec v = { "xxxx", 4 };
		n_cancelled = error_catch( tcp_write(tcp, &v, 1) );
	}
	n_finished++;
}

static void s_cancel(void)
{
	int id = mc_choose(2);
	int size = mc_choose(4);
	int steps = mc_choose(mc_q(4, 6));
	if (!mc_split()) return;
	n_begin();
	n_may_fail = false;
	n_max_odd = mc_q(2, 3);
	n_finished = 0;
	n_open(&n_tcp[0], 0, size);
	uint64_t co = coroutine_create(c_cancel, (void*)(intptr_t)id);
	for (int i = 0; i < steps && !n_finished; i++) coroutine_sleep(0);
	if (!n_finished) coroutine_kill(co);
	mc_check(n_finished == 1 || !steps, "cancel-stuck", "a cancelled coroutine did not end");
	mc_check(!(n_conn[0].mask & (EPOLLIN | EPOLLOUT)), "cancel-wait", "the connection is still waited for after the cancelled wait ended (events %x)", n_conn[0].mask);
	// used again by somebody else
	int len[1] = { 3 };
	n_conn[0].out_size = 0;
	n_conn[0].in_size += 2;
	if (!n_conn[0].eof) {
		uint64_t r = coroutine_create(c_reader, 0);
		int at = n_conn[0].in_pos;
		(void)at;
		n_conn[0].in_pos = 0;
		n_conn[0].in_size = 2;
		n_ahead = 2;
		n_write(&n_tcp[0], 0, 0, len, 1, 0);
		coroutine_wait(r);
	}
	n_close(&n_tcp[0]);
	n_end();
}

// connecting ------------------------------------------------------------------

static void s_connect(void)
{
	int setup = mc_choose(2);
	int tries = 1 + mc_choose(mc_q(2, 3));
	if (!mc_split()) return;
	n_begin();
	n_fail_setup = setup;
	n_max_odd = 1;
	n_max_short = 1;
	struct sockaddr_in sa;
	memset(&sa, 0, sizeof(sa));
	sa.sin_family = AF_INET;
	Tcp tcp;
	tcp_init(&tcp, &n_sent, &n_recv);
	for (int i = 0; i < tries; i++) {
		int before = n_fail_setup, opened = n_opened;
		bool failed = error_catch( tcp_connect(&tcp, (struct sockaddr*)&sa) );
		mc_check(n_opened == opened + 1, "connect-sockets", "%d sockets for one connection", n_opened - opened);
		int id = tcp.fd.fd - N_FD;
		if (failed) {
			mc_check(n_fail_setup != before || n_conn[0].connect == 2 || n_conn[0].so_error, "connect-error", "connecting fails although the system did not");
			mc_check(tcp.fd.fd == -1 && n_closed == n_opened, "connect-leak", "the socket of a failed connection is left open");
			mc_check(!tcp_connected(&tcp), "connect-state", "connected after a failure");
			continue;
		}
		mc_check(n_fail_setup == before, "connect-setup", "the connection is used although it could not be set up");
		mc_check(id == 0 && n_conn[0].connect != 2 && !n_conn[0].so_error, "connect-invented", "connected although the system refused");
		mc_check(tcp_connected(&tcp) && n_conn[0].added, "connect-state", "not connected");
		n_conn[0].in_size = 2;
		int len[1] = { 2 };
		n_write(&tcp, 0, 0, len, 1, 0);
		n_read_all(&tcp, 2, 2, false, 0);
		tcp_close(&tcp);
		mc_check(!n_conn[0].open, "close", "the connection is open after close");
	}
	tcp_free(&tcp);
	n_end();
}

// the poller with many descriptors -------------------------------------------

static int n_seen[4096];
static void c_seen(Fd* fd) { n_seen[(intptr_t)fd->on_read_arg]++; }

static void s_poller(void)
{
	static const int counts[] = { 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2500 };
	int n = counts[mc_choose(9)];
	int gone = mc_choose(3);
	int ready = mc_choose(3);
	if (!mc_split()) return;
	n_begin();
	n_on = false;
	Poller p;
	poller_init(&p);
	mc_check(poller_create(&p) == 0, "poller", "no poller");
	static Fd fds[4096];
	memset(n_seen, 0, sizeof(n_seen));
	for (int i = 0; i < n; i++) {
		fd_init(&fds[i]);
		fds[i].fd = eventfd(ready == 0 || (ready == 1 && i % 2) ? 1 : 0, EFD_NONBLOCK);
		mc_check(fds[i].fd >= 0, "eventfd", "no descriptor %d", i);
		mc_check(poller_add(&p, &fds[i]) == 0, "poller-add", "descriptor %d not added", i);
		mc_check(poller_read(&p, &fds[i], c_seen, (void*)(intptr_t)i) == 0, "poller-read", "descriptor %d not waited for", i);
	}
	for (int i = 0; i < n; i++) {
		if (gone == 0) continue;
		if (gone == 1 && i % 3) continue;
		if (gone == 2) poller_read(&p, &fds[i], NULL, NULL);
		else poller_del(&p, &fds[i]);
	}
	int turns = 0;
	for (; turns < 3; turns++) poller_step(&p, 0);
	for (int i = 0; i < n; i++) {
		bool is = (ready == 0 || (ready == 1 && i % 2)) && !(gone == 2 || (gone == 1 && i % 3 == 0));
		mc_check(!!n_seen[i] == is, "poller-event", "descriptor %d of %d: ready and waited for %d, told %d", i, n, is, n_seen[i]);
	}
	for (int i = 0; i < n; i++) {
		if (!(gone == 1 && i % 3 == 0)) mc_check(poller_del(&p, &fds[i]) == 0, "poller-del", "descriptor %d not removed", i);
		close(fds[i].fd);
	}
	mc_check(p.list_count == 0, "poller-count", "%d descriptors left", p.list_count);
	poller_free(&p);
}

void am_setup(void)
{
	struct rlimit r = { 8192, 8192 };
	setrlimit(RLIMIT_NOFILE, &r);
}

McScenario mc_scenarios[] = {
	{ "read",    s_read,    0 },
	{ "write",   s_write,   0 },
	{ "duplex",  s_duplex,  0 },
	{ "cancel",  s_cancel,  0 },
	{ "connect", s_connect, 0 },
	{ "poller",  s_poller,  0 },
	{ NULL, NULL, 0 },
};
