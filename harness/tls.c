// C31: encrypted connections. The bytes given are the bytes delivered, whatever
// the sizes of the pieces the network takes and gives; waiting for the rest of a
// record gives the thread to others; a broken connection does not disturb
// another one; a connection to an encrypted endpoint never carries clear text.
#include "am.h"
#include <amelie_user.h>
#include <amelie_http.h>
#include <amelie_client.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/rand.h>

enum { N_FD = 700, N_MAX = 3, N_BUF = 1 << 20 };

// the peer: an independent TLS endpoint which works in memory
typedef struct {
	SSL*     ssl;
	BIO*     in;
	BIO*     out;
	uint8_t* got;             // decrypted bytes from the code under test
	int      got_n;
	bool     up, wrong;
	uint8_t* say;             // what the peer says when it is up, record by record
	int      say_at, say_n, record;
	int      clear;           // bytes that came before the peer existed
} Peer;

typedef struct {
	bool     open;
	int      added;
	uint32_t mask;
	void*    ptr;
	int      avail;           // bytes that can be read before the next wait
	bool     closing;         // end of stream after the last byte
	bool     reset;           // the stream ends with an error
	int      cut;             // bytes taken from the end of the stream
	Peer     peer;
} Conn;

static Conn conn[N_MAX];
static bool on;
static int  shorts, max_short, odd, max_odd, max_total, calls, waits, dry, block_;
static int  choice_from, choice_to;          // calls which have choices
static int  io_seq;
static int  write_limit;                     // most bytes taken by one write
static bool count_sent;
static SSL_CTX* ctx_server;
static SSL_CTX* ctx_client;
static char dir[256], path_cert[300], path_key[300];
static EVP_PKEY* pkey;

static Conn* of(int fd) { return on && fd >= N_FD && fd < N_FD + N_MAX ? &conn[fd - N_FD] : NULL; }
static uint8_t t_byte(int i) { return (uint8_t)(i * 13 + (i >> 8) * 7 + 40); }

// the peer shares the thread's queue of errors, it must leave it as it was
static void peer_drive(Conn* c)
{
	Peer* p = &c->peer;
	if (!p->ssl || p->wrong) return;
	ERR_set_mark();
	if (!p->up) {
		int rc = SSL_do_handshake(p->ssl);
		if (rc == 1) p->up = true;
		else if (!SSL_want_read(p->ssl)) p->wrong = true;
	}
	if (p->up) {
		while (p->say_at < p->say_n) {
			int n = p->record < p->say_n - p->say_at ? p->record : p->say_n - p->say_at;
			int rc = SSL_write(p->ssl, p->say + p->say_at, n);
			mc_check(rc == n, "peer", "the peer cannot write");
			p->say_at += n;
		}
		for (;;) {
			int rc = SSL_read(p->ssl, p->got + p->got_n, N_BUF - p->got_n);
			if (rc <= 0) break;
			p->got_n += rc;
		}
	}
	ERR_pop_to_mark();
}

static void peer_open(Conn* c, bool server)
{
	Peer* p = &c->peer;
	p->ssl = SSL_new(server ? ctx_server : ctx_client);
	p->in  = BIO_new(BIO_s_mem());
	p->out = BIO_new(BIO_s_mem());
	BIO_set_mem_eof_return(p->in, -1);
	BIO_set_mem_eof_return(p->out, -1);
	SSL_set_bio(p->ssl, p->in, p->out);
	if (server) SSL_set_accept_state(p->ssl);
	else SSL_set_connect_state(p->ssl);
	if (!p->got) p->got = malloc(N_BUF);
	peer_drive(c);
}

static void peer_free(Conn* c)
{
	if (c->peer.ssl) SSL_free(c->peer.ssl);
	free(c->peer.got);
	memset(&c->peer, 0, sizeof(c->peer));
}

static int amount(int n)
{
	mc_step(1);
	mc_check(++calls < 20000, "endless", "the system is called without end");
	int seq = io_seq++;
	if (seq < choice_from || seq >= choice_to) return n;
	if (shorts + odd >= max_total) return n;
	int shorter = shorts < max_short ? n - 1 : 0;
	if (shorter < 0) shorter = 0;
	// long transfers: near the ends and spread
	int most = mc_q(12, 42), third = most / 3;
	int spread = shorter > most * mc_q(10, 100) ? most : shorter;
	int odds = odd < max_odd ? 2 : 0;
	int c = mc_choose(1 + spread + odds);
	if (c == 0) return n;
	if (c <= spread) {
		shorts++;
		mc_nontrivial();
		if (spread == shorter) return c;
		if (c <= third) return c;
		if (c > 2 * third) return n - (most + 1 - c);
		return (int)((int64_t)n * (c - third) / (third + 1));
	}
	odd++;
	mc_nontrivial();
	errno = c - spread - 1 ? EINTR : EAGAIN;
	return -1;
}

static ssize_t conn_read(Conn* c, void* buf, size_t size)
{
	mc_check(c->open, "read-closed", "read from a closed connection");
	int pending = c->peer.out ? (int)BIO_ctrl_pending(c->peer.out) : 0;
	int left = pending - c->cut;
	if (left <= 0 && c->closing) {
		if (c->reset) { errno = ECONNRESET; return -1; }
		return 0;
	}
	int n = c->avail < (int)size ? c->avail : (int)size;
	if (n > left) n = left;
	if (n <= 0) {
		mc_check(++dry < 50, "spins", "the thread asks for the rest of a record again and again without waiting");
		errno = EAGAIN;
		return -1;
	}
	int rc = amount(n);
	if (rc == -1) { if (errno == EAGAIN) c->avail = 0; return -1; }
	dry = 0;
	if (rc < n) c->avail = 0;
	else c->avail -= rc;
	int got = BIO_read(c->peer.out, buf, rc);
	mc_check(got == rc, "peer", "peer output");
	return rc;
}

static ssize_t conn_write(Conn* c, const void* buf, size_t size)
{
	mc_check(c->open, "write-closed", "write to a closed connection");
	int n = (int)size < write_limit ? (int)size : write_limit;
	int rc = amount(n);
	if (rc == -1) return -1;
	if (!c->peer.in) { c->peer.clear += rc; return rc; }
	BIO_write(c->peer.in, buf, rc);
	peer_drive(c);
	return rc;
}

// libcrypto calls these
ssize_t read(int fd, void* buf, size_t size)
{
	Conn* c = of(fd);
	if (!c) return syscall(SYS_read, fd, buf, size);
	return conn_read(c, buf, size);
}
ssize_t write(int fd, const void* buf, size_t size)
{
	Conn* c = of(fd);
	if (!c) return syscall(SYS_write, fd, buf, size);
	return conn_write(c, buf, size);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
	Conn* c = of(fd);
	if (!c) return syscall(SYS_writev, fd, v, n);
	mc_fail("clear-text", "data is written to the connection without encryption");
}

int __real_epoll_ctl(int, int, int, struct epoll_event*);
int __real_epoll_wait(int, struct epoll_event*, int, int);
int __real_close(int);
int __real_socket(int, int, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_getsockopt(int, int, int, void*, socklen_t*);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_getsockname(int, struct sockaddr*, socklen_t*);
int __real_fcntl(int, int, ...);

int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* e)
{
	Conn* c = of(fd);
	if (!c) return __real_epoll_ctl(ep, op, fd, e);
	if (op == EPOLL_CTL_ADD) c->added = 1;
	if (op == EPOLL_CTL_DEL) { c->added = 0; c->mask = 0; return 0; }
	c->mask = e->events;
	c->ptr = e->data.ptr;
	return 0;
}

int __wrap_epoll_wait(int ep, struct epoll_event* list, int max, int ms)
{
	if (!on) return __real_epoll_wait(ep, list, max, ms);
	mc_check(++calls < 20000, "endless", "the event loop waits without end");
	int rc = __real_epoll_wait(ep, list, max, 0);
	if (rc > 0) return rc;
	int count = 0;
	waits++;
	dry = 0;
	for (int i = 0; i < N_MAX; i++) {
		Conn* c = &conn[i];
		if (!c->added) continue;
		c->avail = c->peer.out ? (int)BIO_ctrl_pending(c->peer.out) - c->cut : 0;
		if (c->avail < 0) c->avail = 0;
		uint32_t events = c->mask & EPOLLOUT;
		if (c->mask & EPOLLIN && (c->avail || c->closing)) events |= EPOLLIN;
		if (!events || count == max) continue;
		list[count].events = events;
		list[count].data.ptr = c->ptr;
		count++;
	}
	if (count == 0 && block_) return __real_epoll_wait(ep, list, max, 5000);
	mc_check(count > 0 || ms >= 0, "stuck", "everybody waits for something that never comes");
	return count;
}

int __wrap_close(int fd)
{
	Conn* c = of(fd);
	if (!c) return __real_close(fd);
	mc_check(c->open, "close-twice", "connection closed twice");
	c->open = false;
	c->added = 0;
	peer_free(c);
	return 0;
}

static int connects, server_peer;
int __wrap_socket(int a, int b, int p)
{
	if (!on) return __real_socket(a, b, p);
	for (int i = 0; i < N_MAX; i++)
		if (!conn[i].open) {
			memset(&conn[i], 0, sizeof(Conn));
			conn[i].open = true;
			return N_FD + i;
		}
	mc_fail("leak-sockets", "sockets are never closed");
}

int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l)
{
	Conn* c = of(fd);
	if (!c) return __real_connect(fd, a, l);
	connects++;
	if (server_peer) peer_open(c, true);
	if (server_peer == 2) c->cut = 1 << 20, c->closing = true;
	if (mc_choose(2)) return 0;
	errno = EINPROGRESS;
	return -1;
}

int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* l)
{
	if (!of(fd)) return __real_getsockopt(fd, level, name, v, l);
	*(int*)v = 0;
	return 0;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
	return of(fd) ? 0 : __real_setsockopt(fd, level, name, v, l);
}
int __wrap_getsockname(int fd, struct sockaddr* sa, socklen_t* l)
{
	if (!of(fd)) return __real_getsockname(fd, sa, l);
	memset(sa, 0, *l);
	sa->sa_family = AF_INET;
	return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* sa, socklen_t* l) { return __wrap_getsockname(fd, sa, l); }
int __wrap_fcntl(int fd, int op, ...)
{
	va_list ap;
	va_start(ap, op);
	long arg = va_arg(ap, long);
	va_end(ap);
	return of(fd) ? 0 : __real_fcntl(fd, op, arg);
}

// setup -------------------------------------------------------------------------

static X509* t_cert(const char* cn, int cn_size)
{
	X509* x = X509_new();
	X509_set_version(x, 2);
	ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
	ASN1_TIME_set_string(X509_getm_notBefore(x), "20200101000000Z");
	ASN1_TIME_set_string(X509_getm_notAfter(x), "20490101000000Z");
	X509_set_pubkey(x, pkey);
	X509_NAME* name = X509_get_subject_name(x);
	if (cn_size) X509_NAME_add_entry_by_txt(name, "CN", MBSTRING_ASC, (const unsigned char*)cn, cn_size, -1, 0);
	X509_set_issuer_name(x, name);
	X509_sign(x, pkey, NULL);
	return x;
}

// the same random numbers every time
static uint64_t r_state;
static int r_bytes(unsigned char* buf, int n)
{
	for (int i = 0; i < n; i++) {
		r_state = r_state * 6364136223846793005ull + 1442695040888963407ull;
		buf[i] = (unsigned char)(r_state >> 40);
	}
	return 1;
}
static int r_status(void) { return 1; }
static RAND_METHOD r_method = { .bytes = r_bytes, .pseudorand = r_bytes, .status = r_status };

void am_setup(void)
{
	RAND_set_rand_method(&r_method);
	snprintf(dir, sizeof(dir), "%s", mc_workdir());
	snprintf(path_cert, sizeof(path_cert), "%s/cert.pem", dir);
	snprintf(path_key, sizeof(path_key), "%s/key.pem", dir);
	static const uint8_t secret[32] = { 7, 7, 7, 1, 2, 3 };
	pkey = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, NULL, secret, 32);
	X509* x = t_cert("a.b.c", 5);
	FILE* f = fopen(path_cert, "w");
	PEM_write_X509(f, x);
	fclose(f);
	f = fopen(path_key, "w");
	PEM_write_PrivateKey(f, pkey, NULL, NULL, 0, NULL, NULL);
	fclose(f);
	ctx_client = SSL_CTX_new(TLS_client_method());
	ctx_server = SSL_CTX_new(TLS_server_method());
	SSL_CTX_use_certificate(ctx_server, x);
	SSL_CTX_use_PrivateKey(ctx_server, pkey);
	SSL_CTX_set_session_cache_mode(ctx_server, SSL_SESS_CACHE_OFF);
	X509_free(x);
}

static atomic_u64 t_sent, t_recv;
static TlsContext contexts[2];

static TlsContext* t_context(bool client)
{
	TlsContext* c = &contexts[client];
	if (tls_context_created(c)) return c;
	static Str cert, key, none;
	str_set(&cert, path_cert, strlen(path_cert));
	str_set(&key, path_key, strlen(path_key));
	str_init(&none);
	tls_context_init(c);
	tls_context_set(c, client, client ? &none : &cert, client ? &none : &key, &none, &none, &none);
	tls_context_create(c);
	return c;
}

static void t_begin(void)
{
	r_state = 12345;
	for (int i = 0; i < N_MAX; i++) peer_free(&conn[i]);
	memset(conn, 0, sizeof(conn));
	on = true;
	shorts = odd = calls = waits = dry = io_seq = connects = block_ = server_peer = 0;
	max_short = max_odd = 1;
	max_total = 2;
	count_sent = true;
	choice_from = 0;
	choice_to = 1 << 30;
	write_limit = 1 << 30;
	t_sent = t_recv = 0;
	ERR_clear_error();
}

static void t_open(Tcp* tcp, int id, bool client, uint8_t* say, int say_n, int record)
{
	Conn* c = &conn[id];
	c->open = true;
	c->peer.say = say;
	c->peer.say_n = say_n;
	c->peer.record = record;
	tcp_init(tcp, &t_sent, &t_recv);
	tcp_set_fd(tcp, N_FD + id);
	tcp_set_tls(tcp, t_context(client));
	tcp_attach(tcp);
	peer_open(c, client);
}

static void t_close(Tcp* tcp)
{
	tcp_close(tcp);
	tcp_free(tcp);
}

static void t_end(void) { on = false; }

static void t_write(Tcp* tcp, int id, uint8_t* data, int size, int parts)
{
	Peer* p = &conn[id].peer;
	int base = p->got_n;
	struct iovec v[4];
	int at = 0;
	for (int i = 0; i < parts; i++) {
		int n = i == parts - 1 ? size - at : size / parts;
		v[i].iov_base = data + at;
		v[i].iov_len = n;
		at += n;
	}
	uint64_t sent = t_sent;
	tcp_write(tcp, v, parts);
	mc_check(p->got_n - base == size, "write-size", "the peer got %d bytes of %d", p->got_n - base, size);
	mc_check(!memcmp(p->got + base, data, size), "write-data", "the peer got other bytes");
	if (count_sent) mc_check(t_sent - sent == (uint64_t)size, "sent-count", "%lu bytes counted as sent, %d are", (unsigned long)(t_sent - sent), size);
}

static int t_read(Tcp* tcp, Readahead* ra, int want, int from)
{
	int got = 0;
	while (want < 0 || got < want) {
		uint8_t* pos = NULL;
		int n = readahead_read(ra, want < 0 ? 64 : want - got, &pos);
		if (n == 0) break;
		for (int i = 0; i < n; i++)
			mc_check(pos[i] == t_byte(from + got + i), "read-data", "byte %d of the stream is wrong", from + got + i);
		got += n;
	}
	(void)tcp;
	return got;
}

static uint8_t t_data[200000];
static void t_fill(void)
{
	if (!t_data[0]) for (unsigned i = 0; i < sizeof(t_data); i++) t_data[i] = t_byte(i);
}

// scenarios ---------------------------------------------------------------------

// handshake and a message each way, every single short transfer
static void s_handshake(void)
{
	bool client = mc_choose(2);
	int read_first = mc_choose(2);
	// calls are split over the workers
	int slot = mc_choose(16);
	if (!mc_split()) return;
	t_fill();
	t_begin();
	max_odd = 1;
	choice_from = slot;
	choice_to = slot == 15 ? 40 : slot + 1;
	Tcp tcp;
	t_open(&tcp, 0, client, t_data, 30, 30);
	bool failed = error_catch( tcp_connect_fd(&tcp) );
	mc_check(!failed, "handshake", "the handshake fails: %s", am_error_text());
	Readahead ra;
	readahead_init(&ra, &tcp, 100);
	int got = 0;
	if (read_first) got = t_read(&tcp, &ra, 30, 0);
	failed = error_catch( t_write(&tcp, 0, t_data, 50, 2) );
	mc_check(!failed, "write-error", "writing fails: %s", am_error_text());
	mc_check(conn[0].peer.up, "peer-up", "the peer has not finished the handshake");
	if (!read_first) got = t_read(&tcp, &ra, 30, 0);
	mc_check(got == 30, "read-size", "%d bytes read of 30", got);
	mc_check(!tcp_eof(&tcp), "eof-early", "the end is reported although the connection is alive");
	mc_outcome(io_seq);
	readahead_free(&ra);
	t_close(&tcp);
	t_end();
}

// reading: records of every size, cut anywhere, up to the end of the stream
static void s_read(void)
{
	static const int sizes[] = { 1, 20, 70, 16384, 16385, 40000 };
	int n = mc_choose(6);
	int size = sizes[n];
	int record = n < 3 ? 1 + mc_choose(3) * 12 : (int[]){ 16384, 5000, 1000 }[mc_choose(3)];
	int ahead = (int[]){ 1, 16, 64, 16384 }[n < 3 ? mc_choose(4) : 2 + mc_choose(2)];
	int end = mc_choose(4);        // close notify, closed, reset, truncated inside of the last record
	if (!mc_split()) return;
	t_fill();
	t_begin();
	Tcp tcp;
	choice_to = 0;
	t_open(&tcp, 0, false, NULL, 0, 0);
	bool failed = error_catch( tcp_connect_fd(&tcp) );
	mc_check(!failed, "handshake", "the handshake fails: %s", am_error_text());
	Conn* c = &conn[0];
	// let the peer finish, then speak
	c->peer.say = t_data;
	c->peer.say_n = size;
	c->peer.record = record;
	choice_to = 1 << 30;
	max_short = 2;
	max_odd = 2;
	if (n >= 3) { choice_from = io_seq; choice_to = io_seq + 8; }
	max_total = n == 0 || (n == 1 && record > 12) ? mc_q(1, 2) + (n == 0) : mc_q(1, n == 1 ? 2 : 1);
	c->closing = true;
	c->reset = end == 2;
	peer_drive(c);
	if (end == 0) SSL_shutdown(c->peer.ssl);
	if (end == 3) c->cut = 7;
	Readahead ra;
	readahead_init(&ra, &tcp, ahead);
	int got = 0;
	failed = error_catch( got = t_read(&tcp, &ra, -1, 0) );
	int last = size % record ? size % record : record;
	int expect = end == 3 ? size - last : size;
	mc_check(!failed || end >= 2, "read-error", "reading fails: %s", am_error_text());
	mc_check(got == expect || failed, "read-size", "%d bytes read of %d", got, expect);
	if (!failed) mc_check(tcp_eof(&tcp), "eof-flag", "the end is not recorded");
	mc_check(t_recv == (uint64_t)got, "recv-count", "%lu bytes counted as received, %d are", (unsigned long)t_recv, got);
	readahead_free(&ra);
	t_close(&tcp);
	t_end();
}

// writing: more than a record, taken in pieces
static void s_write(void)
{
	static const int sizes[] = { 1, 2, 60, 16384, 16385, 33000, 150000 };
	int n = mc_choose(7);
	int size = sizes[n];
	int parts = 1 + mc_choose(3);
	int limit = (int[]){ 1 << 30, 1000, 16384 + 22, 16384, 5 }[mc_choose(n < 3 ? 5 : 4)];
	int slot = mc_choose(n < 3 ? 1 : 12);
	if (size < parts) return;
	if (!mc_split()) return;
	t_fill();
	t_begin();
	Tcp tcp;
	choice_to = 0;
	t_open(&tcp, 0, slot & 1, NULL, 0, 0);
	bool failed = error_catch( tcp_connect_fd(&tcp) );
	mc_check(!failed, "handshake", "the handshake fails: %s", am_error_text());
	write_limit = limit;
	choice_from = io_seq + slot;
	choice_to = n < 3 ? 1 << 30 : choice_from + 1 + (slot == 11 ? mc_q(60, 200) : 0);
	max_short = n < 3 ? 2 : 1;
	max_odd = n < 3 ? 2 : 1;
	max_total = n < 2 || (n == 2 && limit == 1 << 30) ? 2 : slot == 11 ? 1 : mc_q(1, 2);
	failed = error_catch( t_write(&tcp, 0, t_data, size, parts) );
	mc_check(!failed, "write-error", "writing fails: %s", am_error_text());
	choice_to = 0;
	failed = error_catch( t_write(&tcp, 0, t_data, 40, 1) );
	mc_check(!failed, "write-error", "writing fails: %s", am_error_text());
	t_close(&tcp);
	t_end();
}

// two connections in one thread, one of them breaks
static int  broken_how, finished;
static Tcp  tcps[2];

static void c_good(void* arg)
{
	(void)arg;
	bool failed = error_catch
	(
		tcp_connect_fd(&tcps[0]);
		Readahead ra;
		readahead_init(&ra, &tcps[0], 10);
		int got = t_read(&tcps[0], &ra, 30, 0);
		mc_check(got == 30, "neighbour-read", "%d bytes read of 30 while another connection breaks", got);
		t_write(&tcps[0], 0, t_data, 50, 2);
		readahead_free(&ra);
	);
	mc_check(!failed, "neighbour-error", "a connection fails when another one breaks: %s", am_error_text());
	finished++;
}

// a context which cannot be created
static void c_bad_context(int turns)
{
	static Str path, none;
	str_set(&path, "/nonexistent", 12);
	str_init(&none);
	for (int i = 0; i < turns; i++) coroutine_yield();
	TlsContext tc;
	tls_context_init(&tc);
	tls_context_set(&tc, true, &none, &none, &path, &none, &none);
	bool refused = error_catch( tls_context_create(&tc) );
	mc_check(refused, "bad-ca", "a context without its certificates is created");
	mc_check(!tls_context_created(&tc), "half-created", "the context is created without its certificates");
	tls_context_free(&tc);
	finished++;
}

static void c_bad(void* arg)
{
	(void)arg;
	if (broken_how >= 6) { c_bad_context(broken_how - 6); return; }
	bool failed = error_catch
	(
		tcp_connect_fd(&tcps[1]);
		Readahead ra;
		readahead_init(&ra, &tcps[1], 10);
		defer(readahead_free, &ra);
		uint8_t* pos;
		while (readahead_read(&ra, 10, &pos));
	);
	(void)failed;
	finished++;
}

static void s_neighbour(void)
{
	broken_how = mc_choose(14);
	int first = mc_choose(2);
	int slot = mc_choose(mc_q(6, 12)) * mc_q(2, 1) + mc_q(1, 0);
	if (!mc_split()) return;
	t_fill();
	t_begin();
	finished = 0;
	choice_from = slot;
	choice_to = slot == 11 ? 40 : slot + 1;
	max_odd = 2;
	t_open(&tcps[0], 0, false, t_data, 30, 15);
	// the other peer speaks nonsense
	Conn* c = &conn[1];
	c->open = true;
	tcp_init(&tcps[1], &t_sent, &t_recv);
	tcp_set_fd(&tcps[1], N_FD + 1);
	tcp_set_tls(&tcps[1], t_context(false));
	tcp_attach(&tcps[1]);
	if (broken_how < 3) {
		c->peer.out = BIO_new(BIO_s_mem());
		static const char* junk[] = { "GET / HTTP/1.1\r\n\r\n", "\x16\x03\x01\x00\x05\x01\x00\x00\x01\x00", "\x80\x2e\x01\x03\x01 nonsense nonsense nonsense" };
		static const int sizes[] = { 18, 10, 30 };
		BIO_write(c->peer.out, junk[broken_how], sizes[broken_how]);
		c->closing = true;
	} else {
		peer_open(c, false);
		if (broken_how == 3) c->cut = 20, c->closing = true;
		else if (broken_how == 4) c->closing = c->reset = true;
	}
	uint64_t ids[2];
	ids[0] = coroutine_create(first ? c_good : c_bad, NULL);
	ids[1] = coroutine_create(first ? c_bad : c_good, NULL);
	if (broken_how == 5) {
		// a good handshake, then garbage in the stream
		for (int i = 0; i < 6; i++) coroutine_sleep(0);
		if (c->peer.up && c->peer.out) {
			static const char junk[64] = { 23, 3, 3, 0, 40, 1, 2, 3 };
			BIO_write(c->peer.out, junk, 45);
		}
		c->closing = true;
	}
	for (int i = 0; i < 2; i++) coroutine_wait(ids[i]);
	mc_check(finished == 2, "unfinished", "%d of 2 ended", finished);
	if (c->peer.out && !c->peer.ssl) BIO_free(c->peer.out);
	if (!c->peer.ssl) c->peer.out = NULL;
	t_close(&tcps[0]);
	t_close(&tcps[1]);
	t_end();
}

// a client of an encrypted endpoint connects, loses the connection, connects again
static void s_client(void)
{
	int times = 1 + mc_choose(3);
	int fails = mc_choose(3);      // the certificate file is bad at first; refused; nothing
	if (!mc_split()) return;
	t_fill();
	t_begin();
	block_ = 1;
	server_peer = 1;
	count_sent = false;
	max_total = times == 2 ? mc_q(0, 1) : 0;
	if (times > 1) mc_nontrivial();
	static bool started;
	if (!started) { job_mgr_start(&runtime()->job_mgr, 1); started = true; }
	Endpoint endpoint;
	endpoint_init(&endpoint);
	opt_int_set(&endpoint.proto, PROTO_HTTPS);
	opt_string_set_raw(&endpoint.host, "127.0.0.1", 9);
	opt_int_set(&endpoint.port, 3485);
	if (fails == 1) opt_string_set_raw(&endpoint.tls_ca, "/nonexistent", 12);
	Client* client = client_create();
	client_set_endpoint(client, &endpoint);
	for (int i = 0; i < times; i++) {
		// the server can leave inside of the handshake
		server_peer = fails == 2 && i == 0 ? 2 : 1;
		bool failed = error_catch( client_connect(client) );
		if (server_peer == 2) {
			mc_check(failed, "half-handshake", "connected without a handshake");
			mc_check(!client->tcp.connected, "half-handshake", "connected without a handshake");
			for (int j = 0; j < N_MAX; j++) mc_check(!conn[j].open, "leak-sockets", "the connection is open after a failure");
			continue;
		}
		if (fails == 1) {
			mc_check(failed, "bad-ca", "connected although the certificates to verify with are missing");
			continue;
		}
		mc_check(!failed, "connect", "connecting fails: %s", am_error_text());
		Conn* c = &conn[client->tcp.fd.fd - N_FD];
		mc_check(c->peer.clear == 0, "clear-text", "data is sent without encryption");
		mc_check(tls_is_set(&client->tcp.tls), "clear-text", "connection %d to an encrypted endpoint is not encrypted", i);
		mc_check(c->peer.up || SSL_is_init_finished(client->tcp.tls.ssl), "not-up", "connected before the handshake");
		failed = error_catch( t_write(&client->tcp, client->tcp.fd.fd - N_FD, t_data, 30, 1) );
		mc_check(!failed, "write-error", "writing fails: %s", am_error_text());
		client_close(client);
		mc_check(!c->open, "close", "the connection is open after close");
	}
	client_free(client);
	endpoint_free(&endpoint);
	t_end();
}

// names: the certificate is accepted for exactly the names it is for
static bool n_label(const char* s, int n)
{
	if (!n) return false;
	for (int i = 0; i < n; i++) if (s[i] == '.' || !s[i]) return false;
	return true;
}

static bool n_name(const char* s, int n)
{
	int at = 0;
	for (int i = 0; i <= n; i++)
		if (i == n || s[i] == '.') { if (!n_label(s + at, i - at)) return false; at = i + 1; }
	return true;
}

static bool n_match(const char* cn, int n, const char* name)
{
	int m = strlen(name);
	if (n == m && !strncasecmp(cn, name, n)) return true;
	if (n < 2 || cn[0] != '*' || cn[1] != '.') return false;
	if (!memchr(cn + 2, '.', n - 2)) return false;
	const char* dot = strchr(name, '.');
	if (!dot || dot == name) return false;
	int left = m - (dot - name);
	return left == n - 1 && !strncasecmp(cn + 1, dot, left);
}

static void s_names(void)
{
	static const char alphabet[] = { 'a', 'B', '.', '*', 0 };
	int size = 1 + mc_choose(mc_q(5, 6));
	char cn[8];
	for (int i = 0; i < size; i++) cn[i] = alphabet[mc_choose(5)];
	if (!mc_split()) return;
	if (!n_name(cn, size) && !memchr(cn, 0, size)) return;   // dots at odd places are not judged
	static const char* const names[] = { "a", "b", "ab", "a.b", "b.a", "a.a.b", "a.b.a", "b.b.a", "a.a", "b.b", "ba.a.b", "a.a.a.b", "*", "*.a.b" };
	X509* x = t_cert(cn, size);
	for (int i = 0; i < 14; i++) {
		t_begin();
		choice_to = 0;
		SSL_CTX* saved = ctx_server;
		ctx_server = SSL_CTX_new(TLS_server_method());
		SSL_CTX_use_certificate(ctx_server, x);
		SSL_CTX_use_PrivateKey(ctx_server, pkey);
		TlsContext tc;
		Str none, name;
		str_init(&none);
		str_set(&name, (char*)names[i], strlen(names[i]));
		tls_context_init(&tc);
		tls_context_set(&tc, true, &none, &none, &none, &none, &name);
		tls_context_create(&tc);
		Tcp tcp;
		conn[0].open = true;
		tcp_init(&tcp, &t_sent, &t_recv);
		tcp_set_fd(&tcp, N_FD);
		tcp_set_tls(&tcp, &tc);
		tcp_attach(&tcp);
		peer_open(&conn[0], true);
		bool failed = error_catch( tcp_connect_fd(&tcp) );
		bool expect = n_match(cn, size, names[i]);
		char text[16];
		for (int j = 0; j < size; j++) text[j] = cn[j] ? cn[j] : '0';
		text[size] = 0;
		mc_check(failed || expect, "name-accepted", "a certificate for '%s' is accepted for '%s'", text, names[i]);
		mc_check(!failed || !expect, "name-refused", "a certificate for '%s' is refused for '%s'", text, names[i]);
		if (expect) mc_nontrivial();
		t_close(&tcp);
		tls_context_free(&tc);
		SSL_CTX_free(ctx_server);
		ctx_server = saved;
		t_end();
	}
	mc_cases(13);
	X509_free(x);
}

// authorities: with certificates to verify with, only what they vouch for is accepted
static X509* a_cert(const char* cn, EVP_PKEY* key, const char* issuer, EVP_PKEY* issuer_key, bool expired, bool ca)
{
	X509* x = X509_new();
	X509_set_version(x, 2);
	ASN1_INTEGER_set(X509_get_serialNumber(x), 2);
	ASN1_TIME_set_string(X509_getm_notBefore(x), "20200101000000Z");
	ASN1_TIME_set_string(X509_getm_notAfter(x), expired ? "20200201000000Z" : "20490101000000Z");
	X509_set_pubkey(x, key);
	X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)cn, -1, -1, 0);
	X509_NAME_add_entry_by_txt(X509_get_issuer_name(x), "CN", MBSTRING_ASC, (const unsigned char*)issuer, -1, -1, 0);
	if (ca) {
		X509_EXTENSION* e = X509V3_EXT_conf_nid(NULL, NULL, NID_basic_constraints, "critical,CA:TRUE");
		X509_add_ext(x, e, -1);
		X509_EXTENSION_free(e);
	}
	X509_sign(x, issuer_key, NULL);
	return x;
}

static void s_authority(void)
{
	enum { OWN, SIGNED, OTHER_SELF, OTHER_SIGNED, EXPIRED, KINDS };
	int kind = mc_choose(KINDS);
	bool named = mc_choose(2), wrong = named && mc_choose(2), second = mc_choose(2);
	if (!mc_split()) return;
	static const uint8_t secrets[2][32] = { { 1, 2, 3 }, { 4, 5, 6 } };
	EVP_PKEY* key[2];
	for (int i = 0; i < 2; i++) key[i] = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, NULL, secrets[i], 32);
	char path[300];
	snprintf(path, sizeof(path), "%s/ca.pem", dir);
	const char* who = kind == OWN ? "a.b.c" : "authority";
	X509* ca = a_cert(who, key[0], who, key[0], false, true);
	FILE* f = fopen(path, "w");
	PEM_write_X509(f, ca);
	fclose(f);
	X509* x = NULL;
	EVP_PKEY* own = pkey;
	switch (kind) {
	case OWN:          x = ca; X509_up_ref(x); own = key[0]; break;
	case SIGNED:       x = a_cert("a.b.c", pkey, who, key[0], false, false); break;
	case OTHER_SELF:   x = a_cert("a.b.c", key[1], "a.b.c", key[1], false, true); own = key[1]; break;
	case OTHER_SIGNED: x = a_cert("a.b.c", pkey, who, key[1], false, false); break;
	case EXPIRED:      x = a_cert("a.b.c", pkey, who, key[0], true, false); break;
	}
	TlsContext tc;
	static Str none, name, file;
	str_init(&none);
	str_set(&name, wrong ? "a.b.d" : "a.b.c", 5);
	str_set(&file, path, strlen(path));
	tls_context_init(&tc);
	tls_context_set(&tc, true, &none, &none, &file, &none, named ? &name : &none);
	tls_context_create(&tc);
	SSL_CTX* saved = ctx_server;
	ctx_server = SSL_CTX_new(TLS_server_method());
	SSL_CTX_use_certificate(ctx_server, x);
	SSL_CTX_use_PrivateKey(ctx_server, own);
	bool expect = kind <= SIGNED && !wrong;
	for (int i = 0; i <= second; i++) {
		t_begin();
		choice_to = 0;
		Tcp tcp;
		conn[0].open = true;
		tcp_init(&tcp, &t_sent, &t_recv);
		tcp_set_fd(&tcp, N_FD);
		tcp_set_tls(&tcp, &tc);
		tcp_attach(&tcp);
		peer_open(&conn[0], true);
		bool failed = error_catch( tcp_connect_fd(&tcp) );
		mc_check(failed || expect, "authority-accepted", "connection %d: a certificate of kind %d is accepted", i, kind);
		mc_check(!failed || !expect, "authority-refused", "connection %d: a certificate of kind %d is refused: %s", i, kind, am_error_text());
		if (!expect) mc_nontrivial();
		t_close(&tcp);
		t_end();
	}
	tls_context_free(&tc);
	SSL_CTX_free(ctx_server);
	ctx_server = saved;
	X509_free(x);
	X509_free(ca);
	for (int i = 0; i < 2; i++) EVP_PKEY_free(key[i]);
}

McScenario mc_scenarios[] = {
	{ "handshake", s_handshake, 0 },
	{ "read",      s_read,      0 },
	{ "write",     s_write,     0 },
	{ "neighbour", s_neighbour, 0 },
	{ "client",    s_client,    0 },
	{ "names",     s_names,     0 },
	{ "authority", s_authority, 0 },
	{ NULL, NULL, 0 },
};
