// C25: HTTP framing. Streams of messages are read through every division into
// reads and compared with an independent reader of the text.
#include "am.h"

// ---------------------------------------------------------------- connection
static const char* in;           // stream
static int in_size, in_pos;
static int cuts[4], cut_count;   // absolute positions
static int chunk;                // >0: fixed size of reads
static int reads;

int
__wrap_tcp_read(Tcp* self, Buf* buf, int size)
{
	unused(self);
	reads++;
	int n = in_size - in_pos;
	if (chunk > 0 && n > chunk) n = chunk;
	for (int i = 0; i < cut_count; i++)
		if (cuts[i] > in_pos && n > cuts[i] - in_pos) n = cuts[i] - in_pos;
	if (n > size) n = size;
	buf_reserve(buf, size);
	memcpy(buf->position, in + in_pos, n);
	buf_advance(buf, n);
	in_pos += n;
	return n;
}

// ---------------------------------------------------------------- reference
enum { H_EOF, H_OK, H_ERROR, H_LIMIT, H_EITHER };
typedef struct { const char* p; int n; } Span;
typedef struct {
	Span opt[3];
	Span name[64], value[64];
	int  headers;
	Span content;
	int  next;               // where the next message starts
	bool strict;             // a reader has to accept it
} HMsg;

static bool
s_case(Span a, const char* b)
{
	return a.n == (int)strlen(b) && ! strncasecmp(a.p, b, a.n);
}

// message at this position: what the text says
static int
h_read(const char* t, int size, int at, uint64_t limit, HMsg* m)
{
	memset(m, 0, sizeof(*m));
	if (at == size) return H_EOF;
	const char* end = memmem(t + at, size - at, "\r\n\r\n", 4);
	if (! end || end + 4 - (t + at) > 512) return H_ERROR;
	const char* p = t + at;
	const char* head_end = end + 4;
	m->strict = true;
	bool lf = false;
	for (int line = 0; p < end; line++) {
		const char* e = memmem(p, head_end - p, "\r\n", 2);
		for (const char* c = p; c < e; c++) {
			if (*c == '\r') return H_ERROR;
			if (*c == '\n') lf = true;
		}
		if (line == 0) {
			for (int i = 0; i < 3; i++) {
				const char* s = i < 2 ? memchr(p, ' ', e - p) : e;
				if (! s || s == p) return H_ERROR;
				m->opt[i] = (Span){ p, s - p };
				p = s + (i < 2);
			}
		} else {
			const char* s = memchr(p, ':', e - p);
			if (! s || s == p) return H_ERROR;
			if (m->headers == 64) return H_EITHER;
			m->name[m->headers] = (Span){ p, s - p };
			s++;
			if (s == e || *s != ' ') return H_EITHER;
			s++;
			m->value[m->headers++] = (Span){ s, e - s };
		}
		p = e + 2;
	}
	if (p == t + at) return H_ERROR;
	m->strict = ! lf;
	m->next = head_end - t;
	for (int i = 0; i < m->headers; i++) {
		if (! s_case(m->name[i], "content-length")) continue;
		uint64_t len = 0;
		if (! m->value[i].n) return H_ERROR;
		for (int k = 0; k < m->value[i].n; k++) {
			if (! isdigit((uint8_t)m->value[i].p[k])) return H_ERROR;
			if (len > 1000000000000000000ull) return H_ERROR;
			len = len * 10 + m->value[i].p[k] - '0';
		}
		if (len > INT64_MAX) return H_ERROR;
		if (len >= limit) return H_LIMIT;
		if (len > (uint64_t)(size - m->next)) return H_ERROR;
		m->content = (Span){ t + m->next, len };
		m->next += len;
		break;
	}
	return H_OK;
}

static bool h_same(Span a, Str* b) { return a.n == str_size(b) && ! memcmp(a.p, str_of(b), a.n); }

// read the whole stream, with the current division
static void
t_stream(const char* t, int size, bool request, uint64_t limit, int ahead, const char* what)
{
	// in a block of its size
	char* block = malloc(size + 1);
	memcpy(block, t, size);
	in = block; in_size = size; in_pos = 0; reads = 0;
	Tcp tcp;
	Readahead readahead;
	readahead_init(&readahead, &tcp, ahead);
	Http http;
	http_init(&http);
	int at = 0;
	for (int k = 0;; k++) {
		HMsg m;
		int want = h_read(t, size, at, limit, &m), got;
		http_reset(&http);
		bool eof = false, reached = false;
		bool fail = error_catch(
			eof = http_read(&http, &readahead, request);
			if (! eof) {
				if (limit == UINT64_MAX) http_read_content(&http, &readahead, &http.content);
				else reached = http_read_content_limit(&http, &readahead, &http.content, limit);
			}
		);
		got = fail ? H_ERROR : eof ? H_EOF : reached ? H_LIMIT : H_OK;
		static const char* names[] = { "end", "message", "error", "limit", "?" };
		if (want == H_EITHER || (want == H_OK && ! m.strict && got == H_ERROR)) break;
		mc_check(got == want, want == H_ERROR ? "accepted" : "result", "%s: message %d is read as %s instead of %s", what, k, names[got], names[want]);
		if (got != H_OK) break;
		static const int request_at[] = { HTTP_METHOD, HTTP_URL, HTTP_VERSION }, reply_at[] = { HTTP_VERSION, HTTP_CODE, HTTP_MSG };
		for (int i = 0; i < 3; i++) {
			auto o = &http.options[request ? request_at[i] : reply_at[i]];
			mc_check(h_same(m.opt[i], o), "first-line", "%s: message %d: part %d of the first line is '%.*s'", what, k, i, str_size(o), str_of(o));
		}
		mc_check(http.headers_count == m.headers && buf_size(&http.headers) == m.headers * (int)sizeof(HttpHeader), "headers", "%s: message %d has %d headers instead of %d", what, k, http.headers_count, m.headers);
		for (int i = 0; i < m.headers; i++) {
			auto h = (HttpHeader*)http.headers.start + i;
			mc_check(h_same(m.name[i], &h->name) && h_same(m.value[i], &h->value), "header", "%s: message %d: header %d is '%.*s: %.*s'", what, k, i, str_size(&h->name), str_of(&h->name), str_size(&h->value), str_of(&h->value));
			// found by its name in any case
			char name[600];
			for (int c = 0; c < m.name[i].n; c++) name[c] = c % 2 ? toupper(m.name[i].p[c]) : tolower(m.name[i].p[c]);
			auto f = http_find(&http, name, m.name[i].n);
			mc_check(f && f <= h && str_size(&f->name) == m.name[i].n && ! strncasecmp(str_of(&f->name), name, m.name[i].n), "find", "%s: header %d is not found", what, i);
		}
		mc_check(! http_find(&http, "x-none", 6), "find", "%s: absent header is found", what);
		mc_check(buf_size(&http.content) == m.content.n && ! memcmp(http.content.start ? (char*)http.content.start : "", m.content.p ? m.content.p : "", m.content.n), "content", "%s: content of message %d has %d bytes instead of %d", what, k, buf_size(&http.content), m.content.n);
		at = m.next;
	}
	http_free(&http);
	readahead_free(&readahead);
	free(block);
	mc_cases(1);
}

static void
h_division(int n, const int* c, int fixed)
{
	cut_count = n;
	for (int i = 0; i < n; i++) cuts[i] = c[i];
	chunk = fixed;
}

// in every division
static void
t_divisions(const char* t, int size, bool request, uint64_t limit)
{
	static const int fixed[] = { 0, 1, 2, 3, 5, 7, 16, 63, 255, 256, 257, 511, 512 };
	static const int aheads[] = { 16384, 256, 16, 1 };
	for (int a = 0; a < 4; a++)
		for (int i = 0; i < 13; i++) {
			char what[64];
			sprintf(what, "reads of %d, buffer of %d", fixed[i], aheads[a]);
			h_division(0, NULL, fixed[i]);
			t_stream(t, size, request, limit, aheads[a], what);
		}
	for (int a = 1; a < size; a++) {
		char what[64];
		sprintf(what, "cut at %d", a);
		h_division(1, &a, 0);
		t_stream(t, size, request, limit, 16384, what);
		int step = mc_q(size > 60 ? 13 : 3, size > 150 ? 5 : 1);
		for (int b = a + 1; b < size; b += step) {
			int c[2] = { a, b };
			sprintf(what, "cut at %d and %d", a, b);
			h_division(2, c, 0);
			t_stream(t, size, request, limit, 16384, what);
		}
	}
}

// ---------------------------------------------------------------- well formed
static int
h_message(char* out, bool request, int kind)
{
	static const char* first[2][4] = {
		{ "HTTP/1.1 200 OK\r\n", "HTTP/1.1 204 No Content\r\n", "H 4 x\r\n", "HTTP/1.1 400 Bad Request \r\n" },
		{ "POST /v1/db/main HTTP/1.1\r\n", "GET / HTTP/1.0\r\n", "P u v w\r\n", "POST /v1/db/a/b?columns=a:b HTTP/1.1\r\n" } };
	static const char* heads[] = { "", "Host: localhost:3485\r\n", "A: \r\nB: b: c\r\n", "Content-Type: text/plain\r\nAuthorization: Bearer a.b.c\r\nX:  two  \r\n", "X: \t\r\n:y: z\r\n" };
	static const int bodies[] = { -1, 0, 1, 2, 4, 25, 300 };
	int size = sprintf(out, "%s", first[request][kind % 4]);
	kind /= 4;
	size += sprintf(out + size, "%s", heads[kind % 4]);
	kind /= 4;
	int body = bodies[kind % 7];
	kind /= 7;
	if (body >= 0) size += sprintf(out + size, kind % 2 ? "content-length: %d\r\n" : "Content-Length: %d\r\n", body);
	if (kind % 2) size += sprintf(out + size, "Z-Last: 1\r\n");
	size += sprintf(out + size, "\r\n");
	// a body which looks like messages
	static const char like[] = "\r\n\r\nPOST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc\r\n\r\n";
	for (int i = 0; i < body; i++) out[size++] = like[i % (sizeof(like) - 1)];
	return size;
}

enum { KINDS = 4 * 4 * 7 * 2 };

static void
s_streams(void)
{
	int request = mc_choose(2), n = 1 + mc_choose(mc_q(2, 3));
	char t[4096];
	int  size = 0;
	int  kind = mc_choose(KINDS);
	size += h_message(t + size, request, kind);
	static const int next[] = { 0, 37, 90, 123, 200, 219 };
	for (int i = 1; i < n; i++) size += h_message(t + size, request, next[mc_choose(mc_q(3, 6))]);
	// the end is missing
	int cut = mc_choose(n == 1 ? 4 : 2);
	if (! mc_split()) return;
	mc_log("%d messages of kind %d, %d bytes, end %d", n, kind, size, cut);
	mc_step(1);
	if (n > 1 || cut) mc_nontrivial();
	if (cut == 1) size--;
	if (cut == 2) size -= size > 30 ? 30 : size / 2;
	if (cut == 3) size = 3;
	t_divisions(t, size, request, n == 2 ? 1 << 20 : UINT64_MAX);
}

// heads around the size limit
static void
s_limits(void)
{
	int form = mc_choose(3), k = mc_choose(2);
	if (! mc_split()) return;
	mc_log("form %d body %d", form, k);
	mc_nontrivial();
	for (int want = 480; want <= 800; want += want == 530 ? 221 : 1) {
		char t[2048];
		int size = sprintf(t, "POST /%s HTTP/1.1\r\n%s", form == 0 ? "" : "x", k ? "Content-Length: 5\r\n" : "");
		size += sprintf(t + size, "Pad: ");
		while (size < want - 4) t[size++] = form == 2 && size % 50 == 49 ? ' ' : 'p';
		size += sprintf(t + size, "\r\n\r\n");
		if (k) size += sprintf(t + size, "hello");
		size += sprintf(t + size, "GET / HTTP/1.1\r\n\r\n");
		static const int fixed[] = { 0, 1, 100, 127, 128, 129, 200, 255, 256, 257, 300, 509, 510, 511, 512, 513, 600 };
		static const int aheads[] = { 16384, 256, 512, 200 };
		for (int i = 0; i < 17; i++)
			for (int a = 0; a < 4; a++) {
				char what[64];
				sprintf(what, "head of %d, reads of %d, buffer of %d", want, fixed[i], aheads[a]);
				h_division(0, NULL, fixed[i]);
				t_stream(t, size, true, UINT64_MAX, aheads[a], what);
			}
		for (int cut = 1; cut < size; cut += mc_q(7, 1)) {
			char what[64];
			sprintf(what, "head of %d cut at %d", want, cut);
			h_division(1, &cut, 0);
			t_stream(t, size, true, UINT64_MAX, 16384, what);
		}
	}
	mc_step(71);
}

// ---------------------------------------------------------------- any text
static void
s_texts(void)
{
	static const char* sym[] = { "A", " ", ":", "\r\n", "\r", "\n", ": " };
	static const char* pre[] = { "", "G u v\r\n", "G u v\r\nA: b\r\n", "G " };
	int request = mc_choose(2), p = mc_choose(4), first = mc_choose(7), len = mc_choose(mc_q(7, 8));
	if (! mc_split()) return;
	mc_log("%d symbols from %d after %d", len, first, p);
	mc_nontrivial();
	int64_t total = 1;
	for (int i = 0; i < len; i++) total *= 7;
	for (int64_t x = 0; x < total; x++) {
		char t[128];
		int size = sprintf(t, "%s%s", pre[p], sym[first]);
		int64_t r = x;
		for (int i = 0; i < len; i++, r /= 7) { const char* s = sym[r % 7]; while (*s) t[size++] = *s++; }
		for (int e = 0; e < 2; e++) {
			int n = size;
			if (e) { memcpy(t + n, "\r\n\r\n", 4); n += 4; }
			h_division(0, NULL, x % 3 == 0 ? 1 : 0);
			t_stream(t, n, request, UINT64_MAX, x % 2 ? 16384 : 3, "text");
		}
	}
	mc_step(total);
}

// ---------------------------------------------------------------- content sizes
static void
s_content(void)
{
	static const char* lens[] = { "", "0", "00", "5", "05", "10", "11", "-1", "-5", "+5", "5 ", " 5", "5a", "0x5", "5.0", "1e1", "2147483642", "2147483643", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967301", "8589934597", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551621", "99999999999999999999999" };
	static const uint64_t limits[] = { UINT64_MAX, 5, 6, 10, 11, 1 << 20, 1ull << 40 };
	int l = mc_choose(30), k = mc_choose(7), body = mc_choose(12);
	if (! mc_split()) return;
	mc_log("content length '%s', limit %d, %d bytes", lens[l], k, body);
	mc_nontrivial();
	mc_step(1);
	char t[256];
	int size = sprintf(t, "POST / HTTP/1.1\r\nContent-Length: %s\r\nA: b\r\n\r\n%.*s", lens[l], body, "0123456789abcdef");
	static const int fixed[] = { 0, 1, 4 };
	for (int i = 0; i < 3; i++) {
		h_division(0, NULL, fixed[i]);
		t_stream(t, size, true, limits[k], i ? 4 : 16384, "content");
	}
}

// ---------------------------------------------------------------- written messages
static void
s_written(void)
{
	int reply = mc_choose(2), parts = mc_choose(64), body = mc_choose(4);
	if (! mc_split()) return;
	mc_log("reply %d parts %d body %d", reply, parts, body);
	mc_nontrivial();
	mc_step(1);
	static const int bodies[] = { 0, 1, 17, 700 };
	Endpoint e;
	endpoint_init(&e);
	if (parts & 1) opt_string_set_raw(&e.db, "main", 4);
	if (parts & 2) opt_string_set_raw(&e.relation, "rel", 3);
	if (parts & 4) opt_string_set_raw(&e.token, "aaa.bbb.ccc", 11);
	if (parts & 8) opt_string_set_raw(&e.content_type, "application/json", 16);
	if (parts & 16) opt_string_set_raw(&e.accept, "text/plain", 10);
	if (parts & 32) opt_string_set_raw(&e.columns, "a,b", 3);
	char t[4096];
	int  size = 0;
	Http out;
	http_init(&out);
	for (int k = 0; k < 2; k++) {
		auto buf = reply ? http_begin_reply(&out, &e, "200 OK", 6, bodies[body]) : http_begin_request(&out, &e, bodies[body]);
		http_end(buf);
		memcpy(t + size, buf->start, buf_size(buf));
		size += buf_size(buf);
		for (int i = 0; i < bodies[body]; i++) t[size++] = "a\r\n\r\n"[i % 5];
	}
	// the text says the same
	HMsg m;
	int at = 0;
	for (int k = 0; k < 2; k++) {
		mc_check(h_read(t, size, at, UINT64_MAX, &m) == H_OK && m.strict, "written", "written message %d is not well formed", k);
		mc_check(m.content.n == bodies[body], "written-content", "written message has content of %d bytes instead of %d", m.content.n, bodies[body]);
		int wanted = (bodies[body] > 0) + (reply ? !! (parts & 16) : !! (parts & 4) + !! (parts & 8) + !! (parts & 16));
		mc_check(m.headers == wanted, "written-headers", "written message has %d headers instead of %d", m.headers, wanted);
		if (! reply) {
			const char* url = parts & 1 ? parts & 2 ? "/v1/db/main/rel" : "/v1/db/main" : "/";
			char want[128];
			sprintf(want, "%s%s", url, parts & 32 ? "?columns=a,b" : "");
			mc_check(m.opt[1].n == (int)strlen(want) && ! memcmp(m.opt[1].p, want, m.opt[1].n), "written-url", "target is '%.*s' instead of '%s'", m.opt[1].n, m.opt[1].p, want);
		}
		at = m.next;
	}
	mc_check(at == size, "written-end", "written messages end at %d instead of %d", at, size);
	t_divisions(t, size > 600 ? 600 : size, ! reply, UINT64_MAX);
	http_free(&out);
	endpoint_free(&e);
}

McScenario mc_scenarios[] = {
	{ "streams", s_streams, 0 },
	{ "limits", s_limits, 0 },
	{ "texts", s_texts, 0 },
	{ "content", s_content, 0 },
	{ "written", s_written, 0 },
	{ NULL, NULL, 0 },
};
