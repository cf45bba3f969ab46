// C22: JSON texts and stored values against an independent parser, printer and
// comparison. Every text stands in a block of its exact size.
#include "am.h"
#include <math.h>

// ---------------------------------------------------------------- reference values
typedef enum { V_NULL, V_BOOL, V_REAL, V_INT, V_STR, V_OBJ, V_ARR } VType;
typedef struct V V;
struct V {
	VType   type;
	int64_t i;
	double  d;
	char*   s;
	int     size;
	V*      child[16];
	char*   key[16];
	int     key_size[16];
	int     n;
};
static char   pool[1 << 20];
static size_t pool_pos;
static void*
v_mem(size_t n)
{
	void* p = pool + pool_pos;
	pool_pos += (n + 15) & ~15ull;
	mc_check(pool_pos < sizeof(pool), "harness", "pool");
	return p;
}
static V* v_new(VType t) { V* v = v_mem(sizeof(V)); memset(v, 0, sizeof(*v)); v->type = t; return v; }

// ---------------------------------------------------------------- reference parser
static const char *rp, *re;
static bool unsure;     // the text may be rejected or not

static bool r_ws(void) { while (rp < re && (*rp == ' ' || (*rp >= 9 && *rp <= 13))) rp++; return rp < re; }

static bool
r_kw(const char* w)
{
	int n = strlen(w);
	if (re - rp < n || strncasecmp(rp, w, n)) return false;
	rp += n;
	return true;
}

static int r_hex(const char* p) { int v = 0; for (int i = 0; i < 4; i++) { char c = p[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return -1; v = v << 4 | d; } return v; }

static int
r_utf8(char* to, uint32_t c)
{
	if (c < 0x80) { to[0] = c; return 1; }
	if (c < 0x800) { to[0] = 0xC0 | c >> 6; to[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { to[0] = 0xE0 | c >> 12; to[1] = 0x80 | (c >> 6 & 63); to[2] = 0x80 | (c & 63); return 3; }
	to[0] = 0xF0 | c >> 18; to[1] = 0x80 | (c >> 12 & 63); to[2] = 0x80 | (c >> 6 & 63); to[3] = 0x80 | (c & 63);
	return 4;
}

static bool
r_str(char** out, int* out_size)
{
	char q = *rp++;
	const char* from = rp;
	// find the end
	for (;; rp++) {
		if (rp == re) return false;
		if (*rp == '\n') return false;
		if (*rp == q) break;
		if (*rp == '\\') { rp++; if (rp == re || *rp == '\n') return false; }
	}
	const char* to = rp++;
	// utf8
	for (const uint8_t* p = (uint8_t*)from; p < (uint8_t*)to;) {
		int left = (uint8_t*)to - p, n = p[0] < 0x80 ? 1 : (p[0] & 0xE0) == 0xC0 ? 2 : (p[0] & 0xF0) == 0xE0 ? 3 : (p[0] & 0xF8) == 0xF0 ? 4 : 0;
		if (! n || left < n) return false;
		for (int i = 1; i < n; i++) if ((p[i] & 0xC0) != 0x80) return false;
		if (n == 2 && p[0] < 0xC2) return false;
		if (n == 3 && p[0] == 0xE0 && p[1] < 0xA0) return false;
		if (n == 4 && p[0] == 0xF0 && p[1] < 0x90) return false;
		// surrogates and out of range
		if (n == 3 && p[0] == 0xED && p[1] >= 0xA0) unsure = true;
		if (n == 4 && (p[0] > 0xF4 || (p[0] == 0xF4 && p[1] >= 0x90))) unsure = true;
		p += n;
	}
	char* s = v_mem(to - from + 1);
	int   n = 0;
	for (const char* p = from; p < to; p++) {
		if (*p != '\\') { s[n++] = *p; continue; }
		p++;
		switch (*p) {
		case 'a': s[n++] = '\a'; break;
		case 'b': s[n++] = '\b'; break;
		case 'f': s[n++] = '\f'; break;
		case 'n': s[n++] = '\n'; break;
		case 'r': s[n++] = '\r'; break;
		case 't': s[n++] = '\t'; break;
		case 'v': s[n++] = '\v'; break;
		case 'u': {
			int c = to - p >= 5 ? r_hex(p + 1) : -1;
			if (c < 0 || (c >= 0xDC00 && c <= 0xDFFF)) return false;
			p += 4;
			if (c >= 0xD800 && c <= 0xDBFF) {
				int l = to - p >= 7 && p[1] == '\\' && p[2] == 'u' ? r_hex(p + 3) : -1;
				if (l < 0xDC00 || l > 0xDFFF) return false;
				c = 0x10000 + ((c & 0x3FF) << 10 | (l & 0x3FF));
				p += 6;
			}
			n += r_utf8(s + n, c);
			break;
		}
		case '\\': case '"': case '\'': case '/': s[n++] = *p; break;
		// not escapes of the standard
		default: unsure = true; s[n++] = *p; break;
		}
	}
	*out = s;
	*out_size = n;
	return true;
}

static V*
r_num(void)
{
	bool minus = false;
	if (*rp == '-') { minus = true; rp++; }
	const char *p = rp;
	char buf[512];
	int  n = 0, digits = 0;
	if (minus) buf[n++] = '-';
	while (p < re && isdigit(*p)) { mc_check(n < 500, "harness", "number"); buf[n++] = *p++; digits++; }
	if (p < re && (*p == '.' || *p == 'e' || *p == 'E')) {
		if (*p == '.') {
			buf[n++] = *p++;
			while (p < re && isdigit(*p)) { buf[n++] = *p++; digits++; }
		}
		if (! digits) return NULL;
		if (p < re && (*p == 'e' || *p == 'E')) {
			const char* e = p + 1;
			if (e < re && (*e == '+' || *e == '-')) e++;
			if (e < re && isdigit(*e)) {
				while (p < e) buf[n++] = *p++;
				while (p < re && isdigit(*p)) buf[n++] = *p++;
			}
		}
		buf[n] = 0;
		V* v = v_new(V_REAL);
		v->d = strtod(buf, NULL);
		if (isinf(v->d)) return NULL;
		// denormal or zero by underflow
		if (fabs(v->d) < DBL_MIN) for (char* c = buf; *c && *c != 'e' && *c != 'E'; c++) if (*c >= '1' && *c <= '9') unsure = true;
		rp = p;
		return v;
	}
	if (! digits) return NULL;
	buf[n] = 0;
	errno = 0;
	V* v = v_new(V_INT);
	v->i = strtoll(buf, NULL, 10);
	if (errno) return NULL;
	rp = p;
	return v;
}

static V*
r_value(void)
{
	if (! r_ws()) return NULL;
	switch (*rp) {
	case '[': {
		V* v = v_new(V_ARR);
		rp++;
		if (! r_ws()) return NULL;
		if (*rp == ']') { rp++; return v; }
		for (;;) {
			V* c = r_value();
			if (! c || ! r_ws()) return NULL;
			v->child[v->n++] = c;
			if (*rp == ']') { rp++; return v; }
			if (*rp++ != ',') return NULL;
		}
	}
	case '{': {
		V* v = v_new(V_OBJ);
		rp++;
		if (! r_ws()) return NULL;
		if (*rp == '}') { rp++; return v; }
		for (;;) {
			if (! r_ws() || (*rp != '"' && *rp != '\'')) return NULL;
			if (! r_str(&v->key[v->n], &v->key_size[v->n])) return NULL;
			if (! r_ws() || *rp++ != ':') return NULL;
			V* c = r_value();
			if (! c || ! r_ws()) return NULL;
			v->child[v->n++] = c;
			if (*rp == '}') { rp++; return v; }
			if (*rp++ != ',') return NULL;
		}
	}
	case '"': case '\'': {
		V* v = v_new(V_STR);
		return r_str(&v->s, &v->size) ? v : NULL;
	}
	case 'n': case 'N': return r_kw("null") ? v_new(V_NULL) : NULL;
	case 't': case 'T': if (! r_kw("true")) return NULL; else { V* v = v_new(V_BOOL); v->i = 1; return v; }
	case 'f': case 'F': return r_kw("false") ? v_new(V_BOOL) : NULL;
	default:
		if (isdigit(*rp) || *rp == '.' || *rp == '-') return r_num();
	}
	return NULL;
}

// ---------------------------------------------------------------- stored value against the reference
// exact: with the type of the number, otherwise by its value
static bool
t_same(V* v, uint8_t** pos, bool exact)
{
	switch (v->type) {
	case V_NULL: if (! json_is_null(*pos)) return false; json_read_null(pos); return true;
	case V_BOOL: { if (! json_is_bool(*pos)) return false; bool b; json_read_bool(pos, &b); return b == v->i; }
	case V_INT: {
		if (! exact && json_is_real(*pos)) { double d; json_read_real(pos, &d); return d == (double)v->i && (int64_t)d == v->i; }
		if (! json_is_integer(*pos)) return false;
		int64_t i; json_read_integer(pos, &i); return i == v->i;
	}
	case V_REAL: {
		if (! exact && json_is_integer(*pos)) { int64_t i; json_read_integer(pos, &i); return (double)i == v->d; }
		if (! json_is_real(*pos)) return false;
		double d; json_read_real(pos, &d); return d == v->d;
	}
	case V_STR: { if (! json_is_string(*pos)) return false; Str s; json_read_string(pos, &s); return str_size(&s) == v->size && ! memcmp(s.pos, v->s, v->size); }
	case V_ARR: {
		if (! json_is_array(*pos)) return false;
		json_read_array(pos);
		for (int i = 0; i < v->n; i++) if (json_is_array_end(*pos) || ! t_same(v->child[i], pos, exact)) return false;
		return json_read_array_end(pos);
	}
	case V_OBJ: {
		if (! json_is_obj(*pos)) return false;
		json_read_obj(pos);
		for (int i = 0; i < v->n; i++) {
			if (json_is_obj_end(*pos) || ! json_is_string(*pos)) return false;
			Str s;
			json_read_string(pos, &s);
			if (str_size(&s) != v->key_size[i] || memcmp(s.pos, v->key[i], v->key_size[i])) return false;
			if (! t_same(v->child[i], pos, exact)) return false;
		}
		return json_read_obj_end(pos);
	}
	}
	return false;
}

// encode the reference value by the encoder
static void
t_encode(V* v, Buf* to)
{
	switch (v->type) {
	case V_NULL: encode_null(to); break;
	case V_BOOL: encode_bool(to, v->i); break;
	case V_INT:  encode_integer(to, v->i); break;
	case V_REAL: encode_real(to, v->d); break;
	case V_STR:  encode_raw(to, v->s, v->size); break;
	case V_ARR:
		encode_array(to);
		for (int i = 0; i < v->n; i++) t_encode(v->child[i], to);
		encode_array_end(to);
		break;
	case V_OBJ:
		encode_obj(to);
		for (int i = 0; i < v->n; i++) { encode_raw(to, v->key[i], v->key_size[i]); t_encode(v->child[i], to); }
		encode_obj_end(to);
		break;
	}
}

typedef struct { Json json; Str text; Buf* to; } Parse;
static void call_parse(Parse* p) { json_parse(&p->json, &p->text, p->to); }

// parse the text in a block of its own; true: accepted
static bool
t_parse(const char* text, int size, Buf* out, int* used)
{
	char* block = malloc(size + (size == 0));
	memcpy(block, text, size);
	Parse p;
	json_init(&p.json);
	str_set(&p.text, block, size);
	p.to = out;
	bool err = error_catch( call_parse(&p); );
	*used = err ? -1 : p.json.pos - block;
	json_free(&p.json);
	free(block);
	return ! err;
}

static void
t_print_and_read(V* v, Buf* data, const char* what)
{
	Buf text, again;
	buf_init(&text);
	buf_init(&again);
	for (int pretty = 0; pretty < 2; pretty++) {
		buf_reset(&text);
		buf_reset(&again);
		auto pos = data->start;
		if (pretty) json_export_pretty(&text, NULL, &pos);
		else json_export(&text, NULL, &pos);
		mc_check(pos == data->position, "export-end", "%s: printing stops at %d of %d bytes", what, (int)(pos - data->start), buf_size(data));
		int used;
		bool ok = t_parse(buf_cstr(&text), buf_size(&text), &again, &used);
		mc_check(ok, "reread", "%s: printed text '%.*s' is rejected", what, buf_size(&text) > 100 ? 100 : buf_size(&text), text.start);
		mc_check(used == buf_size(&text), "reread-end", "%s: printed text '%.*s' is read until %d", what, buf_size(&text) > 100 ? 100 : buf_size(&text), text.start, used);
		pos = again.start;
		mc_check(t_same(v, &pos, false) && pos == again.position, "round-trip", "%s: printed text '%.*s' reads back another value", what, buf_size(&text) > 100 ? 100 : buf_size(&text), text.start);
	}
	buf_free(&text);
	buf_free(&again);
}

static void
t_text(const char* text, int size)
{
	pool_pos = 0;
	unsure = false;
	rp = text;
	re = text + size;
	V* v = r_value();
	Buf out;
	buf_init(&out);
	int used;
	bool ok = t_parse(text, size, &out, &used);
	if (ok != (v != NULL)) {
		if (! unsure) mc_fail("accept", "text '%.*s' is %s", size, text, ok ? "accepted" : "rejected");
	} else if (ok && ! unsure) {
		mc_check(used == rp - text, "parse-end", "text '%.*s' is read until %d instead of %d", size, text, used, (int)(rp - text));
		auto pos = out.start;
		mc_check(t_same(v, &pos, true) && pos == out.position, "parse", "text '%.*s' is stored as another value", size, text);
		mc_check(json_sizeof(out.start) == buf_size(&out), "sizeof", "text '%.*s': size of the value is %d of %d", size, text, json_sizeof(out.start), buf_size(&out));
		t_print_and_read(v, &out, "text");
	}
	buf_free(&out);
	mc_cases(1);
}

// ---------------------------------------------------------------- scenarios
static const char* tokens[] = {
	"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " ", "'b'", "\"\\n\\\"\"", "-2.5e1", "true", "\"", "'", "\\", "-", ".", "e", "nul", "FALSE", "\n", "0x",
};
enum { TOKENS = sizeof(tokens) / sizeof(*tokens) };

static void
s_texts(void)
{
	char text[128] = "";
	int n = mc_q(5, 6), len = 0;
	// every text up to the depth, the last token in one execution
	int count = mc_choose(n) + 1;
	for (int i = 0; i < count - 1; i++) len += sprintf(text + len, "%s", tokens[mc_choose(TOKENS)]);
	if (! mc_split()) return;
	mc_log("%s...", text);
	mc_step(TOKENS);
	if (count > 2) mc_nontrivial();
	for (int i = 0; i < TOKENS; i++) {
		int l = sprintf(text + len, "%s", tokens[i]);
		t_text(text, len + l);
	}
	if (count == 1) t_text("", 0);
}

// well-formed: every tree of arrays and objects of a few nodes
static int nodes;
static int
t_gen(char* to, int depth)
{
	static const char* leaf[] = { "1", "\"x\"", "null", "-0.5" };
	int kind = mc_choose(depth && nodes > 0 ? 6 : 4), len = 0;
	if (kind < 4) return sprintf(to, "%s", leaf[kind]);
	int n = mc_choose((nodes < 3 ? nodes : 3) + 1);
	nodes -= n;
	len += sprintf(to + len, kind == 4 ? "[" : "{");
	for (int i = 0; i < n; i++) {
		if (i) len += sprintf(to + len, ",");
		if (kind == 5) len += sprintf(to + len, "\"%s\":", (const char*[]){ "a", "", "k\\\"" }[i]);
		len += t_gen(to + len, depth - 1);
	}
	return len + sprintf(to + len, kind == 4 ? "]" : "}");
}

static void
s_trees(void)
{
	char text[1024];
	nodes = mc_q(4, 6);
	int len = t_gen(text, 4);
	if (! mc_split()) return;
	mc_log("%s", text);
	mc_step(1);
	mc_nontrivial();
	t_text(text, len);
	// every prefix
	for (int i = 0; i < len; i++) t_text(text, i);
	// every byte removed or doubled
	char other[1100];
	for (int i = 0; i < len; i++) {
		memcpy(other, text, i); memcpy(other + i, text + i + 1, len - i - 1);
		t_text(other, len - 1);
		memcpy(other, text, i + 1); memcpy(other + i + 1, text + i, len - i);
		t_text(other, len + 1);
	}
}

static void
s_strings(void)
{
	static const char bytes[] = "\0\1\n\t\"'\\/ubnxad80C\x7f\x80\x83\xc0\xc2\xa9\xe0\xa0\xe2\xed\xf0\x90\xf4\xf8\xff";
	enum { BYTES = sizeof(bytes) - 1 };
	char text[64];
	int n = mc_q(3, 4), len = 0;
	int count = mc_choose(n) + 1;
	text[len++] = mc_choose(2) ? '"' : '\'';
	for (int i = 0; i < count; i++) text[len++] = bytes[mc_choose(BYTES)];
	if (! mc_split()) return;
	mc_log("%.*s..", len, text);
	mc_step(1);
	mc_nontrivial();
	for (int i = 0; i <= BYTES; i++) {
		int l = len;
		if (i < BYTES) text[l++] = bytes[i];
		text[l++] = text[0];
		t_text(text, l);
	}
	// unterminated
	t_text(text, len);
}

static void
s_unicode(void)
{
	char text[64];
	int hi = mc_choose(256);
	if (! mc_split()) return;
	mc_log("\\u%02x..", hi);
	mc_step(256);
	mc_nontrivial();
	for (int lo = 0; lo < 256; lo++) {
		int c = hi << 8 | lo;
		t_text(text, sprintf(text, "\"\\u%04x\"", c));
		t_text(text, sprintf(text, "\"x\\u%04Xy\"", c));
		// as a half of a pair
		static const char* other[] = { "\\ud800", "\\uDBFF", "\\udc00", "\\uDFFF", "\\u0041", "\\n", "\\u12", "\\u" };
		for (int i = 0; i < 8; i++) {
			t_text(text, sprintf(text, "\"\\u%04x%s\"", c, other[i]));
			t_text(text, sprintf(text, "[\"%s\\u%04x\"]", other[i], c));
		}
	}
	// every character itself
	for (int lo = 0; lo < 256; lo++)
		for (int plane = 0; plane < 17; plane++) {
			if (plane > 1 && ! (lo < 2 || lo > 253)) continue;
			text[0] = '"';
			int l = 1 + r_utf8(text + 1, plane << 16 | hi << 8 | lo);
			text[l++] = '"';
			t_text(text, l);
		}
}

static void
s_numbers(void)
{
	static const char chars[] = "-+.eE01579 ";
	enum { CHARS = sizeof(chars) - 1 };
	char text[64] = "[";
	int n = mc_q(6, 7), len = 1;
	int count = mc_choose(n) + 1;
	for (int i = 0; i < count; i++) text[len++] = chars[mc_choose(CHARS)];
	if (! mc_split()) return;
	mc_log("%.*s", len - 1, text + 1);
	mc_step(1);
	mc_nontrivial();
	t_text(text + 1, len - 1);
	for (int i = 0; i < CHARS; i++) {
		text[len] = chars[i];
		t_text(text + 1, len);
		text[len + 1] = ']';
		t_text(text, len + 2);
	}
}

// boundary integers and reals as values and texts
static void
t_value(V* v)
{
	Buf data;
	buf_init(&data);
	t_encode(v, &data);
	auto pos = data.start;
	mc_check(t_same(v, &pos, true) && pos == data.position, "encode", "a value reads back changed (type %d, integer %" PRIi64 ", real %.17g, size %d)", v->type, v->i, v->d, v->size);
	t_print_and_read(v, &data, "value");
	buf_free(&data);
	mc_cases(1);
}

static void
s_boundary(void)
{
	int k = mc_choose(64 + 20);
	if (! mc_split()) return;
	mc_log("boundary %d", k);
	mc_nontrivial();
	char text[512];
	if (k < 64) {
		for (int64_t d = -70; d <= 70; d++)
			for (int sign = 0; sign < 2; sign++) {
				pool_pos = 0;
				int64_t i = (int64_t)((1ull << k) + (uint64_t)d);
				if (sign) i = (int64_t)(0 - (uint64_t)i);
				V* v = v_new(V_INT);
				v->i = i;
				t_value(v);
				t_text(text, sprintf(text, "%" PRIi64, i));
				t_text(text, sprintf(text, "[%" PRIi64 "0]", i));
				pool_pos = 0;
				v = v_new(V_REAL);
				v->d = (double)i;
				t_value(v);
				v->d = i / 1000.0;
				t_value(v);
				v->d = ldexp(1.0 + d / 1024.0, k * 15 - 480);
				if (sign) v->d = -v->d;
				if (! isinf(v->d)) t_value(v);
			}
		return;
	}
	static const double reals[] = { 0, -0.0, 0.1, -0.1, 1.0 / 3, 3.14159265358979, 1e15, 1e16, 1e17, 123456789.125, FLT_MAX, FLT_MIN, -FLT_MAX, FLT_MAX * 2.0, FLT_MIN / 2.0, DBL_MAX, DBL_MIN, 16777217, 0.5, 1e-7 };
	double at = reals[k - 64];
	// and its neighbours
	double d = at;
	for (int i = 0; i < 8; i++) d = nextafter(d, -INFINITY);
	for (int i = 0; i < 17; i++, d = nextafter(d, INFINITY)) {
		if (isinf(d) || (d != 0 && fabs(d) < DBL_MIN)) continue;
		pool_pos = 0;
		V* v = v_new(V_REAL);
		v->d = d;
		t_value(v);
		t_text(text, sprintf(text, "%.17g", d));
		t_text(text, sprintf(text, "[%.17e]", d));
		if (fabs(d) < 1e200 && fabs(d) > 1e-200) t_text(text, sprintf(text, "%.200f,", d));
	}
	float f = at;
	for (int i = 0; i < 8; i++) f = nextafterf(f, -INFINITY);
	for (int i = 0; i < 17; i++, f = nextafterf(f, INFINITY)) {
		if (isinf(f) || (f != 0 && fabs((double)f) < DBL_MIN)) continue;
		pool_pos = 0;
		V* v = v_new(V_REAL);
		v->d = f;
		t_value(v);
	}
}

// string sizes around the size classes
static void
s_sizes(void)
{
	static const int around[] = { 0, 31, 127, 255, 32767, 65535, 70000 };
	int at = around[mc_choose(7)];
	if (! mc_split()) return;
	mc_log("size %d", at);
	mc_nontrivial();
	for (int d = -3; d <= 3; d++) {
		if (at + d < 0) continue;
		pool_pos = 0;
		V* arr = v_new(V_ARR);
		for (int i = 0; i < 2; i++) {
			V* v = v_new(V_STR);
			v->size = at + d;
			v->s = v_mem(v->size + 1);
			// without and with characters to escape
			for (int j = 0; j < v->size; j++) v->s[j] = i ? "a\n\"\t"[j % 4] : 'a' + j % 26;
			t_value(v);
			arr->child[arr->n++] = v;
		}
		V* obj = v_new(V_OBJ);
		obj->n = 1;
		obj->key[0] = arr->child[1]->s;
		obj->key_size[0] = at + d;
		obj->child[0] = arr;
		t_value(obj);
		// target and concatenated strings
		Buf b;
		buf_init(&b);
		Str a, c;
		for (int cut = 0; cut < 3; cut++) {
			buf_reset(&b);
			auto s = arr->child[0]->s;
			int  n = arr->child[0]->size, x = cut == 0 ? 0 : cut == 1 ? n / 2 : n;
			auto pos = buf_reserve(&b, json_size_string(n));
			json_write_string_cat(pos, s, s + x, x, n - x);
			uint8_t* p = b.start;
			mc_check(t_same(arr->child[0], &p, true) && p == b.position, "string-cat", "a string of %d + %d bytes reads back changed", x, n - x);
			str_set(&a, s, x);
			str_set(&c, s + x, n - x);
			buf_reset(&b);
			encode_target(&b, &a, &c);
			p = b.start;
			Str t;
			json_read_string(&p, &t);
			mc_check(p == b.position && str_size(&t) == n + 1 && t.pos[x] == '.' && ! memcmp(t.pos, s, x) && ! memcmp(t.pos + x + 1, s + x, n - x), "target", "a target name of %d + %d bytes reads back changed", x, n - x);
		}
		buf_free(&b);
	}
}

// ---------------------------------------------------------------- comparison and lookups
enum { MAXV = 512 };
static V*  vs[MAXV];
static Buf vdata[MAXV];
static int nvs;

static void t_add(V* v) { mc_check(nvs < MAXV, "harness", "values"); buf_init(&vdata[nvs]); t_encode(v, &vdata[nvs]); vs[nvs++] = v; }

static void
t_universe(void)
{
	pool_pos = 0;
	nvs = 0;
	V* leaf[24];
	int n = 0;
	static const int64_t ints[] = { 0, 1, 31, 32, -1, 127, 128, INT64_MAX, INT64_MIN };
	static const double  reals[] = { 0.5, -0.5, 1, 0.1 };
	static const char*   strs[] = { "", "a", "ab", "b", "\xc3\xbf" };
	for (int i = 0; i < 9; i++) { leaf[n] = v_new(V_INT); leaf[n++]->i = ints[i]; }
	for (int i = 0; i < 4; i++) { leaf[n] = v_new(V_REAL); leaf[n++]->d = reals[i]; }
	for (int i = 0; i < 5; i++) { leaf[n] = v_new(V_STR); leaf[n]->s = (char*)strs[i]; leaf[n++]->size = strlen(strs[i]); }
	leaf[n++] = v_new(V_NULL);
	leaf[n] = v_new(V_BOOL); leaf[n++]->i = 1;
	leaf[n++] = v_new(V_BOOL);
	for (int i = 0; i < n; i++) t_add(leaf[i]);
	// a long string
	V* s = v_new(V_STR);
	s->size = 200; s->s = v_mem(200); memset(s->s, 'a', 200);
	t_add(s);
	static const int pick[] = { 0, 3, 9, 14, 18, 20 };
	int first = nvs;
	t_add(v_new(V_ARR));
	t_add(v_new(V_OBJ));
	for (int i = 0; i < 6; i++) {
		V* a = v_new(V_ARR); a->n = 1; a->child[0] = leaf[pick[i]]; t_add(a);
		for (int k = 0; k < 2; k++) {
			V* o = v_new(V_OBJ); o->n = 1; o->child[0] = leaf[pick[i]]; o->key[0] = k ? "a" : "b"; o->key_size[0] = 1; t_add(o);
		}
		for (int j = 0; j < 6; j++) {
			a = v_new(V_ARR); a->n = 2; a->child[0] = leaf[pick[i]]; a->child[1] = leaf[pick[j]]; t_add(a);
			V* o = v_new(V_OBJ); o->n = 2; o->child[0] = leaf[pick[i]]; o->child[1] = leaf[pick[j]]; o->key[0] = "a"; o->key_size[0] = 1; o->key[1] = "b"; o->key_size[1] = 1; t_add(o);
		}
	}
	// nested
	int last = first + 12;
	for (int i = first; i < last; i++)
		for (int j = 0; j < 3; j++) {
			V* a = v_new(V_ARR); a->child[a->n++] = vs[i]; if (j) a->child[a->n++] = j == 1 ? leaf[1] : vs[first]; t_add(a);
			V* o = v_new(V_OBJ); o->child[0] = vs[i]; o->key[0] = "a"; o->key_size[0] = 1; o->n = 1;
			if (j) { o->key[1] = j == 1 ? "b" : "a.b"; o->key_size[1] = j == 1 ? 1 : 3; o->child[1] = leaf[2]; o->n = 2; }
			t_add(o);
		}
}

// same content
static bool
v_equal(V* a, V* b)
{
	if (a->type != b->type || a->n != b->n) return false;
	switch (a->type) {
	case V_NULL: return true;
	case V_BOOL: case V_INT: return a->i == b->i;
	case V_REAL: return a->d == b->d;
	case V_STR: return a->size == b->size && ! memcmp(a->s, b->s, a->size);
	default: break;
	}
	for (int i = 0; i < a->n; i++) {
		if (a->type == V_OBJ && (a->key_size[i] != b->key_size[i] || memcmp(a->key[i], b->key[i], a->key_size[i]))) return false;
		if (! v_equal(a->child[i], b->child[i])) return false;
	}
	return true;
}

static int sign(int x) { return (x > 0) - (x < 0); }

static void
s_compare(void)
{
	t_universe();
	int i = mc_choose(nvs);
	if (mc_split()) {
		mc_log("value %d", i);
		mc_step(nvs);
		mc_nontrivial();
		auto a = vdata[i].start;
		t_print_and_read(vs[i], &vdata[i], "value");
		for (int j = 0; j < nvs; j++) {
			auto b = vdata[j].start;
			int ab = sign(json_compare(a, b)), ba = sign(json_compare(b, a));
			mc_check(ab == -ba, "antisymmetric", "values %d and %d compare as %d and %d", i, j, ab, ba);
			mc_check((ab == 0) == v_equal(vs[i], vs[j]), "equality", "values %d and %d compare as %d", i, j, ab);
			// natural order of scalars
			V *x = vs[i], *y = vs[j];
			if (x->type == y->type) {
				if (x->type == V_INT || x->type == V_BOOL) mc_check(ab == (x->i > y->i) - (x->i < y->i), "order", "%" PRIi64 " and %" PRIi64 " compare as %d", x->i, y->i, ab);
				if (x->type == V_REAL) mc_check(ab == (x->d > y->d) - (x->d < y->d), "order", "%g and %g compare as %d", x->d, y->d, ab);
				if (x->type == V_STR) {
					int m = memcmp(x->s, y->s, x->size < y->size ? x->size : y->size);
					mc_check(ab == (m ? sign(m) : (x->size > y->size) - (x->size < y->size)), "order", "strings '%.*s' and '%.*s' compare as %d", x->size, x->s, y->size, y->s, ab);
				}
				// the first element that differs decides
				if ((x->type == V_ARR || x->type == V_OBJ) && x->n && y->n && x->type == V_ARR) {
					int c = sign(json_compare(a + 1, b + 1));
					if (c) mc_check(ab == c, "order", "arrays %d and %d compare as %d, their first elements as %d", i, j, ab, c);
				}
			}
			for (int k = 0; k < nvs; k++) {
				int bc = sign(json_compare(b, vdata[k].start));
				if (ab <= 0 && bc <= 0) mc_check(json_compare(a, vdata[k].start) <= 0, "transitive", "values %d <= %d <= %d", i, j, k);
			}
			mc_cases(nvs);
		}
	}
	for (int j = 0; j < nvs; j++) buf_free(&vdata[j]);
}

typedef struct { uint8_t** pos; Str* path; bool rc; } Find;
static void call_find(Find* f) { f->rc = json_obj_find_path(f->pos, f->path); }

static void
s_lookup(void)
{
	t_universe();
	int i = mc_choose(nvs);
	if (mc_split()) {
		mc_log("value %d", i);
		mc_nontrivial();
		V* v = vs[i];
		auto start = vdata[i].start;
		mc_check(json_sizeof(start) == buf_size(&vdata[i]), "sizeof", "size of value %d is %d instead of %d", i, json_sizeof(start), buf_size(&vdata[i]));
		if (v->type == V_ARR || v->type == V_NULL) {
			mc_check(json_array_size(start) == v->n, "array-size", "value %d has %d elements instead of %d", i, json_array_size(start), v->n);
			for (int k = -1; k <= v->n; k++) {
				auto pos = start;
				bool found = json_array_find(&pos, k);
				mc_check(found == (k >= 0 && k < v->n), "array-find", "value %d: element %d is %s", i, k, found ? "found" : "missing");
				mc_check(json_array_has(start, k) == found, "array-has", "value %d: element %d", i, k);
				if (found) mc_check(t_same(v->child[k], &pos, true), "array-find", "value %d: element %d is another one", i, k);
			}
			auto pos = start;
			bool found = json_array_last(&pos);
			mc_check(found == (v->n > 0), "array-last", "value %d: last element is %s", i, found ? "found" : "missing");
			if (found) mc_check(t_same(v->child[v->n - 1], &pos, true), "array-last", "value %d: last element is another one", i);
		}
		if (v->type == V_OBJ) {
			mc_check(json_obj_size(start) == v->n, "obj-size", "value %d has %d keys instead of %d", i, json_obj_size(start), v->n);
			static const char* keys[] = { "a", "b", "c", "", "ab", "a.a", "a.b", "b.a", "a.a.a", "a.", "a.b.a" };
			for (int k = 0; k < 11; k++) {
				// plain key
				int size = strlen(keys[k]), at = -1;
				for (int j = 0; j < v->n && at < 0; j++) if (v->key_size[j] == size && ! memcmp(v->key[j], keys[k], size)) at = j;
				auto pos = start;
				bool found = json_obj_find(&pos, keys[k], size);
				mc_check(found == (at >= 0), "obj-find", "value %d: key '%s' is %s", i, keys[k], found ? "found" : "missing");
				if (found) mc_check(t_same(v->child[at], &pos, true), "obj-find", "value %d: key '%s' is another one", i, keys[k]);
				// path
				V* to = v;
				bool bad = false;
				for (const char* p = keys[k]; to && ! bad;) {
					const char* dot = strchr(p, '.');
					int n = dot ? dot - p : (int)strlen(p);
					if (to->type == V_NULL) { to = NULL; break; }
					if (to->type != V_OBJ) { bad = true; break; }
					V* next = NULL;
					for (int j = 0; j < to->n && ! next; j++) if (to->key_size[j] == n && ! memcmp(to->key[j], p, n)) next = to->child[j];
					to = next;
					if (! dot) break;
					p = dot + 1;
				}
				Str path;
				str_set_cstr(&path, keys[k]);
				pos = start;
				Find f = { &pos, &path, false };
				bool err = error_catch( call_find(&f); );
				if (bad) mc_check(err || ! f.rc, "path", "value %d: path '%s' is found", i, keys[k]);
				else {
					mc_check(! err && f.rc == (to != NULL), "path", "value %d: path '%s' is %s", i, keys[k], err ? "an error" : f.rc ? "found" : "missing");
					if (to) mc_check(t_same(to, &pos, true), "path", "value %d: path '%s' is another element", i, keys[k]);
				}
			}
		}
		mc_cases(1);
	}
	for (int j = 0; j < nvs; j++) buf_free(&vdata[j]);
}

// reading of objects with a fixed set of keys
typedef struct { Decode* d; uint8_t* pos; } Dec;
static void call_decode(Dec* d) { decode_obj(d->d, "test", &d->pos); }

static void
s_decode(void)
{
	static const char* vals[] = { "\"text\"", "\"11111111-2222-3333-4444-555555555555\"", "5", "-7", "true", "1.5", "null", "[1, [2]]", "{\"a\": {}}", "\"YWI\"", "\"!\"" };
	static const int flags[] = { DECODE_UUID, DECODE_STRING, DECODE_STRING_READ, DECODE_INT, DECODE_BOOL, DECODE_REAL, DECODE_NULL, DECODE_ARRAY, DECODE_OBJ, DECODE_DATA, DECODE_BASE64 };
	int shape = mc_choose(5), fa = mc_choose(11), va = mc_choose(11), fb = mc_choose(11), vb = mc_choose(11);
	if (! mc_split()) return;
	char text[512];
	// both, swapped, with others, a missing, b missing
	static const char* fmt[] = { "{\"a\": %1$s, \"b\": %2$s}", "{\"b\": %2$s, \"a\": %1$s}", "{\"x\": [{}], \"a\": %1$s, \"aa\": \"a\", \"b\": %2$s, \"\": 1}", "{\"b\": %2$s}", "{\"a\": %1$s, \"c\": %2$s}" };
	if (shape == 4) sprintf(text, "{\"a\": %s, \"c\": %s}", vals[va], vals[vb]);
	else if (shape == 3) sprintf(text, "{\"b\": %s}", vals[vb]);
	else sprintf(text, fmt[shape], vals[va], vals[vb]);
	mc_log("%s as %d %d", text, fa, fb);
	mc_step(1);
	if (shape) mc_nontrivial();
	Buf data;
	buf_init(&data);
	int used;
	mc_check(t_parse(text, strlen(text), &data, &used), "harness", "%s", text);
	struct { Uuid uuid; Str str, str_read; int64_t i; bool b; double d; uint8_t* pos; Buf buf; } out[2];
	memset(out, 0, sizeof(out));
	Decode d[3] = {{0}};
	int fs[2] = { fa, fb }, vv[2] = { va, vb };
	for (int i = 0; i < 2; i++) {
		buf_init(&out[i].buf);
		d[i].key = i ? "b" : "a";
		d[i].flags = flags[fs[i]];
		void* to[] = { &out[i].uuid, &out[i].str, &out[i].str_read, &out[i].i, &out[i].b, &out[i].d, NULL, &out[i].pos, &out[i].pos, &out[i].buf, &out[i].buf };
		d[i].value = to[fs[i]];
	}
	bool expect = shape < 3;
	static const char fits[11][12] = {
		// t  u  i  i  b  r  n  a  o  b64 !
		{ 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0 }, // uuid
		{ 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1 },
		{ 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1 },
		{ 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0 },
		{ 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0 },
		{ 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 },
		{ 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0 },
		{ 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0 },
		{ 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0 },
		{ 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 },
		{ 2, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0 },
	};
	bool any = false;
	for (int i = 0; i < 2; i++) {
		if (shape == 3 && i == 0) continue;
		if (shape == 4 && i == 1) continue;
		if (fits[fs[i]][vv[i]] == 0) expect = false;
		if (fits[fs[i]][vv[i]] == 2) any = true;
	}
	Dec call = { d, data.start };
	bool err = error_catch( call_decode(&call); );
	if (! (expect && any))
		mc_check(err != expect, "decode", "%s with %d, %d is %s", text, flags[fa], flags[fb], err ? "rejected" : "accepted");
	if (! err) {
		mc_check(call.pos == data.position, "decode-end", "%s is not read until its end", text);
		for (int i = 0; i < 2; i++) {
			auto o = &out[i];
			int v = vv[i];
			switch (flags[fs[i]]) {
			case DECODE_STRING: case DECODE_STRING_READ: {
				auto s = flags[fs[i]] == DECODE_STRING ? &o->str : &o->str_read;
				mc_check(str_size(s) == (int)strlen(vals[v]) - 2 && ! memcmp(s->pos, vals[v] + 1, str_size(s)), "decode-value", "%s: string %d", text, i);
				break;
			}
			case DECODE_UUID: {
				char id[37];
				uuid_get(&o->uuid, id, sizeof(id));
				mc_check(! memcmp(id, vals[v] + 1, 36), "decode-value", "%s: uuid %.36s", text, id);
				break;
			}
			case DECODE_INT: mc_check(o->i == atoi(vals[v]), "decode-value", "%s: integer %d", text, (int)o->i); break;
			case DECODE_BOOL: mc_check(o->b, "decode-value", "%s: bool", text); break;
			case DECODE_REAL: mc_check(o->d == 1.5, "decode-value", "%s: real %g", text, o->d); break;
			case DECODE_ARRAY: mc_check(json_is_array(o->pos) && json_array_size(o->pos) == 2, "decode-value", "%s: array", text); break;
			case DECODE_OBJ: mc_check(json_is_obj(o->pos) && json_obj_size(o->pos) == 1, "decode-value", "%s: object", text); break;
			case DECODE_DATA: {
				Buf x;
				buf_init(&x);
				uint8_t* pos = o->buf.start;
				json_export(&x, NULL, &pos);
				mc_check(pos == o->buf.position && buf_size(&x) == (int)strlen(vals[v]) && ! memcmp(x.start, vals[v], buf_size(&x)), "decode-value", "%s: data '%.*s'", text, buf_size(&x), x.start);
				buf_free(&x);
				break;
			}
			case DECODE_BASE64: if (v == 9) mc_check(buf_size(&o->buf) == 2 && ! memcmp(o->buf.start, "ab", 2), "decode-value", "%s: base64", text); break;
			}
		}
	}
	for (int i = 0; i < 2; i++) { str_free(&out[i].str); buf_free(&out[i].buf); }
	buf_free(&data);
}

McScenario mc_scenarios[] = {
	{ "texts", s_texts, 0 },
	{ "trees", s_trees, 0 },
	{ "strings", s_strings, 0 },
	{ "unicode", s_unicode, 0 },
	{ "numbers", s_numbers, 0 },
	{ "boundary", s_boundary, 0 },
	{ "sizes", s_sizes, 0 },
	{ "compare", s_compare, 0 },
	{ "lookup", s_lookup, 0 },
	{ "decode", s_decode, 0 },
	{ NULL, NULL, 0 },
};
