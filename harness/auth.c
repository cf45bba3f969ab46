// C27: token authentication. Histories of user changes, time and requests on the
// real authenticator against an independent verifier; every byte of a token.
#include "am.h"
#include <amelie_user.h>
#include <amelie_auth.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include <time.h>

static bool     virt;
static uint64_t now;      // seconds

int __real_clock_gettime(clockid_t id, struct timespec* ts);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (! virt) return __real_clock_gettime(id, ts);
	ts->tv_sec = now;
	ts->tv_nsec = 0;
	return 0;
}

static void
t_time(uint64_t to)
{
	now = to;
	timer_mgr_reset(&am_task->timer_mgr);
}

static void    t_save(void* a) { (void)a; }
static RuntimeIf iface = { t_save, NULL };

// ---------------------------------------------------------------- independent base64url and tokens
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static int
t_b64(char* to, const void* data, int size)
{
	const uint8_t* p = data;
	int bits = 0, n = 0;
	uint32_t acc = 0;
	for (int i = 0; i < size; i++) {
		acc = acc << 8 | p[i];
		bits += 8;
		while (bits >= 6) { bits -= 6; to[n++] = b64[acc >> bits & 63]; }
		acc &= (1 << bits) - 1;
	}
	if (bits) to[n++] = b64[acc << (6 - bits) & 63];
	to[n] = 0;
	return n;
}

// value of the bits, ignoring spare ones; -1: not base64url
static int
t_b64_value(uint8_t* to, const char* s, int size)
{
	int bits = 0, n = 0;
	uint32_t acc = 0;
	for (int i = 0; i < size; i++) {
		const char* at = s[i] ? strchr(b64, s[i]) : NULL;
		if (! at) return -1;
		acc = acc << 6 | (at - b64);
		bits += 6;
		if (bits >= 8) { bits -= 8; to[n++] = acc >> bits; acc &= (1 << bits) - 1; }
	}
	return n;
}

static int
t_token(char* to, const char* header, const char* payload, const char* secret)
{
	char* at = to + sprintf(to, "Bearer ");
	char* start = at;
	at += t_b64(at, header, strlen(header));
	*at++ = '.';
	at += t_b64(at, payload, strlen(payload));
	uint8_t digest[32];
	HMAC(EVP_sha256(), secret, strlen(secret), (uint8_t*)start, at - start, digest, NULL);
	*at++ = '.';
	at += t_b64(at, digest, 32);
	return at - to;
}

#define HEADER "{\"alg\":\"HS256\",\"typ\":\"JWT\"}"

// ---------------------------------------------------------------- reference
enum { MAXU = 3, MAXTOK = 24 };
typedef struct { bool exists; const char* secret; } RefUser;
static const char* names[MAXU] = { "ann", "bob", "cy" };
static RefUser ref[MAXU];

typedef struct {
	char        text[1024];
	int         size;
	const char* what;
	bool        formed;         // well formed with supported header
	int         user;           // of its payload, -1: unknown
	const char* secret;         // its signature is by (NULL: by none)
	int64_t     iat, exp;
} Token;
static Token tokens[MAXTOK];
static int   ntokens;

static int
t_expect(Token* t)
{
	if (! t->formed || t->user < 0 || ! t->secret) return -1;
	if (! t->iat || ! t->exp || t->iat > t->exp) return -1;
	if ((int64_t)now >= t->exp) return -1;
	if (! ref[t->user].exists) return -1;
	// users without a secret cannot be authenticated
	if (! *ref[t->user].secret) return -1;
	if (strcmp(ref[t->user].secret, t->secret)) return -1;
	return t->user;
}

static Token*
t_add(const char* what, int user, const char* secret, int64_t iat, int64_t exp)
{
	auto t = &tokens[ntokens++];
	memset(t, 0, sizeof(*t));
	char payload[256];
	sprintf(payload, "{\"sub\":\"%s\",\"iat\":%lld,\"exp\":%lld}", user >= 0 ? names[user] : "nobody", (long long)iat, (long long)exp);
	t->size = t_token(t->text, HEADER, payload, secret);
	t->what = what;
	t->formed = true;
	t->user = user;
	t->secret = secret;
	t->iat = iat;
	t->exp = exp;
	return t;
}

// payload of one, signature of another
static void
t_add_spliced(const char* what, Token* head, Token* sig)
{
	auto t = &tokens[ntokens++];
	*t = *head;
	t->what = what;
	t->secret = NULL;
	int h = strrchr(head->text, '.') - head->text, s = strrchr(sig->text, '.') - sig->text;
	memcpy(t->text + h, sig->text + s, sig->size - s + 1);
	t->size = h + sig->size - s;
}

static void
t_add_text(const char* what, const char* header, const char* payload, const char* secret)
{
	auto t = &tokens[ntokens++];
	memset(t, 0, sizeof(*t));
	t->size = t_token(t->text, header, payload, secret);
	t->what = what;
	t->user = -1;
}

enum { T0 = 100000 };

static void
t_tokens(void)
{
	ntokens = 0;
	t_add("ann by s1", 0, "s1", T0 - 10, T0 + 20);
	t_add("ann by s2", 0, "s2", T0 - 10, T0 + 50);
	t_add("bob by s1", 1, "s1", T0 - 10, T0 + 20);
	t_add("cy by nothing", 2, "", T0 - 10, T0 + 50);
	t_add_spliced("bob with the signature of ann", &tokens[2], &tokens[0]);
	t_add_spliced("ann until later with an older signature", &tokens[1], &tokens[0]);
	t_add("ann expired", 0, "s1", T0 - 20, T0 - 10);
}

// ---------------------------------------------------------------- histories
static UserMgr um;
static Auth    au;

static void
t_start(void)
{
	runtime()->iface = &iface;
	virt = true;
	t_time(T0);
	user_mgr_init(&um);
	auth_init(&au);
	for (int i = 0; i < MAXU; i++) ref[i] = (RefUser){ false, "" };
	opt_json_set(&state()->users, (uint8_t*)"", 0);
}

static void
t_stop(void)
{
	auth_free(&au);
	user_mgr_free(&um);
	runtime()->iface = NULL;
	virt = false;
	timer_mgr_reset(&am_task->timer_mgr);
}

static UserConfig*
t_config(int user, const char* secret)
{
	auto config = user_config_allocate();
	Str str;
	str_set(&str, (char*)names[user], strlen(names[user]));
	user_config_set_name(config, &str);
	str_set(&str, (char*)secret, strlen(secret));
	if (*secret) user_config_set_secret(config, &str);
	return config;
}

static void
t_auth(Token* t)
{
	Str str;
	// exactly sized copy: reads past the end are seen
	char* copy = malloc(t->size);
	memcpy(copy, t->text, t->size);
	str_set(&str, copy, t->size);
	auto user = auth(&au, &str);
	int expect = t_expect(t);
	int got = -1;
	if (user) {
		for (int i = 0; i < MAXU; i++)
			if (str_is(&user->config->name, names[i], strlen(names[i]))) got = i;
		mc_check(got >= 0, "user", "unknown user is authenticated");
	}
	mc_check(got == expect, expect < 0 ? "accepted" : got < 0 ? "rejected" : "other-user", "token (%s) at %d is %s%s, must be %s%s", t->what, (int)now - T0,
		got < 0 ? "rejected" : "accepted as ", got < 0 ? "" : names[got], expect < 0 ? "rejected" : "accepted as ", expect < 0 ? "" : names[expect]);
	free(copy);
}

static void
s_history(void)
{
	int depth = mc_q(5, 6);
	t_tokens();
	t_start();
	// ann exists to begin with
	auto c = t_config(0, "s1");
	user_mgr_create(&um, c, false);
	user_config_free(c);
	ref[0] = (RefUser){ true, "s1" };
	auth_sync(&au, &um.cache);
	bool users = false;
	uint64_t cached = 0;   // what the cache may know: changes the meaning of a state
	for (int d = 0; d < depth; d++) {
		int op = mc_choose(ntokens + 8);
		mc_step(1);
		if (op < ntokens) {
			mc_log("auth %s", tokens[op].what);
			t_auth(&tokens[op]);
			if (users) mc_nontrivial();
			if (t_expect(&tokens[op]) >= 0) cached |= 1ull << op;
			else cached |= 1ull << (op + 20);
		} else
		switch (op - ntokens) {
		case 0: case 1: case 2: {
			int u = op - ntokens;
			const char* secret = u == 2 ? "" : "s1";
			if (ref[u].exists) {
				mc_log("drop %s", names[u]);
				Str str;
				str_set(&str, (char*)names[u], strlen(names[u]));
				user_mgr_drop(&um, &str, false);
				ref[u] = (RefUser){ false, "" };
			} else {
				mc_log("create %s", names[u]);
				auto c = t_config(u, secret);
				user_mgr_create(&um, c, false);
				user_config_free(c);
				ref[u] = (RefUser){ true, secret };
			}
			auth_sync(&au, &um.cache);
			users = true;
			cached = 0;
			break;
		}
		case 3: case 4: {
			// change the secret of ann
			const char* secret = op - ntokens == 3 ? "s2" : "";
			if (! ref[0].exists) break;
			if (! strcmp(ref[0].secret, secret)) secret = "s1";
			mc_log("ann has secret '%s'", secret);
			auto c = t_config(0, secret);
			user_mgr_alter(&um, c);
			user_config_free(c);
			ref[0].secret = secret;
			auth_sync(&au, &um.cache);
			users = true;
			cached = 0;
			break;
		}
		case 5: mc_log("20 seconds"); t_time(now + 20); break;
		case 6: mc_log("19 seconds"); t_time(now + 19); break;
		case 7: mc_log("1 second"); t_time(now + 1); break;
		}
		if (mc_pruned()) break;
		int64_t v[8] = { d, now, cached, ref[0].exists, ref[1].exists, ref[2].exists, *ref[0].secret ? ref[0].secret[1] : 0, users };
		// the order of cached users matters little: keep it in the state anyway
		uint64_t h = mc_hash(1, v, sizeof(v));
		h = mc_hash(h, au.cache.ht.buf.start, 0);
		int64_t n[2] = { au.cache.ht.count, au.user_cache.list_count };
		h = mc_hash(h, n, sizeof(n));
		list_foreach(&au.user_cache.list) {
			auto user = list_at(User, link);
			h = mc_hash(h, str_of(&user->config->name), str_size(&user->config->name));
		}
		if (! mc_visit(h)) break;
	}
	if (! mc_pruned())
		for (int i = 0; i < ntokens; i++) t_auth(&tokens[i]);
	t_stop();
}

// ---------------------------------------------------------------- damaged tokens
// one byte of a token replaced, removed or inserted; cold and warm cache
static void
s_bytes(void)
{
	ntokens = 0;
	t_add("ann", 0, "s1", T0 - 10, T0 + 20);
	Token good = tokens[0];
	bool warm = mc_choose(2);
	int  kind = mc_choose(3);
	int  at = mc_choose(good.size + 1);
	if (! mc_split()) return;
	if (kind != 1 && at == good.size) return;
	t_start();
	auto c = t_config(0, "s1");
	user_mgr_create(&um, c, false);
	user_config_free(c);
	ref[0] = (RefUser){ true, "s1" };
	auth_sync(&au, &um.cache);
	int dot2 = strrchr(good.text, '.') - good.text;
	uint8_t want[40], have[1024];
	t_b64_value(want, good.text + dot2 + 1, good.size - dot2 - 1);
	for (int v = 0; v < 256; v++) {
		Token t = good;
		t.what = "changed";
		if (kind == 0) {
			if ((uint8_t)good.text[at] == v) continue;
			t.text[at] = v;
		} else
		if (kind == 1) {
			memmove(t.text + at + 1, t.text + at, good.size - at + 1);
			t.text[at] = v;
			t.size++;
		} else {
			if (v) break;
			memmove(t.text + at, t.text + at + 1, good.size - at);
			t.size--;
		}
		t.formed = false;
		// same header and payload text and same signature value: spare bits
		if (t.size > dot2 && ! memcmp(t.text, good.text, dot2 + 1)) {
			int n = t_b64_value(have, t.text + dot2 + 1, t.size - dot2 - 1);
			if (n == 32 && ! memcmp(have, want, 32)) continue;
		}
		if (warm) t_auth(&good);
		else auth_cache_reset(&au.cache);
		mc_log("kind %d at %d value %d", kind, at, v);
		t_auth(&t);
		mc_cases(1);
	}
	t_auth(&good);
	mc_nontrivial();
	t_stop();
}

// truncated at every length, garbage of every byte after
static void
s_cut(void)
{
	ntokens = 0;
	t_add("ann", 0, "s1", T0 - 10, T0 + 20);
	t_start();
	auto c = t_config(0, "s1");
	user_mgr_create(&um, c, false);
	user_config_free(c);
	ref[0] = (RefUser){ true, "s1" };
	auth_sync(&au, &um.cache);
	bool warm = mc_choose(2);
	for (int n = 0; n < tokens[0].size; n++) {
		Token t = tokens[0];
		t.what = "cut";
		t.size = n;
		t.formed = false;
		if (warm) t_auth(&tokens[0]);
		t_auth(&t);
		mc_cases(1);
	}
	mc_nontrivial();
	t_stop();
}

// headers and payloads of every kind, all properly signed
static void
s_fields(void)
{
	static const char* headers[] = { HEADER, "{\"alg\":\"none\",\"typ\":\"JWT\"}", "{\"typ\":\"JWT\"}", "{\"alg\":\"HS256\"}", "{}", "[]", "null", "", "{", "{\"alg\":\"HS512\",\"typ\":\"JWT\"}", "{\"alg\":null,\"typ\":\"JWT\"}", "{\"alg\":1,\"typ\":\"JWT\"}", "{\"typ\":\"JWT\",\"alg\":\"HS256\"}", "{\"alg\":\"HS256\",\"typ\":\"XXX\"}" };
	static const bool  header_ok[] = { 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0 };
	static const struct { const char* text; int ok; int64_t iat, exp; } payloads[] = {
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":100020}", 1, T0 - 10, T0 + 20 },
		{ "{\"exp\":100020,\"sub\":\"ann\",\"iat\":99990}", 1, T0 - 10, T0 + 20 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":100001}", 1, T0 - 10, T0 + 1 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":100000}", 1, T0 - 10, T0 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":99999}", 1, T0 - 10, T0 - 1 },
		{ "{\"sub\":\"ann\",\"iat\":100030,\"exp\":100020}", 1, T0 + 30, T0 + 20 },
		{ "{\"sub\":\"ann\",\"iat\":0,\"exp\":100020}", 1, 0, T0 + 20 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":0}", 1, T0 - 10, 0 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":-1}", 1, T0 - 10, -1 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":9223372036854775807}", 1, T0 - 10, INT64_MAX },
		{ "{\"sub\":\"ann\",\"iat\":99990}", 0, 0, 0 },
		{ "{\"sub\":\"ann\",\"exp\":100020}", 0, 0, 0 },
		{ "{\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "{\"sub\":null,\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "{\"sub\":1,\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":\"100020\"}", 0, 0, 0 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":null}", 0, 0, 0 },
		{ "{\"sub\":\"\",\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "{\"sub\":\"an\",\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "{\"sub\":\"annn\",\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "{\"sub\":\"Ann\",\"iat\":99990,\"exp\":100020}", 0, 0, 0 },
		{ "[]", 0, 0, 0 }, { "{}", 0, 0, 0 }, { "null", 0, 0, 0 }, { "{", 0, 0, 0 }, { "", 0, 0, 0 }, { "1", 0, 0, 0 },
		{ "{\"sub\":\"ann\",\"iat\":99990,\"exp\":100020", 0, 0, 0 },
	};
	int h = mc_choose(sizeof(headers) / sizeof(*headers)), p = mc_choose(sizeof(payloads) / sizeof(*payloads));
	if (! mc_split()) return;
	t_start();
	auto c = t_config(0, "s1");
	user_mgr_create(&um, c, false);
	user_config_free(c);
	ref[0] = (RefUser){ true, "s1" };
	auth_sync(&au, &um.cache);
	Token t;
	memset(&t, 0, sizeof(t));
	t.size = t_token(t.text, headers[h], payloads[p].text, "s1");
	t.what = payloads[p].text;
	t.formed = header_ok[h] && payloads[p].ok;
	t.secret = "s1";
	t.iat = payloads[p].iat;
	t.exp = payloads[p].exp;
	mc_log("header %s payload %s", headers[h], payloads[p].text);
	for (int i = 0; i < 3; i++) t_auth(&t);
	// until it expires, and never after
	if (t.exp < T0 + 100) {
		t_time(T0 + 19); t_auth(&t);
		t_time(T0 + 20); t_auth(&t); t_auth(&t);
		t_time(T0 + 21); t_auth(&t);
	}
	if (t.formed) mc_nontrivial();
	t_stop();
}

// tokens made by the server itself, for names of every length and byte
static void
s_created(void)
{
	t_start();
	int len = 1 + mc_choose(40);
	for (int v = 1; v < 128; v++) {
		char name[64], secret[64];
		for (int i = 0; i < len; i++) name[i] = i == len - 1 ? v : 'a' + i % 26;
		int slen = 1 + v % 40;
		for (int i = 0; i < slen; i++) secret[i] = (i * 7 + v) | 1;
		auto config = user_config_allocate();
		Str sname, ssecret;
		str_set(&sname, name, len);
		str_set(&ssecret, secret, slen);
		user_config_set_name(config, &sname);
		user_config_set_secret(config, &ssecret);
		user_mgr_create(&um, config, false);
		auth_sync(&au, &um.cache);
		Timestamp expire;
		timestamp_init(&expire);
		timestamp_set_unixtime(&expire, (now + 5) * 1000000ull);
		auto jwt = jwt_create(&sname, &ssecret, &expire);
		char text[1024];
		int size = snprintf(text, sizeof(text), "Bearer %.*s", (int)buf_size(jwt), jwt->start);
		Str token;
		str_set(&token, text, size);
		for (int i = 0; i < 2; i++) {
			auto user = auth(&au, &token);
			mc_check(user && str_is(&user->config->name, name, len), "created", "a token made by the server for a name of %d bytes ending with %d is rejected", len, v);
		}
		t_time(now + 5);
		mc_check(! auth(&au, &token), "accepted", "expired token is accepted");
		user_mgr_drop(&um, &sname, false);
		user_config_free(config);
		buf_free(jwt);
		auth_sync(&au, &um.cache);
		t_time(T0);
		mc_check(! auth(&au, &token), "accepted", "token of a removed user is accepted");
		mc_cases(1);
	}
	mc_nontrivial();
	t_stop();
}

McScenario mc_scenarios[] = {
	{ "history", s_history, 0 },
	{ "bytes", s_bytes, 0 },
	{ "cut", s_cut, 0 },
	{ "fields", s_fields, 0 },
	{ "created", s_created, 0 },
	{ NULL, NULL, 0 },
};
