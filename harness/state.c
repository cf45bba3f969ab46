// C08: state and configuration files. Crash-atomic saving over an in-memory
// disk; values read back exactly.
#include "am.h"
#include "crashfs.h"

enum { MAXO = 40 };

// persistent values of one set of options, as text
typedef struct { int count; struct { bool str; uint64_t n; int size; char data[300]; } v[MAXO]; } Values;

static void
t_values(Opts* opts, Values* to)
{
	memset(to, 0, sizeof(*to));
	list_foreach(&opts->list) {
		auto opt = list_at(Opt, link);
		if (opt_is(opt, OPT_E)) continue;
		auto v = &to->v[to->count++];
		if (opt->type == OPT_BOOL || opt->type == OPT_INT) { v->n = opt_int_of(opt); continue; }
		v->str = true;
		// not set and null are the same value
		if (opt->type == OPT_JSON && (str_empty(&opt->string) || json_is_null(str_u8(&opt->string)))) continue;
		if (opt->type == OPT_JSON) {
			// values are equal, their encoding may differ
			static Buf text;
			buf_reset(&text);
			uint8_t* pos = str_u8(&opt->string);
			json_export(&text, NULL, &pos);
			v->size = buf_size(&text);
			mc_check(v->size < (int)sizeof(v->data), "harness", "value is too large");
			memcpy(v->data, text.start, v->size);
			continue;
		}
		v->size = str_size(&opt->string);
		mc_check(v->size < (int)sizeof(v->data), "harness", "value is too large");
		memcpy(v->data, str_of(&opt->string), v->size);
	}
}

static bool values_eq(Values* a, Values* b) { return ! memcmp(a, b, sizeof(*a)); }

static const char*
values_diff(Opts* opts, Values* a, Values* b)
{
	int i = 0;
	list_foreach(&opts->list) {
		auto opt = list_at(Opt, link);
		if (opt_is(opt, OPT_E)) continue;
		if (memcmp(&a->v[i], &b->v[i], sizeof(a->v[0]))) return opt->name.pos;
		i++;
	}
	return "nothing";
}

// values a new process starts with
static void
t_reset(Opts* opts, Values* defaults)
{
	int i = 0;
	list_foreach(&opts->list) {
		auto opt = list_at(Opt, link);
		if (opt_is(opt, OPT_E)) continue;
		auto v = &defaults->v[i++];
		if (opt->type == OPT_BOOL || opt->type == OPT_INT) opt_int_set(opt, v->n);
		else if (opt->type == OPT_JSON) { str_free(&opt->string); mc_check(! v->size, "harness", "default json"); }
		else { str_free(&opt->string); if (v->size) str_dup(&opt->string, v->data, v->size); }
	}
}

static Values state_defaults, config_defaults;

typedef struct { bool is_config, save; } Io;

static void
io_exec(Io* io)
{
	if (io->is_config) {
		if (io->save) config_save(config(), "/mem/config.json");
		else config_open(config(), "/mem/config.json");
	} else {
		if (io->save) state_save(state(), "/mem/state.json");
		else state_open(state(), "/mem/state.json");
	}
}

static bool
t_io(bool is_config, bool save)
{
	Io io = { is_config, save };
	return ! error_catch( io_exec(&io); );
}

static bool   saved_any[2];
static Values saved[2], saving[2];
static bool   inflight[2];

static Opts* t_opts(bool is_config) { return is_config ? &config()->opts : &state()->opts; }

// returns true if complete
static bool
t_save(bool is_config)
{
	t_values(t_opts(is_config), &saving[is_config]);
	inflight[is_config] = true;
	if (! t_io(is_config, true)) return false;
	saved[is_config] = saving[is_config];
	saved_any[is_config] = true;
	inflight[is_config] = false;
	return true;
}

static void save_state_cb(void* arg) { (void)arg; if (! t_save(false)) rethrow(); }
static RuntimeIf t_iface = { save_state_cb, NULL };

void
am_setup(void)
{
	t_values(&state()->opts, &state_defaults);
	t_values(&config()->opts, &config_defaults);
	runtime()->iface = &t_iface;
}

// a new process: reads both files
static UserMgr users;
static bool    users_open;

static void
t_start(const char* when)
{
	mc_check(cfs_open_fds() == 0, "descriptors", "%d descriptors are left open", cfs_open_fds());
	for (int c = 0; c < 2; c++) {
		t_reset(t_opts(c), c ? &config_defaults : &state_defaults);
		auto name = c ? "configuration" : "state";
		if (! cfs_exists(c ? "/mem/config.json" : "/mem/state.json")) {
			mc_check(! saved_any[c], "missing", "%s: there is no %s file, but one was saved", when, name);
			inflight[c] = false;
			continue;
		}
		bool ok = t_io(c, false);
		mc_check(ok, "open", "%s: %s file does not open: %s", when, name, am_error_text());
		Values now;
		t_values(t_opts(c), &now);
		if (mc_replaying()) {
			size_t size;
			auto data = cfs_data(c ? "/mem/config.json" : "/mem/state.json", &size);
			printf("%s: %s file:\n%.*s\n", when, name, (int)size, data);
		}
		bool is_saved = saved_any[c] && values_eq(&now, &saved[c]);
		bool is_saving = inflight[c] && values_eq(&now, &saving[c]);
		mc_check(is_saved || is_saving, "values", "%s: %s is neither as saved before nor as being saved (%s differs from the saved one)", when, name, values_diff(t_opts(c), &now, &saved[c]));
		saved[c] = now;
		saved_any[c] = true;
		inflight[c] = false;
	}
	user_mgr_init(&users);
	users_open = true;
	bool failed = error_catch( user_mgr_open(&users); );
	mc_check(! failed, "users", "%s: users are not read back: %s", when, am_error_text());
}

static void
t_stop(void)
{
	if (users_open) user_mgr_free(&users);
	users_open = false;
}

// users as they are written
static const char* texts[] = { "a", "longer value with spaces", "q\"\\\n\t\r\b\f/'", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", "\x01\x0b\x07\x7f", "" };
enum { TEXTS = 6 };

typedef struct { int op, user, text; } UserOp;
static void
user_exec(UserOp* o)
{
	static const char* names[] = { "u1", "us\"er 2", "u\n3" };
	Str name, secret;
	str_set(&name, (char*)names[o->user], strlen(names[o->user]));
	str_set(&secret, (char*)texts[o->text], strlen(texts[o->text]));
	auto c = user_config_allocate();
	defer(user_config_free, c);
	user_config_set_name(c, &name);
	user_config_set_secret(c, &secret);
	if (o->op == 0) user_mgr_create(&users, c, true);
	if (o->op == 1) user_mgr_alter(&users, c);
	if (o->op == 2) user_mgr_drop(&users, &name, true);
}

static bool
t_user(int op, int user, int text)
{
	UserOp o = { op, user, text };
	return ! error_catch( user_exec(&o); );
}

static int steps_left, seq;

static void
t_op(void)
{
	int op = mc_choose(7);
	steps_left--;
	mc_step(1);
	seq++;
	switch (op) {
	case 0: mc_log("create user "); t_user(0, seq % 3, seq % TEXTS); break;
	case 1: mc_log("alter user "); t_user(1, 1, (seq + 1) % TEXTS); break;
	case 2: mc_log("drop user "); t_user(2, seq % 2, 0); break;
	case 3: mc_log("repl ");
		opt_int_set(&state()->repl, seq % 2);
		opt_string_set_raw(&state()->repl_primary, texts[seq % TEXTS], strlen(texts[seq % TEXTS]));
		t_save(false);
		break;
	case 4: mc_log("config long ");
		opt_string_set_cstr(&config()->uuid, "0123456789012345678901234567890123456789");
		opt_int_set(&config()->wal_size, 1000000000000 + seq);
		t_save(true);
		break;
	case 5: mc_log("config short ");
		opt_string_set_cstr(&config()->uuid, "1");
		opt_int_set(&config()->wal_size, seq);
		opt_int_set(&config()->wal_crc, false);
		t_save(true);
		break;
	case 6: mc_log("save both "); t_save(true); t_save(false); break;
	}
}

static void
incarnation(void* a)
{
	(void)a;
	cfs_arm_crash(true);
	t_start("after start");
	while (steps_left > 0)
		t_op();
}

static void
t_init(void)
{
	cfs_reset();
	cfs_mkdir("/mem");
	memset(saved_any, 0, sizeof(saved_any));
	memset(inflight, 0, sizeof(inflight));
	seq = 0;
	t_reset(&state()->opts, &state_defaults);
	t_reset(&config()->opts, &config_defaults);
}

static void
t_crash(int steps, int crashes, int flags, bool fresh)
{
	mc_budget(crashes);
	t_init();
	if (! fresh) { t_save(false); t_save(true); }
	steps_left = steps;
	for (;;) {
		bool crashed = cfs_run(incarnation, NULL);
		if (mc_pruned()) return;
		if (! crashed) { t_stop(); break; }
		users_open = false;
		mc_nontrivial();
		mc_log("(crash) ");
		cfs_crash(flags);
		if (mc_pruned()) return;
	}
	mc_log("power loss ");
	cfs_crash(flags);
	t_start("after power loss");
	// saving works and is read back
	steps_left = 1;
	t_op();
	t_stop();
	if (mc_pruned()) return;
	t_start("after restart");
	t_stop();
}

static void s_crash_one(void)   { t_crash(mc_q(3, 4), 1, CFS_TORN, mc_choose(2)); }
static void s_crash_two(void)   { t_crash(mc_q(2, 3), 2, CFS_TORN, mc_choose(2)); }
static void s_crash_three(void) { t_crash(mc_q(1, 2), 3, CFS_TORN, mc_choose(2)); }
static void s_crash_tears(void) { t_crash(mc_q(1, 2), 1, CFS_TORN | CFS_HOLES | CFS_ALLTEARS, mc_choose(2)); }

// failing system calls during a save: what is found next is complete
static void
s_faults(void)
{
	mc_budget(mc_q(1, 2));
	t_init();
	t_save(false); t_save(true);
	t_start("after start");
	steps_left = 2;
	for (int i = 0; i < 2; i++) {
		cfs_arm_fault(true);
		t_op();
		cfs_arm_fault(false);
		if (mc_pruned()) return;
	}
	t_stop();
	if (cfs_fault_count()) mc_nontrivial();
	t_start("after failed save");
	t_stop();
}

// every string over an alphabet in every text option, every boundary number
static void
s_values(void)
{
	static const char* alpha[] = { "a", "\"", "\\", "\n", "\t", "\r", "\b", "\f", "/", "'", "\x01", "\x0b", "\x07", "\x7f", "n", "u", "{", ",", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
	enum { A = sizeof(alpha) / sizeof(alpha[0]) };
	t_init();
	char text[64] = "";
	int  len = mc_choose(mc_q(3, 4) + 1);
	for (int i = 0; i < len; i++) strcat(text, alpha[mc_choose(A)]);
	mc_nontrivial();
	opt_string_set_cstr(&state()->repl_primary, text);
	opt_string_set_cstr(&config()->timezone, text);
	mc_check(t_save(false) && t_save(true), "save", "values are not saved: %s", am_error_text());
	t_start("after restart");
	// user names and secrets
	Str name;
	str_set(&name, text, strlen(text));
	auto c = user_config_allocate();
	user_config_set_name(c, &name);
	user_config_set_secret(c, &name);
	user_mgr_create(&users, c, true);
	user_config_free(c);
	t_stop();
	t_start("after restart");
	auto user = user_cache_find(&users.cache, &name);
	mc_check(user && str_compare(&user->config->secret, &name), "user", "a user is not found or its secret is changed");
	t_stop();
}

static void
s_numbers(void)
{
	static const int64_t nums[] = { 0, 1, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 999999999999, INT64_MAX - 1, INT64_MAX,
	                                -1, -31, -32, -128, -129, -32768, -32769, -2147483648ll, -2147483649ll, INT64_MIN + 1 };
	enum { N = sizeof(nums) / sizeof(nums[0]) };
	t_init();
	int which = 0;
	int n = mc_choose(N);
	int opt_at = mc_choose(MAXO);
	mc_nontrivial();
	for (int c = 0; c < 2; c++)
		list_foreach(&t_opts(c)->list) {
			auto opt = list_at(Opt, link);
			if (opt_is(opt, OPT_E) || which++ != opt_at) continue;
			if (opt->type == OPT_INT && (nums[n] || ! opt_is(opt, OPT_Z))) opt_int_set(opt, nums[n]);
			if (opt->type == OPT_BOOL) opt_int_set(opt, n & 1);
			if (opt->type == OPT_JSON) {
				// nested values
				Buf buf;
				buf_init(&buf);
				encode_array(&buf);
				encode_integer(&buf, nums[n]);
				encode_obj(&buf);
				encode_raw(&buf, "key", 3);
				encode_bool(&buf, n & 1);
				encode_raw(&buf, "k2", 2);
				encode_null(&buf);
				encode_obj_end(&buf);
				encode_array_end(&buf);
				opt_json_set_buf(opt, &buf);
				buf_free(&buf);
			}
		}
	// users cannot be arbitrary
	opt_json_set(&state()->users, (uint8_t*)"", 0);
	mc_check(t_save(false) && t_save(true), "save", "values are not saved: %s", am_error_text());
	t_start("after restart");
	t_stop();
}

McScenario mc_scenarios[] = {
	{ "crash_one", s_crash_one, 0 }, { "crash_two", s_crash_two, 0 }, { "crash_three", s_crash_three, 0 }, { "crash_tears", s_crash_tears, 0 },
	{ "faults", s_faults, 0 }, { "values", s_values, 0 }, { "numbers", s_numbers, 0 }, { 0 } };
