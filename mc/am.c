#include "am.h"

__attribute__((weak)) void am_setup(void) {}

static void
am_exec(void (*fn)(void))
{
	auto on_error = error_catch( fn(); );
	if (on_error)
		mc_fail("unhandled-error", "unhandled error: %s", am_error_text());
}

void
am_env(void* state[2], bool restore)
{
	auto mgr = &am_self()->exception_mgr;
	if (restore) {
		mgr->last = state[0];
		mgr->last->defer_stack = state[1];
	} else {
		state[0] = mgr->last;
		state[1] = mgr->last->defer_stack;
	}
}

static void
am_main(void* arg, int argc, char** argv)
{
	unused(arg);
	unused(argc);
	unused(argv);
	logger_set_enable(&runtime()->logger, false);
	am_setup();
	mc_loop(am_exec);
	fflush(NULL);
	_exit(0);
}

void
mc_main(void)
{
	static Runtime rt;
	runtime_init(&rt);
	runtime_start(&rt, am_main, NULL, 0, NULL);
	_exit(5);
}
