#include "engine.h"
static void sc_cli(void)
{
	e_fresh();
	char* line = NULL; size_t cap = 0;
	FILE* f = fopen(getenv("SQL"), "r");
	while (getline(&line, &cap, f) > 0) {
		line[strcspn(line, "\n")] = 0;
		fprintf(stdout, "%s\n", line); fflush(stdout);
		if (!*line || *line == '#') continue;
		fprintf(stdout, "%s\n", e_run(line)); fflush(stdout);
	}
	e_close();
}
McScenario mc_scenarios[] = { { "cli", sc_cli }, { NULL, NULL } };
