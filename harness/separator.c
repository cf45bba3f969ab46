// C28: splitting a stream of SQL into statements. Scripts are generated from a
// grammar, so their statements are known; every one is fed in every division
// into lines.
#include "am.h"

enum { MAXTOK = 64, MAXSTMT = 8 };

static char  toks[MAXTOK][64];
static int   ntoks;
static int   ends[MAXSTMT];      // index of the first token after each statement
static int   nstmts;
static bool  comments;

static void
t_tok(const char* s)
{
	mc_check(ntoks < MAXTOK, "harness", "too many tokens");
	snprintf(toks[ntoks++], sizeof(toks[0]), "%s", s);
}

static void
t_semicolon(void)
{
	// attached or alone
	if (mc_choose(2)) strcat(toks[ntoks - 1], ";");
	else t_tok(";");
}

static const char* pieces[] = {
	"1",
	"'a;b'",
	"\"a;b\"",
	"'it\\'s;'",
	"'\\\\'",
	"\"end\"",
	"''",
	"'begin'",
	"-- ; ' begin\n",
	"(case when 1 then 2 end)",
	"(case when 1 then 2 end )",
	"case when a then 'x;' else b end",
	"case a when 1 then 2 end,",
	"( case 1 when 1 then 2 end),",
	"a.end",
	"end_of",
	"`end`",
	"`begin`",
	"_if",
	"x5--;\n",
	"-1",
	"'--'",
	"'\xc3\xa9;'",
	"end$",
	"begin1",
	"casex",
	"/",
};
enum { PIECES = sizeof(pieces) / sizeof(*pieces) };

static void
t_piece(int i)
{
	if (strstr(pieces[i], "--") && strchr(pieces[i], '\n')) {
		comments = true;
		char text[64];
		snprintf(text, sizeof(text), "%.*s", (int)(strchr(pieces[i], '\n') - pieces[i]), pieces[i]);
		t_tok(text);
		return;
	}
	t_tok(pieces[i]);
}

static void t_stmts(int depth, int max);

static const char* heads[] = {
	"begin", "if a = 1 then", "for x in select 1 loop", "if not exists (select 1) then", "while a < 1 loop",
	"BEGIN", "begin;", "if not a then", "if exists (select 1) then", "if exists(select 1) then", "IF (a) then", "if 'exists' then",
	"create function f() begin", "select 1 begin",
};
static const char* plain[] = {
	"select", "drop table if exists t", "create table if not exists t (id int)", "drop table IF  EXISTS t", "select a,", "", "ending",
	"select begin_", "explain",
};
enum { HEADS = sizeof(heads) / sizeof(*heads), PLAIN = sizeof(plain) / sizeof(*plain) };

static int pieces_left, depth_max;

// a simple statement, or a block of statements
static void
t_stmt(int depth)
{
	int kind = depth > 0 ? mc_choose(1 + (depth < depth_max ? mc_q(5, HEADS) : HEADS)) : 0;
	if (kind == 0) {
		const char* p = plain[pieces_left > 0 ? mc_choose(PLAIN) : 0];
		if (*p) t_tok(p);
		if (pieces_left > 0) {
			int n = mc_choose(pieces_left + 1);
			pieces_left -= n;
			for (int i = 0; i < n; i++) t_piece(mc_choose(PIECES));
			if (! *p && ! n) t_tok("commit");
		} else
		if (! *p) t_tok("commit");
		// a comment cannot hold the semicolon
		if (strstr(toks[ntoks - 1], "--") && toks[ntoks - 1][0] != '\'') t_tok(";");
		else t_semicolon();
	} else {
		t_tok(heads[kind - 1]);
		t_stmts(depth - 1, 2);
		t_tok(mc_choose(2) ? "end" : "End");
		t_semicolon();
	}
}

static void
t_stmts(int depth, int max)
{
	int n = mc_choose(max) + 1;
	for (int i = 0; i < n; i++) t_stmt(depth);
}

// feed the text in the chunks, compare the statements
static void
t_feed(char** chunk, int* size, int n, char stmt[][2048], int* stmt_size)
{
	Separator sep;
	separator_init(&sep);
	int got = 0;
	for (int i = 0; i < n; i++) {
		Str str, block;
		str_set(&str, chunk[i], size[i]);
		separator_write(&sep, &str);
		while (separator_read(&sep, &block)) {
			// without white space before it
			while (! str_empty(&block) && isspace(*block.pos)) block.pos++;
			if (! str_empty(&block)) {
				mc_check(got < nstmts, "extra", "more than %d statements: '%.*s'", nstmts, str_size(&block), str_of(&block));
				mc_check(str_size(&block) == stmt_size[got] && ! memcmp(str_of(&block), stmt[got], stmt_size[got]), "statement",
					"statement %d is '%.*s' instead of '%.*s' (%d parts)", got, str_size(&block), str_of(&block), stmt_size[got], stmt[got], n);
				got++;
			}
			separator_advance(&sep);
		}
	}
	mc_check(got == nstmts, "missing", "%d statements of %d are recognized, '%.*s' is not (%d parts)", got, nstmts, stmt_size[got], stmt[got], n);
	// only white space is left
	Str left;
	if (separator_read_leftover(&sep, &left))
		while (! str_empty(&left)) { mc_check(isspace(*left.pos), "leftover", "text is left over"); left.pos++; }
	separator_free(&sep);
	mc_cases(1);
}

// feed the text cut before the tokens in the mask
static void
t_cut(char* text, int* begin, uint32_t mask, char stmt[][2048], int* stmt_size)
{
	char* chunk[MAXTOK + 1];
	int   size[MAXTOK + 1];
	int   n = 0, from = 0;
	for (int i = 1; i <= ntoks; i++) {
		if (i < ntoks && ! ((mask >> (i - 1)) & 1)) continue;
		chunk[n] = text + begin[from];
		size[n] = begin[i] - 1 - begin[from];
		n++;
		from = i;
	}
	t_feed(chunk, size, n, stmt, stmt_size);
}

static void
t_run(void)
{
	static char text[8192], stmt[MAXSTMT][2048];
	int stmt_size[MAXSTMT];
	for (int sep = 0; sep < 2; sep++) {
		// one line per token, or all in one line
		if (sep && comments) break;
		int len = 0, begin[MAXTOK + 1];
		for (int i = 0, s = 0, at = 0; i < ntoks; i++) {
			begin[i] = len;
			len += sprintf(text + len, "%s", toks[i]);
			if (i + 1 == ends[s]) {
				stmt_size[s] = len - at;
				memcpy(stmt[s], text + at, len - at);
				s++;
				text[len++] = sep ? ' ' : '\n';
				at = len;
			} else
			text[len++] = sep ? ' ' : '\n';
		}
		len--;
		text[len] = 0;
		begin[ntoks] = len + 1;
		if (sep) {
			// in one line
			t_cut(text, begin, 0, stmt, stmt_size);
			break;
		}
		// every subset of the line ends
		// (of a long script: every one which makes up to two cuts, or all but two)
		int bits = ntoks - 1;
		mc_check(bits < 31, "harness", "too many tokens");
		uint32_t all = (1u << bits) - 1;
		if (bits <= mc_q(5, 9)) {
			for (uint32_t mask = 0; mask <= all; mask++)
				t_cut(text, begin, mask, stmt, stmt_size);
			continue;
		}
		for (int a = 0; a < bits; a++)
			for (int b = a; b < (mc_q(1, 0) ? a + 1 : bits); b++) {
				uint32_t mask = (1u << a) | (1u << b);
				t_cut(text, begin, mask, stmt, stmt_size);
				t_cut(text, begin, all & ~mask, stmt, stmt_size);
			}
		t_cut(text, begin, 0, stmt, stmt_size);
		t_cut(text, begin, all, stmt, stmt_size);
	}
}

static void
t_script(int stmts, int depth, int extra)
{
	ntoks = nstmts = 0;
	comments = false;
	pieces_left = extra;
	depth_max = depth;
	int n = mc_choose(stmts) + 1;
	for (int i = 0; i < n; i++) {
		t_stmt(depth);
		ends[nstmts++] = ntoks;
	}
	if (! mc_split()) return;
	for (int i = 0; i < ntoks; i++) mc_log("%s", toks[i]);
	mc_step(ntoks);
	if (n > 1 || depth) mc_nontrivial();
	t_run();
}

// simple statements with every pair of pieces
static void s_pieces(void) { t_script(2, 0, mc_q(2, 3)); }
// blocks
static void s_blocks(void) { t_script(1, mc_q(2, 2), 0); }
// pieces inside of blocks
static void s_mixed(void) { t_script(mc_q(1, 2), 1, mc_q(1, 2)); }

// lines which start with # are statements of their own
static void
s_pragma(void)
{
	static const char* lines[] = { "# one; two", "#", "select 1;", "select", "2;", "", "  # x 'y", "begin", "end;", "-- c" };
	static char text[1024];
	int n = mc_q(4, 5), at[8];
	char* chunk[8];
	int  size[8];
	nstmts = 0;
	static char stmt[MAXSTMT][2048];
	int  stmt_size[MAXSTMT];
	int  len = 0;
	int  start = -1, level = 0;
	for (int i = 0; i < n; i++) {
		int k = at[i] = mc_choose(10);
		chunk[i] = text + len;
		size[i] = strlen(lines[k]);
		bool pragma = strchr(lines[k], '#') != NULL;
		// only between statements
		if (pragma && start >= 0) return;
		if (*lines[k] == 0 || pragma || ! strcmp(lines[k], "-- c") ) { if (! pragma && start < 0 && *lines[k]) return; }
		int from = len;
		len += sprintf(text + len, "%s\n", lines[k]);
		if (pragma) {
			while (text[from] == ' ') from++;
			stmt_size[nstmts] = len - 1 - from;
			memcpy(stmt[nstmts++], text + from, len - 1 - from);
			continue;
		}
		if (start < 0 && *lines[k]) start = from;
		if (! strcmp(lines[k], "begin")) level++;
		if (! strcmp(lines[k], "end;")) level--;
		if (level < 0) return;
		if (strchr(lines[k], ';') && level == 0) {
			stmt_size[nstmts] = len - 1 - start;
			memcpy(stmt[nstmts++], text + start, len - 1 - start);
			start = -1;
		}
	}
	if (start >= 0) return;
	if (! mc_split()) return;
	mc_nontrivial();
	t_feed(chunk, size, n, stmt, stmt_size);
	// all at once
	char* one[1] = { text };
	int   one_size[1] = { len - 1 };
	t_feed(one, one_size, 1, stmt, stmt_size);
	mc_log("%s", text);
}

McScenario mc_scenarios[] = {
	{ "pieces", s_pieces, 0 },
	{ "blocks", s_blocks, 0 },
	{ "mixed", s_mixed, 0 },
	{ "pragma", s_pragma, 0 },
	{ NULL, NULL, 0 },
};
