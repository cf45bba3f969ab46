// C24: dates, timestamps, time zones, intervals, UUIDs and base64 against an
// independent calendar and codecs. Every text stands in a block of its exact size.
#include "am.h"

// ---------------------------------------------------------------- texts
static Str
h_text(const char* data, int size)
{
	Str s;
	char* p = malloc(size ? size : 1);
	memcpy(p, data, size);
	// the empty text has no readable byte
	if (! size) { free(p); p = malloc(0); }
	str_set(&s, p, size);
	return s;
}

static void h_drop(Str* s) { free(s->pos); }

static bool
h_is(const char* a, int a_size, const char* b)
{
	return a_size == (int)strlen(b) && ! memcmp(a, b, a_size);
}

// ---------------------------------------------------------------- calendar
static bool h_leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int  h_mdays(int y, int m) { static const int d[] = { 31,28,31,30,31,30,31,31,30,31,30,31 }; return d[m - 1] + (m == 2 && h_leap(y)); }

// days since 0001-01-01, counted year by year
static int64_t
h_days(int64_t y, int64_t m, int64_t d)
{
	static int* before;    // days before each year
	if (! before) {
		before = malloc(12001 * sizeof(int));
		before[0] = before[1] = 0;
		for (int i = 2; i <= 12000; i++) before[i] = before[i - 1] + (h_leap(i - 1) ? 366 : 365);
	}
	// month 1..12 after carrying
	int64_t months = y * 12 + (m - 1);
	y = months / 12; m = months % 12;
	if (m < 0) { m += 12; y--; }
	m++;
	if (y < 1 || y > 12000) return INT64_MIN;
	int64_t n = before[y];
	for (int i = 1; i < m; i++) n += h_mdays(y, i);
	return n + d - 1;
}

static void
h_civil(int64_t days, int* y, int* m, int* d)
{
	int lo = 1, hi = 12000;
	while (lo < hi) { int mid = (lo + hi + 1) / 2; if (h_days(mid, 1, 1) <= days) lo = mid; else hi = mid - 1; }
	*y = lo;
	days -= h_days(lo, 1, 1);
	int i = 1;
	while (days >= h_mdays(lo, i)) { days -= h_mdays(lo, i); i++; }
	*m = i;
	*d = days + 1;
}

enum { EPOCH_DAYS = 719162 };            // 1970-01-01
#define DAY_US (86400ll * 1000000)

// ---------------------------------------------------------------- calls
static bool
call_date(const char* text, int size, int* value)
{
	Str s = h_text(text, size);
	int v = 0;
	bool fail = error_catch( v = date_set(&s); );
	h_drop(&s);
	*value = v;
	return ! fail;
}

static bool
call_stamp_tz(const char* text, int size, Timezone* tz, int64_t* value)
{
	Str s = h_text(text, size);
	int64_t v = 0;
	bool fail = error_catch(
		Timestamp ts;
		timestamp_init(&ts);
		timestamp_set(&ts, &s);
		v = timestamp_get_unixtime(&ts, tz);
	);
	h_drop(&s);
	*value = v;
	return ! fail;
}

static Timezone* utc_zone;

static bool call_stamp(const char* text, int size, int64_t* value) { return call_stamp_tz(text, size, utc_zone, value); }

// ---------------------------------------------------------------- dates
// every day of a range of years
static void
s_dates(void)
{
	int century = mc_choose(100);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("years from %d", century * 100);
	int64_t n = 0;
	Str fy, fm, fd;
	str_set_cstr(&fy, "year"); str_set_cstr(&fm, "month"); str_set_cstr(&fd, "day");
	for (int y = century * 100 ? century * 100 : 1; y < (century + 1) * 100; y++)
		for (int m = 1; m <= 12; m++)
			for (int d = 1; d <= h_mdays(y, m); d++) {
				int64_t julian = 1721426 + h_days(y, m, d);
				char want[64], text[64];
				int  want_size = sprintf(want, "%04d-%02d-%02d", y, m, d), size = 0, value = 0;
				bool fail = error_catch( size = date_get(julian, text, sizeof(text)); );
				mc_check(! fail && h_is(text, size, want), "date-get", "day %d is printed as '%.*s' instead of '%s'", (int)julian, fail ? 0 : size, text, want);
				bool ok = call_date(want, want_size, &value);
				mc_check(ok && value == julian, "date-set", "'%s' is read as day %d instead of %d", want, ok ? value : -1, (int)julian);
				mc_check(date_extract(julian, &fy) == y && date_extract(julian, &fm) == m && date_extract(julian, &fd) == d, "date-extract", "fields of %s", want);
				// other ways to the same day
				if (d == h_mdays(y, m) && ! (y == 9999 && m == 12)) {
					mc_check(date_add(julian, 1) == 1721426 + h_days(y, m + 1, 1), "date-add", "a day after %s", want);
					mc_check(date_sub(julian + 1, 1) == julian, "date-sub", "a day before the one after %s", want);
				}
				n++;
			}
	mc_cases(n);
	mc_step(n);
}

// every combination of fields
static void
s_date_fields(void)
{
	static const int years[] = { 0, 1, 4, 100, 400, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 4000, 9999 };
	int y = years[mc_choose(sizeof(years) / sizeof(*years))];
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("year %d", y);
	for (int m = 0; m < 100; m++)
		for (int d = 0; d < 100; d++) {
			char text[64];
			int  size = sprintf(text, "%04d-%02d-%02d", y, m, d), value;
			bool valid = y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= h_mdays(y, m);
			bool ok = call_date(text, size, &value);
			mc_check(ok == valid, valid ? "date-valid" : "date-invalid", "date '%s' is %s", text, ok ? "accepted" : "rejected");
			if (ok) mc_check(value == 1721426 + h_days(y, m, d), "date-set", "'%s' is read as day %d", text, value);
		}
	mc_cases(10000);
	mc_step(10000);
	// steps out of the range
	static const int steps[] = { 0, 1, -1, 365, -365, 3652058, -3652058, 3652059, -3652059, INT32_MAX, INT32_MIN };
	for (int m = 1; m <= 12 && y; m += 11)
		for (int i = 0; i < 11; i++)
			for (int sub = 0; sub < 2; sub++) {
				int64_t day = h_days(y, m, 1), want = sub ? day - steps[i] : day + steps[i];
				int got = 0;
				bool fail = error_catch( got = sub ? date_sub(1721426 + day, steps[i]) : date_add(1721426 + day, steps[i]); );
				mc_check(fail == (want < 0 || want > 3652058), "date-range", "%d-%d-1 %c %d is %s", y, m, sub ? '-' : '+', steps[i], fail ? "rejected" : "accepted");
				if (! fail) mc_check(got - 1721426 == want, "date-arith", "%d-%d-1 %c %d is day %d", y, m, sub ? '-' : '+', steps[i], got);
			}
}

// every single damage of a text
typedef int (*Judge)(const char* text, int size);    // 0: has to be rejected, 1: accepted, 2: either

static int two(const char* t) { return (t[0] - '0') * 10 + t[1] - '0'; }

static int
h_date_ok(const char* t, int size)
{
	if (size != 10) return 0;
	for (int i = 0; i < 10; i++) if (i == 4 || i == 7 ? t[i] != '-' : t[i] < '0' || t[i] > '9') return 0;
	int y = two(t) * 100 + two(t + 2), m = two(t + 5), d = two(t + 8);
	return y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= h_mdays(y, m);
}

static int
h_stamp_ok(const char* t, int size)
{
	while (size && isspace((uint8_t)*t)) { t++; size--; }
	if (size < 19) return 0;
	for (int i = 0; i < 19; i++) {
		if (i == 4 || i == 7) { if (t[i] != '-') return 0; }
		else if (i == 10) { if (t[i] != ' ' && t[i] != 'T') return 0; }
		else if (i == 13 || i == 16) { if (t[i] != ':') return 0; }
		else if (t[i] < '0' || t[i] > '9') return 0;
	}
	int y = two(t) * 100 + two(t + 2), m = two(t + 5), d = two(t + 8), hh = two(t + 11), mm = two(t + 14), ss = two(t + 17);
	if (y < 1970 || m < 1 || m > 12 || d < 1 || d > h_mdays(y, m) || hh > 23 || mm > 59) return 0;
	if (ss > 60) return 0;
	int i = 19, either = ss == 60;
	if (i < size && t[i] == '.') {
		int n = 0;
		i++;
		while (i < size && isdigit((uint8_t)t[i])) { i++; n++; }
		if (n < 1 || n > 6) return 0;
	}
	if (i == size) return either ? 2 : 1;
	if (t[i] == 'Z') return i + 1 == size ? (either ? 2 : 1) : 0;
	if (t[i] != '+' && t[i] != '-') return 0;
	i++;
	int f[3] = { 0 }, n = 0;
	while (i < size && n < 3) {
		if (n && t[i] == ':') i++;
		if (i + 2 > size || ! isdigit((uint8_t)t[i]) || ! isdigit((uint8_t)t[i + 1])) return 0;
		f[n++] = two(t + i);
		i += 2;
	}
	if (i != size || n == 0 || f[1] > 59 || f[2] > 59) return 0;
	if (f[0] * 3600 + f[1] * 60 + f[2] > 86400) return 0;
	// offsets of a day, or with seconds, or out of the range of timestamps
	if (n == 3 || f[0] > 23 || y == 1970 || y == 9999) return 2;
	return either ? 2 : 1;
}

static void
h_damage(const char* text, Judge judge, bool (*call)(const char*, int), const char* what)
{
	int size = strlen(text);
	char b[128];
	int64_t n = 0;
	#define TRY(t, s) do { int want = judge(t, s); bool ok = call(t, s); n++; \
		mc_check(want == 2 || ok == want, want ? "text-valid" : "text-invalid", "%s '%.*s' is %s", what, s, t, ok ? "accepted" : "rejected"); } while (0)
	for (int cut = 0; cut <= size; cut++) TRY(text, cut);
	for (int at = 0; at <= size; at++)
		for (int c = 0; c < 256; c++) {
			if (at < size) {
				memcpy(b, text, size); b[at] = c;
				TRY(b, size);
				// and cut behind it
				TRY(b, at + 1);
			}
			memcpy(b, text, at); b[at] = c; memcpy(b + at + 1, text + at, size - at);
			TRY(b, size + 1);
		}
	for (int at = 0; at < size; at++) {
		memcpy(b, text, at); memcpy(b + at, text + at + 1, size - at - 1);
		TRY(b, size - 1);
	}
	// white space before
	for (int k = 1; k <= 20; k++)
		for (int cut = 0; cut <= size; cut++) {
			memset(b, k % 2 ? ' ' : '\t', k); memcpy(b + k, text, cut);
			TRY(b, k + cut);
		}
	mc_cases(n);
	mc_step(n);
	#undef TRY
}

static bool c_date(const char* t, int n) { int v; return call_date(t, n, &v); }
static bool c_stamp(const char* t, int n) { int64_t v; return call_stamp(t, n, &v); }

static bool
c_uuid(const char* t, int n)
{
	Str s = h_text(t, n);
	Uuid u;
	bool fail = error_catch( uuid_set(&u, &s); );
	bool nothrow = uuid_set_nothrow(&u, &s) == 0;
	h_drop(&s);
	mc_check(nothrow == ! fail, "uuid-forms", "both forms of reading differ");
	return ! fail;
}

static int
h_uuid_ok(const char* t, int size)
{
	if (size != 36) return 0;
	for (int i = 0; i < 36; i++)
		if (i == 8 || i == 13 || i == 18 || i == 23 ? t[i] != '-' : ! isxdigit((uint8_t)t[i])) return 0;
	return 1;
}

static int h_interval_ok(const char* t, int size);
static bool c_interval(const char* t, int n);

static void
s_damage(void)
{
	static const char* dates[] = { "2024-02-29", "0001-01-01", "9999-12-31" };
	static const char* stamps[] = { "2024-02-29 23:59:59.123456+05:30", "2000-12-31T00:00:00", "1999-10-09 08:07:06.5Z", "2024-02-29 23:59:59-0330", "2031-07-01 10:20:30.123+00" };
	static const char* uuids[] = { "01234567-89ab-cdef-0123-456789ABCDEF", "ffffffff-ffff-ffff-ffff-ffffffffffff" };
	static const char* intervals[] = { "1 year 2 months -3 days 4 hours", "-5 us", "10 weeks  7 ms" };
	int k = mc_choose(13);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("text %d", k);
	if (k < 3) h_damage(dates[k], h_date_ok, c_date, "date");
	else if (k < 8) h_damage(stamps[k - 3], h_stamp_ok, c_stamp, "timestamp");
	else if (k < 10) h_damage(uuids[k - 8], h_uuid_ok, c_uuid, "uuid");
	else h_damage(intervals[k - 10], h_interval_ok, c_interval, "interval");
}

// ---------------------------------------------------------------- timestamps
static const char* fields[] = { "year", "month", "day", "hour", "minute", "second", "millisecond", "microsecond" };
static const char* other_names[] = { "year", "month", "day", "hr", "min", "sec", "ms", "us" };

// every day, with times of a day
static void
s_stamps(void)
{
	int decade = mc_choose(803);
	int phase = mc_choose(mc_q(1, 4));
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("years from %d", 1970 + decade * 10);
	static const int64_t times[] = { 0, 1, DAY_US - 1, 999, 1000, 12 * 3600 * 1000000ll, 86399 * 1000000ll, 45296123000ll, 3600 * 1000000ll - 1, 59999999, 60000000, 100000 };
	int64_t n = 0;
	for (int y = 1970 + decade * 10; y < 1980 + decade * 10 && y <= 9999; y++)
		for (int m = 1; m <= 12; m++)
			for (int d = 1; d <= h_mdays(y, m); d++) {
				int64_t tod = times[(n * 4 + phase * 3 + d) % 12];
				if (d == 1 && m == 1) tod = 0;
				if (d == 31 && m == 12) tod = DAY_US - 1;
				int64_t days = h_days(y, m, d) - EPOCH_DAYS, value = days * DAY_US + tod, got;
				int h = tod / 3600000000ll, mi = tod / 60000000 % 60, s = tod / 1000000 % 60, us = tod % 1000000;
				char want[64], text[64];
				int want_size = sprintf(want, "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, mi, s), size = 0;
				if (us && us % 1000 == 0) want_size += sprintf(want + want_size, ".%03d", us / 1000);
				else if (us) want_size += sprintf(want + want_size, ".%06d", us);
				bool fail = error_catch( size = timestamp_get(value, NULL, text, sizeof(text)); );
				mc_check(! fail && h_is(text, size, want), "timestamp-get", "%" PRIi64 " is printed as '%.*s' instead of '%s'", value, fail ? 0 : size, text, want);
				mc_check(call_stamp(want, want_size, &got) && got == value, "timestamp-set", "'%s' is not read as %" PRIi64, want, value);
				want[10] = 'T';
				want[want_size] = 'Z';
				mc_check(call_stamp(want, want_size + 1, &got) && got == value, "timestamp-set", "'%s' is not read as %" PRIi64, want, value);
				// through the fields
				const int64_t part[] = { y, m, d, h, mi, s, us / 1000, us };
				Timestamp ts;
				for (int f = 0; f < 8; f++) {
					Str name;
					str_set_cstr(&name, n % 2 ? fields[f] : other_names[f]);
					mc_check(timestamp_extract(value, utc_zone, &name) == part[f], "timestamp-extract", "%s of '%s'", fields[f], want);
					// truncated
					int64_t trunc = 0;
					fail = error_catch(
						timestamp_init(&ts);
						timestamp_set_unixtime(&ts, value);
						timestamp_trunc(&ts, &name);
						trunc = timestamp_get_unixtime(&ts, NULL);
					);
					int64_t w = f == 0 ? (h_days(y, 1, 1) - EPOCH_DAYS) * DAY_US : f == 1 ? (h_days(y, m, 1) - EPOCH_DAYS) * DAY_US : f == 2 ? days * DAY_US :
						f == 3 ? value - tod % 3600000000ll : f == 4 ? value - tod % 60000000 : f == 5 ? value - us : f == 6 ? value - us % 1000 : value;
					mc_check(! fail && trunc == w, "timestamp-trunc", "%s of '%s' is %" PRIi64 " instead of %" PRIi64, fields[f], want, trunc, w);
				}
				// the date of it and back
				int date = 0;
				fail = error_catch( date = timestamp_date(value); );
				mc_check(! fail && date == 1721426 + h_days(y, m, d), "timestamp-date", "date of '%s' is %d", want, date);
				got = -1;
				fail = error_catch(
					timestamp_init(&ts);
					timestamp_set_date(&ts, date);
					got = timestamp_get_unixtime(&ts, NULL);
				);
				mc_check(! fail && got == days * DAY_US, "timestamp-of-date", "start of '%s' is %" PRIi64, want, got);
				n++;
			}
	mc_cases(n);
	mc_step(n);
}

// texts of every combination of fields
static void
s_stamp_fields(void)
{
	static const char* years[] = { "0000", "1969", "1970", "1972", "2023", "2024", "2100", "9999", "202x" };
	static const char* zones[] = { "", "Z", "+00", "-00:00", "+05:30", "-0930", "+14", "-23:59", "+00:60", "+00:99", "-24:01", "+99", "Z0", "+5", "+05:", "+05:3", "z", " Z" };
	static const char* fracs[] = { "", ".", ".0", ".5", ".05", ".005", ".0005", ".00005", ".000005", ".0000005", ".999999", ".120", ".9999999999" };
	int y = mc_choose(9), z = mc_choose(18);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("year %s zone %s", years[y], zones[z]);
	static const int months[] = { 0, 1, 2, 4, 12, 13, 99 }, days[] = { 0, 1, 28, 29, 30, 31, 32, 99 }, hours[] = { 0, 9, 23, 24, 25, 99 }, mins[] = { 0, 59, 60, 99 }, secs[] = { 0, 7, 59, 61, 99 };
	int64_t n = 0;
	for (int m = 0; m < 7; m++)
	for (int d = 0; d < 8; d++)
	for (int h = 0; h < 6; h++)
	for (int mi = 0; mi < 4; mi++)
	for (int s = 0; s < 5; s++)
	for (int f = 0; f < 13; f++) {
		char text[128];
		int size = sprintf(text, "%s-%02d-%02d%c%02d:%02d:%02d%s%s", years[y], months[m], days[d], (m + d) % 2 ? 'T' : ' ', hours[h], mins[mi], secs[s], fracs[f], zones[z]);
		int want = h_stamp_ok(text, size);
		int64_t value = 0;
		bool ok = call_stamp(text, size, &value);
		n++;
		int off = 0;
		if (want) {
			const char* o = zones[z];
			if (*o == '+' || *o == '-') {
				off = two(o + 1) * 3600;
				if (o[3] == ':') off += two(o + 4) * 60;
				else if (o[3]) off += two(o + 3) * 60;
				if (*o == '-') off = -off;
			}
			int us = 0, k = 100000;
			for (const char* p = fracs[f]; *p; p++) if (*p != '.') { us += (*p - '0') * k; k /= 10; }
			int64_t sec = (h_days(atoi(years[y]), months[m], days[d]) - EPOCH_DAYS) * 86400 + hours[h] * 3600 + mins[mi] * 60 + secs[s] - off;
			bool in = sec >= 0 && sec <= 253402300799ll;
			mc_check(ok == in, in ? "text-valid" : "text-range", "timestamp '%s' is %s", text, ok ? "accepted" : "rejected");
			if (ok) mc_check(value == sec * 1000000 + us, "timestamp-value", "'%s' is read as %" PRIi64 " instead of %" PRIi64, text, value, sec * 1000000 + us);
		} else
			mc_check(! ok, "text-invalid", "timestamp '%s' is accepted", text);
	}
	mc_cases(n);
	mc_step(n);
}

// timestamps and intervals
static void
s_arith(void)
{
	static const int ms[] = { 0, 1, -1, 11, 12, -12, 13, -25, 1200, 96360, -96360, 100000, INT32_MAX, INT32_MIN };
	static const int ds[] = { 0, 1, -1, 28, 31, -366, 36524, 2932896, -2932897, 3000000, INT32_MAX, INT32_MIN };
	static const int64_t us[] = { 0, 1, -1, 999999, -1000000, 3599999999ll, -86400000000ll, 86400000001ll, 253402300799999999ll, -253402300800000000ll, INT64_MAX, INT64_MIN + 1, 2147483648ll * 3600000000ll };
	int m = ms[mc_choose(14)], d = ds[mc_choose(12)];
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("%d months %d days", m, d);
	static const struct { int y, m, d; int64_t t; } base[] = {
		{1970,1,1,0}, {1970,1,31,1}, {2024,1,31,5}, {2024,2,29,DAY_US-1}, {2023,12,31,43200000000ll}, {2000,2,28,999999}, {2100,3,1,0}, {9999,12,31,DAY_US-1}, {5000,6,15,3599999999ll} };
	int64_t n = 0;
	for (int b = 0; b < 9; b++)
		for (int u = 0; u < 13; u++)
			for (int sub = 0; sub < 2; sub++) {
				int64_t value = (h_days(base[b].y, base[b].m, base[b].d) - EPOCH_DAYS) * DAY_US + base[b].t, got = 0;
				Interval iv = { m, d, us[u] };
				bool fail = error_catch(
					Timestamp ts;
					timestamp_init(&ts);
					timestamp_set_unixtime(&ts, value);
					if (sub) timestamp_sub(&ts, &iv); else timestamp_add(&ts, &iv);
					got = timestamp_get_unixtime(&ts, NULL);
				);
				__int128 sign = sub ? -1 : 1;
				int64_t base_day = h_days(base[b].y, base[b].m + (int64_t)sign * m, base[b].d);
				n++;
				// months out of the calendar of the reference
				if (base_day == INT64_MIN) { if (d == 0 && us[u] == 0) mc_check(fail, "arith-range", "overflow is not reported"); continue; }
				__int128 want = (__int128)(base_day - EPOCH_DAYS + sign * d) * DAY_US + base[b].t + sign * us[u];
				bool in = want >= 0 && want <= 253402300799999999ll;
				mc_check(fail != in, in ? "arith-valid" : "arith-range", "%d-%d-%d+%" PRIi64 " %s (%d, %d, %" PRIi64 ") is %s", base[b].y, base[b].m, base[b].d, base[b].t, sub ? "minus" : "plus", m, d, us[u], fail ? am_error_text() : "accepted");
				if (! fail) mc_check(got == (int64_t)want, "arith", "%d-%d-%d+%" PRIi64 " %s (%d, %d, %" PRIi64 ") is %" PRIi64 " instead of %" PRIi64, base[b].y, base[b].m, base[b].d, base[b].t, sub ? "minus" : "plus", m, d, us[u], got, (int64_t)want);
			}
	mc_cases(n);
	mc_step(n);
}

// ---------------------------------------------------------------- time zones
// a zone file with these transitions
static Timezone*
h_zone(int count, int64_t* at, int* type, int types, int* utoff)
{
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/zone", mc_workdir());
	uint8_t b[1024], *p = b;
	#define BE(x) do { uint32_t v_ = (x); *p++ = v_ >> 24; *p++ = v_ >> 16; *p++ = v_ >> 8; *p++ = v_; } while (0)
	memset(b, 0, sizeof(b));
	memcpy(p, "TZif2", 5);
	p += 20;
	BE(0); BE(0); BE(0); BE(count); BE(types); BE(4);
	for (int i = 0; i < count; i++) BE(at[i]);
	for (int i = 0; i < count; i++) *p++ = type[i];
	for (int i = 0; i < types; i++) { BE(utoff[i]); *p++ = i & 1; *p++ = 0; }
	memcpy(p, "ABC", 4);
	p += 4;
	FILE* f = fopen(path, "wb");
	fwrite(b, 1, p - b, f);
	fclose(f);
	Str name;
	str_set_cstr(&name, "Test/Zone");
	Timezone* tz = NULL;
	bool fail = error_catch( tz = timezone_create(&name, path); );
	unlink(path);
	mc_check(! fail && tz, "zone-read", "zone file is not read: %s", fail ? am_error_text() : "");
	return tz;
}

static int
h_off(int64_t time, int count, int64_t* at, int* type, int* utoff)
{
	int off = utoff[0];
	for (int i = 0; i < count; i++) if (at[i] <= time) off = utoff[type[i]];
	return off;
}

static void
s_zones(void)
{
	static const int64_t grid[] = { -2000000000, -86400, -1, 0, 86400, 10000000, 10003600, 500000000, 1700000000, 2147483647 };
	static const int offs[][4] = { { 0, 3600, 7200, -3600 }, { -18000, -14400, 20700, 45900 }, { -2670, 50400, -43200, 12 } };
	int count = mc_choose(mc_q(5, 6)), o = mc_choose(3);
	int64_t at[8];
	int type[8];
	int last = -1;
	for (int i = 0; i < count; i++) {
		int left = 10 - (last + 1) - (count - 1 - i);
		last += 1 + mc_choose(left);
		at[i] = grid[last];
	}
	int kinds = mc_choose(3);
	if (! mc_split()) return;
	for (int i = 0; i < count; i++) type[i] = kinds == 0 ? (i + 1) % 4 : kinds == 1 ? (i * 3 + 1) % 4 : i % 2;
	int utoff[4];
	memcpy(utoff, offs[o], sizeof(utoff));
	mc_log("%d transitions, offsets %d, kinds %d, first at %d", count, o, kinds, count ? (int)at[0] : 0);
	if (count > 1) mc_nontrivial();
	mc_step(1);
	auto tz = h_zone(count, at, type, 4, utoff);
	int64_t n = 0;
	for (int g = 0; g < 10; g++)
		for (int k = 0; k < 15; k++) {
			static const int64_t d[] = { 0, -1, 1, 1800, -1800, 3600, -3600, 3599, -3601, 7200, -7200, 18000, 21600, 86399, 7777777 };
			int64_t time = grid[g] + d[k];
			if (time < 0 || time > 4000000000ll) continue;
			int off = h_off(time, count, at, type, utoff);
			mc_check(timezone_match(tz, time)->utoff == off, "zone-match", "offset at %" PRIi64 " is %d instead of %d", time, (int)timezone_match(tz, time)->utoff, off);
			n++;
			// printed and read
			int64_t value = time * 1000000 + (k % 2 ? 123456 : 0), got = 0;
			char text[128];
			int size = timestamp_get(value, tz, text, sizeof(text));
			if (time + off < 0) continue;
			bool ok = call_stamp_tz(text, size, tz, &got);
			mc_check(ok && got == value, "zone-text", "%" PRIi64 " is printed as '%.*s' and read as %" PRIi64, value, size, text, ok ? got : -1);
			ok = call_stamp(text, size, &got);
			mc_check(ok && got == value, "zone-text", "%" PRIi64 " is printed as '%.*s' and read elsewhere as %" PRIi64, value, size, text, ok ? got : -1);
			int y, m, dd;
			h_civil((time + off) / 86400 + EPOCH_DAYS, &y, &m, &dd);
			char want[64];
			int want_size = sprintf(want, "%04d-%02d-%02d %02d:%02d:%02d", y, m, dd, (int)((time + off) / 3600 % 24), (int)((time + off) / 60 % 60), (int)((time + off) % 60));
			mc_check(size > want_size && ! memcmp(text, want, want_size), "zone-local", "%" PRIi64 " is printed as '%.*s' instead of '%s'", value, size, text, want);
			Str name;
			str_set_cstr(&name, "hour");
			mc_check(timestamp_extract(value, tz, &name) == (time + off) / 3600 % 24, "zone-extract", "hour of %" PRIi64, value);
			// as local time: the only time with this form, else one of them
			int images = 0;
			for (int i = 0; i < 4; i++) {
				bool seen = false;
				for (int j = 0; j < i; j++) if (utoff[j] == utoff[i]) seen = true;
				int64_t t = time + off - utoff[i];
				if (! seen && h_off(t, count, at, type, utoff) == utoff[i]) images++;
			}
			ok = call_stamp_tz(want, want_size, tz, &got);
			got /= 1000000;
			// offsets of a single change nearby
			int near = 0;
			for (int i = 0; i < count; i++) if (at[i] > time - 200000 && at[i] < time + 200000) near++;
			if (images == 1 && near <= 1 && o != 2) mc_check(ok && got == time, "zone-from-local", "local '%s' is %" PRIi64 " instead of %" PRIi64, want, ok ? got : -1, time);
		}
	timezone_free(tz);
	mc_cases(n);
}

// ---------------------------------------------------------------- intervals
typedef struct { const char* name; int64_t m, d, us; } Unit;
static const Unit units[] = {
	{ "us",0,0,1 }, { "microsecond",0,0,1 }, { "microseconds",0,0,1 }, { "ms",0,0,1000 }, { "millisecond",0,0,1000 }, { "milliseconds",0,0,1000 },
	{ "sec",0,0,1000000 }, { "secs",0,0,1000000 }, { "second",0,0,1000000 }, { "seconds",0,0,1000000 },
	{ "min",0,0,60000000 }, { "mins",0,0,60000000 }, { "minute",0,0,60000000 }, { "minutes",0,0,60000000 },
	{ "hr",0,0,3600000000 }, { "hrs",0,0,3600000000 }, { "hour",0,0,3600000000 }, { "hours",0,0,3600000000 },
	{ "day",0,1,0 }, { "days",0,1,0 }, { "week",0,7,0 }, { "weeks",0,7,0 },
	{ "month",1,0,0 }, { "months",1,0,0 }, { "year",12,0,0 }, { "years",12,0,0 } };
enum { UNITS = sizeof(units) / sizeof(*units) };

// 0: malformed, 1: value; h_edge: a part alone is out of the range, the sum may be in it
static bool h_edge;
static int
h_interval(const char* t, int size, Interval* iv)
{
	const char* end = t + size;
	__int128 m = 0, d = 0, us = 0;
	h_edge = false;
	for (;;) {
		while (t < end && isspace((uint8_t)*t)) t++;
		if (t == end) break;
		__int128 sign = 1, v = 0;
		if (*t == '-') { sign = -1; t++; }
		int digits = 0;
		while (t < end && *t >= '0' && *t <= '9') { v = v * 10 + *t++ - '0'; digits++; if (v > INT64_MAX) return 0; }
		if (! digits || t == end || ! isspace((uint8_t)*t)) return 0;
		while (t < end && isspace((uint8_t)*t)) t++;
		const char* s = t;
		while (t < end && isalpha((uint8_t)*t)) t++;
		int u;
		for (u = 0; u < UNITS; u++) if (h_is(s, t - s, units[u].name)) break;
		if (u == UNITS) return 0;
		v *= sign;
		if (v * units[u].us > INT64_MAX || v * units[u].us < INT64_MIN || v * units[u].m > INT32_MAX || v * units[u].m < INT32_MIN || v * units[u].d > INT32_MAX || v * units[u].d < INT32_MIN) h_edge = true;
		m += v * units[u].m; d += v * units[u].d; us += v * units[u].us;
		if (m > INT32_MAX || m < INT32_MIN || d > INT32_MAX || d < INT32_MIN || us > INT64_MAX || us < INT64_MIN) return 0;
	}
	*iv = (Interval){ m, d, us };
	return 1;
}

static bool
call_interval(const char* t, int size, Interval* iv)
{
	Str s = h_text(t, size);
	interval_init(iv);
	bool fail = error_catch( interval_set(iv, &s); );
	h_drop(&s);
	return ! fail;
}

static int  h_interval_ok(const char* t, int size) { Interval iv; return h_interval(t, size, &iv); }
static bool c_interval(const char* t, int n) { Interval iv; return call_interval(t, n, &iv); }

static bool h_same(Interval* a, Interval* b) { return a->m == b->m && a->d == b->d && a->us == b->us; }

static int64_t
h_trunc(int64_t v, int64_t unit)
{
	return v / unit * unit;
}

static void
t_interval(Interval* iv)
{
	// printed and read
	char text[512];
	int size = interval_get(iv, text, sizeof(text));
	Interval back;
	bool ok = call_interval(text, size, &back);
	mc_check(ok && h_same(iv, &back), "interval-text", "(%d, %d, %" PRIi64 ") is printed as '%.*s' and read as (%d, %d, %" PRIi64 ")", iv->m, iv->d, iv->us, size, text, back.m, back.d, back.us);
	mc_check(h_interval(text, size, &back) == 1 && h_same(iv, &back), "interval-print", "(%d, %d, %" PRIi64 ") is printed as '%.*s'", iv->m, iv->d, iv->us, size, text);
	// fields
	const int64_t U = 1000000, H = 3600 * U;
	const int64_t part[] = { iv->m / 12, iv->m % 12, iv->d, iv->us / H, iv->us % H / (60 * U), iv->us % (60 * U) / U, iv->us % U / 1000, iv->us % 1000 };
	for (int f = 0; f < 8; f++) {
		Str name;
		str_set_cstr(&name, f % 2 ? fields[f] : other_names[f]);
		int64_t got = interval_extract(iv, &name);
		mc_check(got == part[f], "interval-extract", "%s of (%d, %d, %" PRIi64 ") is %" PRIi64 " instead of %" PRIi64, fields[f], iv->m, iv->d, iv->us, got, part[f]);
		Interval t = *iv, w = *iv;
		interval_trunc(&t, &name);
		switch (f) {
		case 0: w.m = w.m / 12 * 12; w.d = 0; w.us = 0; break;
		case 1: w.d = 0; w.us = 0; break;
		case 2: w.us = h_trunc(w.us, 24 * H); break;
		case 3: w.us = h_trunc(w.us, H); break;
		case 4: w.us = h_trunc(w.us, 60 * U); break;
		case 5: w.us = h_trunc(w.us, U); break;
		case 6: w.us = h_trunc(w.us, 1000); break;
		}
		mc_check(h_same(&t, &w), "interval-trunc", "%s of (%d, %d, %" PRIi64 ") is (%d, %d, %" PRIi64 ")", fields[f], iv->m, iv->d, iv->us, t.m, t.d, t.us);
	}
	Interval neg, zero, sum;
	if (iv->m != INT32_MIN && iv->d != INT32_MIN && iv->us != INT64_MIN) {
		interval_neg(&neg, iv);
		interval_init(&zero);
		interval_sub(&sum, &zero, iv);
		mc_check(h_same(&neg, &sum) && neg.m == -iv->m && neg.d == -iv->d && neg.us == -iv->us, "interval-neg", "negated (%d, %d, %" PRIi64 ")", iv->m, iv->d, iv->us);
		interval_add(&sum, iv, &neg);
		mc_check(h_same(&sum, &zero), "interval-add", "sum with the negated (%d, %d, %" PRIi64 ")", iv->m, iv->d, iv->us);
	}
}

static void
s_intervals(void)
{
	static const int ms[] = { 0, 1, -1, 11, 12, -12, -13, 25, INT32_MAX, INT32_MIN };
	static const int ds[] = { 0, 1, -1, 7, -30, INT32_MAX, INT32_MIN };
	int m = ms[mc_choose(10)], d = ds[mc_choose(7)];
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("%d months %d days", m, d);
	static const int64_t us[] = { 0, 1, 999, 1000, 1001, 999999, 1000000, 59999999, 60000000, 60001000, 3599999999, 3600000000, 3661001001, 86399999999, 86400000000, 172800000001, INT64_MAX };
	int64_t n = 0;
	Interval all[34];
	for (int u = 0; u < 17; u++)
		for (int s = 0; s < 2; s++) {
			Interval iv = { m, d, s ? -us[u] : us[u] };
			if (s && u == 16) iv.us--;
			t_interval(&iv);
			all[n++] = iv;
		}
	// order
	for (int a = 0; a < n; a++)
		for (int b = 0; b < n; b++) {
			int want = all[a].us < all[b].us ? -1 : all[a].us > all[b].us;
			int got = interval_compare(&all[a], &all[b]);
			mc_check((got > 0) - (got < 0) == want, "interval-compare", "order of intervals");
			for (int i = 0; i < 10 * 7; i++) {
				Interval o = { ms[i / 7], ds[i % 7], all[b].us };
				want = m != o.m ? (m < o.m ? -1 : 1) : d != o.d ? (d < o.d ? -1 : 1) : want;
				if (m == o.m && d == o.d) want = all[a].us < o.us ? -1 : all[a].us > o.us;
				got = interval_compare(&all[a], &o);
				mc_check((got > 0) - (got < 0) == want, "interval-compare", "order of intervals");
				want = all[a].us < all[b].us ? -1 : all[a].us > all[b].us;
			}
		}
	mc_cases(n);
	mc_step(n);
}

// every text of a few parts
static void
s_interval_texts(void)
{
	static const char* nums[] = { "0", "1", "-1", "12", "007", "2147483647", "2147483648", "-2147483648", "178956970", "178956971", "306783378", "306783379", "2562047788", "2562047789", "9223372036854775807", "9223372036854775808", "9223372036854775", "9223372036854776", "-9223372036854775807",
		"", "-", "--1", "+1", "1.5", "1e3", "x" };
	enum { NUMS = sizeof(nums) / sizeof(*nums) };
	static const char* gaps[] = { " ", "  ", "", "\t\n" };
	int u = mc_choose(UNITS + 4), a = mc_choose(NUMS);
	if (! mc_split()) return;
	mc_nontrivial();
	static const char* odd[] = { "", "Days", "daysx", "y" };
	const char* unit = u < UNITS ? units[u].name : odd[u - UNITS];
	mc_log("'%s' '%s'", nums[a], unit);
	int64_t n = 0;
	for (int g = 0; g < 4; g++)
		for (int form = 0; form < 3; form++)
			for (int b = 0; b < (form ? NUMS : 1); b++)
				for (int v = 0; v < (form ? UNITS : 1); v++) {
					char text[256];
					int size = form == 0 ? sprintf(text, "%s%s%s", nums[a], gaps[g], unit) :
						form == 1 ? sprintf(text, "%s%s%s%s%s %s", nums[a], gaps[g], unit, gaps[(g + v) % 4], nums[b], units[v].name) :
						sprintf(text, " %s %s%s%s%s%s ", nums[b], units[v].name, gaps[g], nums[a], gaps[g], unit);
					Interval want, got;
					bool valid = h_interval(text, size, &want);
					bool ok = call_interval(text, size, &got);
					n++;
					mc_check(ok == valid || (valid && h_edge), valid ? "interval-valid" : "interval-invalid", "interval '%s' is %s", text, ok ? "accepted" : "rejected");
					if (ok) mc_check(h_same(&want, &got), "interval-value", "interval '%s' is read as (%d, %d, %" PRIi64 ")", text, got.m, got.d, got.us);
				}
	mc_cases(n);
	mc_step(n);
}

// ---------------------------------------------------------------- UUIDs
static void
s_uuids(void)
{
	int at = mc_choose(16);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("byte %d", at);
	for (int base = 0; base < 3; base++)
		for (int c = 0; c < 256; c++)
			for (int e = 0; e < 16; e++) {
				uint8_t b[16];
				memset(b, base == 0 ? 0 : base == 1 ? 0xff : 0x5a, 16);
				b[at] = c;
				b[e] ^= 0x81;
				Uuid u, back;
				memcpy(&u, b, 16);
				char text[UUID_SZ + 1];
				text[UUID_SZ] = 'x';
				uuid_get(&u, text, UUID_SZ);
				mc_check(strlen(text) == 36 && h_uuid_ok(text, 36), "uuid-print", "uuid is printed as '%s'", text);
				for (int upper = 0; upper < 2; upper++) {
					char t[40];
					for (int i = 0; i < 37; i++) t[i] = upper ? toupper(text[i]) : text[i];
					Str s = h_text(t, 36);
					uuid_init(&back);
					bool ok = uuid_set_nothrow(&back, &s) == 0;
					h_drop(&s);
					mc_check(ok && ! memcmp(&u, &back, 16) && uuid_is(&u, &back) && uuid_compare(&u, &back) == 0, "uuid-text", "uuid printed as '%s' is not read back", t);
				}
				char shrt[16];
				uuid_get_short(&u, shrt, sizeof(shrt));
				mc_check(! memcmp(shrt, text, 8) && strlen(shrt) == 8, "uuid-short", "'%s' for '%s'", shrt, text);
				// the text shows each byte once
				int seen[256] = { 0 };
				for (int i = 0; i < 36;) {
					if (text[i] == '-') { i++; continue; }
					int v;
					sscanf(text + i, "%2x", &v);
					seen[v]++;
					i += 2;
				}
				for (int i = 0; i < 16; i++) seen[b[i]]--;
				for (int i = 0; i < 256; i++) mc_check(! seen[i], "uuid-bytes", "bytes of uuid '%s'", text);
			}
	mc_cases(3 * 256 * 16);
	mc_step(3 * 256);
}

// ---------------------------------------------------------------- base64
static const char std64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char url64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

static int
h_encode(char* out, const uint8_t* in, int size, bool url)
{
	const char* alpha = url ? url64 : std64;
	int n = 0;
	for (int i = 0; i < size; i += 3) {
		int left = size - i;
		uint32_t v = in[i] << 16 | (left > 1 ? in[i + 1] << 8 : 0) | (left > 2 ? in[i + 2] : 0);
		out[n++] = alpha[v >> 18];
		out[n++] = alpha[v >> 12 & 63];
		if (left > 1) out[n++] = alpha[v >> 6 & 63]; else if (! url) out[n++] = '=';
		if (left > 2) out[n++] = alpha[v & 63]; else if (! url) out[n++] = '=';
	}
	return n;
}

static bool
call_decode(Buf* buf, const char* t, int size, bool url)
{
	Str s = h_text(t, size);
	buf_init(buf);
	buf_write(buf, "ab", 2);
	bool fail = error_catch( if (url) base64url_decode(buf, &s); else base64_decode(buf, &s); );
	h_drop(&s);
	return ! fail;
}

static void
t_base64(const uint8_t* data, int size)
{
	for (int url = 0; url < 2; url++) {
		char want[512];
		int want_size = h_encode(want, data, size, url);
		Str s = h_text((char*)data, size);
		Buf buf;
		buf_init(&buf);
		buf_write(&buf, "ab", 2);
		if (url) base64url_encode(&buf, &s); else base64_encode(&buf, &s);
		mc_check(buf_size(&buf) == want_size + 2 && ! memcmp(buf.start + 2, want, want_size), "base64-encode", "%d bytes are encoded as '%.*s' instead of '%.*s'", size, buf_size(&buf) - 2, buf.start + 2, want_size, want);
		buf_free(&buf);
		h_drop(&s);
		bool ok = call_decode(&buf, want, want_size, url);
		mc_check(ok && buf_size(&buf) == size + 2 && ! memcmp(buf.start + 2, data, size), "base64-decode", "'%.*s' is not decoded to its %d bytes", want_size, want, size);
		buf_free(&buf);
	}
}

static void
s_base64(void)
{
	int a = mc_choose(256);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("first byte %d", a);
	uint8_t b[64];
	int64_t n = 0;
	if (a == 0) t_base64(b, 0);
	b[0] = a;
	t_base64(b, 1);
	for (int c = 0; c < 256; c++) {
		b[1] = c;
		t_base64(b, 2);
		for (int d = 0; d < 256; d += mc_q(17, 1)) { b[2] = d; t_base64(b, 3); n++; }
	}
	for (int size = 4; size < 64; size++) {
		for (int i = 0; i < size; i++) b[i] = a * 7 + i * 31;
		t_base64(b, size);
	}
	mc_cases(n + 257);
	mc_step(n);
}

// every text of some symbols
static void
s_base64_texts(void)
{
	static const char sym[] = { 'A', 'Q', '/', '_', '=', ' ', 'z', '\0', (char)0xc3 };
	int url = mc_choose(2), size = 1 + mc_choose(mc_q(5, 7)), first = mc_choose(9);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("%d symbols from %d", size, first);
	char t[8];
	int64_t total = 1;
	for (int i = 1; i < size; i++) total *= 9;
	for (int64_t x = 0; x < total; x++) {
		t[0] = sym[first];
		int64_t r = x;
		for (int i = 1; i < size; i++, r /= 9) t[i] = sym[r % 9];
		// well formed: symbols, then padding up to a multiple of four or none
		int syms = 0;
		while (syms < size && t[syms] && strchr(url ? url64 : std64, t[syms])) syms++;
		int pad = 0;
		while (syms + pad < size && t[syms + pad] == '=') pad++;
		bool whole = syms + pad == size, padded = (syms + pad) % 4 == 0 && pad <= 2 && (! pad || ! url);
		Buf buf;
		bool ok = call_decode(&buf, t, size, url);
		if (! whole || syms % 4 == 1 || pad > 2 || (url && pad)) mc_check(! ok, "base64-invalid", "base64 '%.*s' is accepted", size, t);
		else if (url || padded) {
			// unused bits have to be zero in the only right text of a value
			char again[16];
			mc_check(buf_size(&buf) - 2 == syms * 3 / 4 || ! ok, "base64-size", "base64 '%.*s' is decoded to %d bytes", size, t, buf_size(&buf) - 2);
			if (ok) {
				int k = h_encode(again, buf.start + 2, buf_size(&buf) - 2, url);
				mc_check(k == size && ! memcmp(again, t, syms - 1), "base64-value", "base64 '%.*s' is decoded as '%.*s'", size, t, k, again);
			}
			uint8_t raw[8] = { 0 };
			int got = 0;
			uint32_t acc = 0, bits = 0;
			for (int i = 0; i < syms; i++) {
				acc = acc << 6 | (uint32_t)(strchr(url ? url64 : std64, t[i]) - (url ? url64 : std64));
				bits += 6;
				if (bits >= 8) { bits -= 8; raw[got++] = acc >> bits; acc &= (1 << bits) - 1; }
			}
			if (acc == 0) mc_check(ok && ! memcmp(raw, buf.start + 2, got), "base64-valid", "base64 '%.*s' is rejected or read wrong", size, t);
		}
		buf_free(&buf);
	}
	mc_cases(total);
	mc_step(total);
}

// names of fields: only the known ones, in a block of their size
static void
s_field_names(void)
{
	static const char* known[] = { "year", "month", "day", "hour", "hr", "minute", "min", "second", "sec", "millisecond", "milliseconds", "ms", "microsecond", "microseconds", "us" };
	int k = mc_choose(15), fn = mc_choose(5);
	if (! mc_split()) return;
	mc_nontrivial();
	mc_log("%s for %d", known[k], fn);
	int size = strlen(known[k]), n = 0;
	for (int cut = 0; cut <= size + 1; cut++)
		for (int c = -1; c < 256; c++) {
			char t[32];
			memcpy(t, known[k], size);
			t[size] = 's';
			if (c >= 0) { if (! cut) break; t[cut - 1] = c; }
			bool valid = false;
			for (int i = 0; i < (fn == 0 ? 3 : 15); i++) if (h_is(t, cut, known[fn || i < 3 ? i : 0])) valid = true;
			Str s = h_text(t, cut);
			Interval iv = { 1, 2, 3 };
			Timestamp ts;
			timestamp_init(&ts);
			bool fail = error_catch(
				switch (fn) {
				case 0: date_extract(2400000, &s); break;
				case 1: timestamp_extract(12345678, utc_zone, &s); break;
				case 2: timestamp_trunc(&ts, &s); break;
				case 3: interval_extract(&iv, &s); break;
				case 4: interval_trunc(&iv, &s); break;
				}
			);
			h_drop(&s);
			mc_check(fail == ! valid, valid ? "field-valid" : "field-invalid", "field '%.*s' is %s", cut, t, fail ? "rejected" : "accepted");
			n++;
		}
	mc_cases(n);
	mc_step(n);
}

static void
t_zone_utc(void)
{
	int64_t at[1];
	int type[1], off[1] = { 0 };
	utc_zone = h_zone(0, at, type, 1, off);
}

void am_setup(void) { t_zone_utc(); }

McScenario mc_scenarios[] = {
	{ "dates", s_dates, 0 },
	{ "date-fields", s_date_fields, 0 },
	{ "damage", s_damage, 0 },
	{ "timestamps", s_stamps, 0 },
	{ "timestamp-fields", s_stamp_fields, 0 },
	{ "arithmetic", s_arith, 0 },
	{ "zones", s_zones, 0 },
	{ "intervals", s_intervals, 0 },
	{ "interval-texts", s_interval_texts, 0 },
	{ "field-names", s_field_names, 0 },
	{ "uuids", s_uuids, 0 },
	{ "base64", s_base64, 0 },
	{ "base64-texts", s_base64_texts, 0 },
	{ NULL, NULL, 0 },
};
