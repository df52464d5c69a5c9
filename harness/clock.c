/* The clock helpers at instants of our choosing (clock calls are replaced). */
#include <citrusleaf/cf_clock.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

static struct timespec now;

/* the clock the call is to read shows the given instant, the other does not */
static int uptime;

static struct timespec
shown(int up)
{
	struct timespec t = now;
	if (up != uptime) { t.tv_sec += 12345; t.tv_nsec = 999999999 - t.tv_nsec; }
	return t;
}

int
__wrap_clock_gettime(clockid_t k, struct timespec* ts)
{
	*ts = shown(k != CLOCK_REALTIME && k != CLOCK_REALTIME_COARSE);
	return 0;
}

int __wrap_gettimeofday(struct timeval* tv, void* z) { (void)z; struct timespec t = shown(0); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t* t) { time_t s = shown(0).tv_sec; if (t) *t = s; return s; }

static FILE* out;

static void
num(const char* key, uint64_t v)
{
	fprintf(out, ",\"%s\":[", key);
	for (int k = 0; v; k++, v /= 1000) fprintf(out, "%s%d", k ? "," : "", (int)(v % 1000));
	fprintf(out, "]");
}

static void
one(const char* f, uint64_t s, uint64_t n, uint64_t x, uint64_t y)
{
	now.tv_sec = (time_t)s;
	now.tv_nsec = (long)n;
	struct timespec ts = {-1, -1}, d = {(time_t)x, (long)y};
	uint64_t r = 0, q = 0;
	int two = 0;
#define IS(t) (strcmp(f, t) == 0)
	uptime = IS("getns") || IS("getus") || IS("getms") || IS("secs");
	if (IS("wait")) { cf_set_wait_timespec((int)x, &ts); two = 1; }
	else if (IS("after")) { cf_clock_current_add(&d, &ts); two = 1; }
	else if (IS("span")) { cf_clock_set_timespec_ms((int)x, &ts); two = 1; }
	else if (IS("getns")) r = cf_getns();
	else if (IS("getus")) r = cf_getus();
	else if (IS("getms")) r = cf_getms();
	else if (IS("secs")) r = cf_get_seconds();
	else if (IS("abs")) r = cf_clock_getabsolute();
	else if (IS("cems")) r = cf_clepoch_milliseconds();
	else if (IS("cesec")) r = cf_secs_since_clepoch();
	else if (IS("ce32")) r = cf_clepoch_seconds();
	else if (IS("ens")) r = cf_clepoch_ns_from_utc_ns(x);
	else if (IS("eus")) r = cf_clepoch_us_from_utc_ns(x);
	else if (IS("ems")) r = cf_clepoch_ms_from_utc_ns(x);
	else if (IS("esec")) r = cf_clepoch_sec_from_utc_ns(x);
	else if (IS("uns")) r = cf_utc_ns_from_clepoch_ns(x);
	else if (IS("uus")) r = cf_utc_ns_from_clepoch_us(x);
	else if (IS("ums")) r = cf_utc_ns_from_clepoch_ms(x);
	else if (IS("usec")) r = cf_utc_ns_from_clepoch_sec(x);
	else if (IS("ttl")) r = cf_server_void_time_to_ttl((uint32_t)x);
	else exit(3);
	if (two) { r = (uint64_t)ts.tv_sec; q = (uint64_t)ts.tv_nsec; }
	fprintf(out, "{\"f\":\"%s\"", f);
	num("s", s); num("n", n); num("x", x); num("y", y); num("r", r); num("q", q);
	fprintf(out, "}\n");
}

static uint64_t st;
static uint64_t
rnd(void)
{
	uint64_t z = (st += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

int
main(int argc, char** argv)
{
	if (argc < 4) return 3;
	out = fopen(argv[argc - 1], "w");
	if (! out) return 3;
	if (strcmp(argv[1], "script") == 0) {
		FILE* in = fopen(argv[2], "r");
		char f[16];
		uint64_t s, n, x, y;
		while (fscanf(in, "%15s %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64, f, &s, &n, &x, &y) == 5) one(f, s, n, x, y);
		fclose(in);
	}
	else {
		static const char* fs[] = {"wait", "wait", "wait", "after", "after", "span", "getns", "getus", "getms", "secs", "abs", "cems",
			"cesec", "ce32", "ens", "eus", "ems", "esec", "uns", "uus", "ums", "usec", "ttl", "ttl", "ttl"};
		st = strtoull(argv[2], NULL, 10);
		int N = atoi(argv[3]);
		for (int k = 0; k < N; k++) {
			const char* f = fs[rnd() % 25];
			uint64_t s = CITRUSLEAF_EPOCH + rnd() % (rnd() % 4 ? 1000000000ULL : 4294967296ULL), n = rnd() % 1000000000, x = 0, y = 0;
			if (IS("wait") || IS("span")) {
				x = rnd() % (rnd() % 2 ? 5000 : 2147483648ULL);
				if (rnd() % 3 == 0) n = (2000000000ULL - x % 1000 * 1000000 + rnd() % 3 - 1) % 1000000000;
			}
			else if (IS("after")) { x = rnd() % 100000; y = rnd() % 1000000000; if (rnd() % 2) y = (1000000000 - n + rnd() % 3) % 1000000000; }
			else if (f[0] == 'e') x = rnd() % 2 ? CITRUSLEAF_EPOCH_NS - 3 + rnd() % 6 : rnd() % 9000000000000000000ULL;
			else if (IS("uns")) x = rnd() % 9000000000000000000ULL;
			else if (IS("uus")) x = rnd() % 9000000000000000ULL;
			else if (IS("ums")) x = rnd() % 9000000000000ULL;
			else if (IS("usec")) x = rnd() % 9000000000ULL;
			else if (IS("ttl")) x = rnd() % 2 ? (s - CITRUSLEAF_EPOCH - 2 + rnd() % 5) & 0xffffffff : rnd() % 4294967296ULL;
			one(f, s, n, x, y);
		}
	}
	fclose(out);
	return 0;
}
