/* Logging, byte order, directories, sleeping and thread names. */
#include "vh.h"
#include <aerospike/as_dir.h>
#include <aerospike/as_log_macros.h>
#include <aerospike/as_sleep.h>
#include <aerospike/as_thread.h>
#include <citrusleaf/cf_byte_order.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#define IS(s) (! strcmp(w, s))

/* ---------------------------------------------------------------- logging */
static char got[4096];
static int ngot;

static void
receive(int who, as_log_level level, const char* func, const char* file, uint32_t line, const char* fmt, va_list ap)
{
	char m[300];
	vsnprintf(m, sizeof(m), fmt, ap);
	const char* base = strrchr(file, '/');
	if (strcmp(base ? base + 1 : file, "small.c")) WRONG("wrong file name\n");
	sprintf(got + strlen(got), "%s{\"c\":%d,\"l\":%d,\"m\":\"%s\",\"line\":%d,\"func\":\"%s\"}", ngot++ ? "," : "", who, (int)level, m, (int)line, func);
}

static bool first(as_log_level l, const char* fn, const char* fl, uint32_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); receive(1, l, fn, fl, n, fmt, ap); va_end(ap); return true; }
static bool second(as_log_level l, const char* fn, const char* fl, uint32_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); receive(2, l, fn, fl, n, fmt, ap); va_end(ap); return false; }

static int
say(int level, int kind, int a, const char* b)
{
	int line = 0;
#define SAY(f, ...) line = __LINE__; f(__VA_ARGS__)
#define KINDS(f) \
	if (kind == 0) { SAY(f, "plain"); } \
	else if (kind == 1) { SAY(f, "%d", a); } \
	else if (kind == 2) { SAY(f, "%s and %d", b, a); } \
	else { SAY(f, "%s-%s-%d-%llu", b, b, a, 123456789012ULL); }
	switch (level) {
	case 0: KINDS(as_log_error) break;
	case 1: KINDS(as_log_warn) break;
	case 2: KINDS(as_log_info) break;
	case 3: KINDS(as_log_debug) break;
	default: KINDS(as_log_trace) break;
	}
	return line;
}

static void
log_op(const char* w)
{
	int n = w[1] - '0';
	if (w[0] == 'L') { as_log_set_level((as_log_level)n); ev("{\"o\":\"level\",\"l\":%d}", n); }
	else if (w[0] == 'T') { as_log_set_callback(n == 0 ? NULL : n == 1 ? first : second); ev("{\"o\":\"to\",\"c\":%d}", n); }
	else {
		int kind = (int)vh_below(4), a = (int)vh_below(2000) - 1000;
		const char* b = vh_chance(50) ? "abc" : "";
		char m[300];
		if (kind == 0) strcpy(m, "plain");
		else if (kind == 1) sprintf(m, "%d", a);
		else if (kind == 2) sprintf(m, "%s and %d", b, a);
		else sprintf(m, "%s-%s-%d-%llu", b, b, a, 123456789012ULL);
		got[0] = 0;
		ngot = 0;
		int line = say(n, kind, a, b);
		ev("{\"o\":\"log\",\"l\":%d,\"m\":\"%s\",\"line\":%d,\"got\":[%s]}", n, m, line, got);
	}
	bool on[5] = { as_log_error_enabled(), as_log_warn_enabled(), as_log_info_enabled(), as_log_debug_enabled(), as_log_trace_enabled() };
#define TF(b) ((b) ? "true" : "false")
	ev("{\"o\":\"on\",\"r\":[%s,%s,%s,%s,%s]}", TF(on[0]), TF(on[1]), TF(on[2]), TF(on[3]), TF(on[4]));
}

static void
logging(FILE* in)
{
	char line[400];
	as_log fresh = g_as_log;
	while (fgets(line, sizeof(line), in)) {
		g_as_log = fresh;
		ev("{\"o\":\"init\",\"level\":%d,\"to\":%d}", (int)g_as_log.level, g_as_log.callback != NULL);
		for (char* w = strtok(line, " \n"); w; w = strtok(NULL, " \n")) log_op(w);
		for (int k = 0; k < 5; k++) ev("{\"o\":\"name\",\"l\":%d,\"r\":\"%s\"}", k, as_log_level_tostring((as_log_level)k));
	}
}

/* ------------------------------------------------------------- byte order */
static void
raw(const char* key, const void* p, int n)
{
	evp(",\"%s\":[", key);
	for (int k = 0; k < n; k++) evp("%s%d", k ? "," : "", ((const uint8_t*)p)[k]);
	evp("]");
}

static void
val(const char* key, uint64_t v, int n)
{
	evp(",\"%s\":[", key);
	for (int k = n - 1; k >= 0; k--) evp("%s%d", k < n - 1 ? "," : "", (int)((v >> (8 * k)) & 255));
	evp("]");
}

static void
orders(uint64_t n, int w)
{
#define ORDER(o, C, TO, FROM) { \
		C v = (C)n, t = TO(v), m, f; \
		uint8_t b[8]; \
		for (int k = 0; k < w; k++) b[k] = (uint8_t)(n >> (8 * (w - 1 - k))); \
		memcpy(&m, b, (size_t)w); \
		f = FROM(m); \
		evp("{\"order\":\"" o "\""); \
		val("n", n, w); raw("to", &t, w); raw("m", b, w); val("from", f, w); val("back", FROM(t), w); \
		ev("}"); }
#define REAL(o, TO, FROM) { \
		double v, t, m, f, r; \
		uint64_t x; \
		uint8_t b[8]; \
		memcpy(&v, &n, 8); \
		t = TO(v); \
		for (int k = 0; k < 8; k++) b[k] = (uint8_t)(n >> (8 * (7 - k))); \
		memcpy(&m, b, 8); \
		f = FROM(m); \
		r = FROM(t); \
		evp("{\"order\":\"" o "\""); \
		val("n", n, 8); raw("to", &t, 8); raw("m", b, 8); memcpy(&x, &f, 8); val("from", x, 8); memcpy(&x, &r, 8); val("back", x, 8); \
		ev("}"); }
	if (w == 2) { ORDER("be", uint16_t, cf_swap_to_be16, cf_swap_from_be16) ORDER("le", uint16_t, cf_swap_to_le16, cf_swap_from_le16) }
	else if (w == 4) { ORDER("be", uint32_t, cf_swap_to_be32, cf_swap_from_be32) ORDER("le", uint32_t, cf_swap_to_le32, cf_swap_from_le32) }
	else {
		ORDER("be", uint64_t, cf_swap_to_be64, cf_swap_from_be64) ORDER("le", uint64_t, cf_swap_to_le64, cf_swap_from_le64)
		REAL("be", cf_swap_to_big_float64, cf_swap_from_big_float64) REAL("le", cf_swap_to_little_float64, cf_swap_from_little_float64)
	}
}

/* ------------------------------------------------------------ directories */
static int
descriptors(void)
{
	int n = 0;
	for (int k = 0; k < 200; k++) if (fcntl(k, F_GETFD) != -1) n++;
	return n;
}

static char base[400];
static const char* at(const char* n) { static char p[700]; snprintf(p, sizeof(p), "%s/%s", base, n); return p; }

static void
directory(FILE* in)
{
	static char line[400];
	while (fgets(line, sizeof(line), in)) {
		as_dir d[2];
		bool open[2] = { false, false }, made[26] = { false };
		int before = descriptors();
		ev("{\"o\":\"init\"}");
		for (char* w = strtok(line, " \n"); w; w = strtok(NULL, " \n")) {
			const char* n = w[0] == 'o' || w[0] == 'r' || w[0] == 'c' ? w + 2 : w + 1;
			int k = w[1] - '1';
			if (w[0] == 'f') { int fd = open64(at(n), O_CREAT | O_WRONLY, 0600); if (fd < 0) exit(3); close(fd); made[*n - 'a'] = true; ev("{\"o\":\"file\",\"n\":\"%s\"}", n); }
			else if (w[0] == 'd') { if (mkdir(at(n), 0700)) exit(3); made[*n - 'a'] = true; ev("{\"o\":\"dir\",\"n\":\"%s\"}", n); }
			else if (w[0] == 'g') { if (remove(at(n))) exit(3); made[*n - 'a'] = false; ev("{\"o\":\"gone\",\"n\":\"%s\"}", n); }
			else if (w[0] == 'z') {
				/* removed, and then reached once more through a descriptor: whether
				 * it counts as existing is left open, but it is empty and nothing
				 * stays open */
				char path[64];
				as_dir g;
				int fd = open64(at(n), O_RDONLY | O_DIRECTORY), most = 10;
				if (fd < 0 || remove(at(n))) exit(3);
				made[*n - 'a'] = false;
				ev("{\"o\":\"gone\",\"n\":\"%s\"}", n);
				snprintf(path, sizeof(path), "/proc/self/fd/%d", fd);
				as_dir_exists(path);
				if (as_dir_open(&g, path)) {
					const char* e;
					while (most-- && (e = as_dir_read(&g))) if (strcmp(e, ".") && strcmp(e, "..")) { fprintf(stderr, "FAULT: a name in a removed directory\n"); exit(98); }
					as_dir_close(&g);
				}
				close(fd);
			}
			else if (w[0] == 'e') { bool r = as_dir_exists(at(n)); ev("{\"o\":\"exists\",\"n\":\"%s\",\"r\":%s}", n, TF(r)); }
			else if (w[0] == 'o') { open[k] = as_dir_open(&d[k], at(n)); ev("{\"o\":\"open\",\"n\":\"%s\",\"h\":%d,\"r\":%s}", n, k + 1, TF(open[k])); }
			else if (w[0] == 'r') {
				const char* e = as_dir_read(&d[k]);
				if (e) ev("{\"o\":\"name\",\"h\":%d,\"n\":\"%s\"}", k + 1, e); else ev("{\"o\":\"end\",\"h\":%d}", k + 1);
			}
			else { as_dir_close(&d[k]); open[k] = false; ev("{\"o\":\"close\",\"h\":%d}", k + 1); }
		}
		for (int k = 0; k < 2; k++) if (open[k]) {
			const char* e;
			int most = 60;
			while (most-- && (e = as_dir_read(&d[k]))) ev("{\"o\":\"name\",\"h\":%d,\"n\":\"%s\"}", k + 1, e);
			ev("{\"o\":\"end\",\"h\":%d}", k + 1);
			e = as_dir_read(&d[k]);
			if (e) ev("{\"o\":\"name\",\"h\":%d,\"n\":\"%s\"}", k + 1, e);
			as_dir_close(&d[k]);
			ev("{\"o\":\"close\",\"h\":%d}", k + 1);
		}
		for (int k = 0; k < 26; k++) if (made[k]) { char n[2] = { (char)('a' + k), 0 }; if (remove(at(n))) exit(3); }
		ev("{\"o\":\"fds\",\"r\":%d}", descriptors() - before);
	}
}

/* ----------------------------------------------------------------- helpers */
static uint64_t slept_s, slept_ns;
static void slept(uint64_t s, uint64_t ns) { slept_s += s + (slept_ns + ns) / 1000000000; slept_ns = (slept_ns + ns) % 1000000000; }

int __wrap_usleep(useconds_t us) { slept(us / 1000000, us % 1000000 * 1000ULL); return 0; }
unsigned __wrap_sleep(unsigned s) { slept(s, 0); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; slept((uint64_t)a->tv_sec, (uint64_t)a->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { (void)k; (void)b; if (f) exit(3); slept((uint64_t)a->tv_sec, (uint64_t)a->tv_nsec); return 0; }

static void
asleep(uint32_t ms)
{
	slept_s = slept_ns = 0;
	switch (vh_below(3)) {
	case 0: as_sleep(ms); break;
	case 1: as_sleep((int)ms); break;
	default: as_sleep(ms / 2 + ms - ms / 2); break;
	}
	ev("{\"o\":\"sleep\",\"ms\":%u,\"r\":[%d,%d,%d]}", ms, (int)slept_s, (int)(slept_ns / 1000000), (int)(slept_ns % 1000000));
}

static struct { char name[40]; int index; char was[40]; pthread_t main; } N;

static void*
named(void* u)
{
	char mine[40] = "", other[40] = "", want[60];
	if (N.index < 0) { as_thread_set_name(N.name); strcpy(want, N.name); }
	else { as_thread_set_name_index(N.name, (uint32_t)N.index); sprintf(want, "%s%d", N.name, N.index); }
	pthread_getname_np(pthread_self(), mine, sizeof(mine));
	pthread_getname_np(N.main, other, sizeof(other));
	ev("{\"o\":\"name\",\"want\":\"%s\",\"r\":\"%s\",\"was\":\"%s\",\"other\":\"%s\"}", want, mine, N.was, other);
	return u;
}

int
main(int argc, char** argv)
{
	/* small MODE SEED ARG OUT */
	if (argc < 5) return 3;
	const char* w = argv[1];
	vh_seed((uint64_t)atoll(argv[2]));
	vh_open(argv[argc - 1]);
	if (IS("log") || IS("dir")) {
		FILE* in = fopen(argv[3], "r");
		if (! in) return 3;
		if (IS("dir")) {
			snprintf(base, sizeof(base), "%s.XXXXXX", argv[argc - 1]);
			if (! mkdtemp(base)) return 3;
			directory(in);
			rmdir(base);
		}
		else logging(in);
	}
	else if (IS("order")) {
		FILE* in = fopen(argv[3], "r");
		if (! in) return 3;
		int width;
		unsigned long long n;
		while (fscanf(in, "%d %llu", &width, &n) == 2) orders(n, width);
		for (int k = 0; k < 3000; k++) orders(vh_next(), 8);
		for (int k = 0; k < 1000; k++) orders((uint32_t)vh_next(), 4);
		if (vh_s & 1) for (int k = 0; k < 65536; k += 7) orders((uint64_t)k, 2);
	}
	else if (IS("help")) {
		int n = atoi(argv[3]);
		static const uint32_t edge[] = { 0, 1, 2, 999, 1000, 1001, 59999, 60000, 2147482, 2147483, 2147484, 3600000, 4294966, 4294967, 4294968, 7200000, 86400000, 1000000000, 2147483647 };
		for (size_t k = 0; k < sizeof(edge) / sizeof(*edge); k++) for (int j = 0; j < 4; j++) asleep(edge[k]);
		for (int k = 0; k < n; k++) asleep((uint32_t)vh_next() >> (1 + vh_below(20)));
		N.main = pthread_self();
		pthread_getname_np(N.main, N.was, sizeof(N.was));
		for (int k = 0; k < n; k++) {
			int len = 1 + (int)vh_below(16), j;
			bool index = vh_chance(60);
			if (len > 15) len = 15;
			for (j = 0; j < len; j++) N.name[j] = (char)('a' + vh_below(26));
			N.name[j] = 0;
			N.index = index ? (int)(vh_next() & 0x7fffffff) >> vh_below(31) : -1;
			pthread_t t;
			if (pthread_create(&t, NULL, named, NULL)) return 3;
			pthread_join(t, NULL);
		}
	}
	else return 3;
	vh_close();
	return 0;
}
