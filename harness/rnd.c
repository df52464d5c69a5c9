/* Requests for random material under every explored schedule. The source is a
 * stand-in whose bytes tell their position: every run is made three times, each
 * time with another byte of the position.
 * Input line: FAILMASK|calls|calls, a call is b:LEN, q:0 (64 bit), w:0 (32 bit);
 * bit k of the mask makes the k-th use of the source fail. */
#include "explore.h"
#include <citrusleaf/cf_random.h>
#include <unistd.h>
#include <fcntl.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)
#define MAXTH 6
#define BUF 9216
#define GUARD 0xe7

typedef struct { char f; int n; } op;
static struct { unsigned fail; int nth; int n[MAXTH]; op ops[MAXTH][24]; } P;
static uint8_t seen[2][MAXTH][24][BUF + 16];
static unsigned made, uses;

#define FAST __attribute__((no_sanitize("thread"), optimize("O2")))
static FAST uint8_t
part(unsigned p)
{
	return (uint8_t)(p >> (8 * sched_pass()));
}

static volatile int mid;
static void step(void) { mid++; }

/* the source gives n bytes, or fails having written some of them */
static FAST int
source(uint8_t* b, size_t n)
{
	int no = (P.fail >> (uses++ & 31)) & 1;
	unsigned p = made;
	ON;
	if (! no) made += (unsigned)n;
	sched_ev("{\"o\":\"src\",\"t\":%d,\"n\":%d,\"ok\":%d}", sched_self(), no ? 0 : (int)n, ! no);
	OFF;
	if (no) return 0;
	for (size_t k = 0; k < n; k++) {
		if (k == n / 2) step();
		b[k] = part(p + (unsigned)k);
	}
	return 1;
}

DRV int __wrap_RAND_bytes(unsigned char* b, int n) { return source(b, (size_t)n); }
DRV int __wrap_RAND_priv_bytes(unsigned char* b, int n) { return source(b, (size_t)n); }
DRV void __wrap_RAND_seed(const void* b, int n) { (void)b; (void)n; }
DRV void __wrap_RAND_add(const void* b, int n, double e) { (void)b; (void)n; (void)e; }
DRV int __wrap_RAND_poll(void) { return 1; }
DRV int __wrap_RAND_status(void) { return 1; }
DRV ssize_t __wrap_getrandom(void* b, size_t n, unsigned fl) { (void)fl; return source(b, n) ? (ssize_t)n : -1; }
DRV int __wrap_getentropy(void* b, size_t n) { return source(b, n) ? 0 : -1; }

static int opened;
DRV int
__wrap_open(const char* path, int fl, ...)
{
	(void)fl;
	if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) sched_fault("%s opened", path);
	int no = (P.fail >> (uses++ & 31)) & 1;
	ON;
	sched_ev("{\"o\":\"src\",\"t\":%d,\"n\":0,\"ok\":%d}", sched_self(), ! no);
	OFF;
	if (no) return -1;
	opened++;
	return 900;
}
DRV int __wrap_open64(const char* path, int fl, ...) { return __wrap_open(path, fl); }
DRV ssize_t
__wrap_read(int fd, void* b, size_t n)
{
	if (fd != 900) sched_fault("read of another file");
	if (source(b, n)) return (ssize_t)n;
	/* a failing read delivers a part or nothing */
	for (size_t k = 0; k < n / 2; k++) ((uint8_t*)b)[k] = part(0);
	return (P.fail & 1) ? -1 : (ssize_t)(n / 2);
}
DRV int
__wrap_close(int fd)
{
	if (fd != 900) sched_fault("close of another file");
	opened--;
	return 0;
}

static FAST int
cmp(const void* a, const void* b)
{
	return *(const int*)a - *(const int*)b;
}

static FAST void
call(int t, int k)
{
	op* o = &P.ops[t][k];
	uint8_t* b;
	int n = o->f == 'b' ? o->n : o->f == 'q' ? 8 : 4;
	long r = 0;
	ON;
	b = malloc(BUF + 16);
	memset(b, GUARD, BUF + 16);
	sched_ev("{\"o\":\"call\",\"t\":%d,\"f\":\"%c\",\"n\":%d}", t + 1, o->f, n);
	OFF;
	if (o->f == 'b') r = cf_get_rand_buf(b, o->n);
	else if (o->f == 'q') { uint64_t v = cf_get_rand64(); ON; memcpy(b, &v, 8); OFF; }
	else { uint32_t v = cf_get_rand32(); ON; memcpy(b, &v, 4); OFF; }
	ON;
	if (sched_pass() < 2) {
		memcpy(seen[sched_pass()][t][k], b, BUF + 16);
		sched_ev("{\"o\":\"ret\"}");
	}
	else {
		int len = n < 0 ? 0 : n > BUF ? BUF : n, m = 0, clean = 1, zero = 1, up = 1;
		static int at[BUF];
		uint8_t *s0 = seen[0][t][k], *s1 = seen[1][t][k];
		for (int j = 0; j < BUF + 16; j++) {
			bool kept = b[j] == GUARD && s0[j] == GUARD && s1[j] == GUARD;
			if (j >= len && ! kept) sched_fault("memory outside the target was written");
			if (j < len) {
				at[m++] = s0[j] | s1[j] << 8 | b[j] << 16;
				clean &= kept;
				zero &= at[j] == 0;
				up &= j == 0 || at[j] > at[j - 1];
			}
		}
		if (! up) qsort(at, (size_t)m, sizeof(int), cmp);
		sched_evp("{\"o\":\"ret\",\"t\":%d,\"r\":%ld,\"clean\":%d,\"zero\":%d,\"runs\":[", t + 1, r, clean, zero);
		int runs = 0;
		for (int j = 0; j < m && (! clean && ! zero) && runs < 40; runs++) {
			int e = j + 1;
			while (e < m && at[e] == at[e - 1] + 1) e++;
			sched_evp("%s[%d,%d]", runs ? "," : "", at[j], e - j);
			j = e;
		}
		sched_ev("]}");
	}
	free(b);
	OFF;
}

static DRV void
worker(void* u)
{
	int t = (int)(intptr_t)u;
	for (int k = 0; k < P.n[t]; k++) call(t, k);
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	made = 257;
	uses = 0;
	opened = 0;
	mid = 0;
	for (int t = 0; t < P.nth; t++) sched_spawn(worker, (void*)(intptr_t)t);
	OFF;
	sched_join_all();
	ON;
	if (opened) sched_fault("the source stays open");
	for (int t = 1; t < sched_threads(); t++) if (sched_blocked(t)) sched_fault("a request never returned");
	sched_ev("{\"o\":\"end\"}");
	OFF;
}

int
main(int argc, char** argv)
{
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	so.passes = 3;
	sched_open(argv[7]);
	static char line[4096];
	while (fgets(line, sizeof(line), f)) {
		memset(&P, 0, sizeof(P));
		if (sscanf(line, "%u", &P.fail) != 1) return 3;
		char* s = strchr(line, '|');
		while (s) {
			char* e = strchr(s + 1, '|');
			if (e) *e = 0;
			int t = P.nth++;
			for (char* w = strtok(s + 1, " \n"); w; w = strtok(NULL, " \n")) {
				op* o = &P.ops[t][P.n[t]++];
				if (sscanf(w, "%c:%d", &o->f, &o->n) != 2) return 3;
			}
			s = e;
		}
		sched_explore("{\"o\":\"init\"}\n", body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
