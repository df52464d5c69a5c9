/* Concurrent programs on the two thread-safe queues, under every explored
 * schedule. Input: one program per line,
 *   KIND CAP FILL ITEMSIZE START|thread|thread...
 * with calls  name:item:argument  separated by blanks. */
#include "explore.h"
#include <aerospike/as_queue_mt.h>
#include <citrusleaf/cf_queue.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)
#define MAXOPS 64
#define MAXTH 6

typedef struct { char f[8]; int x, a; } op;
static struct { int kind, cap, fill, isz; long start; int nth; int n[MAXTH]; op ops[MAXTH][MAXOPS]; } P;

static as_queue_mt* aq;
static cf_queue* cq;

/* an item is its number followed by bytes that depend on it */
static DRV void
put(uint8_t* b, int x)
{
	for (int k = 0; k < P.isz; k++) b[k] = (uint8_t)(x * 7 + k * 3);
	b[0] = (uint8_t)x;
}

static DRV int
get(const uint8_t* b)
{
	int x = b[0];
	for (int k = 1; k < P.isz; k++) if (b[k] != (uint8_t)(x * 7 + k * 3)) return -9;
	return x;
}

static DRV int
judge(void* buf, void* u)
{
	ON;
	int* s = u;
	int x = get(buf);
	if (s[1] < 40) s[2 + s[1]++] = x;
	int r = x == s[0] ? (s[50] ? -1 : -2) : 0;
	OFF;
	return r;
}

static DRV void
call(int t, op* o)
{
	uint8_t in[64], outb[64];
	int see[51] = {0};
	int r = 0, v = 0;
	bool gives = false, shows = false;
	ON;
	put(in, o->x);
	memset(outb, 0xee, sizeof(outb));
	see[0] = o->x;
	sched_ev("{\"o\":\"call\",\"t\":%d,\"f\":\"%s\",\"x\":%d,\"a\":%d,\"now\":%ld}", t, o->f, o->x, o->a,
			(long)((sched_now() - P.start) / 1000000));
	OFF;
#define IS(s) (strcmp(o->f, s) == 0)
	if (P.kind == 0) {
		if (IS("push")) r = as_queue_mt_push(aq, in);
		else if (IS("pushh")) r = as_queue_mt_push_head(aq, in);
		else if (IS("pushl")) r = as_queue_mt_push_limit(aq, in);
		else if (IS("pushhl")) r = as_queue_mt_push_head_limit(aq, in);
		else if (IS("pop")) { r = as_queue_mt_pop(aq, outb, o->a); gives = r; }
		else if (IS("popt")) { r = as_queue_mt_pop_tail(aq, outb, o->a); gives = r; }
		else if (IS("size")) r = (int)as_queue_mt_size(aq);
		else if (IS("empty")) r = as_queue_mt_empty(aq);
		else _exit(3);
	}
	else {
		if (IS("push")) r = cf_queue_push(cq, in);
		else if (IS("pushh")) r = cf_queue_push_head(cq, in);
		else if (IS("pushl")) r = cf_queue_push_limit(cq, in, (uint32_t)o->a);
		else if (IS("pushi")) r = cf_queue_push_index(cq, in, (uint32_t)o->a);
		else if (IS("pushu")) r = cf_queue_push_unique(cq, in);
		else if (IS("peek")) { r = cf_queue_peek(cq, outb); gives = r == 0; }
		else if (IS("pop")) { r = cf_queue_pop(cq, outb, o->a); gives = r == 0; }
		else if (IS("redp")) { see[50] = 1; r = cf_queue_reduce_pop(cq, outb, o->a, judge, see); gives = r == 0; shows = true; }
		else if (IS("red")) { r = cf_queue_reduce(cq, judge, see); shows = true; }
		else if (IS("redr")) { r = cf_queue_reduce_reverse(cq, judge, see); shows = true; }
		else if (IS("del1")) r = cf_queue_delete(cq, in, true);
		else if (IS("dela")) r = cf_queue_delete(cq, in, false);
		else if (IS("clear")) r = cf_queue_delete_all(cq);
		else if (IS("size")) r = (int)cf_queue_sz(cq);
		else _exit(3);
	}
	ON;
	if (gives) v = get(outb);
	else for (int k = 0; k < P.isz; k++) if (outb[k] != 0xee) v = -8;
	for (int k = P.isz; k < 64; k++) if (outb[k] != 0xee) v = -7;
	sched_evp("{\"o\":\"ret\",\"t\":%d,\"r\":%d,\"v\":%d,\"now\":%ld,\"see\":[", t, r, v, (long)((sched_now() - P.start) / 1000000));
	if (shows) for (int k = 0; k < see[1]; k++) sched_evp("%s%d", k ? "," : "", see[2 + k]);
	sched_ev("]}");
	OFF;
}

static DRV void
worker(void* u)
{
	int t = (int)(intptr_t)u;
	for (int k = 0; k < P.n[t]; k++) call(t + 1, &P.ops[t][k]);
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	sched_set_now(P.start);
	if (P.kind == 0) {
		if (P.cap % 2) aq = as_queue_mt_create((uint32_t)P.isz, (uint32_t)P.cap);
		else if ((P.fill + P.isz) % 2) { aq = malloc(sizeof(as_queue_mt)); as_queue_mt_inita(aq, (uint32_t)P.isz, (uint32_t)P.cap); }
		else { aq = malloc(sizeof(as_queue_mt)); as_queue_mt_init(aq, (uint32_t)P.isz, (uint32_t)P.cap); }
	}
	else {
		cq = malloc(sizeof(cf_queue));
		cf_queue_init(cq, (size_t)P.isz, (uint32_t)P.cap, true);
	}
	for (int k = 1; k <= P.fill; k++) {
		uint8_t in[64];
		put(in, k);
		if (P.kind == 0) as_queue_mt_push(aq, in); else cf_queue_push(cq, in);
	}
	for (int t = 0; t < P.nth; t++) sched_spawn(worker, (void*)(intptr_t)t);
	OFF;
	sched_join_all();
	ON;
	sched_evp("{\"o\":\"end\",\"b\":[");
	int n = 0;
	for (int t = 1; t < sched_threads(); t++) if (sched_blocked(t)) sched_evp("%s%d", n++ ? "," : "", t);
	sched_ev("]}");
	if (n == 0) {
		/* what is left, and nothing leaks */
		uint8_t b[64];
		sched_evp("{\"o\":\"left\",\"q\":[");
		for (int k = 0; k < 200 && (P.kind == 0 ? as_queue_mt_pop(aq, b, 0) : cf_queue_pop(cq, b, 0) == 0); k++)
			sched_evp("%s%d", k ? "," : "", get(b));
		sched_ev("]}");
		if (P.kind == 0) { bool own = P.cap % 2 == 0; as_queue_mt* q = aq; as_queue_mt_destroy(aq); if (own) free(q); }
		else { cf_queue_destroy(cq); free(cq); }
		sched_leaks();
	}
	OFF;
}

int
main(int argc, char** argv)
{
	/* cqueue IN PREEMPT MAXRUNS RANDOM EXTRA SEED OUT */
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	static char line[8192];
	while (fgets(line, sizeof(line), f)) {
		memset(&P, 0, sizeof(P));
		char* s = strchr(line, '|');
		if (! s || sscanf(line, "%d %d %d %d %ld", &P.kind, &P.cap, &P.fill, &P.isz, &P.start) != 5) return 3;
		while (s) {
			char* e = strchr(s + 1, '|');
			if (e) *e = 0;
			int t = P.nth++;
			for (char* w = strtok(s + 1, " \n"); w; w = strtok(NULL, " \n")) {
				op* o = &P.ops[t][P.n[t]++];
				if (sscanf(w, "%7[a-z0-9]:%d:%d", o->f, &o->x, &o->a) != 3) return 3;
			}
			s = e;
		}
		char head[256];
		snprintf(head, sizeof(head), "{\"o\":\"init\",\"k\":%d,\"c\":%d,\"fill\":%d,\"n\":%d}\n", P.kind, P.cap, P.fill, P.nth);
		sched_explore(head, body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
