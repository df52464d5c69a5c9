/* Programs on a pool of buffers under every explored schedule. Input line:
 *   HEADER BUFFER FILL|thread|thread...
 * with calls name:argument; sizes are unsigned 32-bit. A give returns the
 * buffer the thread has held longest. */
#include "explore.h"
#include <aerospike/as_buffer_pool.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)
#define MAXTH 6
#define LIM(x) (unsigned)((x) >> 16), (unsigned)((x) & 0xffff)

typedef struct { char f[8]; uint32_t a; } op;
static struct { uint32_t h, b; int fill, nth; int n[MAXTH]; op ops[MAXTH][32]; } P;

static as_buffer_pool* pool;
static as_buffer_result held[MAXTH + 1][200];
static int nheld[MAXTH + 1];
static void* known[600];
static int nknown;
static int filling;
static int refuse[MAXTH + 2], failed[MAXTH + 2];

static DRV int
who(void)
{
	int t = sched_self();
	return t > MAXTH ? 0 : filling ? 1 : t;
}

static DRV void
on_free(void* p)
{
	for (int k = 0; k < nknown; k++) {
		if (known[k] == p) {
			known[k] = NULL;
			sched_ev("{\"o\":\"free\",\"t\":%d,\"b\":%d}", who(), sched_block_id(p));
			return;
		}
	}
}

static DRV int
fail_alloc(size_t n)
{
	int t = who();
	if (n > (1 << 20) || refuse[t]) { failed[t] = 1; return 1; }
	return 0;
}

/* the holder uses all of its buffer */
static void
touch(volatile uint8_t* p, size_t n)
{
	if (n == 0) return;
	p[0] = (uint8_t)n;
	p[n / 2] = 1;
	p[n - 1] = 2;
}

static DRV void
call(int t, op* o)
{
	int r;
	ON;
	bool give = strncmp(o->f, "give", 4) == 0;
	if (give && nheld[t] == 0) { OFF; return; }
	as_buffer_result b = { (void*)0x10, 0x5555 };
	int id = 0;
	if (give) {
		b = held[t][0];
		memmove(&held[t][0], &held[t][1], sizeof(held[t][0]) * (size_t)--nheld[t]);
		id = sched_block_id(b.data);
	}
	sched_ev("{\"o\":\"call\",\"t\":%d,\"f\":\"%s\",\"a\":[%u,%u],\"b\":%d,\"c\":[%u,%u]}", t, give && o->f[4] == 'f' ? "give" : strcmp(o->f, "takef") ? o->f : "take", LIM(o->a), id, LIM(b.capacity));
	failed[t] = 0;
	refuse[t] = o->f[4] == 'f';
	if (give) { OFF; touch(b.data, (size_t)P.h + b.capacity); ON; }
	OFF;
	if (! strncmp(o->f, "take", 4)) r = as_buffer_pool_pop(pool, o->a, &b);
	else if (! strcmp(o->f, "give") || ! strcmp(o->f, "givef")) r = as_buffer_pool_push(pool, b.data, b.capacity);
	else if (! strcmp(o->f, "givel")) r = as_buffer_pool_push_limit(pool, b.data, b.capacity, o->a);
	else if (! strcmp(o->f, "prune")) r = as_buffer_pool_drop_buffers(pool, (int)o->a);
	else _exit(3);
	ON;
	refuse[t] = 0;
	bool got = ! strncmp(o->f, "take", 4) && r >= 0;
	uint32_t have = 0;
	if (got) {
		if (! sched_live(b.data)) sched_fault("a buffer was handed out that is not allocated");
		id = sched_block_id(b.data);
		size_t bs = sched_block_size(b.data);
		have = bs < P.h ? 0 : (uint32_t)(bs - P.h);
		if (bs < (size_t)P.h + b.capacity) sched_fault("a buffer is smaller than its capacity says");
		bool seen = false;
		for (int k = 0; k < nknown; k++) seen |= known[k] == b.data;
		if (! seen && nknown < 600) known[nknown++] = b.data;
		held[t][nheld[t]++] = b;
	}
	sched_ev("{\"o\":\"ret\",\"t\":%d,\"r\":%d,\"b\":%d,\"c\":[%u,%u],\"nomem\":%d}", t, r, got ? id : 0, LIM(got ? b.capacity : 0), failed[t]);
	OFF;
	if (got) touch(b.data, (size_t)P.h + b.capacity);
}

static DRV void
worker(void* u)
{
	int t = (int)(intptr_t)u;
	for (int k = 0; k < P.n[t]; k++) call(t + 1, &P.ops[t][k]);
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	memset(nheld, 0, sizeof(nheld));
	memset(refuse, 0, sizeof(refuse));
	nknown = filling = 0;
	pool = malloc(sizeof(as_buffer_pool));
	memset(pool, P.h & 1 ? 0x5A : 0, sizeof(as_buffer_pool));	/* whatever was there before */
	sched_on_free = on_free;
	sched_fail_alloc = fail_alloc;
	if (as_buffer_pool_init(pool, P.h, P.b) != 0) sched_fault("pool not initialised");
	op take = { "take", 0 }, give = { "give", 0 };
	filling = 1;
	/* with a full queue, the first thread starts with one buffer more */
	for (int k = 0; k < P.fill + (P.fill == 64); k++) { call(1, &take); ON; }
	for (int k = 0; k < P.fill; k++) { call(1, &give); ON; }
	filling = 0;
	for (int t = 0; t < P.nth; t++) sched_spawn(worker, (void*)(intptr_t)t);
	OFF;
	sched_join_all();
	ON;
	for (int t = 1; t < sched_threads(); t++) if (sched_blocked(t)) sched_fault("a call never returned");
	sched_on_free = NULL;
	for (int t = 1; t <= MAXTH; t++) {
		for (int k = 0; k < nheld[t]; k++) free(held[t][k].data);
	}
	sched_on_free = on_free;
	sched_ev("{\"o\":\"down\"}");
	as_buffer_pool_destroy(pool);
	sched_on_free = NULL;
	sched_ev("{\"o\":\"end\"}");
	free(pool);
	sched_leaks();
	OFF;
}

int
main(int argc, char** argv)
{
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	static char line[8192];
	while (fgets(line, sizeof(line), f)) {
		memset(&P, 0, sizeof(P));
		if (sscanf(line, "%u %u %d", &P.h, &P.b, &P.fill) != 3) return 3;
		char* s = strchr(line, '|');
		while (s) {
			char* e = strchr(s + 1, '|');
			if (e) *e = 0;
			int t = P.nth++;
			for (char* w = strtok(s + 1, " \n"); w; w = strtok(NULL, " \n")) {
				op* o = &P.ops[t][P.n[t]++];
				if (sscanf(w, "%7[a-z]:%u", o->f, &o->a) != 2) return 3;
			}
			s = e;
		}
		char head[256];
		snprintf(head, sizeof(head), "{\"o\":\"init\",\"h\":[%u,%u],\"m\":[%u,%u]}\n", LIM(P.h), LIM(P.b));
		sched_explore(head, body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
