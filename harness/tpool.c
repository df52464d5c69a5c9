/* Programs on a worker pool under every explored schedule. Input line:
 *   WORKERS FAILMASK FINI DESTROYS|tasks of submitter 1|...
 * a task is id:children; a task queues its children (10*id+1 ...) when it runs. */
#include "explore.h"
#include <aerospike/as_thread_pool.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)

static struct { int w, fail, fini, destroys, nsub; int n[4]; int id[4][16], kids[4][16]; } P;
static as_thread_pool* pool;

typedef struct { int id, kids; } task;
static task tasks[200];

static DRV void run(void* u);

static DRV void
submit(int id, int kids)
{
	ON;
	task* t = &tasks[id % 200];
	t->id = id;
	t->kids = kids;
	sched_ev("{\"o\":\"call\",\"t\":%d,\"x\":%d}", sched_self() + 1, id);
	OFF;
	int r = as_thread_pool_queue_task(pool, run, t);
	ON;
	sched_ev("{\"o\":\"ret\",\"t\":%d,\"r\":%d}", sched_self() + 1, r);
	OFF;
}

static DRV void
run(void* u)
{
	ON;
	task* t = u;
	int id = t->id, kids = t->kids;
	sched_ev("{\"o\":\"start\",\"w\":%d,\"x\":%d}", sched_self() + 1, id);
	OFF;
	for (int k = 1; k <= kids; k++) submit(id * 10 + k, 0);
	volatile int z = *(volatile int*)&t->id;
	(void)z;
	ON;
	sched_ev("{\"o\":\"finish\",\"w\":%d,\"x\":%d}", sched_self() + 1, id);
	OFF;
}

static DRV void
fini(void)
{
	ON;
	sched_ev("{\"o\":\"fini\",\"w\":%d}", sched_self() + 1);
	OFF;
}

static DRV void
submitter(void* u)
{
	int s = (int)(intptr_t)u;
	for (int k = 0; k < P.n[s]; k++) submit(P.id[s][k], P.kids[s][k]);
}

static int other;

static DRV void
destroyer(void* u)
{
	other = as_thread_pool_destroy(pool);
}

static DRV void
body(void* u)
{
	ON;
	memset(tasks, 0, sizeof(tasks));
	pool = malloc(sizeof(as_thread_pool));
	memset(pool, 0xee, sizeof(*pool));
	so.create_fail = P.fail;
	OFF;
	int r = as_thread_pool_init(pool, (uint32_t)P.w);
	ON;
	if (P.fini) pool->fini_fn = fini;
	int started = sched_threads() - 1;
	sched_ev("{\"o\":\"up\",\"r\":%d,\"k\":%d}", r, started);
	int st[4];
	/* the last submitter is this thread */
	for (int s = 0; s + 1 < P.nsub; s++) st[s] = sched_spawn(submitter, (void*)(intptr_t)s);
	OFF;
	if (P.nsub) submitter((void*)(intptr_t)(P.nsub - 1));
	for (int s = 0; s + 1 < P.nsub; s++) sched_join(st[s]);
	/* once, twice in turn (2), or by two threads at once (3): whichever of the two
	 * comes late finds the pool closed and need not wait */
	for (int k = 0; k < (P.destroys == 3 ? 1 : P.destroys); k++) {
		ON;
		sched_ev("{\"o\":\"dcall\"}");
		int d = P.destroys == 3 ? sched_spawn(destroyer, NULL) : -1;
		OFF;
		r = as_thread_pool_destroy(pool);
		if (d >= 0) {
			sched_join(d);
			if (r == 0) r = other == -2 ? 0 : other;
			else if (r == -2) r = other;
		}
		ON;
		int alive = 0;
		for (int t = 1; t <= started; t++) alive += sched_blocked(t);
		sched_ev("{\"o\":\"dret\",\"r\":%d,\"alive\":%d}", r, alive);
		OFF;
	}
	submit(77, 0);
	ON;
	free(pool);
	sched_leaks();
	OFF;
	sched_join_all();
	ON;
	sched_ev("{\"o\":\"end\"}");
	OFF;
}

int
main(int argc, char** argv)
{
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	static char line[4096];
	while (fgets(line, sizeof(line), f)) {
		memset(&P, 0, sizeof(P));
		if (sscanf(line, "%d %d %d %d", &P.w, &P.fail, &P.fini, &P.destroys) != 4) return 3;
		char* s = strchr(line, '|');
		while (s) {
			char* e = strchr(s + 1, '|');
			if (e) *e = 0;
			int t = P.nsub++;
			for (char* w = strtok(s + 1, " \n"); w; w = strtok(NULL, " \n")) {
				if (sscanf(w, "%d:%d", &P.id[t][P.n[t]], &P.kids[t][P.n[t]]) != 2) return 3;
				P.n[t]++;
			}
			s = e;
		}
		char head[256];
		int ok = 0;
		for (int k = 0; k < P.w; k++) ok += ! ((P.fail >> k) & 1);
		snprintf(head, sizeof(head), "{\"o\":\"init\",\"w\":%d,\"ok\":%d,\"f\":%d}\n", P.w, ok, P.fini);
		sched_explore(head, body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
