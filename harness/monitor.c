/* A completion monitor under every explored schedule. Input: one program of
 * the owner per line, letters b (re-arm), w (wait), s (start a thread that
 * notifies once), d (start a thread that notifies twice), x (give the monitor
 * up: destroy it and release its memory, all notifications having arrived). */
#include "explore.h"
#include <pthread.h>
#include <aerospike/as_monitor.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)

static char prog[64];
static as_monitor* m;
static int gone;

static DRV void
call(char f)
{
	int t = sched_self() + 1;
	ON;
	sched_ev("{\"o\":\"call\",\"t\":%d,\"f\":\"%c\"}", t, f);
	OFF;
	if (f == 'b') as_monitor_begin(m);
	else if (f == 'w') as_monitor_wait(m);
	else as_monitor_notify(m);
	ON;
	sched_ev("{\"o\":\"ret\",\"t\":%d}", t);
	OFF;
}

static DRV void
notifier(void* u)
{
	for (int k = 0; k < (int)(intptr_t)u; k++) call('n');
}

static DRV void
owner(void* u)
{
	(void)u;
	for (char* p = prog; *p; p++) {
		if (*p == 's') sched_spawn(notifier, (void*)1);
		else if (*p == 'd') sched_spawn(notifier, (void*)2);
		else if (*p == 'x') { as_monitor_destroy(m); ON; free(m); gone = 1; OFF; }
		else call(*p);
	}
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	gone = 0;
	m = malloc(sizeof(as_monitor));
	memset(m, 0xff, sizeof(*m));
	as_monitor_init(m);
	sched_spawn(owner, NULL);
	OFF;
	sched_join_all();
	ON;
	sched_evp("{\"o\":\"end\",\"b\":[");
	int n = 0;
	for (int t = 1; t < sched_threads(); t++) if (sched_blocked(t)) sched_evp("%s%d", n++ ? "," : "", t + 1);
	sched_ev("]}");
	if (n == 0) { if (! gone) { as_monitor_destroy(m); free(m); } sched_leaks(); }
	OFF;
}

int
main(int argc, char** argv)
{
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	while (fscanf(f, "%63s", prog) == 1) sched_explore("{\"o\":\"init\"}\n", body, NULL);
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
