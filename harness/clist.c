/* Threads calling a linked list with its own lock, under every explored
 * schedule. Input line: FILL|thread|thread with calls f:x (see specs/ConcList.tla). */
#include "explore.h"
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_ll.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)

typedef struct { cf_ll_element e; int id; } item;
typedef struct { char f[8]; int x; } op;
static struct { int fill, nth, n[6]; op ops[6][8]; } P;
static cf_ll* ll;
static item* first[6];

typedef struct { const char* f; int see[40], ns, gone[40], ng, match; } look;
static look looks[8];

static DRV void
destroy(cf_ll_element* e)
{
	ON;
	look* l = &looks[sched_self()];
	if (l->ng < 40) l->gone[l->ng++] = ((item*)e)->id;
	free(e);
	OFF;
}

static DRV int
judge(cf_ll_element* e, void* u)
{
	ON;
	look* l = &looks[sched_self()];
	int id = e ? ((item*)e)->id : 0;
	bool late = id >= 10;
	int r;
	if (l->ns < 40) l->see[l->ns++] = id;
	if (! strncmp(l->f, "red", 3)) r = late ? CF_LL_REDUCE_DELETE : 0;
	else if (! strcmp(l->f, "seef")) r = 0;
	else if (! strcmp(l->f, "seeb")) r = late ? -5 : 0;
	else if (! strcmp(l->f, "srch")) r = late ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED;
	else r = ! e || late ? CF_LL_REDUCE_INSERT : 0;
	if (r == CF_LL_REDUCE_MATCHED) l->match = id;
	if (u && u != l && strcmp(l->f, "srch")) sched_fault("argument of the callback");
	OFF;
	return r;
}

static DRV item*
fresh(int id)
{
	item* i = malloc(sizeof(item));
	memset(i, 0xcc, sizeof(item));
	i->id = id;
	return i;
}

static DRV void
call(int t, op* o)
{
	int r = 0, v = 0;
	ON;
	item* x = o->x >= 10 ? fresh(o->x) : NULL;
	look* l = &looks[sched_self()];
	memset(l, 0, sizeof(look));
	l->f = o->f;
	cf_ll_element* got = NULL;
	sched_ev("{\"o\":\"call\",\"t\":%d,\"f\":\"%s\",\"x\":%d}", t, o->f, o->x);
	OFF;
#define IS(s) (strcmp(o->f, s) == 0)
	if (IS("pre")) cf_ll_prepend(ll, &x->e);
	else if (IS("app")) cf_ll_append(ll, &x->e);
	else if (IS("aft")) cf_ll_insert_after(ll, &first[1]->e, &x->e);
	else if (IS("bef")) cf_ll_insert_before(ll, &first[1]->e, &x->e);
	else if (IS("del")) cf_ll_delete(ll, &first[o->x]->e);
	else if (IS("redf") || IS("seef")) r = cf_ll_reduce(ll, true, judge, l);
	else if (IS("redb") || IS("seeb")) r = cf_ll_reduce(ll, false, judge, l);
	else if (IS("insf")) r = cf_ll_insert_reduce(ll, &x->e, true, judge, l);
	else if (IS("insb")) r = cf_ll_insert_reduce(ll, &x->e, false, judge, l);
	else if (IS("srch")) got = cf_ll_search(ll, &first[1]->e, true, judge);
	else if (IS("size")) r = (int)cf_ll_size(ll);
	else _exit(3);
	ON;
	if (IS("srch")) {
		v = l->match;
		if ((got != NULL) != (v != 0)) sched_fault("element found");
	}
	sched_evp("{\"o\":\"ret\",\"t\":%d,\"r\":%d,\"v\":%d,\"see\":[", t, r, v);
	for (int k = 0; k < l->ns; k++) sched_evp("%s%d", k ? "," : "", l->see[k]);
	sched_evp("],\"gone\":[");
	for (int k = 0; k < l->ng; k++) sched_evp("%s%d", k ? "," : "", l->gone[k]);
	sched_ev("]}");
	OFF;
}

static DRV void
worker(void* u)
{
	int t = (int)(intptr_t)u;
	for (int k = 0; k < P.n[t]; k++) call(t + 1, &P.ops[t][k]);
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	ll = malloc(sizeof(cf_ll));
	cf_ll_init(ll, destroy, true);
	for (int k = 1; k <= P.fill; k++) {
		first[k] = fresh(k);
		cf_ll_append(ll, &first[k]->e);
	}
	for (int t = 0; t < P.nth; t++) sched_spawn(worker, (void*)(intptr_t)t);
	OFF;
	sched_join_all();
	ON;
	for (int t = 1; t < sched_threads(); t++) if (sched_blocked(t)) sched_fault("a call never returns");
	sched_evp("{\"o\":\"left\",\"n\":%d,\"q\":[", (int)cf_ll_size(ll));
	int k = 0;
	for (cf_ll_element* e = cf_ll_get_head(ll); e && k < 40; e = cf_ll_get_next(e)) sched_evp("%s%d", k++ ? "," : "", ((item*)e)->id);
	sched_evp("],\"b\":[");
	k = 0;
	for (cf_ll_element* e = cf_ll_get_tail(ll); e && k < 40; e = cf_ll_get_prev(e)) sched_evp("%s%d", k++ ? "," : "", ((item*)e)->id);
	sched_ev("]}");
	while (cf_ll_get_head(ll)) cf_ll_delete(ll, cf_ll_get_head(ll));
	free(ll);
	sched_leaks();
	OFF;
}

int
main(int argc, char** argv)
{
	/* clist IN PREEMPT MAXRUNS RANDOM EXTRA SEED OUT */
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	static char line[4096];
	while (fgets(line, sizeof(line), f)) {
		memset(&P, 0, sizeof(P));
		char* s = strchr(line, '|');
		if (! s || sscanf(line, "%d", &P.fill) != 1) return 3;
		while (s) {
			char* e = strchr(s + 1, '|');
			if (e) *e = 0;
			int t = P.nth++;
			for (char* w = strtok(s + 1, " \n"); w; w = strtok(NULL, " \n")) {
				op* o = &P.ops[t][P.n[t]++];
				if (sscanf(w, "%7[a-z]:%d", o->f, &o->x) != 2) return 3;
			}
			s = e;
		}
		char head[64];
		snprintf(head, sizeof(head), "{\"o\":\"init\",\"fill\":%d}\n", P.fill);
		sched_explore(head, body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
