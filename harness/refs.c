/* Several threads hold references to one object, under every explored
 * schedule. Input line: KIND|thread|thread with letters r (reserve), u (use),
 * d (drop); every thread starts with one reference and ends with none. */
#include "explore.h"
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include <citrusleaf/alloc.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)

static char kind;
static int nth;
static char prog[6][32];
static void* obj;
static void* block;

static DRV void
on_free(void* p)
{
	if (p == block) sched_ev("{\"o\":\"free\",\"t\":%d}", sched_self());
}

static DRV bool counted(void) { return kind == 'c' || kind == 'f'; }

static DRV void*
make(void)
{
	uint8_t* raw;
	as_arraylist* l;
	as_orderedmap* m;
	switch (kind) {
	case 'c': case 'f': return cf_rc_alloc(24);
	case 'i': return as_integer_new(7);
	case 'd': return as_double_new(1.5);
	case 't': return as_boolean_new(true);
	case 's': return as_string_new_strdup("text");
	case 'g': return as_geojson_new_strdup("{}");
	case 'b':
		raw = cf_malloc(5);
		memset(raw, 3, 5);
		return as_bytes_new_wrap(raw, 5, true);
	case 'p': return as_pair_new((as_val*)as_integer_new(1), (as_val*)as_string_new_strdup("x"));
	case 'l':
		l = as_arraylist_new(2, 2);
		as_arraylist_append(l, (as_val*)as_integer_new(1));
		as_arraylist_append(l, (as_val*)as_string_new_strdup("x"));
		return l;
	case 'm':
		m = as_orderedmap_new(2);
		as_orderedmap_set(m, (as_val*)as_integer_new(1), (as_val*)as_string_new_strdup("x"));
		return m;
	default: _exit(3);
	}
}

/* reads what the reference gives access to */
static void
use(void)
{
	if (kind == 'c' || kind == 'f') { ((volatile uint8_t*)obj)[3]++; return; }
	char* s = as_val_tostring(obj);
	ON;
	if (! s) sched_fault("no text");
	free(s);
	OFF;
}

static DRV void
call(char f)
{
	int t = sched_self();
	long r = 0;
	ON;
	sched_ev("{\"o\":\"call\",\"t\":%d,\"f\":\"%c\"}", t, f);
	OFF;
	if (f == 'u') use();
	else if (f == 'r') r = counted() ? (long)cf_rc_reserve(obj) : as_val_reserve(obj) == obj;
	else if (kind == 'c') r = (long)cf_rc_releaseandfree(obj);
	else if (kind == 'f') { r = (long)cf_rc_release(obj); if (r == 0) cf_rc_free(obj); }
	else {
		void* v = as_val_destroy(obj);
		r = v == obj ? 1 : v == NULL ? 0 : -1;
	}
	ON;
	sched_ev("{\"o\":\"ret\",\"t\":%d,\"r\":%ld}", t, r);
	OFF;
}

static DRV void
worker(void* u)
{
	for (char* p = prog[(int)(intptr_t)u]; *p; p++) call(*p);
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	sched_on_free = NULL;
	obj = make();
	block = obj;
	if (counted()) block = (cf_rc_hdr*)obj - 1;
	sched_on_free = on_free;
	for (int t = 1; t < nth; t++) {
		if (counted()) cf_rc_reserve(obj); else as_val_reserve(obj);
	}
	for (int t = 0; t < nth; t++) sched_spawn(worker, (void*)(intptr_t)t);
	OFF;
	sched_join_all();
	ON;
	sched_on_free = NULL;
	sched_ev("{\"o\":\"end\"}");
	sched_leaks();
	OFF;
}

int
main(int argc, char** argv)
{
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	static char line[1024];
	while (fgets(line, sizeof(line), f)) {
		kind = line[0];
		nth = 0;
		for (char* w = strtok(line + 1, "|\n"); w; w = strtok(NULL, "|\n")) snprintf(prog[nth++], 32, "%s", w);
		char head[64];
		snprintf(head, sizeof(head), "{\"o\":\"init\",\"n\":%d,\"k\":%d}\n", nth, counted());
		sched_explore(head, body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
