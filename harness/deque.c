/* Drives as_queue. Usage: deque random SEED SCENARIOS LEN OUT
 *                         deque script IN OUT
 *                         deque long SEED OUT
 */
#include <aerospike/as_queue.h>
#include <alloca.h>
#include "vh.h"

static as_queue* q;
static as_queue qs;
static uint32_t isz;
static uint8_t* item;

static void
state_tail(void)
{
	ev(",\"n\":%u,\"e\":%d,\"c\":%u,\"t\":%u}", as_queue_size(q), as_queue_empty(q), q->capacity, q->total);
}

static void
op(const char* name, uint32_t v)
{
	if (strcmp(name, "push") == 0) {
		item_make(item, isz, v);
		int r = as_queue_push(q, item);
		evp("{\"o\":\"push\",\"v\":%u,\"r\":%d", v, r);
	}
	else if (strcmp(name, "pushl") == 0) {
		item_make(item, isz, v);
		int r = as_queue_push_limit(q, item);
		evp("{\"o\":\"pushl\",\"v\":%u,\"r\":%d", v, r);
	}
	else if (strcmp(name, "pushh") == 0) {
		item_make(item, isz, v);
		int r = as_queue_push_head(q, item);
		evp("{\"o\":\"pushh\",\"v\":%u,\"r\":%d", v, r);
	}
	else if (strcmp(name, "pushhl") == 0) {
		item_make(item, isz, v);
		int r = as_queue_push_head_limit(q, item);
		evp("{\"o\":\"pushhl\",\"v\":%u,\"r\":%d", v, r);
	}
	else if (strcmp(name, "pop") == 0) {
		memset(item, 0xEE, isz < ITEM_WIDE ? isz : 8);
		int r = as_queue_pop(q, item);
		evp("{\"o\":\"pop\",\"v\":%d,\"r\":%d", r ? item_read(item, isz) : 0, r);
	}
	else if (strcmp(name, "popt") == 0) {
		memset(item, 0xEE, isz < ITEM_WIDE ? isz : 8);
		int r = as_queue_pop_tail(q, item);
		evp("{\"o\":\"popt\",\"v\":%d,\"r\":%d", r ? item_read(item, isz) : 0, r);
	}
	else if (strcmp(name, "incr") == 0) {
		int r = as_queue_incr_total(q);
		evp("{\"o\":\"incr\",\"v\":0,\"r\":%d", r);
	}
	else if (strcmp(name, "decr") == 0) {
		as_queue_decr_total(q);
		evp("{\"o\":\"decr\",\"v\":0,\"r\":1");
	}
	else {
		MISUSE("op %s\n", name);
	}
	state_tail();
}

/* The storage must outlive the scenario, hence one frame per scenario. */
static void
scenario(uint32_t cap, uint32_t item_sz, uint32_t st, void (*body)(void*), void* ud)
{
	isz = item_sz;
	item = malloc(isz);

	if (st == 0) {
		q = &qs;
		if (! as_queue_init(q, isz, cap)) WRONG("a queue was not made\n");
	}
	else if (st == 1) {
		q = as_queue_create(isz, cap);
		if (! q) WRONG("a queue was not made\n");
	}
	else {
		q = &qs;
		as_queue_inita(q, isz, cap);
	}
	evp("{\"o\":\"init\",\"v\":%u,\"r\":1,\"cap\":%u", st, cap);
	state_tail();
	body(ud);
	as_queue_destroy(q);
	free(item);
}

typedef struct { uint32_t len; int style; uint32_t cap; } rnd;

static void
random_body(void* ud)
{
	rnd* r = ud;
	uint32_t id = 1, limit = isz == 1 ? 250 : 60000;
	int bias = 50;

	for (uint32_t i = 0; i < r->len; i++) {
		if (i % 17 == 0) {
			bias = 20 + vh_below(61);
		}
		const char* name;
		if (vh_chance(6)) {
			name = (q->total > 0 && vh_chance(45)) ? "decr" : "incr";
		}
		else if (vh_chance(bias)) {
			static const char* ps[] = {"push", "pushl", "pushh", "pushhl"};
			int k = r->style == 1 ? 0 : r->style == 2 ? 2 * vh_below(2) + 1 : vh_below(4);
			if (r->style == 3) k = vh_chance(80) ? 2 : vh_below(4);
			if (q->capacity > 24 && (k == 0 || k == 2) && as_queue_size(q) == q->capacity) k++;
			name = ps[k];
		}
		else {
			name = r->style == 1 ? "pop" : vh_chance(60) ? "pop" : "popt";
		}
		op(name, id);
		if (name[1] == 'u') {
			id = id >= limit ? 1 : id + 1;
		}
	}
	while (! as_queue_empty(q)) op("pop", 0);
	op("pop", 0);
	op("popt", 0);
}

static char* script_line;

static void
script_body(void* ud)
{
	char* save;
	strtok_r(ud, " ", &save); strtok_r(NULL, " ", &save); strtok_r(NULL, " ", &save);
	char* w;
	while ((w = strtok_r(NULL, " ", &save)) != NULL) {
		char* c = strchr(w, ':');
		uint32_t v = 0;
		if (c) { *c = 0; v = atoi(c + 1); }
		op(w, v);
	}
}

/* Passes n items through without the queue becoming empty. */
static void
long_run(uint64_t n, uint32_t cap, int back)
{
	isz = 4;
	item = malloc(8);
	q = &qs;
	if (! as_queue_init(q, 4, cap)) WRONG("a queue was not made\n");
	evp("{\"o\":\"init\",\"v\":0,\"r\":1,\"cap\":%u", cap);
	state_tail();
	op("push", 1); op("push", 2);
	uint32_t exp = 3;   /* next value to push; queue holds exp-2, exp-1 */
	uint64_t bad = 0;
	/* raw loop: ids beyond 16 bits, checked here by value, summarised as one event */
	uint32_t v;
	for (int k = 0; k < 2; k++) { as_queue_pop(q, &v); }
	for (int k = 0; k < 2; k++) { v = k; as_queue_push(q, &v); }
	uint32_t in = 2, outv = 0;
	for (uint64_t i = 0; i < n; i++) {
		v = in++;
		if (! as_queue_push(q, &v)) bad++;
		if (! as_queue_pop(q, &v)) bad++;
		if (v != outv++) bad++;
	}
	ev("{\"o\":\"bulk\",\"v\":%u,\"r\":%d,\"n\":%u,\"e\":%d,\"c\":%u,\"t\":%u}", 2, bad == 0, as_queue_size(q),
			as_queue_empty(q), q->capacity, q->total);
	/* continue with identified items from the shifted positions */
	while (as_queue_pop(q, &v)) { }
	op("pop", 0);
	/* and once more growing while far out */
	for (int k = 0; k < 2; k++) { v = k; as_queue_push(q, &v); }
	in = 2; outv = 0; bad = 0;
	uint64_t m = (1ULL << 30) - 5 - vh_below(8);
	for (uint64_t i = 0; i < m; i++) {
		v = in++;
		as_queue_push(q, &v);
		as_queue_pop(q, &v);
		if (v != outv++) bad++;
	}
	/* now replace the two remaining by identified items */
	item_make(item, 4, 7); as_queue_push(q, item); as_queue_pop(q, &v);
	item_make(item, 4, 8); as_queue_push(q, item); as_queue_pop(q, &v);
	ev("{\"o\":\"mark\",\"v\":%u,\"r\":%d,\"q\":[7,8],\"n\":%u,\"e\":%d,\"c\":%u,\"t\":%u}", 2, bad == 0, as_queue_size(q),
			as_queue_empty(q), q->capacity, q->total);
	for (uint32_t k = 10; k < 60; k++) {
		op(back ? (vh_chance(50) ? "pushh" : "push") : (vh_chance(70) ? "push" : "pushh"), k);
		if (vh_chance(30)) op(vh_chance(50) ? "pop" : "popt", 0);
	}
	while (! as_queue_empty(q)) op(vh_chance(50) ? "pop" : "popt", 0);
	as_queue_destroy(q);
	free(item);
}

/* Storage beyond 4 GB: few, very large items. */
static void
huge_body(void* ud)
{
	int k = *(int*)ud;
	uint32_t id = 1;
	if (k == 0) {
		/* the last slots lie beyond 4 GB */
		op("pushh", id++); op("push", id++); op("pushh", id++); op("pop", 0); op("popt", 0); op("pushl", id++);
		op("pushhl", id++); op("popt", 0);
	}
	else {
		/* grow past 4 GB, from slot 0 and from a later one */
		if (k == 2) { op("push", id++); op("push", id++); op("pop", 0); }
		while (q->capacity < 17) op("push", id++);
		while (as_queue_size(q) < 17) op("push", id++);
	}
	while (! as_queue_empty(q)) op("pop", 0);
}

int
main(int argc, char** argv)
{
	if (strcmp(argv[1], "random") == 0) {
		vh_seed(strtoull(argv[2], NULL, 10));
		uint32_t n = atoi(argv[3]), len = atoi(argv[4]);
		vh_open(argv[5]);
		for (uint32_t i = 0; i < n; i++) {
			static const uint32_t sizes[] = {1, 2, 3, 4, 8, 12, 24, 40};
			uint32_t cap = vh_chance(75) ? 1 + vh_below(6) : 1 + vh_below(20);
			rnd r = {len, vh_below(5), cap};
			scenario(cap, sizes[vh_below(8)], vh_below(3), random_body, &r);
		}
	}
	else if (strcmp(argv[1], "script") == 0) {
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		char line[8192], copy[8192];
		while (fgets(line, sizeof(line), f)) {
			line[strcspn(line, "\n")] = 0;
			uint32_t cap, sz, st;
			if (sscanf(line, "%u %u %u", &cap, &sz, &st) != 3) MISUSE("script\n");
			strcpy(copy, line);
			scenario(cap, sz, st, script_body, copy);
		}
		fclose(f);
	}
	else if (strcmp(argv[1], "long") == 0) {
		vh_seed(strtoull(argv[2], NULL, 10));
		vh_open(argv[argc - 1]);
		static const uint32_t odd[] = {3, 5, 6, 7};
		if (argc > 4) long_run((1ULL << 32) + 100000, odd[vh_below(4)], 0);	/* positions beyond 32 bits */
		else long_run((1ULL << 30) + 100000, 3 + vh_below(4), 0);
	}
	else if (strcmp(argv[1], "huge") == 0) {
		int k = atoi(argv[2]);
		vh_open(argv[3]);
		if (vh_memory(12)) scenario(k == 0 ? 19 : 9, 1u << 28, k == 1, huge_body, &k);
	}
	vh_close();
	return 0;
}
