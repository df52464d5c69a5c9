/* Drives cf_queue.  editq random SEED SCENARIOS LEN OUT
 *                   editq script IN OUT
 *                   editq long SEED OUT
 */
#include <citrusleaf/cf_queue.h>
#include "vh.h"

static cf_queue* q;
static cf_queue qs;
static size_t isz;
static uint8_t* item;
static int vd[8];
static int see[4096];
static int n_see;

static int
visit(void* buf, void* udata)
{
	int id = item_read(buf, isz);
	if (udata != vd) WRONG("not the caller's data\n");
	if (n_see < 4096) see[n_see++] = id;
	return id >= 0 && id < 8 ? vd[id] : 0;
}

static int dump[4096];
static int n_dump;

static int
dumper(void* buf, void* udata)
{
	if (n_dump < 4096) dump[n_dump++] = item_read(buf, isz);
	return 0;
}

static void
evlist(const char* name, const int* a, int n)
{
	evp(",\"%s\":[", name);
	for (int i = 0; i < n; i++) evp(i ? ",%d" : "%d", a[i]);
	evp("]");
}

static void
contents(void)
{
	n_dump = 0;
	cf_queue_reduce(q, dumper, NULL);
	evlist("q", dump, n_dump);
	ev(",\"n\":%u}", cf_queue_sz(q));
}

static void
op(const char* o, int x, uint32_t a)
{
	int r = -99, v = 0;
	n_see = 0;
	item_make(item, isz, x);
	if (! strcmp(o, "push")) r = cf_queue_push(q, item);
	else if (! strcmp(o, "pushh")) r = cf_queue_push_head(q, item);
	else if (! strcmp(o, "pushl")) r = cf_queue_push_limit(q, item, a);
	else if (! strcmp(o, "pushi")) r = cf_queue_push_index(q, item, a);
	else if (! strcmp(o, "pushu")) r = cf_queue_push_unique(q, item);
	else if (! strcmp(o, "del1")) r = cf_queue_delete(q, item, true);
	else if (! strcmp(o, "dela")) r = cf_queue_delete(q, item, false);
	else if (! strcmp(o, "clear1")) r = cf_queue_delete(q, NULL, true);
	else if (! strcmp(o, "clear")) r = vh_chance(50) ? cf_queue_delete_all(q) : cf_queue_delete(q, NULL, false);
	else if (! strcmp(o, "red")) r = cf_queue_reduce(q, visit, vd);
	else if (! strcmp(o, "redr")) r = cf_queue_reduce_reverse(q, visit, vd);
	else {
		memset(item, 0xEE, isz);
		if (! strcmp(o, "peek")) r = cf_queue_peek(q, item);
		else if (! strcmp(o, "pop")) r = cf_queue_pop(q, item, CF_QUEUE_NOWAIT);
		else if (! strcmp(o, "redp")) r = cf_queue_reduce_pop(q, item, CF_QUEUE_NOWAIT, visit, vd);
		else MISUSE("op %s\n", o);
		v = r == 0 ? item_read(item, isz) : 0;
	}
	evp("{\"o\":\"%s\",\"x\":%d,\"a\":%u,\"r\":%d,\"v\":%d", o, x, a, r, v);
	evlist("vd", vd, 8);
	evlist("see", see, n_see);
	contents();
}

static void
start(size_t item_sz, uint32_t cap, bool ts)
{
	isz = item_sz;
	item = malloc(isz);
	if (cap == 0) {
		q = cf_queue_create(isz, ts);
		if (! q) WRONG("a queue was not made\n");
	}
	else {
		q = &qs;
		if (! cf_queue_init(q, isz, cap, ts)) WRONG("a queue was not made\n");
	}
}

static void
started(uint32_t cap)
{
	memset(vd, 0, sizeof(vd));
	evp("{\"o\":\"init\",\"cap\":%u", cap);
	contents();
}

static void
finish(void)
{
	cf_queue_destroy(q);
	free(item);
}

static void
random_ops(uint32_t len, uint32_t maxsz)
{
	int bias = 50;
	for (uint32_t i = 0; i < len; i++) {
		if (i % 13 == 0) bias = 25 + vh_below(60);
		for (int k = 0; k < 8; k++) vd[k] = vh_chance(70) ? 0 : vh_chance(50) ? -1 : -2;
		const char* o;
		uint32_t a = 0, sz = cf_queue_sz(q);
		if (vh_chance(bias) && sz < maxsz) {
			static const char* ps[] = {"push", "pushh", "pushl", "pushi", "pushi", "pushu"};
			o = ps[vh_below(6)];
			if (! strcmp(o, "pushl")) a = vh_below(sz * 2 + 2);
			if (! strcmp(o, "pushi")) a = vh_chance(5) ? 0xFFFFFFFFu / 2 : vh_below(sz + 3);
		}
		else {
			static const char* ps[] = {"pop", "pop", "pop", "peek", "red", "redr", "redp", "redp", "del1", "dela", "clear", "clear1"};
			int k = vh_below(12);
			if (k >= 9 && vh_chance(60)) k = 0;
			o = ps[k];
		}
		op(o, vh_below(8), a);
	}
}

/* Rotates the ring: items pass through without leaving anything behind except
 * what was there before. */
static void
spin(uint64_t n)
{
	for (uint64_t i = 0; i < n; i++) {
		item_make(item, isz, 5);
		cf_queue_push(q, item);
		cf_queue_pop(q, item, 0);
	}
}

int
main(int argc, char** argv)
{
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		uint32_t n = atoi(argv[3]), len = atoi(argv[4]);
		vh_open(argv[5]);
		for (uint32_t i = 0; i < n; i++) {
			static const uint32_t sizes[] = {1, 2, 4, 8, 12, 20, 33};
			uint32_t cap = vh_chance(85) ? 1 + vh_below(9) : 0;
			start(sizes[vh_below(7)], cap, vh_chance(50));
			started(cap);
			random_ops(len, cap == 0 ? 90 : 5 + vh_below(25));
			finish();
		}
	}
	else if (! strcmp(argv[1], "script")) {
		/* cap fill rotate isz ts  then op:x:a:v0:v1 ... */
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		static char line[8192];
		while (fgets(line, sizeof(line), f)) {
			char* save;
			line[strcspn(line, "\n")] = 0;
			uint32_t cap = atoi(strtok_r(line, " ", &save));
			uint32_t fill = atoi(strtok_r(NULL, " ", &save));
			uint32_t rot = atoi(strtok_r(NULL, " ", &save));
			uint32_t sz = atoi(strtok_r(NULL, " ", &save));
			uint32_t ts = atoi(strtok_r(NULL, " ", &save));
			start(sz, cap, ts);
			/* Move the start of the ring without the reset an empty queue causes. */
			if (rot) {
				item_make(item, isz, 5);
				cf_queue_push(q, item);
				spin(rot - 1);
				for (uint32_t k = 1; k <= fill; k++) {
					item_make(item, isz, k % 2);
					cf_queue_push(q, item);
					if (k == 1) cf_queue_pop(q, item, 0);
				}
			}
			else {
				for (uint32_t k = 1; k <= fill; k++) {
					item_make(item, isz, k % 2);
					cf_queue_push(q, item);
				}
			}
			started(cap);
			char* w;
			while ((w = strtok_r(NULL, " ", &save)) != NULL) {
				char o[16]; int x, v0, v1; uint32_t a;
				if (sscanf(w, "%15[a-z0-9]:%d:%u:%d:%d", o, &x, &a, &v0, &v1) != 5) MISUSE("script %s\n", w);
				vd[0] = v0; vd[1] = v1;
				op(o, x, a);
			}
			finish();
		}
	}
	else if (! strcmp(argv[1], "long")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		vh_open(argv[argc - 1]);
		static const uint32_t odd[] = {3, 5, 6, 7};
		bool far = argc > 4;	/* positions beyond 32 bits */
		start(2, far ? odd[vh_below(4)] : 3 + vh_below(5), false);
		item_make(item, isz, 5);
		cf_queue_push(q, item);
		cf_queue_push(q, item);
		spin((1ULL << (far ? 32 : 30)) - 40 + vh_below(40));
		started(2);
		random_ops(60, 20);
		for (int k = 0; k < 5; k++) op("pushi", k, vh_below(4));
		random_ops(200, 20);
		finish();
	}
	vh_close();
	return 0;
}
