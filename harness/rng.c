/* Records draws from random instances with chosen seeds.
 *   rng SEED N OUT */
#include <aerospike/as_random.h>
#include <pthread.h>
#include "vh.h"

static void
word(uint64_t w, int limbs)
{
	evp("[");
	for (int k = limbs - 1; k >= 0; k--) {
		evp("%u%s", (unsigned)(w >> (16 * k)) & 0xFFFF, k ? "," : "]");
	}
}

static void
state(const as_random* r)
{
	evp("\"s\":[");
	word(r->seed0, 4);
	evp(",");
	word(r->seed1, 4);
	evp("]");
}

/* several threads at a time ask for their instances */
#define NT 6
static pthread_barrier_t all;
static struct { as_random *p, *q; as_random s; uint64_t drawn; } got[NT];

static void*
asks(void* u)
{
	int t = (int)(intptr_t)u;
	got[t].p = as_random_instance();
	got[t].s = *got[t].p;
	got[t].drawn = as_random_next_uint64(&(as_random){ got[t].s.seed0, got[t].s.seed1 });
	pthread_barrier_wait(&all);
	if (as_random_get_uint64() != got[t].drawn) got[t].drawn = 0, got[t].q = NULL;
	else got[t].q = as_random_instance();
	pthread_barrier_wait(&all);
	return NULL;
}

static void
threads(void)
{
	pthread_t th[NT];
	int n = 2 + (int)vh_below(NT - 1);
	pthread_barrier_init(&all, NULL, (unsigned)n);
	for (int t = 0; t < n; t++) if (pthread_create(&th[t], NULL, asks, (void*)(intptr_t)t)) exit(3);
	for (int t = 0; t < n; t++) pthread_join(th[t], NULL);
	pthread_barrier_destroy(&all);
	evp("{\"o\":\"threads\",\"p\":[");
	for (int t = 0; t < n; t++) {
		int first = 0;		/* instances are numbered by the first thread that got them */
		while (got[first].p != got[t].p) first++;
		evp("%s%d", t ? "," : "", first + 1);
	}
	evp("],\"again\":[");
	for (int t = 0; t < n; t++) evp("%s%s", t ? "," : "", got[t].q == got[t].p ? "true" : "false");
	evp("],\"s\":[");
	for (int t = 0; t < n; t++) {
		evp(t ? ",[" : "[");
		word(got[t].s.seed0, 4);
		evp(",");
		word(got[t].s.seed1, 4);
		evp("]");
	}
	ev("]}");
}

static uint64_t
seeding(void)
{
	switch (vh_below(6)) {
	case 0: return 0;
	case 1: return UINT64_MAX;
	case 2: return 1ULL << vh_below(64);
	case 3: return vh_below(1000);
	default: return vh_next();
	}
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	vh_seed(strtoul(argv[1], NULL, 10));
	for (uint32_t n = strtoul(argv[2], NULL, 10); n > 0; n--) {
		if (n % 25 == 0) threads();
		as_random local;
		bool own = vh_chance(80);
		as_random* r = &local;
		if (own) {
			as_random_init(r);
			if (vh_chance(80)) {
				r->seed0 = seeding();
				r->seed1 = seeding();
			}
		}
		else {
			r = as_random_instance();	/* the calling thread's */
			if (vh_chance(50)) {
				r->seed0 = seeding();
				r->seed1 = seeding();
			}
		}
		evp("{\"o\":\"init\",");
		state(r);
		ev("}");
		for (int k = 2 + vh_below(12); k > 0; k--) {
			int what = vh_below(5);
			if (what < 2) {
				evp("{\"o\":\"u64\",\"r\":");
				word(own || vh_chance(50) ? as_random_next_uint64(r) : as_random_get_uint64(), 4);
				ev("}");
			}
			else if (what == 2) {
				evp("{\"o\":\"u32\",\"r\":");
				word(own || vh_chance(50) ? as_random_next_uint32(r) : as_random_get_uint32(), 2);
				ev("}");
			}
			else {
				uint32_t len = vh_chance(60) ? vh_below(20) : vh_below(90);
				uint32_t off = vh_chance(50) ? 0 : 1 + vh_below(15);
				uint32_t room = len + (what == 4);
				uint8_t* m = malloc(off + room);
				uint8_t* b = m + off;
				memset(m, 0xC3, off + room);
				if (what == 3) {
					if (own || vh_chance(50)) as_random_next_bytes(r, b, len);
					else as_random_get_bytes(b, len);
					evp("{\"o\":\"bytes\",\"n\":%u,", len);
				}
				else {
					/* the text comes from the draws, not from what was there */
					as_random twin = *r;
					char* t = malloc(len + 1);
					memset(t, vh_next() & 0xFF, len + 1);
					as_random_next_str(&twin, t, len);
					if (own || vh_chance(50)) as_random_next_str(r, (char*)b, len);
					else as_random_get_str((char*)b, len);
					evp("{\"o\":\"str\",\"n\":%u,\"z\":%u,\"twin\":%s,", len, b[len], memcmp(t, b, len + 1) ? "false" : "true");
					free(t);
					state(r);
					evp(",");
				}
				for (uint32_t j = 0; j < off; j++) {
					if (m[j] != 0xC3) { fprintf(stderr, "memory before the target was changed\n"); exit(4); }
				}
				evbytes("r", b, len);
				ev("}");
				free(m);
			}
		}
	}
	ev("{\"o\":\"end\"}");
	vh_close();
	return 0;
}
