/* Drives as_orderedmap, directly and through as_map, as_hashmap and
 * as_stringmap.
 *   omap random SEED SCENARIOS LEN OUT   keys of every kind, small maps
 *   omap big SEED OUT                    thousands of integer keys
 *   omap script IN OUT                   specified histories */
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_hashmap_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_double.h>
#include <aerospike/as_string.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_pair.h>
#include "vh.h"

typedef struct { int kind; int64_t n; uint8_t b[24]; uint32_t len; } key_t_;

static as_orderedmap* M;
static as_orderedmap stackM;

static as_val*
mkkey(const key_t_* k)
{
	if (k->kind == 0) {
		return (as_val*)as_integer_new(k->n);
	}
	if (k->kind == 1) {
		char* s = malloc(k->len + 1);
		memcpy(s, k->b, k->len);
		s[k->len] = 0;
		return (as_val*)as_string_new(s, true);
	}
	as_bytes* b = as_bytes_new(k->len);
	as_bytes_set(b, 0, k->b, k->len);
	return (as_val*)b;
}

static void
evkey(const as_val* v)
{
	if (as_val_type(v) == AS_INTEGER) {
		uint64_t u = (uint64_t)as_integer_get(as_integer_fromval(v)) ^ (1ULL << 63);
		evp("[1,%u,%u,%u,%u]", (uint32_t)(u >> 48), (uint32_t)(u >> 32) & 0xFFFF, (uint32_t)(u >> 16) & 0xFFFF, (uint32_t)u & 0xFFFF);
	}
	else if (as_val_type(v) == AS_STRING) {
		const char* s = as_string_get(as_string_fromval(v));
		evp("[2");
		for (; *s; s++) evp(",%u", (uint8_t)*s);
		evp("]");
	}
	else if (as_val_type(v) == AS_BYTES) {
		const as_bytes* b = as_bytes_fromval(v);
		evp("[3");
		for (uint32_t i = 0; i < as_bytes_size(b); i++) evp(",%u", as_bytes_get(b)[i]);
		evp("]");
	}
	else {
		evp("[9]");
	}
}

static bool
same_key(const key_t_* k, const as_val* v)
{
	switch (as_val_type(v)) {
	case AS_INTEGER: return k->kind == 0 && as_integer_get(as_integer_fromval(v)) == k->n;
	case AS_STRING: return k->kind == 1 && strlen(as_string_get(as_string_fromval(v))) == k->len && ! memcmp(k->b, as_string_get(as_string_fromval(v)), k->len);
	case AS_BYTES: return k->kind == 2 && as_bytes_size(as_bytes_fromval(v)) == k->len && ! memcmp(k->b, as_bytes_get(as_bytes_fromval(v)), k->len);
	default: return false;
	}
}

/* Values are integers above 0, or nil (0). */
static int
code(const as_val* v)
{
	if (! v) return -1;
	if (as_val_type(v) == AS_NIL) return v == (as_val*)&as_nil ? 0 : -2;
	if (as_val_type(v) == AS_INTEGER) return (int)as_integer_get(as_integer_fromval(v));
	return -3;
}

typedef struct { const as_val** k; const as_val** v; uint32_t n, max; } visit_t;

static bool
each(const as_val* k, const as_val* v, void* ud)
{
	visit_t* t = ud;
	if (t->n >= t->max) return false;
	t->k[t->n] = k;
	t->v[t->n++] = v;
	return true;
}

static const as_val* VK[8192];
static const as_val* VV[8192];

/* Fills VK/VV; returns 1 if the visit was complete. */
static int
visit(uint32_t* n, int how)
{
	visit_t t = { VK, VV, 0, 8192 };
	int r = 0;
	switch (how) {
	case 0: r = as_orderedmap_foreach(M, each, &t); break;
	case 1: r = as_map_foreach((as_map*)M, each, &t); break;
	default: {
		as_orderedmap_iterator st, *it;
		as_map_iterator mst, *mit;
		as_iterator* g;
		if (how == 2) { it = as_orderedmap_iterator_init(&st, M); g = (as_iterator*)it; }
		else if (how == 3) { it = as_orderedmap_iterator_new(M); g = (as_iterator*)it; }
		else if (how == 4) { mit = as_map_iterator_init(&mst, (as_map*)M); g = (as_iterator*)mit; }
		else { mit = as_map_iterator_new((as_map*)M); g = (as_iterator*)mit; }
		while (as_iterator_has_next(g) && t.n < t.max) {
			const as_pair* p = (const as_pair*)as_iterator_next(g);
			if (! p) break;
			each(as_pair_1((as_pair*)p), as_pair_2((as_pair*)p), &t);
		}
		r = ! as_iterator_has_next(g);
		as_iterator_destroy(g);
	}
	}
	*n = t.n;
	return r;
}

static uint32_t
size(int how)
{
	return how & 1 ? as_map_size((as_map*)M) : as_orderedmap_size(M);
}

static int
do_set(as_val* k, as_val* v, int how)
{
	if (how == 1) return as_map_set((as_map*)M, k, v);
	if (how == 2) return as_hashmap_set(M, k, v);
	return as_orderedmap_set(M, k, v);
}

static const as_val*
do_get(const as_val* k, int how)
{
	if (how == 1) return as_map_get((as_map*)M, k);
	if (how == 2) return as_hashmap_get(M, k);
	return as_orderedmap_get(M, k);
}

static int
do_rem(const as_val* k, int how)
{
	if (how == 1) return as_map_remove((as_map*)M, k);
	if (how == 2) return as_hashmap_remove(M, k);
	return as_orderedmap_remove(M, k);
}

static void
make(int how, uint32_t cap)
{
	switch (how % 4) {
	case 0: M = as_orderedmap_new(cap); break;
	case 1: M = as_orderedmap_init(&stackM, cap); break;
	case 2: M = (as_orderedmap*)as_hashmap_new(cap); break;
	case 3: M = (as_orderedmap*)as_hashmap_init((as_hashmap*)&stackM, cap); break;
	}
	if (! M) WRONG("a map was not made\n");
}

static void
unmake(int how)
{
	if (how & 1) as_map_destroy((as_map*)M);
	else as_orderedmap_destroy(M);
}

/* ---- keys of every kind ---- */
static void
random_key(key_t_* k)
{
	static const int64_t ints[] = { INT64_MIN, INT64_MIN + 1, -4294967296, -4294967297, -65536, -2, -1, 0, 1, 2, 255, 256, 65535, 65536, 4294967295, 4294967296, INT64_MAX - 1, INT64_MAX };
	static const uint8_t abc[] = { 'a', 'b', 'A', 0xff, 0x80, 0x7f, 1 };
	k->kind = (int)vh_below(3);
	if (k->kind == 0) {
		k->n = vh_chance(80) ? ints[vh_below(sizeof(ints) / sizeof(*ints))] : (int64_t)(vh_next() >> vh_below(64));
		return;
	}
	k->len = vh_chance(60) ? vh_below(4) : vh_below(17);
	for (uint32_t i = 0; i < k->len; i++) {
		k->b[i] = vh_chance(70) ? 'a' : (k->kind == 2 && vh_chance(20)) ? 0 : abc[vh_below(sizeof(abc))];
	}
}

static as_val*
bad_key(int w)
{
	switch (w) {
	case 0: return NULL;
	case 1: return (as_val*)as_double_new(1.5);
	case 2: return (as_val*)as_boolean_new(true);
	case 3: return (as_val*)as_arraylist_new(2, 2);
	case 4: return (as_val*)as_orderedmap_new(2);
	case 5: return (as_val*)as_geojson_new_strdup("{}");
	case 6: return (as_val*)&as_nil;
	default: {
		as_bytes* b = as_bytes_new(2);
		as_bytes_append_byte(b, 1);
		b->type = AS_BYTES_JAVA;
		return (as_val*)b;
	}
	}
}

static void
random_scenario(uint32_t len)
{
	int how = (int)vh_below(4);
	static const uint32_t caps[] = { 0, 1, 2, 7, 8, 9, 16, 64 };
	make(how, caps[vh_below(8)]);
	ev("{\"o\":\"init\",\"n\":%u}", size(0));
	key_t_ pool[40];
	uint32_t np = 3 + vh_below(37);
	for (uint32_t i = 0; i < np; i++) random_key(&pool[i]);
	int next = 1;

	for (uint32_t i = 0; i < len; i++) {
		uint32_t op = vh_below(100);
		key_t_* k = &pool[vh_below(np)];
		int h = (int)vh_below(3);
		if (op < 45) {
			int v = vh_chance(5) ? 0 : next++;
			as_val* kv = mkkey(k);
			evp("{\"o\":\"set\",\"k\":");
			evkey(kv);
			int r;
			if (k->kind == 1 && vh_chance(30)) {
				char s[32];
				memcpy(s, k->b, k->len);
				s[k->len] = 0;
				as_val_destroy(kv);
				r = vh_chance(50) && v ? as_stringmap_set_int64((as_map*)M, s, v)
						: as_stringmap_set((as_map*)M, s, v ? (as_val*)as_integer_new(v) : vh_chance(50) ? NULL : (as_val*)&as_nil);
			}
			else {
				r = do_set(kv, v ? (as_val*)as_integer_new(v) : vh_chance(50) ? NULL : (as_val*)&as_nil, h);
			}
			ev(",\"v\":%d,\"r\":%d,\"n\":%u}", v, r, size(h));
		}
		else if (op < 70) {
			as_val* kv = mkkey(k);
			evp("{\"o\":\"get\",\"k\":");
			evkey(kv);
			const as_val* v;
			static as_double wrong;
			if (k->kind == 1 && vh_chance(30)) {
				char s[32];
				memcpy(s, k->b, k->len);
				s[k->len] = 0;
				v = as_stringmap_get((as_map*)M, s);
				if (v && as_val_type(v) == AS_INTEGER && as_stringmap_get_int64((as_map*)M, s) != as_integer_get(as_integer_fromval(v))) v = (as_val*)as_double_init(&wrong, 0);
			}
			else {
				v = do_get(kv, h);
			}
			ev(",\"v\":%d,\"n\":%u}", code(v), size(h));
			as_val_destroy(kv);
		}
		else if (op < 88) {
			as_val* kv = mkkey(k);
			evp("{\"o\":\"rem\",\"k\":");
			evkey(kv);
			int r = do_rem(kv, h);
			ev(",\"r\":%d,\"n\":%u}", r, size(h));
			as_val_destroy(kv);
		}
		else if (op < 90) {
			int r = vh_chance(50) ? as_orderedmap_clear(M) : as_map_clear((as_map*)M);
			ev("{\"o\":\"clear\",\"r\":%d,\"n\":%u}", r, size(h));
		}
		else if (op < 94) {
			as_val* kv = bad_key((int)vh_below(8));
			as_val* v = (as_val*)as_integer_new(7);
			int rs = do_set(kv, v, h);
			int g = code(do_get(kv, h));
			int rr = do_rem(kv, h);
			ev("{\"o\":\"bad\",\"rs\":%d,\"v\":%d,\"rr\":%d,\"n\":%u}", rs, g, rr, size(h));
			as_val_destroy(v);
			if (kv) as_val_destroy(kv);
		}
		else {
			uint32_t n;
			int r = visit(&n, (int)vh_below(6));
			evp("{\"o\":\"visit\",\"r\":%d,\"ks\":[", r);
			for (uint32_t j = 0; j < n; j++) {
				if (j) evp(",");
				evkey(VK[j]);
			}
			evp("],\"vs\":[");
			for (uint32_t j = 0; j < n; j++) evp(j ? ",%d" : "%d", code(VV[j]));
			ev("]}");
		}
	}
	unmake(how);
}

/* ---- thousands of keys ---- */
static int64_t stride;
static int N;

static as_val*
bigkey(int k)
{
	return (as_val*)as_integer_new((int64_t)(k - N / 2) * stride);
}

static int
unbig(const as_val* v)
{
	as_integer* i = as_integer_fromval(v);
	if (! i || as_integer_get(i) % stride) return 1;
	int64_t k = as_integer_get(i) / stride + N / 2;
	return k >= 1 && k <= N ? (int)k : 1;
}

static int bv;

static void
bset(int k)
{
	int r = do_set(bigkey(k), (as_val*)as_integer_new(++bv), (int)vh_below(3));
	ev("{\"o\":\"set\",\"k\":%d,\"v\":%d,\"r\":%d,\"n\":%u}", k, bv, r, size(0));
}

static void
bget(int k)
{
	as_integer i;
	as_integer_init(&i, (int64_t)(k - N / 2) * stride);
	int v = code(do_get((as_val*)&i, (int)vh_below(3)));
	ev("{\"o\":\"get\",\"k\":%d,\"v\":%d,\"n\":%u}", k, v, size(0));
}

static void
brem(int k)
{
	as_integer i;
	as_integer_init(&i, (int64_t)(k - N / 2) * stride);
	int r = do_rem((as_val*)&i, (int)vh_below(3));
	ev("{\"o\":\"rem\",\"k\":%d,\"r\":%d,\"n\":%u}", k, r, size(0));
}

static void
bvisit(void)
{
	uint32_t n;
	int r = visit(&n, (int)vh_below(6));
	evp("{\"o\":\"visit\",\"r\":%d,\"ks\":[", r);
	for (uint32_t j = 0; j < n; j++) evp(j ? ",%d" : "%d", unbig(VK[j]));
	evp("],\"vs\":[");
	for (uint32_t j = 0; j < n; j++) evp(j ? ",%d" : "%d", code(VV[j]));
	ev("]}");
}

static void
bclear(void)
{
	int r = as_orderedmap_clear(M);
	ev("{\"o\":\"clear\",\"r\":%d,\"n\":%u}", r, size(0));
}

static void
big(void)
{
	static const uint32_t caps[] = { 0, 8, 1000, 5000 };
	int how = (int)vh_below(4);
	N = 2600 + (int)vh_below(900);
	stride = vh_chance(50) ? 1 : (int64_t)1 << (8 + vh_below(40));
	bv = 0;
	make(how, caps[vh_below(4)]);
	ev("{\"o\":\"init\",\"max\":%d,\"n\":%u}", N, size(0));
	int order = (int)vh_below(4);
	int* p = malloc(N * sizeof(int));
	for (int i = 0; i < N; i++) p[i] = i + 1;
	if (order == 0) {
		for (int i = N - 1; i > 0; i--) { int j = (int)vh_below(i + 1); int t = p[i]; p[i] = p[j]; p[j] = t; }
	}
	else if (order == 1) {
		/* upper part ascending, then the lower part descending */
		int hi = 1000 + (int)vh_below(600);
		for (int i = 0; i < hi; i++) p[i] = N - hi + 1 + i;
		for (int i = hi; i < N; i++) p[i] = N - i;
	}
	else if (order == 2) {
		/* upper part ascending, then the lower part in random order */
		int hi = 1000 + (int)vh_below(100);
		for (int i = 0; i < hi; i++) p[i] = N - hi + 1 + i;
		for (int i = hi; i < N; i++) p[i] = N - i;
		for (int i = N - 1; i > hi; i--) { int j = hi + (int)vh_below(i + 1 - hi); int t = p[i]; p[i] = p[j]; p[j] = t; }
	}
	else {
		for (int i = 0; i < N; i++) p[i] = N - i;
	}
	uint32_t rem_pct = vh_chance(50) ? 0 : 1 + vh_below(3);
	int count = N - (int)vh_below(300);
	for (int i = 0; i < count; i++) {
		bset(p[i]);
		if (vh_chance(15)) bget(p[vh_below(i + 1)]);
		if (vh_chance(6)) bget(1 + vh_below(N));
		if (vh_chance(8)) bset(p[i - (int)vh_below(i > 50 ? 50 : i + 1)]);
		if (vh_chance(3)) bset(p[vh_below(i + 1)]);
		if (vh_below(100 * 10) < rem_pct * 10 && vh_chance(30)) brem(p[vh_below(i + 1)]);
		if (i == 2100 && vh_chance(40)) bvisit();
		if (i == 1300 && vh_chance(10)) bclear();
	}
	for (int i = 0; i < 100; i++) bget(1 + vh_below(N));
	if (vh_chance(80)) bvisit();
	for (int i = 0; i < 500; i++) {
		int k = 1 + (int)vh_below(N);
		switch (vh_below(4)) {
		case 0: brem(k); break;
		case 1: bset(k); break;
		default: bget(k);
		}
	}
	if (vh_chance(80)) bvisit();
	unmake(how);
	free(p);
}

/* ---- specified histories: KEYSET HOW CAP then op:key ... ---- */
static void
script(const char* in)
{
	static const key_t_ sets[4][3] = {
		{ { 0, -5 }, { 0, 0 }, { 0, 70000 } },
		{ { 1, 0, "", 0 }, { 1, 0, "a", 1 }, { 1, 0, "ab", 2 } },
		{ { 2, 0, "\0", 1 }, { 2, 0, "\0\0", 2 }, { 2, 0, "\xff", 1 } },
		{ { 0, INT64_MAX }, { 1, 0, "", 0 }, { 2, 0, "", 0 } },
	};
	FILE* f = fopen(in, "r");
	if (! f) MISUSE("no script\n");
	char line[4096];
	while (fgets(line, sizeof(line), f)) {
		char* save;
		int ks = atoi(strtok_r(line, " \n", &save));
		int how = atoi(strtok_r(NULL, " \n", &save));
		uint32_t cap = (uint32_t)atoi(strtok_r(NULL, " \n", &save));
		make(how, cap);
		ev("{\"o\":\"init\"}");
		char* t;
		int v = 0;
		while ((t = strtok_r(NULL, " \n", &save))) {
			int k = atoi(t + 1) - 1;
			int h = (how + v) % 3;
			v++;
			int r;
			as_val* kv = t[0] == 'c' ? NULL : mkkey(&sets[ks][k]);
			if (t[0] == 's') r = do_set(kv, (as_val*)as_integer_new(v), h);
			else if (t[0] == 'r') { r = do_rem(kv, h); as_val_destroy(kv); }
			else r = as_orderedmap_clear(M);
			evp("{\"o\":\"%c\",\"r\":%d,\"n\":%u,\"g\":[", t[0], r, size(h));
			for (int j = 0; j < 3; j++) {
				as_val* q = mkkey(&sets[ks][j]);
				evp(j ? ",%d" : "%d", code(do_get(q, h)));
				as_val_destroy(q);
			}
			uint32_t n;
			int c = visit(&n, (how + v) % 6);
			evp("],\"c\":%d,\"v\":[", c);
			for (uint32_t j = 0; j < n; j++) {
				int which = -1;
				for (int x = 0; x < 3; x++) {
					if (same_key(&sets[ks][x], VK[j])) which = x + 1;
				}
				evp(j ? ",%d" : "%d", which);
			}
			ev("]}");
		}
		unmake(how);
	}
	fclose(f);
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		for (int s = atoi(argv[3]); s > 0; s--) random_scenario((uint32_t)atoi(argv[4]));
	}
	else if (! strcmp(argv[1], "big")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		big();
	}
	else {
		script(argv[2]);
	}
	vh_close();
	return 0;
}
