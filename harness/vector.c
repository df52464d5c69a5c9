/* Drives as_vector.  vector random SEED SCENARIOS LEN OUT | vector script IN OUT */
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
#include <alloca.h>
#include "vh.h"

static as_vector* v;
static as_vector vs;
static uint32_t isz;
static uint8_t* item;

/* item 0 is all zeroes */
static void
mk(uint8_t* b, int id)
{
	if (id == 0) memset(b, 0, isz);
	else item_make(b, isz, id);
}

static int
rd(const uint8_t* b)
{
	uint32_t k;
	uint32_t n = isz < ITEM_WIDE ? isz : 16;
	for (k = 0; k < n && b[k] == 0; k++) ;
	return k == n ? 0 : item_read(b, isz);
}

static void
obs(void)
{
	evp(",\"n\":%u,\"c\":%u,\"q\":[", v->size, v->capacity);
	for (uint32_t i = 0; i < v->size; i++) evp(i ? ",%d" : "%d", rd(as_vector_get(v, i)));
	for (uint32_t i = 0; isz % 8 == 0 && i < v->size; i++) {
		void* p = as_vector_get_ptr(v, i);
		if (memcmp(&p, as_vector_get(v, i), sizeof(p))) WRONG("an item read as a pointer is not the item\n");
	}
	if (isz >= ITEM_WIDE && v->size < 66) { ev("]}"); return; }	/* copying takes long */
	uint32_t n = 77777;
	uint8_t* a = as_vector_to_array(v, &n);
	evp("],\"arrn\":%u,\"arr\":[", n);
	for (uint32_t i = 0; i < n && i < 100000; i++) evp(i ? ",%d" : "%d", rd(a + (size_t)i * isz));
	cf_free(a);
	ev("]}");
}

static void
op(const char* o, int x, uint32_t ix)
{
	int r = 1;
	mk(item, x);
	if (! strcmp(o, "app")) as_vector_append(v, item);
	else if (! strcmp(o, "uni")) r = as_vector_append_unique(v, item);
	else if (! strcmp(o, "res")) { void* p = as_vector_reserve(v); r = p == as_vector_get(v, v->size - 1); }
	else if (! strcmp(o, "set")) as_vector_set(v, ix, item);
	else if (! strcmp(o, "rem")) r = as_vector_remove(v, ix);
	else if (! strcmp(o, "clr")) as_vector_clear(v);
	else if (! strcmp(o, "grow")) as_vector_increase_capacity(v);
	else MISUSE("op %s\n", o);
	evp("{\"o\":\"%s\",\"x\":%d,\"ix\":%d,\"r\":%d", o, x, (int)ix, r);
	obs();
}

static void
scenario(uint32_t cap, uint32_t sz, int st, uint32_t len, char* script)
{
	isz = sz;
	item = malloc(isz);
	if (st == 0) { v = &vs; as_vector_init(v, isz, cap); }
	else if (st == 1) v = as_vector_create(isz, cap);
	else { v = &vs; as_vector_inita(v, isz, cap); memset(v->list, 0xA5, cap * isz); }
	evp("{\"o\":\"init\",\"x\":%d", st);
	obs();
	if (script) {
		char* save;
		char* w = strtok_r(script, " ", &save);
		for (; w; w = strtok_r(NULL, " ", &save)) {
			char o[8]; int x; unsigned ix;
			if (sscanf(w, "%7[a-z]:%d:%u", o, &x, &ix) != 3) MISUSE("script\n");
			op(o, x, ix);
		}
	}
	else {
		int bias = 60;
		for (uint32_t i = 0; i < len; i++) {
			if (i % 9 == 0) bias = 30 + vh_below(60);
			int x = vh_below(12);
			if (vh_chance(bias)) {
				static const char* ps[] = {"app", "uni", "res"};
				op(ps[vh_below(3)], x, 0);
			}
			else {
				int k = vh_below(10);
				if (k < 4) op("rem", 0, vh_chance(5) ? 0x7fffffff : vh_below(v->size + 2));
				else if (k < 8 && v->size) op("set", x, vh_below(v->size));
				else if (k == 8 && vh_chance(30)) op("clr", 0, 0);
				else if (vh_chance(20) && v->capacity < 64) op("grow", 0, 0);
			}
		}
	}
	as_vector_destroy(v);
	free(item);
}

static char*
huge_script(void)
{
	static char s[8192];
	char* p = s;
	for (int k = 1; k <= 67; k++) p += sprintf(p, "%s:%d:0 ", k % 7 == 0 ? "uni" : k % 11 == 0 ? "res" : "app", k % 11 ? k : 0);
	p += sprintf(p, "uni:66:0 set:99:66 set:98:64 rem:0:2 rem:0:65 res:0:0 app:100:0 uni:100:0 rem:0:0 app:101:0 rem:0:63");
	return s;
}

int
main(int argc, char** argv)
{
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		int sc = atoi(argv[3]), len = atoi(argv[4]);
		vh_open(argv[5]);
		while (sc--) {
			static const uint32_t sizes[] = {1, 2, 3, 4, 8, 16, 24, 37};
			scenario(1 + vh_below(8), sizes[vh_below(8)], vh_below(3), len, NULL);
		}
	}
	else if (! strcmp(argv[1], "huge")) {
		/* storage beyond 4 GB */
		vh_open(argv[3]);
		if (vh_memory(14)) scenario(atoi(argv[2]), 1u << 26, 0, 0, huge_script());
	}
	else {
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		static char line[4096];
		while (fgets(line, sizeof(line), f)) {
			uint32_t cap, sz; int st, n;
			line[strcspn(line, "\n")] = 0;
			if (sscanf(line, "%u %u %d %n", &cap, &sz, &st, &n) != 3) MISUSE("script\n");
			scenario(cap, sz, st, 0, line + n);
		}
	}
	vh_close();
	return 0;
}
