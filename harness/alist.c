/* Drives as_arraylist.  alist random SEED SCENARIOS LEN OUT | alist script IN OUT */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_list.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_double.h>
#include <aerospike/as_string.h>
#include <aerospike/as_nil.h>
#include <alloca.h>
#include "vh.h"

static as_arraylist* L[2];
static as_arraylist S[2];

static int
code(const as_val* v)
{
	if (! v) return -1;
	switch (as_val_type(v)) {
	case AS_NIL: return v == (as_val*)&as_nil ? 0 : -2;
	case AS_INTEGER: return 1000 + (int)as_integer_get(as_integer_fromval(v));
	case AS_DOUBLE: return 2000 + (int)as_double_get(as_double_fromval(v));
	case AS_STRING: return 3000 + atoi(as_string_get(as_string_fromval(v)));
	default: return -3;
	}
}

static bool
each(as_val* v, void* ud)
{
	int* n = ud;
	evp((*n)++ ? ",%d" : "%d", code(v));
	return true;
}

static void
obs(void)
{
	for (int k = 0; k < 2; k++) {
		evp(",\"n%d\":%u,\"q%d\":[", k, as_arraylist_size(L[k]), k);
		int n = 0;
		as_arraylist_foreach(L[k], each, &n);
		evp("]");
	}
	ev("}");
}

static as_val*
mkval(int x)
{
	char b[16];
	switch (x / 1000) {
	case 1: return (as_val*)as_integer_new(x % 1000);
	case 2: return (as_val*)as_double_new(x % 1000);
	case 3: snprintf(b, sizeof(b), "%d", x % 1000); return (as_val*)as_string_new_strdup(b);
	default: return NULL;
	}
}

/* via: 0 direct, 1 generic list interface; typed: use the typed form */
static int
edit(const char* o, int l, int m, uint32_t ix, int x, int via, bool typed)
{
	as_arraylist* a = L[l];
	as_list* g = (as_list*)a;
	char s[16];
	int k = x / 1000, p = x % 1000, r = -99;
	snprintf(s, sizeof(s), "%d", p);
	if (! strcmp(o, "rem")) return via ? as_list_remove(g, ix) : as_arraylist_remove(a, ix);
	if (! strcmp(o, "trim")) return via ? as_list_trim(g, ix) : as_arraylist_trim(a, ix);
	if (! strcmp(o, "cat")) return via ? as_list_concat(g, (as_list*)L[m]) : as_arraylist_concat(a, L[m]);
	as_val* v = NULL;
	if (! typed || k == 0) v = mkval(x);
	/* an absent value is given as NULL or as the nil constant */
	if (k == 0 && typed) v = (as_val*)&as_nil;
	if (! strcmp(o, "set")) {
		if (! typed || k == 0) r = via ? as_list_set(g, ix, v) : as_arraylist_set(a, ix, v);
		else if (k == 1) r = via ? as_list_set_int64(g, ix, p) : as_arraylist_set_int64(a, ix, p);
		else if (k == 2) r = via ? as_list_set_double(g, ix, p) : as_arraylist_set_double(a, ix, p);
		else r = via ? as_list_set_str(g, ix, s) : as_arraylist_set_str(a, ix, s);
	}
	else if (! strcmp(o, "ins")) {
		if (! typed || k == 0) r = via ? as_list_insert(g, ix, v) : as_arraylist_insert(a, ix, v);
		else if (k == 1) r = via ? as_list_insert_int64(g, ix, p) : as_arraylist_insert_int64(a, ix, p);
		else if (k == 2) r = via ? as_list_insert_double(g, ix, p) : as_arraylist_insert_double(a, ix, p);
		else r = via ? as_list_insert_str(g, ix, s) : as_arraylist_insert_str(a, ix, s);
	}
	else if (! strcmp(o, "app")) {
		if (! typed || k == 0) r = via ? as_list_append(g, v) : as_arraylist_append(a, v);
		else if (k == 1) r = via ? as_list_append_int64(g, p) : as_arraylist_append_int64(a, p);
		else if (k == 2) r = via ? as_list_append_double(g, p) : as_arraylist_append_double(a, p);
		else r = via ? as_list_append_str(g, s) : as_arraylist_append_str(a, s);
	}
	else if (! strcmp(o, "pre")) {
		if (! typed || k == 0) r = via ? as_list_prepend(g, v) : as_arraylist_prepend(a, v);
		else if (k == 1) r = via ? as_list_prepend_int64(g, p) : as_arraylist_prepend_int64(a, p);
		else if (k == 2) r = via ? as_list_prepend_double(g, p) : as_arraylist_prepend_double(a, p);
		else r = via ? as_list_prepend_str(g, s) : as_arraylist_prepend_str(a, s);
	}
	else MISUSE("op %s\n", o);
	/* on refusal the caller still owns a generic value */
	if (r != 0 && v) as_val_destroy(v);
	return r;
}

static void
get(const char* o, int l, uint32_t ix, int via)
{
	as_arraylist* a = L[l];
	as_list* g = (as_list*)a;
	int v = -99;
	if (! strcmp(o, "get")) v = code(via ? as_list_get(g, ix) : as_arraylist_get(a, ix));
	else if (! strcmp(o, "head")) v = code(via ? as_list_head(g) : as_arraylist_head(a));
	else if (! strcmp(o, "geti")) v = (int)(via ? as_list_get_int64(g, ix) : as_arraylist_get_int64(a, ix));
	else if (! strcmp(o, "getd")) v = (int)(via ? as_list_get_double(g, ix) : as_arraylist_get_double(a, ix));
	else if (! strcmp(o, "gets")) { char* s = via ? as_list_get_str(g, ix) : as_arraylist_get_str(a, ix); v = s ? atoi(s) : -1; }
	evp("{\"o\":\"%s\",\"l\":%d,\"ix\":%u,\"v\":%d", o, l, ix > 100000 ? 100000 : ix, v);
	obs();
}

static void
derive(const char* o, int l, uint32_t n, int via)
{
	as_arraylist* a = L[l];
	as_list* g = (as_list*)a;
	as_arraylist* d;
	if (! strcmp(o, "take")) d = via ? (as_arraylist*)as_list_take(g, n) : as_arraylist_take(a, n);
	else if (! strcmp(o, "drop")) d = via ? (as_arraylist*)as_list_drop(g, n) : as_arraylist_drop(a, n);
	else d = via ? (as_arraylist*)as_list_tail(g) : as_arraylist_tail(a);
	if (d) { as_arraylist_destroy(L[1]); L[1] = d; }
	evp("{\"o\":\"%s\",\"l\":%d,\"ix\":%u,\"r\":%d", o, l, n > 100000 ? 100000 : n, d != NULL);
	obs();
}

static void
mk(int k, uint32_t cap, uint32_t blk, int st)
{
	if (st == 0) { L[k] = as_arraylist_new(cap, blk); }
	else { L[k] = as_arraylist_init(&S[k], cap, blk); }
}

static void
scenario(uint32_t c0, uint32_t b0, int st0, uint32_t c1, uint32_t b1, int len, char* script)
{
	if (st0 == 2) {
		b0 = 0;
		if (c0 == 0) c0 = 1;
		as_arraylist_inita(&S[0], c0);
		L[0] = &S[0];
	}
	else mk(0, c0, b0, st0);
	mk(1, c1, b1, vh_below(2));
	if (script) {
		as_arraylist_append_int64(L[1], 9);
		as_arraylist_append_int64(L[1], 8);
	}
	evp("{\"o\":\"init\",\"c0\":%u,\"b0\":%u,\"c1\":%u,\"b1\":%u", c0, b0, c1, b1);
	obs();
	if (script) {
		char* save;
		char* w = strtok_r(script, " ", &save);
		for (; w; w = strtok_r(NULL, " ", &save)) {
			char o[8]; unsigned ix; int x;
			if (sscanf(w, "%7[a-z]:%u:%d", o, &ix, &x) != 3) MISUSE("script\n");
			int m = ! strcmp(o, "cat") ? ix : 0;
			int r = edit(o, 0, m, ix, x, vh_below(2), vh_chance(50));
			as_arraylist* t = as_arraylist_take(L[0], 2);
			as_arraylist* d = as_arraylist_drop(L[0], 2);
			evp("{\"o\":\"%s\",\"r\":%d,\"t\":[", o, r);
			int n = 0;
			as_arraylist_foreach(t, each, &n);
			evp("],\"d\":[");
			n = 0;
			as_arraylist_foreach(d, each, &n);
			evp("]");
			as_arraylist_destroy(t);
			as_arraylist_destroy(d);
			obs();
		}
	}
	else {
		for (int i = 0; i < len; i++) {
			int l = vh_chance(75) ? 0 : 1, k = vh_below(100), via = vh_below(2);
			uint32_t sz = as_arraylist_size(L[l]);
			uint32_t ix = vh_chance(85) ? vh_below(sz + 2) : sz + vh_below(12);
			int x = vh_chance(10) ? 0 : (1 + vh_below(3)) * 1000 + vh_below(900);
			bool typed = vh_chance(50);
			if (k < 50 && sz < 40) {
				static const char* es[] = {"set", "ins", "app", "pre"};
				const char* o = es[vh_below(4)];
				int r = edit(o, l, 0, ix, x, via, typed);
				evp("{\"o\":\"%s\",\"l\":%d,\"m\":0,\"ix\":%u,\"x\":%d,\"r\":%d", o, l, ix, x, r);
				obs();
			}
			else if (k < 62) {
				if (vh_chance(8)) ix = 0xFFFFFFFFu - vh_below(3);
				int r = edit("rem", l, 0, ix, 0, via, false);
				evp("{\"o\":\"rem\",\"l\":%d,\"m\":0,\"ix\":%u,\"x\":0,\"r\":%d", l, ix > 100000 ? 100000 : ix, r);
				obs();
			}
			else if (k < 66) {
				if (vh_chance(8)) ix = 0xFFFFFFFFu;
				int r = edit("trim", l, 0, ix, 0, via, false);
				evp("{\"o\":\"trim\",\"l\":%d,\"m\":0,\"ix\":%u,\"x\":0,\"r\":%d", l, ix > 100000 ? 100000 : ix, r);
				obs();
			}
			else if (k < 74) {
				int m = vh_below(2);
				if (as_arraylist_size(L[m]) > 30) continue;
				int r = edit("cat", l, m, 0, 0, via, false);
				evp("{\"o\":\"cat\",\"l\":%d,\"m\":%d,\"ix\":0,\"x\":0,\"r\":%d", l, m, r);
				obs();
			}
			else if (k < 92) {
				static const char* gs[] = {"get", "geti", "getd", "gets", "head"};
				if (vh_chance(10)) ix = 0xFFFFFFFFu - vh_below(2);
				get(gs[vh_below(5)], l, ix, via);
			}
			else if (k < 98) {
				static const char* ds[] = {"take", "drop", "tail"};
				if (vh_chance(10)) ix = 0xFFFFFFFFu;
				derive(ds[vh_below(3)], vh_chance(90) ? 0 : l, ix, via);
			}
			else {
				static const uint32_t hs[] = {0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFF0u, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFF8u};
				ix = hs[vh_below(6)];
				int r = edit(vh_chance(50) ? "set" : "ins", l, 0, ix, x, via, typed);
				evp("{\"o\":\"huge\",\"l\":%d,\"r\":%d", l, r);
				obs();
			}
		}
	}
	as_arraylist_destroy(L[0]);
	as_arraylist_destroy(L[1]);
}

int
main(int argc, char** argv)
{
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		int sc = atoi(argv[3]), len = atoi(argv[4]);
		vh_open(argv[5]);
		while (sc--) scenario(vh_below(8), vh_chance(40) ? 0 : 1 + vh_below(5), vh_below(3), vh_below(6), vh_chance(30) ? 0 : 1 + vh_below(4), len, NULL);
	}
	else {
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		static char line[4096];
		while (fgets(line, sizeof(line), f)) {
			unsigned c, b; int st, n;
			line[strcspn(line, "\n")] = 0;
			if (sscanf(line, "%u %u %d %n", &c, &b, &st, &n) != 3) MISUSE("script\n");
			scenario(c, b, st, 2, 0, 0, line + n);
		}
	}
	vh_close();
	return 0;
}
