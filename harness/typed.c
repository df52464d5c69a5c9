/* Stores values in lists and string-keyed maps through the typed calls and
 * reads every place back through every typed call.
 *   typed SCRIPT OUT
 * Script: one history per line: container (a list, g list through the generic
 * calls, f list of fixed size 3, h fixed size through the generic calls, m map),
 * then calls  op form place value  separated by ';' (see specs/Typed.tla). */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include "vh.h"

static const char* keys[] = { "", "a", "b", "ab", "a much longer key that shares the first letter" };

/* what a value with number v looks like; numbers go from 1 */
static int64_t num(int v) { return (int64_t)v * 4294967311LL - 7; }
static double real(int v) { return v + 0.25; }
static const char* text(int v) { static char t[16]; snprintf(t, sizeof(t), "t%d", v); return t; }
static const char* geo(int v) { static char t[16]; snprintf(t, sizeof(t), "{%d}", v); return t; }

static int from_num(int64_t x) { return x == 0 ? 0 : (x + 7) % 4294967311LL ? -1 : (int)((x + 7) / 4294967311LL); }
static int from_real(double x) { return x == 0 ? 0 : (int)(x - 0.25) == x - 0.25 ? (int)(x - 0.25) : -1; }
static int from_text(const char* s) { int v; return ! s ? 0 : sscanf(s, "t%d", &v) == 1 && ! strcmp(s, text(v)) ? v : -1; }
static int from_geo(const char* s) { int v; return ! s ? 0 : sscanf(s, "{%d}", &v) == 1 && ! strcmp(s, geo(v)) ? v : -1; }
static int from_bytes(as_bytes* b) { return ! b ? 0 : as_bytes_size(b) == 3 && as_bytes_get(b)[0] == 0 && as_bytes_get(b)[2] == 255 ? as_bytes_get(b)[1] : -1; }
static int from_list(as_list* l) { return ! l ? 0 : as_list_size(l) == 1 ? from_num(as_list_get_int64(l, 0)) : -1; }
static int
from_map(as_map* m)
{
	as_integer k;
	as_integer_init(&k, 1);
	return ! m ? 0 : as_map_size(m) == 1 ? from_num(as_integer_get((as_integer*)as_map_get(m, (as_val*)&k))) : -1;
}

static as_val*
make(const char* form, int v)
{
	static uint8_t raw[256][3];
	if (! strcmp(form, "integer")) return (as_val*)as_integer_new(num(v));
	if (! strcmp(form, "as_double")) return (as_val*)as_double_new(real(v));
	if (! strcmp(form, "string")) return (as_val*)as_string_new_strdup(text(v));
	if (! strcmp(form, "geojson")) return (as_val*)as_geojson_new_strdup(geo(v));
	if (! strcmp(form, "boolean")) return (as_val*)as_boolean_new(v % 2);
	if (! strcmp(form, "nil")) return as_val_reserve((as_val*)&as_nil);
	if (! strcmp(form, "bytes")) {
		raw[v][1] = (uint8_t)v;
		raw[v][2] = 255;
		return (as_val*)as_bytes_new_wrap(raw[v], 3, false);
	}
	if (! strcmp(form, "list")) {
		as_arraylist* l = as_arraylist_new(1, 1);
		as_arraylist_append_int64(l, num(v));
		return (as_val*)l;
	}
	as_orderedmap* m = as_orderedmap_new(1);
	as_orderedmap_set(m, (as_val*)as_integer_new(1), (as_val*)as_integer_new(num(v)));
	return (as_val*)m;
}

#define IS(s) (! strcmp(form, s))
#define PLAIN(f, c, ...) \
	if (IS("int64")) return f##_int64(c, ##__VA_ARGS__, num(v)); \
	if (IS("double")) return f##_double(c, ##__VA_ARGS__, real(v)); \
	if (IS("str")) return f##_str(c, ##__VA_ARGS__, text(v));
#define MADE(f, c, ...) \
	if (IS("integer")) return f##_integer(c, ##__VA_ARGS__, (as_integer*)x); \
	if (IS("as_double")) return f##_as_double(c, ##__VA_ARGS__, (as_double*)x); \
	if (IS("string")) return f##_string(c, ##__VA_ARGS__, (as_string*)x); \
	if (IS("bytes")) return f##_bytes(c, ##__VA_ARGS__, (as_bytes*)x); \
	if (IS("list")) return f##_list(c, ##__VA_ARGS__, (as_list*)x); \
	if (IS("map")) return f##_map(c, ##__VA_ARGS__, (as_map*)x); \
	return f(c, ##__VA_ARGS__, x);
#define STORE(f, c, ...) { if (! x) { PLAIN(f, c, ##__VA_ARGS__) MISUSE("form %s\n", form); } MADE(f, c, ##__VA_ARGS__) }

static int
store(char kind, void* c, const char* op, const char* form, uint32_t i, int v, as_val* x)
{
	as_list* g = c;
	as_arraylist* a = c;
	bool gen = kind == 'g' || kind == 'h';
	if (kind == 'm') { const char* k = keys[i]; as_map* m = c; STORE(as_stringmap_set, m, k) }
	if (! strcmp(op, "append")) { if (gen) STORE(as_list_append, g) else STORE(as_arraylist_append, a) }
	if (! strcmp(op, "prepend")) { if (gen) STORE(as_list_prepend, g) else STORE(as_arraylist_prepend, a) }
	if (! strcmp(op, "insert")) { if (gen) STORE(as_list_insert, g, i) else STORE(as_arraylist_insert, a, i) }
	if (! strcmp(op, "set")) { if (gen) STORE(as_list_set, g, i) else STORE(as_arraylist_set, a, i) }
	MISUSE("op %s\n", op);
}

#define LOOK(f, c, k) \
	evp("\"g\":[%d,", from_num(f##_int64(c, k))); \
	evp("%d,", from_real(f##_double(c, k))); \
	evp("%d,", from_text(f##_str(c, k))); \
	evp("%d,", from_num(as_integer_getorelse(f##_integer(c, k), 0))); \
	evp("%d,", from_real(as_double_getorelse(f##_as_double(c, k), 0))); \
	evp("%d,", from_text(as_string_getorelse(f##_string(c, k), NULL))); \
	evp("%d,", from_bytes(f##_bytes(c, k))); \
	evp("%d,", from_list(f##_list(c, k))); \
	evp("%d]", from_map(f##_map(c, k)));

/* the value itself: what it can be taken for, and what is shown if it cannot */
static void
itself(as_val* w)
{
	char* none = "none";
	uint8_t nothing = 0;
	evp(",\"from\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]",
		as_integer_fromval(w) == (void*)w && w, as_double_fromval(w) == (void*)w && w, as_string_fromval(w) == (void*)w && w,
		as_geojson_fromval(w) == (void*)w && w, as_bytes_fromval(w) == (void*)w && w, as_list_fromval(w) == (void*)w && w,
		as_map_fromval(w) == (void*)w && w, as_boolean_fromval(w) == (void*)w && w, as_pair_fromval(w) != NULL, as_rec_fromval(w) != NULL);
	evp(",\"else\":[%d,%d,%d,%d,%d,%d]",
		as_integer_getorelse(as_integer_fromval(w), 99) == 99, as_double_getorelse(as_double_fromval(w), 99) == 99,
		as_string_getorelse(as_string_fromval(w), none) == none, as_geojson_getorelse(as_geojson_fromval(w), none) == none,
		as_bytes_getorelse(as_bytes_fromval(w), &nothing) == &nothing, as_boolean_getorelse(as_boolean_fromval(w), true) && as_boolean_getorelse(as_boolean_fromval(w), false) == false);
	int v = w && as_val_type(w) == AS_GEOJSON ? from_geo(as_geojson_get((as_geojson*)w)) : w && as_val_type(w) == AS_BOOLEAN ? 1 + as_boolean_get((as_boolean*)w) + 2 * as_boolean_tobool((as_boolean*)w) : 0;
	evp(",\"v\":%d", v);
	/* an equal value made anew has the same hash code */
	as_val* twin = NULL;
	switch (w ? as_val_type(w) : AS_UNDEF) {
	case AS_INTEGER: twin = make("integer", from_num(as_integer_toint((as_integer*)w))); break;
	case AS_DOUBLE: twin = make("as_double", from_real(as_double_get((as_double*)w))); break;
	case AS_STRING: twin = make("string", from_text(as_string_get((as_string*)w))); break;
	case AS_GEOJSON: twin = make("geojson", v); break;
	case AS_BYTES: twin = make("bytes", from_bytes((as_bytes*)w)); break;
	case AS_BOOLEAN: twin = make("boolean", v > 1); break;
	case AS_LIST: twin = make("list", from_list((as_list*)w)); break;
	case AS_MAP: twin = make("map", from_map((as_map*)w)); break;
	default: break;
	}
	evp(",\"h\":%s", ! twin || as_val_hashcode(twin) == as_val_hashcode(w) ? "true" : "false");
	if (twin) as_val_destroy(twin);
}

int
main(int argc, char** argv)
{
	if (argc < 3) return 3;
	FILE* in = fopen(argv[1], "r");
	if (! in) return 3;
	vh_open(argv[2]);
	static char line[8192];
	while (fgets(line, sizeof(line), in)) {
		char kind = line[0];
		bool map = kind == 'm', fixed = kind == 'f' || kind == 'h', gen = kind == 'g' || kind == 'h';
		as_arraylist* l = map ? NULL : as_arraylist_new(fixed ? 3 : 1, fixed ? 0 : 1);
		as_map* m = ! map ? NULL : line[1] == '1' ? (as_map*)as_hashmap_new(2) : (as_map*)as_orderedmap_new(1);
		ev("{\"o\":\"init\",\"k\":\"%s\",\"cap\":%d}", map ? "map" : "list", fixed ? 3 : -1);
		char* rest = line + 2;
		for (char* w = strtok(rest, ";\n"); w; w = strtok(NULL, ";\n")) {
			char op[12], form[12];
			int i, v;
			if (sscanf(w, " %11s %11s %d %d", op, form, &i, &v) != 4) return 3;
			bool plain = IS("int64") || IS("double") || IS("str");
			as_val* x = plain ? NULL : make(form, v);
			if (! plain && ! x) WRONG("no value was made\n");
			int r = store(kind, map ? (void*)m : l, op, form, (uint32_t)i, v, x);
			if (r && x) as_val_destroy(x);		/* refused: still the caller's */
			ev("{\"o\":\"put\",\"op\":\"%s\",\"form\":\"%s\",\"i\":%d,\"v\":%d,\"r\":%s}", op, form, i, v, r ? "false" : "true");
		}
		int n = map ? 5 : (int)as_arraylist_size(l) + 2;
		for (int i = 0; i < n; i++) {
			evp("{\"o\":\"look\",\"i\":%d,", i);
			as_val* w;
			if (map) { LOOK(as_stringmap_get, m, keys[i]) w = as_stringmap_get(m, keys[i]); }
			else if (gen) { LOOK(as_list_get, (as_list*)l, (uint32_t)i) w = as_list_get((as_list*)l, (uint32_t)i); }
			else { LOOK(as_arraylist_get, l, (uint32_t)i) w = as_arraylist_get(l, (uint32_t)i); }
			itself(w);
			ev("}");
		}
		ev("{\"o\":\"size\",\"n\":%u}", map ? as_map_size(m) : as_list_size((as_list*)l));
		if (map) as_map_destroy(m); else as_arraylist_destroy(l);
	}
	vh_close();
	return 0;
}
