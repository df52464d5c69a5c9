/* Replays histories of values and containers and records, for every call, the
 * heap objects it released. Input: one history per line: a number that fixes the order in
 * which the caller gives back what it holds at the end, then calls separated by
 * ';', each  f k a b l n  (see specs/Ownership.tla). */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAX 64

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
void __real_free(void*);

static long live;
static void* obj[MAX + 1];
static bool heap[MAX + 1];
static int nobj;
static int freed[MAX + 1], nfreed;

void* __wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t n) { live++; return __real_calloc(a, n); }
void* __wrap_realloc(void* p, size_t n) { if (! p) live++; return __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { live++; return __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { live++; return __real_strndup(s, n); }
void
__wrap_free(void* p)
{
	if (p) live--;
	for (int k = 1; k <= nobj; k++) {
		if (heap[k] && obj[k] == p) { heap[k] = false; freed[nfreed++] = k; }
	}
	__real_free(p);
}

static as_integer ints[MAX + 1];
static as_arraylist lists[MAX + 1];
static as_orderedmap maps[MAX + 1];
static as_result results[MAX + 1];
static bool result[MAX + 1];
static int own[MAX + 1];
static bool constant[MAX + 1];

static void
wrong(const char* what)
{
	fprintf(stderr, "FAULT: %s\n", what);
	exit(98);
}

static int
made(void* p, bool on_heap)
{
	if (! p) wrong("a call that makes an object returned none");
	nobj++;
	obj[nobj] = p;
	heap[nobj] = on_heap;
	own[nobj] = 1;
	constant[nobj] = false;
	result[nobj] = false;
	return nobj;
}

static bool
rec_destroy(as_rec* rec)
{
	__wrap_free(rec->data);
	return true;
}

static const as_rec_hooks rec_hooks = { .destroy = rec_destroy };

static uint8_t borrowed[8];

/* Some histories are replayed with maps that already hold many other entries:
 * what happens to the keys and values of the history is the same. */
static bool crowded;

static void
crowd(as_orderedmap* m)
{
	for (int k = 0; crowded && k < 1200; k++) {
		if (as_orderedmap_set(m, (as_val*)as_integer_new(1000 + k), (as_val*)as_integer_new(k))) wrong("an entry was refused");
	}
}

static char*
text(void)
{
	return __wrap_strdup("owned text");
}

static void
create(char k)
{
	int id = nobj + 1;
	uint8_t* raw;
	switch (k) {
	case 'i': made(as_integer_new(id), true); break;
	case 's':
		switch (id % 4) {
		case 0: made(as_string_new_strdup("some text"), true); break;
		case 1: made(as_string_new(text(), true), true); break;
		case 2: made(as_string_new_wlen(text(), 10, true), true); break;
		default: made(as_string_new("borrowed", false), true);
		}
		break;
	case 'g':
		switch (id % 4) {
		case 0: made(as_geojson_new_strdup("{}"), true); break;
		case 1: made(as_geojson_new(text(), true), true); break;
		case 2: made(as_geojson_new_wlen(text(), 10, true), true); break;
		default: made(as_geojson_new("borrowed", false), true);
		}
		break;
	case 'd': made(as_double_new(0.5), true); break;
	case 't': made(as_boolean_new(id % 2), true); break;
	case 'b':
		switch (id % 3) {
		case 0:
			raw = __wrap_malloc(7);
			memset(raw, 1, 7);
			made(as_bytes_new_wrap(raw, 7, true), true);
			break;
		case 1:
			made(as_bytes_new(2), true);
			as_bytes_append_int64((as_bytes*)obj[nobj], 5);
			break;
		default:
			made(as_bytes_new_wrap(borrowed, 4, false), true);
			as_bytes_ensure((as_bytes*)obj[nobj], 20, true);
		}
		break;
	case 'c': made(as_rec_new(__wrap_malloc(3), &rec_hooks), true); break;
	case 'r': made(as_result_new(), true); result[nobj] = true; break;
	case 'R': made(as_result_init(&results[id]), false); result[nobj] = true; break;
	case 'S': made(as_integer_init(&ints[id], id), false); break;
	case 'N': made((void*)&as_nil, false); constant[nobj] = true; break;
	case 'T': made((void*)(id % 2 ? &as_true : &as_false), false); constant[nobj] = true; break;
	case 'l': made(as_arraylist_new(id % 3, 1 + (uint32_t)id % 2), true); break;
	case 'L': made(as_arraylist_new(2, 0), true); break;
	case 'K': made(as_arraylist_init(&lists[id], 1, 2), false); break;
	case 'm': made(as_orderedmap_new(4), true); crowd(obj[nobj]); break;
	case 'M': made(as_orderedmap_init(&maps[id], 4), false); crowd(obj[nobj]); break;
	default: exit(3);
	}
}

static void
drop(int id)
{
	own[id]--;
	if (result[id]) as_result_destroy(obj[id]);
	else as_val_destroy((as_val*)obj[id]);
}

static bool
stores(const char* f)
{
	return ! strcmp(f, "app") || ! strcmp(f, "pre") || ! strcmp(f, "ins") || ! strcmp(f, "set") || ! strcmp(f, "mset");
}

static void
event(FILE* out, const char* f, char k, int a, int b, int l, int n, int r)
{
	fprintf(out, "{\"f\":\"%s\",\"k\":\"%c\",\"a\":%d,\"b\":%d,\"l\":%d,\"n\":%d,\"r\":%d,\"freed\":[", f, k, a, b, l, n, r);
	for (int j = 0; j < nfreed; j++) fprintf(out, "%s%d", j ? "," : "", freed[j]);
	fprintf(out, "]}\n");
	nfreed = 0;
}

int
main(int argc, char** argv)
{
	if (argc < 3) return 3;
	FILE* in = fopen(argv[1], "r");
	FILE* out = fopen(argv[2], "w");
	if (! in || ! out) return 3;
	static char line[65536];
	int step = 0;
	while (fgets(line, sizeof(line), in)) {
		nobj = nfreed = 0;
		fprintf(out, "{\"f\":\"init\",\"o\":\"init\"}\n");
		long before = live;
		char* rest;
		unsigned long order = strtoul(line, &rest, 10);
		crowded = order % 6 == 0;
		for (char* w = strtok(rest, ";\n"); w; w = strtok(NULL, ";\n")) {
			char f[8], k;
			int a, b, l, n, r = 0;
			if (sscanf(w, "%7s %c %d %d %d %d", f, &k, &a, &b, &l, &n) != 6) return 3;
			bool g = step++ % 2;
			as_list* gl = obj[l];
			as_arraylist* al = obj[l];
			as_val* v = obj[a];
			if (! strcmp(f, "new")) create(k);
			else if (! strcmp(f, "pair")) { made(as_pair_new(v, obj[b]), true); own[a]--; own[b]--; }
			else if (! strcmp(f, "wrap")) {
				int id = nobj + 1;
				if (k == 'r') made(n ? as_success_new(v) : as_failure_new(v), true);
				else made(n ? as_success_init(&results[id], v) : as_failure_init(&results[id], v), false);
				result[id] = true;
				own[a]--;
				as_result* x = obj[id];
				if (x->is_success != (n == 1) || as_result_value(x) != v) wrong("a result does not show what it was made with");
			}
			else if (! strcmp(f, "ans")) {
				as_result* x = obj[l];
				void* back = n ? as_result_setsuccess(x, v) : as_result_setfailure(x, v);
				own[a]--;
				if (back != x || x->is_success != (n == 1) || as_result_value(x) != v) wrong("a result does not show what it was given");
			}
			else if (! strcmp(f, "res")) {
				void* back = result[a] ? (void*)as_result_reserve(obj[a]) : (void*)as_val_reserve(v);
				if (back != obj[a]) wrong("sharing returned another object");
				own[a]++;
			}
			else if (! strcmp(f, "des")) { drop(a); }
			else if (! strcmp(f, "app")) r = g ? as_list_append(gl, v) : as_arraylist_append(al, v);
			else if (! strcmp(f, "pre")) r = g ? as_list_prepend(gl, v) : as_arraylist_prepend(al, v);
			else if (! strcmp(f, "ins")) r = g ? as_list_insert(gl, (uint32_t)n, v) : as_arraylist_insert(al, (uint32_t)n, v);
			else if (! strcmp(f, "set")) r = g ? as_list_set(gl, (uint32_t)n, v) : as_arraylist_set(al, (uint32_t)n, v);
			else if (! strcmp(f, "anon")) {
				uint32_t z = as_list_size(gl);
				if (n == 0) r = g ? as_list_append_int64(gl, 5) : as_arraylist_insert_int64(al, z, 5);
				else if (n == 1) r = g ? as_list_set_str(gl, z, "x") : as_arraylist_append_str(al, "x");
				else r = g ? as_list_append_double(gl, 1.5) : as_arraylist_set_double(al, z, 1.5);
			}
			else if (! strcmp(f, "rem")) r = g ? as_list_remove(gl, (uint32_t)n) : as_arraylist_remove(al, (uint32_t)n);
			else if (! strcmp(f, "trim")) r = g ? as_list_trim(gl, (uint32_t)n) : as_arraylist_trim(al, (uint32_t)n);
			else if (! strcmp(f, "cat")) r = g ? as_list_concat(gl, (as_list*)v) : as_arraylist_concat(al, (as_arraylist*)v);
			else if (! strcmp(f, "take")) made(g ? (void*)as_list_take(gl, (uint32_t)n) : (void*)as_arraylist_take(al, (uint32_t)n), true);
			else if (! strcmp(f, "drop")) made(g ? (void*)as_list_drop(gl, (uint32_t)n) : (void*)as_arraylist_drop(al, (uint32_t)n), true);
			else if (! strcmp(f, "tail")) made(g ? (void*)as_list_tail(gl) : (void*)as_arraylist_tail(al), true);
			else if (! strcmp(f, "mset")) {
				int kid = made(as_integer_new(n), true);
				own[kid] = 0;
				r = g ? as_map_set(obj[l], obj[kid], v) : as_orderedmap_set(obj[l], obj[kid], v);
				if (r) as_val_destroy(obj[kid]);
			}
			else if (! strcmp(f, "mrem")) {
				as_integer key;
				as_integer_init(&key, n);
				r = g ? as_map_remove(obj[l], (as_val*)&key) : as_orderedmap_remove(obj[l], (as_val*)&key);
			}
			else if (! strcmp(f, "mclr")) r = g ? as_map_clear(obj[l]) : as_orderedmap_clear(obj[l]);
			else return 3;
			if (stores(f) && r == 0) own[a]--;
			event(out, f, k, a, b, l, n, r);
		}
		/* the caller gives back what it still holds, in some order */
		for (;;) {
			int held[MAX + 1], z = 0;
			for (int id = 1; id <= nobj; id++) {
				if (! constant[id] && own[id] > 0) held[z++] = id;
			}
			if (z == 0) break;
			order = (order * 1103515245 + 12345) & 0x7fffffff;
			int id = held[(order >> 8) % (unsigned long)z];
			drop(id);
			event(out, "des", ' ', id, 0, 0, 0, 0);
		}
		fprintf(out, "{\"f\":\"end\",\"n\":%ld}\n", live - before);
	}
	fclose(out);
	return 0;
}
