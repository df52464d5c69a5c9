/* Replays histories on one container, each first without a failure and then
 * with every single allocation its calls make failing in turn. Input: one
 * history per line, calls "o k a b t" separated by ';' (see specs/Faults.tla). */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_buffer_pool.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <citrusleaf/cf_queue.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
void __real_free(void*);

static long live, made, target;
static bool armed, hit;

static bool
fails(void)
{
	if (armed && ++made == target) {
		hit = true;
		return true;
	}
	return false;
}

void* __wrap_malloc(size_t n) { if (fails()) return NULL; live++; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t n) { if (fails()) return NULL; live++; return __real_calloc(a, n); }
void* __wrap_realloc(void* p, size_t n) { if (fails()) return NULL; if (! p) live++; return __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { if (fails()) return NULL; live++; return __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { if (fails()) return NULL; live++; return __real_strndup(s, n); }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }

typedef struct { char o[12]; char k; int a, b, t; } call;

static FILE* out;
static char kind;
static uint32_t z;

/* the containers */
static as_arraylist list_room;
static as_orderedmap map_room;
static as_queue queue_room;
static cf_queue cfq_room;
static as_bytes bytes_room;
static as_buffer_pool pool;
static as_arraylist* list;
static as_orderedmap* map;
static as_queue* queue;
static as_queue_mt* mt;
static cf_queue* cfq;
static as_bytes* bytes;
static bool have_pool;
static struct { void* p; uint32_t cap; } held[256], big[256];
static int nheld, nbig;
static int32_t stack_items[8];
static uint8_t stack_bytes[8];

static int
code(const as_val* v)
{
	if (! v) return -1;
	switch (as_val_type(v)) {
	case AS_NIL: return 0;
	case AS_INTEGER: return 1000 + (int)as_integer_get((as_integer*)v);
	case AS_DOUBLE: return 2000 + (int)as_double_get((as_double*)v);
	case AS_STRING: {
		const char* t = as_string_get((as_string*)v);
		return t ? 3000 + atoi(t) : -3;
	}
	default: return -2;
	}
}

static void
put_list(const as_arraylist* l)
{
	for (uint32_t j = 0; j < as_arraylist_size(l); j++) {
		fprintf(out, "%s%d", j ? "," : "", code(as_arraylist_get(l, j)));
	}
}

static int first;

static void
put_int(int v)
{
	fprintf(out, "%s%d", first ? "" : ",", v);
	first = 0;
}

#define BULK1 5000
#define BULK2 1000

static as_val*
map_int(int64_t k)
{
	as_integer key;
	as_integer_init(&key, k);
	return as_orderedmap_get(map, (as_val*)&key);
}

static const char* names[] = { "", "k1", "k2" };

static void
put_map(void)
{
	for (int k = 1; k <= 3; k++) {
		as_val* v = map_int(k);
		if (v) { put_int(k); put_int(code(v)); }
	}
	for (int k = 1; k <= 2; k++) {
		as_val* v = as_stringmap_get((as_map*)map, names[k]);
		if (v) { put_int(100 + k); put_int(code(v)); }
	}
}

static int
queue_item(void* buf, void* udata)
{
	int32_t v;
	memcpy(&v, buf, 4);
	put_int(v);
	return 0;
}

static void
put_queue(as_queue* q)
{
	for (uint32_t j = 0; j < as_queue_size(q); j++) {
		int32_t v;
		memcpy(&v, as_queue_get(q, q->head + j), 4);
		put_int(v);
	}
}

static void
contents(void)
{
	first = 1;
	z = 0;
	if (list) put_list(list);
	if (map) {
		put_map();
		for (int j = 0; j < 2000; j++) z += code(map_int(BULK1 + j)) == 1000 + j;
		for (int j = 0; j < 999; j++) z += code(map_int(BULK2 + j)) == 1000 + j;
	}
	if (queue) put_queue(queue);
	if (mt) put_queue(&mt->queue);
	if (cfq) cf_queue_reduce(cfq, queue_item, NULL);
	if (bytes) {
		for (uint32_t j = 0; j < as_bytes_size(bytes); j++) put_int(as_bytes_get(bytes)[j]);
	}
	if (have_pool) put_int((int)cf_queue_sz(pool.queue));
}

static bool
each(const as_val* k, const as_val* v, void* udata)
{
	int kc = as_val_type(k) == AS_INTEGER ? (int)as_integer_get((as_integer*)k) : 100 + atoi(as_string_get((as_string*)k) + 1);
	if (as_val_type(k) == AS_STRING || kc < BULK2) { put_int(kc); put_int(code(v)); }
	return true;
}

static as_val*
object(int b)
{
	bool was = armed;
	armed = false;
	as_val* v = (as_val*)as_integer_new(b);
	armed = was;
	return v;
}

static const char*
text(int b)
{
	static char t[16];
	snprintf(t, sizeof(t), "%d", b);
	return t;
}

static int step;

/* Makes the call; returns 0 if it reported success. What it produced goes to
 * the "d" field, which is open for writing. */
static int
perform(const call* c)
{
	bool g = step++ % 2;
	const char* o = c->o;
	int r = 0;
	uint32_t a = (uint32_t)c->a;
	int32_t item = c->b;
	as_list* gl = (as_list*)list;
	first = 1;

	if (! strcmp(o, "make")) {
		armed = true;
		switch (kind) {
		case 'l': list = as_arraylist_new(a, (uint32_t)c->b); r = ! list; break;
		case 'i': list = as_arraylist_init(&list_room, a, (uint32_t)c->b); r = ! list; break;
		case 'm': map = as_orderedmap_new(a); r = ! map; break;
		case 'n': map = as_orderedmap_init(&map_room, a); r = ! map; break;
		case 'q': queue = as_queue_create(4, a); r = ! queue; break;
		case 's': if (as_queue_init(&queue_room, 4, a)) queue = &queue_room; else r = 1; break;
		case 'S':
			queue = &queue_room;
			queue->data = (void*)stack_items;
			queue->capacity = a;
			queue->head = queue->tail = queue->total = 0;
			queue->item_size = 4;
			queue->flags = 0;
			break;
		case 't': mt = as_queue_mt_create(4, a); r = ! mt; break;
		case 'Q': if (cf_queue_init(&cfq_room, 4, a, g)) cfq = &cfq_room; else r = 1; break;
		case 'b': bytes = as_bytes_new(a); r = ! bytes; break;
		case 'B': bytes = as_bytes_init(&bytes_room, a); r = ! bytes; break;
		case 'w':
			for (uint32_t j = 0; j < a; j++) stack_bytes[j] = (uint8_t)(8 + j);
			bytes = as_bytes_new_wrap(stack_bytes, a, false);
			r = ! bytes;
			break;
		case 'p': memset(&pool, 0, sizeof(pool)); r = as_buffer_pool_init(&pool, a, (uint32_t)c->b); have_pool = r == 0; break;
		default: exit(3);
		}
		armed = false;
		return r != 0;
	}

	if (! strcmp(o, "ins") || ! strcmp(o, "set") || ! strcmp(o, "app") || ! strcmp(o, "pre")) {
		as_val* v = c->t == 0 ? object(c->b) : NULL;
		armed = true;
		if (o[0] == 'i') {
			switch (c->t) {
			case 0: r = g ? as_list_insert(gl, a, v) : as_arraylist_insert(list, a, v); break;
			case 1: r = g ? as_list_insert_int64(gl, a, c->b) : as_arraylist_insert_int64(list, a, c->b); break;
			case 2: r = g ? as_list_insert_double(gl, a, c->b) : as_arraylist_insert_double(list, a, c->b); break;
			default: r = g ? as_list_insert_str(gl, a, text(c->b)) : as_arraylist_insert_str(list, a, text(c->b));
			}
		}
		else if (o[0] == 's') {
			switch (c->t) {
			case 0: r = g ? as_list_set(gl, a, v) : as_arraylist_set(list, a, v); break;
			case 1: r = g ? as_list_set_int64(gl, a, c->b) : as_arraylist_set_int64(list, a, c->b); break;
			case 2: r = g ? as_list_set_double(gl, a, c->b) : as_arraylist_set_double(list, a, c->b); break;
			default: r = g ? as_list_set_str(gl, a, text(c->b)) : as_arraylist_set_str(list, a, text(c->b));
			}
		}
		else if (o[0] == 'a') {
			switch (c->t) {
			case 0: r = g ? as_list_append(gl, v) : as_arraylist_append(list, v); break;
			case 1: r = g ? as_list_append_int64(gl, c->b) : as_arraylist_append_int64(list, c->b); break;
			case 2: r = g ? as_list_append_double(gl, c->b) : as_arraylist_append_double(list, c->b); break;
			default: r = g ? as_list_append_str(gl, text(c->b)) : as_arraylist_append_str(list, text(c->b));
			}
		}
		else {
			switch (c->t) {
			case 0: r = g ? as_list_prepend(gl, v) : as_arraylist_prepend(list, v); break;
			case 1: r = g ? as_list_prepend_int64(gl, c->b) : as_arraylist_prepend_int64(list, c->b); break;
			case 2: r = g ? as_list_prepend_double(gl, c->b) : as_arraylist_prepend_double(list, c->b); break;
			default: r = g ? as_list_prepend_str(gl, text(c->b)) : as_arraylist_prepend_str(list, text(c->b));
			}
		}
		armed = false;
		if (r && v) as_val_destroy(v);
		return r != 0;
	}

	if (! strcmp(o, "cat")) {
		as_arraylist other;
		as_arraylist_init(&other, 4, 0);
		for (int j = 1; j <= c->a; j++) as_arraylist_append(&other, object(j));
		armed = true;
		r = g ? as_list_concat(gl, (as_list*)&other) : as_arraylist_concat(list, &other);
		armed = false;
		as_arraylist_destroy(&other);
		return r != 0;
	}

	if (! strcmp(o, "take") || ! strcmp(o, "drop") || ! strcmp(o, "tail")) {
		armed = true;
		as_arraylist* d = o[0] == 'd' ? (g ? (as_arraylist*)as_list_drop(gl, a) : as_arraylist_drop(list, a))
			: o[2] == 'k' ? (g ? (as_arraylist*)as_list_take(gl, a) : as_arraylist_take(list, a))
			: (g ? (as_arraylist*)as_list_tail(gl) : as_arraylist_tail(list));
		armed = false;
		if (! d) return 1;
		put_list(d);
		as_arraylist_destroy(d);
		return 0;
	}

	if (! strcmp(o, "iter")) {
		armed = true;
		as_iterator* it = list ? (as_iterator*)as_list_iterator_new(gl) : (as_iterator*)as_map_iterator_new((as_map*)map);
		armed = false;
		if (! it) return 1;
		while (as_iterator_has_next(it)) {
			const as_val* v = as_iterator_next(it);
			if (list) put_int(code(v));
			else each(as_pair_1((as_pair*)v), as_pair_2((as_pair*)v), NULL);
		}
		as_iterator_destroy(it);
		return 0;
	}

	if (! strcmp(o, "mset")) {
		as_map* m = (as_map*)map;
		if (c->t == 0) {
			as_val* k = object(c->a);
			as_val* v = object(c->b);
			armed = true;
			r = g ? as_map_set(m, k, v) : as_orderedmap_set(map, k, v);
			armed = false;
			if (r) { as_val_destroy(k); as_val_destroy(v); }
			return r != 0;
		}
		const char* k = names[c->a - 100];
		as_val* v = NULL;
		bool was = c->t == 4 || (c->t == 1 && g);
		if (was) v = object(c->t == 4 ? 3000 + c->b : c->b);
		armed = true;
		switch (c->t) {
		case 1: r = g ? as_stringmap_set_integer(m, k, (as_integer*)v) : as_stringmap_set_int64(m, k, c->b); break;
		case 2: r = as_stringmap_set_double(m, k, c->b); break;
		case 3: r = as_stringmap_set_str(m, k, text(c->b)); break;
		default: r = as_stringmap_set(m, k, v);
		}
		armed = false;
		if (r && was) as_val_destroy(v);
		return r != 0;
	}

	if (! strcmp(o, "mrem")) {
		as_integer ik;
		as_string sk;
		as_val* k = c->a < 100 ? (as_val*)as_integer_init(&ik, c->a) : (as_val*)as_string_init(&sk, (char*)names[c->a - 100], false);
		armed = true;
		r = g ? as_map_remove((as_map*)map, k) : as_orderedmap_remove(map, k);
	}
	else if (! strcmp(o, "mclr")) { armed = true; r = as_orderedmap_clear(map); }
	else if (! strcmp(o, "each")) { armed = true; r = ! as_orderedmap_foreach(map, each, NULL); }
	else if (! strcmp(o, "bulk")) {
		int64_t base = c->a == 997 || c->a == 999 ? BULK2 : BULK1;
		for (int j = 0; j < c->a; j++) {
			if (as_orderedmap_set(map, object((int)base + j), object(j)) != 0) {
				fprintf(stderr, "FAULT: a set without any failure was refused\n");
				exit(98);
			}
		}
	}
	else if (! strcmp(o, "push")) {
		armed = true;
		r = queue ? ! as_queue_push(queue, &item) : mt ? ! as_queue_mt_push(mt, &item) : cf_queue_push(cfq, &item);
	}
	else if (! strcmp(o, "push_head")) {
		armed = true;
		r = queue ? ! as_queue_push_head(queue, &item) : mt ? ! as_queue_mt_push_head(mt, &item) : cf_queue_push_head(cfq, &item);
	}
	else if (! strcmp(o, "pusl")) { armed = true; r = ! cf_queue_push_limit(cfq, &item, 99); }
	else if (! strcmp(o, "pusu")) { armed = true; r = cf_queue_push_unique(cfq, &item); }
	else if (! strcmp(o, "pusi")) { armed = true; r = cf_queue_push_index(cfq, &item, a); }
	else if (! strcmp(o, "pop") || ! strcmp(o, "popt")) {
		int32_t v = -1;
		armed = true;
		if (o[3]) r = queue ? ! as_queue_pop_tail(queue, &v) : ! as_queue_mt_pop_tail(mt, &v, 0);
		else r = queue ? ! as_queue_pop(queue, &v) : mt ? ! as_queue_mt_pop(mt, &v, 0) : cf_queue_pop(cfq, &v, 0);
		armed = false;
		if (r == 0) put_int(v);
	}
	else if (! strcmp(o, "room")) { armed = true; r = ! as_bytes_ensure(bytes, a, c->b); }
	else if (! strcmp(o, "bapp")) {
		uint8_t raw[16];
		for (int j = 0; j < c->a; j++) raw[j] = (uint8_t)(c->b + 1 + j);
		armed = true;
		r = ! as_bytes_append(bytes, raw, a);
	}
	else if (! strcmp(o, "get")) {
		as_buffer_result b = { 0 };
		armed = true;
		r = as_buffer_pool_pop(&pool, c->a ? 1000 : 8, &b);
		armed = false;
		if (r >= 0) {
			memset(b.data, 1, (size_t)b.capacity + pool.header_size);
			if (c->a) { big[nbig].p = b.data; big[nbig++].cap = b.capacity; }
			else { held[nheld].p = b.data; held[nheld++].cap = b.capacity; }
			r = 0;
		}
	}
	else if (! strcmp(o, "put")) {
		nheld--;
		armed = true;
		r = as_buffer_pool_push(&pool, held[nheld].p, held[nheld].cap);
	}
	else if (! strcmp(o, "fill")) {
		as_buffer_result b;
		for (int j = 0; j <= c->a; j++) {
			if (as_buffer_pool_pop(&pool, 8, &b) < 0) { fprintf(stderr, "FAULT: no buffer although memory is left\n"); exit(98); }
			held[nheld].p = b.data;
			held[nheld++].cap = b.capacity;
		}
		for (int j = 0; j < c->a; j++) {
			nheld--;
			if (as_buffer_pool_push(&pool, held[nheld].p, held[nheld].cap) != 0) { fprintf(stderr, "FAULT: a buffer is not taken back\n"); exit(98); }
		}
	}
	else if (! strcmp(o, "rem")) { armed = true; r = g ? as_list_remove(gl, a) : as_arraylist_remove(list, a); }
	else if (! strcmp(o, "trim")) { armed = true; r = g ? as_list_trim(gl, a) : as_arraylist_trim(list, a); }
	else exit(3);
	armed = false;
	return r != 0;
}

static void
finish(void)
{
	if (list) as_arraylist_destroy(list);
	if (map) as_orderedmap_destroy(map);
	if (queue) as_queue_destroy(queue);
	if (mt) as_queue_mt_destroy(mt);
	if (cfq) cf_queue_destroy(cfq);
	if (bytes) as_bytes_destroy(bytes);
	while (nbig > 0) { nbig--; as_buffer_pool_push(&pool, big[nbig].p, big[nbig].cap); }
	while (nheld > 0) { nheld--; __wrap_free(held[nheld].p); }
	if (have_pool) as_buffer_pool_destroy(&pool);
	list = NULL;
	map = NULL;
	queue = NULL;
	mt = NULL;
	cfq = NULL;
	bytes = NULL;
	have_pool = false;
}

static void
history(const call* cs, int n, long fail_at)
{
	long before = live;
	made = 0;
	target = fail_at;
	step = n;
	fprintf(out, "{\"o\":\"init\"}\n");
	kind = cs[0].k;
	for (int j = 0; j < n; j++) {
		hit = false;
		/* nothing to give back if getting it was refused */
		if (! strcmp(cs[j].o, "put") && nheld == 0) continue;
		fprintf(out, "{\"o\":\"%s\",\"k\":\"%c\",\"a\":%d,\"b\":%d,\"t\":%d,\"d\":[", cs[j].o, cs[j].k, cs[j].a, cs[j].b, cs[j].t);
		int r = perform(&cs[j]);
		fprintf(out, "],\"r\":%d,\"hit\":%d,\"c\":[", r, hit);
		if (j || ! r) contents();
		fprintf(out, "],\"z\":%u}\n", z);
		if (j == 0 && r) break;
	}
	finish();
	fprintf(out, "{\"o\":\"end\",\"n\":%ld}\n", live - before);
}

int
main(int argc, char** argv)
{
	if (argc < 3) return 3;
	FILE* in = fopen(argv[1], "r");
	out = fopen(argv[2], "w");
	if (! in || ! out) return 3;
	static char line[8192];
	static call cs[64];
	while (fgets(line, sizeof(line), in)) {
		int n = 0;
		for (char* w = strtok(line, ";\n"); w; w = strtok(NULL, ";\n")) {
			call* c = &cs[n++];
			if (sscanf(w, "%11s %c %d %d %d", c->o, &c->k, &c->a, &c->b, &c->t) != 5) return 3;
		}
		history(cs, n, 0);
		long total = made;
		for (long k = 1; k <= total; k++) history(cs, n, k);
	}
	fclose(out);
	return 0;
}
