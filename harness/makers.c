/* Replays histories of making and dropping objects, each first without a
 * failure and then with every single allocation failing in turn. Input: one
 * history per line, calls "o i k n" separated by ';' (see specs/Makers.tla). */
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_queue_mt.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_string.h>
#include <aerospike/as_thread_pool.h>
#include <aerospike/as_timer.h>
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_ll.h>
#include <citrusleaf/cf_queue.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
void __real_free(void*);

static long live, made, target;
static bool armed, hit;
static pthread_t self;

static bool
fails(void)
{
	/* only the caller's thread allocates */
	if (! pthread_equal(self, pthread_self())) return false;
	if (armed && ++made == target) {
		hit = true;
		return true;
	}
	return false;
}

#define ADD(n) __atomic_add_fetch(&live, n, __ATOMIC_SEQ_CST)
void* __wrap_malloc(size_t n) { if (fails()) return NULL; ADD(1); return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t n) { if (fails()) return NULL; ADD(1); return __real_calloc(a, n); }
void* __wrap_realloc(void* p, size_t n) { if (fails()) return NULL; if (! p) ADD(1); return __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { if (fails()) return NULL; ADD(1); return __real_strdup(s); }
void __wrap_free(void* p) { if (p) ADD(-1); __real_free(p); }

/* locks of the objects being made: each may be refused, and one that was
 * obtained is held until it is given back */
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
static bool locks;
static void* lock_of[64];

static void
lock_got(void* l)
{
	for (int k = 0; k < 64; k++) if (! lock_of[k]) { lock_of[k] = l; ADD(1); return; }
	exit(3);
}

static void
lock_gone(void* l)
{
	for (int k = 0; k < 64; k++) if (lock_of[k] == l) { lock_of[k] = NULL; ADD(-1); return; }
}

int
__wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	if (! armed || ! locks) return __real_pthread_mutex_init(m, a);
	if (fails()) return EAGAIN;
	lock_got(m);
	return __real_pthread_mutex_init(m, a);
}

int
__wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	if (! armed || ! locks) return __real_pthread_cond_init(c, a);
	if (fails()) return EAGAIN;
	lock_got(c);
	return __real_pthread_cond_init(c, a);
}

int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { lock_gone(m); return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { lock_gone(c); return __real_pthread_cond_destroy(c); }

static FILE* out;

typedef struct { cf_ll_element e; int v; } item;

typedef struct {
	char kind[12];
	int n;
	void* p;
	as_val* a;		/* values given to it, of which we keep a reference */
	as_val* b;
	as_arraylist list;
	as_orderedmap map;
	cf_ll ll;
	item items[8];
	as_vector vec;
	as_thread_pool pool;
	int tasks;
	as_queue_mt queue;
	cf_queue cfqueue;
	char text[16];
} slot;

static slot slots[4];
static as_rec_hooks rh;
static as_stream_hooks sh;
static int t_destroy(as_timer* t) { return 0; }
static as_timer_hooks th = { .destroy = t_destroy };
static as_aerospike_hooks ah;

static bool is(slot* s, const char* k) { return ! strcmp(s->kind, k); }
static void count_task(void* u) { __atomic_add_fetch((int*)u, 1, __ATOMIC_SEQ_CST); }

/* a value passed to an object that is not made may or may not have been
 * dropped: we keep one reference and drop what is left */
static as_val* value(int n) { as_val* v = (as_val*)as_integer_new(n); as_val_reserve(v); return v; }
static void drop_all(as_val* v) { if (v) { for (uint32_t c = v->count; c > 0; c--) as_val_destroy(v); } }

static void
look(int i, slot* s)
{
	fprintf(out, "{\"o\":\"look\",\"i\":%d,\"c\":[", i);
	as_val* v = s->p;
	if (is(s, "integer")) fprintf(out, "%d", (int)as_integer_get((as_integer*)v));
	else if (is(s, "double")) fprintf(out, "%d", (int)as_double_get((as_double*)v));
	else if (is(s, "boolean")) fprintf(out, "%d", as_boolean_get((as_boolean*)v));
	else if (is(s, "string") || is(s, "strdup") || is(s, "wlen")) fprintf(out, "%d", (int)strlen(as_string_get((as_string*)v)));
	else if (is(s, "geojson") || is(s, "geodup")) fprintf(out, "%d", (int)strlen(as_geojson_get((as_geojson*)v)));
	else if (is(s, "bytes")) fprintf(out, "%d", (int)as_bytes_capacity((as_bytes*)v));
	else if (is(s, "wrap")) fprintf(out, "%d", (int)as_bytes_size((as_bytes*)v));
	else if (is(s, "pair")) fprintf(out, "%d,%d", (int)as_integer_get((as_integer*)as_pair_1((as_pair*)v)), (int)as_integer_get((as_integer*)as_pair_2((as_pair*)v)));
	else if (is(s, "rec")) fprintf(out, "%d", as_rec_source(s->p) == s ? s->n : -1);
	else if (is(s, "stream")) fprintf(out, "%d", as_stream_source(s->p) == s ? s->n : -1);
	else if (is(s, "timer")) fprintf(out, "%d", as_timer_source(s->p) == s ? s->n : -1);
	else if (is(s, "aerospike")) fprintf(out, "%d", ((as_aerospike*)s->p)->source == s ? s->n : -1);
	else if (is(s, "result") || is(s, "success") || is(s, "failure")) {
		as_result* r = s->p;
		fprintf(out, "%d,%d", r->is_success, r->value ? (int)as_integer_get((as_integer*)r->value) : 0);
	}
	else if (is(s, "block")) {
		/* all of it can be used */
		memset(s->p, 7, 100);
		fprintf(out, "%d", cf_rc_reserve(s->p) == 2 && cf_rc_release(s->p) == 1 ? s->n : -1);
	}
	else if (is(s, "vector")) {
		as_vector* x = s->p;
		for (uint32_t k = 0; k < x->size; k++) fprintf(out, "%s%d", k ? "," : "", *(int*)as_vector_get(x, k));
	}
	else if (is(s, "array")) {
		int* x = s->p;
		for (int k = 0; k < s->n; k++) fprintf(out, "%s%d", k ? "," : "", x[k]);
	}
	else if (is(s, "listiter") || is(s, "mapiter")) {
		/* goes once through the container */
		bool first = true;
		while (as_iterator_has_next(s->p)) {
			const as_val* x = as_iterator_next(s->p);
			if (as_val_type(x) == AS_PAIR) fprintf(out, "%s%d,%d", first ? "" : ",", (int)as_integer_get((as_integer*)as_pair_1((as_pair*)x)), (int)as_integer_get((as_integer*)as_pair_2((as_pair*)x)));
			else fprintf(out, "%s%d", first ? "" : ",", (int)as_integer_get((as_integer*)x));
			first = false;
		}
	}
	else if (is(s, "lliter")) {
		cf_ll_element* e;
		bool first = true;
		while ((e = cf_ll_getNext(s->p))) {
			fprintf(out, "%s%d", first ? "" : ",", ((item*)e)->v);
			first = false;
		}
	}
	else if (is(s, "mtqueue") || is(s, "mtinit")) {
		for (int k = 0, x; k < s->n; k++) {
			fprintf(out, "%s%d", k ? "," : "", as_queue_mt_pop(s->p, &x, AS_QUEUE_NOWAIT) ? x : -1);
			as_queue_mt_push(s->p, &x);
		}
	}
	else if (is(s, "cfqueue") || is(s, "cfinit")) {
		for (int k = 0, x; k < s->n; k++) {
			fprintf(out, "%s%d", k ? "," : "", cf_queue_pop(s->p, &x, CF_QUEUE_NOWAIT) == CF_QUEUE_OK ? x : -1);
			cf_queue_push(s->p, &x);
		}
	}
	else if (is(s, "msgpack")) {
		uint8_t room[64];
		as_integer x;
		as_integer_init(&x, s->n);
		int32_t len = as_serializer_serialize_presized(s->p, (as_val*)&x, room);
		fprintf(out, "%d", len == 1 ? room[0] : -1);
	}
	fprintf(out, "]}\n");
}

static bool
make(int i, const char* kind, int n)
{
	slot* s = &slots[i];
	memset(s, 0, sizeof(slot));
	strcpy(s->kind, kind);
	s->n = n;
	memset(s->text, 'a', n);
	/* what it needs exists already */
	if (is(s, "pair")) s->a = value(n), s->b = value(n + 1);
	if (is(s, "success") || is(s, "failure")) s->a = value(n);
	if (is(s, "listiter")) {
		as_arraylist_init(&s->list, 8, 0);
		for (int k = 1; k <= n; k++) as_arraylist_append_int64(&s->list, k);
	}
	if (is(s, "mapiter")) {
		as_orderedmap_init(&s->map, 8);
		for (int k = 1; k <= n; k++) as_orderedmap_set(&s->map, (as_val*)as_integer_new(k), (as_val*)as_integer_new(n + k));
	}
	if (is(s, "lliter")) {
		cf_ll_init(&s->ll, NULL, true);
		for (int k = 1; k <= n; k++) {
			s->items[k].v = k;
			cf_ll_append(&s->ll, &s->items[k].e);
		}
	}
	if (is(s, "array")) {
		as_vector_init(&s->vec, sizeof(int), 8);
		for (int k = 1; k <= n; k++) as_vector_append(&s->vec, &k);
	}

	bool ok;
	locks = is(s, "mtqueue") || is(s, "mtinit") || is(s, "cfqueue") || is(s, "cfinit") || is(s, "pool");
	armed = true;
	hit = false;
	if (is(s, "integer")) s->p = as_integer_new(n);
	else if (is(s, "double")) s->p = as_double_new(n);
	else if (is(s, "boolean")) s->p = as_boolean_new(n % 2);
	else if (is(s, "string")) s->p = as_string_new(s->text, false);
	else if (is(s, "strdup")) s->p = as_string_new_strdup(s->text);
	else if (is(s, "wlen")) s->p = as_string_new_wlen(s->text, n, false);
	else if (is(s, "geojson")) s->p = as_geojson_new(s->text, false);
	else if (is(s, "geodup")) s->p = as_geojson_new_strdup(s->text);
	else if (is(s, "bytes")) s->p = as_bytes_new(n);
	else if (is(s, "wrap")) s->p = as_bytes_new_wrap((uint8_t*)s->text, n, false);
	else if (is(s, "pair")) s->p = as_pair_new(s->a, s->b);
	else if (is(s, "rec")) s->p = as_rec_new(s, &rh);
	else if (is(s, "stream")) s->p = as_stream_new(s, &sh);
	else if (is(s, "timer")) s->p = as_timer_new(s, &th);
	else if (is(s, "result")) s->p = as_result_new();
	else if (is(s, "success")) s->p = as_success_new(s->a);
	else if (is(s, "failure")) s->p = as_failure_new(s->a);
	else if (is(s, "aerospike")) s->p = as_aerospike_new(s, &ah);
	else if (is(s, "block")) s->p = cf_rc_alloc(100);
	else if (is(s, "vector")) s->p = as_vector_create(sizeof(int), 8);
	else if (is(s, "array")) {
		uint32_t size = 99;
		s->p = as_vector_to_array(&s->vec, &size);
		if (s->p && (int)size != n) { fprintf(stderr, "FAULT: array size %u\n", size); exit(98); }
	}
	else if (is(s, "listiter")) s->p = as_arraylist_iterator_new(&s->list);
	else if (is(s, "mapiter")) s->p = as_orderedmap_iterator_new(&s->map);
	else if (is(s, "lliter")) s->p = cf_ll_getIterator(&s->ll, true);
	else if (is(s, "msgpack")) s->p = as_msgpack_new();
	else if (is(s, "mtqueue")) s->p = as_queue_mt_create(sizeof(int), 8);
	else if (is(s, "mtinit")) s->p = as_queue_mt_init(&s->queue, sizeof(int), 8) ? &s->queue : NULL;
	else if (is(s, "cfqueue")) s->p = cf_queue_create(sizeof(int), true);
	else if (is(s, "cfinit")) s->p = cf_queue_init(&s->cfqueue, sizeof(int), 8, true) ? &s->cfqueue : NULL;
	else if (is(s, "pool")) s->p = as_thread_pool_init(&s->pool, n) == 0 ? s : NULL;
	else exit(3);
	armed = false;
	ok = s->p != NULL;
	fprintf(out, "{\"o\":\"make\",\"i\":%d,\"k\":\"%s\",\"n\":%d,\"r\":%d,\"hit\":%d}\n", i, kind, n, ! ok, hit);
	if (ok && is(s, "vector")) {
		for (int k = 1; k <= n; k++) as_vector_append(s->p, &k);
	}
	for (int k = 1; ok && k <= n; k++) {
		if (is(s, "mtqueue") || is(s, "mtinit")) as_queue_mt_push(s->p, &k);
		if (is(s, "cfqueue") || is(s, "cfinit")) cf_queue_push(s->p, &k);
	}
	if (is(s, "pool")) {
		for (int k = 0; k < 2 * n; k++) {
			int rc = as_thread_pool_queue_task(&s->pool, count_task, &s->tasks);
			if (ok && rc != 0) { fprintf(stderr, "FAULT: task refused\n"); exit(98); }
		}
	}
	return ok;
}

static void
drop(int i)
{
	slot* s = &slots[i];
	if (s->p) {
		if (is(s, "pool")) ;
		else look(i, s);
		if (is(s, "stream")) as_stream_destroy(s->p);
		else if (is(s, "timer")) as_timer_destroy(s->p);
		else if (is(s, "result") || is(s, "success") || is(s, "failure")) as_result_destroy(s->p);
		else if (is(s, "aerospike")) as_aerospike_destroy(s->p);
		else if (is(s, "block")) cf_rc_releaseandfree(s->p);
		else if (is(s, "vector")) as_vector_destroy(s->p);
		else if (is(s, "mtqueue") || is(s, "mtinit")) as_queue_mt_destroy(s->p);
		else if (is(s, "cfqueue") || is(s, "cfinit")) cf_queue_destroy(s->p);
		else if (is(s, "array")) free(s->p);
		else if (is(s, "listiter") || is(s, "mapiter")) as_iterator_destroy(s->p);
		else if (is(s, "lliter")) cf_ll_releaseIterator(s->p);
		else if (is(s, "msgpack")) as_serializer_destroy(s->p);
		else if (is(s, "pool")) {
			int n = s->pool.thread_size;
			as_thread_pool_destroy(&s->pool);
			fprintf(out, "{\"o\":\"look\",\"i\":%d,\"c\":[%d,%d]}\n", i, n, s->tasks);
		}
		else as_val_destroy(s->p);
	}
	else if (is(s, "pool")) {
		as_thread_pool_destroy(&s->pool);
	}
	if (s->p) fprintf(out, "{\"o\":\"drop\",\"i\":%d}\n", i);
	drop_all(s->a);
	drop_all(s->b);
	if (is(s, "listiter")) as_arraylist_destroy(&s->list);
	if (is(s, "mapiter")) as_orderedmap_destroy(&s->map);
	if (is(s, "array")) as_vector_destroy(&s->vec);
	memset(s, 0, sizeof(slot));
}

static long
play(char* line)
{
	char copy[4096];
	strcpy(copy, line);
	live = made = 0;
	memset(lock_of, 0, sizeof(lock_of));
	fprintf(out, "{\"o\":\"init\"}\n");
	char* save;
	for (char* c = strtok_r(copy, ";", &save); c; c = strtok_r(NULL, ";", &save)) {
		char o[12], k[12];
		int i, n;
		if (sscanf(c, "%11s %d %11s %d", o, &i, k, &n) != 4) exit(3);
		if (! strcmp(o, "make")) {
			if (! make(i, k, n)) {
				/* again with memory available */
				drop(i);
				if (! make(i, k, n)) exit(4);
			}
		}
		else drop(i);
	}
	for (int i = 1; i <= 3; i++) drop(i);
	fprintf(out, "{\"o\":\"end\",\"live\":%ld}\n", live);
	return made;
}

int
main(int argc, char** argv)
{
	FILE* in = fopen(argv[1], "r");
	char line[4096];
	if (! in || ! (out = fopen(argv[2], "w"))) return 3;
	self = pthread_self();
	while (fgets(line, sizeof(line), in)) {
		line[strcspn(line, "\n")] = 0;
		target = 0;
		long n = play(line);
		for (target = 1; target <= n; target++) play(line);
	}
	fclose(out);
	return 0;
}
