/* Drives the objects that forward to caller-supplied operations, and results.
 *   forward script SEED IN OUT | forward random SEED N OUT | forward result SEED N OUT
 * Script lines: KIND PLACE OP,OP,... CALL CALL ...   (no operations: -) */
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_module.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_string.h>
#include <aerospike/as_timer.h>
#include "vh.h"

/* --- allocations: blocks are filled, and releases of one block are noticed --- */
void* __real_malloc(size_t);
void __real_free(void*);
static uint8_t fill_byte;
static uint8_t* last_block;
static size_t last_size;
static uint8_t* watch;		/* the block the object is in */
static int watch_given;		/* ours: never really released */
static int released;

void*
__wrap_malloc(size_t n)
{
	uint8_t* p = __real_malloc(n);
	memset(p, fill_byte, n);
	last_block = p;
	last_size = n;
	return p;
}

void
__wrap_free(void* p)
{
	if (p && p == watch) {
		released++;
		if (watch_given) return;
	}
	__real_free(p);
}

/* --- values --- */
#define NV 9
static as_val* vals[NV + 1];
static const char* vtype[NV + 1] = { "none", "int", "double", "str", "geo", "bytes", "list", "map", "int", "str" };
static char vtext[NV + 1][64];
static char mem[16];	/* addresses to pass around: q1.. */

static const char*
ptr(const void* p)
{
	static char t[8][24];
	static int k;
	k = (k + 1) % 8;
	if (! p) return "0";
	for (int j = 1; j <= NV; j++) {
		if (p == vals[j]) { sprintf(t[k], "p%d", j); return t[k]; }
	}
	if ((char*)p >= mem && (char*)p < mem + sizeof(mem)) { sprintf(t[k], "q%d", (int)((char*)p - mem)); return t[k]; }
	return "stranger";
}

static void
make_vals(void)
{
	int64_t n = (int64_t)vh_next() >> vh_below(63);
	double d = (double)n / 7;
	vals[1] = (as_val*)as_integer_new(n);
	sprintf(vtext[1], "%" PRId64, n);
	vals[2] = (as_val*)as_double_new(d);
	if (d == 0) strcpy(vtext[2], "0"); else sprintf(vtext[2], "%a", d);
	vals[3] = (as_val*)as_string_new_strdup("text three");
	strcpy(vtext[3], "text three");
	vals[4] = (as_val*)as_geojson_new_strdup("geo four");
	strcpy(vtext[4], "geo four");
	vals[5] = (as_val*)as_bytes_new(4);
	vals[6] = (as_val*)as_arraylist_new(2, 2);
	vals[7] = (as_val*)as_hashmap_new(4);
	vals[8] = (as_val*)as_integer_new(INT64_MIN);
	sprintf(vtext[8], "%" PRId64, INT64_MIN);
	vals[9] = (as_val*)as_string_new_strdup("");
	strcpy(vtext[9], "");
}

static void
free_vals(void)
{
	for (int k = 1; k <= NV; k++) as_val_destroy(vals[k]);
}

/* --- what the operations saw and answer --- */
static char log_[4096];
static int nlog;
static void* object;
static uint64_t a_num;
static int a_val;	/* index into vals */
static void* a_ptr;

static void
seen(const char* op, const void* self, int n, ...)
{
	va_list ap;
	va_start(ap, n);
	char* p = log_ + strlen(log_);
	p += sprintf(p, "%s[\"%s\",\"%s\"", nlog++ ? "," : "", op, self == object ? "self" : "another");
	while (n-- > 0) p += sprintf(p, ",\"%s\"", va_arg(ap, const char*));
	strcpy(p, "]");
	va_end(ap);
}

static const char*
num(int64_t v)
{
	static char t[8][24];
	static int k;
	k = (k + 1) % 8;
	sprintf(t[k], "%" PRId64, v);
	return t[k];
}

/* records */
static bool r_destroy(as_rec* r) { seen("destroy", r, 0); return (bool)(a_num & 1); }
static uint32_t r_hashcode(const as_rec* r) { seen("hashcode", r, 0); return (uint32_t)a_num; }
static as_val* r_get(const as_rec* r, const char* n) { seen("get", r, 1, ptr(n)); return vals[a_val]; }
static bool made;	/* the setter made a new value, which the operation owns */
static int
r_set(const as_rec* r, const char* n, const as_val* v)
{
	char t[80];
	if (made && v) {
		switch (as_val_type(v)) {
		case AS_INTEGER: sprintf(t, "int %" PRId64, as_integer_get((as_integer*)v)); break;
		case AS_DOUBLE: sprintf(t, "double %a", as_double_get((as_double*)v)); break;
		case AS_STRING: sprintf(t, "str %s", as_string_get((as_string*)v)); break;
		default: strcpy(t, "another type");
		}
		as_val_destroy(v);
	}
	else {
		strcpy(t, ptr(v));
	}
	seen("set", r, 2, ptr(n), t);
	return (int)a_num;
}
static int r_remove(const as_rec* r, const char* n) { seen("remove", r, 1, ptr(n)); return (int)a_num; }
static uint32_t r_ttl(const as_rec* r) { seen("ttl", r, 0); return (uint32_t)a_num; }
static uint64_t r_lut(const as_rec* r) { seen("last_update_time", r, 0); return a_num; }
static uint16_t r_gen(const as_rec* r) { seen("gen", r, 0); return (uint16_t)a_num; }
static uint32_t r_size(const as_rec* r) { seen("size", r, 0); return (uint32_t)a_num; }
static uint32_t r_msize(const as_rec* r) { seen("memory_size", r, 0); return (uint32_t)a_num; }
static uint32_t r_dsize(const as_rec* r) { seen("device_size", r, 0); return (uint32_t)a_num; }
static as_val* r_key(const as_rec* r) { seen("key", r, 0); return vals[a_val]; }
static const char* r_setname(const as_rec* r) { seen("setname", r, 0); return a_ptr; }
static uint16_t r_numbins(const as_rec* r) { seen("numbins", r, 0); return (uint16_t)a_num; }
static int r_names(const as_rec* r, as_rec_bin_names_callback c, void* u) { seen("bin_names", r, 2, ptr((void*)c), ptr(u)); return (int)a_num; }
static as_bytes* r_digest(const as_rec* r) { seen("digest", r, 0); return a_ptr; }
static int r_set_ttl(const as_rec* r, uint32_t t) { seen("set_ttl", r, 1, num(t)); return (int)a_num; }
static int r_drop(const as_rec* r) { seen("drop_key", r, 0); return (int)a_num; }
static bool r_each(const as_rec* r, as_rec_foreach_callback c, void* u) { seen("foreach", r, 2, ptr((void*)c), ptr(u)); return (bool)(a_num & 1); }
/* streams */
static int s_destroy(as_stream* s) { seen("destroy", s, 0); return (int)a_num; }
static as_val* s_read(const as_stream* s) { seen("read", s, 0); return vals[a_val]; }
static as_stream_status s_write(const as_stream* s, as_val* v) { seen("write", s, 1, ptr(v)); return (as_stream_status)(a_num & 1); }
/* iterators */
static bool i_destroy(as_iterator* i) { seen("destroy", i, 0); return (bool)(a_num & 1); }
static bool i_has(const as_iterator* i) { seen("has_next", i, 0); return (bool)(a_num & 1); }
static const as_val* i_next(as_iterator* i) { seen("next", i, 0); return vals[a_val]; }
/* timers */
static int t_destroy(as_timer* t) { seen("destroy", t, 0); return (int)a_num; }
static bool t_out(const as_timer* t) { seen("timedout", t, 0); return (bool)(a_num & 1); }
static uint64_t t_slice(const as_timer* t) { seen("timeslice", t, 0); return a_num; }
/* modules */
static int m_destroy(as_module* m) { seen("destroy", m, 0); return (int)a_num; }
static bool configuring;
static int
m_update(as_module* m, as_module_event* e)
{
	if (configuring) seen("update", m, 2, e->type == AS_MODULE_EVENT_CONFIGURE ? "event0" : "another event", ptr(e->data.config));
	else seen("update", m, 1, ptr(e));
	return (int)a_num;
}
static int
m_validate(as_module* m, as_aerospike* as, const char* f, const char* c, uint32_t n, as_module_error* e)
{
	seen("validate", m, 5, ptr(as), ptr(f), ptr(c), num(n), ptr(e));
	return (int)a_num;
}
static int
m_record(as_module* m, as_udf_context* x, const char* f, const char* fn, as_rec* r, as_list* a, as_result* res)
{
	seen("apply_record", m, 6, ptr(x), ptr(f), ptr(fn), ptr(r), ptr(a), ptr(res));
	return (int)a_num;
}
static int
m_stream(as_module* m, as_udf_context* x, const char* f, const char* fn, as_stream* i, as_list* a, as_stream* o, as_result* res)
{
	seen("apply_stream", m, 7, ptr(x), ptr(f), ptr(fn), ptr(i), ptr(a), ptr(o), ptr(res));
	return (int)a_num;
}
/* the database */
static void a_destroy(as_aerospike* a) { seen("destroy", a, 0); }
static int a_create(const as_aerospike* a, const as_rec* r) { seen("rec_create", a, 1, ptr(r)); return (int)a_num; }
static int a_update(const as_aerospike* a, const as_rec* r) { seen("rec_update", a, 1, ptr(r)); return (int)a_num; }
static int a_remove(const as_aerospike* a, const as_rec* r) { seen("rec_remove", a, 1, ptr(r)); return (int)a_num; }
static int a_exists(const as_aerospike* a, const as_rec* r) { seen("rec_exists", a, 1, ptr(r)); return (int)a_num; }
static int a_log(const as_aerospike* a, const char* n, const int l, const int v, const char* m) { seen("log", a, 4, ptr(n), num(l), num(v), ptr(m)); return (int)a_num; }
static cf_clock a_time(const as_aerospike* a) { seen("get_current_time", a, 0); return a_num; }
static int a_context(const as_aerospike* a, const as_rec* r, const uint32_t c) { seen("set_context", a, 2, ptr(r), num(c)); return (int)a_num; }
static int a_config(const as_aerospike* a, const as_rec* r, const char* n) { seen("get_config", a, 2, ptr(r), ptr(n)); return (int)a_num; }

/* --- one object --- */
static const char* kind;
static char ops[2048];	/* ,op,op, */
static bool has(const char* op) { char t[40]; sprintf(t, ",%s,", op); return strstr(ops, t) != NULL; }
static as_rec_hooks rh;
static as_stream_hooks sh;
static as_iterator_hooks ih;
static as_timer_hooks th;
static as_module_hooks mh;
static as_aerospike_hooks ah;
#define IF(t, op, f) t.op = has(#op) ? f : NULL
static int refs;

static void
make(const char* k, const char* place)
{
	kind = k;
	IF(rh, destroy, r_destroy); IF(rh, hashcode, r_hashcode); IF(rh, get, r_get); IF(rh, set, r_set); IF(rh, remove, r_remove);
	IF(rh, ttl, r_ttl); IF(rh, last_update_time, r_lut); IF(rh, gen, r_gen); IF(rh, size, r_size); IF(rh, memory_size, r_msize);
	IF(rh, device_size, r_dsize); IF(rh, key, r_key); IF(rh, setname, r_setname); IF(rh, numbins, r_numbins); IF(rh, bin_names, r_names);
	IF(rh, digest, r_digest); IF(rh, set_ttl, r_set_ttl); IF(rh, drop_key, r_drop); IF(rh, foreach, r_each);
	IF(sh, destroy, s_destroy); IF(sh, read, s_read); IF(sh, write, s_write);
	IF(ih, destroy, i_destroy); IF(ih, has_next, i_has); IF(ih, next, i_next);
	IF(th, destroy, t_destroy); IF(th, timedout, t_out); IF(th, timeslice, t_slice);
	IF(mh, destroy, m_destroy); IF(mh, update, m_update); IF(mh, validate, m_validate); IF(mh, apply_record, m_record); IF(mh, apply_stream, m_stream);
	IF(ah, destroy, a_destroy); IF(ah, rec_create, a_create); IF(ah, rec_update, a_update); IF(ah, rec_remove, a_remove); IF(ah, rec_exists, a_exists);
	IF(ah, log, a_log); IF(ah, get_current_time, a_time); IF(ah, set_context, a_context); IF(ah, get_config, a_config);

	static const uint8_t fills[] = { 0, 1, 0xA5 };
	fill_byte = fills[vh_below(3)];
	bool heap = ! strcmp(place, "heap"), none = ! strcmp(place, "nohooks"), null = ! strcmp(place, "null");
	void* src = mem + vh_below(16);
	released = 0;
	refs = 1;
	watch = NULL;
	watch_given = ! heap;
	void* given = NULL;
	const void* got = NULL;
	if (null) {
		object = NULL;
	}
#define PLACE(type) if (! heap) given = malloc(sizeof(type)), watch = given
#define DONE(o) object = (o); if (! object) { fprintf(stderr, "no object\n"); exit(4); } if (heap) { watch = last_block; if ((uint8_t*)object < last_block || (uint8_t*)object >= last_block + last_size) MISUSE("block\n"); }
	else if (! strcmp(k, "rec")) {
		PLACE(as_rec);
		DONE(heap ? as_rec_new(src, &rh) : as_rec_init(given, src, none ? NULL : &rh));
		got = as_rec_source(object);
	}
	else if (! strcmp(k, "stream")) {
		PLACE(as_stream);
		DONE(heap ? as_stream_new(src, &sh) : as_stream_init(given, src, none ? NULL : &sh));
		got = as_stream_source(object);
	}
	else if (! strcmp(k, "iterator")) {
		given = malloc(sizeof(as_iterator));
		watch = given;
		object = as_iterator_init(given, heap, src, none ? NULL : &ih);
		got = ((as_iterator*)object)->data;
	}
	else if (! strcmp(k, "timer")) {
		PLACE(as_timer);
		DONE(heap ? as_timer_new(src, &th) : as_timer_init(given, src, none ? NULL : &th));
		got = as_timer_source(object);
	}
	else if (! strcmp(k, "module")) {
		/* plain structure: never released */
		as_module* m = malloc(sizeof(as_module));
		watch = (uint8_t*)m;
		watch_given = 1;
		m->source = src;
		m->hooks = none ? NULL : &mh;
		object = m;
		heap = false;
		got = as_module_source(m);
	}
	else {
		PLACE(as_aerospike);
		DONE(heap ? as_aerospike_new(src, &ah) : as_aerospike_init(given, src, none ? NULL : &ah));
		got = ((as_aerospike*)object)->source;
	}
	evp("{\"o\":\"init\",\"k\":\"%s\",\"heap\":%d,\"null\":%d,\"src\":\"%s\",\"source\":\"%s\",\"ops\":[", k, heap, null, ptr(got), null ? "0" : ptr(src));
	char t[2048];
	strcpy(t, ops);
	bool first = true;
	for (char* p = strtok(t, ","); p; p = strtok(NULL, ",")) {
		evp(first ? "\"%s\"" : ",\"%s\"", p);
		first = false;
	}
	ev("]}");
}

static void
unmake(void)
{
	/* what is still there is ours to release */
	if (watch && (watch_given || ! released)) {
		uint8_t* w = watch;
		watch = NULL;
		__real_free(w);
	}
	watch = NULL;
}

static void*
any(void)
{
	return vh_chance(15) ? NULL : mem + vh_below(16);
}

static void
call(const char* c)
{
	as_rec* r = object;
	log_[0] = 0;
	nlog = 0;
	released = 0;
	a_num = vh_chance(30) ? vh_below(3) : vh_next() >> vh_below(63);
	a_val = vh_below(NV + 1);
	a_ptr = any();
	configuring = false;
	made = false;
	char args[1024] = "", ret[80] = "";
	char ans[80];
	const char* sans = NULL;	/* answer, if not the value */
	uint64_t keep = a_num;
#define ARG(s) sprintf(args + strlen(args), "%s\"%s\"", args[0] ? "," : "", s)
#define RET(s) strcpy(ret, s)
#define ANS(s) strcpy(ans, s), sans = ans
#define IS(n) (! strcmp(c, n))
#define U64(v) (sprintf(ret, "%" PRIu64, (uint64_t)(v)))
#define A64(v) (sprintf(ans, "%" PRIu64, (uint64_t)(v)), sans = ans)

	if (IS("can")) {
		int rd = as_stream_readable(object), wr = as_stream_writable(object);
		ev("{\"o\":\"can\",\"read\":%d,\"write\":%d}", rd, wr);
		return;
	}
	if (IS("text")) {
		char* t = object ? as_val_tostring(object) : strdup("none");
		ev("{\"o\":\"text\",\"given\":%d,\"log\":[%s]}", t && *t, log_);
		free(t);
		return;
	}
	if (IS("reserve")) {
		if (! object) return;
		as_val_reserve(object);
		refs++;
		ev("{\"o\":\"reserve\"}");
		return;
	}
	if (IS("destroy")) {
		int rc = -9;
		if (! strcmp(kind, "rec")) { if (object) as_rec_destroy(object); }
		else if (! strcmp(kind, "stream")) as_stream_destroy(object);
		else if (! strcmp(kind, "iterator")) as_iterator_destroy(object);
		else if (! strcmp(kind, "timer")) rc = as_timer_destroy(object);
		else if (! strcmp(kind, "module")) rc = as_module_destroy(object);
		else if (object) as_aerospike_destroy(object);
		ev("{\"o\":\"destroy\",\"log\":[%s],\"rel\":%d,\"r\":\"%d\",\"ans\":{\"t\":\"num\",\"p\":\"%d\",\"c\":\"\"}}", log_, released, rc, (int)keep);
		refs--;
		return;
	}

	if (! strcmp(kind, "rec")) {
		char* n = mem + vh_below(16);
		const as_val* v = vals[vh_below(NV + 1)];
		if (IS("remove")) { ARG(ptr(n)); U64((uint32_t)as_rec_remove(r, n)); A64((uint32_t)a_num); }
		else if (IS("ttl")) { U64(as_rec_ttl(r)); A64((uint32_t)a_num); }
		else if (IS("last_update_time")) { U64(as_rec_last_update_time(r)); A64(a_num); }
		else if (IS("gen")) { U64(as_rec_gen(r)); A64((uint16_t)a_num); }
		else if (IS("size")) { U64(as_rec_size(r)); A64((uint32_t)a_num); }
		else if (IS("memory_size")) { U64(as_rec_memory_size(r)); A64((uint32_t)a_num); }
		else if (IS("device_size")) { U64(as_rec_device_size(r)); A64((uint32_t)a_num); }
		else if (IS("key")) RET(ptr(as_rec_key(r)));
		else if (IS("setname")) { RET(ptr(as_rec_setname(r))); ANS(ptr(a_ptr)); }
		else if (IS("numbins")) { U64(as_rec_numbins(r)); A64((uint16_t)a_num); }
		else if (IS("bin_names")) { void* f = any(); void* u = any(); ARG(ptr(f)); ARG(ptr(u)); U64((uint32_t)as_rec_bin_names(r, (as_rec_bin_names_callback)f, u)); A64((uint32_t)a_num); }
		else if (IS("digest")) { RET(ptr(as_rec_digest(r))); ANS(ptr(a_ptr)); }
		else if (IS("set_ttl")) { uint32_t t = (uint32_t)vh_next(); ARG(num(t)); U64((uint32_t)as_rec_set_ttl(r, t)); A64((uint32_t)a_num); }
		else if (IS("drop_key")) { U64((uint32_t)as_rec_drop_key(r)); A64((uint32_t)a_num); }
		else if (IS("hashcode")) { U64(r ? as_val_hashcode(r) : 0); A64((uint32_t)a_num); }
		else if (IS("foreach")) { void* f = any(); void* u = any(); ARG(ptr(f)); ARG(ptr(u)); U64(as_rec_foreach(r, (as_rec_foreach_callback)f, u)); A64(a_num & 1); }
		else if (! strncmp(c, "get", 3)) {
			ARG(ptr(n));
			if (vh_chance(40)) {	/* the type asked for */
				static const char* w[] = { "get_int64", "get_double", "get_str", "get_geojson_str", "get_bytes", "get_list", "get_map", "get_integer", "get_string", "get_as_double", "get_geojson" };
				static const int k[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 2, 4 };
				for (int j = 0; j < 11; j++) if (IS(w[j])) a_val = k[j];
			}
			if (IS("get")) RET(ptr(as_rec_get(r, n)));
			else if (IS("get_int64")) sprintf(ret, "%" PRId64, as_rec_get_int64(r, n));
			else if (IS("get_double")) { double d = as_rec_get_double(r, n); if (d == 0) strcpy(ret, "0"); else sprintf(ret, "%a", d); }
			else if (IS("get_str")) { char* s = as_rec_get_str(r, n); RET(s ? s : "0"); }
			else if (IS("get_geojson_str")) { char* s = as_rec_get_geojson_str(r, n); RET(s ? s : "0"); }
			else if (IS("get_integer")) RET(ptr(as_rec_get_integer(r, n)));
			else if (IS("get_as_double")) RET(ptr(as_rec_get_as_double(r, n)));
			else if (IS("get_string")) RET(ptr(as_rec_get_string(r, n)));
			else if (IS("get_geojson")) RET(ptr(as_rec_get_geojson(r, n)));
			else if (IS("get_bytes")) RET(ptr(as_rec_get_bytes(r, n)));
			else if (IS("get_list")) RET(ptr(as_rec_get_list(r, n)));
			else if (IS("get_map")) RET(ptr(as_rec_get_map(r, n)));
		}
		else {
			ARG(ptr(n));
			char t[80];
			if (IS("set_int64")) { int64_t x = (int64_t)vh_next() >> vh_below(63); made = true; sprintf(t, "int %" PRId64, x); ARG(t); U64((uint32_t)as_rec_set_int64(r, n, x)); }
			else if (IS("set_double")) { double x = (double)(int64_t)vh_next() / 3; made = true; sprintf(t, "double %a", x); ARG(t); U64((uint32_t)as_rec_set_double(r, n, x)); }
			else if (IS("set_str")) { const char* x = vh_chance(20) ? "" : "some text"; made = true; sprintf(t, "str %s", x); ARG(t); U64((uint32_t)as_rec_set_str(r, n, x)); }
			else {
				if (IS("set")) { ARG(ptr(v)); U64((uint32_t)as_rec_set(r, n, v)); }
				else if (IS("set_integer")) { v = vals[1]; ARG(ptr(v)); U64((uint32_t)as_rec_set_integer(r, n, (as_integer*)v)); }
				else if (IS("set_as_double")) { v = vals[2]; ARG(ptr(v)); U64((uint32_t)as_rec_set_as_double(r, n, (as_double*)v)); }
				else if (IS("set_string")) { v = vals[3]; ARG(ptr(v)); U64((uint32_t)as_rec_set_string(r, n, (as_string*)v)); }
				else if (IS("set_geojson")) { v = vals[4]; ARG(ptr(v)); U64((uint32_t)as_rec_set_geojson(r, n, (as_geojson*)v)); }
				else if (IS("set_bytes")) { v = vals[5]; ARG(ptr(v)); U64((uint32_t)as_rec_set_bytes(r, n, (as_bytes*)v)); }
				else if (IS("set_list")) { v = vals[6]; ARG(ptr(v)); U64((uint32_t)as_rec_set_list(r, n, (as_list*)v)); }
				else if (IS("set_map")) { v = vals[7]; ARG(ptr(v)); U64((uint32_t)as_rec_set_map(r, n, (as_map*)v)); }
				else MISUSE("call %s\n", c);
			}
			A64((uint32_t)a_num);
		}
	}
	else if (! strcmp(kind, "stream")) {
		if (IS("read")) RET(ptr(as_stream_read(object)));
		else { as_val* v = vals[vh_below(NV + 1)]; ARG(ptr(v)); U64(as_stream_write(object, v)); A64(a_num & 1); }
	}
	else if (! strcmp(kind, "iterator")) {
		if (IS("next")) RET(ptr(as_iterator_next(object)));
		else { U64(as_iterator_has_next(object)); A64(a_num & 1); }
	}
	else if (! strcmp(kind, "timer")) {
		if (IS("timedout")) { U64(as_timer_timedout(object)); A64(a_num & 1); }
		else { U64(as_timer_timeslice(object)); A64(a_num); }
	}
	else if (! strcmp(kind, "module")) {
		void* a[8];
		for (int k = 0; k < 8; k++) a[k] = any();
		uint32_t n = (uint32_t)vh_next();
		if (IS("configure")) { configuring = true; ARG(ptr(a[0])); U64((uint32_t)as_module_configure(object, a[0])); }
		else if (IS("update")) { ARG(ptr(a[0])); U64((uint32_t)as_module_update(object, a[0])); }
		else if (IS("validate")) { ARG(ptr(a[0])); ARG(ptr(a[1])); ARG(ptr(a[2])); ARG(num(n)); ARG(ptr(a[3])); U64((uint32_t)as_module_validate(object, a[0], a[1], a[2], n, a[3])); }
		else if (IS("apply_record")) { for (int k = 0; k < 6; k++) ARG(ptr(a[k])); U64((uint32_t)as_module_apply_record(object, a[0], a[1], a[2], a[3], a[4], a[5])); }
		else { for (int k = 0; k < 7; k++) ARG(ptr(a[k])); U64((uint32_t)as_module_apply_stream(object, a[0], a[1], a[2], a[3], a[4], a[5], a[6])); }
		A64((uint32_t)a_num);
	}
	else {
		void* x = any();
		void* y = any();
		int l = (int)vh_next(), v = (int)vh_next();
		A64((uint32_t)a_num);
		if (IS("rec_create")) { ARG(ptr(x)); U64((uint32_t)as_aerospike_rec_create(object, x)); }
		else if (IS("rec_update")) { ARG(ptr(x)); U64((uint32_t)as_aerospike_rec_update(object, x)); }
		else if (IS("rec_exists")) { ARG(ptr(x)); U64((uint32_t)as_aerospike_rec_exists(object, x)); }
		else if (IS("rec_remove")) { ARG(ptr(x)); U64((uint32_t)as_aerospike_rec_remove(object, x)); }
		else if (IS("log")) { ARG(ptr(x)); ARG(num(l)); ARG(num(v)); ARG(ptr(y)); U64((uint32_t)as_aerospike_log(object, x, l, v, y)); }
		else if (IS("get_current_time")) { U64(as_aerospike_get_current_time(object)); A64(a_num); }
		else if (IS("set_context")) { ARG(ptr(x)); ARG(num((uint32_t)l)); U64((uint32_t)as_aerospike_set_context(object, x, (uint32_t)l)); }
		else if (IS("get_config")) { ARG(ptr(x)); ARG(ptr(y)); U64((uint32_t)as_aerospike_get_config(object, x, y)); }
		else MISUSE("call %s\n", c);
	}
	ev("{\"o\":\"call\",\"c\":\"%s\",\"a\":[%s],\"log\":[%s],\"r\":\"%s\",\"ans\":{\"p\":\"%s\",\"t\":\"%s\",\"c\":\"%s\"}}", c, args, log_, ret,
			sans ? sans : ptr(vals[a_val]), vtype[a_val], vtext[a_val]);
}

static void
results(uint32_t n)
{
	for (; n > 0; n--) {
		static const uint8_t fills[] = { 0, 1, 0xA5 };
		fill_byte = fills[vh_below(3)];
		as_val* v[4] = { NULL, (as_val*)as_integer_new(1), (as_val*)as_string_new_strdup("two"), (as_val*)as_arraylist_new(1, 1) };
		int how = vh_below(3), heap = vh_below(2), k = how == 0 ? 0 : (int)vh_below(4);
		as_result* given = heap ? NULL : malloc(sizeof(as_result));
		as_result* r;
		if (v[k]) as_val_reserve(v[k]);
		watch = NULL;
		if (how == 0) r = heap ? as_result_new() : as_result_init(given);
		else if (how == 1) r = heap ? as_success_new(v[k]) : as_success_init(given, v[k]);
		else r = heap ? as_failure_new(v[k]) : as_failure_init(given, v[k]);
		watch = (uint8_t*)r;
		watch_given = ! heap;
		released = 0;
		int alive = 1;
		static const char* hows[] = { "empty", "ok", "failed" };
#define STATE() do { \
		evp("\"cnt\":[%u,%u,%u]", v[1]->count, v[2]->count, v[3]->count); \
		if (alive) { \
			as_val* x = as_result_value(r); \
			int id = ! x ? 0 : x == v[1] ? 1 : x == v[2] ? 2 : x == v[3] ? 3 : 9; \
			evp(",\"ok\":%d,\"val\":%d", r->is_success, id); \
		} \
		ev("}"); } while (0)
		evp("{\"o\":\"result\",\"heap\":%d,\"how\":\"%s\",\"v\":%d,", heap, hows[how], k);
		STATE();
		while (alive) {
			int what = vh_below(5);
			if (what < 2) {
				k = vh_below(4);
				if (v[k]) as_val_reserve(v[k]);
				as_result* q = what ? as_result_setsuccess(r, v[k]) : as_result_setfailure(r, v[k]);
				if (q != r) { fprintf(stderr, "another result\n"); exit(4); }
				evp("{\"o\":\"reset\",\"how\":\"%s\",\"v\":%d,", what ? "ok" : "failed", k);
				STATE();
			}
			else if (what == 2 && alive < 4) {
				int same = as_result_reserve(r) == r;
				alive++;
				evp("{\"o\":\"rreserve\",\"same\":%d,", same);
				STATE();
			}
			else {
				as_result_destroy(r);
				alive--;
				evp("{\"o\":\"rdestroy\",\"rel\":%d,", released);
				STATE();
			}
		}
		unmake();
		for (int j = 1; j < 4; j++) as_val_destroy(v[j]);
	}
}

static const char* all_calls[6][48] = {
	{ "rec", "remove", "ttl", "last_update_time", "gen", "size", "memory_size", "device_size", "key", "setname", "numbins", "bin_names", "digest", "set_ttl", "drop_key",
	  "hashcode", "foreach", "get", "set", "get_int64", "get_double", "get_str", "get_geojson_str", "get_integer", "get_as_double", "get_string", "get_geojson", "get_bytes",
	  "get_list", "get_map", "set_int64", "set_double", "set_str", "set_integer", "set_as_double", "set_string", "set_geojson", "set_bytes", "set_list", "set_map", "text", "reserve", NULL },
	{ "stream", "read", "write", "can", NULL }, { "iterator", "has_next", "next", NULL }, { "timer", "timedout", "timeslice", NULL },
	{ "module", "configure", "update", "validate", "apply_record", "apply_stream", NULL },
	{ "aerospike", "rec_create", "rec_update", "rec_exists", "rec_remove", "log", "get_current_time", "set_context", "get_config", NULL }
};
static const char* all_ops =
	"destroy hashcode get set remove ttl last_update_time gen size memory_size device_size key setname numbins bin_names digest set_ttl drop_key foreach"
	"|destroy read write|destroy has_next next|destroy timedout timeslice|destroy update validate apply_record apply_stream"
	"|destroy rec_create rec_update rec_remove rec_exists log get_current_time set_context get_config";

static void
randomly(uint32_t n)
{
	for (; n > 0; n--) {
		int k = vh_chance(40) ? 0 : vh_below(6);
		int percent = vh_below(101);
		char t[1024];
		strcpy(t, all_ops);
		char* p = t;
		for (int j = 0; j < k; j++) p = strchr(p, '|') + 1;
		if (strchr(p, '|')) *strchr(p, '|') = 0;
		strcpy(ops, ",");
		for (char* w = strtok(p, " "); w; w = strtok(NULL, " ")) {
			if (vh_chance(percent)) { strcat(ops, w); strcat(ops, ","); }
		}
		make(all_calls[k][0], vh_chance(50) ? "heap" : "given");
		int nc = 0;
		while (all_calls[k][nc + 1]) nc++;
		for (int j = vh_below(15); j > 0; j--) call(all_calls[k][1 + vh_below(nc)]);
		while (refs > 0) call("destroy");
		unmake();
	}
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	vh_seed(strtoul(argv[2], NULL, 10));
	make_vals();
	if (! strcmp(argv[1], "result")) {
		results(strtoul(argv[3], NULL, 10));
	}
	else if (! strcmp(argv[1], "random")) {
		randomly(strtoul(argv[3], NULL, 10));
	}
	else {
		FILE* f = fopen(argv[3], "r");
		static char line[4096], word[64][64];
		if (! f) MISUSE("script\n");
		while (fgets(line, sizeof(line), f)) {
			int n = 0;
			char o[2048];
			char* save;
			for (char* p = strtok_r(line, " \n", &save); p; p = strtok_r(NULL, " \n", &save)) {
				if (n == 2) strcpy(o, p), n++;
				else strcpy(word[n++], p);
			}
			sprintf(ops, ",%s,", o);
			if (! strcmp(o, "-")) strcpy(ops, ",");
			make(word[0], word[1]);
			for (int k = 3; k < n; k++) call(word[k]);
			unmake();
		}
		fclose(f);
	}
	free_vals();
	vh_close();
	return 0;
}
