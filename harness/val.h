/* Value trees of the drivers: text notation, random generation, construction
 * with the library, and output as records of the specification.
 *
 * Notation (prefix): 0 no value, N nil, T F booleans, I<dec>, D<hex64> double
 * bits, S<hex> G<hex> B<type>:<hex>, L<n> then n values, M<flags>:<n> then n
 * keys and values in turn, P then two values, W wildcard, Y infinite.
 * Every item ends with a dot. */
#pragma once
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include "vh.h"

typedef struct vn {
	char t;
	int k;			/* bytes type or map flags */
	int64_t i;		/* integer, or bits of a double */
	uint8_t* b;
	uint32_t n;		/* bytes, elements, entries */
	struct vn** e;
} vn;

static vn*
vn_new(char t)
{
	vn* v = calloc(1, sizeof(vn));
	v->t = t;
	return v;
}

static void
vn_free(vn* v)
{
	if (! v) return;
	uint32_t m = v->t == 'L' ? v->n : v->t == 'M' ? 2 * v->n : v->t == 'P' ? 2 : 0;
	for (uint32_t j = 0; j < m; j++) vn_free(v->e[j]);
	free(v->e);
	free(v->b);
	free(v);
}

static vn*
vn_text(char t, int k, const uint8_t* b, uint32_t n)
{
	vn* v = vn_new(t);
	v->k = k;
	v->n = n;
	v->b = malloc(n + 1);
	if (n) memcpy(v->b, b, n);
	v->b[n] = 0;
	return v;
}

static vn*
vn_int(int64_t i)
{
	vn* v = vn_new('I');
	v->i = i;
	return v;
}

static int
vn_hex(char c)
{
	return c <= '9' ? c - '0' : c - 'a' + 10;
}

static vn*
vn_parse(char** p)
{
	char t = *(*p)++;
	vn* v = vn_new(t);
	switch (t) {
	case 'I': v->i = strtoll(*p, p, 10); break;
	case 'D': v->i = (int64_t)strtoull(*p, p, 16); break;
	case 'B':
		v->k = (int)strtol(*p, p, 10);
		(*p)++;
		/* fall through */
	case 'S': case 'G': {
		char* q = *p;
		while (*q != '.') q++;
		v->n = (uint32_t)((q - *p) / 2);
		v->b = malloc(v->n + 1);
		for (uint32_t j = 0; j < v->n; j++) v->b[j] = (uint8_t)(vn_hex((*p)[2 * j]) * 16 + vn_hex((*p)[2 * j + 1]));
		v->b[v->n] = 0;
		*p = q;
		break;
	}
	case 'M':
		v->k = (int)strtol(*p, p, 10);
		(*p)++;
		/* fall through */
	case 'L':
		v->n = (uint32_t)strtoul(*p, p, 10);
		break;
	default: break;
	}
	if (**p != '.') MISUSE("bad notation at %s\n", *p);
	(*p)++;
	uint32_t m = t == 'L' ? v->n : t == 'M' ? 2 * v->n : t == 'P' ? 2 : 0;
	v->e = calloc(m + 1, sizeof(vn*));
	for (uint32_t j = 0; j < m; j++) v->e[j] = vn_parse(p);
	return v;
}

/* ------------------------------------------------------------ construction */
static as_val*
vn_build(const vn* v)
{
	switch (v->t) {
	case '0': return NULL;
	case 'N': return (as_val*)&as_nil;
	case 'T': return (as_val*)as_boolean_new(true);
	case 'F': return (as_val*)as_boolean_new(false);
	case 'I': return (as_val*)as_integer_new(v->i);
	case 'D': { double d; memcpy(&d, &v->i, 8); return (as_val*)as_double_new(d); }
	case 'S': return (as_val*)as_string_new_strdup((char*)v->b);
	case 'G': return (as_val*)as_geojson_new_strdup((char*)v->b);
	case 'B': {
		as_bytes* b;
		if (v->n == 0 && (v->k & 1)) {
			b = as_bytes_new(0);
		}
		else {
			uint8_t* p = malloc(v->n ? v->n : 1);
			memcpy(p, v->b, v->n);
			b = as_bytes_new_wrap(p, v->n, true);
		}
		as_bytes_set_type(b, (as_bytes_type)v->k);
		return (as_val*)b;
	}
	case 'L': {
		as_arraylist* l = as_arraylist_new(v->n / 2, 1 + v->n / 3);
		for (uint32_t j = 0; j < v->n; j++) as_arraylist_append(l, vn_build(v->e[j]));
		return (as_val*)l;
	}
	case 'M': {
		as_orderedmap* m = as_orderedmap_new(v->n / 2 + 1);
		if (v->n % 2) as_map_set_flags((as_map*)m, (uint32_t)v->k);
		else as_orderedmap_set_flags(m, (uint32_t)v->k);
		for (uint32_t j = 0; j < v->n; j++) as_orderedmap_set(m, vn_build(v->e[2 * j]), vn_build(v->e[2 * j + 1]));
		return (as_val*)m;
	}
	case 'P': return (as_val*)as_pair_new(vn_build(v->e[0]), vn_build(v->e[1]));
	case 'W': return (as_val*)&as_cmp_wildcard;
	case 'Y': return (as_val*)&as_cmp_inf;
	default: MISUSE("bad node %c\n", v->t);
	}
}

/* ------------------------------------------------------------------ output */
static void
ev_limbs(const char* name, uint64_t x)
{
	evp("\"%s\":[%u,%u,%u,%u]", name, (unsigned)(x >> 48), (unsigned)(x >> 32) & 65535u,
			(unsigned)(x >> 16) & 65535u, (unsigned)x & 65535u);
}

static void
ev_double(uint64_t bits)
{
	double d;
	memcpy(&d, &bits, 8);
	evp("{\"t\":\"dbl\",");
	ev_limbs("w", bits);
	evp("}");
}

static void
ev_blob(const char* t, int k, const uint8_t* b, uint32_t n)
{
	evp("{\"t\":\"%s\",", t);
	if (k >= 0) evp("\"k\":%d,", k);
	evbytes("b", b, n);
	evp("}");
}

/* A node of the driver. */
static void
ev_vn(const vn* v)
{
	switch (v->t) {
	case '0': evp("{\"t\":\"none\"}"); break;
	case 'N': evp("{\"t\":\"nil\"}"); break;
	case 'T': evp("{\"t\":\"bool\",\"v\":1}"); break;
	case 'F': evp("{\"t\":\"bool\",\"v\":0}"); break;
	case 'I': evp("{\"t\":\"int\","); ev_limbs("w", (uint64_t)v->i); evp("}"); break;
	case 'D': ev_double((uint64_t)v->i); break;
	case 'S': ev_blob("str", -1, v->b, v->n); break;
	case 'G': ev_blob("geo", -1, v->b, v->n); break;
	case 'B': ev_blob("bin", v->k, v->b, v->n); break;
	case 'L':
		evp("{\"t\":\"list\",\"f\":0,\"e\":[");
		for (uint32_t j = 0; j < v->n; j++) { if (j) evp(","); ev_vn(v->e[j]); }
		evp("]}");
		break;
	case 'M':
		evp("{\"t\":\"map\",\"f\":%d,\"e\":[", v->k);
		for (uint32_t j = 0; j < v->n; j++) {
			evp(j ? ",[" : "[");
			ev_vn(v->e[2 * j]);
			evp(",");
			ev_vn(v->e[2 * j + 1]);
			evp("]");
		}
		evp("]}");
		break;
	case 'P':
		evp("{\"t\":\"pair\",\"e\":[");
		ev_vn(v->e[0]);
		evp(",");
		ev_vn(v->e[1]);
		evp("]}");
		break;
	case 'W': evp("{\"t\":\"wild\"}"); break;
	case 'Y': evp("{\"t\":\"inf\"}"); break;
	}
}

/* A value of the library, read through its public functions. */
static void
ev_val(const as_val* v)
{
	if (! v) {
		evp("{\"t\":\"none\"}");
		return;
	}
	switch (as_val_type(v)) {
	case AS_NIL: evp("{\"t\":\"nil\"}"); break;
	case AS_BOOLEAN: evp("{\"t\":\"bool\",\"v\":%d}", as_boolean_get((as_boolean*)v)); break;
	case AS_INTEGER: evp("{\"t\":\"int\","); ev_limbs("w", (uint64_t)as_integer_get((as_integer*)v)); evp("}"); break;
	case AS_DOUBLE: {
		double d = as_double_get((as_double*)v);
		uint64_t bits;
		memcpy(&bits, &d, 8);
		ev_double(bits);
		break;
	}
	case AS_STRING: ev_blob("str", -1, (uint8_t*)as_string_get((as_string*)v), (uint32_t)as_string_len((as_string*)v)); break;
	case AS_GEOJSON: ev_blob("geo", -1, (uint8_t*)as_geojson_get((as_geojson*)v), (uint32_t)as_geojson_len((as_geojson*)v)); break;
	case AS_BYTES: ev_blob("bin", as_bytes_get_type((as_bytes*)v), as_bytes_get((as_bytes*)v), as_bytes_size((as_bytes*)v)); break;
	case AS_LIST: {
		as_list* l = (as_list*)v;
		evp("{\"t\":\"list\",\"f\":%d,\"e\":[", (int)l->flags);
		for (uint32_t j = 0; j < as_list_size(l); j++) { if (j) evp(","); ev_val(as_list_get(l, j)); }
		evp("]}");
		break;
	}
	case AS_MAP: {
		as_orderedmap* m = (as_orderedmap*)v;
		as_orderedmap_iterator it;
		as_orderedmap_iterator_init(&it, m);
		evp("{\"t\":\"map\",\"f\":%d,\"e\":[", (int)m->_.flags);
		bool first = true;
		while (as_orderedmap_iterator_has_next(&it)) {
			const as_pair* p = (const as_pair*)as_orderedmap_iterator_next(&it);
			evp(first ? "[" : ",[");
			first = false;
			ev_val(as_pair_1((as_pair*)p));
			evp(",");
			ev_val(as_pair_2((as_pair*)p));
			evp("]");
		}
		as_orderedmap_iterator_destroy(&it);
		evp("]}");
		break;
	}
	case AS_PAIR:
		evp("{\"t\":\"pair\",\"e\":[");
		ev_val(as_pair_1((as_pair*)v));
		evp(",");
		ev_val(as_pair_2((as_pair*)v));
		evp("]}");
		break;
	case AS_CMP_WILDCARD: evp("{\"t\":\"wild\"}"); break;
	case AS_CMP_INF: evp("{\"t\":\"inf\"}"); break;
	default: evp("{\"t\":\"type %d\"}", as_val_type(v)); break;
	}
}

/* -------------------------------------------------------------- generation */
#define VN_PAIR 1		/* pairs */
#define VN_WILD 2		/* wildcards and infinite values in lists and as map values */
#define VN_QUARTER 4	/* doubles that are small multiples of a quarter */
#define VN_NONE 8		/* pairs with missing parts */
#define VN_SMALL 16		/* few, short, often equal values */
#define VN_FLAGS 32		/* ordered maps too */
#define VN_KORD 64		/* ordered maps only */

static int64_t
rnd_int64(void)
{
	switch (vh_below(5)) {
	case 0: return (int64_t)vh_below(40) - 20;
	case 1: {	/* around powers of two */
		int64_t x = (int64_t)(1ULL << vh_below(64)) + (int64_t)vh_below(5) - 2;
		return vh_chance(50) ? x : (int64_t)(0 - (uint64_t)x);
	}
	case 2: return (int64_t)vh_below(70000) - 35000;
	case 3: return (int64_t)vh_next();
	default: return (int64_t)(vh_next() >> vh_below(64));
	}
}

static uint64_t
rnd_double(int mode)
{
	uint64_t b;
	if (mode & VN_QUARTER) {
		double d = ((double)vh_below(40001) - 20000) / 4;
		if (d == 0) d = 0;
		memcpy(&b, &d, 8);
		return b;
	}
	do {
		switch (vh_below(4)) {
		case 0: { double d = (double)((int)vh_below(7) - 3); memcpy(&b, &d, 8); break; }
		case 1: b = vh_next(); break;
		case 2: b = (vh_next() & 0x800fffffffffffffULL); break;	/* subnormal */
		default: b = (uint64_t)vh_below(2) << 63 | (uint64_t)vh_below(2048) << 52 | vh_below(3); break;
		}
	} while ((b & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL);	/* no NaN */
	return b;
}

static uint32_t
rnd_len(int mode, int big)
{
	if (mode & VN_SMALL) return vh_below(3);
	if (big && vh_chance(5)) return 65530 + vh_below(12);
	switch (vh_below(4)) {
	case 0: return vh_below(4);
	case 1: return 28 + vh_below(7);
	case 2: return vh_chance(30) ? 250 + vh_below(12) : vh_below(20);
	default: return vh_below(20);
	}
}

static vn*
rnd_leaf(int mode, int big)
{
	static const int types[] = {0, 1, 2, 4, 4, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 22, 24, 255};
	if ((mode & VN_WILD) && vh_chance(8)) return vn_new(vh_chance(60) ? 'W' : 'Y');
	char t = "NTFIIIDSSGBB"[vh_below(12)];
	vn* v = vn_new(t);
	if (t == 'I') v->i = (mode & VN_SMALL) ? (int64_t)vh_below(3) : rnd_int64();
	if (t == 'D') {
		if (mode & VN_SMALL) { double d = (double)vh_below(3); memcpy(&v->i, &d, 8); }
		else v->i = (int64_t)rnd_double(mode);
	}
	if (t == 'S' || t == 'G' || t == 'B') {
		v->n = rnd_len(mode, big);
		v->b = malloc(v->n + 1);
		for (uint32_t j = 0; j < v->n; j++) {
			v->b[j] = (mode & VN_SMALL) ? 'a' + vh_below(2) : (uint8_t)(t == 'B' ? vh_below(256) : 1 + vh_below(255));
		}
		v->b[v->n] = 0;
		if (t == 'B') v->k = (mode & VN_SMALL) ? 4 : types[vh_below(sizeof(types) / sizeof(*types))];
	}
	return v;
}

static vn*
rnd_key(int mode, uint32_t no)
{
	if (mode & VN_SMALL) {
		vn* v = vn_new("IIS"[vh_below(3)]);
		if (v->t == 'I') v->i = no;
		else { v->b = malloc(2); v->b[0] = 'a' + no; v->b[1] = 0; v->n = 1; }
		return v;
	}
	/* distinct from all keys with other numbers */
	uint8_t t[80];
	uint32_t n = (uint32_t)sprintf((char*)t, "%u", no * 7919 % 1000003);
	uint32_t pad = vh_below(3) == 0 ? vh_below(40) : 0;
	memset(t + n, '~', pad);
	switch (vh_below(4)) {
	case 0: case 1: return vn_int((int64_t)no * 7919 % 1000003 * (vh_chance(50) ? 1 : -1));
	case 2: return vn_text('S', 0, t, n + pad);
	default: return vn_text('B', 4, t, n + pad);
	}
}

/* big: sizes around the 16-bit boundary allowed */
static vn*
rnd_vn(int mode, int depth, int big)
{
	if (depth <= 0 || vh_chance(35)) return rnd_leaf(mode, big);
	if ((mode & VN_PAIR) && vh_chance(15)) {
		vn* v = vn_new('P');
		v->e = calloc(2, sizeof(vn*));
		for (int j = 0; j < 2; j++) v->e[j] = (mode & VN_NONE) && vh_chance(20) ? vn_new('0') : rnd_vn(mode, depth - 1, 0);
		return v;
	}
	vn* v = vn_new(vh_chance(55) ? 'L' : 'M');
	v->n = (mode & VN_SMALL) ? vh_below(4) : vh_chance(10) ? 13 + vh_below(6) : vh_below(5);
	if (v->t == 'M') {
		if (mode & VN_KORD) v->k = 1;
		else if (mode & VN_FLAGS) { static const int f[] = {0, 1, 3, 0x11, 0x13}; v->k = f[vh_below(5)]; }
	}
	v->e = calloc(2 * v->n + 1, sizeof(vn*));
	for (uint32_t j = 0; j < v->n; j++) {
		if (v->t == 'L') v->e[j] = rnd_vn(mode, depth - 1, 0);
		else {
			v->e[2 * j] = rnd_key(mode, j);
			v->e[2 * j + 1] = rnd_vn(mode, depth - 1, 0);
		}
	}
	return v;
}
