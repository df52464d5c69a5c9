/* Drives the wire format.
 *   pack rt|enc|path|cmp|mcmp|read|size SEED N OUT
 *   pack big|deep|dir|fix|huge|sweep|deepcmp|chain SEED OUT
 *   pack script IN OUT */
#include <sys/mman.h>
#include <aerospike/as_serializer.h>
#include "val.h"

/* ------------------------------------------------------------------- bytes */
typedef struct { uint8_t* p; size_t n, cap; } buf;

static void
put(buf* b, const void* p, size_t n)
{
	if (b->n + n > b->cap) {
		b->cap = (b->n + n) * 2 + 64;
		b->p = realloc(b->p, b->cap);
	}
	if (n) memcpy(b->p + b->n, p, n);
	b->n += n;
}

static void
put1(buf* b, int c)
{
	uint8_t x = (uint8_t)c;
	put(b, &x, 1);
}

static void
putbe(buf* b, uint64_t x, int k)
{
	for (int j = k - 1; j >= 0; j--) put1(b, (int)(x >> (8 * j)) & 255);
}

/* exactly sized copy, so that a read past the end is noticed */
static uint8_t*
exact(const uint8_t* p, size_t n)
{
	uint8_t* q = malloc(n ? n : 1);
	if (n) memcpy(q, p, n);
	if (n) return q;
	free(q);
	return (uint8_t*)malloc(0);
}

static void
ev_rle(const char* name, const uint8_t* p, size_t n)
{
	evp("\"%s\":[", name);
	for (size_t j = 0; j < n;) {
		size_t k = j;
		while (k < n && p[k] == p[j]) k++;
		evp(j ? ",[%u,%zu]" : "[%u,%zu]", p[j], k - j);
		j = k;
	}
	evp("]");
}

/* ------------------------------------------------- any legal encoding of it */
static void
any_head(buf* b, uint32_t n, int fix, int fixmax, int h8, int h16, int h32, int h8b)
{
	for (;;) {
		switch (vh_below(4)) {
		case 0: if ((int)n <= fixmax) { put1(b, fix | (int)n); return; } break;
		case 1: if (h8 && n < 256) { put1(b, h8b && vh_chance(50) ? h8b : h8); putbe(b, n, 1); return; } break;
		case 2: if (n < 65536) { put1(b, h8b && vh_chance(50) ? h8b + 1 : h16); putbe(b, n, 2); return; } break;
		case 3: put1(b, h8b && vh_chance(50) ? h8b + 2 : h32); putbe(b, n, 4); return;
		}
	}
}

static void
any_int(buf* b, int64_t x)
{
	for (;;) {
		switch (vh_below(9)) {
		case 0: if (x >= 0 && x < 128) { put1(b, (int)x); return; } if (x < 0 && x >= -32) { put1(b, (int)x & 255); return; } break;
		case 1: if (x >= 0 && x < 256) { put1(b, 0xcc); putbe(b, (uint64_t)x, 1); return; } break;
		case 2: if (x >= 0 && x < 65536) { put1(b, 0xcd); putbe(b, (uint64_t)x, 2); return; } break;
		case 3: if (x >= 0 && x < 4294967296LL) { put1(b, 0xce); putbe(b, (uint64_t)x, 4); return; } break;
		case 4: if (x >= 0) { put1(b, 0xcf); putbe(b, (uint64_t)x, 8); return; } break;
		case 5: if (x >= -128 && x < 128) { put1(b, 0xd0); putbe(b, (uint64_t)x, 1); return; } break;
		case 6: if (x >= -32768 && x < 32768) { put1(b, 0xd1); putbe(b, (uint64_t)x, 2); return; } break;
		case 7: if (x >= -2147483648LL && x < 2147483648LL) { put1(b, 0xd2); putbe(b, (uint64_t)x, 4); return; } break;
		case 8: put1(b, 0xd3); putbe(b, (uint64_t)x, 8); return;
		}
	}
}

static int exact_widths;	/* shortest widths only */

static void
any_enc(buf* b, const vn* v)
{
	switch (v->t) {
	case 'N': put1(b, 0xc0); break;
	case 'T': put1(b, 0xc3); break;
	case 'F': put1(b, 0xc2); break;
	case 'W': put(b, "\xd4\xff\x00", 3); break;
	case 'Y': put(b, "\xd4\xff\x01", 3); break;
	case 'I': any_int(b, v->i); break;
	case 'D': {
		double d;
		memcpy(&d, &v->i, 8);
		float f = (float)d;
		if ((double)f == d && vh_chance(50)) {
			uint32_t u;
			memcpy(&u, &f, 4);
			put1(b, 0xca);
			putbe(b, u, 4);
		}
		else {
			put1(b, 0xcb);
			putbe(b, (uint64_t)v->i, 8);
		}
		break;
	}
	case 'S': case 'G': case 'B':
		if (v->t == 'B' && v->n == 0 && v->k == 0) {
			any_head(b, 0, 0xa0, 31, 0xd9, 0xda, 0xdb, 0xc4);
			break;
		}
		any_head(b, v->n + 1, 0xa0, 31, 0xd9, 0xda, 0xdb, 0xc4);
		put1(b, v->t == 'S' ? 3 : v->t == 'G' ? 23 : v->k);
		put(b, v->b, v->n);
		break;
	case 'L':
		any_head(b, v->n, 0x90, 15, 0, 0xdc, 0xdd, 0);
		for (uint32_t j = 0; j < v->n; j++) any_enc(b, v->e[j]);
		break;
	case 'M':
		any_head(b, v->n + (v->k & 1), 0x80, 15, 0, 0xde, 0xdf, 0);
		if (v->k & 1) { put1(b, 0xc7); put1(b, 0); put1(b, v->k); put1(b, 0xc0); }
		for (uint32_t j = 0; j < 2 * v->n; j++) any_enc(b, v->e[j]);
		break;
	}
}

/* ------------------------------------------------------------------ library */
static as_serializer ser;

/* through the growing buffer of the serializer */
static uint8_t*
pack_val(const as_val* v, uint32_t* n)
{
	as_buffer b;
	memset(&b, 0x5A, sizeof(b));
	if (as_buffer_init(&b) || b.data || b.size || b.capacity) { fprintf(stderr, "FAULT: a new buffer is not empty\n"); exit(98); }
	int rc = as_serializer_serialize(&ser, (as_val*)v, &b);
	if (rc != 0) {
		*n = 0;
		return NULL;
	}
	*n = b.size;
	uint8_t* p = exact(b.data, b.size);
	as_buffer_destroy(&b);
	return p;
}

static uint32_t
measure_val(const as_val* v)
{
	as_packer pk = {.buffer = NULL, .capacity = 0, .offset = 0, .head = NULL, .tail = NULL};
	return as_pack_val(&pk, v) == 0 ? pk.offset : 999999999;
}

/* keys in order, as the library encodes maps */
static vn*
from_val(const as_val* v)
{
	vn* r;
	switch (as_val_type(v)) {
	case AS_NIL: return vn_new('N');
	case AS_BOOLEAN: return vn_new(as_boolean_get((as_boolean*)v) ? 'T' : 'F');
	case AS_INTEGER: return vn_int(as_integer_get((as_integer*)v));
	case AS_DOUBLE: { double d = as_double_get((as_double*)v); r = vn_new('D'); memcpy(&r->i, &d, 8); return r; }
	case AS_STRING: return vn_text('S', 0, (uint8_t*)as_string_get((as_string*)v), (uint32_t)as_string_len((as_string*)v));
	case AS_GEOJSON: return vn_text('G', 0, (uint8_t*)as_geojson_get((as_geojson*)v), (uint32_t)as_geojson_len((as_geojson*)v));
	case AS_BYTES: return vn_text('B', as_bytes_get_type((as_bytes*)v), as_bytes_get((as_bytes*)v), as_bytes_size((as_bytes*)v));
	case AS_CMP_WILDCARD: return vn_new('W');
	case AS_CMP_INF: return vn_new('Y');
	case AS_LIST:
		r = vn_new('L');
		r->n = as_list_size((as_list*)v);
		r->e = calloc(r->n + 1, sizeof(vn*));
		for (uint32_t j = 0; j < r->n; j++) r->e[j] = from_val(as_list_get((as_list*)v, j));
		return r;
	case AS_MAP: {
		as_orderedmap* m = (as_orderedmap*)v;
		r = vn_new('M');
		r->k = (int)m->_.flags;
		r->n = as_orderedmap_size(m);
		r->e = calloc(2 * r->n + 1, sizeof(vn*));
		as_orderedmap_iterator it;
		as_orderedmap_iterator_init(&it, m);
		uint32_t j = 0;
		while (as_orderedmap_iterator_has_next(&it)) {
			as_pair* p = (as_pair*)as_orderedmap_iterator_next(&it);
			r->e[j++] = from_val(as_pair_1(p));
			r->e[j++] = from_val(as_pair_2(p));
		}
		as_orderedmap_iterator_destroy(&it);
		return r;
	}
	default: WRONG("a value of no known type\n");
	}
}

static vn*
sort_vn(vn* v)
{
	as_val* a = vn_build(v);
	vn* r = from_val(a);
	as_val_destroy(a);
	vn_free(v);
	return r;
}

/* ------------------------------------------------------- round trip (rt) */
static void
roundtrip(const vn* v, int rle)
{
	as_val* a = vn_build(v);
	uint32_t n;
	uint8_t* b = pack_val(a, &n);
	as_unpacker pk = {.buffer = b, .offset = 0, .length = n};
	as_val* d = NULL;
	int rc = as_unpack_val(&pk, &d);
	/* and through the serializer */
	as_buffer sb = {.capacity = n, .size = n, .data = b};
	as_val* d2 = NULL;
	int rc2 = as_serializer_deserialize(&ser, &sb, &d2);
	uint32_t rn = 0, rn2 = 0;
	uint8_t* rb = d ? pack_val(d, &rn) : NULL;
	uint8_t* rb2 = d2 ? pack_val(d2, &rn2) : NULL;
	int re = rb && rn == n && ! memcmp(rb, b, n) && rb2 && rn2 == n && ! memcmp(rb2, b, n);
	evp("{\"o\":\"rt\",\"v\":");
	ev_vn(v);
	evp(",");
	if (rle) ev_rle("z", b, n); else evbytes("b", b, n);
	evp(",\"rc\":%d,\"n\":%u,\"re\":%d,\"d\":", rc | rc2, pk.offset, re);
	ev_val(d);
	ev("}");
	as_val_destroy(d);
	as_val_destroy(d2);
	as_val_destroy(a);
	free(b);
	free(rb);
	free(rb2);
}

static vn*
rep_text(char t, uint32_t n)
{
	vn* v = vn_new(t);
	v->k = 4;
	v->n = n;
	v->b = malloc(n + 1);
	memset(v->b, 'a' + n % 7, n);
	v->b[n] = 0;
	return v;
}

static vn*
long_list(uint32_t n)
{
	vn* v = vn_new('L');
	v->n = n;
	v->e = calloc(n + 1, sizeof(vn*));
	for (uint32_t j = 0; j < n; j++) v->e[j] = j % 9 == 8 ? vn_int(-5) : vn_new('N');
	return v;
}

static vn*
long_map(uint32_t n, int f)
{
	vn* v = vn_new('M');
	v->n = n;
	v->k = f;
	v->e = calloc(2 * n + 1, sizeof(vn*));
	for (uint32_t j = 0; j < n; j++) {
		v->e[2 * j] = vn_int(j);
		v->e[2 * j + 1] = vn_new(j % 5 ? 'N' : 'T');
	}
	return v;
}

static vn*
big_vn(int k)
{
	static const uint32_t edge[] = {65533, 65534, 65535, 65536, 65537};
	uint32_t n = edge[k % 5];
	switch (k / 5) {
	case 0: return rep_text('S', n);
	case 1: return rep_text('B', n);
	case 2: return rep_text('G', n);
	case 3: return long_list(n);
	case 4: return long_map(n, 0);
	default: return long_map(n, 1);
	}
}

/* --------------------------------------------------------------- deep */
/* level k (from the outside) wraps by (k + s) % 4, see the specification */
static as_val*
nest_build(uint32_t n, uint32_t s)
{
	as_val* u = (as_val*)as_string_new_strdup("ab");
	for (uint32_t k = n; k >= 1; k--) {
		as_val* i = (as_val*)as_integer_new(k % 200);
		switch ((k + s) % 4) {
		case 0: case 1: {
			as_arraylist* l = as_arraylist_new(3, 1);
			if ((k + s) % 4 == 0) {
				as_val_destroy(i);
				as_arraylist_append(l, u);
			}
			else {
				as_arraylist_append(l, i);
				as_arraylist_append(l, u);
				as_arraylist_append(l, (as_val*)&as_nil);
			}
			u = (as_val*)l;
			break;
		}
		default: {
			as_orderedmap* m = as_orderedmap_new(1);
			as_orderedmap_set(m, i, u);
			as_orderedmap_set_flags(m, (k + s) % 4 == 3 ? 1 : 0);
			u = (as_val*)m;
			break;
		}
		}
	}
	return u;
}

static void
deep(uint32_t n, uint32_t s)
{
	as_val* a = nest_build(n, s);
	uint32_t m;
	uint8_t* b = pack_val(a, &m);
	as_unpacker pk = {.buffer = b, .offset = 0, .length = m};
	as_val* d = NULL;
	as_unpack_val(&pk, &d);
	uint32_t rn = 0;
	uint8_t* rb = d ? pack_val(d, &rn) : NULL;
	evp("{\"o\":\"deep\",\"n\":%u,\"s\":%u,\"m\":%u,\"re\":%d,", n, s, pk.offset, rb && rn == m && ! memcmp(rb, b, m));
	evbytes("b", b, m);
	evp(",\"tk\":[");
	const as_val* u = d;
	bool first = true;
	while (u && (as_val_type(u) == AS_LIST || as_val_type(u) == AS_MAP)) {
		evp(first ? "" : ",");
		first = false;
		if (as_val_type(u) == AS_LIST) {
			uint32_t c = as_list_size((as_list*)u);
			evp("[%d,%u,%d]", c == 1 ? 0 : 1, c, c == 1 ? 0 : (int)as_integer_get((as_integer*)as_list_get((as_list*)u, 0)));
			u = as_list_get((as_list*)u, c == 1 ? 0 : 1);
		}
		else {
			as_orderedmap_iterator it;
			as_orderedmap_iterator_init(&it, (as_orderedmap*)u);
			as_pair* p = (as_pair*)as_orderedmap_iterator_next(&it);
			evp("[%d,%u,%d]", ((as_map*)u)->flags == 1 ? 3 : 2, as_map_size((as_map*)u), (int)as_integer_get((as_integer*)as_pair_1(p)));
			u = as_pair_2(p);
			as_orderedmap_iterator_destroy(&it);
		}
	}
	evp("],");
	if (u && as_val_type(u) == AS_STRING) evbytes("leaf", (uint8_t*)as_string_get((as_string*)u), as_string_len((as_string*)u));
	else evp("\"leaf\":[]");
	ev("}");
	as_val_destroy(d);
	as_val_destroy(a);
	free(b);
	free(rb);
}

/* ------------------------------------------------------ bytes and sizes */
static void
encode(const vn* v, int rle)
{
	as_val* a = vn_build(v);
	uint32_t n;
	uint8_t* b = pack_val(a, &n);
	evp("{\"o\":\"enc\",\"v\":");
	ev_vn(v);
	evp(",");
	if (rle) ev_rle("z", b, n); else evbytes("b", b, n);
	ev(",\"ms\":%u,\"gs\":%u}", measure_val(a), as_serializer_serialize_getsize(&ser, a));
	as_val_destroy(a);
	free(b);
}

typedef struct {
	const char* k;
	uint64_t w;
	uint32_t c;
	int v;
	const uint8_t* d;
	uint32_t dn;
} dir_t;

static int
dir_pack(as_packer* pk, const dir_t* x)
{
	switch (x->k[0]) {
	case 'n': return as_pack_nil(pk);
	case 'w': return as_pack_cmp_wildcard(pk);
	case 'u': return as_pack_uint64(pk, x->w);
	case 'f': { uint32_t u = (uint32_t)x->w; float f; memcpy(&f, &u, 4); return as_pack_float(pk, f); }
	case 'd': { double d; memcpy(&d, &x->w, 8); return as_pack_double(pk, d); }
	case 'i': return ! strcmp(x->k, "inf") ? as_pack_cmp_inf(pk) : as_pack_int64(pk, (int64_t)x->w);
	case 's': return ! strcmp(x->k, "strh") ? as_pack_str(pk, NULL, x->c) : as_pack_str(pk, x->d, x->dn);
	case 'l': return as_pack_list_header(pk, x->c);
	case 'm': return as_pack_map_header(pk, x->c);
	case 'e': return as_pack_ext_header(pk, x->c, (uint8_t)x->v);
	case 'a': return as_pack_append(pk, x->d, x->dn);
	default:
		if (! strcmp(x->k, "bool")) return as_pack_bool(pk, x->v);
		if (! strcmp(x->k, "bytes")) return as_pack_bytes(pk, x->d, x->dn);
		if (! strcmp(x->k, "binh")) return as_pack_bin(pk, NULL, x->c);
		return as_pack_bin(pk, x->d, x->dn);
	}
}

/* predicted size; -1 when there is no function for it */
static int64_t
dir_size(const dir_t* x)
{
	switch (x->k[0]) {
	case 'n': return as_pack_nil_size();
	case 'w': return as_pack_cmp_wildcard_size();
	case 'u': return as_pack_uint64_size(x->w);
	case 'f': return as_pack_float_size();
	case 'd': return as_pack_double_size();
	case 'i': return ! strcmp(x->k, "inf") ? as_pack_cmp_inf_size() : as_pack_int64_size((int64_t)x->w);
	case 's': return as_pack_str_size(! strcmp(x->k, "strh") ? x->c : x->dn);
	case 'l': return as_pack_list_header_get_size(x->c);
	case 'm': return as_pack_map_header_get_size(x->c);
	case 'e': return as_pack_ext_header_get_size(x->c);
	case 'a': return -1;
	default:
		if (! strcmp(x->k, "bool")) return as_pack_bool_size();
		if (! strcmp(x->k, "bytes")) return as_pack_str_size(x->dn + 1);
		return as_pack_bin_size(! strcmp(x->k, "binh") ? x->c : x->dn);
	}
}

static void
ev_dir(const dir_t* x)
{
	evp("\"k\":\"%s\",\"v\":%d,\"c\":[%u,%u],", x->k, x->v, x->c >> 16, x->c & 65535);
	ev_limbs("w", x->w);
	evp(",");
	evbytes("d", x->d, x->dn);
}

static void
direct(const dir_t* x)
{
	as_packer ms = {.buffer = NULL, .capacity = 0, .offset = 0, .head = NULL, .tail = NULL};
	int mrc = dir_pack(&ms, x);
	uint32_t room = x->dn + 16;
	uint8_t* b = malloc(room);
	as_packer pk = {.buffer = b, .capacity = room, .offset = 0, .head = NULL, .tail = NULL};
	int rc = dir_pack(&pk, x);
	int64_t sz = dir_size(x);
	evp("{\"o\":\"dir\",");
	ev_dir(x);
	evp(",\"ms\":[%u,%u],", ms.offset >> 16, ms.offset & 65535);
	if (sz < 0 || x->c > 0xfffffff0u) evp("\"sz\":[],");
	else evp("\"sz\":[%u,%u],", (unsigned)(sz >> 16), (unsigned)(sz & 65535));
	evbytes("b", b, rc == 0 && mrc == 0 ? pk.offset : 0);
	ev("}");
	if (x->k[0] == 'e') {
		/* the same through its own entry */
		uint8_t* q = malloc(6);
		uint32_t need = pk.offset;
		uint8_t* t = malloc(need);
		int r1 = as_pack_buf_ext_header(t, need, x->c, (uint8_t)x->v);
		int r2 = need > 0 ? as_pack_buf_ext_header(q, need - 1, x->c, (uint8_t)x->v) : -1;
		if (r1 != 0 || memcmp(t, b, need) || r2 == 0) ev("{\"o\":\"junk\",\"r\":%d}", 50 + r1);
		free(q);
		free(t);
	}
	free(b);
}

static const uint32_t EDGE[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257,
	32767, 32768, 65534, 65535, 65536, 65537, 1u << 20, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff};
#define NEDGE (sizeof(EDGE) / sizeof(*EDGE))
static const char* SIZED[] = {"strh", "binh", "listh", "maph", "ext"};

static dir_t
rnd_dir(uint8_t* data, uint32_t maxd)
{
	static const char* ks[] = {"nil", "bool", "inf", "wild", "uint", "int", "int", "flt", "dbl", "bytes", "bytes", "str", "str", "strh",
		"bin", "bin", "binh", "listh", "maph", "ext", "app"};
	dir_t x = {.k = ks[vh_below(sizeof(ks) / sizeof(*ks))]};
	x.w = (uint64_t)rnd_int64();
	x.c = vh_chance(60) ? EDGE[vh_below(NEDGE)] : (uint32_t)(vh_next() >> (32 + vh_below(32)));
	x.v = ! strcmp(x.k, "bool") ? (int)vh_below(2) : (int)vh_below(256);
	x.d = data;
	if (! strcmp(x.k, "bytes") || ! strcmp(x.k, "str") || ! strcmp(x.k, "bin") || ! strcmp(x.k, "app")) {
		x.dn = vh_below(maxd);
		for (uint32_t j = 0; j < x.dn; j++) data[j] = (uint8_t)vh_below(256);
	}
	return x;
}

static void
dir_all(void)
{
	static uint8_t data[70000];
	for (int k = 0; k < 64; k++) {
		for (int d = -2; d <= 2; d++) {
			for (int neg = 0; neg < 2; neg++) {
				uint64_t w = (1ULL << k) + (uint64_t)(int64_t)d;
				if (neg) w = 0 - w;
				dir_t x = {.k = "int", .w = w};
				direct(&x);
				x.k = "uint";
				direct(&x);
			}
		}
	}
	for (uint32_t j = 0; j < NEDGE; j++) {
		for (int s = 0; s < 5; s++) {
			dir_t x = {.k = SIZED[s], .c = EDGE[j], .v = (int)(j * 7 % 256)};
			direct(&x);
		}
		if (EDGE[j] < 300) {
			static const char* dk[] = {"bytes", "str", "bin", "app"};
			for (int s = 0; s < 4; s++) {
				dir_t x = {.k = dk[s], .d = data, .dn = EDGE[j]};
				memset(data, 'A' + s, EDGE[j]);
				direct(&x);
			}
		}
	}
	for (int s = 0; s < 300; s++) {
		dir_t x = {.k = SIZED[s % 5], .c = (uint32_t)s, .v = s % 256};
		direct(&x);
	}
	for (int k = 0; k < 2000; k++) {
		dir_t x = rnd_dir(data, 40);
		direct(&x);
	}
}

/* packing into a fixed buffer: every capacity around the needed one */
static void
fix_one(const dir_t* x)
{
	as_packer ms = {.buffer = NULL};
	dir_pack(&ms, x);
	uint32_t need = ! strcmp(x->k, "strh") || ! strcmp(x->k, "binh") ? 5 : ms.offset;
	uint32_t off = vh_below(4);
	uint32_t lo = off + need > 7 ? off + need - 7 : 0;
	for (uint32_t cap = lo > off ? lo : off; cap <= off + need + 2; cap++) {
		if (cap == 0) continue;
		uint8_t* b = malloc(cap);
		memset(b, 170, cap);
		for (uint32_t j = 0; j < off; j++) b[j] = (uint8_t)(j + 1);
		as_packer pk = {.buffer = b, .capacity = cap, .offset = off, .head = NULL, .tail = NULL};
		int rc = dir_pack(&pk, x);
		evp("{\"o\":\"fix\",");
		ev_dir(x);
		evp(",\"cap\":%u,\"off\":%u,\"rc\":%d,\"n\":%u,\"pre\":[", cap, off, pk.buffer == b ? rc : 77, pk.offset);
		for (uint32_t j = 0; j < off; j++) evp(j ? ",%u" : "%u", j + 1);
		evp("],");
		evbytes("b", b, cap);
		ev("}");
		if (pk.buffer != b) {
			free(pk.buffer);
			free(pk.head);
		}
		free(b);
	}
}

static void
fix_all(void)
{
	static uint8_t data[300];
	for (int k = 0; k < 700; k++) {
		dir_t x = rnd_dir(data, k % 10 ? 45 : 270);
		fix_one(&x);
	}
}

/* sizes close to 4 GB, with sources that need no memory */
static void
huge(void)
{
	uint8_t* src = mmap(NULL, 1ULL << 32, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (src == MAP_FAILED) MISUSE("mmap failed\n");
	static const uint32_t sz[] = {0xffffffff, 0xfffffffe, 0xfffffff0, 0x80000000, 0xfffffffb};
	for (int k = 0; k < 5; k++) {
		for (uint32_t off = 0; off < 7; off += 2) {
			uint8_t* b = malloc(16);
			memset(b, 170, 16);
			as_packer pk = {.buffer = b, .capacity = 16, .offset = off, .head = NULL, .tail = NULL};
			int r1 = as_pack_append(&pk, src, sz[k]);
			pk.offset = off;
			int r2 = as_pack_str(&pk, src, sz[k]);
			pk.offset = off;
			int r3 = as_pack_bin(&pk, src, sz[k]);
			pk.offset = off;
			int r4 = sz[k] == 0xffffffff ? -1 : as_pack_bytes(&pk, src, sz[k]);
			ev("{\"o\":\"junk\",\"r\":%d}", r1 && r2 && r3 && r4 && pk.buffer == b ? 0 : 60);
			free(b);
		}
	}
	munmap(src, 1ULL << 32);
}

/* ------------------------------------------------------- serialization paths */
static void
ev_rep(const vn* v)
{
	/* long texts of one character in short form */
	if (v->t == 'S' && v->n > 200 && ! memcmp(v->b, v->b + 1, v->n - 1)) {
		evp("{\"t\":\"rep\",\"c\":%u,\"n\":%u}", v->b[0], v->n);
	}
	else if (v->t == 'L') {
		evp("{\"t\":\"list\",\"f\":0,\"e\":[");
		for (uint32_t j = 0; j < v->n; j++) { if (j) evp(","); ev_rep(v->e[j]); }
		evp("]}");
	}
	else ev_vn(v);
}

static void
path(const vn* v)
{
	as_val* a = vn_build(v);
	uint32_t n;
	uint8_t* b = pack_val(a, &n);
	uint32_t gs = as_serializer_serialize_getsize(&ser, a);
	uint8_t* q = malloc(gs ? gs : 1);
	int32_t ps = as_serializer_serialize_presized(&ser, a, q);
	int pe = ps == (int32_t)n && ! memcmp(q, b, n);
	/* by packing into a chain of small buffers */
	uint32_t cap = 1 + vh_below(40);
	as_packer pk = {.buffer = malloc(cap), .capacity = cap, .offset = 0, .head = NULL, .tail = NULL};
	int rc = as_pack_val(&pk, a);
	buf c = {0};
	as_packer_buffer* e = pk.head;
	while (e) {
		as_packer_buffer* nx = e->next;
		put(&c, e->buffer, e->length);
		free(e->buffer);
		free(e);
		e = nx;
	}
	put(&c, pk.buffer, pk.offset);
	free(pk.buffer);
	int ce = rc == 0 && c.n == n && ! memcmp(c.p, b, n);
	evp("{\"o\":\"path\",\"v\":");
	ev_rep(v);
	evp(",");
	ev_rle("z", b, n);
	ev(",\"ps\":%d,\"pe\":%d,\"ce\":%d}", ps, pe, ce);
	as_val_destroy(a);
	free(b);
	free(q);
	free(c.p);
}

static void
path_edges(uint32_t k)
{
	/* elements of every kind end and start around the internal boundary */
	vn* v = vn_new('L');
	v->e = calloc(16, sizeof(vn*));
	uint32_t fill = 8192 - 60 + k % 70;
	v->e[v->n++] = rep_text('S', fill > 3 ? fill - 4 : 0);
	uint32_t m = 3 + vh_below(6);
	for (uint32_t j = 0; j < m; j++) {
		switch (vh_below(6)) {
		case 0: v->e[v->n++] = rep_text('S', vh_below(40)); break;
		case 1: v->e[v->n++] = vn_int((int64_t)vh_next()); break;
		case 2: v->e[v->n++] = vn_int((int64_t)vh_below(70000)); break;
		case 3: v->e[v->n++] = rep_text('S', vh_chance(50) ? 8180 + vh_below(20) : 290 + vh_below(10)); break;
		case 4: v->e[v->n++] = long_list(14 + vh_below(4)); break;
		case 5: v->e[v->n++] = long_map(vh_below(17), vh_chance(50) ? 1 : 0); break;
		}
	}
	path(v);
	vn_free(v);
}

/* ------------------------------------------------------------------ readers */
static void
readers(const uint8_t* src, uint32_t n, uint32_t at)
{
	uint8_t* b = exact(src, n);
#define PK as_unpacker pk = {.buffer = b, .offset = at, .length = n}
	evp("{\"o\":\"read\",\"at\":%u,", at);
	evbytes("b", b, n);
	{ PK; int64_t i = 0; if (as_unpack_int64(&pk, &i) == 0) { evp(",\"int\":[1,[%u,%u,%u,%u],%u]", (unsigned)((uint64_t)i >> 48), (unsigned)(i >> 32) & 65535, (unsigned)(i >> 16) & 65535, (unsigned)i & 65535, pk.offset); } else evp(",\"int\":[0]"); }
	{ PK; uint64_t i = 0; if (as_unpack_uint64(&pk, &i) == 0) { evp(",\"uns\":[1,[%u,%u,%u,%u],%u]", (unsigned)(i >> 48), (unsigned)(i >> 32) & 65535, (unsigned)(i >> 16) & 65535, (unsigned)i & 65535, pk.offset); } else evp(",\"uns\":[0]"); }
	{ PK; double d = 0; uint64_t i; int rc = as_unpack_double(&pk, &d); memcpy(&i, &d, 8); if (rc == 0) { evp(",\"dbl\":[1,[%u,%u,%u,%u],%u]", (unsigned)(i >> 48), (unsigned)(i >> 32) & 65535, (unsigned)(i >> 16) & 65535, (unsigned)i & 65535, pk.offset); } else evp(",\"dbl\":[0]"); }
	{ PK; uint32_t sz = 0; const uint8_t* p = as_unpack_str(&pk, &sz); if (p) evp(",\"str\":[1,%d,%u,%u]", (int)(p - b), sz, pk.offset); else evp(",\"str\":[0]"); }
	{ PK; uint32_t sz = 0; const uint8_t* p = as_unpack_bin(&pk, &sz); if (p) evp(",\"bin\":[1,%d,%u,%u]", (int)(p - b), sz, pk.offset); else evp(",\"bin\":[0]"); }
	{ PK; int64_t r = as_unpack_blob_size(&pk); if (r >= 0) evp(",\"bsz\":[1,[%u,%u],%u]", (unsigned)(r >> 16), (unsigned)r & 65535, pk.offset); else evp(",\"bsz\":[0]"); }
	{ PK; as_msgpack_ext x; if (as_unpack_ext(&pk, &x) == 0) evp(",\"ext\":[1,%u,%d,%u,%u]", b[x.type_offset] == x.type ? x.type : 999, (int)(x.data - b), x.size, pk.offset); else evp(",\"ext\":[0]"); }
	{ PK; bool v = false; if (as_unpack_boolean(&pk, &v) == 0) evp(",\"bool\":[1,%d,%u]", v, pk.offset); else evp(",\"bool\":[0]"); }
	{ PK; if (as_unpack_nil(&pk) == 0) evp(",\"nil\":[1,%u]", pk.offset); else evp(",\"nil\":[0]"); }
	{ PK; int64_t r = as_unpack_list_header_element_count(&pk); if (r >= 0) evp(",\"list\":[1,[%u,%u],%u]", (unsigned)(r >> 16), (unsigned)r & 65535, pk.offset); else evp(",\"list\":[0]"); }
	{ PK; int64_t r = as_unpack_map_header_element_count(&pk); if (r >= 0) evp(",\"map\":[1,[%u,%u],%u]", (unsigned)(r >> 16), (unsigned)r & 65535, pk.offset); else evp(",\"map\":[0]"); }
	{ PK; int64_t r = as_unpack_size(&pk); if (r >= 0) evp(",\"size\":[1,%d,%u]", (int)r, pk.offset); else evp(",\"size\":[0]"); }
	{ PK; evp(",\"isx\":%d,\"peek\":%d", as_unpack_peek_is_ext(&pk), (int)as_unpack_peek_type(&pk)); }
	if (at == 0) {
		int64_t r = as_unpack_buf_list_element_count(b, n);
		if (r >= 0) evp(",\"blist\":[1,[%u,%u]]", (unsigned)(r >> 16), (unsigned)r & 65535); else evp(",\"blist\":[0]");
		r = as_unpack_buf_map_element_count(b, n);
		if (r >= 0) evp(",\"bmap\":[1,[%u,%u]]", (unsigned)(r >> 16), (unsigned)r & 65535); else evp(",\"bmap\":[0]");
		evp(",\"bpeek\":%d", (int)as_unpack_buf_peek_type(b, n));
	}
	{ PK; as_val* v = NULL; if (as_unpack_val(&pk, &v) == 0) { evp(",\"val\":[1,"); ev_val(v); evp(",%u]", pk.offset); as_val_destroy(v); } else evp(",\"val\":[0]"); }
	ev("}");
	free(b);
}

static void
junk_cmp(const buf* x, const buf* y)
{
	uint8_t* a = exact(x->p, x->n);
	uint8_t* c = exact(y->p, y->n);
	ev("{\"o\":\"junk\",\"r\":%d}", (int)as_unpack_buf_compare(a, (uint32_t)x->n, c, (uint32_t)y->n));
	free(a);
	free(c);
}

static void
mutate(buf* b)
{
	if (b->n == 0) return;
	switch (vh_below(5)) {
	case 0: b->n = vh_below((uint32_t)b->n + 1); break;
	case 1: b->p[vh_below((uint32_t)b->n)] = (uint8_t)vh_below(256); break;
	case 2: b->n -= vh_below(b->n < 4 ? (uint32_t)b->n : 4); break;
	case 3: b->p[vh_below((uint32_t)b->n)] ^= (uint8_t)(1u << vh_below(8)); break;
	default: break;
	}
}

static void
random_read(void)
{
	static const uint8_t heads[] = {0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5,
		0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xa0, 0xa1, 0x80, 0x81, 0x90, 0x91};
	buf b = {0};
	uint32_t at = 0;
	if (vh_chance(30)) {
		at = 1 + vh_below(4);
		for (uint32_t j = 0; j < at; j++) put1(&b, 7);
	}
	uint32_t how = vh_below(10);
	if (how < 6) {
		vn* v = rnd_vn(VN_FLAGS | (vh_chance(30) ? VN_SMALL : 0), (int)vh_below(4), 0);
		any_enc(&b, v);
		vn_free(v);
		if (how < 4) mutate(&b);
		if (how == 5) put1(&b, (int)vh_below(256));
	}
	else if (how < 8) {
		put1(&b, heads[vh_below(sizeof(heads))]);
		uint32_t n = vh_below(12);
		int fill = (int)(vh_chance(40) ? 255 : vh_chance(50) ? 0 : vh_below(256));
		for (uint32_t j = 0; j < n; j++) put1(&b, vh_chance(70) ? fill : (int)vh_below(256));
	}
	else {
		uint32_t n = vh_below(30);
		for (uint32_t j = 0; j < n; j++) put1(&b, vh_chance(50) ? heads[vh_below(sizeof(heads))] : (int)vh_below(256));
	}
	if (at > b.n) at = (uint32_t)b.n;
	readers(b.p, (uint32_t)b.n, at);
	if (vh_chance(50)) {
		buf c = {0};
		put(&c, b.p, b.n);
		mutate(&c);
		mutate(&b);
		junk_cmp(&b, &c);
		free(c.p);
	}
	free(b.p);
}

/* every first byte, with short and long rests of several fillings */
static void
sweep(void)
{
	static const uint8_t fill[] = {0, 1, 2, 3, 0x17, 0x80, 0x91, 0xc0, 0xff};
	for (int first = 0; first < 256; first++) {
		for (uint32_t f = 0; f < sizeof(fill); f++) {
			for (uint32_t n = 0; n <= 10; n++) {
				if (n > 5 && n < 8) continue;
				if (f && ! n) continue;
				uint8_t b[16];
				b[0] = (uint8_t)first;
				memset(b + 1, fill[f], sizeof(b) - 1);
				/* size fields that fit exactly or miss by one */
				if (f == 1 && n >= 2) b[1] = (uint8_t)(n - 2);
				if (f == 2 && n >= 3) { b[1] = 0; b[2] = (uint8_t)(n - 3 + (first & 1)); }
				if (f == 3 && n >= 5) { b[1] = b[2] = b[3] = 0; b[4] = (uint8_t)(n - 5 + (first & 1)); }
				readers(b, n + 1, 0);
			}
		}
	}
	uint8_t none[1] = {0xc3};
	readers(none, 0, 0);
	readers(none, 1, 1);
}

/* ---------------------------------------------------------------- measuring */
static void
size_of(const uint8_t* src, size_t n, uint32_t at, int rle, int decode)
{
	uint8_t* b = exact(src, n);
	as_unpacker pk = {.buffer = b, .offset = at, .length = (uint32_t)n};
	int peek = (int)as_unpack_peek_type(&pk);
	int64_t r = as_unpack_size(&pk);
	int dec = 99;
	if (decode) {
		as_unpacker p2 = {.buffer = b, .offset = at, .length = (uint32_t)n};
		as_val* v = NULL;
		if (as_unpack_val(&p2, &v) == 0 && v) dec = (int)as_val_type(v);
		else dec = 99;
		as_val_destroy(v);
	}
	evp("{\"o\":\"size\",\"at\":%u,", at);
	if (rle) ev_rle("z", b, n); else evbytes("b", b, n);
	if (r >= 0) evp(",\"r\":[1,%d,%u]", (int)r, pk.offset); else evp(",\"r\":[0]");
	ev(",\"peek\":%d,\"dec\":%d}", peek, dec);
	free(b);
}

static void
random_size(uint32_t k)
{
	buf b = {0};
	uint32_t at = 0;
	if (k % 3 == 0) { at = 2; put(&b, "\xc0\xc0", 2); }
	if (k % 4 == 0) {
		/* deep nesting, mixed */
		uint32_t n = (uint32_t[]){1, 100, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 769, 1100}[vh_below(14)];
		uint32_t s = vh_below(4);
		uint32_t mode = vh_below(3);
		for (uint32_t j = 0; j < n; j++) {
			uint32_t w = mode == 0 ? 0 : mode == 1 ? 2 : (j + s) % 3;
			if (w == 0) put1(&b, 0x91);
			else if (w == 1) { put1(&b, 0x93); put1(&b, 5); }
			else { put1(&b, 0x81); put1(&b, 9); }
		}
		put(&b, "\xa2\x03q", 3);
		for (uint32_t j = n; j-- > 0;) {
			uint32_t w = mode == 0 ? 0 : mode == 1 ? 2 : (j + s) % 3;
			if (w == 1) put1(&b, 0xc0);
		}
		put1(&b, 0xc3);
		if (vh_chance(30)) b.n -= 1 + vh_below(4);
		else if (vh_chance(20)) b.p[b.n - 4] = 0xc1;
		size_of(b.p, b.n, at, 0, 0);
	}
	else {
		vn* v = rnd_vn(VN_FLAGS, (int)vh_below(5), 0);
		any_enc(&b, v);
		vn_free(v);
		if (vh_chance(50)) put(&b, "\x93\x01\x02\x03", 4);
		size_of(b.p, b.n, at, 0, 1);
	}
	free(b.p);
}

/* --------------------------------------------------------------- comparison */
static vn*
clone(const vn* v)
{
	vn* r = malloc(sizeof(vn));
	*r = *v;
	if (v->b) { r->b = malloc(v->n + 1); memcpy(r->b, v->b, v->n + 1); }
	uint32_t m = v->t == 'L' ? v->n : v->t == 'M' ? 2 * v->n : v->t == 'P' ? 2 : 0;
	r->e = calloc(m + 1, sizeof(vn*));
	for (uint32_t j = 0; j < m; j++) r->e[j] = clone(v->e[j]);
	return r;
}

/* changes one thing somewhere */
static void
change(vn* v, int mode)
{
	if ((v->t == 'L' || v->t == 'M') && v->n && vh_chance(75)) {
		uint32_t j = vh_below(v->n);
		if (v->t == 'L') change(v->e[j], mode);
		else change(v->e[2 * j + 1], mode);
		return;
	}
	switch (v->t) {
	case 'I': v->i += (int64_t)vh_below(3) - 1; break;
	case 'S': case 'G': case 'B':
		if (v->n && vh_chance(50)) v->n--;
		else if (v->n) v->b[vh_below(v->n)] = 'b';
		v->b[v->n] = 0;
		break;
	case 'L':
		if (v->n && vh_chance(50)) vn_free(v->e[--v->n]);
		else { v->e = realloc(v->e, (v->n + 2) * sizeof(vn*)); v->e[v->n++] = rnd_leaf(mode, 0); }
		break;
	case 'M':
		if (v->n) { v->n--; vn_free(v->e[2 * v->n]); vn_free(v->e[2 * v->n + 1]); }
		break;
	case 'T': v->t = 'F'; break;
	case 'F': v->t = 'T'; break;
	case 'N': if (mode & VN_WILD) v->t = 'W'; else v->t = 'T'; break;
	default: break;
	}
}

static void
cmp_bytes(const buf* x, uint32_t p1, const buf* y, uint32_t p2)
{
	uint8_t* a = exact(x->p, x->n);
	uint8_t* c = exact(y->p, y->n);
	as_unpacker k1 = {.buffer = a, .offset = p1, .length = (uint32_t)x->n};
	as_unpacker k2 = {.buffer = c, .offset = p2, .length = (uint32_t)y->n};
	int r = (int)as_unpack_compare(&k1, &k2);
	int r2 = (int)as_unpack_buf_compare(a + p1, (uint32_t)x->n - p1, c + p2, (uint32_t)y->n - p2);
	bool less = as_unpack_buf_is_less(a + p1, (uint32_t)x->n - p1, c + p2, (uint32_t)y->n - p2);
	evp("{\"o\":\"cmp\",\"p1\":%u,\"p2\":%u,\"r\":%d,\"n1\":%u,\"n2\":%u,", p1, p2, r2 == r && less == (r == 0) ? r : 70, k1.offset, k2.offset);
	evbytes("b", a, x->n);
	evp(",");
	evbytes("c", c, y->n);
	ev("}");
	free(a);
	free(c);
}

static void
cmp_vn(const vn* a, const vn* c)
{
	buf x = {0}, y = {0};
	uint32_t p1 = vh_below(3), p2 = vh_below(3);
	for (uint32_t j = 0; j < p1; j++) put1(&x, 0xc0);
	for (uint32_t j = 0; j < p2; j++) put1(&y, 0xc0);
	any_enc(&x, a);
	any_enc(&y, c);
	if (vh_chance(60)) put(&x, "\x01\x02", vh_below(3));
	if (vh_chance(60)) put(&y, "\x91\x02", 2);
	cmp_bytes(&x, p1, &y, p2);
	free(x.p);
	free(y.p);
}

static int
rnd_mode(void)
{
	return (vh_chance(50) ? VN_SMALL : 0) | (vh_chance(30) ? VN_WILD : 0) | (vh_chance(30) ? VN_KORD : 0);
}

static void
random_cmp(int memory)
{
	int mode = rnd_mode();
	vn* a = sort_vn(rnd_vn(mode, (int)vh_below(5), 0));
	vn* c;
	if (vh_chance(60)) {
		c = clone(a);
		change(c, mode);
		c = sort_vn(c);
	}
	else c = sort_vn(rnd_vn(mode, (int)vh_below(4), 0));
	if (! memory) {
		cmp_vn(a, c);
		if (vh_chance(30)) cmp_vn(c, a);
	}
	else {
		as_val* va = vn_build(a);
		as_val* vc = vn_build(c);
		uint32_t n1, n2;
		uint8_t* b1 = pack_val(va, &n1);
		uint8_t* b2 = pack_val(vc, &n2);
		evp("{\"o\":\"mcmp\",\"v\":");
		ev_vn(a);
		evp(",\"u\":");
		ev_vn(c);
		ev(",\"m\":%d,\"r\":%d}", (int)as_val_cmp(va, vc), (int)as_unpack_buf_compare(b1, n1, b2, n2));
		free(b1);
		free(b2);
		as_val_destroy(va);
		as_val_destroy(vc);
	}
	vn_free(a);
	vn_free(c);
}

/* two values alike down to some level around the recursion limit, then different */
static vn*
deep_vn(uint32_t n, uint32_t s, vn* inner, uint32_t at, uint32_t how, int kord)
{
	vn* u = inner;
	for (uint32_t k = n; k >= 1; k--) {
		uint32_t w = s < 2 ? s * 2 : (k * 7 + s) % 4;
		vn* v = vn_new(w < 2 ? 'L' : 'M');
		v->e = calloc(8, sizeof(vn*));
		if (w == 0) { v->n = 1; v->e[0] = u; }
		if (w == 1) { v->n = 3; v->e[0] = vn_int(k % 50); v->e[1] = u; v->e[2] = vn_new('N'); }
		if (w == 2) { v->n = 1; v->e[0] = vn_int(k % 50); v->e[1] = u; v->k = kord; }
		if (w == 3) { v->n = 2; v->e[0] = vn_int(k % 50); v->e[1] = u; v->e[2] = vn_int(100); v->e[3] = vn_new('T'); v->k = kord; }
		if (k == at) {
			switch (how) {
			case 1:	/* one more */
				if (w < 2) v->e[v->n++] = vn_int(3);
				else { v->e[2 * v->n] = vn_int(200); v->e[2 * v->n + 1] = vn_int(3); v->n++; }
				break;
			case 2:	/* wildcard behind */
				if (w < 2) v->e[v->n++] = vn_new('W');
				else { v->e[2 * v->n] = vn_int(200); v->e[2 * v->n + 1] = vn_new('W'); v->n++; }
				break;
			case 3:	/* wildcard before */
				if (w < 2) { v->e[v->n] = v->e[v->n - 1]; v->e[v->n - 1] = vn_new('W'); v->n++; }
				break;
			case 4:	/* last element differs */
				if (w == 1) v->e[2]->t = 'F';
				if (w == 3) v->e[3]->t = 'F';
				break;
			case 5:	/* key differs */
				if (w >= 2) v->e[0]->i = 60;
				break;
			}
		}
		u = v;
	}
	return u;
}

static void
deep_cmp(uint32_t n)
{
	uint32_t s = vh_below(6);
	int kord = vh_chance(40) ? 1 : 0;
	vn* i1 = rnd_vn(VN_SMALL | (kord ? VN_KORD : 0), 2, 0);
	vn* i2 = vh_chance(50) ? clone(i1) : rnd_vn(VN_SMALL | (kord ? VN_KORD : 0), 2, 0);
	uint32_t at = vh_chance(70) ? (n > 8 ? n - vh_below(8) : 1) : 1 + vh_below(n);
	if (vh_chance(30) && n >= 260) at = 254 + vh_below(6);
	vn* a = sort_vn(deep_vn(n, s, i1, vh_chance(20) ? at : 0, vh_below(6), kord));
	vn* c = sort_vn(deep_vn(n, s, i2, at, vh_below(6), kord));
	cmp_vn(a, c);
	vn_free(a);
	vn_free(c);
}

static void
chain(int k, uint32_t n, const char* in1, uint32_t l1, const char* in2, uint32_t l2)
{
	static const char* hd[] = {"\x91", "\x81\x01", "\x81\xa1\x03"};
	buf x = {0}, y = {0};
	for (uint32_t j = 0; j < n; j++) { put(&x, hd[k], (size_t)k + 1); put(&y, hd[k], (size_t)k + 1); }
	put(&x, in1, l1);
	put(&y, in2, l2);
	put1(&x, 0xc0);
	as_unpacker k1 = {.buffer = x.p, .offset = 0, .length = (uint32_t)x.n};
	as_unpacker k2 = {.buffer = y.p, .offset = 0, .length = (uint32_t)y.n};
	int r = (int)as_unpack_compare(&k1, &k2);
	evp("{\"o\":\"chain\",\"k\":%d,\"n\":%u,\"r\":%d,\"n1\":%u,\"n2\":%u,", k, n, r, k1.offset, k2.offset);
	evbytes("b", (const uint8_t*)in1, l1);
	evp(",");
	evbytes("c", (const uint8_t*)in2, l2);
	ev("}");
	for (int cut = 0; cut < 2; cut++) {
		as_unpacker pk = {.buffer = x.p, .offset = 0, .length = (uint32_t)(x.n - 1) - (uint32_t)cut};
		int64_t z = as_unpack_size(&pk);
		evp("{\"o\":\"chainsz\",\"k\":%d,\"n\":%u,\"cut\":%d,", k, n, cut);
		if (z >= 0) evp("\"r\":[1,%d,%u],", (int)z, pk.offset); else evp("\"r\":[0],");
		evbytes("b", (const uint8_t*)in1, l1);
		ev("}");
	}
	free(x.p);
	free(y.p);
}

static void
chains(void)
{
	static const uint32_t ns[] = {1, 2, 255, 256, 257, 258, 511, 512, 513, 514, 1023, 5000, 300000};
	for (int k = 0; k < 3; k++) {
		for (uint32_t j = 0; j < sizeof(ns) / sizeof(*ns); j++) {
			chain(k, ns[j], "\x05", 1, "\x05", 1);
			chain(k, ns[j], "\x05", 1, "\xcd\x01\x00", 3);
			chain(k, ns[j], "\x93\x01\x02\x03", 4, "\x92\x01\x02", 3);
			chain(k, ns[j], "\x92\x01\x02", 3, "\x92\x01\xcc\x02", 4);
			chain(k, ns[j], "\x82\x01\x02\x03\x04", 5, "\x81\x01\x02", 3);
			chain(k, ns[j], "\x82\xc7\x00\x01\xc0\x01\x02", 7, "\x82\xc7\x00\x01\xc0\x01\x03", 7);
			chain(k, ns[j], "\xa2\x03z", 3, "\xa3\x03zz", 4);
			chain(k, ns[j], "\xc0", 1, "\xa1\x03", 2);
		}
	}
}

/* ------------------------------------------------------------------- script */
static void
script(const char* in)
{
	FILE* f = fopen(in, "r");
	char* line = NULL;
	size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		char* p = line + 2;
		if (line[0] == 'E') {
			vn* v = vn_parse(&p);
			as_val* a = vn_build(v);
			uint32_t n;
			uint8_t* b = pack_val(a, &n);
			evp("{");
			evbytes("b", b, n);
			evp(",\"ms\":%u,\"gs\":%u,", measure_val(a), as_serializer_serialize_getsize(&ser, a));
			free(b);
			/* decode the specified bytes */
			p++;
			n = (uint32_t)(strcspn(p, "\n") / 2);
			b = malloc(n);
			for (uint32_t j = 0; j < n; j++) b[j] = (uint8_t)(vn_hex(p[2 * j]) * 16 + vn_hex(p[2 * j + 1]));
			as_unpacker pk = {.buffer = b, .offset = 0, .length = n};
			as_val* d = NULL;
			int rc = as_unpack_val(&pk, &d);
			as_unpacker ps = {.buffer = b, .offset = 0, .length = n};
			int peek = (int)as_unpack_peek_type(&ps);
			int64_t sz = as_unpack_size(&ps);
			evp("\"rc\":%d,\"n\":%u,\"sz\":%d,\"peek\":%d,\"type\":%d,\"d\":", rc, pk.offset, (int)sz, peek, d ? (int)as_val_type(d) : -1);
			ev_val(d);
			/* every proper prefix is refused by measuring and decoding */
			int bad = 0;
			for (uint32_t q = 0; q < n; q++) {
				uint8_t* pre = exact(b, q);
				as_unpacker u1 = {.buffer = pre, .offset = 0, .length = q};
				as_unpacker u2 = u1;
				as_val* x = NULL;
				if (as_unpack_size(&u1) >= 0) bad = 1;
				if (as_unpack_val(&u2, &x) == 0) { bad = 1; as_val_destroy(x); }
				free(pre);
			}
			ev(",\"pre\":%d}", bad);
			as_val_destroy(d);
			free(b);
			as_val_destroy(a);
			vn_free(v);
		}
		else {
			vn* a = vn_parse(&p);
			p++;
			vn* c = vn_parse(&p);
			as_val* va = vn_build(a);
			as_val* vc = vn_build(c);
			uint32_t n1, n2;
			uint8_t* b1 = pack_val(va, &n1);
			uint8_t* b2 = pack_val(vc, &n2);
			as_unpacker k1 = {.buffer = b1, .offset = 0, .length = n1};
			as_unpacker k2 = {.buffer = b2, .offset = 0, .length = n2};
			int r = (int)as_unpack_compare(&k1, &k2);
			int aligned = k1.offset == n1 && k2.offset == n2;
			buf x = {0}, y = {0};
			any_enc(&x, a);
			any_enc(&y, c);
			int r2 = (int)as_unpack_buf_compare(x.p, (uint32_t)x.n, y.p, (uint32_t)y.n);
			ev("{\"m\":%d,\"r\":%d,\"al\":%d,\"w\":%d}", (int)as_val_cmp(va, vc), r, aligned, r2);
			free(x.p);
			free(y.p);
			free(b1);
			free(b2);
			as_val_destroy(va);
			as_val_destroy(vc);
			vn_free(a);
			vn_free(c);
		}
	}
	free(line);
	fclose(f);
}

int
main(int argc, char** argv)
{
	if (argc < 4) return 3;
	const char* m = argv[1];
	as_msgpack_init(&ser);
	if (! strcmp(m, "script")) {
		vh_seed(1);
		vh_open(argv[3]);
		script(argv[2]);
		vh_close();
		return 0;
	}
	uint32_t s = (uint32_t)strtoul(argv[2], NULL, 10);
	vh_seed(s);
	int n = argc > 4 ? atoi(argv[3]) : 0;
	vh_open(argv[argc > 4 ? 4 : 3]);
	if (! strcmp(m, "big")) {
		for (int k = 0; k < 30; k++) if (k % 3 == (int)s % 3) { vn* v = big_vn(k); roundtrip(v, 1); vn_free(v); }
	}
	else if (! strcmp(m, "bigenc")) {
		for (int k = 0; k < 30; k++) if (k % 3 == (int)s % 3) { vn* v = big_vn(k); encode(v, 1); vn_free(v); }
	}
	else if (! strcmp(m, "deep")) {
		static const uint32_t ns[] = {1, 2, 3, 4, 5, 50, 255, 256, 257, 258, 500, 513, 1500, 3000};
		for (uint32_t k = 0; k < sizeof(ns) / sizeof(*ns); k++) deep(ns[k], (s + k) % 4);
	}
	else if (! strcmp(m, "dir")) dir_all();
	else if (! strcmp(m, "fix")) fix_all();
	else if (! strcmp(m, "huge")) huge();
	else if (! strcmp(m, "sweep")) sweep();
	else if (! strcmp(m, "chain")) chains();
	else if (! strcmp(m, "deepcmp")) {
		static const uint32_t ns[] = {3, 100, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 400, 511, 512, 513, 520, 600};
		for (int k = 0; k < n; k++) deep_cmp(ns[vh_below(sizeof(ns) / sizeof(*ns))]);
	}
	else for (int k = 0; k < n; k++) {
		if (! strcmp(m, "rt") || ! strcmp(m, "enc") || ! strcmp(m, "path1")) {
			vn* v = rnd_vn(VN_FLAGS | (m[0] == 'p' ? VN_WILD | VN_PAIR : 0) | (m[0] == 'e' ? VN_WILD | VN_PAIR : 0), (int)vh_below(6), 0);
			if (m[0] == 'r') roundtrip(v, 0); else if (m[0] == 'e') encode(v, 0); else path(v);
			vn_free(v);
		}
		else if (! strcmp(m, "path")) path_edges((uint32_t)k);
		else if (! strcmp(m, "read")) random_read();
		else if (! strcmp(m, "size")) random_size((uint32_t)k);
		else if (! strcmp(m, "cmp")) random_cmp(0);
		else if (! strcmp(m, "mcmp")) random_cmp(1);
		else return 3;
	}
	vh_close();
	return 0;
}
