/* Encodes, measures, decodes, compares and prints values, each call first
 * without a failure and then with every single allocation it makes failing.
 *   cfault script IN OUT      values in notation, one or two per line
 *   cfault wire|text SEED N OUT
 *   cfault edge SEED SIZE OUT */
#include <aerospike/as_msgpack.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_string_builder.h>
#include "val.h"

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
void __real_free(void*);

static long live, made, target;
static bool armed, hit;

static bool
fails(void)
{
	if (armed && ++made == target) {
		hit = true;
		return true;
	}
	return false;
}

void* __wrap_malloc(size_t n) { if (fails()) return NULL; live++; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t n) { if (fails()) return NULL; live++; return __real_calloc(a, n); }
void* __wrap_realloc(void* p, size_t n) { if (fails()) return NULL; if (! p) live++; return __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { if (fails()) return NULL; live++; return __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { if (fails()) return NULL; live++; return __real_strndup(s, n); }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }

static as_serializer ser;
static bool deep;	/* too deep to be written out, only the encoding is */

static int
depth(const vn* v)
{
	uint32_t m = v->t == 'L' ? v->n : v->t == 'M' ? 2 * v->n : v->t == 'P' ? 2 : 0;
	int most = 0;
	for (uint32_t j = 0; j < m; j++) { int d = depth(v->e[j]); if (d > most) most = d; }
	return most + 1;
}

static uint8_t*
encoded(const vn* v, uint32_t* n)
{
	as_val* a = vn_build(v);
	as_buffer b;
	as_buffer_init(&b);
	if (as_serializer_serialize(&ser, a, &b) != 0) WRONG("encoding failed\n");
	as_val_destroy(a);
	uint8_t* p = malloc(b.size ? b.size : 1);
	memcpy(p, b.data, b.size);
	*n = b.size;
	as_buffer_destroy(&b);
	return p;
}

static void
done(const char* o, int r, long before)
{
	/* the failure is over, what the call left behind is judged now */
	evp("\"o\":\"%s\",\"k\":%ld,\"r\":%d,\"hit\":%d,\"lv\":%ld}", o, target, r, hit, live - before);
	ev("");
}

static void
outcome(const char* o, const vn* v, const vn* u, const uint8_t* b, uint32_t n, const uint8_t* c, uint32_t m)
{
	long before = live;
	hit = false;
	made = 0;
	evp("{");
	if (! strcmp(o, "ser")) {
		as_val* a = vn_build(v);
		as_buffer sb;
		as_buffer_init(&sb);
		armed = true;
		int rc = as_serializer_serialize(&ser, a, &sb);
		armed = false;
		bool same = rc == 0 && sb.size == n && ! memcmp(sb.data, b, n);
		if (rc == 0) as_buffer_destroy(&sb);
		/* the value is still what it was */
		as_buffer_init(&sb);
		if (as_serializer_serialize(&ser, a, &sb) != 0) WRONG("encoding failed\n");
		evp("\"same\":%d,\"kept\":%d,", same, sb.size == n && ! memcmp(sb.data, b, n));
		as_buffer_destroy(&sb);
		as_val_destroy(a);
		done(o, rc != 0, before);
	}
	else if (! strcmp(o, "siz") || ! strcmp(o, "pre")) {
		as_val* a = vn_build(v);
		uint8_t* p = malloc(n ? n : 1);
		armed = true;
		int64_t rc = o[0] == 's' ? (int64_t)as_serializer_serialize_getsize(&ser, a) : as_serializer_serialize_presized(&ser, a, p);
		armed = false;
		bool ok = o[0] == 's' ? rc > 0 : rc >= 0;
		evp("\"same\":%d,\"kept\":1,", ok && rc == n && (o[0] == 's' || ! memcmp(p, b, n)));
		free(p);
		as_val_destroy(a);
		done(o, ! ok, before);
	}
	else if (! strcmp(o, "dec") || ! strcmp(o, "des")) {
		uint8_t* p = malloc(n ? n : 1);
		memcpy(p, b, n);
		as_val* d = NULL;
		int rc;
		if (o[2] == 'c') {
			as_unpacker pk = {.buffer = p, .offset = 0, .length = n};
			armed = true;
			rc = as_unpack_val(&pk, &d);
			armed = false;
		}
		else {
			as_buffer sb = {.capacity = n, .size = n, .data = p};
			armed = true;
			rc = as_serializer_deserialize(&ser, &sb, &d);
			armed = false;
		}
		evp("\"kept\":%d,", ! memcmp(p, b, n));
		if (rc == 0) {
			as_buffer sb;
			as_buffer_init(&sb);
			if (as_serializer_serialize(&ser, d, &sb) != 0) WRONG("encoding failed\n");
			evp("\"same\":%d,", sb.size == n && ! memcmp(sb.data, b, n));
			as_buffer_destroy(&sb);
			if (! deep) {
				evp("\"d\":");
				ev_val(d);
				evp(",");
			}
		}
		if (rc == 0) as_val_destroy(d);
		free(p);
		done(o, rc != 0, before);
	}
	else if (! strcmp(o, "skp")) {
		as_unpacker pk = {.buffer = b, .offset = 0, .length = n};
		armed = true;
		int64_t rc = as_unpack_size(&pk);
		armed = false;
		evp("\"n\":%lld,", (long long)rc);
		done(o, rc < 0, before);
	}
	else if (! strcmp(o, "cmp")) {
		armed = true;
		msgpack_compare_t r = as_unpack_buf_compare(b, n, c, m);
		armed = false;
		evp("\"n\":%d,", (int)r);
		done(o, r == MSGPACK_COMPARE_ERROR, before);
	}
	else if (! strcmp(o, "vcm")) {
		as_val* a = vn_build(v);
		as_val* d = vn_build(u);
		armed = true;
		msgpack_compare_t r = as_val_cmp(a, d);
		armed = false;
		evp("\"n\":%d,", (int)r);
		as_val_destroy(a);
		as_val_destroy(d);
		done(o, r == MSGPACK_COMPARE_ERROR, before);
	}
	else if (! strcmp(o, "txt")) {
		as_val* a = vn_build(v);
		armed = true;
		char* s = as_val_tostring(a);
		armed = false;
		evbytes("s", (uint8_t*)(s ? s : ""), s ? strlen(s) : 0);
		evp(",");
		int r = s == NULL;
		free(s);
		as_val_destroy(a);
		done(o, r, before);
	}
}

static void
failing(const char* o, const vn* v, const vn* u, const uint8_t* b, uint32_t n, const uint8_t* c, uint32_t m)
{
	target = 0;
	outcome(o, v, u, b, n, c, m);
	long total = made;
	/* all of them, or the first, the last and some between */
	for (long k = 1; k <= total; k++) {
		if (total > 60 && k > 20 && k <= total - 20 && ! vh_chance(2000 / (total > 20 ? total : 20))) continue;
		target = k;
		outcome(o, v, u, b, n, c, m);
	}
}

static void
wire(const vn* v, const vn* u)
{
	uint32_t n, m;
	uint8_t* b = encoded(v, &n);
	uint8_t* c = encoded(u, &m);
	deep = depth(v) > 30 || depth(u) > 30;
	evp("{\"o\":\"init\",");
	if (! deep) {
		evp("\"v\":");
		ev_vn(v);
		evp(",\"u\":");
		ev_vn(u);
		evp(",");
	}
	evbytes("b", b, n);
	evp(",");
	evbytes("c", c, m);
	ev("}");
	static const char* ops[] = {"ser", "siz", "pre", "dec", "des", "skp", "cmp", "vcm"};
	for (unsigned k = 0; k < sizeof(ops) / sizeof(ops[0]); k++) failing(ops[k], v, u, b, n, c, m);
	free(b);
	free(c);
}

static void
text(const vn* v)
{
	evp("{\"o\":\"init\",\"v\":");
	ev_vn(v);
	ev("}");
	failing("txt", v, NULL, NULL, 0, NULL, 0);
}

static uint32_t
unhex(const char* c, uint8_t* b)
{
	uint32_t n = 0;
	for (; c[0] && c[1] && c[0] > ' '; c += 2) b[n++] = (uint8_t)(vn_hex(c[0]) * 16 + vn_hex(c[1]));
	b[n] = 0;
	return n;
}

/* a growing text: capacity, where it starts, pieces as kind:hexdigits */
static void
build(uint32_t cap, bool heap, const char* script)
{
	long before = live;
	char room[64];
	char* text = strdup(script);
	as_string_builder sb;
	made = 0;
	hit = false;
	armed = true;
	if (heap) as_string_builder_init(&sb, cap, true);
	else { sb.data = room; sb.data[0] = 0; sb.capacity = cap; sb.length = 0; sb.resize = true; sb.free = false; }
	armed = false;
	ev("{\"o\":\"build\",\"k\":%ld}", target);
	char* save;
	for (char* w = strtok_r(text, " ", &save); w; w = strtok_r(NULL, " ", &save)) {
		uint8_t b[64];
		uint32_t n = unhex(w + 4, b);
		hit = false;
		armed = true;
		bool r = w[0] == 's' ? as_string_builder_append(&sb, (char*)b) : w[0] == 'c' ? as_string_builder_append_char(&sb, (char)b[0])
				: as_string_builder_append_bytes(&sb, b, n);
		armed = false;
		evp("{\"o\":\"piece\",\"p\":\"%c\",\"k\":%ld,\"r\":%d,\"hit\":%d,\"n\":%u,", w[0], target, ! r, hit, sb.length);
		evbytes("t", b, n);
		evp(",");
		n = 0;
		while (n < sb.capacity && sb.data[n]) n++;
		evp("\"z\":%d,", n < sb.capacity);
		evbytes("s", (uint8_t*)sb.data, n);
		ev("}");
	}
	as_string_builder_destroy(&sb);
	free(text);
	ev("{\"o\":\"built\",\"lv\":%ld}", live - before);
}

static void
base(const uint8_t* path, uint32_t n)
{
	long before = live;
	char* p = malloc(n + 1);
	memcpy(p, path, n + 1);
	as_string s;
	made = 0;
	hit = false;
	armed = true;
	const char* r = as_basename(&s, p);
	armed = false;
	evp("{");
	evbytes("t", path, n);
	evp(",");
	evbytes("s", (uint8_t*)(r ? r : ""), r ? strlen(r) : 0);
	evp(",");
	as_string_destroy(&s);
	free(p);
	done("base", r == NULL, before);
}

/* a value inside n lists and maps */
static vn*
nested(uint32_t n, vn* v)
{
	for (uint32_t k = 0; k < n; k++) {
		bool map = vh_chance(30);
		vn* p = vn_new(map ? 'M' : 'L');
		uint32_t extra = vh_chance(20);
		p->n = 1 + extra;
		p->e = calloc(5, sizeof(vn*));
		if (map) {
			p->k = vh_chance(50) ? 0 : 1;
			if (extra) { p->e[2] = vn_int(5); p->e[3] = vn_int(6); }
			p->e[0] = vn_int(3);
			p->e[1] = v;
		}
		else {
			p->e[0] = v;
			if (extra) p->e[1] = vn_int(7);
		}
		v = p;
	}
	return v;
}

/* a map built in an order that leaves entries waiting to be merged */
static vn*
backwards(uint32_t n)
{
	vn* p = vn_new('M');
	p->n = n;
	p->e = calloc(2 * n + 1, sizeof(vn*));
	for (uint32_t k = 0; k < n; k++) {
		p->e[2 * k] = vn_int(vh_chance(50) ? n - k : 1000 - k);
		p->e[2 * k + 1] = vn_int(k);
	}
	/* one entry per key */
	for (uint32_t k = 0; k < n; k++) {
		for (uint32_t j = 0; j < k; j++) if (p->e[2 * j]->i == p->e[2 * k]->i) p->e[2 * k]->i = 5000 + k;
	}
	return p;
}

/* more text than the first buffer of the printer takes */
static vn*
wide(void)
{
	static uint8_t fill[2000];
	vn* p = vn_new(vh_chance(50) ? 'L' : 'M');
	p->n = 1 + vh_below(4);
	p->e = calloc(2 * p->n + 1, sizeof(vn*));
	for (uint32_t k = 0; k < p->n; k++) {
		memset(fill, 'a' + k, sizeof(fill));
		vn* v = vn_text("SGB"[vh_below(3)], 4, fill, vh_chance(50) ? 300 + vh_below(200) : 240 + vh_below(800));
		if (p->t == 'L') p->e[k] = v;
		else { p->e[2 * k] = vn_int(k); p->e[2 * k + 1] = v; }
	}
	return p;
}

static vn*
copy(const vn* v)
{
	vn* r = vn_new(v->t);
	*r = *v;
	if (v->b) { r->b = malloc(v->n + 1); memcpy(r->b, v->b, v->n + 1); }
	uint32_t m = v->t == 'L' ? v->n : v->t == 'M' ? 2 * v->n : v->t == 'P' ? 2 : 0;
	r->e = calloc(m + 1, sizeof(vn*));
	for (uint32_t j = 0; j < m; j++) r->e[j] = copy(v->e[j]);
	return r;
}

int
main(int argc, char** argv)
{
	if (argc < 4) return 3;
	as_msgpack_init(&ser);
	if (! strcmp(argv[1], "script")) {
		FILE* in = fopen(argv[2], "r");
		if (! in) return 3;
		vh_seed(1);
		vh_open(argv[3]);
		static char line[1 << 20];
		while (fgets(line, sizeof(line), in)) {
			char* p = line + 2;
			if (line[0] == 'S') {
				int cap, heap, at;
				line[strcspn(line, "\n")] = 0;
				if (sscanf(p, "%d %d %n", &cap, &heap, &at) != 2) MISUSE("script\n");
				ev("{\"o\":\"init\"}");
				target = 0;
				build((uint32_t)cap, heap, p + at);
				long total = made;
				for (target = 1; target <= total; target++) build((uint32_t)cap, heap, p + at);
				continue;
			}
			if (line[0] == 'N') {
				uint8_t b[64];
				uint32_t n = unhex(p, b);
				ev("{\"o\":\"init\"}");
				target = 0;
				base(b, n);
				long total = made;
				for (target = 1; target <= total; target++) base(b, n);
				continue;
			}
			vn* v = vn_parse(&p);
			if (line[0] == 'T') text(v);
			else {
				p++;
				vn* u = vn_parse(&p);
				wire(v, u);
				vn_free(u);
			}
			vn_free(v);
		}
		vh_close();
		return 0;
	}
	vh_seed(strtoull(argv[2], NULL, 10));
	int n = atoi(argv[3]);
	vh_open(argv[4]);
	if (! strcmp(argv[1], "edge")) {
		/* texts that end where the printer's buffer does, n being about its size */
		for (int len = n - 26; len <= n + 2; len++) {
			for (int kind = 0; kind < 5; kind++) {
				static uint8_t fill[9000];
				memset(fill, 'a' + len % 26, sizeof(fill));
				vn* v = vn_new(kind < 2 ? 'L' : 'M');
				v->n = 1;
				v->e = calloc(5, sizeof(vn*));
				vn* big = vn_text('S', 4, fill, (uint32_t)len);
				if (kind == 0) v->e[0] = big;
				else if (kind == 1) { v->n = 2; v->e[0] = vn_int(vh_below(10)); v->e[1] = big; }
				else if (kind == 4) { v->n = 2; v->e[0] = vn_int(1); v->e[1] = vn_int(2); v->e[2] = vn_int(3); v->e[3] = big; }
				else { v->e[0] = kind == 2 ? vn_int(vh_below(10)) : big; v->e[1] = kind == 2 ? big : vn_int(vh_below(10)); }
				text(v);
				vn_free(v);
			}
		}
		vh_close();
		return 0;
	}
	for (int k = 0; k < n; k++) {
		if (! strcmp(argv[1], "wire")) {
			vn* v;
			vn* u;
			switch (vh_below(14)) {
			case 0: v = nested(vh_chance(50) ? 1 + vh_below(20) : 250 + vh_below(20), rnd_leaf(VN_SMALL, 0)); u = copy(v); break;
			case 1: v = nested(vh_chance(50) ? 500 + vh_below(30) : 250 + vh_below(40), backwards(1 + vh_below(12))); u = copy(v); break;
			case 2: {	/* more than one buffer */
				v = vn_new('L');
				v->n = 2 + vh_below(4);
				v->e = calloc(v->n, sizeof(vn*));
				for (uint32_t j = 0; j < v->n; j++) {
					static uint8_t fill[9000];
					memset(fill, 'a' + j, sizeof(fill));
					v->e[j] = vh_chance(30) ? rnd_vn(VN_SMALL, 1, 0) : vn_text("SGB"[vh_below(3)], 4, fill, vh_chance(30) ? 8100 + vh_below(200) : vh_below(5000));
				}
				u = rnd_vn(0, 1, 0);
				break;
			}
			case 3: v = backwards(1 + vh_below(40)); u = copy(v); break;
			default: v = rnd_vn(VN_FLAGS, 3, 0); u = vh_chance(50) ? copy(v) : rnd_vn(VN_FLAGS, 3, 0); break;
			}
			wire(v, u);
			vn_free(v);
			vn_free(u);
		}
		else {
			vn* v = vh_chance(15) ? wide() : vh_chance(20) ? backwards(1 + vh_below(20)) : vh_chance(10) ? nested(1 + vh_below(20), rnd_leaf(VN_QUARTER, 0)) : rnd_vn(VN_QUARTER | VN_PAIR | VN_WILD | VN_NONE, 3, 0);
			text(v);
			vn_free(v);
		}
	}
	vh_close();
	return 0;
}
