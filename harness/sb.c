#define _GNU_SOURCE
/* Drives as_string_builder.  sb random SEED SCENARIOS LEN OUT | sb script IN OUT */
#include <aerospike/as_string_builder.h>
#include <alloca.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vh.h"

static as_string_builder sb;

static void
obs(void)
{
	evp(",\"c\":%u,\"n\":%u,", sb.capacity, sb.length);
	uint32_t n = 0;
	while (n < sb.capacity && sb.data[n]) n++;
	evp("\"z\":%d,", n < sb.capacity ? 0 : 1);
	evbytes("d", (uint8_t*)sb.data, n);
	ev("}");
}

static void
limbs(uint64_t w)
{
	evp(",\"w\":[%u,%u,%u,%u]", (unsigned)(w >> 48), (unsigned)(w >> 32 & 0xffff), (unsigned)(w >> 16 & 0xffff), (unsigned)(w & 0xffff));
}

static void
op(const char* o, const uint8_t* t, uint32_t n, uint64_t w)
{
	int r = 1;
	evp("{\"o\":\"%s\",", o);
	if (! strcmp(o, "str")) {
		char* s = malloc(n + 1);
		memcpy(s, t, n);
		s[n] = 0;
		r = as_string_builder_append(&sb, s);
		free(s);
		evbytes("t", t, n);
	}
	else if (! strcmp(o, "chr")) {
		r = t[0] == '\n' ? as_string_builder_append_newline(&sb) : as_string_builder_append_char(&sb, (char)t[0]);
		evbytes("t", t, 1);
	}
	else if (! strcmp(o, "hex")) {
		uint8_t* s = malloc(n ? n : 1);
		memcpy(s, t, n);
		r = as_string_builder_append_bytes(&sb, s, n);
		free(s);
		evbytes("t", t, n);
	}
	evp("%s\"r\":%d", strcmp(o, "reset") ? "," : "", r);
	obs();
}

static void
num(int kind, uint64_t w)
{
	int r;
	const char* o = kind & 1 ? "uint" : "int";
	uint64_t shown;
	if (kind == 0) { r = as_string_builder_append_int(&sb, (int)w); shown = (uint64_t)(int64_t)(int)w; }
	else if (kind == 1) { r = as_string_builder_append_uint(&sb, (uint32_t)w); shown = (uint32_t)w; }
	else if (kind == 2) { r = as_string_builder_append_int64(&sb, (int64_t)w); shown = w; }
	else { r = as_string_builder_append_uint64(&sb, w); shown = w; }
	evp("{\"o\":\"%s\",\"r\":%d", o, r);
	limbs(shown);
	obs();
}

static void
scenario(uint32_t cap, bool grow, int st, uint32_t len, char* script)
{
	char* ext = NULL;
	if (st == 0) { as_string_builder_init(&sb, cap, grow); }
	else if (st == 1) { as_string_builder_inita(&sb, cap, grow); memset(sb.data + 1, 'Z', cap - 1); }
	else { ext = malloc(cap); memset(ext, 'Z', cap); as_string_builder_assign(&sb, cap, ext); grow = false; }
	evp("{\"o\":\"init\",\"cap\":%u,\"g\":%d", cap, grow);
	obs();
	if (script) {
		char* save;
		char* w = strtok_r(script, " ", &save);
		for (; w; w = strtok_r(NULL, " ", &save)) {
			/* op:hexdigits */
			char* c = strchr(w, ':');
			*c++ = 0;
			uint8_t b[64];
			uint32_t n = 0;
			for (; c[0] && c[1]; c += 2) { unsigned x; sscanf(c, "%2x", &x); b[n++] = x; }
			op(w, b, n, 0);
		}
	}
	else {
		for (uint32_t i = 0; i < len; i++) {
			uint8_t b[64];
			uint32_t n = vh_chance(70) ? vh_below(7) : vh_below(40);
			int k = vh_below(20);
			if (k < 7) { for (uint32_t j = 0; j < n; j++) b[j] = 1 + vh_below(255); op("str", b, n, 0); }
			else if (k < 10) { b[0] = vh_chance(20) ? '\n' : 1 + vh_below(255); op("chr", b, 1, 0); }
			else if (k < 13) { n = vh_below(6); for (uint32_t j = 0; j < n; j++) b[j] = vh_below(256); op("hex", b, n, 0); }
			else if (k < 19) {
				uint64_t w = vh_next() >> vh_below(64);
				if (vh_chance(40)) w = -w;
				static const uint64_t edge[] = {0, 1, 9, 10, 99, 100, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL};
				if (vh_chance(30)) w = edge[vh_below(12)];
				num(vh_below(4), w);
			}
			else if (vh_chance(40)) { as_string_builder_reset(&sb); op("reset", b, 0, 0); }
		}
	}
	as_string_builder_destroy(&sb);
	free(ext);
}

/* A very long text to append, the same piece mapped again and again. */
#define PIECE (1ull << 24)
static char* src;
static uint64_t src_room;

static void
source(void)
{
	int fd = memfd_create("text", 0);
	if (fd < 0 || ftruncate(fd, PIECE)) MISUSE("memfd\n");
	char* p = mmap(NULL, PIECE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (p == MAP_FAILED) MISUSE("mmap\n");
	for (uint64_t k = 0; k < PIECE; k++) p[k] = 'a' + (k * 7 + k / 251) % 23;
	src_room = 260 * PIECE;
	src = mmap(NULL, src_room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (uint64_t at = 0; at < src_room - PIECE; at += PIECE) {
		if (mmap(src + at, PIECE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) MISUSE("map piece\n");
	}
	/* the last piece is private, so that its end can be marked */
	if (mmap(src + src_room - PIECE, PIECE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) MISUSE("map last\n");
	src[src_room - 1] = 0;
}

static int
hex_at(const uint8_t* b, uint64_t k, uint64_t n)
{
	if (k == 0) return '[';
	if (k == (n ? 3 * n : 1)) return ']';
	k--;
	return k % 3 == 2 ? ' ' : "0123456789ABCDEF"[k % 3 == 0 ? b[k / 3] >> 4 : b[k / 3] & 15];
}

static void
big(const char* o, uint64_t len)
{
	uint64_t was = sb.length, add = len;
	const char* t = src + src_room - 1 - len;	/* ends with the terminator */
	int r;
	if (! strcmp(o, "str")) r = as_string_builder_append(&sb, t);
	else if (! strcmp(o, "chr")) { r = as_string_builder_append_char(&sb, *t); add = 1; }
	else { r = as_string_builder_append_bytes(&sb, (uint8_t*)t, (uint32_t)len); add = len ? 3 * len + 1 : 2; }
	uint64_t got = sb.length - was;
	int ok = sb.length >= was;
	if (ok && got) {
		if (o[0] == 'h') {
			for (uint64_t k = 0; k < got; k += k < 4096 || k + 4096 > got ? 1 : 997) {
				if (sb.data[was + k] != hex_at((const uint8_t*)t, k, len)) { ok = 0; break; }
			}
		}
		else ok = got <= add && memcmp(sb.data + was, t, got) == 0;
	}
	ev("{\"o\":\"%s\",\"a\":[%u,%u],\"r\":%d,\"n\":[%u,%u],\"ok\":%d,\"z\":%d}", o, (unsigned)(add >> 16), (unsigned)(add & 0xffff), r,
			sb.length >> 16, sb.length & 0xffff, ok, sb.data[sb.length] == 0);
}

static void
huge(int k)
{
	source();
	as_string_builder_init(&sb, 10 + k, true);
	ev("{\"o\":\"init\"}");
	if (k == 0) {
		/* one text that is too long by itself */
		big("chr", 1); big("str", (1ull << 32) + 5); big("str", 7);
		big("hex", 1431655765); big("hex", 1431655766); big("hex", 1500000000); big("hex", 3);
	}
	else if (k == 1) {
		big("str", 3000000000u); big("str", 2000000000u); big("str", 100); big("hex", 500000000); big("hex", 100000000); big("chr", 1);
	}
	else {
		/* up to the very last character */
		big("str", (1ull << 32) - 2 - 9); big("hex", 2); big("hex", 0); big("chr", 1); big("str", 0); big("chr", 1); big("hex", 0); big("str", 1); big("str", 0);
	}
	as_string_builder_destroy(&sb);
}

int
main(int argc, char** argv)
{
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		int sc = atoi(argv[3]), len = atoi(argv[4]);
		vh_open(argv[5]);
		while (sc--) scenario(vh_chance(60) ? 1 + vh_below(20) : 1 + vh_below(120), vh_chance(50), vh_below(3), 1 + vh_below(len), NULL);
	}
	else if (! strcmp(argv[1], "huge")) {
		vh_open(argv[3]);
		if (vh_memory(10)) huge(atoi(argv[2]));
	}
	else {
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		static char line[4096];
		while (fgets(line, sizeof(line), f)) {
			uint32_t cap; int g, st, n;
			line[strcspn(line, "\n")] = 0;
			if (sscanf(line, "%u %d %d %n", &cap, &g, &st, &n) != 3) MISUSE("script\n");
			scenario(cap, g, st, 0, line + n);
		}
	}
	vh_close();
	return 0;
}
