/* Records the hash functions over byte strings held at several addresses, each
 * ending exactly at the end of its allocation.
 *   hashes SEED N OUT        N strings
 *   hashes lengths FROM TO OUT */
#include <citrusleaf/cf_hash_math.h>
#include "vh.h"

#define PLACES 3

static void
word(uint64_t w, int limbs)
{
	evp("[");
	for (int k = limbs - 1; k >= 0; k--) {
		evp("%u%s", (unsigned)(w >> (16 * k)) & 0xFFFF, k ? "," : "]");
	}
}

static void
one(const uint8_t* src, size_t n)
{
	evp("{\"o\":\"init\",");
	evbytes("b", src, n);
	ev("}");
	uint64_t r[PLACES][8];
	for (int k = 0; k < PLACES; k++) {
		size_t off = k == 0 ? 0 : 1 + vh_below(15);
		uint8_t* m = malloc(off + n);
		uint8_t* b = m + off;
		if (off) memset(m, k * 37 + 11, off);
		memcpy(b, src, n);
		r[k][0] = cf_hash_fnv32(b, n);
		r[k][1] = cf_hash_fnv64(b, n);
		r[k][2] = cf_hash_jen32(b, n);
		r[k][3] = cf_hash_jen64(b, n);
		uint64_t* out = malloc(16);
		murmurHash3_x64_128(b, n, (uint8_t*)out);
		r[k][4] = out[0];
		r[k][5] = out[1];
		free(out);
		r[k][6] = cf_wyhash64(b, n);
		r[k][7] = cf_wyhash32(b, n);
		if (memcmp(b, src, n)) { fprintf(stderr, "hashed bytes were changed\n"); exit(4); }
		free(m);
	}
	static const struct { const char* name; int at, limbs; } f[] = {
		{ "fnv32", 0, 2 }, { "fnv64", 1, 4 }, { "jen32", 2, 2 }, { "jen64", 3, 4 }, { "mur", 4, 8 }, { "wy64", 6, 4 }, { "wy32", 7, 2 }
	};
	evp("{\"o\":\"h\"");
	for (int j = 0; j < 7; j++) {
		evp(",\"%s\":[", f[j].name);
		for (int k = 0; k < PLACES; k++) {
			if (k) evp(",");
			if (f[j].limbs == 8) {
				uint64_t h = r[k][4], l = r[k][5];
				evp("[%u,%u,%u,%u,%u,%u,%u,%u]", (unsigned)(h >> 48), (unsigned)(h >> 32) & 0xFFFF, (unsigned)(h >> 16) & 0xFFFF, (unsigned)h & 0xFFFF,
						(unsigned)(l >> 48), (unsigned)(l >> 32) & 0xFFFF, (unsigned)(l >> 16) & 0xFFFF, (unsigned)l & 0xFFFF);
			}
			else {
				word(r[k][f[j].at], f[j].limbs);
			}
		}
		evp("]");
	}
	ev("}");
}

static void
address(uint64_t w)
{
	evp("{\"o\":\"ptr\",\"w\":");
	word(w, 4);
	evp(",\"r\":[");
	for (int k = 0; k < PLACES; k++) {
		uint8_t* m = malloc(8 + k * 8);
		memcpy(m + k * 8, &w, 8);
		if (k) evp(",");
		word(cf_hash_ptr32(m + k * 8), 2);
		free(m);
	}
	ev("]}");
}

static void
fill(uint8_t* b, size_t n)
{
	int how = vh_below(6);
	for (size_t k = 0; k < n; k++) {
		b[k] = how == 0 ? 0 : how == 1 ? 255 : how == 2 ? (uint8_t)(vh_chance(10) ? vh_next() : 0) : how == 3 ? (uint8_t)(vh_next() | 128) : (uint8_t)vh_next();
	}
}

int
main(int argc, char** argv)
{
	uint8_t b[4096];
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "lengths")) {
		vh_seed(strtoul(argv[4], NULL, 10));
		for (uint32_t n = atoi(argv[2]); n < (uint32_t)atoi(argv[3]); n++) {
			for (int k = 0; k < 3; k++) {
				fill(b, n);
				one(b, n);
			}
		}
	}
	else {
		vh_seed(strtoul(argv[1], NULL, 10));
		for (uint32_t k = strtoul(argv[2], NULL, 10); k > 0; k--) {
			uint32_t n = vh_chance(50) ? vh_below(70) : vh_chance(80) ? vh_below(200) : vh_below(600);
			fill(b, n);
			one(b, n);
			uint64_t w = vh_next();
			address(vh_chance(30) ? w >> (8 * vh_below(8)) : vh_chance(20) ? (w & 0xFFF0) | 0x7F0000000000 : w);
		}
	}
	vh_close();
	return 0;
}
