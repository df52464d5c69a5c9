/* Drives the base-64 functions with exactly sized buffers.
 *   b64 random SEED N OUT | b64 script IN OUT | b64 huge OUT
 * Script lines: e BYTE... | d CHAR... */
#define _GNU_SOURCE
#include <citrusleaf/cf_b64.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vh.h"

static void
encode(const uint8_t* src, uint32_t n)
{
	uint8_t* b = malloc(n);
	memcpy(b, src, n);
	uint32_t len = cf_b64_encoded_len(n);
	char* t = malloc(len);
	memset(t, '!', len);
	cf_b64_encode(b, n, t);
	evp("{\"o\":\"enc\",\"n\":%u,", len);
	evbytes("b", src, n);
	evp(",");
	evbytes("t", (uint8_t*)t, len);
	ev("}");
	if (memcmp(b, src, n)) { fprintf(stderr, "encoded bytes were changed\n"); exit(4); }
	free(t);
	free(b);
}

/* how: 1 = validated, 2 = in place, 4 = size not asked for */
static void
decode(const uint8_t* src, uint32_t n, int how)
{
	bool valid = how & 1, in_place = how & 2;
	uint32_t room = cf_b64_decoded_buf_size(n & ~3u);
	uint32_t size = 0xDEAD;
	uint32_t* ps = how & 4 ? NULL : &size;
	char* t = malloc(n);
	memcpy(t, src, n);
	uint8_t* out = in_place ? (uint8_t*)t : malloc(room);
	int r = 1;
	if (valid) {
		r = in_place ? cf_b64_validate_and_decode_in_place((uint8_t*)t, n, ps) : cf_b64_validate_and_decode(t, n, out, ps);
	}
	else if (in_place) {
		cf_b64_decode_in_place((uint8_t*)t, n, ps);
	}
	else {
		cf_b64_decode(t, n, out, ps);
	}
	uint32_t pad = n < 2 ? 0 : (src[n - 1] == '=') + (src[n - 2] == '=');
	evp("{\"o\":\"dec\",\"v\":%d,\"z\":%d,\"r\":%d,\"n\":%u,\"m\":%u,", valid, ps == NULL, r, size, room);
	evbytes("t", src, n);
	evp(",");
	evbytes("b", out, r ? (ps ? (size <= room ? size : 0) : room - pad) : 0);
	ev("}");
	if (! in_place) {
		if (memcmp(t, src, n)) { fprintf(stderr, "the text was changed\n"); exit(4); }
		free(out);
	}
	free(t);
}

static bool
formed(const uint8_t* t, uint32_t n)
{
	uint32_t pad = 0;
	if (n % 4) return false;
	while (pad < 2 && pad < n && t[n - 1 - pad] == '=') pad++;
	for (uint32_t k = 0; k < n - pad; k++) {
		if (! strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", t[k]) || ! t[k]) return false;
	}
	return true;
}

static void
decodes(const uint8_t* t, uint32_t n)
{
	for (int how = 0; how < 8; how++) {
		/* unvalidated decoding is for well-formed texts */
		if ((how & 1) || formed(t, n)) decode(t, n, how);
	}
}

static void
randomly(uint32_t rounds)
{
	static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	uint8_t b[400];
	for (; rounds > 0; rounds--) {
		uint32_t n = vh_chance(70) ? vh_below(14) : vh_below(200);
		if (vh_chance(40)) {
			for (uint32_t k = 0; k < n; k++) b[k] = vh_chance(20) ? 255 : (uint8_t)vh_next();
			encode(b, n);
			continue;
		}
		n = (n + 3) / 4 * 4;
		for (uint32_t k = 0; k < n; k++) b[k] = al[vh_below(64)];
		if (n && vh_chance(50)) b[n - 1] = '=';
		if (n && b[n - 1] == '=' && vh_chance(50)) b[n - 2] = '=';
		if (n && vh_chance(40)) {
			b[vh_below(n)] = vh_chance(40) ? '=' : (uint8_t)vh_next();
		}
		if (n && vh_chance(10)) b[n - 1 - vh_below(4)] = (uint8_t)vh_next();
		if (n && vh_chance(10)) n -= vh_below(4);
		decodes(b, n);
	}
}

/* A long stretch of memory that is the same megabyte over and over. */
#define WIN ((size_t)1 << 24)
static uint8_t*
repeated(size_t n, uint8_t fill)
{
	size_t total = (n + WIN - 1) / WIN * WIN;
	int fd = memfd_create("window", 0);
	if (fd < 0 || ftruncate(fd, WIN)) MISUSE("memfd\n");
	/* inaccessible before and after */
	uint8_t* p = mmap(NULL, total + ((size_t)8 << 30), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) MISUSE("mmap\n");
	p += (size_t)4 << 30;
	for (size_t at = 0; at < total; at += WIN) {
		if (mmap(p + at, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) MISUSE("mmap\n");
	}
	memset(p, fill, WIN);
	close(fd);
	return p;
}

static bool
all(const uint8_t* p, size_t n, uint8_t c)
{
	for (size_t k = 0; k < n; k++) {
		if (p[k] != c) return false;
	}
	return true;
}

static void
hugely(void)
{
	/* the largest lengths: only the arithmetic */
	uint32_t quads[] = { 1, 0x10000000, 0x15555555, 0x15555556, 0x20000000, 0x2AAAAAAA };
	for (size_t k = 0; k < sizeof(quads) / sizeof(quads[0]); k++) {
		uint32_t m = cf_b64_decoded_buf_size(quads[k] * 4);
		ev("{\"o\":\"room\",\"q\":%u,\"m\":[%u,%u]}", quads[k], m >> 16, m & 0xFFFF);
	}
	/* 1.7 * 10^9 zero bytes make a text longer than 2^31 */
	uint32_t n = 1700000001;
	uint8_t* b = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) MISUSE("mmap\n");
	uint32_t len = cf_b64_encoded_len(n);
	char* t = (char*)repeated(len, '!');
	cf_b64_encode(b, n, t);
	evp("{\"o\":\"long\",\"same\":%d,\"last\":[0,0,0],", all((uint8_t*)t, WIN, 'A'));
	evbytes("t", (uint8_t*)t + len - 4, 4);
	ev("}");
	uint8_t* out = repeated(n, 0xEE);
	uint32_t size = 0;
	int r = cf_b64_validate_and_decode(t, len, out, &size);
	ev("{\"o\":\"back\",\"r\":%d,\"q\":%u,\"n\":%u,\"same\":%d}", r, n, size, all(out, WIN, 0));
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "huge")) {
		hugely();
	}
	else if (! strcmp(argv[1], "random")) {
		vh_seed(strtoul(argv[2], NULL, 10));
		randomly(strtoul(argv[3], NULL, 10));
	}
	else {
		FILE* f = fopen(argv[2], "r");
		static char line[8192];
		if (! f) MISUSE("script\n");
		while (fgets(line, sizeof(line), f)) {
			uint8_t b[1024];
			uint32_t n = 0;
			for (char* p = strtok(line + 1, " \n"); p; p = strtok(NULL, " \n")) b[n++] = (uint8_t)atoi(p);
			if (line[0] == 'e') encode(b, n);
			else decodes(b, n);
		}
		fclose(f);
	}
	vh_close();
	return 0;
}
