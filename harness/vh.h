/* Shared helpers of the drivers: seeded generator, trace output, scripts. */
#pragma once
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t vh_s;

static inline uint64_t
vh_next(void)
{
	/* splitmix64 */
	uint64_t z = (vh_s += 0x9E3779B97F4A7C15ULL);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}

static inline uint32_t
vh_below(uint32_t n)
{
	return n ? (uint32_t)(vh_next() % n) : 0;
}

static inline bool
vh_chance(uint32_t percent)
{
	return vh_below(100) < percent;
}

static inline void
vh_seed(uint64_t s)
{
	vh_s = s * 0x2545F4914F6CDD1DULL + 0x1234567;
	vh_next();
}

static FILE* vh_out;

#if defined(__SANITIZE_ADDRESS__)
extern void __sanitizer_set_death_callback(void (*cb)(void));
static void
vh_death(void)
{
	if (vh_out) {
		fflush(vh_out);
	}
}
#endif

static inline void
vh_open(const char* path)
{
	vh_out = fopen(path, "w");

	if (! vh_out) {
		fprintf(stderr, "cannot write %s\n", path);
		exit(3);
	}
	setvbuf(vh_out, NULL, _IOFBF, 1 << 16);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(vh_death);
#endif
}

static inline void
vh_close(void)
{
	fclose(vh_out);
	vh_out = NULL;
}

static inline void
ev(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vfprintf(vh_out, fmt, ap);
	va_end(ap);
	fputc('\n', vh_out);
}

/* Without newline, for events assembled in pieces. */
static inline void
evp(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vfprintf(vh_out, fmt, ap);
	va_end(ap);
}

static inline void
evbytes(const char* name, const uint8_t* b, size_t n)
{
	evp("\"%s\":[", name);
	for (size_t i = 0; i < n; i++) {
		evp(i ? ",%u" : "%u", b[i]);
	}
	evp("]");
}

#define MISUSE(...) do { fprintf(stderr, __VA_ARGS__); exit(3); } while (0)

/* The code under test did something that ends the history. */
#define WRONG(...) do { fprintf(stderr, "FAULT: " __VA_ARGS__); fflush(NULL); _exit(98); } while (0)

/* Items of any size that identify themselves; a torn item reads as -1. */
#define ITEM_WIDE (1u << 20)

static inline void
item_make(uint8_t* b, uint32_t sz, uint32_t id)
{
	if (sz >= ITEM_WIDE) {
		/* marked at both ends */
		for (uint32_t k = 0; k < 8; k++) b[k] = b[sz - 1 - k] = (uint8_t)(k < 2 ? id >> (8 * k) : id * 31 + k * 17);
		return;
	}
	for (uint32_t k = 0; k < sz; k++) {
		b[k] = (k < 2) ? (uint8_t)(id >> (8 * k)) : (uint8_t)(id * 31 + k * 17 + (id >> 8) * 5);
	}
}

static inline int
item_read(const uint8_t* b, uint32_t sz)
{
	uint32_t id = b[0] | (sz > 1 ? b[1] << 8 : 0);
	if (sz >= ITEM_WIDE) {
		for (uint32_t k = 0; k < 8; k++) {
			if (b[k] != (uint8_t)(k < 2 ? id >> (8 * k) : id * 31 + k * 17) || b[sz - 1 - k] != b[k]) return -1;
		}
		return (int)id;
	}
	for (uint32_t k = 2; k < sz; k++) {
		if (b[k] != (uint8_t)(id * 31 + k * 17 + (id >> 8) * 5)) {
			return -1;
		}
	}
	return (int)id;
}
/* whether the machine has that much memory to spare */
static inline int
vh_memory(uint64_t gb)
{
	FILE* f = fopen("/proc/meminfo", "r");
	char line[200];
	unsigned long long kb = 0;
	while (f && fgets(line, sizeof(line), f)) {
		if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
	}
	if (f) fclose(f);
	return kb >= gb << 20;
}

