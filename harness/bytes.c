/* Drives as_bytes.  bytes random SEED SCENARIOS LEN OUT | bytes script IN OUT */
#include <aerospike/as_bytes.h>
#include <alloca.h>
#include <stdlib.h>
#include "vh.h"

#define FAR 100000
static as_bytes* B;
static as_bytes SB;
static uint8_t* WB;

static uint32_t
clamp(uint32_t x)
{
	return x > FAR ? FAR : x;
}

static void
obs(void)
{
	uint32_t n;
	uint8_t* p = as_bytes_tobytes(B, &n);
	if (n != as_bytes_size(B) || p != as_bytes_get(B)) n = 99999;
	evp(",\"n\":%u,\"c\":%u,", clamp(n), clamp(as_bytes_capacity(B)));
	if (n > FAR) n = 0;
	evbytes("q", p, n == 99999 ? 0 : n);
	ev("}");
}

/* Store: 0 heap object, 1 stack object with heap storage, 2 stack storage
 * (macro), 3 wrapping heap storage to free, 4 wrapping foreign storage. */
#define MAKE(store, cap) do { \
	WB = NULL; \
	switch (store) { \
	case 0: B = as_bytes_new(cap); break; \
	case 1: B = as_bytes_init(&SB, cap); break; \
	case 2: { as_bytes_inita(&SB, cap); B = &SB; break; } \
	case 3: case 4: \
		WB = malloc((cap) ? (cap) : 1); \
		for (uint32_t j_ = 0; j_ < (cap); j_++) WB[j_] = (uint8_t)(201 + j_); \
		B = (store) == 3 && vh_below(2) ? as_bytes_new_wrap(WB, cap, (store) == 3) : as_bytes_init_wrap(&SB, WB, cap, (store) == 3); \
		break; \
	} \
	if (! B) WRONG("no bytes were made\n"); \
	} while (0)

static void
unmake(int store)
{
	as_bytes_destroy(B);
	if (store == 4) free(WB);
}

/* Exact-size copies, so that any overrun of the caller's memory is caught. */
static bool
do_set(uint32_t ix, const uint8_t* src, uint32_t len, bool append)
{
	uint32_t n = len > 64 ? 64 : len;
	uint8_t* p = malloc(n ? n : 1);
	memcpy(p, src, n);
	bool r = append ? as_bytes_append(B, p, len) : as_bytes_set(B, ix, p, len);
	free(p);
	return r;
}

static uint32_t
do_get(uint32_t ix, uint8_t* dst, uint32_t len)
{
	uint32_t n = len > 64 ? 64 : len;
	uint8_t* p = malloc(n ? n : 1);
	memset(p, 0xEE, n);
	uint32_t r = as_bytes_copy(B, ix, p, len);
	if (r == 0) {
		/* a refused read leaves the target alone */
		for (uint32_t j = 0; j < n; j++) if (p[j] != 0xEE) r = 999;
	}
	memcpy(dst, p, n);
	free(p);
	return r;
}

static uint32_t
rnd_ix(void)
{
	uint32_t c = as_bytes_capacity(B);
	switch (vh_below(12)) {
	case 0: return 0xFFFFFFFFu - vh_below(10);
	case 1: return 0x80000000u + vh_below(3) - 1;
	case 2: return c;
	case 3: return c + vh_below(3);
	case 4: return as_bytes_size(B);
	default: return vh_below(c + 2);
	}
}

static void
random_scenario(uint32_t len)
{
	static const uint32_t caps[] = { 0, 1, 2, 3, 8, 9, 20, 40 };
	uint32_t cap = caps[vh_below(8)];
	int store = (int)vh_below(5);
	MAKE(store, cap);
	evp("{\"o\":\"init\",\"cap\":%u,\"wrap\":%d,", cap, store >= 3);
	evbytes("w", WB, store >= 3 ? cap : 0);
	obs();
	for (uint32_t i = 0; i < len; i++) {
		uint8_t buf[64];
		for (int j = 0; j < 64; j++) buf[j] = (uint8_t)vh_next();
		uint32_t op = vh_below(100);
		if (op < 20) {
			uint32_t ix = rnd_ix();
			uint32_t n = vh_chance(10) ? 0xFFFFFFFFu - vh_below(8) : vh_chance(5) ? -ix + vh_below(4) : 1 + vh_below(6);
			if (n == 0) n = 1;
			bool r = do_set(ix, buf, n, false);
			evp("{\"o\":\"set\",\"ix\":%u,\"len\":%u,\"r\":%d,", clamp(ix), clamp(n), r);
			evbytes("w", buf, n > 64 ? 0 : n);
			obs();
		}
		else if (op < 35) {
			/* typed writes */
			uint32_t ix = rnd_ix(), n;
			bool r, app = vh_chance(40);
			int16_t i16; int32_t i32; int64_t i64; double d;
			memcpy(&i16, buf, 2); memcpy(&i32, buf, 4); memcpy(&i64, buf, 8); memcpy(&d, buf, 8);
			switch (vh_below(5)) {
			case 0: n = 1; r = app ? as_bytes_append_byte(B, buf[0]) : as_bytes_set_byte(B, ix, buf[0]); break;
			case 1: n = 2; r = app ? as_bytes_append_int16(B, i16) : as_bytes_set_int16(B, ix, i16); break;
			case 2: n = 4; r = app ? as_bytes_append_int32(B, i32) : as_bytes_set_int32(B, ix, i32); break;
			case 3: n = 8; r = app ? as_bytes_append_int64(B, i64) : as_bytes_set_int64(B, ix, i64); break;
			default:
				/* a signalling NaN may be quieted in a register: use a plain number */
				d = (double)i32; memcpy(buf, &d, 8);
				n = 8; r = app ? as_bytes_append_double(B, d) : as_bytes_set_double(B, ix, d); break;
			}
			evp("{\"o\":\"%s\",\"ix\":%u,\"len\":%u,\"r\":%d,", app ? "app" : "set", clamp(ix), n, r);
			evbytes("w", buf, n);
			obs();
		}
		else if (op < 45) {
			uint32_t n = vh_chance(10) ? 0xFFFFFFFFu - vh_below(20) : 1 + vh_below(6);
			bool r = do_set(0, buf, n, true);
			evp("{\"o\":\"app\",\"ix\":0,\"len\":%u,\"r\":%d,", clamp(n), r);
			evbytes("w", buf, n > 64 ? 0 : n);
			obs();
		}
		else if (op < 60) {
			uint32_t ix = rnd_ix();
			uint32_t n = vh_chance(10) ? 0xFFFFFFFFu - vh_below(8) : vh_chance(8) ? -ix + vh_below(4) : vh_below(7);
			uint32_t r = do_get(ix, buf, n);
			evp("{\"o\":\"get\",\"ix\":%u,\"len\":%u,\"r\":%u,", clamp(ix), clamp(n), r);
			evbytes("w", buf, r > 64 ? 0 : r);
			obs();
		}
		else if (op < 72) {
			uint32_t ix = rnd_ix(), n, r;
			uint8_t o[8];
			memset(o, 0xEE, 8);
			int16_t i16 = (int16_t)0xEEEE; int32_t i32 = 0xEEEEEEEE; int64_t i64; double d;
			memcpy(&i64, o, 8); memcpy(&d, o, 8);
			switch (vh_below(5)) {
			case 0: n = 1; r = as_bytes_get_byte(B, ix, o); break;
			case 1: n = 2; r = as_bytes_get_int16(B, ix, &i16); memcpy(o, &i16, 2); break;
			case 2: n = 4; r = as_bytes_get_int32(B, ix, &i32); memcpy(o, &i32, 4); break;
			case 3: n = 8; r = as_bytes_get_int64(B, ix, &i64); memcpy(o, &i64, 8); break;
			default: n = 8; r = as_bytes_get_double(B, ix, &d); memcpy(o, &d, 8); break;
			}
			evp("{\"o\":\"get\",\"ix\":%u,\"len\":%u,\"r\":%u,", clamp(ix), n, r);
			evbytes("w", o, r > 8 ? 0 : r);
			obs();
		}
		else if (op < 80) {
			uint32_t ix = rnd_ix();
			uint32_t v = (uint32_t)vh_next() >> vh_below(32);
			if (vh_chance(30)) v = ((uint32_t)1 << (7 * vh_below(5))) - vh_below(2);
			uint32_t r = as_bytes_set_var_int(B, ix, v);
			evp("{\"o\":\"setv\",\"ix\":%u,\"v\":[%u,%u],\"r\":%u", clamp(ix), v >> 16, v & 0xFFFF, r);
			obs();
			if (r) {
				uint32_t g = 0;
				r = as_bytes_get_var_int(B, ix, &g);
				evp("{\"o\":\"getv\",\"ix\":%u,\"v\":[%u,%u],\"r\":%u", clamp(ix), g >> 16, g & 0xFFFF, r);
				obs();
			}
		}
		else if (op < 86) {
			uint32_t ix = rnd_ix(), g = 0;
			if (store == 2 && ix >= as_bytes_size(B)) continue;	/* uninitialised stack bytes */
			uint32_t r = as_bytes_get_var_int(B, ix, &g);
			evp("{\"o\":\"getv\",\"ix\":%u,\"v\":[%u,%u],\"r\":%u", clamp(ix), g >> 16, g & 0xFFFF, r);
			obs();
		}
		else if (op < 93) {
			uint32_t n = vh_chance(10) ? 0xFFFFFFFFu - vh_below(4) : vh_below(as_bytes_size(B) + 3);
			bool r = as_bytes_truncate(B, n);
			evp("{\"o\":\"trunc\",\"len\":%u,\"r\":%d", clamp(n), r);
			obs();
		}
		else {
			uint32_t cap2 = as_bytes_capacity(B) + vh_below(9);
			if (cap2 >= 4 && vh_chance(50)) cap2 -= 4;
			if (cap2 > 90) cap2 = 90;
			bool rs = vh_chance(70);
			bool r = as_bytes_ensure(B, cap2, rs);
			evp("{\"o\":\"ensure\",\"cap\":%u,\"rs\":%d,\"r\":%d", cap2, rs, r);
			obs();
		}
	}
	unmake(store);
}

static void
script_one(char* line)
{
	char* save;
	uint32_t cap = (uint32_t)atoi(strtok_r(line, " \n", &save));
	int store = atoi(strtok_r(NULL, " \n", &save));
	MAKE(store, cap);
	ev("{\"o\":\"init\"}");
	char* t;
	int step = 0;
	while ((t = strtok_r(NULL, " \n", &save))) {
		char op[8];
		uint32_t ix, n;
		uint8_t buf[64];
		sscanf(t, "%7[a-z]:%u:%u", op, &ix, &n);
		step++;
		for (int j = 0; j < 64; j++) buf[j] = (uint8_t)(step * 16 + j + 1);
		/* far values wrap around 32 bits when added to the other */
		if (ix == FAR) ix = 0xFFFFFFFFu;
		if (n == FAR) n = 0xFFFFFFFFu;
		uint32_t r;
		if (! strcmp(op, "set")) r = do_set(ix, buf, n, false);
		else if (! strcmp(op, "app")) r = do_set(ix, buf, n, true);
		else if (! strcmp(op, "get")) r = do_get(ix, buf, n);
		else if (! strcmp(op, "trunc")) r = as_bytes_truncate(B, n);
		else r = as_bytes_ensure(B, n, ! strcmp(op, "grow"));
		evp("{\"o\":\"%s\",\"r\":%u,", op, r);
		evbytes("w", buf, ! strcmp(op, "get") && r < 64 ? r : 0);
		obs();
	}
	unmake(store);
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		for (int s = atoi(argv[3]); s > 0; s--) random_scenario((uint32_t)atoi(argv[4]));
	}
	else {
		FILE* f = fopen(argv[2], "r");
		if (! f) MISUSE("no script\n");
		char line[4096];
		while (fgets(line, sizeof(line), f)) script_one(line);
		fclose(f);
	}
	vh_close();
	return 0;
}
