/* Drives as_string, as_geojson, as_strncpy and as_basename.
 *   str random SEED N OUT | str script IN OUT */
#include <aerospike/as_string.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_val.h>
#include "vh.h"

static char*
dup_(const char* s)
{
	char* p = malloc(strlen(s) + 1);
	strcpy(p, s);
	return p;
}

static void
base_(const char* path)
{
	char* p = dup_(path);
	as_string h;
	const char* r = as_basename(&h, p);
	bool same = r == as_string_get(&h);
	evp("{\"o\":\"base\",");
	evbytes("t", (const uint8_t*)p, strlen(p));
	evp(",");
	evbytes("w", (const uint8_t*)(same ? r : "!"), same ? strlen(r) : 1);
	ev(",\"n\":%zu}", as_string_len(&h));
	as_string_destroy(&h);
	free(p);
}

static void
copy_(const char* src, int size)
{
	char* s = dup_(src);
	char* t = malloc(size);
	memset(t, 'z', size);
	bool r = as_strncpy(t, s, size);
	int n = 0;
	while (n < size && t[n]) n++;
	if (n == size) { t[0] = 1; n = 1; }	/* no terminator */
	evp("{\"o\":\"copy\",\"n\":%d,\"r\":%d,", size, r);
	evbytes("t", (uint8_t*)s, strlen(s));
	evp(",");
	evbytes("w", (uint8_t*)t, n);
	ev("}");
	free(s);
	free(t);
}

static void
rnd_text(char* t, uint32_t max)
{
	uint32_t n = vh_below(max);
	for (uint32_t j = 0; j < n; j++) t[j] = vh_chance(50) ? 'a' + vh_below(3) : (char)(1 + vh_below(255));
	t[n] = 0;
}

static void
value_(const char* text, int fresh)
{
	int geo = vh_below(2), how = (int)vh_below(5);
	as_string ss, *s = NULL;
	as_geojson sg, *g = NULL;
	char* keep = NULL;
	size_t len = strlen(text);
	/* 0 dup, 1 new + own, 2 new_wlen + own, 3 init borrowed, 4 init_wlen borrowed/owned */
	bool own = how == 4 && vh_chance(50);
	char* p = how ? dup_(text) : NULL;
	if (how == 3 || (how == 4 && ! own)) keep = p;
	if (geo) {
		switch (how) {
		case 0: g = as_geojson_new_strdup(text); break;
		case 1: g = as_geojson_new(p, true); break;
		case 2: g = as_geojson_new_wlen(p, len, true); break;
		case 3: g = as_geojson_init(&sg, p, false); break;
		case 4: g = as_geojson_init_wlen(&sg, p, len, own); break;
		}
	}
	else {
		switch (how) {
		case 0: s = as_string_new_strdup(text); break;
		case 1: s = as_string_new(p, true); break;
		case 2: s = as_string_new_wlen(p, len, true); break;
		case 3: s = as_string_init(&ss, p, false); break;
		case 4: s = as_string_init_wlen(&ss, p, len, own); break;
		}
	}
	evp("{\"o\":\"init\",\"fresh\":%d,", fresh);
	evbytes("t", (const uint8_t*)text, len);
	ev("}");
	as_val* v = geo ? (as_val*)g : (as_val*)s;
	for (int k = 0; k < 5; k++) {
		switch (vh_below(4)) {
		case 0: ev("{\"o\":\"len\",\"r\":%zu}", geo ? as_geojson_len(g) : as_string_len(s)); break;
		case 1: {
			const char* x = geo ? as_geojson_get(g) : vh_chance(50) ? as_string_get(s) : as_string_tostring(s);
			evp("{\"o\":\"text\",");
			evbytes("w", (const uint8_t*)x, strlen(x));
			ev("}");
			break;
		}
		case 2: {
			char* x = as_val_tostring(v);
			evp("{\"o\":\"str\",");
			evbytes("w", (uint8_t*)(x ? x : ""), x ? strlen(x) : 0);
			ev("}");
			free(x);
			break;
		}
		case 3: {
			uint32_t h = as_val_hashcode(v);
			ev("{\"o\":\"hash\",\"h\":[%u,%u]}", h >> 16, h & 0xFFFF);
			break;
		}
		}
	}
	as_val_destroy(v);
	free(keep);
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		char t[4][120];
		for (int k = 0; k < atoi(argv[3]); k++) {
			if (k % 40 == 0) {
				for (int j = 0; j < 4; j++) rnd_text(t[j], j < 2 ? 5 : 119);
			}
			value_(t[vh_below(4)], k % 40 == 0);
			char p[120];
			rnd_text(p, vh_chance(50) ? 12 : 119);
			for (char* q = p; *q; q++) if (vh_chance(25)) *q = vh_chance(50) ? '/' : '\\';
			base_(p);
			rnd_text(p, 30);
			copy_(p, 1 + (int)vh_below(34));
		}
	}
	else {
		FILE* f = fopen(argv[2], "r");
		if (! f) MISUSE("no script\n");
		char line[4096];
		while (fgets(line, sizeof(line), f)) {
			char* save;
			char* k = strtok_r(line, " \n", &save);
			int n = atoi(strtok_r(NULL, " \n", &save));
			char b[128];
			uint32_t len = 0;
			char* t;
			while ((t = strtok_r(NULL, " \n", &save))) b[len++] = (char)atoi(t);
			b[len] = 0;
			if (*k == 'b') base_(b);
			else copy_(b, n);
		}
		fclose(f);
	}
	vh_close();
	return 0;
}
