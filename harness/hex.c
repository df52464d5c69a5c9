/* Drives the hex conversions.
 *   hex random SEED N OUT | hex script IN OUT | hex huge OUT
 * Script lines: p PRE ROOM BYTE... | s ROOM CHAR...  */
#include <aerospike/as_bytes.h>
#include <sys/mman.h>
#include "vh.h"

static void
print_(const uint8_t* src, uint32_t n, uint32_t room, int pre)
{
	uint8_t* b = malloc(n ? n : 1);
	memcpy(b, src, n);
	char* s = malloc(room);	/* exact size: one byte beyond is caught */
	memset(s, 'z', room);
	bool r = pre ? as_bytes_to_string_with_prefix(b, n, s, room) : as_bytes_to_string(b, n, s, room);
	evp("{\"o\":\"p\",\"room\":%u,\"pre\":%d,\"r\":%d,", room, pre, r);
	evbytes("b", b, n);
	evp(",");
	uint32_t len = 0;
	while (len < room && s[len]) len++;
	if (room && len == room) { s[0] = '!'; len = 1; }	/* no terminator */
	evbytes("t", (uint8_t*)s, len);
	ev("}");
	free(b);
	free(s);
}

static void
parse_(const char* t, uint32_t room)
{
	uint8_t* b = malloc(room);
	char* s = malloc(strlen(t) + 1);
	strcpy(s, t);
	int r = as_bytes_from_string(b, room, s);
	evp("{\"o\":\"s\",\"room\":%u,\"r\":%d,", room, r);
	evbytes("t", (uint8_t*)s, strlen(s));
	evp(",");
	evbytes("b", b, r > 0 && (uint32_t)r <= room ? (uint32_t)r : 0);
	ev("}");
	free(b);
	free(s);
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "huge")) {
		/* two gigabytes and more of source, tiny targets */
		size_t n = (size_t)1 << 32;
		uint8_t* p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) MISUSE("mmap\n");
		uint32_t sizes[] = { 0x80000000u, 0x7FFFFFFFu, 0x80000001u, 0xFFFFFFFFu };
		for (int k = 0; k < 4; k++) {
			for (uint32_t room = 0; room < 5; room++) {
				char* s = malloc(room);
				int r = as_bytes_to_string(p, sizes[k], s, room) | as_bytes_to_string_with_prefix(p, sizes[k], s, room) << 1;
				if (r) { fprintf(stderr, "accepted %u bytes into %u\n", sizes[k], room); exit(4); }
				if (room && s[0]) { fprintf(stderr, "not empty\n"); exit(4); }
				free(s);
			}
		}
	}
	else if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		for (int k = atoi(argv[3]); k > 0; k--) {
			if (vh_chance(50)) {
				uint8_t b[80];
				uint32_t n = vh_below(vh_chance(20) ? 80 : 10);
				for (uint32_t j = 0; j < n; j++) b[j] = (uint8_t)vh_next();
				uint32_t need = 2 * n + 1;
				print_(b, n, vh_chance(50) ? need + vh_below(5) : vh_below(need + 3), vh_chance(50));
			}
			else {
				static const char abc[] = "0123456789abcdefABCDEF";
				char t[80];
				uint32_t n = vh_below(vh_chance(20) ? 79 : 12);
				for (uint32_t j = 0; j < n; j++) t[j] = abc[vh_below(22)];
				if (n >= 2 && vh_chance(40)) { t[0] = '0'; t[1] = vh_chance(80) ? 'x' : 'X'; }
				if (n && vh_chance(20)) t[vh_below(n)] = (char)(1 + vh_below(255));
				t[n] = 0;
				parse_(t, vh_chance(50) ? n / 2 : vh_below(n + 2));
			}
		}
	}
	else {
		FILE* f = fopen(argv[2], "r");
		if (! f) MISUSE("no script\n");
		char line[4096];
		while (fgets(line, sizeof(line), f)) {
			char* save;
			char* k = strtok_r(line, " \n", &save);
			int pre = *k == 'p' ? atoi(strtok_r(NULL, " \n", &save)) : 0;
			uint32_t room = (uint32_t)atoi(strtok_r(NULL, " \n", &save));
			uint8_t b[64];
			uint32_t n = 0;
			char* t;
			while ((t = strtok_r(NULL, " \n", &save))) b[n++] = (uint8_t)atoi(t);
			b[n] = 0;
			if (*k == 'p') print_(b, n, room, pre);
			else parse_((char*)b, room);
		}
		fclose(f);
	}
	vh_close();
	return 0;
}
