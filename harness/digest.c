/* Records digests over exactly sized, arbitrarily placed inputs.
 *   digest random SEED N OUT
 *   digest splits SEED LEN OUT     every split of LEN bytes in two, and in three around block ends
 *   digest zeros WHICH HOW OUT     very long inputs: WHICH sha|rmd|fed, HOW 1 (2^29 + 5) or 2 (2^32 + 3) */
#include <citrusleaf/cf_crypto.h>
#include <citrusleaf/cf_digest.h>
#include <sys/mman.h>
#include "vh.h"

static uint8_t*
placed(const uint8_t* src, size_t n, uint8_t** m)
{
	size_t off = vh_chance(50) ? 0 : vh_below(16);
	*m = malloc(off + n);
	if (n) memcpy(*m + off, src, n);
	return *m + off;
}

static void
result(const uint8_t* r, size_t n)
{
	evp(",");
	evbytes("r", r, n);
	ev("}");
}

static void
ok(int r)
{
	if (r) { fprintf(stderr, "digest refused: %d\n", r); exit(4); }
}

static void
whole(const uint8_t* src, size_t n)
{
	uint8_t* m;
	uint8_t* b = placed(src, n, &m);
	uint8_t* d = malloc(20);
	memset(d, 0xEE, 20);
	ok(cf_RIPEMD160(b, n, d));
	evp("{\"o\":\"rmd\",");
	evbytes("b", src, n);
	result(d, 20);
	cf_SHA1(b, n, d);
	evp("{\"o\":\"sha\",");
	evbytes("b", src, n);
	result(d, 20);
	cf_digest* g = malloc(sizeof(cf_digest));
	cf_digest_compute(b, n, g);
	evp("{\"o\":\"dig\",");
	evbytes("b", src, n);
	result(g->digest, 20);
	char* t = malloc(2 + 2 * CF_DIGEST_KEY_SZ + 1);
	cf_digest_string(g, t);
	evp("{\"o\":\"text\",");
	evbytes("b", g->digest, 20);
	result((uint8_t*)t, strlen(t));
	free(t);
	if (memcmp(b, src, n)) { fprintf(stderr, "digested bytes were changed\n"); exit(4); }
	free(g);
	free(d);
	free(m);
}

static void
two(const uint8_t* src, size_t n1, size_t n2)
{
	uint8_t* m1;
	uint8_t* m2;
	uint8_t* a = placed(src, n1, &m1);
	uint8_t* b = placed(src + n1, n2, &m2);
	cf_digest* g = malloc(sizeof(cf_digest));
	cf_digest_compute2(a, n1, b, n2, g);
	evp("{\"o\":\"two\",");
	evbytes("b", src, n1);
	evp(",");
	evbytes("c", src + n1, n2);
	result(g->digest, 20);
	free(g);
	free(m1);
	free(m2);
}

static void
fed(const uint8_t* src, const size_t* cut, int pieces)
{
	cf_RIPEMD160_CTX* c = malloc(sizeof(cf_RIPEMD160_CTX));
	memset(c, vh_below(256), sizeof(*c));
	ok(cf_RIPEMD160_Init(c));
	ev("{\"o\":\"init\"}");
	for (int k = 0; k < pieces; k++) {
		uint8_t* m;
		uint8_t* b = placed(src, cut[k], &m);
		ok(cf_RIPEMD160_Update(c, b, cut[k]));
		evp("{\"o\":\"feed\",");
		evbytes("b", src, cut[k]);
		ev("}");
		memset(b, 0xAA, cut[k]);	/* the bytes are not needed any more */
		free(m);
		src += cut[k];
	}
	uint8_t* d = malloc(20);
	ok(cf_RIPEMD160_Final(d, c));
	evp("{\"o\":\"final\"");
	result(d, 20);
	free(d);
	free(c);
}

int
main(int argc, char** argv)
{
	static uint8_t b[8192];
	size_t cut[32];
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "zeros")) {
		int how = atoi(argv[3]);
		size_t n = how == 1 ? ((size_t)1 << 29) + 5 : ((size_t)1 << 32) + 3;
		uint8_t* p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) MISUSE("mmap\n");
		uint8_t d[20];
		if (! strcmp(argv[2], "sha")) {
			cf_SHA1(p, n, d);
		}
		else if (! strcmp(argv[2], "rmd")) {
			ok(cf_RIPEMD160(p, n, d));
		}
		else {
			cf_RIPEMD160_CTX c;
			ok(cf_RIPEMD160_Init(&c));
			for (size_t at = 0, k; at < n; at += k) {
				k = n - at < 100000007 ? n - at : 100000007;
				ok(cf_RIPEMD160_Update(&c, p + at, k));
			}
			ok(cf_RIPEMD160_Final(d, &c));
		}
		evp("{\"o\":\"zeros\",\"f\":\"%s\",\"k\":%d", argv[2][0] == 's' ? "sha" : "rmd", how);
		result(d, 20);
		vh_close();
		return 0;
	}
	vh_seed(strtoul(argv[2], NULL, 10));
	for (size_t k = 0; k < sizeof(b); k++) b[k] = (uint8_t)vh_next();
	size_t len = strtoul(argv[3], NULL, 10);
	if (! strcmp(argv[1], "splits")) {
		whole(b, len);
		for (size_t k = 0; k <= len; k++) {
			two(b, k, len - k);
			cut[0] = k;
			cut[1] = 0;
			cut[2] = len - k;
			fed(b, cut, 3);
		}
		for (size_t k = 0; k + 1 < len; k += 1 + vh_below(9)) {
			cut[0] = k;
			cut[1] = (64 - k % 64) + vh_below(3) - 1;
			if (k + cut[1] > len) continue;
			cut[2] = len - k - cut[1];
			fed(b, cut, 3);
		}
	}
	else {
		for (; len > 0; len--) {
			const uint8_t* s = b + vh_below(4096);
			size_t n = vh_chance(60) ? vh_below(140) : vh_below(400);
			int what = vh_below(3);
			if (what == 0) {
				whole(s, n);
			}
			else if (what == 1) {
				size_t k = vh_chance(20) ? 0 : vh_below(n + 1);
				two(s, k, n - k);
			}
			else {
				int pieces = 1 + vh_below(8);
				size_t total = 0;
				for (int k = 0; k < pieces; k++) {
					cut[k] = vh_chance(20) ? 0 : vh_chance(30) ? 64 * vh_below(3) : vh_chance(30) ? 55 + vh_below(11) : vh_below(70);
					total += cut[k];
				}
				fed(s, cut, pieces);
			}
			cf_digest x, y;
			memcpy(x.digest, s, 20);
			memcpy(y.digest, s, 20);
			if (vh_chance(80)) y.digest[vh_below(20)] = (uint8_t)vh_next();
			if (vh_chance(40)) y.digest[vh_below(20)] = (uint8_t)vh_next();
			evp("{\"o\":\"cmp\",");
			evbytes("b", x.digest, 20);
			evp(",");
			evbytes("c", y.digest, 20);
			ev(",\"r\":%d}", cf_digest_compare(&x, &y));
		}
	}
	vh_close();
	return 0;
}
