/* Records password hashes at the lowest cost, other spellings of their
 * settings, refused settings, and the fixed setting.
 *   password hash SEED N OUT | password bad SEED N OUT | password fixed SEED N OUT | password cost COST SEED OUT */
#include <aerospike/as_password.h>
#include "vh.h"

static const char letters[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

static void
texts(const char* name, const char* t)
{
	evbytes(name, (const uint8_t*)t, strlen(t));
}

static char*
copy(const char* t)
{
	char* c = malloc(strlen(t) + 1);
	return strcpy(c, t);
}

static void
secret(char* p)
{
	static const uint8_t odd[] = { 0xff, 0xa3, 0x80, 0x7f, 1, 0xfe, 0xff, 0xff };
	uint32_t n = vh_chance(60) ? vh_below(14) : 60 + vh_below(24);
	if (vh_chance(10)) n = 71 + vh_below(3);
	int how = vh_below(4);
	for (uint32_t k = 0; k < n; k++) {
		p[k] = (char)(how == 0 ? odd[vh_below(8)] : how == 1 ? 1 + vh_below(255) : 33 + vh_below(90));
	}
	p[n] = 0;
	if (vh_chance(15)) {
		/* both readings of the characters agree */
		uint32_t w = 1 + vh_below(3);
		for (uint32_t k = 0; k < w; k++) {
			p[4 * k] = (char)0xff;
			p[4 * k + 1] = (char)(vh_chance(50) ? 0xa3 : 0xff);
			p[4 * k + 2] = p[4 * k + 1] == (char)0xff ? (char)0xff : '3';
			p[4 * k + 3] = p[4 * k + 1] == (char)0xff ? (char)0xa3 : '4';
		}
		strcpy(p + 4 * w, "345");
	}
}

static void
salting(char* s, const char* head)
{
	strcpy(s, head);
	for (int k = 7; k < 29; k++) s[k] = letters[vh_below(64)];
	s[29] = 0;
}

static void
hash(const char* o, const char* p, const char* s, char* out)
{
	char* h = malloc(AS_PASSWORD_HASH_SIZE);
	memset(h, 'z', AS_PASSWORD_HASH_SIZE);
	char* cp = copy(p);
	char* cs = copy(s);
	int r = as_password_gen_hash(cp, cs, h);
	evp("{\"o\":\"%s\",\"r\":%d,", o, r);
	texts("p", p);
	evp(",");
	texts("s", s);
	evp(",");
	if (! r) h[0] = 0;
	h[AS_PASSWORD_HASH_SIZE - 1] = 0;
	texts("h", h);
	ev("}");
	if (out) strcpy(out, h);
	free(cp);
	free(cs);
	free(h);
}

int
main(int argc, char** argv)
{
	char p[128], s[128], h[128];
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "cost")) {
		vh_seed(strtoul(argv[3], NULL, 10));
		secret(p);
		sprintf(h, "$2%c$%02d$", vh_chance(70) ? 'a' : 'y', atoi(argv[2]));
		salting(s, h);
		hash("init", p, s, h);
		vh_close();
		return 0;
	}
	vh_seed(strtoul(argv[2], NULL, 10));
	for (uint32_t n = strtoul(argv[3], NULL, 10); n > 0; n--) {
		secret(p);
		if (! strcmp(argv[1], "hash")) {
			salting(s, vh_chance(60) ? "$2a$04$" : vh_chance(60) ? "$2y$04$" : "$2x$04$");
			hash("init", p, s, h);
			char keep[128];
			strcpy(keep, h);
			if (strlen(h) == 60) {
				hash("again", p, h, h);		/* the hash itself as setting */
				/* other spellings of the last letter, and text after it */
				char t[128];
				strcpy(t, s);
				const char* at = strchr(letters, s[28]);
				int c = at ? (int)(at - letters) : 0;
				t[28] = letters[(c & 0x30) | vh_below(16)];
				if (vh_chance(50)) strcpy(t + 29, "$rest");
				hash("again", p, t, h);
			}
			char* x = copy(keep);
			char* y = copy(vh_chance(50) ? h : keep);
			if (vh_chance(60) && *y) y[vh_below((uint32_t)strlen(y))] ^= (char)(1 << vh_below(7));
			evp("{\"o\":\"same\",\"r\":%d,", as_password_verify(x, y));
			texts("a", x);
			evp(",");
			texts("b", y);
			ev("}");
			free(x);
			free(y);
			char* made = malloc(AS_PASSWORD_HASH_SIZE);
			int r = as_password_gen_salt(made);
			evp("{\"o\":\"salt\",\"r\":%d,", r);
			texts("s", made);
			ev("}");
			free(made);
		}
		else if (! strcmp(argv[1], "bad")) {
			salting(s, "$2a$04$");
			switch (vh_below(4)) {
			case 0: s[vh_below(29)] = 0; break;
			case 1: s[vh_below(4)] = (char)(1 + vh_below(255)); break;
			case 2: s[6 + vh_below(23)] = (char)(1 + vh_below(255)); break;
			default:
				s[4] = (char)(vh_chance(50) ? '0' + vh_below(12) - 1 : 1 + vh_below(255));
				s[5] = (char)(vh_chance(50) ? '0' + vh_below(12) - 1 : 1 + vh_below(255));
				if (s[4] >= '0' && s[4] <= '3' && s[5] >= '0' && s[5] <= '9' && (s[4] - '0') * 10 + (s[5] - '0') > 5 && (s[4] - '0') * 10 + (s[5] - '0') < 32) {
					s[4] = '0';		/* not that long */
					s[5] = '3';
				}
			}
			hash("bad", p, s, NULL);
		}
		else {
			/* at the fixed setting every function gives what the general one gives */
			char* f = malloc(AS_PASSWORD_HASH_SIZE);
			int what = vh_below(4);
			if (what == 0) p[0] = 0;
			if (what == 3 && ! p[0]) strcpy(p, "x");
			if (what == 3) p[AS_PASSWORD_HASH_SIZE - 1] = 0;	/* longer ones are cut */
			int r = what == 0 ? as_password_get_constant_hash(NULL, f) : what == 1 ? as_password_get_constant_hash(p, f) :
				what == 2 ? as_password_gen_constant_hash(p, f) : as_password_prompt_hash(p, f);
			char* g = malloc(AS_PASSWORD_HASH_SIZE);
			as_password_gen_hash(p, "$2a$10$7EqJtq98hPqEX7fNZaFWoO", g);
			evp("{\"o\":\"const\",\"r\":%d,\"what\":%d,", r, what);
			texts("h", f);
			evp(",");
			texts("g", g);
			ev("}");
			free(f);
			free(g);
		}
	}
	vh_close();
	return 0;
}
