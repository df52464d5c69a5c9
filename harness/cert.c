/* Builds certificates and asks which names they are good for.
 *   cert script IN OUT | cert random SEED N OUT
 * Script lines: n NAMEHEX HOSTFILE | a TEXTHEX ADDRHEX... ; answers one line each. */
#include <aerospike/ssl_util.h>
#include <arpa/inet.h>
#include "vh.h"

typedef struct {
	int type;	/* 'd' dns, 'c' common name, 'i' address, 'm' mail, 'u' uri */
	uint8_t b[64];
	int n;
	int form;	/* of common names: 0 UTF-8, 1 printable, 2 two bytes a character */
} name_t;

static X509*
cert(const name_t* names, int n)
{
	X509* x = X509_new();
	GENERAL_NAMES* gs = sk_GENERAL_NAME_new_null();
	X509_NAME* subj = X509_NAME_new();
	X509_NAME_add_entry_by_txt(subj, "O", MBSTRING_ASC, (const unsigned char*)"other.example", -1, -1, 0);
	for (int k = 0; k < n; k++) {
		const name_t* m = &names[k];
		if (m->type == 'c') {
			uint8_t two[128];
			if (m->form == 2) {
				/* the UTF-8 text in 16-bit characters */
				int j = 0;
				for (int p = 0; p < m->n; ) {
					unsigned ch = m->b[p++];
					if (ch >= 0xC0) ch = (ch & 0x1F) << 6 | (m->b[p++] & 0x3F);
					two[j++] = (uint8_t)(ch >> 8);
					two[j++] = (uint8_t)ch;
				}
				if (! X509_NAME_add_entry_by_NID(subj, NID_commonName, V_ASN1_BMPSTRING, two, j, -1, 0)) MISUSE("cn\n");
			}
			else if (! X509_NAME_add_entry_by_NID(subj, NID_commonName, m->form == 1 ? V_ASN1_PRINTABLESTRING : V_ASN1_UTF8STRING, m->b, m->n, -1, 0)) {
				MISUSE("cn\n");
			}
			continue;
		}
		GENERAL_NAME* g = GENERAL_NAME_new();
		ASN1_STRING* s = ASN1_STRING_type_new(m->type == 'i' ? V_ASN1_OCTET_STRING : V_ASN1_IA5STRING);
		ASN1_STRING_set(s, m->b, m->n);
		GENERAL_NAME_set0_value(g, m->type == 'i' ? GEN_IPADD : m->type == 'm' ? GEN_EMAIL : m->type == 'u' ? GEN_URI : GEN_DNS, s);
		sk_GENERAL_NAME_push(gs, g);
	}
	X509_set_subject_name(x, subj);
	if (sk_GENERAL_NAME_num(gs) > 0 && X509_add1_ext_i2d(x, NID_subject_alt_name, gs, 0, 0) != 1) MISUSE("ext\n");
	X509_NAME_free(subj);
	GENERAL_NAMES_free(gs);
	return x;
}

static int
ask(X509* x, const char* h, int what)
{
	char* t = malloc(strlen(h) + 1);
	strcpy(t, h);
	int r = what == 2 ? as_tls_match_san(x, t) : as_tls_match_name(x, t, what);
	free(t);
	return r;
}

static int
unhex(const char* s, uint8_t* b)
{
	int n = 0;
	for (; s[0] && s[1]; s += 2) {
		unsigned v;
		sscanf(s, "%2x", &v);
		b[n++] = (uint8_t)v;
	}
	return n;
}

static void
script(FILE* f)
{
	static char line[1 << 20];
	static char hosts[100000][8];
	int nh = 0;
	while (fgets(line, sizeof(line), f)) {
		char* w = strtok(line, " \n");
		if (w[0] == 'h') {
			nh = 0;
			while ((w = strtok(NULL, " \n"))) {
				int n = unhex(w, (uint8_t*)hosts[nh]);
				hosts[nh++][n] = 0;
			}
			continue;
		}
		name_t m = { .type = 'd' };
		if (w[0] == 'n') {
			m.n = unhex(strtok(NULL, " \n"), m.b);
			X509* x = cert(&m, 1);
			m.type = 'c';
			X509* y = cert(&m, 1);
			for (int what = 0; what < 5; what++) {
				/* 0,1 by alternative name, 2 alternative name exactly, 3,4 by common name */
				evp("%s[", what ? "," : "{\"r\":[");
				bool first = true;
				for (int k = 0; k < nh; k++) {
					if (ask(what > 2 ? y : x, hosts[k], what > 2 ? what - 3 : what)) {
						evp(first ? "%d" : ",%d", k);
						first = false;
					}
				}
				evp("]");
			}
			ev("]}");
			X509_free(x);
			X509_free(y);
		}
		else {
			char t[32];
			w = strtok(NULL, " \n");
			t[w[0] == '-' ? 0 : unhex(w, (uint8_t*)t)] = 0;
			evp("{\"r\":[");
			bool first = true;
			while ((w = strtok(NULL, " \n"))) {
				m.type = 'i';
				m.n = unhex(w, m.b);
				X509* x = cert(&m, 1);
				evp(first ? "%d" : ",%d", ask(x, t, 2));
				first = false;
				X509_free(x);
			}
			ev("]}");
		}
	}
}

static int
labels(char* t, bool wild)
{
	static const char* l[] = { "a", "b", "Ab", "ab", "www", "x-1", "", "com", "COM", "1", "*" };
	int n = 1 + vh_below(4);
	t[0] = 0;
	if (wild && vh_chance(50)) strcpy(t, vh_chance(80) ? "*." : vh_chance(50) ? "a*." : "*");
	for (int k = 0; k < n; k++) {
		if (k) strcat(t, ".");
		strcat(t, l[vh_below(vh_chance(85) ? 5 : 11)]);
	}
	if (vh_chance(5)) strcat(t, ".");
	if (! t[0]) strcpy(t, "a");
	return (int)strlen(t);
}

static void
address(uint8_t* b, int n)
{
	for (int k = 0; k < n; k++) b[k] = vh_chance(60) ? 0 : vh_chance(50) ? vh_below(16) : (uint8_t)vh_next();
	if (n == 16 && vh_chance(15)) { memset(b, 0, 10); b[10] = b[11] = 0xFF; }
}

/* one of the many spellings, seldom a wrong one */
static void
spelling(const uint8_t* b, int n, char* t)
{
	if (n == 4) {
		sprintf(t, vh_chance(85) ? "%d.%d.%d.%d" : vh_chance(50) ? "%03d.%d.%d.%d" : "%d.%d.%d.0%d", b[0], b[1], b[2], b[3]);
		return;
	}
	int dotted = vh_chance(25), groups = dotted ? 6 : 8;
	int from = -1, to = -1;
	if (vh_chance(70)) {
		for (int tries = 0; tries < 20; tries++) {
			int f = vh_below(groups), e = f;
			while (e < groups && ! b[2 * e] && ! b[2 * e + 1]) e++;
			if (e > f) { from = f; to = f + 1 + vh_below(e - f); break; }
		}
	}
	char* p = t;
	for (int k = 0; k < groups; ) {
		if (k == from) {
			p += sprintf(p, k == 0 || p[-1] != ':' ? "::" : ":");
			k = to;
			continue;
		}
		static const char* how[] = { "%x", "%X", "%04x", "%04X", "%02x", "%x" };
		p += sprintf(p, how[vh_below(6)], b[2 * k] << 8 | b[2 * k + 1]);
		k++;
		if (k < groups || dotted) *p++ = ':';
	}
	if (dotted) p += sprintf(p, "%d.%d.%d.%d", b[12], b[13], b[14], b[15]);
	*p = 0;
}

static void
randomly(uint32_t n)
{
	for (; n > 0; n--) {
		name_t m[8] = { 0 };
		int count = vh_below(vh_chance(90) ? 5 : 8);
		for (int k = 0; k < count; k++) {
			char t[128];
			int what = vh_below(10);
			m[k].type = what < 4 ? 'd' : what < 6 ? 'c' : what < 8 ? 'i' : what == 8 ? 'm' : 'u';
			if (m[k].type == 'i') {
				m[k].n = vh_chance(50) ? 4 : vh_chance(90) ? 16 : 1 + vh_below(20);
				address(m[k].b, m[k].n);
				if (m[k].n > 20) m[k].n = 20;
				continue;
			}
			int len = labels(t, true);
			m[k].form = vh_below(3);
			if (m[k].type == 'c' && m[k].form == 1 && strchr(t, '*')) m[k].form = 0;
			if (m[k].type == 'c' && m[k].form != 1 && vh_chance(25)) {
				strcpy(t + len, "\xC3\xA9.b");
				len += 4;
			}
			memcpy(m[k].b, t, len);
			if (vh_chance(20)) {
				/* a zero inside or at the end */
				int at = vh_chance(50) ? len : vh_below(len + 1);
				memmove(m[k].b + at + 1, m[k].b + at, len - at);
				m[k].b[at] = 0;
				len++;
				if (vh_chance(50)) { memcpy(m[k].b + len, ".evil", 5); len += 5; }
				if (m[k].form == 2) m[k].form = 0;
			}
			m[k].n = len;
		}
		X509* x = cert(m, count);
		evp("{\"o\":\"init\"");
		for (int ty = 0; ty < 3; ty++) {
			bool first = true;
			evp(",\"%s\":[", ty == 0 ? "dns" : ty == 1 ? "cn" : "ip");
			for (int k = 0; k < count; k++) {
				if (m[k].type != "dci"[ty]) continue;
				evp("%s[", first ? "" : ",");
				for (int j = 0; j < m[k].n; j++) evp(j ? ",%u" : "%u", m[k].b[j]);
				evp("]");
				first = false;
			}
			evp("]");
		}
		ev("}");
		for (int k = 4 + vh_below(8); k > 0; k--) {
			char h[160];
			if (count && vh_chance(75)) {
				const name_t* s = &m[vh_below(count)];
				if (s->type == 'i') {
					if (s->n == 4 || s->n == 16) spelling(s->b, s->n, h);
					else strcpy(h, "1.2.3.4");
				}
				else {
					memcpy(h, s->b, s->n);
					h[s->n] = 0;
					if (vh_chance(50) && h[0] == '*' && h[1]) {
						char t[160];
						sprintf(t, "%s%s", vh_chance(80) ? "ab" : vh_chance(50) ? "" : "a.b", h + 1);
						strcpy(h, t);
					}
				}
				int len = (int)strlen(h);
				if (len && vh_chance(20)) h[vh_below(len)] ^= 32;
				if (len && vh_chance(10)) h[len - 1] = 0;
				if (vh_chance(5)) strcat(h, vh_chance(50) ? "." : "a");
			}
			else {
				labels(h, vh_chance(20));
			}
			for (char* p = h; *p; p++) {
				if ((uint8_t)*p < 33 || *p == '\\' || *p == 127) *p = 'q';	/* not in host names */
			}
			if (! h[0]) strcpy(h, "a");
			int what = vh_below(3);
			int r = ask(x, h, what);
			evp(what == 2 ? "{\"o\":\"san\"," : "{\"o\":\"name\",\"w\":%d,", what);
			evbytes("h", (uint8_t*)h, strlen(h));
			ev(",\"r\":%d}", r);
		}
		X509_free(x);
	}
}

int
main(int argc, char** argv)
{
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoul(argv[2], NULL, 10));
		randomly(strtoul(argv[3], NULL, 10));
	}
	else {
		FILE* f = fopen(argv[2], "r");
		if (! f) MISUSE("script\n");
		script(f);
		fclose(f);
	}
	vh_close();
	return 0;
}
