/* Prints values.   print random SEED N OUT | print sweep LO HI OUT | print script IN OUT */
#include "val.h"

static void
show(const vn* v)
{
	as_val* a = vn_build(v);
	char* s = as_val_tostring(a);
	evp("{\"o\":\"init\",\"v\":");
	ev_vn(v);
	evp(",\"r\":%d,", s ? 1 : 0);
	evbytes("w", (uint8_t*)s, s ? strlen(s) : 0);
	ev("}");
	free(s);
	/* printing does not change the value */
	char* s2 = as_val_tostring(a);
	if ((s == NULL) != (s2 == NULL)) ev("{\"o\":\"init\",\"v\":{\"t\":\"nil\"},\"r\":0,\"w\":[]}");
	free(s2);
	as_val_destroy(a);
}

static vn*
text(uint32_t n)
{
	vn* v = vn_new('S');
	v->b = malloc(n + 1);
	memset(v->b, 'a' + n % 26, n);
	v->b[n] = 0;
	v->n = n;
	return v;
}

/* containers whose text is about n long in every position of the growth steps */
static void
sweep(uint32_t n)
{
	for (int kind = 0; kind < 6; kind++) {
		vn* v = vn_new(kind < 3 ? 'L' : kind < 5 ? 'M' : 'P');
		v->e = calloc(16, sizeof(vn*));
		uint32_t a = vh_below(n + 1), b = n - a;
		switch (kind) {
		case 0: v->n = 1; v->e[0] = text(n); break;
		case 1: v->n = 2; v->e[0] = text(a); v->e[1] = text(b); break;
		case 2: v->n = 4; v->e[0] = text(a); v->e[1] = vn_int(7); v->e[2] = text(b); v->e[3] = vn_text('B', 4, NULL, 0); break;
		case 3: v->n = 1; v->e[0] = text(a); v->e[1] = text(b); break;
		case 4: v->n = 2; v->e[0] = vn_int(1); v->e[1] = text(a); v->e[2] = text(b); v->e[3] = vn_int(2); break;
		case 5: v->e[0] = text(a); v->e[1] = text(b); break;
		}
		show(v);
		vn_free(v);
	}
}

int
main(int argc, char** argv)
{
	if (argc >= 5 && ! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		vh_open(argv[4]);
		for (int k = atoi(argv[3]); k > 0; k--) {
			vn* v = rnd_vn(VN_PAIR | VN_NONE | VN_WILD | VN_QUARTER | VN_FLAGS, (int)vh_below(5), 0);
			show(v);
			vn_free(v);
		}
	}
	else if (argc >= 5 && ! strcmp(argv[1], "sweep")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		vh_open(argv[4]);
		for (uint32_t n = (uint32_t)atoi(argv[2]); n < (uint32_t)atoi(argv[3]); n++) sweep(n);
	}
	else if (argc >= 4 && ! strcmp(argv[1], "script")) {
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		char* line = NULL;
		size_t cap = 0;
		while (getline(&line, &cap, f) > 0) {
			char* p = line;
			vn* v = vn_parse(&p);
			show(v);
			vn_free(v);
		}
		free(line);
		fclose(f);
	}
	else return 3;
	vh_close();
	return 0;
}
