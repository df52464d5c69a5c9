/* Drives iterators and callback visits over lists and maps.
 *   iter random SEED SCENARIOS LEN OUT | iter script IN OUT
 * Element j is the j-th in order; lists hold j, maps bind key j*3-1000 to j. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_hashmap_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_pair.h>
#include "vh.h"

static bool is_map;
static as_arraylist* L;
static as_orderedmap* M;
static as_arraylist stackL;
static as_orderedmap stackM;

static int
elem(const as_val* v)
{
	as_integer* i = as_integer_fromval(v);
	return i ? (int)as_integer_get(i) : -2;
}

static int
entry(const as_val* k, const as_val* v)
{
	int a = elem(v);
	return elem(k) == a * 3 - 1000 ? a : -3;
}

static void
put(int j)
{
	as_orderedmap_set(M, (as_val*)as_integer_new(j * 3 - 1000), (as_val*)as_integer_new(j));
}

static void
make(bool map, int n, int how)
{
	is_map = map;
	if (! map) {
		L = how & 1 ? as_arraylist_init(&stackL, (uint32_t)(n ? n : 1), 4) : as_arraylist_new(1, 3);
		for (int j = 1; j <= n; j++) as_arraylist_append_int64(L, j);
		return;
	}
	M = how & 1 ? as_orderedmap_init(&stackM, 4) : (as_orderedmap*)as_hashmap_new(4);
	/* a pending hold table, if the map is large enough: top part first */
	int top = n > 1000 ? n - 1000 : 0;
	for (int j = top + 1; j <= n; j++) put(j);
	if (how & 2) for (int j = top; j >= 1; j--) put(j);
	else for (int j = 1; j <= top; j++) put(j);
}

static void
unmake(void)
{
	if (is_map) as_map_destroy((as_map*)M);
	else as_list_destroy((as_list*)L);
}

typedef struct { as_iterator* g; int how; as_list_iterator ls; as_map_iterator ms; } cur_t;
static cur_t C[3];

static void
open_(cur_t* c, int how)
{
	c->how = how % 4;
	if (is_map) {
		switch (c->how) {
		case 0: c->g = (as_iterator*)as_orderedmap_iterator_init((as_orderedmap_iterator*)&c->ms, M); break;
		case 1: c->g = (as_iterator*)as_orderedmap_iterator_new(M); break;
		case 2: c->g = (as_iterator*)as_map_iterator_init(&c->ms, (as_map*)M); break;
		case 3: c->g = (as_iterator*)as_map_iterator_new((as_map*)M); break;
		}
	}
	else {
		switch (c->how) {
		case 0: c->g = (as_iterator*)as_arraylist_iterator_init((as_arraylist_iterator*)&c->ls, L); break;
		case 1: c->g = (as_iterator*)as_arraylist_iterator_new(L); break;
		case 2: c->g = (as_iterator*)as_list_iterator_init(&c->ls, (as_list*)L); break;
		case 3: c->g = (as_iterator*)as_list_iterator_new((as_list*)L); break;
		}
	}
	if (! c->g) { fprintf(stderr, "no iterator\n"); exit(4); }
}

static void
close_(cur_t* c)
{
	if (! c->g) return;
	if (c->how < 2) {
		if (is_map) as_orderedmap_iterator_destroy((as_orderedmap_iterator*)c->g);
		else as_arraylist_iterator_destroy((as_arraylist_iterator*)c->g);
	}
	else {
		as_iterator_destroy(c->g);
	}
	c->g = NULL;
}

static int
has(cur_t* c, int via)
{
	if (via) return as_iterator_has_next(c->g);
	return is_map ? as_orderedmap_iterator_has_next((as_orderedmap_iterator*)c->g)
			: as_arraylist_iterator_has_next((as_arraylist_iterator*)c->g);
}

static int
next_(cur_t* c, int via)
{
	const as_val* v = via ? as_iterator_next(c->g)
			: is_map ? (const as_val*)as_orderedmap_iterator_next((as_orderedmap_iterator*)c->g)
			: as_arraylist_iterator_next((as_arraylist_iterator*)c->g);
	if (! v) return 0;
	if (! is_map) return elem(v);
	as_pair* p = as_pair_fromval(v);
	return p ? entry(as_pair_1(p), as_pair_2(p)) : -4;
}

static int* seen;
static int nseen, refuse;

static bool
on_list(as_val* v, void* ud)
{
	if (ud != (void*)&refuse) return false;
	seen[nseen++] = elem(v);
	return nseen != refuse;
}

static bool
on_map(const as_val* k, const as_val* v, void* ud)
{
	if (ud != (void*)&refuse) return false;
	seen[nseen++] = entry(k, v);
	return nseen != refuse;
}

static int
visit(int k, int via)
{
	refuse = k;
	nseen = 0;
	if (is_map) return via ? as_map_foreach((as_map*)M, on_map, &refuse) : as_orderedmap_foreach(M, on_map, &refuse);
	return via ? as_list_foreach((as_list*)L, on_list, &refuse) : as_arraylist_foreach(L, on_list, &refuse);
}

static void
script(const char* in)
{
	FILE* f = fopen(in, "r");
	if (! f) MISUSE("no script\n");
	char line[4096];
	while (fgets(line, sizeof(line), f)) {
		char* save;
		int map = atoi(strtok_r(line, " \n", &save));
		int n = atoi(strtok_r(NULL, " \n", &save));
		int how = atoi(strtok_r(NULL, " \n", &save));
		make(map, n, how);
		open_(&C[1], how);
		open_(&C[2], how + 1);
		ev("{\"o\":\"init\"}");
		char* t;
		int q = how;
		while ((t = strtok_r(NULL, " \n", &save))) {
			int a = atoi(t + 1);
			int r;
			q++;
			if (t[0] == 'h') r = has(&C[a], q & 1);
			else if (t[0] == 'n') r = next_(&C[a], q & 1);
			else {
				int d = visit(a, q & 1);
				r = nseen * 2 + d;
				for (int j = 0; j < nseen; j++) if (seen[j] != j + 1) r = -1;
			}
			ev("{\"o\":\"%c\",\"r\":%d}", t[0], r);
		}
		close_(&C[1]);
		close_(&C[2]);
		unmake();
	}
	fclose(f);
}

static void
random_scenario(uint32_t len)
{
	static const int sizes[] = { 0, 0, 1, 2, 3, 7, 8, 9, 30, 60 };
	int n = sizes[vh_below(10)];
	if (vh_chance(3)) n = 1001 + (int)vh_below(1200);
	make(vh_chance(50), n, (int)vh_below(4));
	ev("{\"o\":\"init\",\"n\":%d,\"s\":%u}", n, is_map ? as_map_size((as_map*)M) : as_list_size((as_list*)L));
	if (n > 60) len = (uint32_t)n * 2 + len;
	for (uint32_t i = 0; i < len; i++) {
		int c = 1 + (int)vh_below(2);
		uint32_t op = vh_below(100);
		if (! C[c].g || op < 4) {
			close_(&C[c]);
			open_(&C[c], (int)vh_below(4));
			ev("{\"o\":\"open\",\"c\":%d}", c);
		}
		else if (op < 30) {
			int r = has(&C[c], vh_chance(50));
			ev("{\"o\":\"has\",\"c\":%d,\"r\":%d}", c, r);
		}
		else if (op < 90 || (n > 60 && vh_chance(98))) {
			int r = next_(&C[c], vh_chance(50));
			ev("{\"o\":\"next\",\"c\":%d,\"r\":%d}", c, r);
		}
		else {
			int k = vh_chance(40) ? 0 : 1 + (int)vh_below((uint32_t)n + 2);
			int r = visit(k, vh_chance(50));
			evp("{\"o\":\"visit\",\"k\":%d,\"r\":%d,\"seen\":[", k, r);
			for (int j = 0; j < nseen; j++) evp(j ? ",%d" : "%d", seen[j]);
			ev("]}");
		}
	}
	close_(&C[1]);
	close_(&C[2]);
	unmake();
}

int
main(int argc, char** argv)
{
	seen = malloc(sizeof(int) * 100000);
	vh_open(argv[argc - 1]);
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		for (int s = atoi(argv[3]); s > 0; s--) random_scenario((uint32_t)atoi(argv[4]));
	}
	else {
		script(argv[2]);
	}
	vh_close();
	free(seen);
	return 0;
}
