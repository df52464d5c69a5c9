/* Drives cf_ll.  ll random SEED SCENARIOS LEN OUT | ll script IN OUT */
#include <citrusleaf/cf_ll.h>
#include "vh.h"

typedef struct { cf_ll_element e; int id; } node;

static cf_ll ll;
static node* nodes[4096];
static int n_nodes;
static bool has_dtor;
static int gone[4096], n_gone;
static int see[8192], n_see;
static int vds[4096];
static int vend;
static int limit = 0;

static void
dtor(cf_ll_element* e)
{
	node* n = (node*)e;
	gone[n_gone++] = n->id;
	nodes[n->id] = NULL;
	memset(n, 0xDD, sizeof(node));
	free(n);
}

static int
cb(cf_ll_element* e, void* ud)
{
	if (n_see > 8000) WRONG("a visit does not end\n");
	if (ud != (void*)vds) WRONG("not the caller's data\n");
	see[n_see++] = e ? ((node*)e)->id : 0;
	return e ? vds[((node*)e)->id] : vend;
}

static node*
mk(void)
{
	node* n = malloc(sizeof(node));
	n->id = ++n_nodes;
	n->e.next = n->e.prev = (cf_ll_element*)0x11;
	nodes[n->id] = n;
	return n;
}

static void
evl(const char* k, const int* a, int n)
{
	evp(",\"%s\":[", k);
	for (int i = 0; i < n; i++) evp(i ? ",%d" : "%d", a[i]);
	evp("]");
}

#define LIM 2000
static int tmp[LIM + 1];

static void
walk(const char* k, bool fwd)
{
	int n = 0;
	cf_ll_element* e = fwd ? cf_ll_get_head(&ll) : cf_ll_get_tail(&ll);
	while (e && n < LIM) {
		tmp[n++] = ((node*)e)->id;
		e = fwd ? cf_ll_get_next(e) : cf_ll_get_prev(e);
	}
	evl(k, tmp, n);
}

static void
iter(const char* k, bool fwd)
{
	int n = 0;
	cf_ll_iterator* it = cf_ll_getIterator(&ll, fwd);
	cf_ll_element* e;
	while ((e = cf_ll_getNext(it)) != NULL && n < LIM) tmp[n++] = ((node*)e)->id;
	if (n < LIM && cf_ll_getNext(it) != NULL) tmp[n++] = -1;
	cf_ll_releaseIterator(it);
	evl(k, tmp, n);
}

static void
tailpart(void)
{
	evl("gone", gone, n_gone);
	evl("see", see, n_see);
	walk("f", true);
	walk("b", false);
	iter("if", true);
	iter("ib", false);
	ev(",\"n\":%u}", cf_ll_size(&ll));
}

static void
evvd(void)
{
	evp(",\"vd\":[");
	int c = 0;
	for (cf_ll_element* e = cf_ll_get_head(&ll); e && c < LIM; e = cf_ll_get_next(e)) {
		int id = ((node*)e)->id;
		evp(c++ ? ",[%d,%d]" : "[%d,%d]", id, vds[id]);
	}
	evp("]");
}

static void
start(bool d, bool lock)
{
	n_nodes = 0;
	memset(nodes, 0, sizeof(nodes));
	has_dtor = d;
	if (cf_ll_init(&ll, d ? dtor : NULL, lock) != 0) WRONG("a list was not made\n");
	ev("{\"o\":\"init\",\"dtor\":%d}", d);
}

/* Without a destructor the caller frees what it deleted. */
static bool alive[4096];

static void
sweep(void)
{
	if (has_dtor) return;
	memset(alive, 0, sizeof(alive));
	int n = 0;
	for (cf_ll_element* e = cf_ll_get_head(&ll); e && n++ < LIM; e = cf_ll_get_next(e)) alive[((node*)e)->id] = true;
	for (int i = 1; i <= n_nodes; i++) {
		if (nodes[i] && ! alive[i]) { memset(nodes[i], 0xDD, sizeof(node)); free(nodes[i]); nodes[i] = NULL; }
	}
}

static void
finish(void)
{
	cf_ll_element* e;
	while ((e = cf_ll_get_head(&ll)) != NULL) { node* n = (node*)e; cf_ll_delete(&ll, e); if (! has_dtor) { nodes[n->id] = NULL; free(n); } }
	for (int i = 1; i <= n_nodes; i++) if (nodes[i]) { free(nodes[i]); }
	if (ll.uselock) pthread_mutex_destroy(&ll.LOCK);
}

static node*
pick_member(void)
{
	int n = 0, k;
	node* m[LIM];
	for (cf_ll_element* e = cf_ll_get_head(&ll); e && n < LIM; e = cf_ll_get_next(e)) m[n++] = (node*)e;
	if (n == 0) return NULL;
	k = vh_chance(25) ? 0 : vh_chance(25) ? n - 1 : vh_below(n);
	return m[k];
}

int
main(int argc, char** argv)
{
	if (! strcmp(argv[1], "random")) {
		vh_seed(strtoull(argv[2], NULL, 10));
		int sc = atoi(argv[3]), len = atoi(argv[4]);
		vh_open(argv[5]);
		while (sc--) {
			start(vh_chance(70), vh_chance(40));
			int bias = 50;
			for (int i = 0; i < len; i++) {
				if (i % 11 == 0) bias = 30 + vh_below(50);
				n_gone = n_see = 0;
				node* m = pick_member();
				bool fwd = vh_chance(50);
				if (vh_chance(bias) && cf_ll_size(&ll) < 14) {
					int k = vh_below(m ? 5 : 3);
					if (k == 0) { node* x = mk(); evp("{\"o\":\"pre\",\"x\":%d", x->id); cf_ll_prepend(&ll, &x->e); }
					else if (k == 1) { node* x = mk(); evp("{\"o\":\"app\",\"x\":%d", x->id); cf_ll_append(&ll, &x->e); }
					else if (k == 2) {
						for (int j = 0; j <= n_nodes; j++) vds[j] = vh_chance(75) ? 0 : vh_chance(70) ? CF_LL_REDUCE_INSERT : -(int)(1 + vh_below(5));
						vend = vh_chance(20) ? 0 : vh_chance(80) ? CF_LL_REDUCE_INSERT : -9;
						node* x = mk();
						evp("{\"o\":\"insr\",\"x\":%d,\"fwd\":%d,\"vend\":%d", x->id, fwd, vend);
						evvd();
						int r = cf_ll_insert_reduce(&ll, &x->e, fwd, cb, vds);
						evp(",\"r\":%d", r);
						/* not inserted: ours to free */
						bool in = false; int c = 0;
						for (cf_ll_element* e = cf_ll_get_head(&ll); e && c++ < LIM; e = cf_ll_get_next(e)) if (e == &x->e) in = true;
						if (! in) { nodes[x->id] = NULL; free(x); }
					}
					else if (k == 3) { node* x = mk(); evp("{\"o\":\"aft\",\"x\":%d,\"c\":%d", x->id, m->id); cf_ll_insert_after(&ll, &m->e, &x->e); }
					else { node* x = mk(); evp("{\"o\":\"bef\",\"x\":%d,\"c\":%d", x->id, m->id); cf_ll_insert_before(&ll, &m->e, &x->e); }
				}
				else {
					int k = vh_below(5);
					if (k <= 1 && m) { evp("{\"o\":\"del\",\"x\":%d", m->id); cf_ll_delete(&ll, &m->e); }
					else if (k == 2) {
						for (int j = 0; j <= n_nodes; j++) vds[j] = vh_chance(60) ? 0 : vh_chance(80) ? CF_LL_REDUCE_DELETE : -(int)(1 + vh_below(5));
						evp("{\"o\":\"red\",\"fwd\":%d", fwd);
						evvd();
						evp(",\"r\":%d", cf_ll_reduce(&ll, fwd, cb, vds));
					}
					else if (k == 3) {
						for (int j = 0; j <= n_nodes; j++) vds[j] = vh_chance(75) ? CF_LL_REDUCE_NOT_MATCHED : vh_chance(80) ? CF_LL_REDUCE_MATCHED : -1;
						evp("{\"o\":\"sea\",\"fwd\":%d", fwd);
						evvd();
						cf_ll_element* e = cf_ll_search(&ll, (cf_ll_element*)vds, fwd, cb);
						evp(",\"v\":%d", e ? ((node*)e)->id : 0);
					}
					else {
						int sz = cf_ll_size(&ll);
						int ix = vh_chance(5) ? 100000 : vh_chance(5) ? -100000 : (int)vh_below(2 * sz + 4) - sz - 2;
						evp("{\"o\":\"idx\",\"ix\":%d", ix);
						cf_ll_element* e = cf_ll_index(&ll, ix);
						evp(",\"v\":%d", e ? ((node*)e)->id : 0);
					}
				}
				tailpart();
				sweep();
			}
			finish();
		}
	}
	else {
		FILE* f = fopen(argv[2], "r");
		vh_open(argv[3]);
		int n, k, fwd;
		char kind[16];
		while (fscanf(f, "%d %15s %d %d", &n, kind, &fwd, &vend) == 4) {
			has_dtor = true;
			n_nodes = 0;
			memset(nodes, 0, sizeof(nodes));
			cf_ll_init(&ll, dtor, false);
			n_gone = n_see = 0;
			for (k = 1; k <= n; k++) { if (fscanf(f, "%d", &vds[k]) != 1) MISUSE("script\n"); node* x = mk(); cf_ll_append(&ll, &x->e); }
			int r = 0, v = 0;
			if (! strcmp(kind, "red")) r = cf_ll_reduce(&ll, fwd, cb, vds);
			else if (! strcmp(kind, "insr")) { node* x = mk(); r = cf_ll_insert_reduce(&ll, &x->e, fwd, cb, vds); }
			else { cf_ll_element* e = cf_ll_search(&ll, (cf_ll_element*)vds, fwd, cb); v = e ? ((node*)e)->id : 0; }
			evp("{\"r\":%d,\"v\":%d", r, v);
			tailpart();
			finish();
		}
	}
	vh_close();
	return 0;
}
