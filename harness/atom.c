/* Threads using one atomic variable, a published flag, or a spin lock, under
 * every explored schedule. Input lines:
 *   a TYPE VALUE|f:a:b ...|...      operations on one variable (specs/Atomic.tla)
 *   p TYPE RELEASE ACQUIRE          data published by one operation, read after another
 *   s KIND|wwr|...                  lock (0 spin lock, 1 writer/readers), one letter per critical section
 */
#include "explore.h"
#include <aerospike/as_atomic.h>
#include <inttypes.h>

#define DRV __attribute__((no_sanitize("thread")))
#define ON sched_no_points(1)
#define OFF sched_no_points(0)

typedef struct { char f[12]; uint64_t a, b; } op;
static struct { char mode; char type[8]; uint64_t value; int kind, nth, n[6]; op ops[6][8]; char rls[16], acq[16]; } P;

/* the variable lies between two others, which must stay as they are */
static union { uint8_t b[24]; uint64_t u64[3]; } *room;
#define VAR (&room->b[8])

static DRV int bits(void) { const char* p = P.type; while (*p && (*p < '0' || *p > '9')) p++; return *p ? atoi(p) : 64; }

static DRV void
limbs(uint64_t v)
{
	int n = bits();
	sched_evp("[");
	for (int k = n < 16 ? 0 : n - 16; k >= 0; k -= 16) sched_evp("%s%d", k == (n < 16 ? 0 : n - 16) ? "" : ",", (int)((v >> k) & (n < 16 ? 0xff : 0xffff)));
	sched_evp("]");
}

static int returns;	/* 0 nothing, 1 a value, 2 a truth value */
#define IS(s) (! strcmp(o->f, s))
#define LOADS(T, C) \
	if (IS("load")) { *r = (uint64_t)as_load_##T((C*)VAR); return 1; } \
	if (IS("load_acq")) { *r = (uint64_t)as_load_##T##_acq((C*)VAR); return 1; } \
	if (IS("store")) { as_store_##T((C*)VAR, (C)o->a); return 0; } \
	if (IS("store_rls")) { as_store_##T##_rls((C*)VAR, (C)o->a); return 0; } \
	if (IS("cas")) { *r = as_cas_##T((C*)VAR, (C)o->a, (C)o->b); return 2; }
#define ARITH(T, C) \
	if (IS("faa")) { *r = (uint64_t)as_faa_##T((C*)VAR, (C)o->a); return 1; } \
	if (IS("aaf")) { *r = (uint64_t)as_aaf_##T((C*)VAR, (C)o->a); return 1; } \
	if (IS("aaf_rls")) { *r = (uint64_t)as_aaf_##T##_rls((C*)VAR, (C)o->a); return 1; } \
	if (IS("add")) { as_add_##T((C*)VAR, (C)o->a); return 0; } \
	if (IS("incr")) { as_incr_##T((C*)VAR); return 0; } \
	if (IS("incr_rls")) { as_incr_##T##_rls((C*)VAR); return 0; } \
	if (IS("decr")) { as_decr_##T((C*)VAR); return 0; } \
	if (IS("decr_rls")) { as_decr_##T##_rls((C*)VAR); return 0; } \
	if (IS("fas")) { *r = (uint64_t)as_fas_##T((C*)VAR, (C)o->a); return 1; }
#define TYPE(T, C, ...) if (! strcmp(P.type, #T)) { LOADS(T, C) __VA_ARGS__ _exit(3); }
#define MAX(T, C) if (IS("setmax")) { *r = as_setmax_##T((C*)VAR, (C)o->a); return 2; }

static DRV int
apply(const op* o, uint64_t* r)
{
	TYPE(uint64, uint64_t, ARITH(uint64, uint64_t) MAX(uint64, uint64_t))
	TYPE(int64, int64_t, ARITH(int64, int64_t))
	TYPE(uint32, uint32_t, ARITH(uint32, uint32_t) MAX(uint32, uint32_t))
	TYPE(int32, int32_t, ARITH(int32, int32_t))
	TYPE(uint16, uint16_t, ARITH(uint16, uint16_t))
	TYPE(int16, int16_t, ARITH(int16, int16_t))
	TYPE(uint8, uint8_t)
	TYPE(int8, int8_t)
	if (! strcmp(P.type, "ptr")) {
		if (IS("load")) { *r = (uint64_t)(uintptr_t)as_load_ptr((void**)VAR); return 1; }
		if (IS("load_acq")) { *r = (uint64_t)(uintptr_t)as_load_ptr_acq((void**)VAR); return 1; }
		if (IS("store")) { as_store_ptr((void**)VAR, (void*)(uintptr_t)o->a); return 0; }
		if (IS("store_rls")) { as_store_ptr_rls((void**)VAR, (void*)(uintptr_t)o->a); return 0; }
	}
	_exit(3);
}

static DRV void
caller(void* u)
{
	int t = (int)(intptr_t)u;
	for (int k = 0; k < P.n[t]; k++) {
		op* o = &P.ops[t][k];
		uint64_t r = 0;
		ON;
		sched_evp("{\"o\":\"call\",\"t\":%d,\"f\":\"%s\",\"a\":", t + 1, o->f);
		limbs(o->a);
		sched_evp(",\"b\":");
		limbs(o->b);
		sched_ev("}");
		OFF;
		int what = apply(o, &r);
		ON;
		sched_evp("{\"o\":\"ret\",\"t\":%d,\"r\":", t + 1);
		if (what == 1) limbs(r); else if (what == 2) sched_evp("[%d]", (int)r); else sched_evp("[]");
		sched_ev("}");
		OFF;
	}
}

/* ------------------------------------------------------------ publication */
static int64_t* data;

static void put(void) { data[0] = 42; }
static int64_t get(void) { return data[0]; }

/* macros, in functions of their own so that they are seen */
#define MACROS(N, C) \
	static void rls_##N(C* p, const char* f) { \
		if (! strcmp(f, "m_store_rls")) as_store_rls(p, 1); \
		else if (! strcmp(f, "m_store_seq")) as_store_seq(p, 1); \
		else if (! strcmp(f, "m_faa_rls")) (void)as_faa_rls(p, 1); \
		else if (! strcmp(f, "m_faa_seq")) (void)as_faa_seq(p, 1); \
		else if (! strcmp(f, "m_aaf_rls")) (void)as_aaf_rls(p, 1); \
		else if (! strcmp(f, "m_aaf_seq")) (void)as_aaf_seq(p, 1); \
		else if (! strcmp(f, "m_fas_rls")) (void)as_fas_rls(p, 1); \
		else if (! strcmp(f, "m_fas_seq")) (void)as_fas_seq(p, 1); \
		else if (! strcmp(f, "m_cas_rls")) { C o = 0; (void)as_cas_rls(p, &o, 1); } \
		else if (! strcmp(f, "m_cas_seq")) { C o = 0; (void)as_cas_seq(p, &o, 1); } \
		else if (! strcmp(f, "m_fence_rls")) { as_fence_rls(); as_store_rlx(p, 1); } \
		else if (! strcmp(f, "m_fence_seq")) { as_fence_seq(); as_store_rlx(p, 1); } \
		else _exit(3); } \
	static C acq_##N(C* p, const char* f) { \
		C o = 1; \
		if (! strcmp(f, "m_load_acq")) return as_load_acq(p); \
		if (! strcmp(f, "m_load_seq")) return as_load_seq(p); \
		if (! strcmp(f, "m_faa_acq")) return as_faa_acq(p, 0); \
		if (! strcmp(f, "m_faa_seq")) return as_faa_seq(p, 0); \
		if (! strcmp(f, "m_aaf_acq")) return as_aaf_acq(p, 0); \
		if (! strcmp(f, "m_aaf_seq")) return as_aaf_seq(p, 0); \
		if (! strcmp(f, "m_fas_acq")) return as_fas_acq(p, 0); \
		if (! strcmp(f, "m_fas_seq")) return as_fas_seq(p, 0); \
		if (! strcmp(f, "m_cas_acq")) return as_cas_acq(p, &o, 0) ? 1 : 0; \
		if (! strcmp(f, "m_cas_seq")) return as_cas_seq(p, &o, 0) ? 1 : 0; \
		if (! strcmp(f, "m_fence_acq")) { o = as_load_rlx(p); as_fence_acq(); return o; } \
		if (! strcmp(f, "m_fence_seq")) { o = as_load_rlx(p); as_fence_seq(); return o; } \
		_exit(3); }
MACROS(64, uint64_t)
MACROS(32, uint32_t)
MACROS(16, uint16_t)

static DRV void
publisher(void* u)
{
	put();
	if (! strncmp(P.rls, "m_", 2)) {
		if (bits() == 64) rls_64((uint64_t*)VAR, P.rls);
		else if (bits() == 32) rls_32((uint32_t*)VAR, P.rls);
		else rls_16((uint16_t*)VAR, P.rls);
	}
	else {
		op o = { .a = 1 };
		uint64_t r;
		strcpy(o.f, P.rls);
		apply(&o, &r);
	}
}

static DRV void
reader(void* u)
{
	uint64_t r = 0;
	if (! strncmp(P.acq, "m_", 2)) {
		if (bits() == 64) r = acq_64((uint64_t*)VAR, P.acq);
		else if (bits() == 32) r = acq_32((uint32_t*)VAR, P.acq);
		else r = acq_16((uint16_t*)VAR, P.acq);
	}
	else {
		op o = { .a = 0 };
		strcpy(o.f, P.acq);
		apply(&o, &r);
	}
	if (r) {
		int64_t d = get();
		ON;
		sched_ev("{\"o\":\"saw\",\"d\":%d}", (int)d);
		OFF;
	}
}

/* ------------------------------------------------------------------ locks */
static as_spinlock* sl;
static as_swlock* wl;
static int64_t* part[2];

static void change(void) { part[0][0]++; part[1][0]++; }
static int64_t look(void) { int64_t a = part[0][0]; int64_t b = part[1][0]; return a == b ? a : -1; }

static DRV void
locker(void* u)
{
	int t = (int)(intptr_t)u;
	for (const char* p = P.ops[t][0].f; *p; p++) {
		ON;
		sched_ev("{\"o\":\"want\",\"t\":%d,\"f\":\"%c\"}", t + 1, *p);
		OFF;
		if (P.kind == 0) as_spinlock_lock(sl);
		else if (*p == 'w') as_swlock_write_lock(wl);
		else as_swlock_read_lock(wl);
		if (*p == 'w') change();
		int64_t d = look();
		ON;
		sched_ev("{\"o\":\"got\",\"t\":%d,\"d\":%d}", t + 1, (int)d);
		OFF;
		d = look();
		ON;
		sched_ev("{\"o\":\"give\",\"t\":%d,\"d\":%d}", t + 1, (int)d);
		OFF;
		if (P.kind == 0) as_spinlock_unlock(sl);
		else if (*p == 'w') as_swlock_write_unlock(wl);
		else as_swlock_read_unlock(wl);
	}
}

static DRV void
body(void* u)
{
	(void)u;
	ON;
	room = malloc(24);
	memset(room, 0x5a, 24);
	memcpy(VAR, &P.value, (size_t)bits() / 8);
	data = malloc(8);
	data[0] = 0;
	sl = malloc(sizeof(as_spinlock));
	wl = malloc(sizeof(as_swlock));
	as_spinlock_init(sl);
	as_swlock_init(wl);
	part[0] = malloc(8);
	part[1] = malloc(8);
	part[0][0] = part[1][0] = 0;
	sched_guard(data, 8);
	sched_guard(part[0], 8);
	sched_guard(part[1], 8);
	if (P.mode == 'a') for (int t = 0; t < P.nth; t++) sched_spawn(caller, (void*)(intptr_t)t);
	else if (P.mode == 's') for (int t = 0; t < P.nth; t++) sched_spawn(locker, (void*)(intptr_t)t);
	else {
		sched_spawn(publisher, NULL);
		sched_spawn(reader, NULL);
	}
	OFF;
	sched_join_all();
	ON;
	if (P.mode == 'a') {
		uint64_t v = 0;
		memcpy(&v, VAR, (size_t)bits() / 8);
		for (int k = 0; k < 8; k++) if (room->b[k] != 0x5a) sched_fault("an operation changed memory before its variable");
		for (int k = 8 + bits() / 8; k < 24; k++) if (room->b[k] != 0x5a) sched_fault("an operation changed memory after its variable");
		sched_evp("{\"o\":\"left\",\"v\":");
		limbs(v);
		sched_ev("}");
	}
	else if (P.mode == 's') {
		int n = 0;
		sched_evp("{\"o\":\"end\",\"b\":[");
		for (int t = 1; t < sched_threads(); t++) if (sched_blocked(t)) sched_evp("%s%d", n++ ? "," : "", t);
		sched_ev("]}");
	}
	OFF;
}

int
main(int argc, char** argv)
{
	/* atom IN PREEMPT MAXRUNS RANDOM EXTRA SEED OUT */
	if (argc < 8) return 3;
	FILE* f = fopen(argv[1], "r");
	if (! f) return 3;
	so.preempt = atoi(argv[2]);
	so.max_runs = (uint64_t)atoll(argv[3]);
	so.random_runs = (uint64_t)atoll(argv[4]);
	so.extra = atoi(argv[5]);
	so.seed = (uint64_t)atoll(argv[6]);
	sched_open(argv[7]);
	static char line[4096];
	while (fgets(line, sizeof(line), f)) {
		memset(&P, 0, sizeof(P));
		P.mode = line[0];
		so.spin = P.mode == 's';
		char* s = strchr(line, '|');
		strcpy(P.type, "uint64");
		if (P.mode == 'a') { if (! s || sscanf(line + 2, "%7s %" SCNu64, P.type, &P.value) != 2) return 3; }
		else if (P.mode == 's') { if (! s || sscanf(line + 2, "%d", &P.kind) != 1) return 3; }
		else if (sscanf(line + 2, "%7s %15s %15s", P.type, P.rls, P.acq) != 3) return 3;
		while (s) {
			char* e = strchr(s + 1, '|');
			if (e) *e = 0;
			int t = P.nth++;
			for (char* w = strtok(s + 1, " \n"); w; w = strtok(NULL, " \n")) {
				op* o = &P.ops[t][P.n[t]++];
				if (P.mode == 's') { strcpy(o->f, w); continue; }
				if (sscanf(w, "%11[a-z_]:%" SCNu64 ":%" SCNu64, o->f, &o->a, &o->b) != 3) return 3;
			}
			s = e;
		}
		char head[200];
		if (P.mode == 'a') {
			int n = bits();
			int k = sprintf(head, "{\"o\":\"init\",\"v\":[");
			for (int j = n < 16 ? 0 : n - 16; j >= 0; j -= 16) k += sprintf(head + k, "%d%s", (int)((P.value >> j) & (n < 16 ? 0xff : 0xffff)), j ? "," : "");
			sprintf(head + k, "]}\n");
		}
		else sprintf(head, "{\"o\":\"init\",\"k\":%d}\n", P.kind);
		sched_explore(head, body, NULL);
	}
	sched_close();
	printf("%llu runs %llu histories\n", (unsigned long long)sched_runs, (unsigned long long)sched_histories);
	return 0;
}
