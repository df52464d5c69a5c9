#define _GNU_SOURCE
#include "explore.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

sched_opts so = {.preempt = 2, .extra = 1, .signal_choice = 1, .max_runs = 3000, .random_runs = 300, .seed = 1, .passes = 1};
uint64_t sched_runs, sched_histories;
void (*sched_on_free)(void* p);
int (*sched_fail_alloc)(size_t n);

/* ------------------------------------------------------------- real libc */
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
int __real_clock_gettime(clockid_t, struct timespec*);

/* ---------------------------------------------------------------- threads */
#define MAXT 12
#define STACK (128 * 1024)
enum { T_NONE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_QUIET, T_RW, T_SEM, T_SPIN, T_DONE };

typedef struct {
	ucontext_t ctx;
	uint8_t* stack;
	int st;
	void* obj;		/* mutex, condition or joined thread */
	void* mtx;		/* to take again after a wait */
	bool timed;
	int64_t deadline;
	int why;		/* 0 signalled, 1 timed out, 2 spurious */
	void* (*fn)(void*);
	void (*vfn)(void*);
	void* arg;
	void* ret;
	bool joined, detached;
	int want;		/* rwlock: 1 read 2 write */
	const void* spin_at;	/* place read over and over, what it held, how often */
	uint64_t spin_saw;
	int spin_n;
	size_t spin_size;
} thr;

static thr T[MAXT];
static int cur;

/* ------------------------------------------------------------ happens before */
typedef struct { uint32_t c[MAXT]; } vc;
static vc V[MAXT];		/* what each thread knows */
static vc Pend[MAXT];		/* read by relaxed operations, known after an acquire fence */
static vc Fence[MAXT];		/* known at the last release fence */

static void join(vc* a, const vc* b) { for (int k = 0; k < MAXT; k++) if (b->c[k] > a->c[k]) a->c[k] = b->c[k]; }
static bool below(const vc* a, const vc* b) { for (int k = 0; k < MAXT; k++) if (a->c[k] > b->c[k]) return false; return true; }
typedef struct { const void* a; vc v; } cell;
#define MAXC 4096
static cell C[MAXC];
static int nc;

static void publish(vc* to) { join(to, &V[cur]); V[cur].c[cur]++; }

static cell*
cget(const void* a)
{
	for (int k = nc - 1; k >= 0; k--) if (C[k].a == a) return &C[k];
	if (nc == MAXC) nc = 0;
	C[nc] = (cell){.a = a};
	return &C[nc++];
}
static int nt;
static ucontext_t main_ctx;
static bool running;
static int quiet;
static int64_t vnow;	/* the wall clock; the others started later */
#define UPTIME_BASE (1699990000LL * 1000000000LL)
static bool wall(clockid_t k) { return k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE || k == CLOCK_TAI; }

/* ---------------------------------------------------------------- choices */
typedef struct { uint16_t n, c; } choice;
static choice* ch;
static size_t nch, pos, chcap;
static int preempts, extras;
static int phase;	/* 0 enumerate, 1 random */
static int bound;
static uint64_t rng, prog_rng;
static uint64_t steps, idle;
static int npct;	/* chance of a switch in random runs, percent */

static uint64_t
nextrand(uint64_t* s)
{
	uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

uint64_t sched_rand(void) { return nextrand(&prog_rng); }

static int
choose(int n)
{
	if (n <= 1) return 0;
	int c;
	if (pos < nch) {
		c = ch[pos].c;
		if (ch[pos].n != n) {
			/* state kept from earlier runs changed the course: explore from here */
			nch = pos;
			return choose(n);
		}
	}
	else {
		c = phase == 0 ? 0 : (int)(nextrand(&rng) % (uint64_t)n);
		if (nch == chcap) {
			chcap = chcap ? chcap * 2 : 1024;
			ch = __real_realloc(ch, chcap * sizeof(choice));
		}
		ch[nch].n = (uint16_t)n;
		ch[nch].c = (uint16_t)c;
		nch++;
	}
	pos++;
	return c;
}

/* next unexplored combination; false when there is none */
static bool
advance(void)
{
	while (nch > 0) {
		if (ch[nch - 1].c + 1 < ch[nch - 1].n) {
			ch[nch - 1].c++;
			return true;
		}
		nch--;
	}
	return false;
}

/* ---------------------------------------------------------------- history */
static char* hist;
static size_t hn, hcap;
static uint64_t* seen;
static size_t nseen, seencap;
static FILE* out;
static const char* head_;

void
sched_evp(const char* fmt, ...)
{
	va_list ap;
	for (;;) {
		va_start(ap, fmt);
		int k = vsnprintf(hist + hn, hcap - hn, fmt, ap);
		va_end(ap);
		if (hn + (size_t)k + 2 < hcap) { hn += (size_t)k; return; }
		if (hcap > 16000000) sched_fault("the program does not come to an end");
		hcap = hcap * 2 + 4096;
		hist = __real_realloc(hist, hcap);
	}
}

void
sched_ev(const char* fmt, ...)
{
	va_list ap;
	for (;;) {
		va_start(ap, fmt);
		int k = vsnprintf(hist + hn, hcap - hn, fmt, ap);
		va_end(ap);
		if (hn + (size_t)k + 2 < hcap) { hn += (size_t)k; break; }
		if (hcap > 16000000) sched_fault("the program does not come to an end");
		hcap = hcap * 2 + 4096;
		hist = __real_realloc(hist, hcap);
	}
	hist[hn++] = '\n';
	hist[hn] = 0;
}

static bool
fresh(uint64_t h)
{
	if (h == 0) h = 1;
	if (nseen * 2 >= seencap) {
		size_t oc = seencap;
		uint64_t* o = seen;
		seencap = seencap ? seencap * 2 : 4096;
		seen = __real_calloc(seencap, 8);
		for (size_t j = 0; j < oc; j++) if (o[j]) {
			size_t k = o[j] % seencap;
			while (seen[k]) k = (k + 1) % seencap;
			seen[k] = o[j];
		}
		__real_free(o);
	}
	size_t k = h % seencap;
	while (seen[k]) {
		if (seen[k] == h) return false;
		k = (k + 1) % seencap;
	}
	seen[k] = h;
	nseen++;
	return true;
}

void sched_open(const char* file) { out = fopen(file, "w"); if (! out) { perror(file); _exit(3); } }
void sched_close(void) { fclose(out); }

void
sched_fault(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "FAULT: ");
	vfprintf(stderr, fmt, ap);
	va_end(ap);
	fprintf(stderr, "\nin run %llu of\n%s%.*s(thread %d)\n", (unsigned long long)sched_runs, head_ ? head_ : "", (int)(hn > 20000 ? 20000 : hn), hist, cur);
	if (out) fflush(out);
	_exit(98);
}

/* --------------------------------------------------------------- switching */
static void finish_thread(void);

static void
entry(void)
{
	thr* t = &T[cur];
	if (t->vfn) t->vfn(t->arg); else t->ret = t->fn(t->arg);
	finish_thread();
}

static void
make_ctx(int k)
{
	thr* t = &T[k];
	if (! t->stack) {
		t->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(t->stack, 4096, PROT_NONE);
	}
	getcontext(&t->ctx);
	t->ctx.uc_stack.ss_sp = t->stack;
	t->ctx.uc_stack.ss_size = STACK;
	t->ctx.uc_link = NULL;
	makecontext(&t->ctx, entry, 0);
}

static void
go(int k)
{
	if (k == cur) return;
	int o = cur;
	cur = k;
	swapcontext(&T[o].ctx, &T[k].ctx);
}

static void
end_run(void)
{
	running = false;
	int o = cur;
	cur = -1;
	swapcontext(&T[o].ctx, &main_ctx);
}

/* ------------------------------------------------- mutexes, by their address */
typedef struct { void* m; vc v; int owner; int depth; int recursive; int state; int readers; int val; bool uptime; } mtx;
#define MAXM 512
static mtx M[MAXM];
static int nm;

static mtx*
mget(void* m)
{
	for (int k = nm - 1; k >= 0; k--) if (M[k].m == m) return &M[k];
	if (nm == MAXM) { fprintf(stderr, "MISUSE: too many locks\n"); _exit(3); }
	M[nm] = (mtx){.m = m, .owner = -1};
	return &M[nm++];
}

static mtx*
mnew(void* m)
{
	mtx* x = mget(m);
	*x = (mtx){.m = m, .owner = -1};
	return x;
}

static bool
enabled(int k)
{
	thr* t = &T[k];
	switch (t->st) {
	case T_RUN: return true;
	case T_MUTEX: return mget(t->obj)->owner < 0 && mget(t->obj)->readers == 0;
	case T_RW: { mtx* m = mget(t->obj); return t->want == 1 ? m->owner < 0 : m->owner < 0 && m->readers == 0; }
	case T_SEM: return mget(t->obj)->val > 0;
	case T_JOIN: return T[(int)(intptr_t)t->obj].st == T_DONE;
	case T_SPIN: { uint64_t v = 0; __real_memcpy(&v, t->spin_at, t->spin_size); return v != t->spin_saw; }
	default: return false;
	}
}

static void
wake(int k, int why)
{
	T[k].why = why;
	T[k].st = T_MUTEX;
	T[k].obj = T[k].mtx;
}

/* Picks who goes on. may_stay: the current thread could go on as well. */
static void
reschedule(bool may_stay, bool yield)
{
	for (;;) {
		int alt[3 * MAXT], kind[3 * MAXT], n = 0;
		if (may_stay && ! yield) { alt[n] = cur; kind[n++] = 0; }
		int lim = phase == 0 ? bound : 1 << 30;
		if (! may_stay || yield || preempts < lim) {
			for (int k = 0; k < nt; k++) {
				if (k == cur && may_stay) continue;
				if (enabled(k)) { alt[n] = k; kind[n++] = 0; }
			}
		}
		if (may_stay && yield) { alt[n] = cur; kind[n++] = 0; }
		if (extras < so.extra && (! may_stay || phase == 1 || preempts < lim)) {
			for (int k = 0; k < nt; k++) if (T[k].st == T_COND) {
				alt[n] = k; kind[n++] = 1;
				if (T[k].timed) { alt[n] = k; kind[n++] = 2; }
			}
		}
		bool real = false;
		for (int k = 0; k < n; k++) if (kind[k] == 0) real = true;
		if (! real) {
			/* nothing can run: time passes to the next deadline */
			int best = -1;
			for (int k = 0; k < nt; k++)
				if (T[k].st == T_COND && T[k].timed && (best < 0 || T[k].deadline < T[best].deadline)) best = k;
			if (best >= 0) {
				if (vnow < T[best].deadline) vnow = T[best].deadline;
				wake(best, 1);
				continue;
			}
			/* or thread 0 learns that all others are at rest */
			for (int k = 0; k < nt; k++) if (T[k].st == T_QUIET) {
				T[k].st = T_RUN;
				go(k);
				return;
			}
			end_run();	/* blocked for good */
			return;
		}
		int c;
		if (phase == 1) {
			/* random: stay with some probability, else anything */
			if (may_stay && ! yield && nextrand(&rng) % 100 >= (uint64_t)npct) c = 0;
			else c = (int)(nextrand(&rng) % (uint64_t)n);
		}
		else c = choose(n);
		int k = alt[c];
		if (kind[c] && may_stay) preempts++;
		if (kind[c] == 1) { extras++; wake(k, 2); continue; }
		if (kind[c] == 2) {
			extras++;
			if (vnow < T[k].deadline) vnow = T[k].deadline;
			wake(k, 1);
			continue;
		}
		if (k != cur && may_stay && ! yield) preempts++;
		go(k);
		return;
	}
}

static void
point(void)
{
	if (! running || quiet) return;
	if (++steps > 20000) {
		if (steps > 400000) sched_fault("the program does not come to an end");
		/* fair from here on: spinning threads give way */
		if (steps % 50 == 0) {
			for (int d = 1; d <= nt; d++) {
				int k = (cur + d) % nt;
				if (k != cur && enabled(k)) { go(k); return; }
			}
		}
		return;
	}
	reschedule(true, false);
}

static void
block(void)
{
	reschedule(false, false);
}

int sched_self(void) { return cur; }
int sched_threads(void) { return nt; }
int64_t sched_now(void) { return vnow; }
void sched_set_now(int64_t ns) { vnow = ns; }
void sched_no_points(int on) { quiet += on ? 1 : -1; }
bool sched_blocked(int t) { return T[t].st != T_DONE; }

static int
new_thread(void)
{
	if (nt == MAXT) { fprintf(stderr, "MISUSE: too many threads\n"); _exit(3); }
	int k = nt++;
	uint8_t* s = T[k].stack;
	__real_memset(&T[k], 0, sizeof(thr));
	T[k].stack = s;
	T[k].st = T_RUN;
	V[k] = Pend[k] = Fence[k] = (vc){{0}};
	if (running) {
		join(&V[k], &V[cur]);
		V[cur].c[cur]++;
	}
	V[k].c[k] = 1;
	make_ctx(k);
	return k;
}

int
sched_spawn(void (*fn)(void*), void* arg)
{
	int k = new_thread();
	T[k].vfn = fn;
	T[k].arg = arg;
	return k;
}

void
sched_join_all(void)
{
	T[cur].st = T_QUIET;
	block();
	for (int k = 0; k < nt; k++) join(&V[cur], &V[k]);
}

void
sched_join(int t)
{
	if (T[t].st != T_DONE) {
		T[cur].st = T_JOIN;
		T[cur].obj = (void*)(intptr_t)t;
		block();
		T[cur].st = T_RUN;
	}
	join(&V[cur], &V[t]);
}

static int pass;
int sched_pass(void) { return pass; }

static void
finish_thread(void)
{
	T[cur].st = T_DONE;
	if (cur == 0) end_run();
	block();
}

/* ------------------------------------------------------------------ heap */
typedef struct { uint8_t* p; size_t n; bool live; vc used; } blk;
static blk* B;
static int nb, bcap;
#define REDZONE 16

static blk*
find(const void* a)
{
	/* blocks of a run are carved from one arena in rising order */
	int lo = 0, hi = nb - 1;
	while (lo <= hi) {
		int m = (lo + hi) / 2;
		if ((const uint8_t*)a < B[m].p) hi = m - 1;
		else if (m + 1 < nb && (const uint8_t*)a >= B[m + 1].p) lo = m + 1;
		else return &B[m];
	}
	return NULL;
}

#define ARENA (16u << 20)
static uint8_t* arena;
static size_t aoff;

static bool in_arena(const void* p) { return (const uint8_t*)p >= arena && (const uint8_t*)p < arena + ARENA; }

static void*
alloc(size_t n, bool zero)
{
	if (sched_fail_alloc && sched_fail_alloc(n)) { errno = ENOMEM; return NULL; }
	size_t need = ((n + 15) & ~(size_t)15) + REDZONE;
	if (n > ARENA || aoff + need > ARENA) { errno = ENOMEM; return NULL; }
	uint8_t* p = arena + aoff;
	aoff += need;
	if (nb == bcap) { bcap = bcap ? bcap * 2 : 256; B = __real_realloc(B, (size_t)bcap * sizeof(blk)); }
	B[nb++] = (blk){.p = p, .n = n, .live = true};
	__real_memset(p, zero ? 0 : 0xa5, n);
	return p;
}

/* data that a lock or a published flag protects */
static struct { const uint8_t* p; size_t n; vc w, r; } G[16];
static int ng;

void
sched_guard(const void* p, size_t n)
{
	if (ng == 16) { fprintf(stderr, "MISUSE: too many guarded places\n"); _exit(3); }
	G[ng].p = p;
	G[ng].n = n;
	G[ng].w = G[ng].r = (vc){{0}};
	ng++;
}

static void
guarded(const void* a, size_t n, bool write)
{
	for (int k = 0; k < ng; k++) {
		if ((const uint8_t*)a + n <= G[k].p || (const uint8_t*)a >= G[k].p + G[k].n) continue;
		if (! below(&G[k].w, &V[cur])) sched_fault("protected data is %s without being ordered after its last change", write ? "changed" : "read");
		if (write && ! below(&G[k].r, &V[cur])) sched_fault("protected data is changed without being ordered after its last reading");
		vc* v = write ? &G[k].w : &G[k].r;
		if (V[cur].c[cur] > v->c[cur]) v->c[cur] = V[cur].c[cur];
	}
}

/* a thread that reads the same again and again waits for it to change */
static void
spinning(const void* a, size_t n)
{
	thr* t = &T[cur];
	uint64_t v = 0;
	if (n > 8) return;
	__real_memcpy(&v, a, n);
	if (t->spin_at != a || t->spin_saw != v || t->spin_size != n) {
		t->spin_at = a;
		t->spin_saw = v;
		t->spin_size = n;
		t->spin_n = 0;
		return;
	}
	if (++t->spin_n < 6) return;
	t->st = T_SPIN;
	block();
	T[cur].st = T_RUN;
	T[cur].spin_at = NULL;
}

static void
access_(const void* a, size_t n, bool write)
{
	if (! in_arena(a)) return;
	blk* b = find(a);
	if (! b || (const uint8_t*)a + n > b->p + b->n)
		sched_fault("%s of %zu bytes outside the allocated block", write ? "write" : "read", n);
	if (! b->live) sched_fault("%s of released memory", write ? "write" : "read");
	if (V[cur].c[cur] > b->used.c[cur]) b->used.c[cur] = V[cur].c[cur];
}

void* __wrap_malloc(size_t n) { return running ? alloc(n, false) : __real_malloc(n); }
void* __wrap_valloc(size_t n) { return running ? alloc(n, false) : __real_malloc(n); }
void*
__wrap_calloc(size_t k, size_t n)
{
	return running ? alloc(k * n, true) : __real_calloc(k, n);
}

void
__wrap_free(void* p)
{
	if (! p) return;
	if (! in_arena(p)) {
		if (running) sched_fault("release of memory that was not allocated");
		__real_free(p);
		return;
	}
	point();
	blk* b = find(p);
	if (! b || b->p != p) sched_fault("release of an address inside a block");
	if (! b->live) sched_fault("memory released twice");
	if (! below(&b->used, &V[cur])) sched_fault("memory is released without being ordered after its last use by another thread");
	if (sched_on_free) sched_on_free(p);
	b->live = false;
	__real_memset(p, 0xdd, b->n);
}

void*
__wrap_realloc(void* p, size_t n)
{
	if (! running) return __real_realloc(p, n);
	if (! p) return alloc(n, false);
	blk* b = find(p);
	if (! b || b->p != p || ! b->live) sched_fault("reallocation of an address that is not a live block");
	size_t k = b->n;
	void* q = alloc(n, false);
	if (! q) return NULL;
	__real_memcpy(q, p, k < n ? k : n);
	b = find(p);
	b->live = false;
	__real_memset(p, 0xdd, k);
	return q;
}

char*
__wrap_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = __wrap_malloc(n);
	if (p) __real_memcpy(p, s, n);
	return p;
}

char*
__wrap_strndup(const char* s, size_t m)
{
	size_t n = strnlen(s, m);
	char* p = __wrap_malloc(n + 1);
	if (p) { __real_memcpy(p, s, n); p[n] = 0; }
	return p;
}

void
sched_leaks(void)
{
	for (int k = 0; k < nb; k++) if (B[k].live) sched_fault("%zu bytes were never released", B[k].n);
}

int sched_block_id(const void* p) { blk* b = in_arena(p) ? find(p) : NULL; return b ? (int)(b - B) + 1 : 0; }
bool sched_live(const void* p) { blk* b = in_arena(p) ? find(p) : NULL; return b && b->live && b->p == p; }
size_t sched_block_size(const void* p) { blk* b = in_arena(p) ? find(p) : NULL; return b ? b->n : 0; }

/* -------------------------------------------------------------- memory */
static inline bool
own_stack(const void* a)
{
	return (const uint8_t*)a >= T[cur].stack && (const uint8_t*)a < T[cur].stack + STACK;
}

static inline void
touch(const void* a, size_t n, bool w)
{
	if (! running || own_stack(a)) return;
	if (quiet) {
		if (++idle > 4000000) sched_fault("the program does not come to an end");
		return;
	}
	point();
	if (so.spin) spinning(a, n);
	if (ng) guarded(a, n, w);
	access_(a, n, w);
}

#define RW(n) \
	void __tsan_read##n(void* a) { touch(a, n, false); } \
	void __tsan_write##n(void* a) { touch(a, n, true); } \
	void __tsan_unaligned_read##n(void* a) { touch(a, n, false); } \
	void __tsan_unaligned_write##n(void* a) { touch(a, n, true); } \
	void __tsan_volatile_read##n(void* a) { touch(a, n, false); } \
	void __tsan_volatile_write##n(void* a) { touch(a, n, true); } \
	void __tsan_read_write##n(void* a) { touch(a, n, true); } \
	void __tsan_unaligned_read_write##n(void* a) { touch(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { touch(a, n, false); }
void __tsan_write_range(void* a, size_t n) { touch(a, n, true); }
void __tsan_init(void) {}
void __tsan_func_entry(void* a) { (void)a; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void* a, void* b) { (void)a; (void)b; }
void __tsan_vptr_read(void* a) { (void)a; }

/* memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 both, 5 sequential */
static void
acquires(const volatile void* a, int o)
{
	if (! running) return;
	cell* c = cget((const void*)a);
	if (o == 1 || o == 2 || o >= 4) join(&V[cur], &c->v); else join(&Pend[cur], &c->v);
}

static void
releases(const volatile void* a, int o, bool rmw)
{
	if (! running) return;
	cell* c = cget((const void*)a);
	if (! rmw) c->v = (vc){{0}};
	if (o >= 3) publish(&c->v); else join(&c->v, &Fence[cur]);
}

#define RMW(bits, type, name, expr) \
	type __tsan_atomic##bits##_##name(volatile type* a, type v, int o) \
	{ touch((const void*)a, sizeof(type), true); acquires(a, o); type r = *a; *a = (type)(expr); releases(a, o, true); return r; }
#define AT(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* a, int o) { touch((const void*)a, sizeof(type), false); acquires(a, o); return *a; } \
	void __tsan_atomic##bits##_store(volatile type* a, type v, int o) { touch((const void*)a, sizeof(type), true); *a = v; releases(a, o, false); } \
	RMW(bits, type, exchange, v) RMW(bits, type, fetch_add, r + v) RMW(bits, type, fetch_sub, r - v) RMW(bits, type, fetch_and, r & v) \
	RMW(bits, type, fetch_or, r | v) RMW(bits, type, fetch_xor, r ^ v) RMW(bits, type, fetch_nand, ~(r & v)) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int o, int f) \
	{ \
		touch((const void*)a, sizeof(type), true); \
		if (*a == *c) { acquires(a, o); *a = v; releases(a, o, true); return 1; } \
		acquires(a, f); *c = *a; return 0; \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int o, int f) \
	{ return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, o, f); } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int o, int f) \
	{ __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, o, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void
__tsan_atomic_thread_fence(int o)
{
	if (! running) return;
	if (o == 1 || o == 2 || o >= 4) join(&V[cur], &Pend[cur]);
	if (o >= 3) { publish(&Fence[cur]); }
}
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* copies are not atomic: others may run between their halves */
static void
halves(void* d, const void* s, size_t n)
{
	size_t h = n / 2;
	if (h) {
		touch(d, n, true);
		if (s) touch(s, n, false);
	}
}

void*
__wrap_memcpy(void* d, const void* s, size_t n)
{
	if (! running || n == 0) return __real_memcpy(d, s, n);
	touch(s, n, false);
	touch(d, n, true);
	size_t h = n > 1 ? n / 2 : n;
	__real_memcpy(d, s, h);
	if (h < n) {
		halves(d, s, n);
		__real_memcpy((uint8_t*)d + h, (const uint8_t*)s + h, n - h);
	}
	return d;
}

void* __wrap___memcpy_chk(void* d, const void* s, size_t n, size_t m) { (void)m; return __wrap_memcpy(d, s, n); }

void*
__wrap_memmove(void* d, const void* s, size_t n)
{
	if (running && n) { touch(s, n, false); touch(d, n, true); }
	return __real_memmove(d, s, n);
}

void* __wrap___memmove_chk(void* d, const void* s, size_t n, size_t m) { (void)m; return __wrap_memmove(d, s, n); }

void*
__wrap_memset(void* d, int c, size_t n)
{
	if (running && n) touch(d, n, true);
	return __real_memset(d, c, n);
}

void* __wrap___memset_chk(void* d, int c, size_t n, size_t m) { (void)m; return __wrap_memset(d, c, n); }

int
__wrap_memcmp(const void* d, const void* s, size_t n)
{
	if (running && n) { touch(s, n, false); touch(d, n, false); }
	return __real_memcmp(d, s, n);
}

/* -------------------------------------------------------------- pthreads */
int
__wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	mtx* x = mnew(m);
	if (a) {
		int k = 0;
		pthread_mutexattr_gettype(a, &k);
		x->recursive = k == PTHREAD_MUTEX_RECURSIVE;
	}
	return 0;
}

int
__wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
	point();
	mtx* x = mget(m);
	if (x->owner >= 0) sched_fault("a held lock is destroyed");
	for (int k = 0; k < nt; k++) if ((T[k].st == T_MUTEX && T[k].obj == m) || (T[k].st == T_COND && T[k].mtx == m)) sched_fault("a lock in use is destroyed");
	x->state = 1;
	return 0;
}

static int
lock_(pthread_mutex_t* m)
{
	mtx* x = mget(m);
	if (x->state == 1) sched_fault("a destroyed lock is used");
	access_(m, 1, true);
	if (x->owner == cur && x->recursive) { x->depth++; return 0; }
	while (x->owner >= 0) {
		T[cur].st = T_MUTEX;
		T[cur].obj = m;
		block();
		x = mget(m);
	}
	T[cur].st = T_RUN;
	x->owner = cur;
	x->depth = 1;
	join(&V[cur], &x->v);
	return 0;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); return lock_(m); }

int
__wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	point();
	mtx* x = mget(m);
	if (x->state == 1) sched_fault("a destroyed lock is used");
	if (x->owner == cur && x->recursive) { x->depth++; return 0; }
	if (x->owner >= 0) return EBUSY;
	x->owner = cur;
	x->depth = 1;
	join(&V[cur], &x->v);
	return 0;
}

int
__wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	mtx* x = mget(m);
	if (x->owner != cur) sched_fault("a lock is released by a thread that does not hold it");
	point();
	access_(m, 1, true);
	x = mget(m);
	publish(&x->v);
	if (--x->depth == 0) x->owner = -1;
	point();
	return 0;
}

int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { 
	mnew(c);
	clockid_t k;
	if (a && pthread_condattr_getclock(a, &k) == 0 && ! wall(k)) mget(c)->uptime = true;
	return 0;
}

int
__wrap_pthread_cond_destroy(pthread_cond_t* c)
{
	point();
	for (int k = 0; k < nt; k++) if (T[k].st == T_COND && T[k].obj == c) sched_fault("a condition with waiting threads is destroyed");
	mget(c)->state = 1;
	return 0;
}

static int
wait_(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts, bool uptime)
{
	if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) return EINVAL;
	point();
	mtx* x = mget(m);
	if (x->owner != cur) sched_fault("waiting without holding the lock");
	if (mget(c)->state == 1) sched_fault("a destroyed condition is used");
	access_(c, 1, true);
	int64_t dl = ts ? (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec : 0;
	if (ts && ts->tv_sec > 9000000000LL) dl = INT64_MAX;
	else if (ts && uptime) dl += UPTIME_BASE;
	if (ts && dl <= vnow) {
		/* gives up the lock for a moment all the same */
		int d = x->depth;
		publish(&x->v);
		x->owner = -1;
		point();
		lock_(m);
		mget(m)->depth = d;
		return ETIMEDOUT;
	}
	int depth = x->depth;
	publish(&x->v);
	x->owner = -1;
	thr* t = &T[cur];
	t->st = T_COND;
	t->obj = c;
	t->mtx = m;
	t->timed = ts != NULL;
	t->deadline = dl;
	block();
	t = &T[cur];
	int why = t->why;
	t->st = T_RUN;
	lock_(m);
	mget(m)->depth = depth;
	return why == 1 ? ETIMEDOUT : 0;
}

int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return wait_(c, m, NULL, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return wait_(c, m, ts, mget(c)->uptime); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return wait_(c, m, ts, ! wall(k)); }

int
__wrap_pthread_cond_signal(pthread_cond_t* c)
{
	point();
	access_(c, 1, true);
	if (mget(c)->state == 1) sched_fault("a destroyed condition is used");
	int w[MAXT], n = 0;
	for (int k = 0; k < nt; k++) if (T[k].st == T_COND && T[k].obj == c) w[n++] = k;
	if (n) {
		int k = so.signal_choice ? (phase == 1 ? (int)(nextrand(&rng) % (uint64_t)n) : choose(n)) : 0;
		wake(w[k], 0);
	}
	point();
	return 0;
}

int
__wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	point();
	access_(c, 1, true);
	if (mget(c)->state == 1) sched_fault("a destroyed condition is used");
	for (int k = 0; k < nt; k++) if (T[k].st == T_COND && T[k].obj == c) wake(k, 0);
	point();
	return 0;
}

static int created;

int
__wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	point();
	int k0 = created++;
	if ((so.create_fail >> k0) & 1) return EAGAIN;
	int k = new_thread();
	T[k].fn = fn;
	T[k].arg = arg;
	if (a) {
		int d = 0;
		pthread_attr_getdetachstate(a, &d);
		T[k].detached = d == PTHREAD_CREATE_DETACHED;
	}
	touch(t, sizeof(*t), true);
	*t = (pthread_t)(k + 1000);
	point();
	return 0;
}

int
__wrap_pthread_join(pthread_t t, void** r)
{
	point();
	int k = (int)t - 1000;
	if (k < 0 || k >= nt) sched_fault("joining a thread that was never created");
	if (T[k].joined || T[k].detached) sched_fault("joining a thread twice");
	T[k].joined = true;
	if (T[k].st != T_DONE) {
		T[cur].st = T_JOIN;
		T[cur].obj = (void*)(intptr_t)k;
		block();
		T[cur].st = T_RUN;
	}
	join(&V[cur], &V[k]);
	if (r) *r = T[k].ret;
	return 0;
}

int
__wrap_pthread_detach(pthread_t t)
{
	int k = (int)t - 1000;
	if (k < 0 || k >= nt) sched_fault("detaching a thread that was never created");
	T[k].detached = true;
	return 0;
}

pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1000); }
int __wrap_pthread_setname_np(pthread_t t, const char* n) { (void)t; (void)n; return 0; }
int __wrap_prctl(int a, ...) { (void)a; return 0; }

/* other ways to exclude each other */
int __wrap_pthread_spin_init(pthread_spinlock_t* m, int s) { (void)s; mnew((void*)m); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t* m) { mget((void*)m)->state = 1; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return __wrap_pthread_mutex_lock((pthread_mutex_t*)m); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { return __wrap_pthread_mutex_trylock((pthread_mutex_t*)m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return __wrap_pthread_mutex_unlock((pthread_mutex_t*)m); }

int __wrap_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { (void)a; mnew(m); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* m) { mget(m)->state = 1; return 0; }

static int
rw(pthread_rwlock_t* m, int want)
{
	point();
	mtx* x = mget(m);
	while (want == 1 ? x->owner >= 0 : (x->owner >= 0 || x->readers > 0)) {
		T[cur].st = T_RW;
		T[cur].obj = m;
		T[cur].want = want;
		block();
		x = mget(m);
	}
	T[cur].st = T_RUN;
	if (want == 1) x->readers++; else x->owner = cur;
	join(&V[cur], &x->v);
	return 0;
}

int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw(m, 1); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw(m, 2); }

int
__wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	point();
	mtx* x = mget(m);
	publish(&x->v);
	if (x->owner == cur) x->owner = -1;
	else if (x->readers > 0) x->readers--;
	else sched_fault("a lock is released that is not held");
	point();
	return 0;
}

int
__wrap_pthread_once(pthread_once_t* o, void (*fn)(void))
{
	mtx* x = mget(o);
	if (x->val == 0) { x->val = 1; fn(); x->val = 2; }
	return 0;
}

int __wrap_sched_yield(void) { if (running && ! quiet) { steps++; reschedule(true, true); } return 0; }
int __wrap_usleep(unsigned us) { vnow += (int64_t)us * 1000; return __wrap_sched_yield(); }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; vnow += a->tv_sec * 1000000000LL + a->tv_nsec; return __wrap_sched_yield(); }

int
__wrap_clock_gettime(clockid_t k, struct timespec* ts)
{
	if (! running) return __real_clock_gettime(k, ts);
	point();
	int64_t t = wall(k) ? vnow : vnow - UPTIME_BASE;
	ts->tv_sec = t / 1000000000LL;
	ts->tv_nsec = t % 1000000000LL;
	return 0;
}

int
__wrap_gettimeofday(struct timeval* tv, void* z)
{
	(void)z;
	point();
	tv->tv_sec = vnow / 1000000000LL;
	tv->tv_usec = vnow % 1000000000LL / 1000;
	return 0;
}

time_t __wrap_time(time_t* t) { point(); if (t) *t = vnow / 1000000000LL; return vnow / 1000000000LL; }

/* ------------------------------------------------------------- exploration */
static void
on_signal(int s)
{
	if (running) sched_fault("signal %d", s);
	_exit(97);
}

/* the library's variables, gathered in sections of their own */
extern uint8_t __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
extern uint8_t __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
static uint8_t *bss0, *data0;

static void
library_state(void)
{
	size_t nb_ = (size_t)(__stop_libbss - __start_libbss), nd = (size_t)(__stop_libdata - __start_libdata);
	if (! bss0) {
		bss0 = __real_malloc(nb_ + 1);
		data0 = __real_malloc(nd + 1);
		__real_memcpy(bss0, __start_libbss, nb_);
		__real_memcpy(data0, __start_libdata, nd);
	}
	else {
		__real_memcpy(__start_libbss, bss0, nb_);
		__real_memcpy(__start_libdata, data0, nd);
	}
}

static void
once(void (*body)(void*), void* arg)
{
	ng = 0;
	library_state();
	nc = 0;
	nt = 0;
	nm = 0;
	nb = 0;
	aoff = 0;
	hn = 0;
	if (hcap) hist[0] = 0;
	pos = 0;
	preempts = extras = 0;
	steps = idle = 0;
	quiet = 0;
	created = 0;
	vnow = 1700000000LL * 1000000000LL;
	prog_rng = so.seed * 77 + 5;
	new_thread();
	T[0].vfn = body;
	T[0].arg = arg;
	cur = 0;
	running = true;
	swapcontext(&main_ctx, &T[0].ctx);
	running = false;
}

static void
one_run(void (*body)(void*), void* arg)
{
	uint64_t r0 = rng;
	for (pass = 0; pass < so.passes; pass++) {
		rng = r0;
		once(body, arg);
	}
	sched_runs++;
	uint64_t h = 1469598103934665603ULL;
	for (size_t k = 0; k < hn; k++) h = (h ^ (uint8_t)hist[k]) * 1099511628211ULL;
	if (fresh(h)) {
		fputs(head_, out);
		fwrite(hist, 1, hn, out);
		sched_histories++;
	}
}

void
sched_explore(const char* head, void (*body)(void*), void* arg)
{
	static uint8_t altstack[65536];
	if (! arena) {
		arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		stack_t ss = {.ss_sp = altstack, .ss_size = sizeof(altstack)};
		sigaltstack(&ss, NULL);
		struct sigaction sa = {.sa_handler = on_signal, .sa_flags = SA_ONSTACK};
		sigaction(SIGSEGV, &sa, NULL);
		sigaction(SIGBUS, &sa, NULL);
		sigaction(SIGFPE, &sa, NULL);
		sigaction(SIGABRT, &sa, NULL);
	}
	head_ = head;
	if (! hist) { hcap = 65536; hist = __real_malloc(hcap); hist[0] = 0; }
	nseen = 0;
	if (seen) __real_memset(seen, 0, seencap * 8);
	phase = 0;
	int save = so.extra;
	for (bound = 0; bound <= so.preempt; bound++) {
		so.extra = bound ? save : 0;
		nch = 0;
		uint64_t n = 0;
		do {
			one_run(body, arg);
		} while (advance() && ++n < so.max_runs);
	}
	so.extra = save;
	phase = 1;
	rng = so.seed * 1000003 + 17;
	for (uint64_t k = 0; k < so.random_runs; k++) {
		npct = (int[]){2, 5, 10, 25, 50}[k % 5];
		nch = 0;
		one_run(body, arg);
	}
	phase = 0;
}
