// Native runtime for replaying a counterexample of the symbolic engine on the compiled code.
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef uint64_t u64;
typedef unsigned __int128 u128;

static u64 *inputs; static size_t nin, pin;
static struct { int tid; long h; } segs[1 << 16];
static int nseg, iseg;
static int scheduling;
static int done_[4];
static long hooks_[4];
static __thread int me;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static u64 expect_panic_id;
static long total_hooks;

static void out(const char *kind, u64 id, const char *extra) {
    char b[256];
    int n = snprintf(b, sizeof b, "VS-VIOLATION %s %llu %s\n", kind, (unsigned long long)id, extra);
    if (write(1, b, n) < 0) {}
    _exit(1);
}
static void on_sig(int s) {
    if (s == SIGALRM) { if (write(1, "VS-TIMEOUT\n", 11) < 0) {} _exit(4); }
    if (s == SIGABRT || s == SIGTRAP || s == SIGILL) {
        if (expect_panic_id) { if (write(1, "VS-EXPECTED-PANIC\n", 18) < 0) {} _exit(0); }
        out("panic", 0, "");
    }
    if (s == SIGFPE) out("division-by-zero", 0, "");
    out("invalid-pointer", 0, "signal");
}

/* ---- allocation: bump arena, never reused ---- */
#define ARENA (1ull << 32)
static char *arena; static u64 top;
typedef struct { u64 base, size, align; int freed; } Blk;
static Blk *blks; static long nblk, live_;
static pthread_mutex_t amu = PTHREAD_MUTEX_INITIALIZER;

void *vs_alloc(u64 size, u64 align) {
    pthread_mutex_lock(&amu);
    u64 a = align < 16 ? 16 : align;
    top = (top + 64 + a - 1) / a * a;
    Blk *b = &blks[nblk++];
    b->base = (u64)arena + top; b->size = size; b->align = align; b->freed = 0;
    top += size;
    memset((void *)b->base, 0xA5, size);
    live_++;
    pthread_mutex_unlock(&amu);
    return (void *)b->base;
}
static Blk *find(u64 p) {
    long lo = 0, hi = nblk - 1, r = -1;
    while (lo <= hi) {
        long m = (lo + hi) / 2;
        if (blks[m].base <= p) { r = m; lo = m + 1; } else hi = m - 1;
    }
    return r < 0 ? 0 : &blks[r];
}
static void memcheck(u64 p, u64 n) {
    if (p >= (u64)arena && p < (u64)arena + ARENA) {
        pthread_mutex_lock(&amu);
        Blk *b = find(p);
        int bad = 0;
        if (!b || p + n > b->base + b->size) bad = 1;
        else if (b->freed) bad = 2;
        pthread_mutex_unlock(&amu);
        if (bad == 1) out("out-of-bounds", 0, "");
        if (bad == 2) out("use-after-free", 0, "");
    }
}

/* ---- weak memory: the writer ran as a whole, reads of the reader are served from its log ---- */
static int weak_;
typedef struct { long hook; u64 p; unsigned n; unsigned char old[32]; } Went;
static Went *wlog; static long nwlog;
static struct { long h, w; } wrd[1 << 16]; static int nwrd;
static char wheld[4096]; static int nwheld, pwheld;
static u64 patch_p; static unsigned patch_n; static unsigned char patch_b[32];
static void unpatch(void) {
    if (patch_n) { memcpy((void *)patch_p, patch_b, patch_n); patch_n = 0; }
}
static void weak_hook(u64 p, u64 n, int w, long h) {
    if (me == 1 && w && n <= 32) {
        Went *e = &wlog[nwlog++];
        e->hook = h; e->p = p; e->n = n;
        memcpy(e->old, (void *)p, n);
    }
    if (me == 2 && !w && n <= 32)
        for (int i = 0; i < nwrd; i++)
            if (wrd[i].h == h && wrd[i].w >= 0) {
                unsigned char b[32];
                memcpy(b, (void *)p, n);
                for (long k = nwlog - 1; k >= 0 && wlog[k].hook >= wrd[i].w; k--)
                    for (unsigned j = 0; j < wlog[k].n; j++)
                        if (wlog[k].p + j >= p && wlog[k].p + j < p + n) b[wlog[k].p + j - p] = wlog[k].old[j];
                memcpy(patch_b, (void *)p, n);
                patch_p = p; patch_n = n;
                memcpy((void *)p, b, n);
                break;
            }
}

/* ---- scheduling ---- */
static void gate(void) {
    if (!scheduling || !me) return;
    if (me == 2) unpatch();
    pthread_mutex_lock(&mu);
    for (;;) {
        if (iseg >= nseg) { // default: run the reader, then the writer
            segs[nseg].tid = !done_[2] ? 2 : !done_[1] ? 1 : 3; segs[nseg].h = -1; nseg++;
        }
        int t = segs[iseg].tid; long h = segs[iseg].h;
        if (done_[t] || (h >= 0 && hooks_[t] >= h)) { iseg++; pthread_cond_broadcast(&cv); continue; }
        if (t == me) break;
        pthread_cond_wait(&cv, &mu);
    }
    hooks_[me]++;
    if (++total_hooks > 30000000) out("no-progress", 0, "");
    pthread_mutex_unlock(&mu);
}
void vs_hook(u64 p, u64 n, int w) {
    gate();
    memcheck(p, n);
    if (weak_ && scheduling && me) weak_hook(p, n, w, hooks_[me] - 1);
}
static void *start(void *a);
struct job { void (*f)(void *); void *a; int tid; };
static void *start(void *a) {
    struct job *j = a;
    me = j->tid;
    j->f(j->a);
    if (me == 2) unpatch();
    pthread_mutex_lock(&mu);
    done_[me] = 1;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
    return 0;
}
void vs_run2(u64 mode, void (*f0)(void *), void *a0, void (*f1)(void *), void *a1) {
    (void)mode;
    pthread_t t[2];
    struct job j[2] = {{f0, a0, 1}, {f1, a1, 2}};
    memset(done_, 0, sizeof done_);
    memset(hooks_, 0, sizeof hooks_);
    scheduling = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64 << 20);
    for (int i = 0; i < 2; i++) pthread_create(&t[i], &at, start, &j[i]);
    for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
    scheduling = 0;
}
void vs_run3(u64 mode, void (*f0)(void *), void *a0, void (*f1)(void *), void *a1, void (*f2)(void *), void *a2) {
    (void)mode;
    pthread_t t[3];
    struct job j[3] = {{f0, a0, 1}, {f1, a1, 3}, {f2, a2, 2}};
    memset(done_, 0, sizeof done_);
    memset(hooks_, 0, sizeof hooks_);
    scheduling = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64 << 20);
    for (int i = 0; i < 3; i++) pthread_create(&t[i], &at, start, &j[i]);
    for (int i = 0; i < 3; i++) pthread_join(t[i], 0);
    scheduling = 0;
}
void vs_memcpy(char *d, const char *s, u64 n, int v) {
    (void)v;
    u64 w = (n + 7) / 8;
    char stackbuf[4096];
    char *buf = n <= sizeof stackbuf ? stackbuf : malloc(n);
    for (u64 i = 0; i < w; i++) {
        u64 k = n - i * 8 < 8 ? n - i * 8 : 8;
        vs_hook((u64)s + i * 8, k, 0);
        memcpy(buf + i * 8, s + i * 8, k);
    }
    for (u64 i = 0; i < w; i++) {
        u64 k = n - i * 8 < 8 ? n - i * 8 : 8;
        vs_hook((u64)d + i * 8, k, 1);
        memcpy(d + i * 8, buf + i * 8, k);
    }
    if (buf != stackbuf) free(buf);
}
void vs_memset(char *d, char c, u64 n, int v) {
    (void)v;
    for (u64 i = 0; i < n; i += 8) {
        u64 k = n - i < 8 ? n - i : 8;
        vs_hook((u64)d + i, k, 1);
        memset(d + i, c, k);
    }
}
int vs_memcmp(const unsigned char *a, const unsigned char *b, u64 n) {
    int r = 0;
    for (u64 i = 0; i < n; i += 8) {
        u64 k = n - i < 8 ? n - i : 8;
        unsigned char x[8], y[8];
        vs_hook((u64)a + i, k, 0);
        memcpy(x, a + i, k);
        vs_hook((u64)b + i, k, 0);
        memcpy(y, b + i, k);
        if (!r) r = memcmp(x, y, k);
    }
    return r;
}
int vs_bcmp(const unsigned char *a, const unsigned char *b, u64 n) { return vs_memcmp(a, b, n) != 0; }
void vs_unreachable(void) { out("undefined-behaviour", 0, "unreachable"); }
void vs_assume_ub(char c) { if (!(c & 1)) out("undefined-behaviour", 1, "assume"); }

void vs_free(u64 p, u64 n, u64 al) {
    gate();
    pthread_mutex_lock(&amu);
    Blk *b = find(p);
    const char *bad = 0;
    if (!b || p >= b->base + (b->size ? b->size : 1)) bad = "free-of-non-heap";
    else if (b->base != p) bad = "free-of-interior-pointer";
    else if (b->freed) bad = "double-free";
    else if (b->size != n || b->align != al) bad = "free-with-wrong-layout";
    else { b->freed = 1; live_--; }
    pthread_mutex_unlock(&amu);
    if (bad) out(bad, 0, "");
}

/* ---- inputs and checks ---- */
static u64 next(void) { return pin < nin ? inputs[pin++] : 0; }
u64 vs_u64(u64 n) { (void)n; return next(); }
u64 vs_choose(u64 n) { (void)n; return next(); }
u64 vs_part(u64 n) { (void)n; return next(); }
u64 vs_conc(u64 v) { return v; }
void vs_bytes(unsigned char *p, u64 n) { for (u64 i = 0; i < n; i++) p[i] = (unsigned char)next(); }
void vs_assume(char c) { if (!(c & 1)) { printf("VS-ASSUME-FAILED\n"); fflush(stdout); _exit(3); } }
static long nassert;
void vs_assert(char c, u64 id) { __sync_fetch_and_add(&nassert, 1); if (!(c & 1)) out("assert", id, ""); }
void vs_cover(u64 id) { (void)id; }
u64 vs_live(void) { return live_; }
void vs_expect_panic(u64 id) { expect_panic_id = id; }

/* the clock of the scenario: every reading by a thread advances it by 300 us */
static __thread u64 clock_;
int vs_clock_gettime(int id, long *ts) {
    (void)id;
    clock_ += 300000;
    ts[0] = 1000 + clock_ / 1000000000;
    ts[1] = clock_ % 1000000000;
    return 0;
}

static u64 cpu_ = 2;
void vs_cpu(u64 level) { cpu_ = level; }
u128 vs_cpu_features(void) { return cpu_ == 0 ? 0xff : cpu_ == 1 ? 0x7ff : 0xffff; }

/* ---- guards ---- */
typedef struct { u64 ptr, f, h[32]; int nh; } Ret;
typedef struct { u64 act[32]; int na; Ret r[65536]; int nr; } Col;
static Col *cols[4096]; static int ncol; static u64 ngid = 1;
static pthread_mutex_t gmu = PTHREAD_MUTEX_INITIALIZER;
u64 vs_guard_new_collector(void) { cols[ncol] = calloc(1, sizeof(Col)); return ncol++; }
static int weak_entered;
u64 vs_guard_enter(u64 c) {
    gate();
    pthread_mutex_lock(&gmu);
    u64 g = weak_ && me == 2 && !weak_entered && nwheld ? (weak_entered = 1, ~0ull) : ngid++;
    cols[c]->act[cols[c]->na++] = g;
    pthread_mutex_unlock(&gmu);
    return g;
}
void vs_guard_leave(u64 c, u64 g) {
    gate();
    pthread_mutex_lock(&gmu);
    Col *k = cols[c];
    int j = 0;
    for (int i = 0; i < k->na; i++) if (k->act[i] != g) k->act[j++] = k->act[i];
    k->na = j;
    for (int i = 0; i < k->nr; i++) {
        int m = 0;
        for (int x = 0; x < k->r[i].nh; x++) if (k->r[i].h[x] != g) k->r[i].h[m++] = k->r[i].h[x];
        k->r[i].nh = m;
    }
    pthread_mutex_unlock(&gmu);
}
void vs_guard_retire(u64 c, u64 p, u64 f) {
    gate();
    pthread_mutex_lock(&gmu);
    Col *k = cols[c];
    Ret *r = &k->r[k->nr++];
    r->ptr = p; r->f = f; r->nh = k->na;
    memcpy(r->h, k->act, sizeof(u64) * k->na);
    if (weak_ && me == 1 && pwheld < nwheld && wheld[pwheld++]) r->h[r->nh++] = ~0ull;
    pthread_mutex_unlock(&gmu);
}
u64 vs_guard_pop(u64 c, u64 all, u64 *pp, u64 *pf) {
    gate();
    pthread_mutex_lock(&gmu);
    Col *k = cols[c];
    for (int i = 0; i < k->nr; i++)
        if (all || k->r[i].nh == 0) {
            *pp = k->r[i].ptr; *pf = k->r[i].f;
            memmove(&k->r[i], &k->r[i + 1], sizeof(Ret) * (k->nr - i - 1));
            k->nr--;
            pthread_mutex_unlock(&gmu);
            return 1;
        }
    pthread_mutex_unlock(&gmu);
    return 0;
}

/* ---- 128-bit atomics: one indivisible access each (only one thread runs at a time) ---- */
static void al16(u64 p) { if (p & 15) out("misaligned-atomic", 0, ""); }
u128 vs_a128_load(u128 *p, u64 o) { (void)o; vs_hook((u64)p, 16, 0); al16((u64)p); return *p; }
void vs_a128_store(u128 *p, u128 v, u64 o) { (void)o; vs_hook((u64)p, 16, 1); al16((u64)p); *p = v; }
u128 vs_a128_rmw(u128 *p, u64 op, u128 old, u128 v, u64 o) {
    (void)o;
    vs_hook((u64)p, 16, 1);
    al16((u64)p);
    u128 r = *p;
    switch (op) {
    case 0: *p = v; break;
    case 1: if (r == old) *p = v; break;
    case 2: *p = r + v; break;
    case 3: *p = r - v; break;
    case 4: *p = r & v; break;
    case 5: *p = r | v; break;
    default: *p = r ^ v; break;
    }
    return r;
}

extern struct { const char *name; void (*f)(void); } vs_table[];

int main(int argc, char **argv) {
    if (argc < 2) return 2;
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    char name[256] = "", w[256];
    inputs = calloc(1 << 20, 8);
    while (fscanf(f, "%255s", w) == 1) {
        if (!strcmp(w, "fn")) { if (fscanf(f, "%255s", name) != 1) return 2; }
        else if (!strcmp(w, "in")) { unsigned long long v; if (fscanf(f, "%llx", &v) != 1) return 2; inputs[nin++] = v; }
        else if (!strcmp(w, "seg")) { int t; long h; if (fscanf(f, "%d %ld", &t, &h) != 2) return 2; 
            if (t == 19) { weak_ = 1; wlog = mmap(0, sizeof(Went) << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
            else if (t == 18) wheld[nwheld++] = h;
            else if (t == 16) { wrd[nwrd].h = h; }
            else if (t == 17) { wrd[nwrd++].w = h; }
            else if (nseg < 60000) { segs[nseg].tid = t; segs[nseg].h = h; nseg++; } }
        else { char *l = 0; size_t n = 0; if (getline(&l, &n, f) < 0) break; free(l); }
    }
    fclose(f);
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blks = mmap(0, sizeof(Blk) << 22, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int ss[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE, SIGALRM};
    static char alt[1 << 16];
    stack_t st = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&st, 0);
    for (unsigned i = 0; i < sizeof ss / sizeof *ss; i++) {
        struct sigaction sa = {.sa_handler = on_sig, .sa_flags = SA_ONSTACK};
        sigaction(ss[i], &sa, 0);
    }
    alarm(60);
    for (int i = 0; vs_table[i].name; i++)
        if (!strcmp(vs_table[i].name, name)) {
            vs_table[i].f();
            printf("VS-OK %ld\n", nassert);
            return 0;
        }
    printf("VS-NO-SUCH-FUNCTION %s\n", name);
    return 2;
}
