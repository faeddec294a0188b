/*
 * C25: concurrent calls on separate buffers.
 * The library is compiled with every memory access turned into a call of the functions below (the compiler's thread
 * sanitiser instrumentation, with this scheduler in place of its runtime).  Two calls run as coroutines; the explorer
 * decides at every access who goes on.  Accesses to a thread's own stack and output buffer are invisible to the other one.
 */
#define _GNU_SOURCE
#include <link.h>
#include "api.h"
#include "../ref/ref_case.h"

extern char __start_lgdata[] __attribute__((weak)), __stop_lgdata[] __attribute__((weak));
extern char __start_lgbss[] __attribute__((weak)), __stop_lgbss[] __attribute__((weak));
struct region { uint8_t *p; size_t n; };
static struct region reg[2], tls;
static int nreg;

static int
tls_find(struct dl_phdr_info *i, size_t size, void *x)
{
	int k;
	(void)x; (void)size;
	for (k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) tls = (struct region){ i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz };
	return 1;
}

/* ---- threads */
#define STACK (256 * 1024)
#define NT 3
struct thread {
	void *sp;
	uint8_t *stack;
	struct bufs b;
	struct result res;
	const struct op *op;
	bool done;
	uint8_t *tls;
	uint64_t steps;
};
static struct thread *th; /* [NT] */
static int cur = -1;      /* running thread; -1: the explorer */
static void *main_sp;
static uint64_t budget;   /* visible accesses until the running thread is preempted */
static uint8_t *hs0, *tls0;

__attribute__((naked, noinline)) static void
switch_to(void **save, void *sp)
{
	__asm__ volatile(
	    "pushq %rbp\n\tpushq %rbx\n\tpushq %r12\n\tpushq %r13\n\tpushq %r14\n\tpushq %r15\n\t"
	    "movq %rsp, (%rdi)\n\tmovq %rsi, %rsp\n\t"
	    "popq %r15\n\tpopq %r14\n\tpopq %r13\n\tpopq %r12\n\tpopq %rbx\n\tpopq %rbp\n\tret\n");
}
static void
thread_main(void)
{
	struct thread *t = &th[cur];
	op_run(t->op, &t->b, &t->res);
	t->done = true;
	switch_to(&t->sp, main_sp);
	abort();
}
static void
thread_start(int i, const struct op *o, struct input *in)
{
	struct thread *t = &th[i];
	void **sp;
	t->op = o;
	t->done = false;
	t->steps = 0;
	t->b.i = in;
	memset(t->b.out, 0x33, sizeof(t->b.out));
	sp = (void **)(t->stack + STACK - 64);
	*--sp = NULL;                 /* keeps the stack aligned as after a call */
	*--sp = (void *)thread_main;
	sp -= 6;
	memset(sp, 0, 48);
	t->sp = sp;
	if (tls.n) memcpy(t->tls, tls0, tls.n);
}
/* lets thread i run for n visible accesses (or to its end) */
static void
thread_run(int i, uint64_t n)
{
	if (th[i].done || n == 0) return;
	budget = n;
	cur = i;
	if (tls.n) memcpy(tls.p, th[i].tls, tls.n);
	switch_to(&main_sp, th[i].sp);
	if (tls.n) memcpy(th[i].tls, tls.p, tls.n);
	cur = -1;
	W->trans++;
}

/* ---- accesses */
enum { A_READ = 0, A_WRITE = 1, A_ATOMIC = 2 };
static uint64_t n_visible, n_shared_write, n_atomic;
#define MAXSW 64
static struct { uintptr_t a; int size; } sw[MAXSW]; /* what the recorded call wrote outside its own memory */
static int nsw;
static bool recording, yielding;
static uintptr_t own_lo, own_hi; /* output of the recorded call */

static inline void
acc_(const void *p, size_t size, int kind)
{
	uintptr_t a = (uintptr_t)p;
	struct thread *t;
	if (cur < 0) return;
	t = &th[cur];
	if (a - (uintptr_t)t->stack < STACK) return;
	if (tls.n && a - (uintptr_t)tls.p < tls.n) return;
	t->steps++;
	n_visible++;
	if (kind & A_ATOMIC) n_atomic++;
	if (recording && (kind & A_WRITE) && !(kind & A_ATOMIC) && !(a - (uintptr_t)&t->b < sizeof(t->b)) && !(a >= own_lo && a < own_hi)) {
		n_shared_write++;
		if (nsw < MAXSW) { sw[nsw].a = a; sw[nsw].size = (int)size; nsw++; }
	}
	if (yielding && --budget == 0) switch_to(&t->sp, main_sp);
}
#define ACC(n) \
	void __tsan_read##n(void *a) { acc_(a, n, A_READ); } \
	void __tsan_write##n(void *a) { acc_(a, n, A_WRITE); } \
	void __tsan_unaligned_read##n(void *a) { acc_(a, n, A_READ); } \
	void __tsan_unaligned_write##n(void *a) { acc_(a, n, A_WRITE); } \
	void __tsan_read_write##n(void *a) { acc_(a, n, A_READ | A_WRITE); } \
	void __tsan_unaligned_read_write##n(void *a) { acc_(a, n, A_READ | A_WRITE); } \
	void __tsan_volatile_read##n(void *a) { acc_(a, n, A_READ); } \
	void __tsan_volatile_write##n(void *a) { acc_(a, n, A_WRITE); } \
	void __tsan_unaligned_volatile_read##n(void *a) { acc_(a, n, A_READ); } \
	void __tsan_unaligned_volatile_write##n(void *a) { acc_(a, n, A_WRITE); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_read_range(void *a, size_t n) { acc_(a, n, A_READ); }
void __tsan_write_range(void *a, size_t n) { acc_(a, n, A_WRITE); }
void __tsan_vptr_read(void *a) { acc_(a, 8, A_READ); }
void __tsan_vptr_update(void *a, void *b) { (void)b; acc_(a, 8, A_WRITE); }
/* copies are not atomic: byte by byte */
void *__tsan_memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; i++) { acc_((const char *)s + i, 1, A_READ); acc_((char *)d + i, 1, A_WRITE); ((volatile char *)d)[i] = ((const volatile char *)s)[i]; } return d; }
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	size_t i;
	if ((uintptr_t)d <= (uintptr_t)s) return __tsan_memcpy(d, s, n);
	for (i = n; i-- > 0;) { acc_((const char *)s + i, 1, A_READ); acc_((char *)d + i, 1, A_WRITE); ((volatile char *)d)[i] = ((const volatile char *)s)[i]; }
	return d;
}
void *__tsan_memset(void *d, int c, size_t n) { size_t i; for (i = 0; i < n; i++) { acc_((char *)d + i, 1, A_WRITE); ((volatile char *)d)[i] = (char)c; } return d; }
#define ATOMIC(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int o) { (void)o; acc_((const void *)a, sizeof(T), A_READ | A_ATOMIC); return *a; } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int o) { (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { T x; (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); x = *a; *a = v; return x; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) { T x; (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); x = *a; *a = (T)(x + v); return x; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) { T x; (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); x = *a; *a = (T)(x - v); return x; } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) { T x; (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); x = *a; *a = x & v; return x; } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) { T x; (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); x = *a; *a = x | v; return x; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o) { T x; (void)o; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); x = *a; *a = x ^ v; return x; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, o, f); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { (void)o; (void)f; acc_((const void *)a, sizeof(T), A_WRITE | A_ATOMIC); if (*a == c) { *a = v; return c; } return *a; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* ---- executions */
static struct input *in_text; /* [ntexts * 3]: shared by all threads, prepared once; the third index is the direction */
static struct result *solo;   /* of every operation, run alone */
static uint64_t *solo_steps;
static bool atomics;          /* the library synchronises: shared writes alone are no race then */

static void
reset(void)
{
	uint8_t *d = hs0;
	int k;
	for (k = 0; k < nreg; d += reg[k].n, k++) if (memcmp(reg[k].p, d, reg[k].n)) memcpy(reg[k].p, d, reg[k].n);
}
static struct input *input_of(const struct op *o) { return &in_text[o->text * 3 + (o->mode >> 3)]; }

static bool
finish_check(int i, int k, const char *how)
{
	if (result_same(&th[i].res, &solo[k])) return true;
	{
		char a[200], sig[160];
		op_name(a, sizeof(a), &ops[k]);
		snprintf(sig, sizeof(sig), "interference:%s", fn_names[ops[k].fn]);
		W->n = 0;
		fail(sig, "%s gives another result (%zu, %llu) than alone (%zu, %llu): %s", a, th[i].res.r, (unsigned long long)th[i].res.extra, solo[k].r, (unsigned long long)solo[k].extra, how);
	}
	return false;
}
static void
what_pair(int a, int b)
{
	char x[120], y[120];
	op_name(x, sizeof(x), &ops[a]);
	op_name(y, sizeof(y), &ops[b]);
	snprintf(W->what, sizeof(W->what), "%s || %s", x, y);
}
static void
data_race(const char *name, uintptr_t a, int size)
{
	char sig[160], where[100] = "memory";
	if (nreg && a >= (uintptr_t)__start_lgdata && a < (uintptr_t)__stop_lgdata) snprintf(where, sizeof(where), "the library's .data+0x%lx", (unsigned long)(a - (uintptr_t)__start_lgdata));
	else if (nreg && a >= (uintptr_t)__start_lgbss && a < (uintptr_t)__stop_lgbss) snprintf(where, sizeof(where), "the library's .bss+0x%lx", (unsigned long)(a - (uintptr_t)__start_lgbss));
	else if (a >= (uintptr_t)in_text && a < (uintptr_t)(in_text + ntexts * 3)) snprintf(where, sizeof(where), "its input");
	snprintf(sig, sizeof(sig), "race:%.100s", name);
	fail(sig, "%s writes %d bytes of %s, which another thread running the same call on its own output buffer writes, too: a data race", name, size, where);
}

/* one call alone, recorded: shared writes race with the same call in another thread */
static void
record(int k)
{
	struct op *o = &ops[k];
	char nm[200];
	reset();
	op_name(nm, sizeof(nm), o);
	snprintf(W->what, sizeof(W->what), "%s", nm);
	thread_start(0, o, input_of(o));
	nsw = 0;
	n_atomic = 0;
	recording = true;
	yielding = false;
	own_lo = own_hi = 0;
	thread_run(0, UINT64_MAX);
	recording = false;
	W->states++;
	if (n_atomic) atomics = true;
	else if (nsw) data_race(nm, sw[0].a, sw[0].size);
}

/* pairs with one preemption at every visible access of the first */
static int *sel, nsel, *tiny, ntiny, *trio, ntrio;
static int bound;
static void
pair_job(unsigned long job)
{
	const int *s = bound == 1 ? sel : tiny;
	int n = bound == 1 ? nsel : ntiny, a = s[job / (unsigned)n], b = s[job % (unsigned)n];
	uint64_t i, j, na = solo_steps[a], nb = solo_steps[b];
	char how[120];
	what_pair(a, b);
	yielding = true;
	for (i = 1; i <= na; i++) {
		for (j = bound == 1 ? nb : 1; j <= nb; j++) {
			reset();
			thread_start(0, &ops[a], input_of(&ops[a]));
			thread_start(1, &ops[b], input_of(&ops[b]));
			thread_run(0, i);
			thread_run(1, bound == 1 ? UINT64_MAX : j);
			thread_run(0, UINT64_MAX);
			thread_run(1, UINT64_MAX);
			W->states++;
			snprintf(how, sizeof(how), "preempted at access %llu, %s at %llu", (unsigned long long)i, bound == 1 ? "the other one done" : "the other one", (unsigned long long)j);
			if (!finish_check(0, a, how) || !finish_check(1, b, how)) return;
			W->traces++;
		}
		if (stopped()) return;
	}
}
/* all interleavings of two calls up to three preemptions for the smallest ones */
static void
deep_job(unsigned long job)
{
	int a = trio[job / (unsigned)ntrio], b = trio[job % (unsigned)ntrio];
	uint64_t i, j, k, na = solo_steps[a], nb = solo_steps[b];
	char how[120];
	what_pair(a, b);
	yielding = true;
	for (i = 1; i <= na; i++)
		for (j = 1; j <= nb; j++) {
			for (k = 1; i + k <= na; k++) {
				reset();
				thread_start(0, &ops[a], input_of(&ops[a]));
				thread_start(1, &ops[b], input_of(&ops[b]));
				thread_run(0, i);
				thread_run(1, j);
				thread_run(0, k);
				thread_run(1, UINT64_MAX);
				thread_run(0, UINT64_MAX);
				W->states++;
				snprintf(how, sizeof(how), "preempted at access %llu, the other one at %llu, again at %llu", (unsigned long long)i, (unsigned long long)j, (unsigned long long)(i + k));
				if (!finish_check(0, a, how) || !finish_check(1, b, how)) return;
				W->traces++;
			}
			if (stopped()) return;
		}
}
/* three threads, each preempted once */
static void
three_job(unsigned long job)
{
	int a = trio[job / (unsigned)ntrio], b = trio[job % (unsigned)ntrio], c, x;
	uint64_t i, j;
	what_pair(a, b);
	yielding = true;
	for (x = 0; x < ntrio; x++) {
		c = trio[x];
		for (i = 1; i <= solo_steps[a]; i++)
			for (j = 1; j <= solo_steps[b]; j++) {
				reset();
				thread_start(0, &ops[a], input_of(&ops[a]));
				thread_start(1, &ops[b], input_of(&ops[b]));
				thread_start(2, &ops[c], input_of(&ops[c]));
				thread_run(0, i);
				thread_run(1, j);
				thread_run(2, UINT64_MAX);
				thread_run(0, UINT64_MAX);
				thread_run(1, UINT64_MAX);
				W->states++;
				if (!finish_check(0, a, "three threads") || !finish_check(1, b, "three threads") || !finish_check(2, c, "three threads")) return;
				W->traces++;
			}
		if (stopped()) return;
	}
}

/* recorded calls on every short text: the shared writes of any of them */
static cp_t al[400];
static int nal, s_len;
static struct { const char *name; int fn0, fn1; } grp;
static struct op dyn;
static void
dyn_main(int fn, int mode, int x)
{
	struct text *t = &texts[47];
	char nm[260];
	dyn = (struct op){ (uint8_t)fn, 47, (uint8_t)mode };
	thread_start(0, &dyn, &in_text[0]);
	nsw = 0;
	n_atomic = 0;
	recording = true;
	yielding = false;
	thread_run(0, UINT64_MAX);
	recording = false;
	(void)x; (void)t;
	if (nsw && !n_atomic && !atomics) {
		size_t l = (size_t)snprintf(nm, sizeof(nm), "%s(", fn_names[fn]), i;
		for (i = 0; i < t->n && l + 12 < sizeof(nm); i++) l += (size_t)snprintf(nm + l, sizeof(nm) - l, "%s%04X", i ? " " : "", (unsigned)t->cp[i]);
		snprintf(nm + l, sizeof(nm) - l, ")");
		data_race(nm, sw[0].a, sw[0].size);
	}
}
static void
dyn_text(const int *d, int n)
{
	struct text *t = &texts[47];
	int i, f;
	static const enum grapheme_bidirectional_direction ov[3] = { GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
	t->name = "short";
	t->n = (size_t)n;
	t->nb = 0;
	for (i = 0; i < n; i++) { t->cp[i] = al[d[i]]; t->nb += ref_encode(al[d[i]], t->by + t->nb); }
	W->kind = 1;
	W->n = (size_t)n;
	memcpy(W->cp, t->cp, (size_t)n * 4);
	memcpy(in_text[0].in, t->cp, t->n * 4);
	memcpy(in_text[0].in8, t->by, t->nb);
	in_text[0].in[n] = 0;
	in_text[0].in8[t->nb] = 0;
	reset();
	for (f = grp.fn0; f < grp.fn1; f++) {
		int dir;
		for (dir = 0; dir < (f == FN_PRE || f == FN_LEV || f == FN_REO ? 3 : 1); dir++) {
			if (f == FN_LEV || f == FN_REO) {
				in_text[0].npar = grapheme_bidirectional_preprocess_paragraph(t->cp, t->n, ov[dir], in_text[0].data, t->n, NULL);
				if (in_text[0].npar > t->n) in_text[0].npar = t->n;
			}
			dyn_main(f, 4 | dir << 3, 0);
			if (f < FN_DEC || f == FN_PRE) dyn_main(f, 5 | dir << 3, 0);
			if ((f >= FN_TO && f < FN_IS) || f >= FN_PRE) { dyn_main(f, 2 | dir << 3, 0); dyn_main(f, 0 | dir << 3, 0); }
		}
	}
	W->states++;
	W->traces++;
}
static void
dyn_job(unsigned long job)
{
	int d[16] = { 0 }, i, fixed = s_len < 2 ? s_len : 2;
	unsigned long v = job;
	if (!th[0].stack) exit(3);
	snprintf(W->what, sizeof(W->what), "%s", grp.name);
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)nal); v /= (unsigned)nal; }
	for (;;) {
		dyn_text(d, s_len);
		for (i = s_len - 1; i >= fixed; i--) {
			if (++d[i] < nal) break;
			d[i] = 0;
		}
		if (i < fixed || stopped()) break;
	}
}
static void
dyn_strings(int len)
{
	s_len = len;
	run_jobs(dyn_job, len == 1 ? (unsigned long)nal : (unsigned long)(nal * nal));
}
static void
dyn_pump_job(unsigned long job)
{
	int d[TMAX], x = (int)job, y, k;
	static const int ks[] = { 9, 33, 64, 65, 66, 127, 130, 190 };
	snprintf(W->what, sizeof(W->what), "%s", grp.name);
	for (y = 0; y < nal; y++)
		for (k = 0; k < (int)REF_LEN(ks); k++) {
			int i;
			for (i = 0; i < ks[k]; i++) d[i] = x;
			d[i++] = y;
			dyn_text(d, i);
			for (i = 0; i < ks[k]; i++) d[i] = i & 1 ? y : x;
			dyn_text(d, i);
			if (stopped()) return;
		}
}

static void
al_classes(int table, int nclass)
{
	struct alphabet *a = malloc(sizeof(*a));
	int i;
	nal = 0;
	alphabet_build(a, table, nclass);
	for (i = 0; i < a->n; i++) al[nal++] = a->rep[i][0];
	free(a);
}

int
main(int argc, char **argv)
{
	int i, t, T, k, len;
	static const struct { const char *name; int fn0, fn1, seg; } groups[] = {
		{ "character functions", FN_NEXT, FN_NEXT + 1, SEG_CHAR }, { "character functions (UTF-8)", FN_NEXT8, FN_NEXT8 + 1, SEG_CHAR }, { "pairwise character break", FN_PAIR, FN_PAIR + 1, SEG_CHAR },
		{ "word functions", FN_NEXT + 1, FN_NEXT + 2, SEG_WORD }, { "word functions (UTF-8)", FN_NEXT8 + 1, FN_NEXT8 + 2, SEG_WORD },
		{ "sentence functions", FN_NEXT + 2, FN_NEXT + 3, SEG_SENT }, { "sentence functions (UTF-8)", FN_NEXT8 + 2, FN_NEXT8 + 3, SEG_SENT },
		{ "line functions", FN_NEXT + 3, FN_NEXT + 4, SEG_LINE }, { "line functions (UTF-8)", FN_NEXT8 + 3, FN_NEXT8 + 4, SEG_LINE },
		{ "bidirectional functions", FN_PRE, FN_NUM, -1 },
	};
	init(argc, argv);
	T = g_thorough;
	texts_init();
	TEXT("tiny", 'a', ' ', 0x5D0);
	TEXT("tiny 2", 0x3A3, '(', 'B');
	ops_init(false);
	if (__start_lgdata && __stop_lgdata > __start_lgdata) reg[nreg++] = (struct region){ (uint8_t *)__start_lgdata, (size_t)(__stop_lgdata - __start_lgdata) };
	if (__start_lgbss && __stop_lgbss > __start_lgbss) reg[nreg++] = (struct region){ (uint8_t *)__start_lgbss, (size_t)(__stop_lgbss - __start_lgbss) };
	dl_iterate_phdr(tls_find, NULL);
	{
		size_t n = 1;
		uint8_t *d;
		for (k = 0; k < nreg; k++) n += reg[k].n;
		d = hs0 = malloc(n);
		for (k = 0; k < nreg; d += reg[k].n, k++) memcpy(d, reg[k].p, reg[k].n);
	}
	tls0 = malloc(tls.n + 1);
	if (tls.n) memcpy(tls0, tls.p, tls.n);
	th = calloc(NT, sizeof(*th));
	for (i = 0; i < NT; i++) {
		th[i].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (th[i].stack == MAP_FAILED) { perror("mmap"); return 3; }
		th[i].tls = malloc(tls.n + 1);
	}
	in_text = calloc((size_t)ntexts * 3 + 3, sizeof(*in_text));
	{
		struct bufs *b = calloc(1, sizeof(*b));
		for (t = 0; t < ntexts; t++)
			for (k = 0; k < 3; k++) {
				struct op o = { FN_REO, (uint8_t)t, (uint8_t)(k << 3) };
				b->i = &in_text[t * 3 + k];
				op_prepare(&o, b, 0);
			}
		free(b);
	}
	solo = calloc((size_t)nops, sizeof(*solo) / 1);
	solo_steps = calloc((size_t)nops, sizeof(*solo_steps));

	/* every operation alone: its result, its visible accesses, its shared writes */
	for (i = 0; i < nops && atomic_load(&S->nviol) == 0; i++) {
		record(i);
		solo[i] = th[0].res;
		solo_steps[i] = th[0].steps;
		W->traces++;
	}
	note("%d recorded calls (26 functions x %d texts x modes) write nothing outside their stack and output buffer%s: no two of them have conflicting accesses, so all interleavings of any number of threads are equivalent to running one after the other", nops, ntexts, atomics ? " except through atomic operations" : "");

	/* the same for every short text over all classes */
	for (k = 0; k < (int)REF_LEN(groups); k++) {
		grp.name = groups[k].name;
		grp.fn0 = groups[k].fn0;
		grp.fn1 = groups[k].fn1;
		if (groups[k].seg < 0) al_classes(T_BC, BC_NUM); else al_classes(seg_table[groups[k].seg], seg_nclass[groups[k].seg]);
		if (grp.fn0 == FN_PRE) { al[nal++] = '('; al[nal++] = ')'; }
		len = groups[k].seg == SEG_LINE ? 3 : groups[k].seg < 0 ? 3 + T : 4;
		for (i = 1; i <= len; i++) dyn_strings(i);
		run_jobs(dyn_pump_job, (unsigned long)nal);
		note("%s: recorded on all class strings up to length %d and on runs up to 191 characters", grp.name, len);
	}
	{
		cp_t c;
		uint8_t *seen = calloc(8 * 16, 1);
		nal = 0;
		for (c = 1; c < REF_N; c++) {
			cp_t o[3];
			unsigned q = ref_cls(T_CS, c) * 8u + (ref_map(M_LOWER, c, o) > 1) + 2u * (ref_map(M_UPPER, c, o) > 1) + 4u * (ref_map(M_TITLE, c, o) > 1);
			if (c >= 0xD800 && c < 0xE000) continue;
			if (!seen[q]) { seen[q] = 1; al[nal++] = c; }
		}
		free(seen);
		al[nal++] = 0x3A3; al[nal++] = 'b'; al[nal++] = 'C'; al[nal++] = 0x1C5; al[nal++] = '1'; al[nal++] = '\'';
		grp.name = "case functions";
		grp.fn0 = FN_TO;
		grp.fn1 = FN_DEC;
		for (i = 1; i <= 3 + T; i++) dyn_strings(i);
		run_jobs(dyn_pump_job, (unsigned long)nal);
		note("%s: recorded on all strings over %d characters up to length %d and on runs up to 191 characters", grp.name, nal, 3 + T);
	}

	if (getenv("VERIF_TIMES")) for (i = 0; i < nops; i++) if (texts[ops[i].text].name[0] == (char)0x77 && ops[i].mode == 4) fprintf(stderr, "%s %d\n", fn_names[ops[i].fn], (int)solo_steps[i]);
	/* executed interleavings */
	sel = malloc(sizeof(int) * (size_t)nops);
	tiny = malloc(sizeof(int) * (size_t)nops);
	trio = malloc(sizeof(int) * (size_t)nops);
	for (i = 0; i < nops; i++) {
		const char *n = texts[ops[i].text].name;
		if ((ops[i].mode & 1) || (ops[i].mode >> 1 & 3) != 2 || ops[i].mode >> 3) continue;
		if (!strcmp(n, "words") || !strcmp(n, "hebrew") || !strcmp(n, "sigma") || (T && !strcmp(n, "brackets"))) sel[nsel++] = i;
		if (!strcmp(n, "tiny") || (T && !strcmp(n, "tiny 2"))) tiny[ntiny++] = i;
		if (!strcmp(n, "tiny") && solo_steps[i] <= (uint64_t)(T ? 200 : 60)) trio[ntrio++] = i;
	}
	bound = 1;
	run_jobs(pair_job, (unsigned long)(nsel * nsel));
	note("all pairs of %d calls, one preemption at every visible access", nsel);
	bound = 2;
	run_jobs(pair_job, (unsigned long)(ntiny * ntiny));
	note("all pairs of %d calls on short texts, two preemptions at every pair of visible accesses", ntiny);
	run_jobs(deep_job, (unsigned long)(ntrio * ntrio));
	note("all pairs of %d calls with few accesses, three preemptions", ntrio);
	run_jobs(three_job, (unsigned long)(ntrio * ntrio));
	note("all triples of these, three threads");
	sample("to_lowercase(sigma) preempted at its 4th access, next_line_break(words) run to its end, to_lowercase continued: results as alone");
	sample("preprocess_paragraph(hebrew) || preprocess_paragraph(hebrew), shared input, each preempted at every access");
	return finish(argv[3]);
}
