/*
 * Explorer core: a pool of worker processes that enumerate a case space on the real library,
 * with crash and hang detection, counters and a result file.
 */
#ifndef COMMON_H
#define COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "grapheme.h"
#include "../ref/ref.h"

#define ARENA (1u << 18)
#ifndef MAXV
#define MAXV 64
#endif
#define MAXSAMP 12
#define MAXWORKERS 32

struct viol { char sig[160]; char msg[2600]; };

struct worker {
	_Alignas(64) volatile uint64_t states, trans, traces, tick;
	volatile int busy;
	char what[256];    /* call under test, human readable */
	int kind;          /* 1: code points, 2: bytes */
	volatile size_t n;
	cp_t cp[ARENA];
	uint8_t by[ARENA * 4];
	uint64_t extra[8];
};

struct shared {
	atomic_ulong next_job;
	atomic_ulong nviol, nsamp;
	atomic_int stop;
	struct viol v[MAXV];
	char samp[MAXSAMP][400];
	struct worker w[MAXWORKERS];
};

static struct shared *S;
static struct worker *W;      /* this process */
static const char *g_prop = "?";
static int g_thorough;
static int g_nworkers = 8;
static double g_deadline;     /* seconds, absolute */
static double g_t0;

static double
now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static size_t
desc_input(char *o, size_t m, const struct worker *w)
{
	size_t i, l = 0, n = w->n;
	o[0] = 0;
	for (i = 0; i < n && l + 12 < m; i++) {
		if (n > 160 && i == 80) { l += (size_t)snprintf(o + l, m - l, "... "); i = n - 60; }
		l += w->kind == 2 ? (size_t)snprintf(o + l, m - l, "%02X ", w->by[i])
		                  : (size_t)snprintf(o + l, m - l, "%04X ", (unsigned)w->cp[i]);
	}
	if (l > 0) o[--l] = 0;
	return l;
}

static void
viol_record(const struct worker *w, const char *sig, const char *fmt, va_list ap)
{
	unsigned long k = atomic_fetch_add(&S->nviol, 1), i, same = 0;
	size_t l;
	struct viol *v;
	if (k >= MAXV) { atomic_store(&S->stop, 1); return; }
	for (i = 0; i < k; i++) same += strncmp(S->v[i].sig, sig, sizeof(S->v[i].sig) - 1) == 0;
	v = &S->v[k];
	if (fmt) l = (size_t)vsnprintf(v->msg, 1400, fmt, ap);
	else l = 0;
	if (l >= 1400) l = 1399;
	l += (size_t)snprintf(v->msg + l, sizeof(v->msg) - l, " | call: %s | n=%zu input: ", w->what, (size_t)w->n);
	if (l < sizeof(v->msg) - 16) desc_input(v->msg + l, sizeof(v->msg) - l, w);
	snprintf(v->sig, sizeof(v->sig), "%s", sig);
}

/* report a violation; sig identifies the failing case */
static void __attribute__((format(printf, 2, 3)))
fail(const char *sig, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	viol_record(W, sig, fmt, ap);
	va_end(ap);
}

static void __attribute__((format(printf, 1, 2)))
sample(const char *fmt, ...)
{
	unsigned long k = atomic_fetch_add(&S->nsamp, 1);
	va_list ap;
	if (k >= MAXSAMP) { atomic_fetch_sub(&S->nsamp, 1); return; }
	va_start(ap, fmt);
	vsnprintf(S->samp[k], sizeof(S->samp[k]), fmt, ap);
	va_end(ap);
}

static inline bool stopped(void) { return atomic_load_explicit(&S->stop, memory_order_relaxed) != 0; }

static atomic_ulong g_incomplete_dummy;
static volatile int *g_incomplete;

static void
json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

typedef void (*job_fn)(unsigned long job);

/* code points easily taken for c: the same low 8, 12, 16, 20 bits, one bit different */
#define MAXTWIN 80
static int
twins(cp_t c, cp_t *o)
{
	int n = 0, b;
	cp_t k;
	for (k = 0; k < 17; k++) if (((k << 16) | (c & 0xFFFF)) != c) o[n++] = (k << 16) | (c & 0xFFFF);
	for (b = 0; b < 21; b++) if ((c ^ ((cp_t)1 << b)) < 0x110000) o[n++] = c ^ ((cp_t)1 << b);
	for (k = 1; k < 16; k++) o[n++] = (c & ~(cp_t)0xF000) | (((c >> 12) + k) % 16) << 12;
	if (c > 0xFF) o[n++] = c & 0xFF;
	if (c > 0xFFF) o[n++] = c & 0xFFF;
	return n;
}

static void
record_death(int wi, const char *sig, const char *msg)
{
	struct worker *w = &S->w[wi];
	unsigned long k = atomic_fetch_add(&S->nviol, 1);
	size_t l;
	if (k >= MAXV) return;
	snprintf(S->v[k].sig, sizeof(S->v[k].sig), "%s:%.100s", sig, w->what);
	l = (size_t)snprintf(S->v[k].msg, sizeof(S->v[k].msg), "%s | call: %s | n=%zu input: ", msg, w->what, (size_t)w->n);
	desc_input(S->v[k].msg + l, sizeof(S->v[k].msg) - l, w);
}

/* Seconds without progress that count as an endless loop: processor time of the worker, and many looks at it, as the
 * whole sandbox may be held up at any moment. */
#ifndef HANG_S
#define HANG_S 25.0
#endif
static double
cpu_of(pid_t p)
{
	clockid_t c;
	struct timespec t;
	if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return -1;
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
/* run jobs 0..njobs-1 on all workers; crashes and hangs of the code under test become violations */
static void
run_jobs(job_fn fn, unsigned long njobs)
{
	pid_t pid[MAXWORKERS];
	uint64_t last[MAXWORKERS];
	double since[MAXWORKERS];
	unsigned long looks[MAXWORKERS];
	int i, live = 0;
	if (atomic_load(&S->stop) || atomic_load(&S->nviol) > 0) return; /* first phase with findings ends it */
	atomic_store(&S->next_job, 0);
	fflush(NULL);
	for (i = 0; i < g_nworkers; i++) {
		last[i] = S->w[i].tick;
		since[i] = 0;
		looks[i] = 0;
		S->w[i].busy = 0;
		if ((pid[i] = fork()) < 0) { perror("fork"); exit(3); }
		if (pid[i] == 0) {
			unsigned long j;
			W = &S->w[i];
			while (!stopped() && (j = atomic_fetch_add(&S->next_job, 1)) < njobs) {
				if (now() > g_deadline) { *g_incomplete = 1; break; }
				W->busy = 1;
				fn(j);
				W->busy = 0;
				W->tick++;
			}
			fflush(NULL);
			_exit(0);
		}
		live++;
	}
	while (live > 0) {
		int st, any = 0;
		for (i = 0; i < g_nworkers; i++) {
			pid_t r;
			if (pid[i] == 0) continue;
			r = waitpid(pid[i], &st, WNOHANG);
			if (r == pid[i]) {
				char m[200];
				any = 1;
				pid[i] = 0;
				live--;
				if (WIFSIGNALED(st)) {
					snprintf(m, sizeof(m), "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
					record_death(i, "crash", m);
				} else if (WEXITSTATUS(st) == 77) {
					record_death(i, "sanitizer", "sanitizer report (undefined behaviour or invalid access)");
				} else if (WEXITSTATUS(st) != 0) {
					fprintf(stderr, "worker %d: exit status %d\n", i, WEXITSTATUS(st));
					exit(3);
				}
				if (WIFSIGNALED(st) || WEXITSTATUS(st) == 77) atomic_store(&S->stop, 1);
				continue;
			}
			{
				uint64_t t = S->w[i].tick + S->w[i].trans + S->w[i].states;
				if (t != last[i]) { last[i] = t; looks[i] = 0; }
				else if (looks[i]++ == 0) since[i] = cpu_of(pid[i]);
				else if (looks[i] > 1000 && looks[i] % 100 == 0 && S->w[i].busy && (cpu_of(pid[i]) - since[i] > HANG_S || looks[i] > 90000)) {
					record_death(i, "hang", "no progress (endless loop)");
					atomic_store(&S->stop, 1);
					kill(pid[i], SIGKILL);
					waitpid(pid[i], &st, 0);
					pid[i] = 0;
					live--;
				} else if (now() > g_deadline + 60) {
					kill(pid[i], SIGKILL);
					waitpid(pid[i], &st, 0);
					pid[i] = 0;
					live--;
					*g_incomplete = 1;
				}
			}
		}
		if (!any) usleep(2000);
	}
	W = &S->w[0];
	if (getenv("VERIF_TIMES")) fprintf(stderr, "phase of %lu jobs done at %.2f s\n", njobs, now() - g_t0);
}

static char g_notes[16][600];
static int g_nnotes;
static void __attribute__((format(printf, 1, 2)))
note(const char *fmt, ...)
{
	va_list ap;
	if (g_nnotes >= 16) return;
	va_start(ap, fmt);
	vsnprintf(g_notes[g_nnotes++], sizeof(g_notes[0]), fmt, ap);
	va_end(ap);
}

static uint64_t
sum(int which)
{
	uint64_t r = 0;
	int i;
	for (i = 0; i < MAXWORKERS; i++)
		r += which == 0 ? S->w[i].states : which == 1 ? S->w[i].trans : S->w[i].traces;
	return r;
}

static void
init(int argc, char **argv)
{
	/* usage: prog PROPERTY quick|thorough OUT.json [workers] */
	if (argc < 4) { fprintf(stderr, "usage: %s PROPERTY quick|thorough OUT.json\n", argv[0]); exit(3); }
	g_prop = argv[1];
	g_thorough = strcmp(argv[2], "thorough") == 0;
	if (getenv("VERIF_WORKERS")) g_nworkers = atoi(getenv("VERIF_WORKERS"));
	g_t0 = now();
	g_deadline = g_t0 + (g_thorough ? (getenv("VERIF_BUDGET") ? atof(getenv("VERIF_BUDGET")) : 3000) : 600);
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); exit(3); }
	g_incomplete = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	(void)g_incomplete_dummy;
	W = &S->w[0];
	ref_init();
}

static int
finish(const char *out)
{
	FILE *f = fopen(out, "w");
	unsigned long i, nv = atomic_load(&S->nviol), ns = atomic_load(&S->nsamp);
	if (!f) { perror(out); return 3; }
	if (nv > MAXV) nv = MAXV;
	if (ns > MAXSAMP) ns = MAXSAMP;
	fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"complete\": %s, \"seconds\": %.2f,\n",
	        (unsigned long long)sum(0), (unsigned long long)sum(1), (unsigned long long)sum(2),
	        *g_incomplete ? "false" : "true", now() - g_t0);
	fprintf(f, " \"samples\": [");
	for (i = 0; i < ns; i++) { if (i) fprintf(f, ",\n  "); json_str(f, S->samp[i]); }
	fprintf(f, "],\n \"notes\": [");
	for (i = 0; i < (unsigned long)g_nnotes; i++) { if (i) fprintf(f, ",\n  "); json_str(f, g_notes[i]); }
	fprintf(f, "],\n \"violations\": [");
	for (i = 0; i < nv; i++) {
		fprintf(f, "%s\n  {\"sig\": ", i ? "," : "");
		json_str(f, S->v[i].sig);
		fprintf(f, ", \"msg\": ");
		json_str(f, S->v[i].msg);
		fprintf(f, "}");
	}
	fprintf(f, "]}\n");
	fclose(f);
	return 0;
}

/* values beyond Unicode: around every power of two, aliases of the given code points in every high bit, table-sized steps */
static cp_t *oor;
static size_t noor;
static void
oor_add(uint64_t v) { if (v >= 0x110000 && v <= 0xFFFFFFFFu) oor[noor++] = (cp_t)v; }
static void
oor_build(const cp_t *like, size_t nlike)
{
	size_t i;
	int b, d;
	oor = malloc(sizeof(cp_t) * (0x1100 * 2 + nlike * 64 + 4096));
	noor = 0;
	for (b = 16; b < 33; b++)
		for (d = -2; d <= 2; d++) oor_add((uint64_t)((INT64_C(1) << b) + d));
	for (i = 0; i < 64; i++) oor_add(0x110000 + i);
	for (i = 0; i < 0x1100; i++) { oor_add(0x110000 + i * 0x100); oor_add(0xFFFFFFFFu - i * 0x100); }
	for (i = 0; i < nlike; i++)
		for (b = 16; b < 32; b++) {
			oor_add(like[i] | (UINT64_C(1) << b));
			oor_add(like[i] + (UINT64_C(0x110000) << (b - 16)));
			oor_add((UINT64_C(0xFFFFFFFF) << b) | like[i]);
			oor_add(UINT64_C(0xFFFFFFFF) - like[i]);
		}
}

/* representative code points of every class of a table, spread over its ranges */
#define MAXREP 6
struct alphabet { int n; uint8_t cls[64]; cp_t rep[64][MAXREP]; int nrep[64]; };

static void
alphabet_build(struct alphabet *a, int table, int nclass)
{
	int c;
	static uint32_t *list;
	if (!list) list = malloc(REF_N * sizeof(*list));
	a->n = 0;
	for (c = 0; c < nclass; c++) {
		uint32_t cp, m = 0;
		int k;
		for (cp = 1; cp < REF_N; cp++) /* surrogates included: they are legal array elements */
			if (ref_cls_tab[table][cp] == c && !(cp >= 0xD800 && cp < 0xE000)) list[m++] = cp;
		if (m == 0) continue;
		a->cls[a->n] = (uint8_t)c;
		a->nrep[a->n] = m < MAXREP ? (int)m : MAXREP;
		for (k = 0; k < a->nrep[a->n]; k++)
			a->rep[a->n][k] = list[(size_t)k * (m - 1) / (size_t)(a->nrep[a->n] > 1 ? a->nrep[a->n] - 1 : 1)];
		a->n++;
	}
}
#endif
