/*
 * C24: results depend on the arguments alone.
 * The library's writable static memory is the hidden state: every operation of the alphabet is tried in every reachable
 * hidden state (breadth-first to closure), so a closed state space covers histories of every length.
 */
#define _GNU_SOURCE
#include <link.h>
#include "api.h"

/* the library's .data and .bss, gathered in sections of their own when it is linked in */
extern char __start_lgdata[] __attribute__((weak)), __stop_lgdata[] __attribute__((weak));
extern char __start_lgbss[] __attribute__((weak)), __stop_lgbss[] __attribute__((weak));
struct region { uint8_t *p; size_t n; };
static struct region reg[3];
static int nreg;
static size_t hs_size;

static volatile unsigned long allocations;
#define WRAP(ret, name, par, arg) ret __real_##name par; ret __wrap_##name par { allocations++; return __real_##name arg; }
WRAP(void *, malloc, (size_t a), (a))
WRAP(void *, calloc, (size_t a, size_t b), (a, b))
WRAP(void *, realloc, (void *a, size_t b), (a, b))
WRAP(void *, aligned_alloc, (size_t a, size_t b), (a, b))
WRAP(char *, strdup, (const char *a), (a))

static int
tls_find(struct dl_phdr_info *i, size_t size, void *x)
{
	int k;
	(void)x;
	if (size < offsetof(struct dl_phdr_info, dlpi_tls_data) + sizeof(void *)) return 1;
	for (k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) reg[nreg++] = (struct region){ i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz };
	return 1; /* the program itself only */
}
static void
regions(void)
{
	int k;
	if (__start_lgdata && __stop_lgdata > __start_lgdata) reg[nreg++] = (struct region){ (uint8_t *)__start_lgdata, (size_t)(__stop_lgdata - __start_lgdata) };
	if (__start_lgbss && __stop_lgbss > __start_lgbss) reg[nreg++] = (struct region){ (uint8_t *)__start_lgbss, (size_t)(__stop_lgbss - __start_lgbss) };
	dl_iterate_phdr(tls_find, NULL);
	for (k = 0; k < nreg; k++) hs_size += reg[k].n;
}
static void
hs_save(uint8_t *d)
{
	int k;
	for (k = 0; k < nreg; d += reg[k].n, k++) memcpy(d, reg[k].p, reg[k].n);
}
static void
hs_load(const uint8_t *d)
{
	int k;
	for (k = 0; k < nreg; d += reg[k].n, k++)
		if (memcmp(reg[k].p, d, reg[k].n)) memcpy(reg[k].p, d, reg[k].n);
}
static bool
hs_is(const uint8_t *d)
{
	int k;
	for (k = 0; k < nreg; d += reg[k].n, k++) if (memcmp(reg[k].p, d, reg[k].n)) return false;
	return true;
}

/* what an operation gives when it is the first call */
struct base { size_t r; uint64_t extra, hash; size_t nout; };
static struct base *base;
static struct result *res;
static struct bufs *B;
static struct input *I, icopy;

static uint64_t
hash(const uint8_t *p, size_t n)
{
	uint64_t h = 1469598103934665603u;
	for (; n > 0; n--) h = (h ^ *p++) * 1099511628211u;
	return h;
}
static void __attribute__((noinline))
stack_fill(int v)
{
	volatile uint8_t a[40000];
	size_t i;
	for (i = 0; i < sizeof(a); i++) a[i] = (uint8_t)v;
}
static struct bufs *
bufs_at(size_t off)
{
	struct bufs *b = (struct bufs *)((uint8_t *)B + (off + 7) / 8 * 8);
	b->i = (struct input *)((uint8_t *)I + off); /* code points need no more than their own alignment */
	return b;
}

/* runs an operation; false if it changed its input or allocated */
static bool
op_do(const struct op *o, struct bufs *b, int fill, int stack)
{
	char nm[200];
	unsigned long a0;
	op_prepare(o, b, fill);
	memcpy(&icopy, b->i, sizeof(icopy));
	if (stack >= 0) stack_fill(stack);
	a0 = allocations;
	op_run(o, b, res);
	W->trans++;
	if (allocations != a0) {
		op_name(nm, sizeof(nm), o);
		snprintf(W->what, sizeof(W->what), "%s", nm);
		fail("allocates", "the library allocated memory");
		return false;
	}
	if (memcmp(&icopy, b->i, sizeof(icopy))) {
		op_name(nm, sizeof(nm), o);
		snprintf(W->what, sizeof(W->what), "%s", nm);
		fail("input", "the call changed its input");
		return false;
	}
	return true;
}
static void
base_of(const struct op *o, struct base *d)
{
	(void)o;
	d->r = res->r;
	d->extra = res->extra;
	d->nout = res->nout;
	d->hash = hash(res->out, res->nout);
}
static bool
same(const struct base *d)
{
	return d->r == res->r && d->extra == res->extra && d->nout == res->nout && d->hash == hash(res->out, res->nout);
}
static void
differs(int i, const char *how, const int *hist, int nhist)
{
	char a[200], sig[160], h[700] = "";
	int k;
	size_t l = 0;
	op_name(a, sizeof(a), &ops[i]);
	for (k = 0; k < nhist && l + 200 < sizeof(h); k++) {
		char b[200];
		op_name(b, sizeof(b), &ops[hist[k]]);
		l += (size_t)snprintf(h + l, sizeof(h) - l, "%s%s", k ? "; " : "", b);
	}
	snprintf(sig, sizeof(sig), "impure:%s", fn_names[ops[i].fn]);
	snprintf(W->what, sizeof(W->what), "%s", a);
	W->n = 0;
	fail(sig, "%s gives another result (%zu, %llu) than as the first call (%zu, %llu) %s%s%s", a, res->r, (unsigned long long)res->extra, base[i].r, (unsigned long long)base[i].extra, how, nhist ? ": after " : "", h);
}

/* a counter or cache that needs the same call many times */
static int reps;
static void
repeat_job(unsigned long job)
{
	int i = (int)job, k;
	op_name(W->what, sizeof(W->what), &ops[i]);
	W->states++;
	for (k = 0; k < reps; k++) {
		if (!op_do(&ops[i], B, 0x33, -1)) return;
		if (!same(&base[i])) { differs(i, "when repeated", NULL, 0); return; }
	}
	W->traces++;
}

static int *sm, nsm; /* operations of the deeper histories */
static void
pairs_job(unsigned long job)
{
	int a = (int)job, b;
	op_name(W->what, sizeof(W->what), &ops[a]);
	for (b = 0; b < nops; b++) {
		int h[1] = { a };
		W->states++;
		if (!op_do(&ops[a], B, 0x33, -1)) return;
		if (!same(&base[a])) { differs(a, "after other calls", NULL, 0); return; }
		if (!op_do(&ops[b], B, 0x33, -1)) return;
		if (!same(&base[b])) { differs(b, "", h, 1); return; }
		W->traces++;
	}
}
static int depth;
static void
deep_job(unsigned long job)
{
	int d[8] = { 0 }, i, h[8];
	d[0] = (int)(job % (unsigned)nsm);
	d[1] = (int)(job / (unsigned)nsm);
	op_name(W->what, sizeof(W->what), &ops[sm[d[0]]]);
	for (;;) {
		W->states++;
		for (i = 0; i < depth; i++) {
			h[i] = sm[d[i]];
			if (!op_do(&ops[h[i]], B, 0x33, -1)) return;
			if (!same(&base[h[i]])) { differs(h[i], "", h, i); return; }
		}
		W->traces++;
		for (i = depth - 1; i >= 2; i--) {
			if (++d[i] < nsm) break;
			d[i] = 0;
		}
		if (i < 2 || stopped()) break;
	}
}

static const int fills[] = { 0x00, 0xFF, 0xA5, 0x01, 0x5A };
static void
surround_job(unsigned long job)
{
	static const size_t offs[] = { 0, 4, 8, 12, 16, 20, 28, 36, 4096, 4092, 2052 };
	int i = (int)job;
	size_t f, s, o;
	op_name(W->what, sizeof(W->what), &ops[i]);
	for (f = 0; f < REF_LEN(fills); f++)
		for (s = 0; s < REF_LEN(fills); s++)
			for (o = 0; o < (s == f || g_thorough ? REF_LEN(offs) : 1); o++) {
				W->states++;
				if (!op_do(&ops[i], bufs_at(offs[o]), fills[f], fills[s])) return;
				if (!same(&base[i])) { differs(i, "with another content of its output buffer, of the stack, or at another address", NULL, 0); return; }
				W->traces++;
			}
}

/* a table, cache or memo keyed by part of a character: every code point among those that share its low bits */
static uint8_t *st0;
static int alias_planes;
static void
alias_text(cp_t x)
{
	const cp_t t[] = { x, x, ' ', x, 'a', x, '1', x, '.', x, 0x300, x, '(', 0x5D0, x };
	struct text *d = &texts[ntexts];
	size_t i;
	d->name = "alias";
	memcpy(d->cp, t, sizeof(t));
	d->n = REF_LEN(t);
	for (i = d->nb = 0; i < d->n; i++) d->nb += ref_encode(d->cp[i], d->by + d->nb);
}
static void
alias_job(unsigned long job)
{
	static struct base *al; /* [code point of this job][function] */
	int order, hi, f, nhi = alias_planes * 256, i;
	if (!al) al = calloc((size_t)nhi * FN_NUM, sizeof(*al));
	for (order = 0; order < 4; order++) {
		/* each alone; ascending; by the 16 low bits, plane after plane; descending */
		for (i = 0; i < nhi && !stopped(); i++) {
			cp_t x;
			hi = order < 2 ? i : order == 2 ? (i % alias_planes) << 8 | i / alias_planes : nhi - 1 - i;
			x = (cp_t)hi << 8 | (cp_t)job;
			alias_text(x);
			W->states++;
			for (f = 0; f < FN_NUM; f++) {
				struct op o = { (uint8_t)f, (uint8_t)ntexts, 4 };
				struct base *b = &al[hi * FN_NUM + f];
				if (order == 0) hs_load(st0);
				if (!op_do(&o, B, 0x33, -1)) return;
				if (order == 0) base_of(&o, b);
				else if (!same(b)) {
					char sig[100];
					snprintf(sig, sizeof(sig), "alias:%s:%X", fn_names[f], (unsigned)x);
					snprintf(W->what, sizeof(W->what), "%s", fn_names[f]);
					W->kind = 1;
					W->n = 0;
					fail(sig, "%s on a text with U+%04X gives another result (%zu, %llu) than as the first call (%zu, %llu), after the same with others that end in the byte %02X (%s)", fn_names[f], (unsigned)x, res->r, (unsigned long long)res->extra, b->r,
					     (unsigned long long)b->extra, (unsigned)job, order == 1 ? "ascending" : order == 2 ? "by the low 16 bits" : "descending");
					return;
				}
			}
			W->traces++;
		}
	}
}

int
main(int argc, char **argv)
{
	int i, T, maxnodes, nodes = 1, node, edges = 0;
	uint8_t **st, *cur;
	int (*from)[2];
	init(argc, argv);
	T = g_thorough;
	texts_init();
	ops_init(false);
	regions();
	base = calloc((size_t)nops, sizeof(*base));
	res = malloc(sizeof(*res));
	B = aligned_alloc(4096, sizeof(*B) + 16384);
	I = aligned_alloc(4096, sizeof(*I) + 16384);
	memset(B, 0, sizeof(*B) + 16384);
	memset(I, 0, sizeof(*I) + 16384);
	B->i = I;
	maxnodes = T ? 200000 : 3000;
	st = calloc((size_t)maxnodes + 1, sizeof(*st));
	from = calloc((size_t)maxnodes + 1, sizeof(*from));
	st[0] = malloc(hs_size + 1);
	hs_save(st[0]);
	cur = malloc(hs_size + 1);

	/* the result of every operation as the first call */
	for (i = 0; i < nops; i++) {
		hs_load(st[0]);
		op_name(W->what, sizeof(W->what), &ops[i]);
		if (!op_do(&ops[i], B, 0x33, -1)) return finish(argv[3]);
		base_of(&ops[i], &base[i]);
	}
	/* closure */
	for (node = 0; node < nodes && atomic_load(&S->nviol) == 0 && now() - g_t0 < (T ? 1200 : 60); node++) {
		W->states++;
		for (i = 0; i < nops; i++) {
			int k;
			hs_load(st[node]);
			op_name(W->what, sizeof(W->what), &ops[i]);
			if (!op_do(&ops[i], B, 0x33, -1)) return finish(argv[3]);
			edges++;
			W->traces++;
			if (!same(&base[i])) {
				int h[64], n = 0, x = node;
				while (x > 0 && n < 64) { h[n++] = from[x][1]; x = from[x][0]; }
				for (k = 0; k < n / 2; k++) { int t = h[k]; h[k] = h[n - 1 - k]; h[n - 1 - k] = t; }
				differs(i, "", h, n);
				return finish(argv[3]);
			}
			for (k = 0; k < nodes && !hs_is(st[k]); k++) ;
			if (k == nodes && nodes < maxnodes) {
				st[nodes] = malloc(hs_size + 1);
				hs_save(st[nodes]);
				from[nodes][0] = node;
				from[nodes][1] = i;
				nodes++;
			}
		}
	}
	if (node < nodes || nodes >= maxnodes) *g_incomplete = 1;
	hs_load(st[0]);
	note("hidden state: %zu bytes of writable static and thread memory in the library; %d operations (26 functions x %d texts x modes) in each of %d reachable hidden states: %s", hs_size, nops, ntexts, nodes, node == nodes && nodes < maxnodes ? "closed, so histories of every length over these operations are covered" : "not closed within the bound");
	run_jobs(pairs_job, (unsigned long)nops);
	note("all %d x %d histories of two calls on the same buffers, executed without resetting anything", nops, nops);
	sm = malloc(sizeof(int) * (size_t)nops);
	for (i = 0; i < nops; i++)
		if ((ops[i].mode & 1) == 0 && (ops[i].mode >> 1 & 3) == 2 && (ops[i].mode >> 3) == 0 && (ops[i].text == 1 || ops[i].text == 4 || ops[i].text == 6 || (T && (ops[i].text == 8 || ops[i].text == 16 || ops[i].text == 18)))) sm[nsm++] = i;
	depth = 3;
	run_jobs(deep_job, (unsigned long)(nsm * nsm));
	note("all histories of three calls over %d operations", nsm);
	st0 = st[0];
	alias_planes = T ? 18 : 3;
	run_jobs(alias_job, 256);
	note("all code points up to U+%X with the same low byte after each other in three orders, 26 functions on a text of each: as on their own", alias_planes * 65536 - 1);
	reps = T ? 66000 : 300;
	run_jobs(repeat_job, (unsigned long)nops);
	note("every operation %d times in a row", reps);
	run_jobs(surround_job, (unsigned long)nops);
	note("every operation with %zu contents of its output buffer x %zu contents of the stack below the call, and at several addresses and alignments", REF_LEN(fills), REF_LEN(fills));
	sample("to_titlecase_utf8(sigma) after is_uppercase(words): same result as on its own");
	sample("bidirectional_reorder_line(hebrew) after next_line_break(odd), output pre-filled with FF, stack with A5: same result");
	return finish(argv[3]);
}
