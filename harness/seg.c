/* C03, C05, C06, C07: exhaustive exploration of the segmentation machines */
#include "seg.h"

static int seg;
static struct alphabet A;
static int idx_of[64];

/* ---- A: all class strings of length n */
static int a_len, a_rep;
static int a_split, a_want_sample;
static unsigned long a_jobs;
static const uint8_t *a_sub; /* sub-alphabet (indices into A) */
static int a_nsub;

static cp_t
rep(int sym, int pos)
{
	int nr = A.nrep[sym];
	switch (a_rep) {
	case 0: return A.rep[sym][0];
	case 1: return A.rep[sym][nr - 1];
	default: return A.rep[sym][(pos * 2 + a_rep) % nr];
	}
}

static void
strings_job(unsigned long job)
{
	int d[16] = { 0 }, i, fixed = a_split < a_len ? a_split : a_len;
	unsigned long v = job;
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)a_nsub); v /= (unsigned)a_nsub; }
	for (i = 0; i < a_len; i++) W->cp[i] = rep(a_sub[d[i]], i);
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (;;) {
		if (!seg_check(seg, (size_t)a_len) && stopped()) return;
		if (a_want_sample && job == a_jobs * 2 / 3) { seg_sample(seg, (size_t)a_len); a_want_sample = 0; }
		for (i = a_len - 1; i >= fixed; i--) {
			if (++d[i] < a_nsub) { W->cp[i] = rep(a_sub[d[i]], i); break; }
			d[i] = 0;
			W->cp[i] = rep(a_sub[0], i);
		}
		if (i < fixed) break;
	}
}

static void
strings(const uint8_t *sub, int nsub, int len, int rp)
{
	unsigned long jobs = 1;
	int i;
	a_sub = sub; a_nsub = nsub; a_len = len; a_rep = rp;
	a_split = len > 2 ? 2 : len > 1 ? 1 : 0;
	for (i = 0; i < a_split; i++) jobs *= (unsigned long)nsub;
	a_jobs = jobs;
	a_want_sample = len >= 4;
	run_jobs(strings_job, jobs);
}

/* ---- C: pumped strings prefix . cycle^k . suffix */
static const size_t *p_ks;
static int p_nk, p_plen, p_slen, p_clen;
static const uint8_t *p_sub;
static int p_nsub;
static bool p_skip[64]; /* classes that are not pumped: the library needs quadratic time for them */

static void
pump_job(unsigned long job)
{
	int c[2], p[2], s[2], np = 1, nsuf = 1, a, b, k, i;
	c[0] = (int)(job % (unsigned)p_nsub);
	c[1] = (int)(job / (unsigned)p_nsub);
	if (p_clen > 1 && c[0] == c[1]) return;
	if (p_skip[A.cls[p_sub[c[0]]]]) return;
	for (i = 0; i < p_plen; i++) np *= p_nsub;
	for (i = 0; i < p_slen; i++) nsuf *= p_nsub;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	a_rep = 0;
	for (k = 0; k < p_nk; k++)
		for (a = 0; a < np; a++) {
			size_t n = 0, r;
			int v = a;
			for (i = 0; i < p_plen; i++) { p[i] = v % p_nsub; v /= p_nsub; }
			for (i = 0; i < p_plen; i++) W->cp[n++] = rep(p_sub[p[i]], 0);
			for (r = 0; r < p_ks[k]; r++) {
				W->cp[n++] = rep(p_sub[c[0]], 0);
				if (p_clen == 2) W->cp[n++] = rep(p_sub[c[1]], 0);
			}
			for (b = 0; b < nsuf; b++) {
				size_t m = n;
				v = b;
				for (i = 0; i < p_slen; i++) { s[i] = v % p_nsub; v /= p_nsub; }
				for (i = 0; i < p_slen; i++) W->cp[m++] = rep(p_sub[s[i]], 0);
				seg_check(seg, m);
				if (a_want_sample && job == 1 && a == np / 2 && k == p_nk / 2) { seg_sample(seg, m); a_want_sample = 0; }
				if (stopped()) return;
			}
		}
}

static void
pump(const uint8_t *sub, int nsub, int plen, int clen, int slen, const size_t *ks, int nk)
{
	p_sub = sub; p_nsub = nsub; p_plen = plen; p_clen = clen; p_slen = slen; p_ks = ks; p_nk = nk;
	a_want_sample = 1;
	run_jobs(pump_job, clen == 2 ? (unsigned long)(nsub * nsub) : (unsigned long)nsub);
}

/* ---- D: every code point in distinguishing contexts */
struct ctx { uint8_t l[2], r[2]; uint8_t nl, nr; };
#define MAXCTX 400
static struct ctx ctxs[MAXCTX];
static int nctx;

static uint64_t
ctx_sig(const struct ctx *x, uint8_t cls)
{
	uint8_t c[8];
	size_t n = 0, i;
	uint64_t s = 0;
	bool brk[8];
	for (i = 0; i < x->nl; i++) c[n++] = A.cls[x->l[i]];
	c[n++] = cls;
	for (i = 0; i < x->nr; i++) c[n++] = A.cls[x->r[i]];
	ref_segment(seg, c, n, brk, &seg_at);
	for (i = 1; i < n; i++) s = s * 2 + brk[i];
	return s;
}

static void
choose_contexts(void)
{
	static uint8_t sep[64][64];
	int round, i, j, left;
	memset(sep, 0, sizeof(sep));
	nctx = 0;
	/* candidates in growing size; greedily keep a context that separates a pair of classes seen < 3 times */
	for (round = 0; round < 5; round++) {
		static const int nl[5] = { 1, 1, 2, 1, 2 }, nr[5] = { 1, 0, 1, 2, 2 };
		int tot = 1, v;
		for (i = 0; i < nl[round] + nr[round]; i++) tot *= A.n;
		for (left = 0, i = 0; i < A.n; i++)
			for (j = 0; j < i; j++) left += sep[i][j] < 2;
		if (left == 0) break;
		if (round == 4 && tot > 400000) break;
		for (v = 0; v < tot && nctx < MAXCTX; v++) {
			struct ctx x = { .nl = (uint8_t)nl[round], .nr = (uint8_t)nr[round] };
			uint64_t s[64];
			int u = v, gain = 0;
			for (i = 0; i < x.nl; i++) { x.l[i] = (uint8_t)(u % A.n); u /= A.n; }
			for (i = 0; i < x.nr; i++) { x.r[i] = (uint8_t)(u % A.n); u /= A.n; }
			for (i = 0; i < A.n; i++) s[i] = ctx_sig(&x, A.cls[i]);
			for (i = 0; i < A.n; i++)
				for (j = 0; j < i; j++) gain += s[i] != s[j] && sep[i][j] < 3;
			if (gain == 0 || (nctx > 12 && gain < 3 && round < 1)) continue;
			for (i = 0; i < A.n; i++)
				for (j = 0; j < i; j++) if (s[i] != s[j] && sep[i][j] < 250) sep[i][j]++;
			ctxs[nctx++] = x;
		}
	}
	for (left = 0, i = 0; i < A.n; i++)
		for (j = 0; j < i; j++) if (!sep[i][j]) left++;
	note("%d distinguishing contexts chosen; %d class pairs are behaviourally indistinguishable within the context bound", nctx, left);
}

static void
in_context(const struct ctx *x, cp_t cp)
{
	size_t n = 0, i;
	for (i = 0; i < x->nl; i++) W->cp[n++] = A.rep[x->l[i]][0];
	W->cp[n++] = cp;
	for (i = 0; i < x->nr; i++) W->cp[n++] = A.rep[x->r[i]][0];
	seg_check(seg, n);
}

static void
cps_job(unsigned long job)
{
	cp_t c, end = (cp_t)(job + 1) * 0x400;
	int i;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (c = (cp_t)job * 0x400; c < end && !stopped(); c++)
		for (i = 0; i < nctx; i++) in_context(&ctxs[i], c);
}

/* special values: class-range borders and values outside Unicode, in every one-left one-right context */
static cp_t *specials;
static size_t nspecials;

static void
add_special(uint64_t c)
{
	if (c > 0xFFFFFFFFu) return;
	specials[nspecials++] = (cp_t)c;
}

static void
special_job(unsigned long job)
{
	int l, r;
	size_t k;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (k = job * 16; k < job * 16 + 16 && k < nspecials && !stopped(); k++)
		for (l = -1; l < A.n; l++)
			for (r = -1; r < A.n; r++) {
				struct ctx x = { .nl = l >= 0, .nr = r >= 0 };
				if (l >= 0) x.l[0] = (uint8_t)l;
				if (r >= 0) x.r[0] = (uint8_t)r;
				in_context(&x, specials[k]);
			}
}

static void
build_specials(void)
{
	cp_t c;
	int i, b;
	specials = malloc(sizeof(cp_t) * 200000);
	for (c = 1; c < REF_N; c++)
		if (ref_cls(seg_table[seg], c) != ref_cls(seg_table[seg], c - 1)) { add_special(c - 1); add_special(c); }
	for (c = 0; c < 32; c++) add_special(0x110000 + c);
	for (c = 0; c < 0x1100; c++) add_special(0x110000 + c * 0x100); /* aliases of table blocks */
	for (b = 16; b < 32; b++)
		for (i = -2; i <= 2; i++) add_special((uint64_t)((INT64_C(1) << b) + i));
	for (i = 0; i < A.n; i++)
		for (b = 16; b < 32; b++) {
			uint64_t v = A.rep[i][0] | (UINT64_C(1) << b);
			if (v >= 0x110000) add_special(v);
			v = A.rep[i][0] + (UINT64_C(0x110000) << (b - 16));
			add_special(v);
		}
	for (i = 0; i < 4; i++) add_special(0xFFFFFFFFu - (unsigned)i);
}

/* ---- C26 */
static bool pair_at(cp_t a, cp_t b, uint_least16_t *st) { W->trans++; return grapheme_is_character_break(a, b, st); }
static void
pairwise(size_t n) /* the pairwise test along W->cp[0..n), with a state; seg_brk is filled in */
{
	size_t i;
	uint_least16_t st = 0;
	if (seg != SEG_CHAR) return;
	for (i = 1; i < n; i++)
		if (pair_at(W->cp[i - 1], W->cp[i], &st) != seg_brk[i]) {
			fail("pairwise", "is_character_break(%04X, %04X) with a state disagrees: expected %s", (unsigned)W->cp[i - 1], (unsigned)W->cp[i], seg_brk[i] ? "break" : "no break");
			return;
		}
	if (n == 2 && pair_at(W->cp[0], W->cp[1], NULL) != seg_brk[1])
		fail("pairwise", "is_character_break(%04X, %04X) without a state disagrees: expected %s", (unsigned)W->cp[0], (unsigned)W->cp[1], seg_brk[1] ? "break" : "no break");
}
static void
odd_contexts(cp_t c, bool two)
{
	int l, r, m;
	size_t n;
	for (l = -1; l < A.n; l++)
		for (m = -1; m < (two && l >= 0 ? A.n : 0); m++)
			for (r = -1; r < A.n; r++) {
				n = 0;
				if (l >= 0) W->cp[n++] = A.rep[l][0];
				if (m >= 0) W->cp[n++] = A.rep[m][0];
				W->cp[n++] = c;
				if (r >= 0) W->cp[n++] = A.rep[r][0];
				if (!seg_check(seg, n)) return;
				pairwise(n);
				/* the value twice */
				W->cp[n++] = c;
				if (!seg_check(seg, n)) return;
			}
}
static void
oor_job(unsigned long job)
{
	size_t k;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (k = job * 16; k < job * 16 + 16 && k < noor && !stopped(); k++) odd_contexts(oor[k], false);
}
static const cp_t few[] = { 0x110000, 0x110041, 0x1FFFFF, 0x200041, 0x7FFFFFFF, 0x80000041, 0xFFFFFFFF };
static void
few_job(unsigned long job)
{
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	odd_contexts(few[job], true);
}
static void
beyond_job(unsigned long job) /* 0x110000.. in the telling contexts */
{
	cp_t c, end = 0x110000 + (cp_t)(job + 1) * 0x400;
	int i;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (c = 0x110000 + (cp_t)job * 0x400; c < end && !stopped(); c++)
		for (i = 0; i < nctx; i++) in_context(&ctxs[i], c);
}
static void
unassigned_job(unsigned long job)
{
	cp_t c, end = (cp_t)(job + 1) * 0x400;
	int i, l, r;
	size_t n;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (c = (cp_t)job * 0x400; c < end && !stopped(); c++) {
		if (ref_cls(T_ASG, c) != ASG_U) continue;
		for (i = 0; i < nctx; i++) in_context(&ctxs[i], c);
		if (!g_thorough && (c & 0x3F)) continue;
		for (l = -1; l < A.n; l++)
			for (r = -1; r < A.n; r++) {
				n = 0;
				if (l >= 0) W->cp[n++] = A.rep[l][0];
				W->cp[n++] = c;
				if (r >= 0) W->cp[n++] = A.rep[r][0];
				if (!seg_check(seg, n)) return;
				pairwise(n);
			}
	}
}
static void
sweep_job(unsigned long job) /* thorough: every 32-bit value between a letter and a mark */
{
	uint64_t c, end = (uint64_t)(job + 1) << 16;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (c = (uint64_t)job << 16; c < end && !stopped(); c++) {
		if (c < 0x110000) continue;
		W->cp[0] = 'a';
		W->cp[1] = (cp_t)c;
		W->cp[2] = 'a';
		seg_check(seg, 3);
	}
}
static int
odd_values(void)
{
	cp_t like[64 * MAXREP];
	size_t nlike;
	int i, j;
	for (seg = 0; seg < SEG_NUM; seg++) {
		alphabet_build(&A, seg_table[seg], seg_nclass[seg]);
		for (nlike = 0, i = 0; i < A.n; i++) for (j = 0; j < A.nrep[i]; j++) like[nlike++] = A.rep[i][j];
		oor_build(like, nlike);
		choose_contexts();
		run_jobs(oor_job, (noor + 15) / 16);
		run_jobs(few_job, REF_LEN(few));
		run_jobs(beyond_job, 0xF0000 / 0x400);
		run_jobs(unassigned_job, 0x110000 / 0x400);
		if (g_thorough) run_jobs(sweep_job, 65536);
		note("%s: %zu values beyond Unicode in all one-left one-right contexts over %d classes, 7 of them with two to the left; 110000..1FFFFF and every unassigned code point in each distinguishing context%s",
		     seg_names[seg], noor, A.n, g_thorough ? "; every 32-bit value between two letters" : "");
	}
	sample("word: 0041 FFFFFFFF 0041: breaks at 1 and 2");
	return 0;
}

/* ---- E: neighbours of the same encoded form: all triples of ASCII characters, runs of one ASCII character in front of
 * all pairs, all pairs of code points of one block of 256 */
static void
ascii_job(unsigned long job)
{
	cp_t b, c, d;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	W->cp[0] = (cp_t)job;
	for (b = 0; b < 128; b++)
		for (c = 0; c < 128; c++) {
			W->cp[1] = b;
			W->cp[2] = c;
			if (!seg_check(seg, 3)) return;
			for (d = 0; d < 128; d++) { W->cp[3] = d; if (!seg_check(seg, 4)) return; }
		}
}
static void
ascii_run_job(unsigned long job)
{
	static const cp_t run[] = { 'a', 'A', ' ', '1', '.', '-', 0xE9, 0x4E00 };
	size_t k, n = job % 40 + 1;
	cp_t r = run[job / 40], b, c;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (k = 0; k < n; k++) W->cp[k] = r;
	for (b = 0; b < 128; b++)
		for (c = 0; c < 128; c++) {
			W->cp[n] = b;
			W->cp[n + 1] = c;
			W->cp[n + 2] = r;
			if (!seg_check(seg, n + 2 + (n & 1))) return;
		}
}
static void
block_job(unsigned long job)
{
	cp_t a, b, base = (cp_t)job << 8;
	bool mixed = false;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (a = base; a < base + 256; a++) mixed |= ref_cls(seg_table[seg], a) != ref_cls(seg_table[seg], base);
	if (!mixed && !g_thorough) return;
	for (a = base; a < base + 256; a++)
		for (b = base; b < base + 256; b++) {
			W->cp[0] = a;
			W->cp[1] = b;
			if (!seg_check(seg, 2)) return;
		}
}

static void
wide_job(unsigned long job) /* a character of Latin-1 (thorough: of the BMP) in front of and behind every code point */
{
	cp_t a, b, base = g_thorough && job < 0x100 ? 0 : 0x100;
	uint64_t end = g_thorough && job < 0x100 ? 0x10000 : 0x110000;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	if (!g_thorough || job >= 0x100) { /* 0x100 slices of the code space */
		cp_t lo = (cp_t)(job & 0xFF) * 0x1100;
		for (b = lo; b < lo + 0x1100; b++)
			for (a = 0; a < base; a++) {
				W->cp[0] = a; W->cp[1] = b;
				if (!seg_check(seg, 2)) return;
				W->cp[0] = b; W->cp[1] = a;
				if (!seg_check(seg, 2)) return;
			}
		return;
	}
	for (a = (cp_t)job << 8; a < (cp_t)(job + 1) << 8; a++)
		for (b = 0; b < end; b++) {
			W->cp[0] = a; W->cp[1] = b;
			if (!seg_check(seg, 2)) return;
		}
}

static void
twin_job(unsigned long job)
{
	cp_t c, t[MAXTWIN];
	int i, n;
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break", seg_names[seg]);
	W->kind = 1;
	for (c = (cp_t)job << 8; c < (cp_t)(job + 1) << 8; c++) {
		n = twins(c, t);
		for (i = 0; i < n; i++) {
			if (ref_cls(seg_table[seg], c) == ref_cls(seg_table[seg], t[i])) continue;
			W->cp[0] = 'a'; W->cp[1] = c; W->cp[2] = t[i]; W->cp[3] = 'a';
			if (!seg_check(seg, 4)) return;
			W->cp[0] = c; W->cp[1] = t[i];
			if (!seg_check(seg, 3)) return;
			W->cp[1] = 'a'; W->cp[2] = t[i]; W->cp[3] = c;
			if (!seg_check(seg, 4)) return;
			W->cp[1] = 0x300; W->cp[2] = t[i]; W->cp[3] = ' ';
			if (!seg_check(seg, 4)) return;
			W->cp[1] = ' '; W->cp[2] = t[i]; W->cp[3] = 'a';
			if (!seg_check(seg, 4)) return;
		}
	}
}

/* ---- F: lengths that do not fit smaller integers; what lies behind the hard break must not matter */
static const uint64_t hugelen[] = { UINT64_C(1) << 16, UINT64_C(3) << 16, UINT64_C(1) << 31, UINT64_C(1) << 32, UINT64_C(5) << 32, UINT64_C(1) << 48, UINT64_C(1) << 63, (UINT64_C(1) << 63) + (UINT64_C(1) << 32) };
static void
huge_job(unsigned long job)
{
	int d[3] = { (int)(job % (unsigned)A.n), 0, 0 };
	static cp_t *buf;
	const cp_t end = seg == SEG_LINE ? 0x000A : 0x2029;
	size_t i, r, want;
	if (!buf) { buf = calloc(70000 * 4, sizeof(cp_t)); for (i = 0; i < 280000; i++) buf[i] = 'a'; }
	snprintf(W->what, sizeof(W->what), "grapheme_next_%s_break with a length that does not fit 8, 16, 31 or 32 bits", seg_names[seg]);
	W->kind = 1;
	for (d[1] = 0; d[1] < A.n; d[1]++) {
		W->cp[0] = buf[0] = A.rep[d[0]][0];
		W->cp[1] = buf[1] = A.rep[d[1]][0];
		W->cp[2] = buf[2] = end;
		W->cp[3] = buf[3] = 'b';
		if (!seg_check(seg, 4)) return;
		for (want = 1; !seg_brk[want]; want++) ;
		for (i = 0; i < REF_LEN(hugelen) + 1; i++) {
			int k;
			for (k = -3; k < 4; k++) {
				size_t len = i < REF_LEN(hugelen) ? hugelen[i] + (size_t)k : SIZE_MAX - 5 + (size_t)k;
				r = seg_fn[seg](buf, len);
				W->trans++;
				if (r != want) { fail("huge", "next_%s_break with length %zu returned %zu; the break is at %zu whatever follows", seg_names[seg], len, r, want); return; }
			}
		}
		for (i = 4; i < 1030; i++) {
			r = seg_fn[seg](buf, i);
			W->trans++;
			if (r != want) { fail("huge", "next_%s_break with length %zu returned %zu; the break is at %zu whatever follows", seg_names[seg], i, r, want); return; }
		}
	}
}

static uint8_t all_sub[64];

static int
mksub(uint8_t *o, const uint8_t *cls, int n)
{
	int i, m = 0;
	for (i = 0; i < n; i++)
		if (idx_of[cls[i]] >= 0) o[m++] = (uint8_t)idx_of[cls[i]];
	return m;
}
#define CLUSTER(len, ...) do { static const uint8_t q_[] = { __VA_ARGS__ }; uint8_t s_[64]; \
	int m_ = mksub(s_, q_, (int)sizeof(q_)); strings(s_, m_, (len), 0); \
	note("all strings of length %d over a cluster of %d classes", (len), m_); } while (0)
#define PUMP(pl, cl, sl, ks, ...) do { static const uint8_t q_[] = { __VA_ARGS__ }; uint8_t s_[64]; \
	int m_ = mksub(s_, q_, (int)sizeof(q_)); pump(s_, m_, pl, cl, sl, ks, (int)REF_LEN(ks)); } while (0)

static const size_t K_small[] = { 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33 };
static const size_t K_mid[] = { 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258 };
static const size_t K_big[] = { 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097 };
static const size_t K_huge2[] = { 32768, 65536 };
static const size_t K_huge[] = { 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538 };

int
main(int argc, char **argv)
{
	int i, n, T;
	init(argc, argv);
	seg_init();
	if (!strcmp(g_prop, "C26")) { odd_values(); return finish(argv[3]); }
	seg = !strcmp(g_prop, "C03") ? SEG_CHAR : !strcmp(g_prop, "C05") ? SEG_WORD : !strcmp(g_prop, "C06") ? SEG_SENT : SEG_LINE;
	alphabet_build(&A, seg_table[seg], seg_nclass[seg]);
	for (i = 0; i < 64; i++) idx_of[i] = -1;
	for (i = 0; i < A.n; i++) { idx_of[A.cls[i]] = i; all_sub[i] = (uint8_t)i; }
	T = g_thorough;
	note("alphabet: %d classes", A.n);

	/* A */
	n = seg == SEG_CHAR || seg == SEG_SENT ? 7 + T : seg == SEG_WORD ? 6 + T : 5 + T;
	for (i = 1; i <= n; i++) strings(all_sub, A.n, i, 0);
	for (i = 1; i < n; i++) { strings(all_sub, A.n, i, 1); strings(all_sub, A.n, i, 2); strings(all_sub, A.n, i, 3); }
	note("all class strings up to length %d (one representative), up to length %d with three further representative sets", n, n - 1);

	/* B */
	switch (seg) {
	case SEG_CHAR:
		CLUSTER(10 + T, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Other);
		CLUSTER(8 + T, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Prepend, G_SpacingMark, G_Control);
		CLUSTER(7 + T, G_L, G_V, G_T, G_LV, G_LVT, G_Extend, G_Prepend, G_ZWJ);
		break;
	case SEG_WORD:
		CLUSTER(8 + T, W_ALetter, W_MidLetter, W_Single_Quote, W_Numeric, W_Extend, W_ZWJ, W_Other);
		CLUSTER(7 + T, W_ALetter, W_Hebrew_Letter, W_Single_Quote, W_Double_Quote, W_MidLetter, W_Format, W_MidNumLet, W_ExtendNumLet, W_ALetterExtPict);
		CLUSTER(7 + T, W_Numeric, W_MidNum, W_MidNumLet, W_Single_Quote, W_ZWJ, W_Extend, W_ALetter, W_ExtendNumLet, W_Katakana);
		CLUSTER(9 + T, W_Regional_Indicator, W_Extend, W_ZWJ, W_ExtPict, W_Other);
		CLUSTER(7 + T, W_WSegSpace, W_ZWJ, W_Extend, W_ExtPict, W_ALetterExtPict, W_CR, W_LF, W_Newline, W_ALetter);
		break;
	case SEG_SENT:
		CLUSTER(8 + T, S_ATerm, S_STerm, S_Close, S_Sp, S_Lower, S_Other, S_Extend);
		CLUSTER(7 + T, S_ATerm, S_STerm, S_Close, S_Sp, S_Lower, S_Upper, S_Numeric, S_SContinue, S_Sep);
		CLUSTER(7 + T, S_ATerm, S_Upper, S_Lower, S_Extend, S_Format, S_CR, S_LF, S_Sp, S_OLetter);
		break;
	default:
		CLUSTER(7 + T, B_NU, B_SY, B_IS, B_CL, B_CP, B_PR, B_PO, B_AL, B_CM);
		CLUSTER(7 + T, B_PR, B_OP, B_HY, B_NU, B_CM, B_ZWJ, B_SP, B_CP);
		CLUSTER(7 + T, B_OP, B_SP, B_CM, B_ZWJ, B_QU, B_CL, B_NS, B_AL);
		CLUSTER(7 + T, B_B2, B_SP, B_CM, B_ZW, B_ZWJ, B_AL, B_CPwide, B_CP, B_NS);
		CLUSTER(9 + T, B_RI, B_CM, B_ZWJ, B_SP, B_AL);
		CLUSTER(7 + T, B_HL, B_HY, B_BA, B_SY, B_CM, B_AL, B_GL, B_NU);
		CLUSTER(6 + T, B_AL, B_IDcn, B_ID, B_EB, B_EM, B_CM, B_ZWJ, B_PR, B_PO, B_ZW, B_SP, B_WJ);
		break;
	}

	/* C */
	pump(all_sub, A.n, 1, 1, 1, K_small, (int)REF_LEN(K_small));
	if (seg != SEG_LINE || T) pump(all_sub, A.n, 1, 1, 2, K_small, 8);
	switch (seg) {
	case SEG_CHAR:
		PUMP(1, 1, 2, K_mid, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Other, G_Prepend, G_L, G_V, G_T);
		PUMP(1, 1, 1, K_big, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Other);
		PUMP(1, 2, 2, K_small, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Other);
		PUMP(1, 2, 2, K_mid, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Other);
		PUMP(1, 2, 1, K_huge2, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_V, G_T);
		PUMP(1, 1, 1, K_huge, G_ExtPict, G_Extend, G_ZWJ, G_Regional_Indicator, G_Other, G_L, G_V, G_T, G_Prepend);
		break;
	case SEG_WORD:
		PUMP(2, 1, 2, K_small, W_ALetter, W_Single_Quote, W_MidLetter, W_Numeric, W_Extend, W_ZWJ, W_Regional_Indicator, W_ExtPict, W_Other);
		PUMP(2, 1, 2, K_mid, W_ALetter, W_MidNumLet, W_Numeric, W_Extend, W_ZWJ, W_Regional_Indicator);
		PUMP(2, 1, 2, K_big, W_ALetter, W_MidNumLet, W_Extend, W_Regional_Indicator);
		PUMP(1, 2, 2, K_small, W_ALetter, W_MidNumLet, W_Numeric, W_Extend, W_ZWJ, W_Regional_Indicator, W_ExtPict);
		PUMP(1, 2, 2, K_mid, W_ALetter, W_MidNumLet, W_Numeric, W_Extend, W_ZWJ, W_Regional_Indicator, W_ExtPict, W_ExtendNumLet);
		PUMP(1, 2, 1, K_huge2, W_ALetter, W_MidNumLet, W_Numeric, W_Extend, W_ZWJ, W_Regional_Indicator, W_ExtPict);
		PUMP(1, 1, 1, K_huge, W_ALetter, W_Extend, W_ZWJ, W_Regional_Indicator, W_Numeric, W_MidNumLet, W_ExtPict, W_WSegSpace);
		break;
	case SEG_SENT:
		PUMP(2, 1, 2, K_small, S_ATerm, S_STerm, S_Close, S_Sp, S_Lower, S_Upper, S_Other, S_Extend, S_Numeric);
		PUMP(2, 1, 2, K_mid, S_ATerm, S_STerm, S_Close, S_Sp, S_Lower, S_Other, S_Extend);
		PUMP(2, 1, 1, K_big, S_ATerm, S_Close, S_Sp, S_Lower, S_Other, S_Extend);
		PUMP(2, 2, 1, K_small, S_ATerm, S_Close, S_Sp, S_Lower, S_Other, S_Extend);
		PUMP(1, 2, 2, K_mid, S_ATerm, S_Close, S_Sp, S_Lower, S_Other, S_Extend, S_Numeric, S_Upper);
		PUMP(1, 2, 1, K_big, S_Close, S_Lower, S_Other, S_Extend, S_Numeric, S_Upper);
		p_skip[S_ATerm] = p_skip[S_Close] = p_skip[S_Sp] = true;
		PUMP(2, 1, 1, K_huge, S_ATerm, S_Close, S_Sp, S_Lower, S_Other, S_Extend);
		break;
	default:
		PUMP(2, 1, 2, K_small, B_NU, B_SY, B_IS, B_CL, B_PR, B_PO, B_OP, B_CM, B_SP, B_AL);
		PUMP(2, 1, 2, K_small, B_OP, B_QU, B_CL, B_NS, B_B2, B_SP, B_CM, B_ZWJ, B_ZW, B_RI);
		PUMP(1, 1, 1, K_mid, B_NU, B_SY, B_IS, B_CL, B_PR, B_PO, B_OP, B_CM, B_SP, B_AL, B_QU, B_NS, B_B2, B_ZW, B_RI, B_HY, B_HL, B_ZWJ);
		PUMP(1, 2, 1, K_small, B_NU, B_SY, B_IS, B_CL, B_PR, B_PO, B_OP, B_CM, B_SP, B_AL, B_QU, B_RI);
		PUMP(1, 1, 1, K_big, B_NU, B_SY, B_CL, B_PO, B_OP, B_CM, B_SP, B_RI, B_B2);
		PUMP(1, 2, 2, K_mid, B_NU, B_SY, B_IS, B_CL, B_OP, B_CM, B_AL, B_QU, B_RI, B_HY);
		PUMP(1, 2, 1, K_huge2, B_NU, B_IS, B_OP, B_CM, B_AL, B_QU, B_RI, B_HL);
		PUMP(1, 1, 1, K_huge, B_NU, B_SY, B_CL, B_PO, B_OP, B_CM, B_SP, B_RI, B_QU, B_HL);
		break;
	}
	note("pumped strings prefix.cycle^k.suffix with k up to 65538");

	/* E, F */
	run_jobs(ascii_job, 128);
	run_jobs(ascii_run_job, 8 * 40);
	run_jobs(block_job, 0x1100);
	run_jobs(wide_job, T ? 512 : 256);
	run_jobs(twin_job, 0x1100);
	run_jobs(huge_job, (unsigned long)A.n);
	note("all strings of 3 and 4 ASCII characters; r^k y z for 8 characters r, k up to 40, all ASCII y, z; all pairs of code points within each block of 256%s", T ? "" : " that has more than one class");
	note("all pairs of a code point below 100 with any code point, in both orders%s", T ? "; all pairs of code points below 10000" : "");
	note("every code point with every one that shares its low 8, 12 or 16 bits or differs in one bit or in bits 12 to 15, if the class differs, in 5 surroundings");
	note("all class pairs in front of a paragraph end in texts said to be 4 to 1029 and around 2^16, 2^31, 2^32, 2^48, 2^63 and SIZE_MAX long");

	/* D */
	choose_contexts();
	run_jobs(cps_job, 0x110000 / 0x400);
	build_specials();
	run_jobs(special_job, (nspecials + 15) / 16);
	note("every code point 0..10FFFF in each distinguishing context; %zu class-border and out-of-range values in all one-left one-right contexts", nspecials);
	return finish(argv[3]);
}
