/* C04: the stateful pairwise grapheme test, explored as a product of its state variable with the reference's left context */
#include "common.h"

/*
 * Everything the rules can still need of the text to the left: the last class, the parity of the
 * regional indicators that end there, and whether ExtPict Extend* (ZWJ) ends there.
 */
struct left { uint8_t last, odd, pict; };

static struct left
left_step(struct left l, uint8_t c)
{
	struct left r = { .last = c };
	r.odd = c == G_Regional_Indicator && !l.odd;
	r.pict = c == G_ExtPict || (l.pict && l.last != G_ZWJ && (c == G_Extend || c == G_ZWJ));
	return r;
}

/* the shortest text with this left context */
static size_t
witness(struct left l, uint8_t *c)
{
	size_t n = 0;
	if (l.last == G_Regional_Indicator && !l.odd) c[n++] = G_Regional_Indicator;
	if (l.pict && l.last != G_ExtPict) c[n++] = G_ExtPict;
	c[n++] = l.last;
	return n;
}

static struct alphabet A;
static int sym_of[32];

static bool
ref_break(struct left l, uint8_t c)
{
	uint8_t t[4];
	size_t n = witness(l, t);
	t[n++] = c;
	return ref_gcb(t, n, n - 1, NULL);
}

/* ---- product search: nodes are (state value, left context), the left code point's class is in the context */
struct node { uint16_t st; struct left l; int parent; cp_t by; };
static struct node *nodes;
static int nnodes;
static int *seen; /* [65536][16][2][2] */

static int
node_get(uint16_t st, struct left l, int parent, cp_t by)
{
	int *s = &seen[((((size_t)st * 16 + l.last) * 2 + l.odd) * 2) + l.pict];
	if (*s == 0) {
		if (nnodes >= 400000) { fail("state-explosion", "more than 400000 reachable (state, context) pairs"); _exit(0); }
		nodes[nnodes] = (struct node){ st, l, parent, by };
		*s = ++nnodes;
	}
	return *s - 1;
}

static void
path(int k)
{
	cp_t t[256];
	size_t n = 0, i;
	for (; k >= 0 && n < 256; k = nodes[k].parent) t[n++] = nodes[k].by;
	for (i = 0; i < n; i++) W->cp[i] = t[n - 1 - i];
	W->n = n;
	W->kind = 1;
}

static void
product_job(unsigned long job)
{
	int i, s, k, r, q;
	(void)job;
	snprintf(W->what, sizeof(W->what), "grapheme_is_character_break");
	nodes = malloc(sizeof(*nodes) * 400001);
	seen = calloc((size_t)65536 * 64, sizeof(*seen));
	for (s = 0; s < A.n; s++) {
		struct left l = left_step((struct left){ G_Other, 0, 0 }, A.cls[s]);
		node_get(0, l, -1, A.rep[s][0]);
	}
	for (i = 0; i < nnodes; i++) {
		struct node nd = nodes[i];
		int ls = sym_of[nd.l.last];
		W->states++;
		for (s = 0; s < A.n; s++) {
			struct left nl = left_step(nd.l, A.cls[s]);
			bool want = ref_break(nd.l, A.cls[s]);
			uint16_t st0 = nd.st;
			for (k = 0; k < A.nrep[ls]; k++)
				for (r = 0; r < A.nrep[s]; r++) {
					uint_least16_t st = st0;
					bool got = grapheme_is_character_break(A.rep[ls][k], A.rep[s][r], &st);
					W->trans++;
					q = node_get(st, nl, i, A.rep[s][r]);
					if (got != want) {
						char sig[120];
						path(q);
						snprintf(sig, sizeof(sig), "pairwise:%s-%s:odd%d:pict%d", gcb_names[nd.l.last], gcb_names[A.cls[s]], nd.l.odd, nd.l.pict);
						fail(sig, "pair %s, %s with state 0x%04X (after the text shown, last pair): expected %s, got %s",
						     gcb_names[nd.l.last], gcb_names[A.cls[s]], st0, want ? "break" : "no break", got ? "break" : "no break");
						if (stopped()) return;
					}
					if (got) node_get(0, nl, i, A.rep[s][r]); /* the state may be reset after a break */
				}
		}
	}
	S->w[0].extra[0] = (uint64_t)nnodes;
}

/* ---- every text of class strings up to a length: pairwise with kept state, with reset after breaks, against next_character_break */
static int t_len;
static void
text_job(unsigned long job)
{
	int d[12], i, n = t_len;
	uint8_t c[12];
	bool brk[12];
	snprintf(W->what, sizeof(W->what), "grapheme_is_character_break over a text");
	W->kind = 1;
	for (i = 0; i < n; i++) d[i] = 0;
	d[0] = (int)(job % (unsigned)A.n);
	d[1] = (int)(job / (unsigned)A.n);
	for (;;) {
		uint_least16_t st = 0, st2 = 0;
		size_t next;
		for (i = 0; i < n; i++) { c[i] = A.cls[d[i]]; W->cp[i] = A.rep[d[i]][(i + d[i]) % A.nrep[d[i]]]; }
		W->n = (size_t)n;
		W->states++;
		W->traces++;
		next = grapheme_next_character_break(W->cp, (size_t)n);
		for (i = 1; i < n; i++) {
			bool b1, b2;
			brk[i] = ref_gcb(c, (size_t)n, (size_t)i, NULL);
			b1 = grapheme_is_character_break(W->cp[i - 1], W->cp[i], &st);
			b2 = grapheme_is_character_break(W->cp[i - 1], W->cp[i], &st2);
			if (b2) st2 = 0;
			W->trans += 2;
			if (b1 != brk[i] || b2 != brk[i]) {
				fail("pairwise-text", "pair %d of the text: reference says %s, kept state says %s, state zeroed after breaks says %s", i,
				     brk[i] ? "break" : "no break", b1 ? "break" : "no break", b2 ? "break" : "no break");
				break;
			}
			if ((size_t)i <= next && b1 != ((size_t)i == next)) {
				fail("pairwise-vs-next", "pair %d: pairwise test says %s, next_character_break returned %zu", i, b1 ? "break" : "no break", next);
				break;
			}
		}
		for (i = n - 1; i >= 2; i--) {
			if (++d[i] < A.n) break;
			d[i] = 0;
		}
		if (i < 2 || stopped()) break;
	}
}

/* ---- every code point as the left and as the right one, without a state and with a zero one */
static void
cps_job(unsigned long job)
{
	cp_t c;
	uint64_t c64;
	int s;
	snprintf(W->what, sizeof(W->what), "grapheme_is_character_break (NULL state, zero state)");
	W->kind = 1;
	W->n = 2;
	for (c64 = (uint64_t)job << 8; c64 < (uint64_t)(job + 1) << 8 && !stopped(); c64++) {
		c = (cp_t)c64;
		W->states++;
		for (s = 0; s < A.n; s++) {
			int side;
			for (side = 0; side < 2; side++) {
				cp_t x = side ? A.rep[s][0] : c, y = side ? c : A.rep[s][0];
				uint8_t t[2] = { ref_cls(T_GCB, x), ref_cls(T_GCB, y) };
				bool want = ref_gcb(t, 2, 1, NULL), g0, g1;
				uint_least16_t st = 0;
				W->cp[0] = x; W->cp[1] = y;
				g0 = grapheme_is_character_break(x, y, NULL);
				g1 = grapheme_is_character_break(x, y, &st);
				W->trans += 2;
				if (g0 != want || g1 != want) {
					char sig[120];
					snprintf(sig, sizeof(sig), "stateless:%s-%s", gcb_names[t[0]], gcb_names[t[1]]);
					fail(sig, "pair U+%04X (%s), U+%04X (%s): expected %s, without state %s, with zero state %s", (unsigned)x, gcb_names[t[0]],
					     (unsigned)y, gcb_names[t[1]], want ? "break" : "no break", g0 ? "break" : "no break", g1 ? "break" : "no break");
					return;
				}
			}
		}
	}
	W->traces++;
}

static void
big_job(unsigned long job)
{
	/* values outside Unicode */
	cps_job((0x110000u >> 8) + job);
	cps_job((UINT32_C(1) << (job % 8 + 16)) - 1);
	cps_job(0xFFFFFFu - job);
	cps_job((0x800000u + job * 0x10001u) & 0xFFFFFF);
}

int
main(int argc, char **argv)
{
	int i, n;
	init(argc, argv);
	alphabet_build(&A, T_GCB, G_NUM);
	for (i = 0; i < A.n; i++) sym_of[A.cls[i]] = i;
	run_jobs(product_job, 1);
	note("complete product of the reachable states of the state variable with the reference context: %llu nodes, %d classes with up to %d representatives on either side, with and without reset after a break",
	     (unsigned long long)sum(0), A.n, MAXREP);
	n = g_thorough ? 7 : 6;
	for (t_len = 2; t_len <= n; t_len++) run_jobs(text_job, (unsigned long)(A.n * A.n));
	note("every class string up to length %d fed pairwise (state kept, state zeroed after breaks) and compared with next_character_break", n);
	run_jobs(cps_job, 0x110000 >> 8);
	run_jobs(big_job, 300);
	note("every code point and out-of-range values as left and as right partner of every class, NULL and zero state");
	sample("product node: state 0x.., context ExtPict Extend ZWJ | next ExtPict: no break");
	return finish(argv[3]);
}
