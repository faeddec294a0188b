/*
 * Reference implementation of UAX #9 (Unicode 15.0), written directly from the rules: explicit isolating run
 * sequences as index lists, BD16 with a stack, no restriction on lengths.
 */
#ifndef REF_BIDI_H
#define REF_BIDI_H
#include "ref.h"

#define BIDI_MAXDEPTH 125
#define BIDI_STACK 63

static int32_t *ref_bracket_tab; /* 0: none, +id: opening, -id: closing */

static void
ref_bidi_init(void)
{
	size_t i;
	ref_bracket_tab = calloc(REF_N, sizeof(int32_t));
	for (i = 0; i < REF_LEN(ref_brackets); i++)
		ref_bracket_tab[ref_brackets[i].cp] = ref_brackets[i].type == 'o' ? (int32_t)ref_brackets[i].id : -(int32_t)ref_brackets[i].id;
}
static inline int32_t ref_bracket(cp_t c) { return c < REF_N ? ref_bracket_tab[c] : 0; }

struct rb {
	size_t cap;
	uint8_t *cur;          /* current types */
	size_t *match, *stk;   /* matching PDI or SIZE_MAX; scratch */
	size_t *seq;           /* indices of the sequence under work */
	size_t *run_start, *run_end, *run_of;
	bool *used;
	struct rbpair { size_t o, c; } *pair;
	uint8_t *t;            /* types along the sequence */
	uint8_t *isopen;
};

static void
rb_init(struct rb *b, size_t cap)
{
	b->cap = cap;
	b->cur = malloc(cap);
	b->match = malloc(cap * sizeof(size_t));
	b->stk = malloc(cap * sizeof(size_t));
	b->seq = malloc(cap * sizeof(size_t));
	b->run_start = malloc((cap + 1) * sizeof(size_t));
	b->run_end = malloc((cap + 1) * sizeof(size_t));
	b->run_of = malloc(cap * sizeof(size_t));
	b->used = malloc(cap + 1);
	b->pair = malloc(cap * sizeof(*b->pair));
	b->t = malloc(cap);
}

static inline bool bc_init(uint8_t c) { return c == BC_LRI || c == BC_RLI || c == BC_FSI; }
static inline bool bc_removed(uint8_t c) { return c == BC_LRE || c == BC_RLE || c == BC_LRO || c == BC_RLO || c == BC_PDF || c == BC_BN; }
static inline bool bc_ni(uint8_t c) { return c == BC_B || c == BC_S || c == BC_WS || c == BC_ON || bc_init(c) || c == BC_PDI; }

/* length of the first paragraph (P1) */
static inline size_t
rb_paragraph(const uint8_t *cls, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) if (cls[i] == BC_B) return i + 1;
	return n;
}

/* P2, P3 on cls[i..n): -1 if there is no strong character; stops at the PDI matching an initiator before i if within */
static inline int
rb_first_strong(const uint8_t *cls, size_t i, size_t n, bool within)
{
	size_t depth = 0;
	for (; i < n; i++) {
		if (bc_init(cls[i])) depth++;
		else if (cls[i] == BC_PDI) {
			if (depth > 0) depth--;
			else if (within) return -1;
		} else if (depth == 0) {
			if (cls[i] == BC_L) return 0;
			if (cls[i] == BC_R || cls[i] == BC_AL) return 1;
		}
	}
	return -1;
}

static void
rb_brackets(struct rb *b, const int32_t *br, const uint8_t *cls, const int8_t *lev, size_t m, uint8_t sos, uint8_t emb)
{
	size_t sp = 0, np = 0, k, j;
	(void)lev;
	for (k = 0; k < m; k++) {
		int32_t id = br[b->seq[k]];
		if (id == 0 || b->t[k] != BC_ON) continue;
		if (id > 0) {
			if (sp == BIDI_STACK) break;
			b->stk[sp++] = k;
		} else {
			for (j = sp; j > 0; j--)
				if (br[b->seq[b->stk[j - 1]]] == -id) {
					b->pair[np].o = b->stk[j - 1];
					b->pair[np++].c = k;
					sp = j - 1;
					break;
				}
		}
	}
	/* sort by the opening position */
	memset(b->used, 0, m);
	for (k = 0; k < np; k++) { b->used[b->pair[k].o] = true; b->match[b->seq[b->pair[k].o]] = b->pair[k].c; }
	for (k = 0; k < m; k++) {
		size_t c;
		uint8_t found = BC_ON, set = BC_ON;
		if (!b->used[k]) continue;
		c = b->match[b->seq[k]];
		for (j = k + 1; j < c; j++) {
			uint8_t s = b->t[j] == BC_L ? BC_L : b->t[j] == BC_R || b->t[j] == BC_EN || b->t[j] == BC_AN ? BC_R : BC_ON;
			if (s == BC_ON) continue;
			found = s;
			if (s == emb) break;
		}
		if (found == BC_ON) continue;
		if (found == emb) set = emb;
		else {
			uint8_t before = sos;
			for (j = k; j > 0; j--) {
				uint8_t s = b->t[j - 1];
				if (s == BC_L) { before = BC_L; break; }
				if (s == BC_R || s == BC_EN || s == BC_AN) { before = BC_R; break; }
			}
			set = before == found ? found : emb;
		}
		b->t[k] = b->t[c] = set;
		for (j = k + 1; j < m && cls[b->seq[j]] == BC_NSM; j++) b->t[j] = set;
		for (j = c + 1; j < m && cls[b->seq[j]] == BC_NSM; j++) b->t[j] = set;
	}
}

static void
rb_sequence(struct rb *b, const uint8_t *cls, const int32_t *br, const int8_t *lev, size_t m, uint8_t sos, uint8_t eos)
{
	uint8_t *t = b->t, last, emb = lev[b->seq[0]] & 1 ? BC_R : BC_L;
	size_t k, j;
	for (k = 0; k < m; k++) t[k] = b->cur[b->seq[k]];
	/* W1 */
	for (k = 0; k < m; k++)
		if (t[k] == BC_NSM) {
			uint8_t p = k == 0 ? sos : t[k - 1];
			t[k] = bc_init(p) || p == BC_PDI ? BC_ON : p;
		}
	/* W2 */
	for (k = 0, last = sos; k < m; k++) {
		if (t[k] == BC_R || t[k] == BC_L || t[k] == BC_AL) last = t[k];
		else if (t[k] == BC_EN && last == BC_AL) t[k] = BC_AN;
	}
	/* W3 */
	for (k = 0; k < m; k++) if (t[k] == BC_AL) t[k] = BC_R;
	/* W4 */
	for (k = 1; k + 1 < m; k++) {
		if ((t[k] == BC_ES || t[k] == BC_CS) && t[k - 1] == BC_EN && t[k + 1] == BC_EN) t[k] = BC_EN;
		else if (t[k] == BC_CS && t[k - 1] == BC_AN && t[k + 1] == BC_AN) t[k] = BC_AN;
	}
	/* W5 */
	for (k = 0; k < m; k++)
		if (t[k] == BC_ET) {
			for (j = k; j < m && t[j] == BC_ET; j++) ;
			if ((k > 0 && t[k - 1] == BC_EN) || (j < m && t[j] == BC_EN))
				for (; k < j; k++) t[k] = BC_EN;
			k = j - 1;
		}
	/* W6 */
	for (k = 0; k < m; k++) if (t[k] == BC_ES || t[k] == BC_ET || t[k] == BC_CS) t[k] = BC_ON;
	/* W7 */
	for (k = 0, last = sos; k < m; k++) {
		if (t[k] == BC_R || t[k] == BC_L) last = t[k];
		else if (t[k] == BC_EN && last == BC_L) t[k] = BC_L;
	}
	/* N0 */
	if (br) rb_brackets(b, br, cls, lev, m, sos, emb);
	/* N1, N2 */
	for (k = 0; k < m; k++)
		if (bc_ni(t[k])) {
			uint8_t before, after;
			for (j = k; j < m && bc_ni(t[j]); j++) ;
			before = k == 0 ? sos : t[k - 1] == BC_L ? BC_L : BC_R;
			after = j == m ? eos : t[j] == BC_L ? BC_L : BC_R;
			for (; k < j; k++) t[k] = before == after ? before : emb;
			k = j - 1;
		}
	for (k = 0; k < m; k++) b->cur[b->seq[k]] = t[k];
}

/*
 * levels of one paragraph (a B can only be the last element) before rule L1; -1 for what X9 removes.
 * override: -1 none, 0 or 1.  Returns the paragraph level.
 */
static int
ref_bidi(struct rb *b, const uint8_t *cls, const int32_t *br, size_t n, int override, int8_t *lev)
{
	struct { int level; int ov; bool iso; } st[BIDI_MAXDEPTH + 3], *s = st;
	size_t i, sp, nruns, oi = 0, oe = 0, vi = 0;
	int P = override;
	if (P < 0) { P = rb_first_strong(cls, 0, n, false); if (P < 0) P = 0; }
	/* BD9 */
	for (i = 0, sp = 0; i < n; i++) {
		b->match[i] = SIZE_MAX;
		if (bc_init(cls[i])) b->stk[sp++] = i;
		else if (cls[i] == BC_PDI && sp > 0) { sp--; b->match[b->stk[sp]] = i; b->match[i] = b->stk[sp]; }
	}
	s->level = P; s->ov = -1; s->iso = false;
	for (i = 0; i < n; i++) {
		uint8_t c = cls[i];
		b->cur[i] = c;
		if (c == BC_RLE || c == BC_LRE || c == BC_RLO || c == BC_LRO) { /* X2 - X5 */
			int nl = c == BC_RLE || c == BC_RLO ? (s->level + 1) | 1 : (s->level + 2) & ~1;
			lev[i] = -1;
			if (nl <= BIDI_MAXDEPTH && !oi && !oe) {
				s++;
				s->level = nl; s->ov = c == BC_RLO ? BC_R : c == BC_LRO ? BC_L : -1; s->iso = false;
			} else if (!oi) oe++;
		} else if (bc_init(c)) { /* X5a - X5c */
			int dir = c == BC_RLI ? 1 : c == BC_LRI ? 0 : rb_first_strong(cls, i + 1, n, true) == 1, nl;
			lev[i] = (int8_t)s->level;
			if (s->ov >= 0) b->cur[i] = (uint8_t)s->ov;
			nl = dir ? (s->level + 1) | 1 : (s->level + 2) & ~1;
			if (nl <= BIDI_MAXDEPTH && !oi && !oe) {
				vi++;
				s++;
				s->level = nl; s->ov = -1; s->iso = true;
			} else oi++;
		} else if (c == BC_PDI) { /* X6a */
			if (oi) oi--;
			else if (vi) {
				oe = 0;
				while (!s->iso) s--;
				s--;
				vi--;
			}
			lev[i] = (int8_t)s->level;
			if (s->ov >= 0) b->cur[i] = (uint8_t)s->ov;
		} else if (c == BC_PDF) { /* X7 */
			lev[i] = -1;
			if (oi) ;
			else if (oe) oe--;
			else if (!s->iso && s > st) s--;
		} else if (c == BC_B) lev[i] = (int8_t)P; /* X8 */
		else if (c == BC_BN) lev[i] = -1;
		else { /* X6 */
			lev[i] = (int8_t)s->level;
			if (s->ov >= 0) b->cur[i] = (uint8_t)s->ov;
		}
	}
	/* BD7 level runs (removed characters left out) */
	for (i = 0, nruns = 0; i < n; i++) {
		if (lev[i] < 0) continue;
		if (nruns == 0 || lev[i] != lev[b->run_end[nruns - 1]]) { b->run_start[nruns] = i; nruns++; }
		b->run_end[nruns - 1] = i;
		b->run_of[i] = nruns - 1;
	}
	/* BD13, X10: the bracket step reuses match[], so the links between runs are taken first */
	{
		static _Thread_local size_t *link; static _Thread_local bool *head; static _Thread_local size_t cap;
		size_t r, q, j;
		if (cap < b->cap) { free(link); free(head); cap = b->cap; link = malloc((cap + 1) * sizeof(size_t)); head = malloc(cap + 1); }
		for (r = 0; r < nruns; r++) {
			size_t e = b->run_end[r];
			link[r] = bc_init(cls[e]) && b->match[e] != SIZE_MAX ? b->run_of[b->match[e]] : SIZE_MAX;
			head[r] = !(cls[b->run_start[r]] == BC_PDI && b->match[b->run_start[r]] != SIZE_MAX);
		}
		for (r = 0; r < nruns; r++) {
			size_t m = 0, first, last;
			int before, after;
			if (!head[r]) continue;
			for (q = r;; q = link[q]) {
				for (j = b->run_start[q]; j <= b->run_end[q]; j++) if (lev[j] >= 0) b->seq[m++] = j;
				if (link[q] == SIZE_MAX) break;
			}
			first = b->seq[0];
			last = b->seq[m - 1];
			before = r == 0 ? P : lev[b->run_end[r - 1]];
			after = q + 1 == nruns || bc_init(cls[last]) ? P : lev[b->run_start[q + 1]];
			if (lev[first] > before) before = lev[first];
			if (lev[last] > after) after = lev[last];
			rb_sequence(b, cls, br, lev, m, before & 1 ? BC_R : BC_L, after & 1 ? BC_R : BC_L);
		}
	}
	/* I1, I2 */
	for (i = 0; i < n; i++) {
		if (lev[i] < 0) continue;
		if (lev[i] & 1) { if (b->cur[i] != BC_R) lev[i]++; }
		else lev[i] = (int8_t)(lev[i] + (b->cur[i] == BC_R ? 1 : b->cur[i] == BC_L ? 0 : 2));
	}
	return P;
}

/* L1 on the line cls[0..n): in -> out */
static void
ref_l1(const uint8_t *cls, const int8_t *in, size_t n, int P, int8_t *out)
{
	size_t i;
	bool trailing = true;
	for (i = n; i > 0; i--) {
		uint8_t c = cls[i - 1];
		out[i - 1] = in[i - 1];
		if (in[i - 1] < 0) continue;
		if (c == BC_S || c == BC_B) { trailing = true; out[i - 1] = (int8_t)P; }
		else if (c == BC_WS || bc_init(c) || c == BC_PDI) { if (trailing) out[i - 1] = (int8_t)P; }
		else trailing = false;
	}
}

/* L2: visual order (indices) of the non-removed characters of a line; returns their number */
static size_t
ref_l2(const int8_t *lev, size_t n, size_t *order)
{
	size_t i, m = 0, a, z, j, k;
	int hi = 0, l;
	for (i = 0; i < n; i++) if (lev[i] >= 0) { order[m++] = i; if (lev[i] > hi) hi = lev[i]; }
	for (l = hi; l > 0; l--)
		for (a = 0; a < m; a = z) {
			z = a + 1;
			if (lev[order[a]] < l) continue;
			while (z < m && lev[order[z]] >= l) z++;
			for (j = a, k = z - 1; j < k; j++, k--) { size_t x = order[j]; order[j] = order[k]; order[k] = x; }
		}
	return m;
}
#endif
