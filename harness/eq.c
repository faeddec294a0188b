/* C08, C09, C10, C16: break iteration, UTF-8 against code points, NUL-terminated against explicit length, memory */
#include "seg.h"
#include "guard.h"
#include "../ref/ref_case.h"

typedef size_t (*to_fn)(const uint_least32_t *, size_t, uint_least32_t *, size_t);
typedef size_t (*to8_fn)(const char *, size_t, char *, size_t);
typedef bool (*is_fn)(const uint_least32_t *, size_t, size_t *);
typedef bool (*is8_fn)(const char *, size_t, size_t *);
static const to_fn to[CASE_NUM] = { grapheme_to_lowercase, grapheme_to_uppercase, grapheme_to_titlecase };
static const to8_fn to8[CASE_NUM] = { grapheme_to_lowercase_utf8, grapheme_to_uppercase_utf8, grapheme_to_titlecase_utf8 };
static const is_fn is[CASE_NUM] = { grapheme_is_lowercase, grapheme_is_uppercase, grapheme_is_titlecase };
static const is8_fn is8[CASE_NUM] = { grapheme_is_lowercase_utf8, grapheme_is_uppercase_utf8, grapheme_is_titlecase_utf8 };

enum { F_SEG = 15, F_TO = 7 << 4, F_IS = 7 << 7, F_CASE = F_TO | F_IS, F_ALL = F_SEG | F_CASE, F_BIDI = 1 << 10 };
static unsigned fns; /* functions explored: bit k < 4 segmentation, 4..6 conversion, 7..9 detection */

enum { P_C08 = 8, P_C09, P_C10, P_C16 };
static int prop, nvar = 4; /* number of variants of what follows a NUL */
static cp_t *cps, *ocp, *ocp2;
static size_t *offs;
static uint8_t *o8, *e8;
static struct guard g_in, g_in8;

#define GSIZE (1u << 20)
static void
eq_init(void)
{
	cps = malloc(ARENA * 4 * sizeof(cp_t));
	ocp = malloc(ARENA * 4 * 3 * sizeof(cp_t));
	ocp2 = malloc(ARENA * 4 * 3 * sizeof(cp_t));
	offs = malloc((ARENA * 4 + 1) * sizeof(size_t));
	o8 = malloc(ARENA * 4 * 12);
	e8 = malloc(ARENA * 4 * 12);
	g_in = guard_new(GSIZE);
	g_in8 = guard_new(GSIZE);
}

/* ---- tokens: what texts are made of */
struct token { uint8_t b[4]; int n; cp_t cp; bool ill, raw; /* raw: a value that has no UTF-8 form */ };
static struct token tk[400];
static int ntk;

static void
tk_cp(cp_t c)
{
	int i;
	for (i = 0; i < ntk; i++) if (!tk[i].ill && tk[i].cp == c) return;
	tk[ntk].cp = c;
	tk[ntk].ill = tk[ntk].raw = false;
	tk[ntk].n = (int)ref_encode(c, tk[ntk].b);
	ntk++;
}
static void
tk_raw(cp_t c)
{
	tk[ntk++] = (struct token){ .cp = c, .raw = true };
}
static void
tk_raws(void)
{
	if (prop != P_C08 && prop != P_C10) return;
	tk_raw(0xD800);
	tk_raw(0x110000);
	tk_raw(0xFFFFFFFF);
}
static void
tk_ill(int n, int a, int b, int c)
{
	tk[ntk] = (struct token){ .b = { (uint8_t)a, (uint8_t)b, (uint8_t)c }, .n = n, .cp = 0xFFFD, .ill = true };
	ntk++;
}
static void
tk_ills(bool all)
{
	tk_ill(1, 0x80, 0, 0);
	tk_ill(1, 0xC3, 0, 0);
	tk_ill(2, 0xE2, 0x82, 0);
	tk_ill(3, 0xF0, 0x9F, 0x98);
	if (!all) return;
	tk_ill(1, 0xBF, 0, 0);
	tk_ill(1, 0xC0, 0, 0);
	tk_ill(1, 0xE0, 0, 0);
	tk_ill(2, 0xE0, 0x80, 0);
	tk_ill(2, 0xED, 0xA0, 0);
	tk_ill(1, 0xF0, 0, 0);
	tk_ill(2, 0xF0, 0x8F, 0);
	tk_ill(2, 0xF4, 0x90, 0);
	tk_ill(2, 0xF4, 0x8F, 0);
	tk_ill(1, 0xF5, 0, 0);
	tk_ill(1, 0xFF, 0, 0);
}
/* a code point of every class, and one with a longer encoding where there is one */
static void
tk_classes(int table, int nclass, bool two)
{
	struct alphabet *a = malloc(sizeof(*a));
	int i, j;
	alphabet_build(a, table, nclass);
	for (i = 0; i < a->n; i++) {
		uint8_t b[4];
		size_t l0 = ref_encode(a->rep[i][0], b);
		tk_cp(a->rep[i][0]);
		for (j = a->nrep[i] - 1; two && j > 0; j--)
			if (ref_encode(a->rep[i][j], b) != l0) { tk_cp(a->rep[i][j]); break; }
	}
	free(a);
}
static unsigned
shape(int m, cp_t c)
{
	cp_t o[3];
	size_t n = ref_map(m, c, o);
	uint8_t b[4];
	size_t l0 = ref_encode(c, b), l1 = ref_encode(o[0], b);
	return n > 1 ? (unsigned)n + 2 : o[0] == c ? 0 : l1 == l0 ? 1 : l1 > l0 ? 2 : 7;
}
static void
tk_case(void)
{
	uint8_t *seen = calloc(4 * 512, 1);
	cp_t c;
	for (c = 1; c < REF_N; c++) {
		unsigned k = ref_cls(T_CS, c) * 512u + shape(M_LOWER, c) * 64 + shape(M_UPPER, c) * 8 + shape(M_TITLE, c);
		if (c >= 0xD800 && c < 0xE000) continue;
		if (!seen[k]) { seen[k] = 1; tk_cp(c); }
	}
	tk_cp(0x3A3);
	tk_cp('\'');
	tk_cp('1');
	tk_cp(0x300);
	free(seen);
}

static void
sig_tok(char *sig, size_t m, const char *what)
{
	size_t i, l = (size_t)snprintf(sig, m, "%s:", what);
	if (W->kind == 2) for (i = 0; i < W->n && i < 16 && l + 4 < m; i++) l += (size_t)snprintf(sig + l, m - l, "%02X", W->by[i]);
	else for (i = 0; i < W->n && i < 10 && l + 10 < m; i++) l += (size_t)snprintf(sig + l, m - l, "%s%X", i ? "." : "", (unsigned)W->cp[i]);
}
#define BAD(what, ...) do { char sig_[150]; sig_tok(sig_, sizeof(sig_), what); fail(sig_, __VA_ARGS__); return false; } while (0)

/* decode by[0..n) with the model; the tail that is left out begins at offs[nc] */
static size_t
model_decode(const uint8_t *b, size_t n)
{
	size_t o = 0, nc = 0, r;
	while (o < n) {
		r = ref_decode(b + o, n - o, &cps[nc]);
		if (r > n - o) break; /* truncated */
		offs[nc++] = o;
		o += r;
	}
	offs[nc] = o;
	return nc;
}

/* ---- C09 (and the UTF-8 half of C10): the bytes are at s; len is what the library is told; cps[0..nc) is what they mean */
static bool
same_as_codepoints(const uint8_t *s, size_t len, size_t nc)
{
	int k;
	size_t i, r, r8, l, l8;
	bool open = len == SIZE_MAX;
	for (k = 0; k < SEG_NUM; k++) {
		if (!(fns & (1u << k))) continue;
		for (i = 0;;) {
			r = i < nc ? seg_fn[k](cps + i, nc - i) : 0;
			r8 = seg_fn8[k]((const char *)s + offs[i], open ? SIZE_MAX : len - offs[i]);
			W->trans += 2;
			if (r > nc - i || r8 != offs[i + r] - offs[i]) BAD(seg_names[k], "next_%s_break_utf8 at byte %zu: %zu bytes; next_%s_break on the decoded text: %zu code points, i.e. %zu bytes", seg_names[k], offs[i], r8, seg_names[k], r, r <= nc - i ? offs[i + r] - offs[i] : 0);
			if (r == 0) break;
			i += r;
		}
	}
	for (k = 0; k < CASE_NUM; k++) {
		if (fns & (1u << (4 + k))) {
			r = to[k](cps, nc, ocp, nc * 3 + 4);
			if (r > nc * 3) BAD(case_names[k], "to_%s returned %zu for %zu code points", case_names[k], r, nc);
			for (i = 0, l = 0; i < r; i++) l += ref_encode(ocp[i], e8 + l);
			o8[l] = 0x5A;
			r8 = to8[k]((const char *)s, len, (char *)o8, l + 4);
			W->trans += 2;
			if (r8 != l || memcmp(o8, e8, l) || o8[l]) {
				for (i = 0; i < l && i < r8 && o8[i] == e8[i]; i++) ;
				BAD(case_names[k], "to_%s_utf8 gives %zu bytes, to_%s on the decoded text %zu; first difference at %zu", case_names[k], r8, case_names[k], l, i);
			}
			r8 = to8[k]((const char *)s, len, NULL, 0);
			W->trans++;
			if (r8 != l) BAD(case_names[k], "to_%s_utf8 with a NULL destination gives %zu, with a buffer %zu", case_names[k], r8, l);
		}
		if (fns & (1u << (7 + k))) {
			bool b = is[k](cps, nc, &l), b8 = is8[k]((const char *)s, len, &l8);
			W->trans += 2;
			if (l > nc || b != b8 || l8 != offs[l]) BAD(case_names[k], "is_%s_utf8: %d, length %zu; is_%s on the decoded text: %d, length %zu, i.e. %zu bytes", case_names[k], b8, l8, case_names[k], b, l, l <= nc ? offs[l] : 0);
		}
	}
	return true;
}

static void
c09(void)
{
	W->states++;
	if (same_as_codepoints(W->by, W->n, model_decode(W->by, W->n))) W->traces++;
}
/* the same text at every alignment */
static void
c09_aligned(int n)
{
	static uint8_t *place;
	int a;
	size_t nc = model_decode(W->by, W->n);
	if (!place) place = aligned_alloc(64, ARENA * 4 + 64);
	W->states++;
	for (a = 1; a < n; a++) {
		memcpy(place + a, W->by, W->n);
		if (!same_as_codepoints(place + a, W->n, nc)) return;
		W->traces++;
	}
}

/* ---- C08 */
static bool
tiles(int k, size_t n, size_t len, bool *brk)
{
	size_t off = 0, r;
	(void)n;
	memset(brk, 0, len + 1);
	while (off < len) {
		r = seg_fn[k](W->cp + off, len - off);
		W->trans++;
		if (r == 0 || r > len - off) BAD(seg_names[k], "next_%s_break at %zu of %zu returned %zu", seg_names[k], off, len, r);
		off += r;
		brk[off] = true;
	}
	return true;
}
static bool *brk_full, *brk_cut;

static bool
c08_cps(size_t n)
{
	int k;
	size_t i, b;
	W->kind = 1;
	W->n = n;
	W->states++;
	for (k = 0; k < SEG_NUM; k++) {
		if (!(fns & (1u << k))) continue;
		if (!tiles(k, n, n, brk_full)) return false;
		for (i = 0; i < n; i++) { /* any offset is a legal start */
			b = seg_fn[k](W->cp + i, n - i);
			W->trans++;
			if (b == 0 || b > n - i) BAD(seg_names[k], "next_%s_break at %zu of %zu returned %zu", seg_names[k], i, n, b);
		}
		for (b = 1; b < n; b++) {
			if (!brk_full[b]) continue;
			if (!tiles(k, n, b, brk_cut)) return false;
			if (memcmp(brk_full + 1, brk_cut + 1, b)) {
				for (i = 1; i <= b && brk_full[i] == brk_cut[i]; i++) ;
				BAD(seg_names[k], "%s breaks: cutting the text of %zu behind the break at %zu changes the one at %zu (%s before)", seg_names[k], n, b, i, brk_full[i] ? "break" : "no break");
			}
		}
		if (seg_fn[k](NULL, 0) || seg_fn[k](W->cp, 0) || seg_fn[k](NULL, n)) BAD(seg_names[k], "next_%s_break of nothing is not 0", seg_names[k]);
		W->trans += 3;
	}
	W->traces++;
	return true;
}

static void
c08_bytes(void)
{
	int k;
	size_t n = W->n, nc, i, r, o;
	W->states++;
	nc = model_decode(W->by, n);
	for (k = 0; k < SEG_NUM; k++) {
		if (!(fns & (1u << k))) continue;
		for (i = 0; i < nc; i++) { /* start at any sequence */
			r = seg_fn8[k]((const char *)W->by + offs[i], n - offs[i]);
			W->trans++;
			for (o = i + 1; o <= nc && offs[o] - offs[i] != r; o++) ;
			if (o > nc) { (void)(0); goto bad; }
			continue;
bad:
			{ char sig[150]; sig_tok(sig, sizeof(sig), seg_names[k]); fail(sig, "next_%s_break_utf8 at byte %zu of %zu returned %zu: not the end of a sequence", seg_names[k], offs[i], n, r); return; }
		}
		if (offs[nc] < n) {
			r = seg_fn8[k]((const char *)W->by + offs[nc], n - offs[nc]);
			W->trans++;
			if (r != 0) { char sig[150]; sig_tok(sig, sizeof(sig), seg_names[k]); fail(sig, "next_%s_break_utf8 of a single truncated sequence returned %zu", seg_names[k], r); return; }
		}
		/* cutting at the breaks */
		for (o = 0; o < offs[nc]; o += r) {
			r = seg_fn8[k]((const char *)W->by + o, n - o);
			W->trans += 2;
			/* the last sequence of the segment; cutting can make an ill-formed one look truncated */
			for (i = 0; i < nc && offs[i + 1] != o + r; i++) ;
			if (i < nc && ref_decode(W->by + offs[i], offs[i + 1] - offs[i], &cps[0]) > offs[i + 1] - offs[i]) continue;
			if (r == 0 || r > n - o || seg_fn8[k]((const char *)W->by + o, r) != r) { char sig[150]; sig_tok(sig, sizeof(sig), seg_names[k]); fail(sig, "next_%s_break_utf8 at byte %zu returned %zu; the segment alone gives %zu", seg_names[k], o, r, r > n - o ? 0 : seg_fn8[k]((const char *)W->by + o, r)); return; }
		}
		if (seg_fn8[k](NULL, 0) || seg_fn8[k]((const char *)W->by, 0) || seg_fn8[k](NULL, n)) { char sig[150]; sig_tok(sig, sizeof(sig), seg_names[k]); fail(sig, "next_%s_break_utf8 of nothing is not 0", seg_names[k]); return; }
		W->trans += 3;
	}
	W->traces++;
}

/* ---- C10 */
static const cp_t junk[][3] = { { 'a', 'B', 'a' }, { 0x300, 0x300, 0x300 }, { 0x5D0, 0x202E, 0x661 }, { 0x1F1E6, 0x200D, 0xAD } };
static const uint8_t junk8[][4] = { { 'a', 'B', 'a', 'b' }, { 0xCC, 0x80, 0xCC, 0x80 }, { 0x80, 0x80, 0x80, 0x80 }, { 0xBF, 'a', 0xE2, 0x82 } };

static bool
nul_cps(size_t n)
{
	int k, v;
	size_t i, r, q, l, l2;
	W->states++;
	for (v = -1; v < nvar; v++) {
		/* v = -1: the NUL is the last accessible element; otherwise something that would matter follows */
		uint32_t *s = (uint32_t *)(g_in.end - (n + 1 + (v < 0 ? 0 : 3)) * 4);
		memcpy(s, W->cp, n * 4);
		s[n] = 0;
		if (v >= 0) memcpy(s + n + 1, junk[v], 12);
		for (k = 0; k < SEG_NUM; k++) {
			if (!(fns & (1u << k))) continue;
			for (i = 0;; i += r) {
				r = seg_fn[k](W->cp + i, n - i);
				q = seg_fn[k](s + i, SIZE_MAX);
				W->trans += 2;
				if (r != q || r > n - i) BAD(seg_names[k], "next_%s_break at %zu: %zu with the length, %zu NUL-terminated", seg_names[k], i, r, q);
				if (r == 0) break;
			}
		}
		for (k = 0; k < CASE_NUM; k++) {
			if (fns & (1u << (4 + k))) {
				r = to[k](W->cp, n, ocp, n * 3 + 4);
				if (r > n * 3) BAD(case_names[k], "to_%s returned %zu for %zu", case_names[k], r, n);
				ocp2[r] = 1;
				q = to[k](s, SIZE_MAX, ocp2, r + 1);
				W->trans += 2;
				if (r != q || memcmp(ocp, ocp2, (r + 1) * 4)) BAD(case_names[k], "to_%s: %zu with the length, %zu (or other characters) NUL-terminated", case_names[k], r, q);
				if ((q = to[k](s, SIZE_MAX, NULL, 0)) != r) BAD(case_names[k], "to_%s to NULL: %zu with the length, %zu NUL-terminated", case_names[k], r, q);
			}
			if (fns & (1u << (7 + k))) {
				bool a = is[k](W->cp, n, &l), b = is[k](s, SIZE_MAX, &l2);
				W->trans += 2;
				if (a != b || l != l2) BAD(case_names[k], "is_%s: %d/%zu with the length, %d/%zu NUL-terminated", case_names[k], a, l, b, l2);
			}
		}
		if (fns & F_BIDI) {
			static const enum grapheme_bidirectional_direction ov[3] = { GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
			enum grapheme_bidirectional_direction d1, d2;
			int8_t *v1 = (int8_t *)o8, *v2 = (int8_t *)e8;
			for (k = 0; k < 3; k++) {
				d1 = d2 = (enum grapheme_bidirectional_direction)9;
				r = grapheme_bidirectional_preprocess_paragraph(W->cp, n, ov[k], ocp, n, &d1);
				q = grapheme_bidirectional_preprocess_paragraph(s, SIZE_MAX, ov[k], ocp2, n, &d2);
				W->trans += 4;
				if (r != q || r > n || d1 != d2) BAD("bidi", "preprocess_paragraph: %zu/%d with the length, %zu/%d NUL-terminated", r, (int)d1, q, (int)d2);
				grapheme_bidirectional_get_line_embedding_levels(ocp, r, v1, r);
				grapheme_bidirectional_get_line_embedding_levels(ocp2, r, v2, r);
				if (memcmp(v1, v2, r)) BAD("bidi", "preprocess_paragraph: other levels NUL-terminated than with the length");
				q = grapheme_bidirectional_preprocess_paragraph(s, SIZE_MAX, ov[k], NULL, 0, NULL);
				if (r != q) BAD("bidi", "preprocess_paragraph to NULL: %zu with the length, %zu NUL-terminated", r, q);
			}
		}
	}
	return true;
}

/* with a length NUL is like any other control: U+0001 has the same properties */
static bool
nul_ordinary(size_t n)
{
	int k;
	size_t i, r, q, l, l2;
	cp_t *s = (cp_t *)(g_in.end - n * 4);
	bool any = false;
	for (i = 0; i < n; i++) { s[i] = W->cp[i]; if (s[i] == 1) { s[i] = 0; any = true; } }
	if (!any) return true;
	for (k = 0; k < SEG_NUM; k++) {
		if (!(fns & (1u << k))) continue;
		for (i = 0; i < n; i += r) {
			r = seg_fn[k](W->cp + i, n - i);
			q = seg_fn[k](s + i, n - i);
			W->trans += 2;
			if (r != q || r > n - i) BAD(seg_names[k], "next_%s_break at %zu with a length: %zu with U+0001, %zu with U+0000", seg_names[k], i, r, q);
			if (r == 0) break;
		}
	}
	for (k = 0; k < CASE_NUM; k++) {
		if (fns & (1u << (4 + k))) {
			r = to[k](W->cp, n, ocp, n * 3 + 4);
			q = to[k](s, n, ocp2, n * 3 + 4);
			W->trans += 2;
			for (i = 0; i < r && i < q && (ocp2[i] == ocp[i] || (ocp[i] == 1 && ocp2[i] == 0)); i++) ;
			if (r != q || i < r) BAD(case_names[k], "to_%s with a length: %zu with U+0001, %zu with U+0000; difference at %zu", case_names[k], r, q, i);
		}
		if (fns & (1u << (7 + k))) {
			bool a = is[k](W->cp, n, &l), b = is[k](s, n, &l2);
			W->trans += 2;
			if (a != b || l != l2) BAD(case_names[k], "is_%s with a length: %d/%zu with U+0001, %d/%zu with U+0000", case_names[k], a, l, b, l2);
		}
	}
	if (fns & F_BIDI) {
		enum grapheme_bidirectional_direction d1 = 9, d2 = 9;
		r = grapheme_bidirectional_preprocess_paragraph(W->cp, n, 0, ocp, n, &d1);
		q = grapheme_bidirectional_preprocess_paragraph(s, n, 0, ocp2, n, &d2);
		W->trans += 2;
		if (r != q || r > n || d1 != d2) BAD("bidi", "preprocess_paragraph with a length: %zu/%d with U+0001, %zu/%d with U+0000", r, (int)d1, q, (int)d2);
		grapheme_bidirectional_get_line_embedding_levels(ocp, r, (int8_t *)o8, r);
		grapheme_bidirectional_get_line_embedding_levels(ocp2, r, (int8_t *)e8, r);
		if (memcmp(o8, e8, r)) BAD("bidi", "preprocess_paragraph with a length: other levels with U+0000 than with U+0001");
	}
	return true;
}

static bool
c10_cps(size_t n)
{
	W->kind = 1;
	W->n = n;
	if (!nul_cps(n) || !nul_ordinary(n)) return false;
	W->traces++;
	return true;
}

static void
c10_bytes(void)
{
	int v;
	size_t n = W->n, nc = 0, o = 0;
	W->states++;
	/* what the bytes up to the NUL mean: a sequence the NUL cuts short is ill-formed */
	W->by[n] = 0;
	while (o < n) { offs[nc] = o; o += ref_decode(W->by + o, n + 1 - o, &cps[nc]); nc++; }
	offs[nc] = o;
	for (v = -1; v < nvar; v++) {
		uint8_t *s = g_in8.end - (n + 1 + (v < 0 ? 0 : 4));
		memcpy(s, W->by, n);
		s[n] = 0;
		if (v >= 0) memcpy(s + n + 1, junk8[v], 4);
		if (!same_as_codepoints(s, SIZE_MAX, nc)) return;
	}
	W->traces++;
}

/* ---- C16: exact-size buffers between inaccessible pages, input not writable; run plain and under the sanitisers */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
#define MMSIZE (1u << 18)
#define CANARY 32
static struct { uint8_t *beg, *end, *rw; } ro;
static struct guard wr, wr2;
static bool small; /* sanitised build: smaller bounds */
static unsigned c16_round;

static void
mm_init(void) /* once per worker */
{
	int fd = memfd_create("in", 0);
	uint8_t *m = mmap(NULL, MMSIZE + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (fd < 0 || ftruncate(fd, MMSIZE) || m == MAP_FAILED ||
	    mmap(m + 4096, MMSIZE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED ||
	    (ro.rw = mmap(NULL, MMSIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)) == MAP_FAILED) { perror("mmap"); exit(3); }
	close(fd);
	ro.beg = m + 4096;
	ro.end = ro.beg + MMSIZE;
	memset(ro.rw, 0x41, MMSIZE);
	wr = guard_new(MMSIZE);
	wr2 = guard_new(4096);
}
static const void *
in_place(const void *src, size_t size, bool at_end)
{
	size_t off = at_end ? MMSIZE - size : 0;
	memcpy(ro.rw + off, src, size);
#ifdef MSAN
	__msan_unpoison(ro.beg + off, size);
#endif
	return ro.beg + off;
}
/* an output buffer of exactly that size; what lies outside is checked by out_check */
static uint8_t *o_at;
static size_t o_size;
static bool o_end;
static void *
out_place(size_t size, bool at_end)
{
	o_at = at_end ? wr.end - size : wr.beg;
	o_size = size;
	o_end = at_end;
	if (at_end) memset(o_at - CANARY, 0xA7, CANARY);
	else memset(o_at + size, 0xA7, CANARY);
#ifdef MSAN
	__msan_poison(o_at, size);
#else
	memset(o_at, 0x5A, size);
#endif
	return o_at;
}
static bool
out_check(const char *what, size_t init)
{
	const uint8_t *c = o_end ? o_at - CANARY : o_at + o_size;
	size_t i;
	for (i = 0; i < CANARY && c[i] == 0xA7; i++) ;
	if (i < CANARY) BAD(what, "%s wrote outside the %zu bytes of its output: %s", what, o_size, o_end ? "in front of it" : "behind it");
#ifdef MSAN
	__msan_check_mem_is_initialized(o_at, init);
#endif
	(void)init;
	return true;
}
static bool
c16_sizes(size_t need, size_t *sz, int *nsz)
{
	size_t i;
	*nsz = 0;
	if (need <= 10 && c16_round % 8 == 0) for (i = 0; i <= need + 2; i++) sz[(*nsz)++] = i;
	else {
		/* the sizes around the interesting ones; which of the middle ones rotates */
		sz[(*nsz)++] = 0;
		sz[(*nsz)++] = 1 + c16_round % (need + 1);
		if (need > 0) sz[(*nsz)++] = need;
		sz[(*nsz)++] = need + 1;
	}
	return true;
}

static bool
c16_one(const void *p, size_t n, size_t len, bool u8)
{
	int k, i, nsz;
	size_t off, r, need, sz[16], l;
	unsigned u = u8 ? 1 : 4;
	const char *p8 = p;
	const uint_least32_t *p4 = p;
	for (k = 0; k < SEG_NUM; k++) {
		if (!(fns & (1u << k))) continue;
		for (off = 0;; off += r) {
			l = len == SIZE_MAX ? SIZE_MAX : len - off;
			r = u8 ? seg_fn8[k](p8 + off, l) : seg_fn[k](p4 + off, l);
			W->trans++;
			if (r == 0 || r > n - off) break;
		}
	}
	for (k = 0; k < CASE_NUM; k++) {
		if (fns & (1u << (4 + k))) {
			need = u8 ? to8[k](p8, len, NULL, 0) : to[k](p4, len, NULL, 0);
			W->trans++;
			if (need > 12 * n + 12 || (need + 2) * u + CANARY > MMSIZE) need = 0; /* not this property's concern */
			c16_round++;
			c16_sizes(need, sz, &nsz);
			for (i = 0; i < nsz; i++) {
				void *o = out_place(sz[i] * u, i + 1 < nsz || (c16_round & 1));
				r = u8 ? to8[k](p8, len, o, sz[i]) : to[k](p4, len, o, sz[i]);
				W->trans++;
				/* what a caller may look at: everything up to the NUL */
				if (!out_check(case_names[k], u8 || sz[i] == 0 ? 0 : (r < sz[i] ? r + 1 : sz[i]) * u)) return false;
#ifdef MSAN
				if (u8 && sz[i] > 0) { size_t q; for (q = 0; q + 1 < sz[i] && o_at[q]; q++) ; __msan_check_mem_is_initialized(o_at, q + 1); }
#endif
			}
		}
		if (fns & (1u << (7 + k))) {
			size_t *cl = (size_t *)(wr2.end - sizeof(size_t));
			(void)(u8 ? is8[k](p8, len, cl) : is[k](p4, len, cl));
			(void)(u8 ? is8[k](p8, len, NULL) : is[k](p4, len, NULL));
#ifdef MSAN
			__msan_check_mem_is_initialized(cl, sizeof(*cl));
#endif
			W->trans += 2;
		}
	}
	if (u8 && len != SIZE_MAX && fns == F_ALL) {
		uint_least32_t *cp = (uint_least32_t *)(wr2.end - 4);
		for (off = 0; off < n; off++) {
			grapheme_decode_utf8(p8 + off, n - off, off & 1 ? NULL : cp);
			W->trans++;
		}
		grapheme_decode_utf8(p8 + n, 0, cp);
	}
	if (!u8 && len != SIZE_MAX && (fns & 1)) {
		uint_least16_t *st = (uint_least16_t *)(wr2.end - 2);
		*st = 0;
		for (off = 0; off + 1 < n; off++) {
			grapheme_is_character_break(p4[off], p4[off + 1], st);
			grapheme_is_character_break(p4[off], p4[off + 1], NULL);
			W->trans += 2;
		}
	}
	return true;
}

static void
c16(bool u8)
{
	size_t i, n = W->n, u = u8 ? 1 : 4;
	const void *src = u8 ? (const void *)W->by : W->cp;
	bool nul = false;
	if (!ro.beg) mm_init();
	W->kind = u8 ? 2 : 1;
	W->states++;
	if (!c16_one(in_place(src, n * u, true), n, n, u8)) return;
	if (!c16_one(in_place(src, n * u, false), n, n, u8)) return;
	for (i = 0; i < n; i++) nul |= (u8 ? W->by[i] : W->cp[i]) == 0;
	if (!nul) {
		memset((uint8_t *)src + n * u, 0, u);
		if (!c16_one(in_place(src, (n + 1) * u, true), n, SIZE_MAX, u8)) return;
	}
	if (!u8 && fns == F_ALL && n <= 3) {
		for (i = 0; i < n; i++) {
			size_t s;
			for (s = 0; s <= 5; s++) {
				size_t r = grapheme_encode_utf8(W->cp[i], out_place(s, s & 1 || s == 4), s);
				W->trans++;
				if (!out_check("encode_utf8", r <= s ? r : 0)) return;
			}
		}
	}
	W->traces++;
}

/* ---- exploration */
static int s_len;

static void
visit_tokens(const int *d, int len)
{
	int i, j;
	bool ill = false, rawcp = false;
	W->kind = 2;
	W->n = 0;
	for (i = 0; i < len; i++) {
		for (j = 0; j < tk[d[i]].n; j++) W->by[W->n++] = tk[d[i]].b[j];
		ill |= tk[d[i]].ill;
		rawcp |= tk[d[i]].raw;
	}
	if (rawcp) ;
	else if (prop == P_C08) c08_bytes();
	else if (prop == P_C09) c09();
	else if (prop == P_C16) c16(true);
	else c10_bytes();
	if (prop == P_C09 || ill || stopped()) return;
	for (i = 0; i < len; i++) W->cp[i] = tk[d[i]].cp;
	if (prop == P_C16) { W->n = (size_t)len; c16(false); return; }
	if (prop == P_C08) c08_cps((size_t)len);
	else c10_cps((size_t)len);
}

static void
tokens_job(unsigned long job)
{
	int d[16] = { 0 }, i, fixed = s_len < 2 ? s_len : 2;
	unsigned long v = job;
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)ntk); v /= (unsigned)ntk; }
	for (;;) {
		visit_tokens(d, s_len);
		for (i = s_len - 1; i >= fixed; i--) {
			if (++d[i] < ntk) break;
			d[i] = 0;
		}
		if (i < fixed || stopped()) break;
	}
}
static void
strings(int len)
{
	s_len = len;
	run_jobs(tokens_job, len == 0 ? 1 : len == 1 ? (unsigned long)ntk : (unsigned long)(ntk * ntk));
}

/* raw bytes */
static uint8_t rb[256];
static int nrb;
static void
raw_job(unsigned long job)
{
	int d[16] = { 0 }, i, fixed = s_len < 2 ? s_len : 2;
	unsigned long v = job;
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)nrb); v /= (unsigned)nrb; }
	for (;;) {
		bool nul = false;
		W->kind = 2;
		W->n = (size_t)s_len;
		for (i = 0; i < s_len; i++) { W->by[i] = rb[d[i]]; nul |= W->by[i] == 0; }
		if (prop == P_C08) c08_bytes();
		else if (prop == P_C09) c09();
		else if (prop == P_C16) c16(true);
		else if (!nul) c10_bytes();
		for (i = s_len - 1; i >= fixed; i--) {
			if (++d[i] < nrb) break;
			d[i] = 0;
		}
		if (i < fixed || stopped()) break;
	}
}
static void
raw(int len)
{
	s_len = len;
	run_jobs(raw_job, len == 0 ? 1 : len == 1 ? (unsigned long)nrb : (unsigned long)(nrb * nrb));
}

/* every code point next to every token */
static void
cps_job(unsigned long job)
{
	uint64_t c;
	int a, b;
	size_t k;
	for (c = (uint64_t)job << 8; c < (uint64_t)(job + 1) << 8 && !stopped(); c++) {
		if ((c >= 0xD800 && c < 0xE000) || (prop == P_C10 && c == 0)) continue;
		for (a = -1; a < ntk; a++)
			for (b = -1; b < ntk; b++) {
				W->kind = 2;
				W->n = 0;
				if (a >= 0) for (k = 0; k < (size_t)tk[a].n; k++) W->by[W->n++] = tk[a].b[k];
				W->n += ref_encode((cp_t)c, W->by + W->n);
				if (b >= 0) for (k = 0; k < (size_t)tk[b].n; k++) W->by[W->n++] = tk[b].b[k];
				if (prop == P_C08) c08_bytes();
				else if (prop == P_C09) c09();
				else if (prop == P_C16) c16(true);
				else c10_bytes();
				if (stopped()) return;
				if (prop == P_C09 || (a >= 0 && tk[a].ill) || (b >= 0 && tk[b].ill)) continue;
				k = 0;
				if (a >= 0) W->cp[k++] = tk[a].cp;
				W->cp[k++] = (cp_t)c;
				if (b >= 0) W->cp[k++] = tk[b].cp;
				if (prop == P_C16) { W->n = k; c16(false); }
				else if (prop == P_C08) c08_cps(k);
				else c10_cps(k);
				if (stopped()) return;
			}
	}
}

/* ---- a text given as code points, in both forms */
static void
visit_text(size_t n)
{
	size_t i;
	static cp_t *keep;
	W->kind = 2;
	for (W->n = 0, i = 0; i < n; i++) W->n += ref_encode(W->cp[i], W->by + W->n);
	if (prop == P_C08) c08_bytes();
	else if (prop == P_C09) c09();
	else if (prop == P_C16) c16(true);
	else c10_bytes();
	if (prop == P_C09 || stopped()) return;
	W->kind = 1;
	W->n = n;
	if (prop == P_C16) c16(false);
	else if (prop == P_C08) c08_cps(n);
	else c10_cps(n);

}
/* all triples of ASCII characters */
static void
ascii_job(unsigned long job)
{
	cp_t a = (cp_t)job & 127, b, c;
	const cp_t lo = prop == P_C10;
	if (a < lo) return;
	for (b = lo; b < 128; b++)
		for (c = (cp_t)(job >> 7) * 32; c < (cp_t)(job >> 7) * 32 + 32; c++) {
			if (c < lo) continue;
			if (small && (c & 7) != (b & 7)) continue;
			W->cp[0] = a; W->cp[1] = b; W->cp[2] = c;
			visit_text(3);
			if (stopped()) return;
		}
}
/* long stretches of the same characters (1 to 4 bytes) in front of what ends them */
static const size_t rk[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
	47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
static const char *const rtok[] = { "a", "A", " ", "1", ".", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80" };
static const char *const stok[] = { "", "b", "B", " ", "2", ".", "'", "\n", "\r", "-", "\x7F", "\x80", "\xBF", "\xC3", "\xC3\x9F", "\xCC\x80", "\xCE\xA3", "\xE2\x80\xA9", "\xE2\x82", "\xEF\xAC\x81",
	"\xED\xA0\x80", "\xF0\x9F\x98", "\xF0\x9F\x87\xA6", "\xF4\x90\x80\x80", "\xFF", "\x01", "(", "\xC5\x89" };
static void
stretch_job(unsigned long job)
{
	const char *r = rtok[job % REF_LEN(rtok)];
	size_t k = rk[job / REF_LEN(rtok)], lr = strlen(r), y, z, x, i, base;
	static const char *const xtok[] = { "", "B", "\xCE\xA3", "\xC3" };
	if (!g_thorough && prop == P_C08 && k > 260) return;
	if ((r[0] == '.' || r[0] == '1') && k > (g_thorough || prop == P_C09 ? 5000 : 300)) return; /* quadratic: each looks for what follows the run */
	for (x = 0; x < (k > 300 ? 1 : REF_LEN(xtok)); x++)
		for (y = 0; y < REF_LEN(stok); y++)
			for (z = 0; z < (y == 0 ? 1 : REF_LEN(stok)); z++) {
				if (!g_thorough && k > 100 && z != 0 && z != 1 && z != 3) continue;
				if (!g_thorough && k > 40 && prop != P_C09 && x && z > 3) continue;
				if (!g_thorough && k > 60000 && ((y + z) % 4 || (prop != P_C09 && job % REF_LEN(rtok) > 1))) continue;
				if (!g_thorough && prop == P_C08 && k > 40 && (x || z > 3)) continue;
				if (!g_thorough && prop == P_C10 && ((k > 20 && (x || z > 3)) || (k > 1000 && (z || y % 2)) || (k > 60000 && (y % 8 || job % REF_LEN(rtok) % 5)))) continue;
				if (!g_thorough && prop == P_C16 && k > 1000 && z) continue;
				if (small && (k > 100 || (y + z) % 5)) continue;
				W->kind = 2;
				W->n = 0;
#define PUT(s) do { size_t l_ = strlen(s); memcpy(W->by + W->n, (s), l_); W->n += l_; } while (0)
				PUT(xtok[x]);
				base = W->n;
				for (i = 0; i < k; i++) memcpy(W->by + base + i * lr, r, lr);
				W->n = base + k * lr;
				PUT(stok[y]);
				PUT(stok[z]);
				if (prop == P_C16 && W->n * 12 + 4096 > MMSIZE) continue;
				if (prop == P_C08) c08_bytes();
				else if (prop == P_C09) { c09(); if (k <= 40 ? x == 0 || z < 3 : z < 2 && x == 0) c09_aligned(k <= 40 ? 8 : k < 300 ? 4 : 2); }
				else if (prop == P_C16) c16(true);
				else c10_bytes();
				if (stopped()) return;
				if (prop == P_C09) continue;
				{ /* the code points as the model reads them */
					size_t n = model_decode(W->by, W->n);
					memcpy(W->cp, cps, n * sizeof(cp_t));
					W->kind = 1;
					W->n = n;
					if (prop == P_C16) { if (n * 12 + 4096 < MMSIZE) c16(false); }
					else if (prop == P_C08) c08_cps(n);
					else c10_cps(n);
				}
				if (stopped()) return;
			}
}

/* ---- lengths that do not fit smaller integers; a hard end makes what follows irrelevant */
static const uint64_t hugelen[] = { UINT64_C(1) << 16, UINT64_C(1) << 31, UINT64_C(1) << 32, UINT64_C(5) << 32, UINT64_C(1) << 48, UINT64_C(1) << 63, (UINT64_C(1) << 63) + (UINT64_C(1) << 32) };
static void
huge_job(unsigned long job)
{
	/* two tokens, one of which may be NUL, and a paragraph end */
	size_t a = job % REF_LEN(stok), b, i, n, nc, want, r, l1_, l2_;
	int k, f;
	static uint8_t *by;
	static cp_t *cp;
	if (!by) { by = malloc(1 << 18); cp = malloc(1 << 20); memset(by, 'a', 1 << 18); for (i = 0; i < 1 << 18; i++) cp[i] = 'a'; }
	for (b = 0; b < REF_LEN(stok) + 1; b++) {
		static const char *const lead[] = { "x", "X", "5", "\xCE\xB1", "\xD7\x90" };
		const uint8_t *s = by;
		size_t v;
		for (v = 0; v < REF_LEN(lead); v++) {
		W->kind = 2;
		W->n = 0;
		PUT(lead[v]);
		if (b == REF_LEN(stok)) W->by[W->n++] = 0; else PUT(stok[b]);
		PUT(stok[a]);
		if (b == REF_LEN(stok)) PUT("\xCC\x80");
		PUT("\n");
		n = W->n;
		PUT("aaaa");
		memcpy(by, W->by, W->n);
		nc = model_decode(W->by, W->n);
		memcpy(cp, cps, nc * sizeof(cp_t));
		W->states++;
		for (k = 0; k < SEG_NUM; k++) {
			if (!(fns & (1u << k))) continue;
			want = seg_fn[k](cp, nc);
			for (i = 0; i < REF_LEN(hugelen) + 1; i++)
				for (f = -2; f < 3; f++) {
					size_t len = i < REF_LEN(hugelen) ? hugelen[i] + (size_t)f : SIZE_MAX - 3 + (size_t)f;
					r = seg_fn[k](cp, len);
					if (r != want) { fail("huge", "next_%s_break returned %zu with length %zu, %zu with length %zu", seg_names[k], r, len, want, nc); return; }
					r = seg_fn8[k]((const char *)s, len);
					W->trans += 2;
					if (r != offs[want]) { fail("huge8", "next_%s_break_utf8 returned %zu with length %zu, next_%s_break %zu, i.e. %zu bytes", seg_names[k], r, len, seg_names[k], want, offs[want]); return; }
				}
		}
		if (!(fns & F_CASE)) continue;
		for (k = 0; k < CASE_NUM; k++) {
			static const cp_t change[3] = { 'A', 0xDF, 'Q' };
			/* the test stops at the first character the conversion changes */
			bool want_b, got_b;
			size_t m = nc, m8;
			for (i = 0; i + 4 < nc; i++) ocp[i] = cps[i];
			m = nc - 4;
			ocp[m++] = 'a'; ocp[m++] = change[k]; /* "aQ": Q changes in title case */
			ocp[m++] = '\n';
			memcpy(cp, ocp, m * sizeof(cp_t));
			for (m8 = offs[nc - 4], i = nc - 4; i < m; i++) m8 += ref_encode(ocp[i], by + m8);
			want_b = is[k](cp, m, &l1_);
			if (want_b || l1_ == m) continue;
			for (i = 0; i < REF_LEN(hugelen) + 1; i++)
				for (f = -1; f < 2; f++) {
					size_t len = i < REF_LEN(hugelen) ? hugelen[i] + (size_t)f : SIZE_MAX - 3 + (size_t)f;
					if (len < 1u << 17) continue; /* the rest of the buffer is text, too, but not that long */
					got_b = is[k](cp, len, &l2_);
					if (got_b != want_b || l1_ != l2_) { fail("huge-is", "is_%s gives %d/%zu with length %zu, %d/%zu with length %zu", case_names[k], got_b, l2_, len, want_b, l1_, m); return; }
					is8[k]((const char *)by, m8, &r);
					got_b = is8[k]((const char *)by, len, &l2_);
					W->trans += 3;
					if (got_b || r != l2_) { fail("huge-is8", "is_%s_utf8 gives %d/%zu with length %zu, 0/%zu with length %zu", case_names[k], got_b, l2_, len, r, m8); return; }
				}
		}
		if (fns & F_BIDI) {
			enum grapheme_bidirectional_direction d1 = 9, d2 = 9;
			memcpy(cp, cps, nc * sizeof(cp_t));
			want = grapheme_bidirectional_preprocess_paragraph(cp, nc, 0, ocp, nc, &d1);
			grapheme_bidirectional_get_line_embedding_levels(ocp, want, (int8_t *)o8, want);
			for (i = 0; i < REF_LEN(hugelen) + 1; i++)
				for (f = -2; f < 3; f++) {
					size_t len = i < REF_LEN(hugelen) ? hugelen[i] + (size_t)f : SIZE_MAX - 3 + (size_t)f;
					r = grapheme_bidirectional_preprocess_paragraph(cp, len, 0, ocp2, nc, &d2);
					if (r != want || d1 != d2) { fail("huge-bidi", "preprocess_paragraph gives %zu/%d with length %zu, %zu/%d with length %zu", r, (int)d2, len, want, (int)d1, nc); return; }
					grapheme_bidirectional_get_line_embedding_levels(ocp2, want, (int8_t *)e8, want);
					W->trans += 2;
					if (memcmp(o8, e8, want)) { fail("huge-bidi-levels", "preprocess_paragraph gives other levels with length %zu than with length %zu", len, nc); return; }
				}
		}
		}
	}
	W->traces++;
}

static void
oor_job(unsigned long job)
{
	size_t i;
	for (i = job * 256; i < noor && i < (job + 1) * 256 && !stopped(); i++) {
		static const cp_t nb[] = { 0, 'a', ' ', 0x5D0, '1', '.', 0x300 };
		size_t a, b, n;
		if (prop == P_C16) {
			W->cp[0] = oor[i]; W->n = 1; c16(false);
			W->cp[0] = 'a'; W->cp[1] = oor[i]; W->cp[2] = 'b'; W->n = 3; c16(false);
			W->cp[0] = oor[i]; W->cp[1] = oor[i]; W->n = 2; c16(false);
			continue;
		}
		for (a = 0; a < REF_LEN(nb); a++)
			for (b = 0; b < REF_LEN(nb) && !stopped(); b++) {
				n = 0;
				if (nb[a]) W->cp[n++] = nb[a];
				W->cp[n++] = oor[i];
				if (nb[b]) W->cp[n++] = nb[b];
				if (prop == P_C08) c08_cps(n); else c10_cps(n);
			}
	}
}

/* pumped: x r^k y z */
static const size_t ks[] = { 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096 };
static int pump_nk;
static void
pump_job(unsigned long job)
{
	int r = (int)(job % (unsigned)ntk), k = (int)(job / (unsigned)ntk), x, y, z, n;
	static int d[5000];
	for (x = -1; x < ntk; x++)
		for (y = -1; y < ntk; y++)
			for (z = -1; z < (ks[k] > 20 || y < 0 ? 0 : ntk); z++) {
				size_t i;
				n = 0;
				if (x >= 0) d[n++] = x;
				for (i = 0; i < ks[k]; i++) d[n++] = r;
				if (y >= 0) d[n++] = y;
				if (z >= 0) d[n++] = z;
				if (prop == P_C08 && n > 300) { /* the cut check is quadratic, but small enough */ }
				visit_tokens(d, n);
				if (stopped()) return;
			}
}
static void
pump(int nk)
{
	pump_nk = nk;
	run_jobs(pump_job, (unsigned long)(ntk * nk));
}

static void
set_what(const char *s) { int i; for (i = 0; i < MAXWORKERS; i++) snprintf(S->w[i].what, sizeof(S->w[i].what), "%s", s); }

int
main(int argc, char **argv)
{
	int i, k, T;
	static const char *const fam[] = { "grapheme_next_character_break", "grapheme_next_word_break", "grapheme_next_sentence_break", "grapheme_next_line_break" };
	init(argc, argv);
	seg_init();
	eq_init();
	brk_full = calloc(ARENA, 1);
	brk_cut = calloc(ARENA, 1);
	T = g_thorough;
	prop = !strcmp(g_prop, "C08") ? P_C08 : !strcmp(g_prop, "C09") ? P_C09 : !strcmp(g_prop, "C10") ? P_C10 : P_C16;
	small = !strcmp(g_prop, "C16small") && !T;

	/* per segmentation function: its own classes in short and long encodings, ill-formed and truncated sequences */
	for (k = 0; k < SEG_NUM; k++) {
		fns = 1u << k;
		set_what(fam[k]);
		ntk = 0;
		tk_classes(seg_table[k], seg_nclass[k], true);
		if (prop != P_C10) tk_cp(0); else tk_cp(1);
		tk_ills(true);
		tk_raws();
		for (i = 0; i <= (small ? 2 : 3); i++) strings(i);
		note("%s: all strings over %d tokens (every class in short and long encodings, %sill-formed and truncated sequences%s) up to length %d", fam[k], ntk, prop != P_C10 ? "NUL, " : "", prop == P_C08 || prop == P_C10 ? ", a surrogate, values beyond Unicode" : "", small ? 2 : 3);
		ntk = 0;
		tk_classes(seg_table[k], seg_nclass[k], false);
		tk_ills(false);
		if (prop == P_C08) tk_raw(0x110000);
		i = k == SEG_LINE ? 4 : 4 + (T && k != SEG_WORD ? 1 : 0);
		if (prop == P_C10 && !T) i = k == SEG_LINE ? 3 : 4;
		if (small) i = 3;
		strings(i);
		note("%s: all strings over %d tokens of length %d", fam[k], ntk, i);
		pump(T ? (int)REF_LEN(ks) - 4 : small ? 3 : prop == P_C10 ? 5 : 6);
	}
	if (prop != P_C08) {
		fns = F_CASE;
		set_what("grapheme_{to,is}_{lower,upper,title}case");
		ntk = 0;
		tk_case();
		if (prop != P_C10) tk_cp(0); else tk_cp(1);
		tk_ills(true);
		tk_raws();
		for (i = 0; i <= (small ? 2 : 3); i++) strings(i);
		note("case functions: all strings over %d tokens (one code point per case class and shape of the mappings, NUL, ill-formed, truncated) up to length %d", ntk, small ? 2 : 3);
		ntk = 0;
		tk_cp('a'); tk_cp('B'); tk_cp(' '); tk_cp('\''); tk_cp(0x3A3); tk_cp(0xDF); tk_cp(0x1C5); tk_cp(0x300); tk_cp('.');
		tk_ills(false);
		k = T || prop == P_C09 ? 6 : small ? 4 : 5;
		for (i = 3; i <= k; i++) strings(i);
		note("case functions: all strings over %d tokens up to length %d", ntk, k);
		pump(T ? (int)REF_LEN(ks) : small ? 6 : 12);
	}
	if (prop == P_C10) {
		fns = F_BIDI;
		set_what("grapheme_bidirectional_preprocess_paragraph");
		ntk = 0;
		tk_classes(T_BC, BC_NUM, false);
		tk_cp(1); tk_cp('('); tk_cp(')');
		tk_raws();
		for (i = 0; i <= 3 + T; i++) strings(i);
		note("bidirectional paragraphs: all class strings over %d classes and brackets up to length %d", ntk, 3 + T);
		pump(T ? 8 : 2);
	}
	/* all functions together */
	fns = prop == P_C08 ? F_SEG : prop == P_C09 || prop == P_C16 ? F_ALL : F_ALL | F_BIDI;
	set_what("all functions");
	{
		static const uint8_t edge[] = { 0x41, 0x7F, 0x80, 0x8F, 0x9F, 0xA0, 0xBF, 0xC1, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xF5, 0 };
		nrb = prop == P_C10 ? 15 : 16;
		memcpy(rb, edge, (size_t)nrb);
		for (i = 1; i <= 4 + T - small; i++) raw(i);
		note("every function: all byte strings up to length %d over %d boundary bytes", 4 + T - small, nrb);
		nrb = 0;
		for (i = prop == P_C10; i < 256; i++) rb[nrb++] = (uint8_t)i;
		for (i = 1; i <= 2 + T; i++) raw(i);
		note("every function: all byte strings up to length %d", 2 + T);
	}
	if (prop == P_C10 && !T) nvar = 1;
	run_jobs(ascii_job, 128 * 4);
	run_jobs(stretch_job, REF_LEN(rtok) * REF_LEN(rk));
	note("every function: all triples of ASCII characters%s; x r^k y z for %zu characters r (1 to 4 bytes), k from 1 to 40 and up to %d, %zu tokens y and z", small ? " with equal low bits of the last two" : "", REF_LEN(rtok), small ? 97 : prop == P_C08 && !T ? 257 : 65537, REF_LEN(stok));
	nvar = 4;
	if (prop == P_C09 || prop == P_C10) {
		run_jobs(huge_job, REF_LEN(stok));
		note("texts with a paragraph end (or a change of case) at the beginning, said to be about 2^16, 2^31, 2^32, 2^48, 2^63 or SIZE_MAX-3 long");
	}
	ntk = 0;
	tk_cp('a');
	tk_ill(1, 0xC3, 0, 0);
	if (T) { tk_cp(0x5D0); tk_cp('.'); }
	nvar = T ? 4 : 1;
	if (prop == P_C16 && !T) ntk = !small;
	run_jobs(cps_job, 0x1100);
	note("every function: every code point between all pairs of %d neighbours or nothing", ntk);
	if (prop != P_C09) {
		static const cp_t like[] = { 'a', 'B', 0x3A3, 0xDF, 0x300, 0x200D, 0x1F1E6, 0x1F600, 0x1100, 0x600, '.', ' ', '(' };
		oor_build(like, REF_LEN(like));
		run_jobs(oor_job, (noor + 255) / 256);
		note("every function: %zu values above U+10FFFF alone and %s", noor, prop == P_C16 ? "between letters" : "next to letters, a space, digits, a stop, a mark");
	}
	sample(prop == P_C08 ? "C3 A9 E2 82: next break 2, then 0" : prop == P_C16 ? "46 C3: every function with the two bytes, or with a NUL, in front of an inaccessible page; conversions into 0 to 5 bytes" : prop == P_C09 ? "41 CC 80 E2 28: decoded 0041 0300 FFFD 0028, character break at byte 3" : "61 62 00 CC 80: word break at 2");
	return finish(argv[3]);
}
