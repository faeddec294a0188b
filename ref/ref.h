/*
 * Reference models, written from the text of the Unicode 15.0 annexes (UAX #9, #14, #29),
 * the Unicode core specification (3.13 default case algorithms, 3.9 UTF-8) and the manual
 * pages - not from the code under test.  They look at a whole text at once and evaluate the
 * rules boundary by boundary with plain backward and forward scans.
 */
#ifndef REF_H
#define REF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

struct ref_range { uint32_t lo, hi; uint8_t c; };
#include "tables.h"

#define REF_N 0x110000
typedef uint32_t cp_t;

static uint8_t *ref_cls_tab[7]; /* gcb wb sb lb bc cs asg */
enum { T_GCB, T_WB, T_SB, T_LB, T_BC, T_CS, T_ASG };
static const struct ref_map *ref_map_tab[3][0x1100];
static uint8_t *ref_has_map[3];
static int32_t *ref_map_idx[3];
enum { M_LOWER, M_UPPER, M_TITLE };
static const struct ref_map *const ref_maps[3] = { ref_lower, ref_upper, ref_title };
static const size_t ref_maps_len[3] = { sizeof(ref_lower) / sizeof(*ref_lower),
	sizeof(ref_upper) / sizeof(*ref_upper), sizeof(ref_title) / sizeof(*ref_title) };
static uint32_t *ref_mirror_tab;

#define REF_LEN(x) (sizeof(x) / sizeof(*(x)))

static void
ref_init(void)
{
	static const struct { const struct ref_range *r; size_t n; } t[7] = {
		{ gcb_ranges, REF_LEN(gcb_ranges) }, { wb_ranges, REF_LEN(wb_ranges) },
		{ sb_ranges, REF_LEN(sb_ranges) },   { lb_ranges, REF_LEN(lb_ranges) },
		{ bc_ranges, REF_LEN(bc_ranges) },   { cs_ranges, REF_LEN(cs_ranges) },
		{ asg_ranges, REF_LEN(asg_ranges) },
	};
	size_t k, i;
	uint32_t c;
	for (k = 0; k < 7; k++) {
		ref_cls_tab[k] = calloc(REF_N, 1);
		for (i = 0; i < t[k].n; i++)
			for (c = t[k].r[i].lo; c <= t[k].r[i].hi; c++)
				ref_cls_tab[k][c] = t[k].r[i].c;
	}
	for (k = 0; k < 3; k++) {
		ref_map_idx[k] = malloc(REF_N * sizeof(int32_t));
		for (i = 0; i < REF_N; i++) ref_map_idx[k][i] = -1;
		for (i = 0; i < ref_maps_len[k]; i++) ref_map_idx[k][ref_maps[k][i].cp] = (int32_t)i;
	}
	ref_mirror_tab = malloc(REF_N * sizeof(uint32_t));
	for (i = 0; i < REF_N; i++) ref_mirror_tab[i] = (uint32_t)i;
	for (i = 0; i < REF_LEN(ref_mirrors); i++) ref_mirror_tab[ref_mirrors[i].cp] = ref_mirrors[i].to;
	(void)ref_map_tab; (void)ref_has_map;
}

/* class of any 32-bit value; values beyond Unicode have no property (class 0 in every table) */
static inline uint8_t ref_cls(int t, cp_t c) { return c < REF_N ? ref_cls_tab[t][c] : 0; }

/* ------------------------------------------------------------------ UTF-8 */
/* announced number of continuation bytes, -1 if no lead byte */
static inline int
ref_utf8_need(uint8_t b)
{
	return b < 0x80 ? 0 : b < 0xC0 ? -1 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : b < 0xF8 ? 3 : -1;
}

/* returns the specified result of decoding s[0..n) */
static inline size_t
ref_decode(const uint8_t *s, size_t n, cp_t *cp)
{
	int need, got;
	cp_t v;
	*cp = 0xFFFD;
	if (n == 0) return 0;
	need = ref_utf8_need(s[0]);
	if (need < 0) return 1;
	for (got = 0; got < need && (size_t)got + 1 < n && (s[got + 1] & 0xC0) == 0x80; got++) ;
	if (got < need) {
		if ((size_t)got + 1 == n) return (size_t)need + 1;   /* cut off by the limit */
		return (size_t)got + 1;                              /* cut off by a byte */
	}
	v = need == 0 ? s[0] : need == 1 ? s[0] & 0x1F : need == 2 ? s[0] & 0x0F : s[0] & 0x07;
	for (got = 1; got <= need; got++) v = v * 64 + (s[got] & 0x3F);
	{
		static const cp_t min[4] = { 0, 0x80, 0x800, 0x10000 };
		if (v >= min[need] && v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF)) *cp = v;
	}
	return (size_t)need + 1;
}

static inline size_t
ref_encode(cp_t v, uint8_t *o)
{
	if (v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) v = 0xFFFD;
	if (v < 0x80) { o[0] = (uint8_t)v; return 1; }
	if (v < 0x800) { o[0] = (uint8_t)(0xC0 + v / 64); o[1] = (uint8_t)(0x80 + v % 64); return 2; }
	if (v < 0x10000) {
		o[0] = (uint8_t)(0xE0 + v / 4096); o[1] = (uint8_t)(0x80 + v / 64 % 64); o[2] = (uint8_t)(0x80 + v % 64);
		return 3;
	}
	o[0] = (uint8_t)(0xF0 + v / 262144); o[1] = (uint8_t)(0x80 + v / 4096 % 64);
	o[2] = (uint8_t)(0x80 + v / 64 % 64); o[3] = (uint8_t)(0x80 + v % 64);
	return 4;
}

/* ------------------------------------------------------------------ UAX #29 grapheme clusters */
static bool
ref_gcb(const uint8_t *c, size_t n, size_t i, const uint32_t *ri) /* ri: number of regional indicators right before, if known */
{
	uint8_t a = c[i - 1], b = c[i];
	size_t j, k;
	(void)n;
#define CTL(x) ((x) == G_CR || (x) == G_LF || (x) == G_Control)
	if (a == G_CR && b == G_LF) return false;                                        /* GB3 */
	if (CTL(a) || CTL(b)) return true;                                               /* GB4, GB5 */
	if (a == G_L && (b == G_L || b == G_V || b == G_LV || b == G_LVT)) return false; /* GB6 */
	if ((a == G_LV || a == G_V) && (b == G_V || b == G_T)) return false;             /* GB7 */
	if ((a == G_LVT || a == G_T) && b == G_T) return false;                          /* GB8 */
	if (b == G_Extend || b == G_ZWJ || b == G_SpacingMark) return false;             /* GB9, GB9a */
	if (a == G_Prepend) return false;                                                /* GB9b */
	if (a == G_ZWJ && b == G_ExtPict) {                                              /* GB11 */
		for (j = i - 1; j > 0 && c[j - 1] == G_Extend; j--) ;
		if (j > 0 && c[j - 1] == G_ExtPict) return false;
	}
	if (a == G_Regional_Indicator && b == G_Regional_Indicator) {                    /* GB12, GB13 */
		if (ri) k = ri[i];
		else for (k = 0, j = i; j > 0 && c[j - 1] == G_Regional_Indicator; j--) k++;
		if (k % 2 == 1) return false;
	}
	return true;                                                                     /* GB999 */
#undef CTL
}

/*
 * "Ignore" rules (WB4, SB5, LB9): texts are split into atoms, an atom being a character with the
 * ignorable characters that are attached to it.
 */
struct atoms { size_t n; uint8_t *cls; size_t *start; size_t *of; /* of[i]: atom starting at i or SIZE_MAX */
	/* what rules that look further back or ahead need to know about the atoms before and from k on */
	uint32_t *ri;  /* number of regional indicators right before */
	uint32_t *sp;  /* where the run of spaces right before begins */
	uint32_t *cl;  /* where the run of closing punctuation right before begins */
	uint32_t *nx;  /* the first at or behind k that ends the search of SB8 */
	uint32_t *rsp; /* where the run of spaces right before begins, in characters */
	uint8_t *num;  /* NU (NU|SY|IS)* ends right before */
};

static void
atoms_init(struct atoms *a, size_t max)
{
	a->cls = malloc(max + 1);
	a->start = malloc((max + 1) * sizeof(size_t));
	a->of = malloc((max + 1) * sizeof(size_t));
	a->ri = malloc((max + 1) * 4);
	a->sp = malloc((max + 1) * 4);
	a->cl = malloc((max + 1) * 4);
	a->nx = malloc((max + 1) * 4);
	a->rsp = malloc((max + 1) * 4);
	a->num = malloc(max + 1);
}

static void
atoms_build(struct atoms *a, const uint8_t *c, size_t n, bool (*ign)(uint8_t), bool (*nobase)(uint8_t))
{
	size_t i;
	a->n = 0;
	for (i = 0; i < n; i++) {
		a->of[i] = SIZE_MAX;
		if (i > 0 && ign(c[i]) && !nobase(c[i - 1])) continue; /* attached to what precedes */
		a->of[i] = a->n;
		a->cls[a->n] = c[i];
		a->start[a->n] = i;
		a->n++;
	}
}

/* ------------------------------------------------------------------ UAX #29 words */
static bool wb_ign(uint8_t x) { return x == W_Extend || x == W_Format || x == W_ZWJ; }
static bool wb_nl(uint8_t x) { return x == W_CR || x == W_LF || x == W_Newline; }

static bool
ref_wb(const uint8_t *c, size_t n, size_t i, const struct atoms *at)
{
	uint8_t a = c[i - 1], b = c[i], p1, p2, n1, n2;
	size_t k;
	(void)n;
	if (a == W_CR && b == W_LF) return false;                        /* WB3 */
	if (wb_nl(a)) return true;                                       /* WB3a */
	if (wb_nl(b)) return true;                                       /* WB3b */
	if (a == W_ZWJ && (b == W_ExtPict || b == W_ALetterExtPict)) return false; /* WB3c */
	if (a == W_WSegSpace && b == W_WSegSpace) return false;          /* WB3d */
	if (wb_ign(b)) return false;                                     /* WB4 */
	k = at->of[i];
	p1 = at->cls[k - 1];
	p2 = k >= 2 ? at->cls[k - 2] : W_NUM;
	n1 = at->cls[k];
	n2 = k + 1 < at->n ? at->cls[k + 1] : W_NUM;
#define AH(x) ((x) == W_ALetter || (x) == W_Hebrew_Letter || (x) == W_ALetterExtPict)
#define MNLQ(x) ((x) == W_MidNumLet || (x) == W_Single_Quote)
	if (AH(p1) && AH(n1)) return false;                                               /* WB5 */
	if (AH(p1) && (n1 == W_MidLetter || MNLQ(n1)) && AH(n2)) return false;            /* WB6 */
	if (AH(p2) && (p1 == W_MidLetter || MNLQ(p1)) && AH(n1)) return false;            /* WB7 */
	if (p1 == W_Hebrew_Letter && n1 == W_Single_Quote) return false;                  /* WB7a */
	if (p1 == W_Hebrew_Letter && n1 == W_Double_Quote && n2 == W_Hebrew_Letter) return false; /* WB7b */
	if (p2 == W_Hebrew_Letter && p1 == W_Double_Quote && n1 == W_Hebrew_Letter) return false; /* WB7c */
	if (p1 == W_Numeric && n1 == W_Numeric) return false;                             /* WB8 */
	if (AH(p1) && n1 == W_Numeric) return false;                                      /* WB9 */
	if (p1 == W_Numeric && AH(n1)) return false;                                      /* WB10 */
	if (p2 == W_Numeric && (p1 == W_MidNum || MNLQ(p1)) && n1 == W_Numeric) return false; /* WB11 */
	if (p1 == W_Numeric && (n1 == W_MidNum || MNLQ(n1)) && n2 == W_Numeric) return false; /* WB12 */
	if (p1 == W_Katakana && n1 == W_Katakana) return false;                           /* WB13 */
	if ((AH(p1) || p1 == W_Numeric || p1 == W_Katakana || p1 == W_ExtendNumLet) && n1 == W_ExtendNumLet)
		return false;                                                             /* WB13a */
	if (p1 == W_ExtendNumLet && (AH(n1) || n1 == W_Numeric || n1 == W_Katakana)) return false; /* WB13b */
	if (p1 == W_Regional_Indicator && n1 == W_Regional_Indicator) {                   /* WB15, WB16 */
		if (at->ri[k] % 2 == 1) return false;
	}
	return true;                                                                      /* WB999 */
#undef AH
#undef MNLQ
}

/* ------------------------------------------------------------------ UAX #29 sentences */
static bool sb_ign(uint8_t x) { return x == S_Extend || x == S_Format; }
static bool sb_sep(uint8_t x) { return x == S_Sep || x == S_CR || x == S_LF; }

static bool
ref_sb(const uint8_t *c, size_t n, size_t i, const struct atoms *at)
{
	uint8_t a = c[i - 1], b = c[i], p1, p2, n1;
	size_t k, jsp, jclose;
	bool saterm_close, saterm_close_sp;
	(void)n;
#define SAT(x) ((x) == S_STerm || (x) == S_ATerm)
	if (a == S_CR && b == S_LF) return false;           /* SB3 */
	if (sb_sep(a)) return true;                         /* SB4 */
	if (sb_ign(b)) return false;                        /* SB5 */
	k = at->of[i];
	p1 = at->cls[k - 1];
	p2 = k >= 2 ? at->cls[k - 2] : S_NUM;
	n1 = at->cls[k];
	if (p1 == S_ATerm && n1 == S_Numeric) return false; /* SB6 */
	if ((p2 == S_Upper || p2 == S_Lower) && p1 == S_ATerm && n1 == S_Upper) return false; /* SB7 */
	/* what precedes: ... SATerm Close* Sp* | */
	jsp = at->sp[k];
	jclose = at->cl[jsp];
	saterm_close_sp = jclose > 0 && SAT(at->cls[jclose - 1]);
	saterm_close = saterm_close_sp && jsp == k;
	if (saterm_close_sp && at->cls[jclose - 1] == S_ATerm)   /* SB8 */
		if (at->nx[k] < at->n && at->cls[at->nx[k]] == S_Lower) return false;
	if (saterm_close_sp && (n1 == S_SContinue || SAT(n1))) return false;             /* SB8a */
	if (saterm_close && (n1 == S_Close || n1 == S_Sp || sb_sep(n1))) return false;   /* SB9 */
	if (saterm_close_sp && (n1 == S_Sp || sb_sep(n1))) return false;                 /* SB10 */
	if (saterm_close_sp) return true;                                                /* SB11 (ParaSep: SB4) */
	return false;                                                                    /* SB998 */
#undef SAT
}

/* ------------------------------------------------------------------ UAX #14 lines, example 7 */
static bool lb_ign(uint8_t x) { return x == B_CM || x == B_ZWJ; }
static bool
lb_nobase(uint8_t x)
{
	return x == B_BK || x == B_CR || x == B_LF || x == B_NL || x == B_SP || x == B_ZW;
}

static bool
ref_lb(const uint8_t *c, size_t n, size_t i, const struct atoms *at)
{
	uint8_t a = c[i - 1], b = c[i], p, q, sp, pp;
	size_t k, j;
	(void)n;
	if (a == B_BK) return true;                                               /* LB4 */
	if (a == B_CR && b == B_LF) return false;                                 /* LB5 */
	if (a == B_CR || a == B_LF || a == B_NL) return true;
	if (b == B_BK || b == B_CR || b == B_LF || b == B_NL) return false;       /* LB6 */
	if (b == B_SP || b == B_ZW) return false;                                 /* LB7 */
	j = at->rsp[i];                                                           /* LB8 */
	if (j > 0 && c[j - 1] == B_ZW) return true;
	if (a == B_ZWJ) return false;                                             /* LB8a */
	if (at->of[i] == SIZE_MAX) return false;                                  /* LB9 */
	/* LB10: a CM or ZWJ that is not attached to anything is an AL */
#define CLS(z) (lb_ign(at->cls[z]) ? B_AL : at->cls[z] == B_IDcn ? B_IDcn : at->cls[z])
	k = at->of[i];
	p = CLS(k - 1);
	q = CLS(k);
	pp = k >= 2 ? CLS(k - 2) : B_NUM;
	j = at->sp[k];
	sp = j > 0 ? CLS(j - 1) : B_NUM; /* last class before SP* */
#define isAL(z) ((z) == B_AL || (z) == B_ALcn || (z) == B_HL)
#define isOP(z) ((z) == B_OP || (z) == B_OPwide)
#define isCP(z) ((z) == B_CP || (z) == B_CPwide)
#define isID(z) ((z) == B_ID || (z) == B_IDcn)
	if (p == B_WJ || q == B_WJ) return false;                                 /* LB11 */
	if (p == B_GL) return false;                                              /* LB12 */
	if (p != B_SP && p != B_BA && p != B_HY && q == B_GL) return false;       /* LB12a */
	if (q == B_EX) return false;                                              /* LB13, example 7 */
	if (p != B_NU && (q == B_CL || isCP(q) || q == B_IS || q == B_SY)) return false;
	if (isOP(sp)) return false;                                               /* LB14 */
	if (sp == B_QU && isOP(q)) return false;                                  /* LB15 */
	if ((sp == B_CL || isCP(sp)) && q == B_NS) return false;                  /* LB16 */
	if (sp == B_B2 && q == B_B2) return false;                                /* LB17 */
	if (p == B_SP) return true;                                               /* LB18 */
	if (p == B_QU || q == B_QU) return false;                                 /* LB19 */
	if (p == B_CB || q == B_CB) return true;                                  /* LB20 */
	if (q == B_BA || q == B_HY || q == B_NS || p == B_BB) return false;       /* LB21 */
	if (pp == B_HL && (p == B_HY || p == B_BA)) return false;                 /* LB21a */
	if (p == B_SY && q == B_HL) return false;                                 /* LB21b */
	if (q == B_IN) return false;                                              /* LB22 */
	if (isAL(p) && q == B_NU) return false;                                   /* LB23 */
	if (p == B_NU && isAL(q)) return false;
	if (p == B_PR && (isID(q) || q == B_EB || q == B_EM)) return false;       /* LB23a */
	if ((isID(p) || p == B_EB || p == B_EM) && q == B_PO) return false;
	if ((p == B_PR || p == B_PO) && isAL(q)) return false;                    /* LB24 */
	if (isAL(p) && (q == B_PR || q == B_PO)) return false;
	/* LB25, example 7 */
	if (p == B_PR || p == B_PO) {
		if (q == B_NU) return false;
		if ((isOP(q) || q == B_HY) && k + 1 < at->n && CLS(k + 1) == B_NU) return false;
	}
	if ((isOP(p) || p == B_HY) && q == B_NU) return false;
	if (p == B_NU && (q == B_NU || q == B_SY || q == B_IS)) return false;
	if (at->num[k] && (q == B_NU || q == B_SY || q == B_IS || q == B_CL || isCP(q))) return false;
	if (q == B_PO || q == B_PR) {
		if (at->num[k]) return false;
		if ((p == B_CL || isCP(p)) && at->num[k - 1]) return false;
	}
	if (p == B_JL && (q == B_JL || q == B_JV || q == B_H2 || q == B_H3)) return false; /* LB26 */
	if ((p == B_JV || p == B_H2) && (q == B_JV || q == B_JT)) return false;
	if ((p == B_JT || p == B_H3) && q == B_JT) return false;
	if ((p == B_JL || p == B_JV || p == B_JT || p == B_H2 || p == B_H3) && q == B_PO) return false; /* LB27 */
	if (p == B_PR && (q == B_JL || q == B_JV || q == B_JT || q == B_H2 || q == B_H3)) return false;
	if (isAL(p) && isAL(q)) return false;                                     /* LB28 */
	if (p == B_IS && isAL(q)) return false;                                   /* LB29 */
	if ((isAL(p) || p == B_NU) && q == B_OP) return false;                    /* LB30 */
	if (p == B_CP && (isAL(q) || q == B_NU)) return false;
	if (p == B_RI && q == B_RI) {                                             /* LB30a */
		if (at->ri[k] % 2 == 1) return false;
	}
	if (p == B_EB && q == B_EM) return false;                                 /* LB30b */
	if ((p == B_IDcn || p == B_ALcn) && q == B_EM) return false;
	return true;                                                              /* LB31 */
#undef CLS
#undef isAL
#undef isOP
#undef isCP
#undef isID
}

/* ------------------------------------------------------------------ segmentation front end */
enum { SEG_CHAR, SEG_WORD, SEG_SENT, SEG_LINE, SEG_NUM };
static const char *const seg_names[SEG_NUM] = { "character", "word", "sentence", "line" };
static const int seg_table[SEG_NUM] = { T_GCB, T_WB, T_SB, T_LB };
static const int seg_nclass[SEG_NUM] = { G_NUM, W_NUM, S_NUM, B_NUM };
static const char *
seg_class_name(int seg, int c)
{
	return seg == SEG_CHAR ? gcb_names[c] : seg == SEG_WORD ? wb_names[c] : seg == SEG_SENT ? sb_names[c] : lb_names[c];
}

static void
ref_atoms(int seg, struct atoms *at, const uint8_t *c, size_t n)
{
	size_t k;
	const uint8_t *x = at->cls;
	switch (seg) {
	case SEG_CHAR:
		at->ri[0] = 0;
		for (k = 1; k < n; k++) at->ri[k] = c[k - 1] == G_Regional_Indicator ? at->ri[k - 1] + 1 : 0;
		break;
	case SEG_WORD:
		atoms_build(at, c, n, wb_ign, wb_nl);
		at->ri[0] = 0;
		for (k = 1; k < at->n; k++) at->ri[k] = x[k - 1] == W_Regional_Indicator ? at->ri[k - 1] + 1 : 0;
		break;
	case SEG_SENT:
		atoms_build(at, c, n, sb_ign, sb_sep);
		at->sp[0] = at->cl[0] = 0;
		for (k = 1; k < at->n; k++) {
			at->sp[k] = x[k - 1] == S_Sp ? at->sp[k - 1] : (uint32_t)k;
			at->cl[k] = x[k - 1] == S_Close ? at->cl[k - 1] : (uint32_t)k;
		}
		at->nx[at->n] = (uint32_t)at->n;
		for (k = at->n; k-- > 0;)
			at->nx[k] = x[k] == S_OLetter || x[k] == S_Upper || x[k] == S_Lower || sb_sep(x[k]) || x[k] == S_STerm || x[k] == S_ATerm ? (uint32_t)k : at->nx[k + 1];
		break;
	default:
		atoms_build(at, c, n, lb_ign, lb_nobase);
		at->ri[0] = at->sp[0] = at->rsp[0] = 0;
		at->num[0] = 0;
		for (k = 1; k < at->n; k++) {
			uint8_t y = x[k - 1];
			at->ri[k] = y == B_RI ? at->ri[k - 1] + 1 : 0;
			at->sp[k] = y == B_SP ? at->sp[k - 1] : (uint32_t)k;
			at->num[k] = y == B_NU || ((y == B_SY || y == B_IS) && at->num[k - 1]);
		}
		for (k = 1; k < n; k++) at->rsp[k] = c[k - 1] == B_SP ? at->rsp[k - 1] : (uint32_t)k;
		break;
	}
}

static inline bool
ref_is_break(int seg, const uint8_t *c, size_t n, size_t i, const struct atoms *at)
{
	switch (seg) {
	case SEG_CHAR: return ref_gcb(c, n, i, at->ri);
	case SEG_WORD: return ref_wb(c, n, i, at);
	case SEG_SENT: return ref_sb(c, n, i, at);
	default: return ref_lb(c, n, i, at);
	}
}

/* brk[i] for 0<i<n */
static void
ref_segment(int seg, const uint8_t *c, size_t n, bool *brk, struct atoms *at)
{
	size_t i;
	ref_atoms(seg, at, c, n);
	for (i = 1; i < n; i++) brk[i] = ref_is_break(seg, c, n, i, at);
}
#endif
