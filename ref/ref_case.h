/* reference case conversions: Unicode core specification, 3.13 (R1-R3) with Final_Sigma (Table 3-17) */
#ifndef REF_CASE_H
#define REF_CASE_H
#include "ref.h"

enum { CASE_LOWER, CASE_UPPER, CASE_TITLE, CASE_NUM };
static const char *const case_names[CASE_NUM] = { "lowercase", "uppercase", "titlecase" };

static inline size_t
ref_map(int m, cp_t c, cp_t *o)
{
	if (c < REF_N && ref_map_idx[m][c] >= 0) {
		const struct ref_map *e = &ref_maps[m][ref_map_idx[m][c]];
		size_t n = 0;
		while (n < 3 && e->to[n]) { o[n] = e->to[n]; n++; }
		return n;
	}
	o[0] = c;
	return 1;
}

static inline bool ref_cased(cp_t c) { int k = ref_cls(T_CS, c); return k == CS_C || k == CS_CI; }
static inline bool ref_ignorable(cp_t c) { int k = ref_cls(T_CS, c); return k == CS_I || k == CS_CI; }

/* C = t[i]: "preceded by a cased letter and then zero or more case-ignorables" */
static inline bool
ref_sigma_before(const cp_t *t, size_t i)
{
	while (i > 0) {
		i--;
		if (ref_cased(t[i])) return true;
		if (!ref_ignorable(t[i])) return false;
	}
	return false;
}
/* "followed by zero or more case-ignorables and then a cased letter", looking at t[i+1..n) */
static inline bool
ref_sigma_after(const cp_t *t, size_t i, size_t n)
{
	for (i++; i < n; i++) {
		if (ref_cased(t[i])) return true;
		if (!ref_ignorable(t[i])) return false;
	}
	return false;
}

/*
 * t[0..n) -> o; returns the length.  word_sigma: in a titlecase conversion the text behind the word
 * is not looked at for Final_Sigma (the standard leaves open whether a word is converted on its own)
 */
static size_t
ref_case(int kind, const cp_t *t, size_t n, cp_t *o, bool word_sigma, struct atoms *at, uint8_t *cls, bool *brk)
{
	size_t i, l = 0, end = n;
	bool seen = false;
	if (kind == CASE_TITLE) {
		for (i = 0; i < n; i++) cls[i] = ref_cls(T_WB, t[i]);
		ref_segment(SEG_WORD, cls, n, brk, at);
	}
	for (i = 0; i < n; i++) {
		int m = kind == CASE_UPPER ? M_UPPER : M_LOWER;
		if (kind == CASE_TITLE) {
			if (i == 0 || brk[i]) {
				seen = false;
				for (end = i + 1; end < n && !brk[end]; end++) ;
			}
			if (!seen) {
				if (ref_cased(t[i])) { seen = true; l += ref_map(M_TITLE, t[i], o + l); }
				else o[l++] = t[i];
				continue;
			}
		}
		if (m == M_LOWER && t[i] == 0x3A3) {
			bool fin = ref_sigma_before(t, i) &&
			           !ref_sigma_after(t, i, kind == CASE_TITLE && word_sigma ? end : n);
			o[l++] = fin ? 0x3C2 : 0x3C3;
			continue;
		}
		l += ref_map(m, t[i], o + l);
	}
	return l;
}
#endif
