/* C11 - C15: exhaustive exploration of case conversion and detection */
#include "common.h"
#include "../ref/ref_case.h"

typedef size_t (*to_fn)(const uint_least32_t *, size_t, uint_least32_t *, size_t);
typedef size_t (*to8_fn)(const char *, size_t, char *, size_t);
typedef bool (*is_fn)(const uint_least32_t *, size_t, size_t *);
typedef bool (*is8_fn)(const char *, size_t, size_t *);
static const to_fn to[CASE_NUM] = { grapheme_to_lowercase, grapheme_to_uppercase, grapheme_to_titlecase };
static const to8_fn to8[CASE_NUM] = { grapheme_to_lowercase_utf8, grapheme_to_uppercase_utf8, grapheme_to_titlecase_utf8 };
static const is_fn is[CASE_NUM] = { grapheme_is_lowercase, grapheme_is_uppercase, grapheme_is_titlecase };
static const is8_fn is8[CASE_NUM] = { grapheme_is_lowercase_utf8, grapheme_is_uppercase_utf8, grapheme_is_titlecase_utf8 };

enum { MODE_CONV, MODE_DETECT, MODE_BUFFER };
static int mode;
static unsigned kinds; /* bit mask of conversions explored */

#define BIG 270000
static cp_t *want, *want2, *got;
static uint8_t *in8, *out8, *want8;
static struct atoms at;
static uint8_t *cls;
static bool *wbrk;

static void
case_init(void)
{
	want = malloc(BIG * 3 * sizeof(cp_t));
	want2 = malloc(BIG * 3 * sizeof(cp_t));
	got = malloc((BIG * 3 + 16) * sizeof(cp_t));
	in8 = malloc(BIG * 4);
	out8 = malloc(BIG * 12 + 64);
	want8 = malloc(BIG * 12 + 64);
	cls = malloc(BIG);
	wbrk = malloc(BIG + 1);
	atoms_init(&at, BIG);
}

static size_t
enc_all(const cp_t *t, size_t n, uint8_t *o)
{
	size_t i, l = 0;
	for (i = 0; i < n; i++) l += ref_encode(t[i], o + l);
	return l;
}

static void
sig_of(char *sig, size_t m, const char *what, int kind, size_t n)
{
	size_t i, l = (size_t)snprintf(sig, m, "%s:%s:", what, case_names[kind]);
	for (i = 0; i < n && i < 6 && l + 20 < m; i++)
		l += (size_t)snprintf(sig + l, m - l, "%s%s", i ? "." : "", W->cp[i] == 0x3A3 ? "SIGMA" : cs_names[ref_cls(T_CS, W->cp[i])]);
}

static size_t
show(char *o, size_t m, const cp_t *t, size_t n)
{
	size_t i, l = 0;
	o[0] = 0;
	for (i = 0; i < n && l + 10 < m; i++) l += (size_t)snprintf(o + l, m - l, "%04X ", (unsigned)t[i]);
	return l;
}

static void
conv_fail(int kind, size_t n, const char *enc, size_t r, size_t wl)
{
	char sig[140], a[300], b[300];
	sig_of(sig, sizeof(sig), "convert", kind, n);
	show(a, sizeof(a), want, wl < 30 ? wl : 30);
	show(b, sizeof(b), got, r < 30 ? r : 30);
	fail(sig, "to_%s%s: expected %zu code points: %s; got return value %zu: %s", case_names[kind], enc, wl, a, r, b);
}

static bool
same(const cp_t *a, const cp_t *b, size_t n) { return memcmp(a, b, n * sizeof(cp_t)) == 0; }

static void
check_conv(size_t n)
{
	int k;
	bool valid = true;
	size_t i, n8;
	for (i = 0; i < n; i++) valid &= W->cp[i] <= 0x10FFFF && !(W->cp[i] >= 0xD800 && W->cp[i] < 0xE000);
	n8 = valid ? enc_all(W->cp, n, in8) : 0;
	for (k = 0; k < CASE_NUM; k++) {
		size_t wl, wl2, r, l8;
		if (!(kinds & (1u << k))) continue;
		wl = ref_case(k, W->cp, n, want, false, &at, cls, wbrk);
		wl2 = k == CASE_TITLE ? ref_case(k, W->cp, n, want2, true, &at, cls, wbrk) : 0;
		got[wl] = 0x5A5A5A5A;
		r = to[k](W->cp, n, (uint_least32_t *)got, wl + 8);
		W->trans++;
		if (!((r == wl && same(got, want, wl)) || (k == CASE_TITLE && r == wl2 && same(got, want2, wl2))) || got[wl] != 0) {
			conv_fail(k, n, "", r, wl);
			continue;
		}
		if (!valid) continue;
		if (!same(got, want, wl)) memcpy(want, got, wl * sizeof(cp_t)); /* the other accepted reading */
		l8 = enc_all(want, wl, want8);
		out8[l8] = 0x5A;
		r = to8[k]((const char *)in8, n8, (char *)out8, l8 + 8);
		W->trans++;
		if (r != l8 || memcmp(out8, want8, l8) || out8[l8] != 0) {
			size_t j = 0, o;
			for (o = 0; o < r && o < BIG && j < 40; j++) { size_t d = ref_decode(out8 + o, r - o, &got[j]); o += d ? d : 1; }
			conv_fail(k, n, "_utf8", j, wl);
		}
	}
}

static void
check_detect(size_t n)
{
	int k;
	size_t i, n8, off8[16] = { 0 };
	bool valid = true;
	for (i = 0; i < n; i++) valid &= W->cp[i] <= 0x10FFFF && !(W->cp[i] >= 0xD800 && W->cp[i] < 0xE000);
	n8 = valid ? enc_all(W->cp, n, in8) : 0;
	for (k = 0; k < CASE_NUM; k++) {
		size_t r, first, len = 0xDEAD;
		bool same_text, b, b2;
		if (!(kinds & (1u << k))) continue;
		r = to[k](W->cp, n, (uint_least32_t *)got, n * 3 + 8);
		for (first = 0; first < n && first < r && got[first] == W->cp[first]; first++) ;
		same_text = r == n && first == n;
		b = is[k](W->cp, n, &len);
		b2 = is[k](W->cp, n, NULL);
		W->trans += 3;
		if (b != same_text || b2 != same_text || len != (same_text ? n : first)) {
			char sig[140];
			sig_of(sig, sizeof(sig), "detect", k, n);
			fail(sig, "is_%s: conversion %s the text (first difference at %zu); got %d (without length output: %d), caselen %zu", case_names[k],
			     same_text ? "keeps" : "changes", first, b, b2, len);
			continue;
		}
		if (!valid) continue;
		for (i = 0, len = 0; i < first && i < 15; i++) { uint8_t tmp[4]; len += ref_encode(W->cp[i], tmp); }
		if (first >= 15) { uint8_t tmp[4]; for (i = 0, len = 0; i < first; i++) len += ref_encode(W->cp[i], tmp); }
		off8[0] = len;
		/* the UTF-8 conversion must agree with its own detection, too */
		r = to8[k]((const char *)in8, n8, (char *)out8, n8 * 3 + 16);
		same_text = r == n8 && memcmp(out8, in8, n8) == 0;
		len = 0xDEAD;
		b = is8[k]((const char *)in8, n8, &len);
		b2 = is8[k]((const char *)in8, n8, NULL);
		W->trans += 3;
		if (b != same_text || b2 != same_text || len != (same_text ? n8 : off8[0])) {
			char sig[140];
			sig_of(sig, sizeof(sig), "detect8", k, n);
			fail(sig, "is_%s_utf8: conversion %s the text (first difference at byte %zu); got %d (without length output: %d), caselen %zu", case_names[k],
			     same_text ? "keeps" : "changes", off8[0], b, b2, len);
		}
	}
}

static void
check_buffer(size_t n)
{
	int k;
	size_t d, i, n8, r, full, full8;
	bool valid = true;
	for (i = 0; i < n; i++) valid &= W->cp[i] <= 0x10FFFF && !(W->cp[i] >= 0xD800 && W->cp[i] < 0xE000);
	n8 = valid ? enc_all(W->cp, n, in8) : 0;
	if (n == 0)
		for (k = 0; k < CASE_NUM; k++)
			for (d = 0; d < 4; d++) {
				/* no text at all */
				uint_least32_t x[4] = { 7, 7, 7, 7 };
				char y[4] = { 7, 7, 7, 7 };
				if (to[k](NULL, 0, d == 3 ? NULL : x, d) || to8[k](NULL, 0, d == 3 ? NULL : y, d)) fail("nothing", "to_%s of nothing is not 0", case_names[k]);
				for (i = 0; i < 4; i++)
					if (x[i] != (i == 0 && d > 0 && d < 3 ? 0 : 7) || y[i] != (i == 0 && d > 0 && d < 3 ? 0 : 7)) { fail("nothing", "to_%s of nothing with room for %zu: not just a NUL", case_names[k], d); break; }
			}
	for (k = 0; k < CASE_NUM; k++) {
		char sig[140];
		if (!(kinds & (1u << k))) continue;
		full = to[k](W->cp, n, (uint_least32_t *)want, n * 3 + 8);
		if (full > n * 3) { fail("length", "to_%s returned %zu for %zu code points", case_names[k], full, n); continue; }
		W->trans++;
		for (d = 0; d <= full + 2; d++) {
			size_t m;
			for (i = 0; i < full + 8; i++) got[i] = 0x5A5A5A5A;
			r = to[k](W->cp, n, (uint_least32_t *)got + 2, d);
			W->trans++;
			if (r != full) { sig_of(sig, sizeof(sig), "length", k, n); fail(sig, "to_%s with room for %zu returned %zu, complete length is %zu", case_names[k], d, r, full); break; }
			for (i = 0; i < full + 8; i++) if ((i < 2 || i >= 2 + d) && got[i] != 0x5A5A5A5A) break;
			if (i < full + 8) { sig_of(sig, sizeof(sig), "stray", k, n); fail(sig, "to_%s with room for %zu wrote at offset %td", case_names[k], d, (ptrdiff_t)i - 2); break; }
			if (d == 0) continue;
			/* the text itself may contain NUL: compare along the complete result */
			m = d > full ? full : d - 1;
			for (i = 0; i < m && got[2 + i] == want[i]; i++) ;
			if (d > full ? i < full || got[2 + full] != 0 : got[2 + i] != 0) {
				sig_of(sig, sizeof(sig), "truncate", k, n);
				fail(sig, "to_%s with room for %zu of %zu: prefix of %zu code points, then U+%04X instead of NUL", case_names[k], d, full + 1, i, (unsigned)got[2 + i]);
				break;
			}
		}
		if (to[k](W->cp, n, NULL, 0) != full || to[k](W->cp, n, NULL, 7) != full) { sig_of(sig, sizeof(sig), "null", k, n); fail(sig, "to_%s with a NULL destination does not return %zu", case_names[k], full); }
		W->trans += 2;
		if (!valid) continue;
		full8 = to8[k]((const char *)in8, n8, (char *)want8, n8 * 9 + 64);
		if (full8 > n8 * 9) { fail("length", "to_%s_utf8 returned %zu for %zu bytes", case_names[k], full8, n8); continue; }
		W->trans++;
		for (d = 0; d <= full8 + 2; d++) {
			size_t m;
			memset(out8, 0x5A, full8 + 16);
			r = to8[k]((const char *)in8, n8, (char *)out8 + 2, d);
			W->trans++;
			if (r != full8) { sig_of(sig, sizeof(sig), "length8", k, n); fail(sig, "to_%s_utf8 with room for %zu returned %zu, complete length is %zu", case_names[k], d, r, full8); break; }
			for (i = 0; i < full8 + 16; i++) if ((i < 2 || i >= 2 + d) && out8[i] != 0x5A) break;
			if (i < full8 + 16) { sig_of(sig, sizeof(sig), "stray8", k, n); fail(sig, "to_%s_utf8 with room for %zu wrote at offset %td", case_names[k], d, (ptrdiff_t)i - 2); break; }
			if (d == 0) continue;
			m = d > full8 ? full8 : d - 1;
			for (i = 0; i < m && out8[2 + i] == want8[i]; i++) ;
			if (d > full8 ? i < full8 || out8[2 + full8] != 0 : out8[2 + i] != 0) {
				sig_of(sig, sizeof(sig), "truncate8", k, n);
				fail(sig, "to_%s_utf8 with room for %zu of %zu: prefix of %zu bytes, then %02X instead of NUL", case_names[k], d, full8 + 1, i, out8[2 + i]);
				break;
			}
			/* whole characters only */
			if (i < full8 && (want8[i] & 0xC0) == 0x80) {
				sig_of(sig, sizeof(sig), "split8", k, n);
				fail(sig, "to_%s_utf8 with room for %zu of %zu cuts a character after %zu bytes", case_names[k], d, full8 + 1, i);
				break;
			}
		}
		if (to8[k]((const char *)in8, n8, NULL, 0) != full8 || to8[k]((const char *)in8, n8, NULL, 7) != full8) { sig_of(sig, sizeof(sig), "null8", k, n); fail(sig, "to_%s_utf8 with a NULL destination does not return %zu", case_names[k], full8); }
		W->trans += 2;
	}
}

static void
check(size_t n)
{
	W->kind = 1;
	W->n = n;
	W->states++;
	W->traces++;
	if (mode == MODE_CONV) check_conv(n);
	else if (mode == MODE_DETECT) check_detect(n);
	else check_buffer(n);
}

/* ---- alphabets of code points */
static cp_t ab[512];
static int nab;
static void ab_add(cp_t c) { int i; for (i = 0; i < nab; i++) if (ab[i] == c) return; ab[nab++] = c; }

/* one code point for every combination of: word class (if asked), case class, shape of each of the three mappings */
static unsigned
shape(int m, cp_t c)
{
	cp_t o[3];
	size_t n = ref_map(m, c, o);
	uint8_t b[4];
	size_t l0 = ref_encode(c, b), l1 = ref_encode(o[0], b);
	return n > 1 ? (unsigned)n + 2 : o[0] == c ? 0 : l1 == l0 ? 1 : l1 > l0 ? 2 : 7;
}

static void
ab_joint(bool words, bool shapes)
{
	static uint8_t *seen;
	cp_t c;
	free(seen);
	seen = calloc(32 * 4 * 512, 1);
	for (c = 1; c < REF_N; c++) {
		unsigned s = shapes ? shape(M_LOWER, c) * 64 + shape(M_UPPER, c) * 8 + shape(M_TITLE, c)
		                    : (shape(M_LOWER, c) > 0) * 64u + (shape(M_UPPER, c) > 0) * 8u + (shape(M_TITLE, c) > 0) * 1u;
		unsigned k = ((words ? ref_cls(T_WB, c) : 0u) * 4 + ref_cls(T_CS, c)) * 512 + s;
		if (c >= 0xD800 && c < 0xE000) continue;
		if (c == 0x3A3) continue;
		if (!seen[k]) { seen[k] = 1; ab_add(c); }
	}
	ab_add(0x3A3);
}

static int s_len;
static void
strings_job(unsigned long job)
{
	int d[16] = { 0 }, i, fixed = s_len < 2 ? s_len : 2;
	unsigned long v = job;
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)nab); v /= (unsigned)nab; }
	for (;;) {
		for (i = 0; i < s_len; i++) W->cp[i] = ab[d[i]];
		check((size_t)s_len);
		for (i = s_len - 1; i >= fixed; i--) {
			if (++d[i] < nab) break;
			d[i] = 0;
		}
		if (i < fixed || stopped()) break;
	}
}
static void
strings(int len)
{
	s_len = len;
	run_jobs(strings_job, len == 0 ? 1 : len == 1 ? (unsigned long)nab : (unsigned long)(nab * nab));
}

/* ---- every code point between all pairs of neighbours from the alphabet (or nothing) */
static void
cps_job(unsigned long job)
{
	uint64_t c;
	int a, b;
	for (c = (uint64_t)job << 8; c < (uint64_t)(job + 1) << 8 && !stopped(); c++)
		for (a = -1; a < nab; a++)
			for (b = -1; b < nab; b++) {
				size_t n = 0;
				if (a >= 0) W->cp[n++] = ab[a];
				W->cp[n++] = (cp_t)c;
				if (b >= 0) W->cp[n++] = ab[b];
				check(n);
			}
}
static void
odd_job(unsigned long job)
{
	cps_job((0x110000u >> 8) + job * 7);
	cps_job((UINT32_C(1) << (job % 8 + 16)) - 1);
	cps_job(UINT32_C(1) << (job % 8 + 16));
	cps_job(0xFFFFFFu - job);
}

/* ---- pumped: x . run^k . y with sigmas around */
static const size_t ks[] = { 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
static void
pump_job(unsigned long job)
{
	int r = (int)(job % (unsigned)nab), k = (int)(job / (unsigned)nab), a, b, v;
	size_t n, i;
	if (!g_thorough && ks[k] > 5000 && r > 4) return;
	if (mode == MODE_BUFFER && ks[k] > 300) return; /* long_job */
	if (mode == MODE_DETECT && ks[k] > 300 && r > (ks[k] > 5000 ? 1 : 3) && !g_thorough) return;
	for (a = 0; a < nab; a++)
		for (b = 0; b < nab; b++)
			for (v = 0; v < 3; v++) {
				n = 0;
				if (mode == MODE_DETECT && ks[k] > 5000 && !g_thorough && (v || (a + b) % 3)) continue;
				W->cp[n++] = ab[a];
				if (v == 1) W->cp[n++] = 0x3A3;
				for (i = 0; i < ks[k]; i++) W->cp[n++] = ab[r];
				if (v != 1) W->cp[n++] = 0x3A3;
				if (v == 2) for (i = 0; i < ks[k] && n + 2 < ARENA; i++) W->cp[n++] = ab[r];
				W->cp[n++] = ab[b];
				check(n);
				if (stopped()) return;
			}
}

/* ---- neighbours of the same form: all ASCII triples, all pairs within a block that has case, stretches in front of pairs */
static void
ascii_job(unsigned long job)
{
	cp_t b, c, e;
	W->cp[0] = (cp_t)job;
	for (b = 0; b < 128; b++)
		for (c = 0; c < 128; c++) {
			if (mode == MODE_BUFFER && (c ^ job) & 0x1F) continue;
			W->cp[1] = b; W->cp[2] = c;
			check(3);
			if (stopped()) return;
			if (!g_thorough || mode != MODE_CONV) continue;
			for (e = 0; e < 128; e++) { W->cp[3] = e; check(4); }
		}
}
static void
block_job(unsigned long job)
{
	cp_t a, b, base = (cp_t)job << 8;
	bool any = false;
	if (base >= 0xD800 && base < 0xE000) return;
	for (a = base; a < base + 256; a++) any |= ref_cls(T_CS, a) != 0 || shape(M_LOWER, a) || shape(M_UPPER, a) || shape(M_TITLE, a);
	if (!any && !g_thorough) return;
	for (a = base; a < base + 256; a++)
		for (b = base; b < base + 256; b++) {
			if (mode == MODE_BUFFER && ((a ^ b) & 7) && !g_thorough) continue;
			W->cp[0] = a; W->cp[1] = b;
			check(2);
			if (stopped()) return;
		}
}
/* a character of Latin-1 in front of and behind every code point */
static void
wide_job(unsigned long job)
{
	cp_t a, b;
	for (b = (cp_t)job << 8; b < (cp_t)(job + 1) << 8; b++) {
		if (b >= 0xD800 && b < 0xE000) continue;
		if (!g_thorough && ref_cls(T_CS, b) == 0 && !shape(M_LOWER, b) && !shape(M_UPPER, b) && !shape(M_TITLE, b)) continue;
		for (a = 0; a < 256; a++) {
			W->cp[0] = a; W->cp[1] = b;
			check(2);
			W->cp[0] = b; W->cp[1] = a;
			check(2);
			if (stopped()) return;
		}
	}
}
static bool caseless(cp_t c) { return ref_cls(T_CS, c) == 0 && !shape(M_LOWER, c) && !shape(M_UPPER, c) && !shape(M_TITLE, c); }
/* a long history of many words, then every short string */
static const cp_t hist[][6] = { { '1', ' ' }, { 'a', ' ' }, { 'A', ' ' }, { 0x3A3, ' ' }, { 'a', 0x3A3, ' ' }, { 'b', '.', 'c', ' ' }, { 0xDF, '\n' }, { 0x4E00 }, { 0x10428, ',' }, { 0x390, '-' }, { '\'', 'a' }, { 0x300, ' ' } };
static const size_t hist_k[] = { 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 85, 86, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4096, 16384, 32768, 65536 };
static void
hist_job(unsigned long job)
{
	static const cp_t tail[] = { 'a', 'B', 0x3A3, ' ', '.', 0x1C4, 0xFB01, 0x300, '1', 0x130 };
	const cp_t *h = hist[job % REF_LEN(hist)];
	size_t k = hist_k[job / REF_LEN(hist)], i, j, m = 0;
	int d[4], len, lim = k > 20000 ? 1 : k > 600 ? 2 : 3;
	if (g_thorough) lim++;
	if (mode == MODE_BUFFER) { if (k > 100) return; lim = 1; }
	if (mode == MODE_DETECT && lim > 2 && !g_thorough) lim = 2;
	for (i = 0; i < k && m + 16 < ARENA; i++) for (j = 0; j < 6 && h[j]; j++) W->cp[m++] = h[j];
	for (len = 1; len <= lim; len++) {
		memset(d, 0, sizeof(d));
		for (;;) {
			for (i = 0; i < (size_t)len; i++) W->cp[m + i] = tail[d[i]];
			check(m + (size_t)len);
			if (stopped()) return;
			for (i = (size_t)len; i-- > 0;) { if (++d[i] < (int)REF_LEN(tail)) break; d[i] = 0; }
			if (i == SIZE_MAX) break;
		}
	}
}
static void
twin_job(unsigned long job)
{
	cp_t c, t[MAXTWIN];
	int i, n;
	for (c = (cp_t)job << 8; c < (cp_t)(job + 1) << 8; c++) {
		if (c >= 0xD800 && c < 0xE000) continue;
		if (caseless(c)) continue;
		n = twins(c, t);
		for (i = 0; i < n; i++) {
			if (t[i] >= 0xD800 && t[i] < 0xE000) continue;
			W->cp[0] = c; W->cp[1] = t[i]; W->cp[2] = c;
			check(3);
			W->cp[0] = 'a'; W->cp[1] = t[i]; W->cp[2] = c; W->cp[3] = 'a';
			check(4);
			W->cp[0] = c; W->cp[1] = ' '; W->cp[2] = t[i]; W->cp[3] = '.'; W->cp[4] = c;
			check(5);
			if (stopped()) return;
		}
	}
}
static void
stretch_job(unsigned long job)
{
	static const cp_t run[] = { 'a', 'A', ' ', '1', 0xE9, 0xC9, 0x4E00, 0x10428 };
	size_t k, n = job / REF_LEN(run) % 40 + 1, m;
	cp_t r = run[job % REF_LEN(run)], b, c;
	int x;
	for (x = 0; x < 2; x++)
		for (b = 0; b < 128; b++)
			for (c = 0; c < 128; c++) {
				if (mode != MODE_CONV && ((b ^ c) & (mode == MODE_BUFFER ? 63 : 15))) continue;
				m = 0;
				if (x) W->cp[m++] = 0x3A3;
				for (k = 0; k < n; k++) W->cp[m++] = r;
				W->cp[m++] = b;
				W->cp[m++] = c;
				if (n & 1) W->cp[m++] = 0x3A3;
				check(m);
				if (stopped()) return;
			}
}

/* ---- C15: results around the limits of smaller integers, and sizes that do not fit them */
static const size_t around_len[] = { 100, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 511, 512, 513, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 131072, 131073 };
static void
long_job(unsigned long job)
{
	static const cp_t fill[] = { 'a', 'B', 0xDF, 0x390, 0x130, 0xFB03, 0x2C65, 0x10428, ' ', 0x4E00 };
	cp_t f = fill[job % REF_LEN(fill)];
	size_t len = around_len[job / REF_LEN(fill)], n, i, j, full, d, r, lo;
	static size_t sz[400];
	int k, u8, t;
	if (!g_thorough && len > 70000) return;
	for (t = 0; t < (len > 60000 && !g_thorough ? 1 : 3); t++) /* what the text ends with */
		for (k = 0; k < CASE_NUM; k++)
			for (u8 = 0; u8 < 2; u8++) {
				size_t nsz = 0, n8 = 0, per;
				uint8_t b[4];
				cp_t o[3];
				per = ref_map(k == CASE_LOWER ? M_LOWER : k == CASE_UPPER ? M_UPPER : M_LOWER, f, o);
				if (u8) { for (i = 0, j = 0; i < per; i++) j += ref_encode(o[i], b); per = j; }
				/* a letter first, for titlecase; the result is len long or a little less */
				W->n = n = len / per > 0 ? len / per : 1;
				for (i = 0; i < n; i++) W->cp[i] = f;
				if (t == 1) W->cp[n - 1] = 0x390;
				if (t == 2) W->cp[n - 1] = 'A';
				W->kind = 1;
				W->states++;
				if (u8) n8 = enc_all(W->cp, n, in8);
				full = u8 ? to8[k]((const char *)in8, n8, NULL, 0) : to[k](W->cp, n, NULL, 0);
				if (full > n * (u8 ? 12 : 3)) { fail("length", "to_%s%s returned %zu for %zu characters", case_names[k], u8 ? "_utf8" : "", full, n); return; }
				r = u8 ? to8[k]((const char *)in8, n8, (char *)want8, n * 12 + 16) : to[k](W->cp, n, (uint_least32_t *)want, n * 3 + 8);
				W->trans += 2;
				if (r != full) { fail("length-long", "to_%s%s: %zu without a buffer, %zu with room for everything", case_names[k], u8 ? "_utf8" : "", full, r); return; }
				if (u8 ? want8[full] : want[full]) { fail("nul-long", "to_%s%s: no NUL behind the result of length %zu", case_names[k], u8 ? "_utf8" : "", full); return; }
				for (d = 0; d < 5; d++) sz[nsz++] = d;
				for (d = 250; d < 262; d++) sz[nsz++] = d;
				for (d = 510; d < 515; d++) sz[nsz++] = d;
				for (d = 32765; d < 32771; d++) sz[nsz++] = d;
				for (d = 65531; d < 65542; d++) sz[nsz++] = d;
				for (d = full > 6 ? full - 6 : 0; d < full + 4; d++) sz[nsz++] = d;
				for (d = 0; d < 5; d++) {
					static const uint64_t h[] = { UINT64_C(1) << 16, UINT64_C(1) << 31, UINT64_C(1) << 32, UINT64_C(3) << 32, UINT64_C(1) << 48, UINT64_C(1) << 63 };
					for (i = 0; i < REF_LEN(h); i++) { sz[nsz++] = h[i] + d; sz[nsz++] = h[i] - 1 - d; }
					sz[nsz++] = SIZE_MAX - d;
				}
				for (j = 0; j < nsz; j++) {
					size_t cap = (d = sz[j]) > full + 1 ? full + 1 : d, m;
					if (len > 600 && d < 32000 && d > 262) continue;
					lo = 4;
					/* canaries in front of and behind what may be written */
					if (u8) {
						memset(out8, 0x5A, cap + 2 * lo);
						if (cap < d) cap += lo; /* nothing at all is said about it */
						r = to8[k]((const char *)in8, n8, (char *)out8 + lo, d);
						W->trans++;
						m = d > full ? full : d > 0 ? d - 1 : 0;
						for (i = 0; i < m && out8[lo + i] == want8[i]; i++) ;
						if (r != full) { fail("length8", "to_%s_utf8 with room for %zu returned %zu, complete length is %zu", case_names[k], d, r, full); return; }
						if (d > full ? i < full || out8[lo + full] : d > 0 && (out8[lo + i] || m - i > 3 || (want8[i] & 0xC0) == 0x80)) {
							fail("truncate8", "to_%s_utf8 with room for %zu of %zu: %zu good bytes, then %02X", case_names[k], d, full + 1, i, out8[lo + i]); return; }
						for (i = 0; i < lo; i++) if (out8[i] != 0x5A || (d <= full + 1 && out8[lo + d + i] != 0x5A)) { fail("stray8", "to_%s_utf8 with room for %zu wrote outside", case_names[k], d); return; }
					} else {
						for (i = 0; i < lo; i++) got[i] = got[lo + cap + i] = 0x5A5A5A5A;
						r = to[k](W->cp, n, (uint_least32_t *)got + lo, d);
						W->trans++;
						m = d > full ? full : d > 0 ? d - 1 : 0;
						if (r != full) { fail("length", "to_%s with room for %zu returned %zu, complete length is %zu", case_names[k], d, r, full); return; }
						if (!same(got + lo, want, m) || (d > 0 && got[lo + m])) { fail("truncate", "to_%s with room for %zu of %zu: not the first %zu characters and NUL", case_names[k], d, full + 1, m); return; }
						for (i = 0; i < lo; i++) if (got[i] != 0x5A5A5A5A || (d <= full + 1 && got[lo + d + i] != 0x5A5A5A5A)) { fail("stray", "to_%s with room for %zu wrote outside", case_names[k], d); return; }
					}
				}
				W->traces++;
				if (stopped()) return;
			}
}

/* ---- C26 */
static void
around(cp_t c)
{
	int a, b;
	for (a = -1; a < nab; a++)
		for (b = -1; b < nab; b++) {
			size_t n = 0;
			if (a >= 0) W->cp[n++] = ab[a];
			W->cp[n++] = c;
			if (b >= 0) W->cp[n++] = ab[b];
			check(n);
			if (b >= 0) { W->cp[n++] = c; check(n); }
		}
}
static void oor_job(unsigned long job) { size_t k; for (k = job * 16; k < job * 16 + 16 && k < noor && !stopped(); k++) around(oor[k]); }
static void
unassigned_job(unsigned long job)
{
	cp_t c;
	for (c = (cp_t)job << 8; c < (cp_t)(job + 1) << 8 && !stopped(); c++)
		if (c >= 0x110000 || ref_cls(T_ASG, c) == ASG_U) around(c);
}

static void
set_what(const char *s) { int i; for (i = 0; i < MAXWORKERS; i++) snprintf(S->w[i].what, sizeof(S->w[i].what), "%s", s); }

static void
neighbours(void)
{
	run_jobs(ascii_job, 128);
	run_jobs(stretch_job, 8 * 40);
	run_jobs(block_job, 0x1100);
	if (mode == MODE_CONV) run_jobs(wide_job, 0x1100);
	run_jobs(twin_job, 0x1100);
	run_jobs(hist_job, REF_LEN(hist) * REF_LEN(hist_k));
	note("1 to 65536 repetitions of 12 short words in front of all strings over 10 characters up to length %d (shorter behind long histories)", mode == MODE_BUFFER ? 1 : (mode == MODE_CONV ? 3 : 2) + (g_thorough && mode == MODE_CONV));
	note("ASCII triples%s, stretches of 1 to 40 of 8 characters in front of pairs of ASCII characters, pairs of code points of one block of 256%s, every character that has case with those that share its low 8, 12 or 16 bits or differ in one bit", mode == MODE_BUFFER ? " (a part)" : g_thorough && mode == MODE_CONV ? " and quadruples" : "",
	     mode == MODE_CONV ? g_thorough ? ", Latin-1 with any" : ", Latin-1 with any that has case" : "");
}

int
main(int argc, char **argv)
{
	int i, T;
	init(argc, argv);
	case_init();
	T = g_thorough;
	if (!strcmp(g_prop, "C26")) {
		int m;
		kinds = 7;
		set_what("grapheme_{to,is}_{lower,upper,title}case[_utf8]");
		ab_joint(false, true);
		oor_build(ab, (size_t)nab);
		nab = 0;
		ab_add('a'); ab_add('B'); ab_add(' '); ab_add('\''); ab_add(0x3A3); ab_add(0xDF);
		for (m = MODE_CONV; m <= MODE_DETECT; m++) {
			mode = m;
			run_jobs(oor_job, (noor + 15) / 16);
		}
		nab = 0;
		ab_add('a'); ab_add(0x3A3);
		for (m = MODE_CONV; m <= MODE_DETECT; m++) {
			mode = m;
			run_jobs(unassigned_job, T ? 0x2000 : 0x1200);
		}
		note("case functions: %zu values beyond Unicode between all pairs of 6 neighbours; every unassigned code point and 110000..%s between letters and sigmas", noor, T ? "1FFFFF" : "11FFFF");
		sample("to_lowercase: 0041 110041 03A3 -> 0061 110041 03C3");
		return finish(argv[3]);
	}
	if (!strcmp(g_prop, "C11")) {
		mode = MODE_CONV; kinds = 3;
		set_what("grapheme_to_lowercase[_utf8], grapheme_to_uppercase[_utf8]");
		/* every code point in the neighbourhood of one of each kind */
		ab_joint(false, true);
		note("alphabet: %d code points, one per combination of case class and shape of the three mappings", nab);
		for (i = 0; i <= (T ? 6 : 5); i++) strings(i);
		note("all strings over the alphabet up to length %d", T ? 6 : 5);
		nab = 0;
		ab_add('a'); ab_add('B'); ab_add(' '); ab_add(0xDF); ab_add(0x3A3); ab_add('\''); ab_add(0x130);
		run_jobs(cps_job, 0x1100);
		run_jobs(odd_job, 64);
		note("every code point and out-of-range values between all pairs of %d neighbours", nab);
		for (i = 4; i <= (T ? 8 : 7); i++) strings(i);
		note("all strings over these 7 up to length %d", T ? 8 : 7);
		run_jobs(pump_job, (unsigned long)nab * REF_LEN(ks));
		note("pumped: x S run^k y, x run^k S y, x run^k S run^k y over these 7 with k up to 65537");
		neighbours();
		sample("U+0130 in 'a' _ U+03A3 -> 0061 0069 0307 03C2; U+FB03 -> 0046 0046 0049");
	} else if (!strcmp(g_prop, "C12")) {
		mode = MODE_CONV; kinds = 1u << CASE_LOWER;
		set_what("grapheme_to_lowercase[_utf8]");
		ab_add(0x3A3); ab_add('a'); ab_add('.'); ab_add(0x2B0); ab_add(' ');
		for (i = 1; i <= (T ? 11 : 10); i++) strings(i);
		note("all strings over sigma, cased, case-ignorable, both, neither up to length %d", T ? 11 : 10);
		run_jobs(pump_job, (unsigned long)nab * REF_LEN(ks));
		note("pumped: x S run^k y, x run^k S y, x run^k S run^k y with k up to 65537");
		ab_add(0x3C3); ab_add('B'); ab_add(0x345); ab_add(0xAD); ab_add(0x10400); ab_add('1'); ab_add(0x110000); ab_add(0xDF); ab_add(0x1C5);
		for (i = 1; i <= (T ? 7 : 6); i++) strings(i);
		note("all strings over %d characters of the same kinds up to length %d", nab, T ? 7 : 6);
		nab = 0;
		/* every code point next to a sigma: what precedes, what follows, what is in between */
		ab_add(0x3A3); ab_add('a'); ab_add(' ');
		run_jobs(cps_job, 0x1100);
		run_jobs(odd_job, 64);
		note("every code point before, behind and between sigmas and cased letters");
		neighbours();
		sample("0041 002E 0042 03A3 -> 0061 002E 0062 03C2; 0041 03A3 002E 0020 -> 0061 03C2 002E 0020");
	} else if (!strcmp(g_prop, "C13")) {
		mode = MODE_CONV; kinds = 1u << CASE_TITLE;
		set_what("grapheme_to_titlecase[_utf8]");
		ab_joint(true, false);
		note("alphabet: %d code points, one per combination of word class, case class and changed mappings", nab);
		for (i = 0; i <= (T ? 5 : 4); i++) strings(i);
		note("all strings over the alphabet up to length %d", T ? 5 : 4);
		nab = 0;
		ab_add('a'); ab_add('B'); ab_add(' '); ab_add('\''); ab_add('1'); ab_add(0x3A3); ab_add(0x1C4); ab_add(0x300); ab_add('.'); ab_add(0xFB01);
		for (i = 4; i <= (T ? 8 : 7); i++) strings(i);
		note("all strings over 10 characters (letters, digraph, ligature, sigma, quote, digit, space, mark) up to length %d", T ? 8 : 7);
		nab = 0;
		ab_add('a'); ab_add('B'); ab_add(' '); ab_add('\''); ab_add(0x3A3);
		run_jobs(cps_job, 0x1100);
		run_jobs(odd_job, 64);
		note("every code point and out-of-range values between all pairs of neighbours");
		run_jobs(pump_job, (unsigned long)nab * REF_LEN(ks));
		note("pumped words, up to 65537 characters");
		neighbours();
		sample("'ab 1c'D -> 'Ab 1C'd; U+01C4 U+03A3 -> U+01C5 U+03C2");
	} else if (!strcmp(g_prop, "C14")) {
		mode = MODE_DETECT; kinds = 7;
		set_what("grapheme_is_{lower,upper,title}case[_utf8]");
		ab_joint(true, false);
		note("alphabet: %d code points, one per combination of word class, case class and changed mappings", nab);
		for (i = 0; i <= (T ? 5 : 4); i++) strings(i);
		note("all strings over the alphabet up to length %d", T ? 5 : 4);
		nab = 0;
		ab_add('a'); ab_add('B'); ab_add(' '); ab_add('\''); ab_add(0x3A3); ab_add(0x3C2); ab_add(0x1C5); ab_add(0x300); ab_add(0xDF); ab_add('S');
		for (i = 4; i <= (T ? 7 : 6); i++) strings(i);
		note("all strings over 10 characters up to length %d", T ? 7 : 6);
		nab = 0;
		ab_add('a'); ab_add('B'); ab_add(' '); ab_add(0x1C5);
		run_jobs(cps_job, 0x1100);
		run_jobs(odd_job, 64);
		note("every code point and out-of-range values between all pairs of neighbours");
		run_jobs(pump_job, (unsigned long)nab * REF_LEN(ks));
		note("pumped texts of up to 65537 and more characters");
		neighbours();
		sample("'a' U+01C5: titlecase test false, length 0; 'Ab cd' -> false, length 3");
	} else {
		mode = MODE_BUFFER; kinds = 7;
		set_what("grapheme_to_{lower,upper,title}case[_utf8]");
		ab_joint(false, true);
		note("alphabet: %d code points, one per combination of case class and shape of the three mappings", nab);
		for (i = 0; i <= (T ? 4 : 3); i++) strings(i);
		note("all strings over the alphabet up to length %d, every destination size 0..complete+2, NULL", T ? 4 : 3);
		nab = 0;
		ab_add('a'); ab_add(' '); ab_add(0xDF); ab_add(0x390); ab_add(0x130); ab_add(0xFB03); ab_add(0x1E9E); ab_add(0x10428); ab_add(0); ab_add(0x2C65); ab_add(0x3A3);
		for (i = 3; i <= (T ? 6 : 5); i++) strings(i);
		note("all strings over %d characters (1 to 4 bytes, growing, shrinking, NUL) up to length %d", nab, T ? 6 : 5);
		nab = 0;
		ab_add('a');
		run_jobs(cps_job, 0x1100);
		run_jobs(odd_job, 32);
		note("every code point and out-of-range values alone and next to a letter");
		run_jobs(pump_job, (unsigned long)nab * 22);
		neighbours();
		run_jobs(long_job, 10 * REF_LEN(around_len));
		note("results of 100 to 131073 characters with sizes from 0, around 256, 512, 2^15, 2^16 and the need, and around 2^16, 2^31, 2^32, 2^48, 2^63, SIZE_MAX");
		sample("U+0390 to_uppercase with room for 3: complete length 3, 2 code points and NUL written");
	}
	return finish(argv[3]);
}
