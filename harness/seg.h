/* segmentation of code point arrays: real library against the reference, any text */
#ifndef SEG_H
#define SEG_H
#include "common.h"

typedef size_t (*next_fn)(const uint_least32_t *, size_t);
static const next_fn seg_fn[SEG_NUM] = { grapheme_next_character_break, grapheme_next_word_break,
	grapheme_next_sentence_break, grapheme_next_line_break };
typedef size_t (*next_fn8)(const char *, size_t);
static const next_fn8 seg_fn8[SEG_NUM] = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8,
	grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8 };

#define SEGMAX 140000
static struct atoms seg_at;
static bool *seg_brk;
static uint8_t *seg_cls;
static bool *seg_hit;

static void
seg_init(void)
{
	atoms_init(&seg_at, SEGMAX);
	seg_brk = calloc(SEGMAX + 1, 1);
	seg_cls = calloc(SEGMAX + 1, 1);
	seg_hit = calloc(SEGMAX + 1, 1);
}

/* record a checked text with its boundaries as a sample */
static void
seg_sample(int seg, size_t n)
{
	char b[400];
	size_t i, l = (size_t)snprintf(b, sizeof(b), "%s: ", seg_names[seg]);
	for (i = 0; i < n && l + 40 < sizeof(b); i++) {
		if (n > 20 && i == 8) { l += (size_t)snprintf(b + l, sizeof(b) - l, " ...(%zu)... ", n - 16); i = n - 8; }
		l += (size_t)snprintf(b + l, sizeof(b) - l, "%s%s/%04X", i == 0 ? "" : seg_brk[i] ? " | " : " x ",
		              seg_class_name(seg, seg_cls[i]), (unsigned)W->cp[i]);
	}
	sample("%s", b);
}

/* W->cp[0..n) is the text; its classes are looked up.  Returns true if all boundaries agree. */
static bool
seg_check(int seg, size_t n)
{
	size_t i, off, r;
	const cp_t *t = W->cp;
	W->n = n;
	for (i = 0; i < n; i++) seg_cls[i] = ref_cls(seg_table[seg], t[i]);
	ref_segment(seg, seg_cls, n, seg_brk, &seg_at);
	seg_brk[n] = true;
	W->traces++;
	W->states += n;
	for (off = 0; off < n; off += r) {
		r = seg_fn[seg](t + off, n - off);
		W->trans++;
		if (r == 0 || r > n - off) {
			fail("progress", "next_%s_break returned %zu at offset %zu of %zu", seg_names[seg], r, off, n);
			return false;
		}
		for (i = off + 1; i < off + r; i++)
			if (seg_brk[i]) goto bad;
		i = off + r;
		if (!seg_brk[i]) goto bad;
		continue;
bad:
		{
			char sig[160];
			size_t k, l = 0, lo = i > 4 ? i - 4 : 0;
			l = (size_t)snprintf(sig, sizeof(sig), "%s:", seg_names[seg]);
			for (k = lo; k < n && k < i + 4 && l < sizeof(sig) - 24; k++)
				l += (size_t)snprintf(sig + l, sizeof(sig) - l, "%s%s", k == i ? (seg_brk[i] ? "|" : "x") : k > lo ? "." : "",
				              seg_class_name(seg, seg_cls[k]));
			fail(sig, "%s: boundary at offset %zu (between class %s and %s): reference says %s, library says %s (segment starts at %zu)",
			     seg_names[seg], i, seg_class_name(seg, seg_cls[i - 1]), i < n ? seg_class_name(seg, seg_cls[i]) : "end",
			     seg_brk[i] ? "break" : "no break", seg_brk[i] ? "no break" : "break", off);
			return false;
		}
	}
	return true;
}
#endif
