/* every public function as a uniform operation: (function, text, mode) -> result; used by C24 and C25 */
#ifndef API_H
#define API_H
#include "common.h"

enum fn {
	FN_NEXT, FN_NEXT8 = FN_NEXT + 4, FN_TO = FN_NEXT8 + 4, FN_TO8 = FN_TO + 3, FN_IS = FN_TO8 + 3, FN_IS8 = FN_IS + 3,
	FN_DEC = FN_IS8 + 3, FN_ENC, FN_PAIR, FN_PRE, FN_LEV, FN_REO, FN_NUM
};
static const char *const fn_names[FN_NUM] = {
	"next_character_break", "next_word_break", "next_sentence_break", "next_line_break",
	"next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
	"to_lowercase", "to_uppercase", "to_titlecase", "to_lowercase_utf8", "to_uppercase_utf8", "to_titlecase_utf8",
	"is_lowercase", "is_uppercase", "is_titlecase", "is_lowercase_utf8", "is_uppercase_utf8", "is_titlecase_utf8",
	"decode_utf8", "encode_utf8", "is_character_break",
	"bidirectional_preprocess_paragraph", "bidirectional_get_line_embedding_levels", "bidirectional_reorder_line",
};
static size_t (*const api_next[4])(const uint_least32_t *, size_t) = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break };
static size_t (*const api_next8[4])(const char *, size_t) = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8 };
static size_t (*const api_to[3])(const uint_least32_t *, size_t, uint_least32_t *, size_t) = { grapheme_to_lowercase, grapheme_to_uppercase, grapheme_to_titlecase };
static size_t (*const api_to8[3])(const char *, size_t, char *, size_t) = { grapheme_to_lowercase_utf8, grapheme_to_uppercase_utf8, grapheme_to_titlecase_utf8 };
static bool (*const api_is[3])(const uint_least32_t *, size_t, size_t *) = { grapheme_is_lowercase, grapheme_is_uppercase, grapheme_is_titlecase };
static bool (*const api_is8[3])(const char *, size_t, size_t *) = { grapheme_is_lowercase_utf8, grapheme_is_uppercase_utf8, grapheme_is_titlecase_utf8 };

/* texts: short ones of every kind the functions treat specially */
#define TMAX 200
struct text { const char *name; cp_t cp[TMAX]; size_t n; uint8_t by[TMAX * 4]; size_t nb; };
static struct text texts[48];
static int ntexts;

static void
text_add(const char *name, const cp_t *c, size_t n)
{
	struct text *t = &texts[ntexts++];
	size_t i;
	t->name = name;
	t->n = n;
	memcpy(t->cp, c, n * sizeof(cp_t));
	for (i = 0; i < n; i++) t->nb += ref_encode(c[i], t->by + t->nb);
}
#define TEXT(name, ...) do { static const cp_t t_[] = { __VA_ARGS__ }; text_add(name, t_, REF_LEN(t_)); } while (0)
static void
texts_init(void)
{
	cp_t big[TMAX];
	size_t n;
	TEXT("letter", 'a');
	TEXT("words", 'H', 'i', ',', ' ', 'w', '1', '.', ' ', 'Q', '?');
	TEXT("flags", 0x1F1E9, 0x1F1EA, 0x1F1EB, 0x1F1F7, 0x1F1EC);
	TEXT("family", 0x1F468, 0x200D, 0x1F469, 0x1F3FD, 0x200D, 0x1F467, 'x');
	TEXT("sigma", 0x391, 0x3A3, '.', 0x3A3, ' ', 0x3A3, 0x391);
	TEXT("numbers", '$', '(', '1', ',', '2', ')', '%', ' ', '-', '3');
	TEXT("hebrew", 0x5D0, '(', 0x5D1, ' ', 'a', ')', 0x2067, '1', 0x2069, '.');
	TEXT("arabic", 0x627, 0x661, ',', '2', '+', '%', 0x300, 'b', ' ');
	TEXT("hangul", 0x1100, 0x1161, 0x11A8, 0xAC00, 0x11A8, 0x600, 0xAC01);
	TEXT("special", 0xDF, 0xFB03, 0x130, 0x1F88, 0x149, 0x1C5);
	TEXT("nul", 'a', 0, 0x300, 'B', 0);
	TEXT("paragraphs", 'a', 0x2029, 0x5D0, '\r', '\n', 'b');
	TEXT("sentences", 'A', '.', ')', ' ', 'b', '!', 0xAD, ' ', 'C');
	TEXT("quotes", 0x5D0, '"', 0x5D1, '\'', 'a', '_', 0x30AB, 0x30AD, '\t');
	TEXT("odd", 0x110000, 0xFFFFFFFF, 0xD800, 0x378, 'a');
	/* the same lengths, in part the same beginning, but other results */
	TEXT("letter 2", 'B');
	TEXT("words 2", 'H', '.', ' ', ' ', 'w', '1', 'O', ' ', 'q', 'x');
	TEXT("flags 2", 0x1F1E9, 0x1F600, 0x1F1EB, 0x1F600, 0x1F1EC);
	TEXT("sigma 2", 0x391, 0x3A3, '.', 'a', ' ', 0x3B1, 0x3A3);
	TEXT("hebrew 2", 0x5D0, 'a', 0x5D1, '1', '(', ')', 0x2066, '.', 0x2069, 'b');
	TEXT("special 2", 0xE0, 0xFB05, 0x131, 0x1F08, 0x14A, 0x1C4);
	TEXT("paragraphs 2", 'A', 0x2028, 0x661, '1', '2', 0x5D0);
	TEXT("hangul 2", 0x1100, 0x11A8, 0x1161, 0xAC01, 0x1160, 0x903, 0xAC00);
	for (n = 0; n < 70; n++) big[n] = n & 1 ? '[' : '(';
	big[n++] = 0x5D0; big[n++] = ')'; big[n++] = ']'; big[n++] = 'a';
	text_add("brackets", big, n);
	for (n = 0; n < 130; n++) big[n] = n % 3 == 0 ? 0x202B : n % 3 == 1 ? 0x2067 : 0x202D;
	big[n++] = '1'; big[n++] = 0x202C; big[n++] = 0x2069; big[n++] = 0x5D0;
	text_add("nested", big, n);
	for (n = 0; n < 60; n++) big[n] = n == 0 ? 'a' : 0x300;
	big[n++] = ':'; big[n++] = 'b';
	text_add("marks", big, n);
	texts[ntexts].name = "ill-formed";
	{
		static const uint8_t b[] = { 'a', 0xC3, ' ', 0xE2, 0x82, 'B', 0x80, 0xF0, 0x9F, 0x98, 0xCC, 0x80, 0xF4, 0x90, 'c', 0xE2, 0x82 };
		memcpy(texts[ntexts].by, b, sizeof(b));
		texts[ntexts].nb = sizeof(b);
		memcpy(texts[ntexts].cp, (cp_t[]){ 0xFFFD, 'a', 0xDC00, 0x7F }, 16);
		texts[ntexts].n = 4;
		ntexts++;
	}
}

/* modes: bit 0: NUL-terminated; bits 1-2: output 0: NULL, 1: short, 2: ample; bits 3-4: override, or offset of the line */
struct op { uint8_t fn, text, mode; };
#define OUTMAX (TMAX * 12)
struct result { size_t r; uint64_t extra; size_t nout; uint8_t out[OUTMAX]; };

static struct op *ops;
static int nops;

static void
ops_init(bool small)
{
	int f, t, m;
	ops = malloc(sizeof(*ops) * 20000);
	for (f = 0; f < FN_NUM; f++)
		for (t = 0; t < ntexts; t++)
			for (m = 0; m < 32; m++) {
				bool out = (f >= FN_TO && f < FN_IS) || f >= FN_PRE;
				if ((m >> 1 & 3) == 3) continue;
				if (!out && (m >> 1 & 3) != 2 && !(f >= FN_IS && f < FN_DEC && (m >> 1 & 3) == 0) && !(f == FN_PAIR && (m >> 1 & 3) == 0)) continue;
				if (f != FN_PRE && f != FN_LEV && f != FN_REO && m >> 3) continue;
				if (m >> 3 == 3) continue;
				if ((m & 1) && (f >= FN_DEC && f != FN_PRE)) continue;
				if (small && (m >> 1 & 3) == 0) continue;
				if (small && (m & 1)) continue;
				ops[nops++] = (struct op){ (uint8_t)f, (uint8_t)t, (uint8_t)m };
			}
}

/* working buffers of one caller */
struct input { cp_t in[TMAX + 8]; uint8_t in8[TMAX * 4 + 8]; uint32_t data[TMAX + 8]; size_t npar; /* length of the first paragraph */ };
struct bufs { struct input *i; uint8_t out[OUTMAX + 64]; };

/* everything up to the call proper: the input is put in place */
static void
op_prepare(const struct op *o, struct bufs *b, int fill)
{
	const struct text *t = &texts[o->text];
	memcpy(b->i->in, t->cp, t->n * sizeof(cp_t));
	b->i->in[t->n] = 0;
	memcpy(b->i->in8, t->by, t->nb);
	b->i->in8[t->nb] = 0;
	memset(b->out, fill, sizeof(b->out));
	if (o->fn == FN_LEV || o->fn == FN_REO) {
		/* data of the text's first paragraph as the library makes it */
		static const enum grapheme_bidirectional_direction ov[3] = { GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
		memset(b->i->data, fill, sizeof(b->i->data));
		b->i->npar = grapheme_bidirectional_preprocess_paragraph(b->i->in, t->n, ov[o->mode >> 3], b->i->data, t->n, NULL);
		if (b->i->npar > t->n) b->i->npar = t->n;
	}
}

static void
op_run(const struct op *o, struct bufs *b, struct result *res)
{
	const struct text *t = &texts[o->text];
	int f = o->fn, om = o->mode >> 1 & 3, dir = o->mode >> 3;
	size_t n = o->mode & 1 ? SIZE_MAX : t->n, n8 = o->mode & 1 ? SIZE_MAX : t->nb, len = 0xABCDEF, sz;
	void *out = om == 0 ? NULL : b->out;
	static const enum grapheme_bidirectional_direction ov[3] = { GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
	enum grapheme_bidirectional_direction d = (enum grapheme_bidirectional_direction)77;
	res->r = 0;
	res->extra = 0;
	res->nout = 0;
	if (f < FN_NEXT8) {
		size_t off = 0, r; /* tile the text */
		while ((r = api_next[f - FN_NEXT](b->i->in + off, n == SIZE_MAX ? n : n - off)) > 0 && off < t->n) { off += r; res->extra = res->extra * 31 + r; }
		res->r = off;
	} else if (f < FN_TO) {
		size_t off = 0, r;
		while ((r = api_next8[f - FN_NEXT8]((const char *)b->i->in8 + off, n8 == SIZE_MAX ? n8 : n8 - off)) > 0 && off < t->nb) { off += r; res->extra = res->extra * 31 + r; }
		res->r = off;
	} else if (f < FN_TO8) {
		sz = om == 0 ? 0 : om == 1 ? t->n / 2 + 1 : TMAX * 3;
		res->r = api_to[f - FN_TO](b->i->in, n, out, sz);
		res->nout = om == 0 ? 0 : (res->r + 1 < sz ? res->r + 1 : sz) * 4;
	} else if (f < FN_IS) {
		sz = om == 0 ? 0 : om == 1 ? t->nb / 2 + 1 : TMAX * 12;
		res->r = api_to8[f - FN_TO8]((const char *)b->i->in8, n8, out, sz);
		/* in a short buffer only the part up to the NUL is meant to be read */
		res->nout = om == 0 ? 0 : om == 1 && res->r + 1 > sz ? strnlen((char *)out, sz) : res->r + 1;
	} else if (f < FN_IS8) {
		res->r = api_is[f - FN_IS](b->i->in, n, om == 0 ? NULL : &len);
		res->extra = len;
	} else if (f < FN_DEC) {
		res->r = api_is8[f - FN_IS8]((const char *)b->i->in8, n8, om == 0 ? NULL : &len);
		res->extra = len;
	} else if (f == FN_DEC) {
		size_t off = 0, r;
		uint_least32_t c = 0;
		while (off < t->nb && (r = grapheme_decode_utf8((const char *)b->i->in8 + off, t->nb - off, &c)) > 0) { off += r; res->extra = res->extra * 31 + c; }
		res->r = off;
	} else if (f == FN_ENC) {
		size_t i, l = 0, r;
		for (i = 0; i < t->n; i++) { r = grapheme_encode_utf8(b->i->in[i], (char *)b->out + l, 4); l += r; }
		res->r = l;
		res->nout = l;
	} else if (f == FN_PAIR) {
		size_t i;
		uint_least16_t st = 0;
		for (i = 0; i + 1 < t->n; i++) res->extra = res->extra * 3 + grapheme_is_character_break(b->i->in[i], b->i->in[i + 1], om == 0 ? NULL : &st);
		res->r = 1;
	} else if (f == FN_PRE) {
		sz = om == 0 ? 0 : om == 1 ? t->n / 2 + 1 : t->n;
		res->r = grapheme_bidirectional_preprocess_paragraph(b->i->in, n, ov[dir], out, sz, &d);
		res->extra = d;
		/* what the data mean shows in the two functions below */
	} else if (f == FN_LEV) {
		sz = om == 0 ? 0 : om == 1 ? b->i->npar / 2 + 1 : b->i->npar;
		res->r = grapheme_bidirectional_get_line_embedding_levels(b->i->data, b->i->npar, out, sz);
		res->nout = sz < res->r ? sz : res->r;
	} else {
		sz = om == 0 ? 0 : om == 1 ? b->i->npar / 2 : b->i->npar + 1;
		res->r = grapheme_bidirectional_reorder_line(b->i->in, b->i->data, b->i->npar, out, sz);
		res->nout = (sz < res->r ? sz : res->r) * 4;
	}
	memcpy(res->out, b->out, res->nout);
}

static bool
result_same(const struct result *a, const struct result *b)
{
	return a->r == b->r && a->extra == b->extra && a->nout == b->nout && memcmp(a->out, b->out, a->nout) == 0;
}

static void
op_name(char *o, size_t m, const struct op *p)
{
	snprintf(o, m, "%s(%s%s, output %s%s)", fn_names[p->fn], texts[p->text].name, p->mode & 1 ? ", NUL-terminated" : "",
	         (p->mode >> 1 & 3) == 0 ? "NULL" : (p->mode >> 1 & 3) == 1 ? "short" : "full", p->fn >= FN_PRE ? (p->mode >> 3 == 0 ? ", auto" : p->mode >> 3 == 1 ? ", LTR" : ", RTL") : "");
}
#endif
