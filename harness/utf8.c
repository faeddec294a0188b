/* C01, C02: exhaustive exploration of the UTF-8 decoder and encoder */
#include "common.h"

/* page with an inaccessible page right behind it (and one in front) */
static uint8_t *
guarded(size_t *size)
{
	size_t ps = 4096;
	uint8_t *p = mmap(NULL, 3 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + ps, ps, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(3); }
	*size = ps;
	return p + ps;
}

static uint8_t *gp; /* start of the accessible page */
static size_t gs;

static void
put(const uint8_t *b, size_t n)
{
	W->kind = 2;
	W->n = n;
	memcpy(W->by, b, n);
}

/* the text starts at s (n readable bytes behind it), the limit is len */
static inline void
dec(const uint8_t *s, size_t n, size_t len, size_t reflen)
{
	cp_t want, got = 0xDEADBEEF;
	size_t r, w;
	w = ref_decode(s, reflen, &want);
	r = grapheme_decode_utf8((const char *)s, len, (uint_least32_t *)&got);
	W->trans++;
	if (__builtin_expect(r != w || got != want, 0)) {
		char sig[96];
		put(s, n);
		snprintf(sig, sizeof(sig), "decode:%02X%02X%02X%02X/%zu", s[0], n > 1 ? s[1] : 0, n > 2 ? s[2] : 0, n > 3 ? s[3] : 0, len);
		fail(sig, "decode_utf8(len=%zu): expected %zu bytes, U+%04X; got %zu bytes, U+%04X", len, w, (unsigned)want, r, (unsigned)got);
	}
	r = grapheme_decode_utf8((const char *)s, len, NULL);
	if (__builtin_expect(r != w, 0)) {
		put(s, n);
		fail("decode-null-cp", "decode_utf8(cp=NULL, len=%zu): expected %zu, got %zu", len, w, r);
	}
}

static int d_len;
/* all strings of length d_len with the first byte = job (the fourth from a boundary set unless the lead announces it) */
static const uint8_t edge[] = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xF0, 0xF4, 0xF7, 0xF8, 0xFF };

static void
dec_job(unsigned long job)
{
	unsigned b1, b2, b3, n3;
	uint8_t s[8];
	size_t l;
	snprintf(W->what, sizeof(W->what), "grapheme_decode_utf8");
	W->kind = 2;
	memset(s, 0x41, sizeof(s));
	s[0] = (uint8_t)(job & 0xFF);
	if (d_len == 3) {
		for (b1 = 0; b1 < 256; b1++)
			for (b2 = 0; b2 < 256; b2++) {
				s[1] = (uint8_t)b1; s[2] = (uint8_t)b2;
				W->states++;
				for (l = 0; l <= 3; l++) {
					/* limits whose lower bits are small: there is an 'A' behind, and whatever follows is not looked at */
					static const uint64_t h[] = { UINT64_C(1) << 8, UINT64_C(1) << 16, UINT64_C(1) << 31, UINT64_C(1) << 32, UINT64_C(1) << 48, UINT64_C(1) << 63 };
					size_t q;
					dec(s, 3, l, l);
					for (q = 0; q < REF_LEN(h); q++) dec(s, 4, h[q] + l, 4);
					dec(s, 4, SIZE_MAX - l, 4);
				}
			}
		W->traces += 65536;
		return;
	}
	/* four bytes: second byte's high bits come from the job */
	for (b1 = (unsigned)(job >> 8) * 32; b1 < (unsigned)(job >> 8) * 32 + 32; b1++)
		for (b2 = 0; b2 < 256; b2++) {
			const bool all = true;
			s[1] = (uint8_t)b1; s[2] = (uint8_t)b2;
			n3 = all ? 256 : (unsigned)sizeof(edge);
			for (b3 = 0; b3 < n3; b3++) {
				s[3] = all ? (uint8_t)b3 : edge[b3];
				dec(s, 4, 4, 4);
			}
			W->states += n3;
			if (stopped()) return;
		}
	W->traces += 8192;
}

/* exact-size buffers against inaccessible pages, NUL-terminated and with every limit; unlimited lengths */
static void
guard_job(unsigned long job)
{
	int i, j, k, m, n;
	size_t l;
	snprintf(W->what, sizeof(W->what), "grapheme_decode_utf8 (text at the end of a page, at the start of a page)");
	W->kind = 2;
	if (!gp) gp = guarded(&gs);
	for (n = 1; n <= 5; n++)
		for (i = 0; i < (int)sizeof(edge); i++) for (j = 0; j < (n > 2 ? (int)sizeof(edge) : 1); j++)
			for (k = 0; k < (n > 3 ? (int)sizeof(edge) : 1); k++) for (m = 0; m < (n > 4 ? (int)sizeof(edge) : 1); m++) {
				uint8_t s[6] = { (uint8_t)job, edge[i], edge[j], edge[k], edge[m], 0 };
				uint8_t *p = gp + gs - n;
				cp_t c;
				size_t r, need;
				if (n == 1 && i > 0) continue;
				W->states++;
				W->traces++;
				put(s, (size_t)n);
				memcpy(p, s, (size_t)n);
				for (l = 0; l <= (size_t)n; l++) { /* every limit, the text ending at the limit */
					memcpy(gp + gs - l, s, l);
					dec(gp + gs - l, l, l, l);
				}
				memcpy(gp, s, (size_t)n); /* nothing in front */
				dec(gp, (size_t)n, (size_t)n, (size_t)n);
				/* any larger limit: only what the lead byte announces may be looked at, and only up to the first other byte */
				need = ref_decode(s, (size_t)n, &c);
				if (need <= (size_t)n) {
					size_t look = need;
					/* a byte that stops the sequence has to be seen */
					if (ref_utf8_need(s[0]) > 0 && need < (size_t)ref_utf8_need(s[0]) + 1) look = need + 1;
					if (look <= (size_t)n) {
						static const size_t big[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, (size_t)INT32_MAX, (size_t)UINT32_MAX, (size_t)UINT32_MAX + 1, 64 };
						memcpy(gp + gs - look, s, look);
						for (r = 0; r < REF_LEN(big); r++) dec(gp + gs - look, look, big[r], look);
					}
				}
			}
	if (job == 0) {
		cp_t c = 1;
		if (grapheme_decode_utf8(NULL, 5, (uint_least32_t *)&c) != 0 || c != 0xFFFD) fail("decode-null", "decode_utf8(NULL, 5) must return 0 and U+FFFD");
		c = 1;
		if (grapheme_decode_utf8("a", 0, (uint_least32_t *)&c) != 0 || c != 0xFFFD) fail("decode-empty", "decode_utf8(s, 0) must return 0 and U+FFFD");
		if (grapheme_decode_utf8(NULL, SIZE_MAX, NULL) != 0) fail("decode-null", "decode_utf8(NULL, SIZE_MAX) must return 0");
		W->trans += 3;
	}
}

/* a whole byte stream is resynchronised: after any garbage, well-formed sequences are found where they start */
static void
sync_job(unsigned long job)
{
	static const char *const tok[] = { "\x80", "\xBF", "\xC2", "\xE1", "\xE1\x80", "\xF1", "\xF1\x80", "\xF1\x80\x80", "\xF8", "\xFF",
		"\xC0\x80", "\xE0\x80\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "A", "\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80" };
	const unsigned nt = REF_LEN(tok), first_good = 15;
	unsigned a, b, c, d, t[5];
	snprintf(W->what, sizeof(W->what), "grapheme_decode_utf8 over a stream");
	W->kind = 2;
	t[0] = (unsigned)job;
	for (a = 0; a < nt; a++) for (b = 0; b < nt; b++) for (c = 0; c < nt; c++) for (d = 0; d < (g_thorough ? nt : 1); d++) {
		uint8_t s[32];
		size_t n = 0, off, start[6], k = 0, i;
		bool good[6];
		cp_t cp;
		t[1] = a; t[2] = b; t[3] = c; t[4] = d;
		for (i = 0; i < (g_thorough ? 5u : 4u); i++) {
			size_t l = strlen(tok[t[i]]);
			good[i] = t[i] >= first_good;
			start[i] = n;
			memcpy(s + n, tok[t[i]], l);
			n += l;
		}
		W->states++;
		W->traces++;
		for (off = 0; off < n;) {
			size_t r = grapheme_decode_utf8((const char *)s + off, n - off, (uint_least32_t *)&cp);
			W->trans++;
			for (; k < (g_thorough ? 5u : 4u) && start[k] < off; k++)
				if (good[k]) { put(s, n); fail("resync", "the well-formed sequence at offset %zu was skipped", start[k]); return; }
			if (k < (g_thorough ? 5u : 4u) && start[k] == off && good[k] && (cp == 0xFFFD || r == 0)) {
				put(s, n);
				fail("resync-value", "the well-formed sequence at offset %zu was not decoded", off);
				return;
			}
			if (k < (g_thorough ? 5u : 4u) && start[k] == off) k++;
			if (r == 0) { put(s, n); fail("resync-stuck", "decode_utf8 returned 0 at offset %zu", off); return; }
			if (r > n - off) break;
			off += r;
		}
	}
}

/* ---- C02 */
static void
enc(cp_t c)
{
	uint8_t want[4], buf[12];
	size_t n = ref_encode(c, want), l, r, i, k;
	W->kind = 1;
	W->n = 1;
	W->cp[0] = c;
	W->states++;
	r = grapheme_encode_utf8(c, NULL, 0);
	if (r != n) { fail("encode-null", "encode_utf8(U+%04X, NULL, 0): expected %zu, got %zu", (unsigned)c, n, r); return; }
	r = grapheme_encode_utf8(c, NULL, SIZE_MAX);
	if (r != n) { fail("encode-null", "encode_utf8(U+%04X, NULL, SIZE_MAX): expected %zu, got %zu", (unsigned)c, n, r); return; }
	W->trans += 2;
	for (k = 0; k < 7 + 6 * 5; k++) {
		static const uint64_t h[] = { UINT64_C(1) << 8, UINT64_C(1) << 16, UINT64_C(1) << 31, UINT64_C(1) << 32, UINT64_C(1) << 48, UINT64_C(1) << 63 };
		l = k < 7 ? k : h[(k - 7) / 5] + (k - 7) % 5;
		memset(buf, 0x5A, sizeof(buf));
		r = grapheme_encode_utf8(c, (char *)buf + 2, l);
		W->trans++;
		if (r != n) { fail("encode-length", "encode_utf8(U+%04X, len=%zu): expected %zu, got %zu", (unsigned)c, l, n, r); return; }
		if (l >= n && memcmp(buf + 2, want, n)) { fail("encode-bytes", "encode_utf8(U+%04X, len=%zu): wrong bytes %02X %02X %02X %02X", (unsigned)c, l, buf[2], buf[3], buf[4], buf[5]); return; }
		for (i = 0; i < sizeof(buf); i++)
			if ((l < n || i < 2 || i >= 2 + n) && buf[i] != 0x5A) {
				fail("encode-stray", "encode_utf8(U+%04X, len=%zu) wrote at offset %td", (unsigned)c, l, (ptrdiff_t)i - 2);
				return;
			}
	}
	r = grapheme_encode_utf8(c, (char *)buf + 2, SIZE_MAX);
	if (r != n || memcmp(buf + 2, want, n)) { fail("encode-unlimited", "encode_utf8(U+%04X, len=SIZE_MAX) is wrong", (unsigned)c); return; }
	{
		cp_t back = 0, expect = c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF) ? 0xFFFD : c;
		r = grapheme_decode_utf8((const char *)buf + 2, n, (uint_least32_t *)&back);
		W->trans += 2;
		if (r != n || back != expect) { fail("round-trip", "U+%04X decodes back to U+%04X (%zu bytes)", (unsigned)c, (unsigned)back, r); return; }
	}
	W->traces++;
}

static void
enc_job(unsigned long job)
{
	uint64_t c;
	snprintf(W->what, sizeof(W->what), "grapheme_encode_utf8");
	for (c = (uint64_t)job << 12; c < (uint64_t)(job + 1) << 12 && !stopped(); c++) enc((cp_t)c);
}

static void
enc_big_job(unsigned long job)
{
	int b, i;
	snprintf(W->what, sizeof(W->what), "grapheme_encode_utf8");
	for (b = 20; b < 32; b++)
		for (i = -3; i <= 3; i++) { enc((cp_t)((1u << b) + (unsigned)i)); enc((cp_t)((1u << b) | (unsigned)job * 257u)); }
	for (i = 0; i < 256; i++) { enc(0xFFFFFFFFu - (unsigned)i - (unsigned)job * 256); enc(0x110000u + (unsigned)i + (unsigned)job * 256); }
	/* exact-size destination at the end of a page */
	if (job == 0) {
		static const cp_t v[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF };
		uint8_t o[4];
		if (!gp) gp = guarded(&gs);
		for (i = 0; i < (int)REF_LEN(v); i++) {
			size_t n = ref_encode(v[i], o), l;
			W->n = 1; W->cp[0] = v[i];
			for (l = 0; l <= n; l++) { grapheme_encode_utf8(v[i], (char *)gp + gs - l, l); W->trans++; }
			grapheme_encode_utf8(v[i], (char *)gp, 4);
		}
	}
}

/* every value beyond the code space: one call with room, one without a buffer */
static void
enc_all_job(unsigned long job)
{
	uint64_t c = (uint64_t)job << 20, e = c + (1u << 20);
	uint8_t buf[8];
	if (c < 0x110000) c = 0x110000;
	snprintf(W->what, sizeof(W->what), "grapheme_encode_utf8");
	W->kind = 1;
	W->n = 1;
	for (; c < e; c++) {
		size_t r;
		uint32_t v = 0x5A5A5A5A;
		memcpy(buf, &v, 4);
		W->cp[0] = (cp_t)c;
		r = grapheme_encode_utf8((cp_t)c, (char *)buf, 4);
		memcpy(&v, buf, 4);
		if (r != 3 || v != 0x5ABDBFEF || grapheme_encode_utf8((cp_t)c, NULL, 0) != 3) {
			fail("encode-beyond", "encode_utf8(0x%lX): expected EF BF BD, got length %zu", (unsigned long)c, r);
			return;
		}
	}
	W->states += 1u << 20;
	W->trans += 1u << 21;
}

int
main(int argc, char **argv)
{
	init(argc, argv);
	if (!strcmp(g_prop, "C01")) {
		d_len = 3;
		run_jobs(dec_job, 256);
		note("every byte string of length 3 with every limit 0..3, and followed by a letter with limits of 0..3 more than 2^8, 2^16, 2^31, 2^32, 2^48, 2^63 and SIZE_MAX-3..SIZE_MAX");
		d_len = 4;
		run_jobs(dec_job, 256 * 8);
		note("every byte string of length 4");
		run_jobs(guard_job, 256);
		note("lead byte x strings over %zu boundary bytes up to length 5, every limit, huge limits, exact-size buffers against inaccessible pages", sizeof(edge));
		run_jobs(sync_job, 19);
		note("every stream of %d tokens (well-formed, truncated, overlong, surrogate, stray)", g_thorough ? 5 : 4);
		sample("F1 80 80 (len 3): expects 4, U+FFFD; ED A0 80 (len 3): expects 3, U+FFFD; E2 82 00 (SIZE_MAX): expects 2, U+FFFD");
	} else {
		run_jobs(enc_job, g_thorough ? 0x100000 : 0x110);
		note("every value %s, every buffer size 0..6, 0..4 more than 2^8, 2^16, 2^31, 2^32, 2^48, 2^63, NULL and SIZE_MAX", g_thorough ? "of 32 bits" : "0..10FFFF");
		run_jobs(enc_big_job, 64);
		run_jobs(enc_all_job, 4096);
		note("every value from 110000 to FFFFFFFF with a buffer of 4 and without");
		note("values around every power of two and the ends of the 32-bit range");
		sample("U+D800 with len 2: expects 3, nothing written; U+10FFFF with len 4: F4 8F BF BF");
	}
	return finish(argv[3]);
}
