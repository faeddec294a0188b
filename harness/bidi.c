/* C17 - C23: exhaustive exploration of the bidirectional functions against the UAX #9 reference */
#include "common.h"
#include "../ref/ref_bidi.h"

enum { AUTO = GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, LTR = GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, RTL = GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
static const int ovs[3] = { AUTO, LTR, RTL };
static const char *const ov_names[3] = { "auto", "LTR", "RTL" };
static int ov_ref(int ov) { return ov == AUTO ? -1 : ov == LTR ? 0 : 1; }

#define CAP (1u << 18)
static struct rb rb;
static uint8_t *cls;
static int32_t *brk_id;
static int8_t *want, *l1, *gotl;
static uint32_t *data, *data2, *vis;
static size_t *order;
static volatile int *even_mirrored; /* the known L4 deviation was seen */

static void
bidi_setup(void)
{
	ref_bidi_init();
	rb_init(&rb, CAP);
	cls = malloc(CAP);
	brk_id = malloc(CAP * sizeof(int32_t));
	want = malloc(CAP);
	l1 = malloc(CAP);
	gotl = malloc(CAP + 64);
	data = malloc((CAP + 64) * 4);
	data2 = malloc((CAP + 64) * 4);
	vis = malloc((CAP + 64) * 4);
	order = malloc(CAP * sizeof(size_t));
	even_mirrored = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

/* a code point of each class: no bracket, no mirrored character */
static const cp_t rep[BC_NUM] = { 'a', 0x5D0, 0x627, '1', '+', '%', 0x661, ',', 0x300, 0xAD, 0x2029, '\t', ' ', '!',
	0x202A, 0x202D, 0x202B, 0x202E, 0x202C, 0x2066, 0x2067, 0x2068, 0x2069 };

static void
sig_text(char *sig, size_t m, const char *what, int k, size_t n)
{
	size_t i, l = (size_t)snprintf(sig, m, "%s:%s:", what, ov_names[k]);
	for (i = 0; i < n && i < 14 && l + 12 < m; i++) {
		int32_t b = ref_bracket(W->cp[i]);
		if (b) l += (size_t)snprintf(sig + l, m - l, "%s%s%X", i ? "." : "", b > 0 ? "o" : "c", (unsigned)(b > 0 ? b : -b));
		else l += (size_t)snprintf(sig + l, m - l, "%s%s", i ? "." : "", bc_names[ref_cls(T_BC, W->cp[i])]);
	}
}

static size_t
show_lev(char *o, size_t m, const int8_t *l, size_t n)
{
	size_t i, p = 0;
	o[0] = 0;
	for (i = 0; i < n && p + 8 < m; i++) p += (size_t)snprintf(o + p, m - p, l[i] < 0 ? "x " : "%d ", l[i]);
	return p;
}

#define POISON32 UINT32_C(0xA5A5A5A5)
#define POISON8 ((int8_t)0x5A)

static void
classify(size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) { cls[i] = ref_cls(T_BC, W->cp[i]); brk_id[i] = ref_bracket(W->cp[i]); }
}

static bool
diff_levels(const char *what, int k, size_t from, size_t len, size_t n, const int8_t *exp)
{
	size_t i;
	char sig[150], a[400], b[400];
	for (i = 0; i < len && gotl[i] == exp[i]; i++) ;
	if (i == len) return false;
	sig_text(sig, sizeof(sig), what, k, n);
	show_lev(a, sizeof(a), exp + (i > 20 ? i - 20 : 0), len - (i > 20 ? i - 20 : 0) < 60 ? len - (i > 20 ? i - 20 : 0) : 60);
	show_lev(b, sizeof(b), gotl + (i > 20 ? i - 20 : 0), len - (i > 20 ? i - 20 : 0) < 60 ? len - (i > 20 ? i - 20 : 0) : 60);
	fail(sig, "direction %s, line %zu..%zu: first wrong level at %zu; around it expected: %s; got: %s", ov_names[k], from, from + len, i, a, b);
	return true;
}

/* one paragraph, all of it as one line: length, direction, levels */
static bool
check_levels(size_t n, int k)
{
	size_t r, p = rb_paragraph(cls, n), i;
	enum grapheme_bidirectional_direction res = (enum grapheme_bidirectional_direction)77;
	int P;
	char sig[150];
	W->trans++;
	P = ref_bidi(&rb, cls, brk_id, p, ov_ref(ovs[k]), want);
	ref_l1(cls, want, p, P, l1);
	r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp, n, (enum grapheme_bidirectional_direction)ovs[k], (uint_least32_t *)data, p, &res);
	if (r != p) { sig_text(sig, sizeof(sig), "length", k, n); fail(sig, "preprocess_paragraph returned %zu, the paragraph has %zu", r, p); return false; }
	if ((int)res != (P ? RTL : LTR)) { sig_text(sig, sizeof(sig), "direction", k, n); fail(sig, "resolved direction %d, expected %s", (int)res, P ? "RTL" : "LTR"); return false; }
	for (i = 0; i < p; i++) gotl[i] = POISON8;
	r = grapheme_bidirectional_get_line_embedding_levels((uint_least32_t *)data, p, gotl, p);
	if (r != p) { sig_text(sig, sizeof(sig), "levels-length", k, n); fail(sig, "get_line_embedding_levels returned %zu for %zu", r, p); return false; }
	return !diff_levels("levels", k, 0, p, n, l1);
}

static void
text(size_t n)
{
	int k;
	W->kind = 1;
	W->n = n;
	W->states++;
	classify(n);
	for (k = 0; k < 3; k++) if (check_levels(n, k)) W->traces++;
}

/* visual order and mirroring of line from..from+len of the paragraph preprocessed in data[] */
static bool
check_line(size_t n, int k, int P, size_t from, size_t len)
{
	size_t m, r, i;
	char sig[150];
	ref_l1(cls + from, want + from, len, P, l1);
	for (i = 0; i < len + 2; i++) gotl[i] = POISON8;
	r = grapheme_bidirectional_get_line_embedding_levels((uint_least32_t *)data + from, len, gotl, len);
	W->trans++;
	if (r != len) { sig_text(sig, sizeof(sig), "line-length", k, n); fail(sig, "get_line_embedding_levels returned %zu for line %zu..%zu", r, from, from + len); return false; }
	if (diff_levels("line", k, from, len, n, l1)) return false;
	m = ref_l2(l1, len, order);
	for (i = 0; i < m + 4; i++) vis[i] = POISON32;
	r = grapheme_bidirectional_reorder_line((uint_least32_t *)W->cp + from, (uint_least32_t *)data + from, len, (uint_least32_t *)vis, m + 1);
	W->trans++;
	if (r != m) { sig_text(sig, sizeof(sig), "reorder-length", k, n); fail(sig, "reorder_line returned %zu for line %zu..%zu, %zu characters are left", r, from, from + len, m); return false; }
	for (i = 0; i < m; i++) {
		cp_t c = W->cp[from + order[i]], e = l1[order[i]] & 1 && c < REF_N ? ref_mirror_tab[c] : c;
		if (c > 0x10FFFF) e = 0xFFFD;
		if (vis[i] == e) continue;
		if (!(l1[order[i]] & 1) && c < REF_N && vis[i] == ref_mirror_tab[c]) { *even_mirrored = 1; continue; } /* known: rule L4 */
		sig_text(sig, sizeof(sig), "reorder", k, n);
		fail(sig, "direction %s, line %zu..%zu: position %zu shows U+%04X, expected U+%04X (character %zu, level %d)", ov_names[k], from, from + len, i,
		     (unsigned)vis[i], (unsigned)e, from + order[i], l1[order[i]]);
		return false;
	}
	W->traces++;
	return true;
}

/* every division into lines is covered by every slice */
static void
slices(size_t n)
{
	int k;
	W->kind = 1;
	W->n = n;
	W->states++;
	classify(n);
	for (k = 0; k < 3; k++) {
		size_t a, z, p = rb_paragraph(cls, n);
		int P;
		if (!check_levels(n, k)) return;
		P = ref_bidi(&rb, cls, brk_id, p, ov_ref(ovs[k]), want);
		memcpy(data2, data, p * 4);
		for (a = 0; a < p; a++)
			for (z = a + 1; z <= p; z++)
				if (!check_line(n, k, P, a, z - a)) return;
		if (memcmp(data2, data, p * 4)) {
			char sig[150];
			sig_text(sig, sizeof(sig), "modified", k, n);
			fail(sig, "line processing modified the paragraph data");
		}
	}
}

/* ---- strings over an alphabet of code points */
static cp_t ab[256];
static int nab, s_len;
static void (*s_fn)(size_t);
static cp_t s_pre[CAP];
static size_t s_npre;

static void
strings_job(unsigned long job)
{
	int d[16] = { 0 }, i, fixed = s_len < 2 ? s_len : 2;
	unsigned long v = job;
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)nab); v /= (unsigned)nab; }
	memcpy(W->cp, s_pre, s_npre * sizeof(cp_t));
	for (;;) {
		for (i = 0; i < s_len; i++) W->cp[s_npre + (size_t)i] = ab[d[i]];
		s_fn(s_npre + (size_t)s_len);
		for (i = s_len - 1; i >= fixed; i--) {
			if (++d[i] < nab) break;
			d[i] = 0;
		}
		if (i < fixed || stopped()) break;
	}
}
static void
strings(int len, void (*fn)(size_t))
{
	s_len = len;
	s_fn = fn;
	run_jobs(strings_job, len == 0 ? 1 : len == 1 ? (unsigned long)nab : (unsigned long)(nab * nab));
}
/* ---- strings over multi-character tokens */
static struct { int n; cp_t c[3]; } tok[32];
static int ntok;
static void
tokens_job(unsigned long job)
{
	int d[16] = { 0 }, i, j, fixed = s_len < 2 ? s_len : 2;
	unsigned long v = job;
	for (i = 0; i < fixed; i++) { d[i] = (int)(v % (unsigned)ntok); v /= (unsigned)ntok; }
	memcpy(W->cp, s_pre, s_npre * sizeof(cp_t));
	for (;;) {
		size_t n = s_npre;
		for (i = 0; i < s_len; i++) for (j = 0; j < tok[d[i]].n; j++) W->cp[n++] = tok[d[i]].c[j];
		s_fn(n);
		for (i = s_len - 1; i >= fixed; i--) {
			if (++d[i] < ntok) break;
			d[i] = 0;
		}
		if (i < fixed || stopped()) break;
	}
}
static void
tokens(int len, void (*fn)(size_t))
{
	s_len = len;
	s_fn = fn;
	run_jobs(tokens_job, len == 0 ? 1 : len == 1 ? (unsigned long)ntok : (unsigned long)(ntok * ntok));
}
static void
tok_set(const char *list) /* "PDF LRO|RLI|a": classes, a letter or bracket stands for itself */
{
	char buf[400], *t, *u, *s1, *s2;
	ntok = 0;
	snprintf(buf, sizeof(buf), "%s", list);
	for (t = strtok_r(buf, "|", &s1); t; t = strtok_r(NULL, "|", &s1)) {
		tok[ntok].n = 0;
		for (u = strtok_r(t, " ", &s2); u; u = strtok_r(NULL, " ", &s2)) {
			int k;
			for (k = 0; k < BC_NUM && strcmp(bc_names[k], u); k++) ;
			tok[ntok].c[tok[ntok].n++] = k < BC_NUM ? rep[k] : (cp_t)(unsigned char)u[0];
		}
		ntok++;
	}
}
static void
ab_classes(const char *list)
{
	char buf[400], *t;
	int k;
	nab = 0;
	snprintf(buf, sizeof(buf), "%s", list);
	for (t = strtok(buf, " "); t; t = strtok(NULL, " ")) {
		for (k = 0; k < BC_NUM && strcmp(bc_names[k], t); k++) ;
		if (k == BC_NUM) { fprintf(stderr, "class %s?\n", t); exit(3); }
		ab[nab++] = rep[k];
	}
}
static void
ab_all(bool b)
{
	int k;
	nab = 0;
	for (k = 0; k < BC_NUM; k++) if (b || k != BC_B) ab[nab++] = rep[k];
}

/* ---- every code point between all pairs of neighbours */
static void (*c_fn)(size_t);
static void
cps_job(unsigned long job)
{
	uint64_t c;
	int a, b;
	for (c = (uint64_t)job << 8; c < (uint64_t)(job + 1) << 8 && !stopped(); c++)
		for (a = -1; a < nab; a++)
			for (b = -1; b < nab; b++) {
				size_t n = 0;
				if (a >= 0) W->cp[n++] = ab[a];
				W->cp[n++] = (cp_t)c;
				if (b >= 0) W->cp[n++] = ab[b];
				c_fn(n);
			}
}

static const size_t ks[] = { 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 61, 62, 63, 64, 65, 66, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 3000 };

/* pumped: x . r^k . y . z */

static void
pump_job(unsigned long job)
{
	int r = (int)(job % (unsigned)nab), k = (int)(job / (unsigned)nab), x, y, z;
	size_t i;
	for (x = -1; x < nab; x++)
		for (y = -1; y < nab; y++)
			for (z = -1; z < (y < 0 ? 0 : nab); z++) {
				size_t n = 0;
				if (x >= 0) W->cp[n++] = ab[x];
				for (i = 0; i < ks[k]; i++) W->cp[n++] = ab[r];
				if (y >= 0) W->cp[n++] = ab[y];
				if (z >= 0) W->cp[n++] = ab[z];
				text(n);
				if (stopped()) return;
			}
}

/* neighbours: ASCII triples, pairs of one block of 256, Latin-1 with anything of interest, stretches (n_fn is what is checked) */
static void (*n_fn)(size_t);
static void
ascii_job(unsigned long job)
{
	cp_t b, c;
	W->cp[0] = (cp_t)job;
	for (b = 0; b < 128; b++)
		for (c = 0; c < 128; c++) {
			W->cp[1] = b; W->cp[2] = c;
			n_fn(3);
			if (stopped()) return;
		}
}
static bool dull(cp_t c) { return (ref_cls(T_BC, c) == BC_L || ref_cls(T_ASG, c) == ASG_U) && !ref_bracket(c) && (c >= REF_N || ref_mirror_tab[c] == c); }
static void
block_job(unsigned long job)
{
	cp_t a, b, base = (cp_t)job << 8;
	bool any = false;
	for (a = base + 1; a < base + 256; a++) any |= ref_cls(T_BC, a) != ref_cls(T_BC, base) || !dull(a);
	if (!any && !g_thorough) return;
	for (a = base; a < base + 256; a++)
		for (b = base; b < base + 256; b++) {
			W->cp[0] = a; W->cp[1] = b;
			n_fn(2);
			if (stopped()) return;
		}
}
static void
wide_job(unsigned long job)
{
	cp_t a, b;
	for (b = (cp_t)job << 8; b < (cp_t)(job + 1) << 8; b++) {
		if (!g_thorough && dull(b)) continue;
		for (a = 0; a < 256; a++) {
			W->cp[0] = a; W->cp[1] = b;
			n_fn(2);
			W->cp[0] = b; W->cp[1] = a;
			n_fn(2);
			if (stopped()) return;
		}
	}
}
static void
twin_job(unsigned long job)
{
	cp_t c, t[MAXTWIN];
	int i, n;
	for (c = (cp_t)job << 8; c < (cp_t)(job + 1) << 8; c++) {
		if (dull(c)) continue;
		n = twins(c, t);
		for (i = 0; i < n; i++) {
			W->cp[0] = c; W->cp[1] = t[i];
			n_fn(2);
			W->cp[0] = t[i]; W->cp[1] = c;
			n_fn(2);
			W->cp[0] = 0x5D0; W->cp[1] = t[i]; W->cp[2] = 'a'; W->cp[3] = c; W->cp[4] = 0x5D0;
			n_fn(5);
			W->cp[1] = c; W->cp[3] = t[i];
			n_fn(5);
			if (stopped()) return;
		}
	}
}
static const cp_t stretch_run[] = { 'a', '1', ' ', 0x5D0, 0x627, 0x661, 0x300, 0xAD };
#define STRETCH_N (REF_LEN(stretch_run) * 40)
static void
stretch_job(unsigned long job)
{
	size_t k, n = job / REF_LEN(stretch_run) + 1, m;
	cp_t r = stretch_run[job % REF_LEN(stretch_run)], b, c;
	int x;
	for (x = 0; x < 2; x++)
		for (b = 0; b < 128; b++)
			for (c = 0; c < 128; c++) {
				if (!g_thorough && ((b ^ c) & 7)) continue;
				m = 0;
				if (x) W->cp[m++] = 0x5D0;
				for (k = 0; k < n; k++) W->cp[m++] = r;
				W->cp[m++] = b;
				W->cp[m++] = c;
				if (n & 1) W->cp[m++] = 0x5D0;
				n_fn(m);
				if (stopped()) return;
			}
}
static void
neighbours(void (*fn)(size_t))
{
	n_fn = fn;
	run_jobs(ascii_job, 128);
	run_jobs(block_job, 0x1100);
	run_jobs(wide_job, 0x1100);
	run_jobs(stretch_job, STRETCH_N);
	run_jobs(twin_job, 0x1100);
	note("neighbours: all ASCII triples; all pairs of one block of 256%s; Latin-1 with every code point%s, both orders; stretches of 1 to 40 of 8 characters in front of pairs of ASCII characters; every code point that is not just a letter with those that share its low 8, 12 or 16 bits or differ in one bit", g_thorough ? "" : " where the block is not all letters", g_thorough ? "" : " that is not just a letter");
}

/* texts longer than 16 bits count: k characters of a cycle between one of ab and two of ab. A long run of neutrals between
 * different directions, of numbers or of FSI takes the library quadratic time; the cycles avoid these. */
static void line_text(size_t n);
static const size_t far_k[] = { 32766, 32767, 32768, 65534, 65535, 65536, 65537 };
static const struct { int n; cp_t c[6]; } far_cyc[] = { { 1, { 'a' } }, { 1, { 0x5D0 } }, { 1, { 0x627 } }, { 2, { 0x5D0, ' ' } }, { 4, { 0x5D0, '!', 'a', '!' } },
	{ 2, { 0x5D0, 0xAD } }, { 3, { 0x202B, 0x5D0, 0x202C } }, { 3, { 'a', '<', 0x5D0 } },
	{ 1, { ' ' } }, { 1, { '!' } }, { 1, { '%' } }, { 1, { 0x300 } }, { 1, { 0xAD } } };
#define FAR_SAME 8 /* from here on only between two R */
static void (*f_fn)(size_t);
static int f_nab;
static void
far_job(unsigned long job)
{
	int r = (int)(job % REF_LEN(far_cyc)), kx = (int)(job / REF_LEN(far_cyc)), x, y;
	size_t i;
	for (x = -1; x < f_nab; x++)
		for (y = 0; y < f_nab; y++) {
			size_t n = 0;
			if (!g_thorough && (x + y + r) % 3) continue;
			if (r >= FAR_SAME) W->cp[n++] = 0x5D0;
			else if (x >= 0) W->cp[n++] = ab[x];
			for (i = 0; i < far_k[kx]; i++) W->cp[n++] = far_cyc[r].c[i % (size_t)far_cyc[r].n];
			if (r >= FAR_SAME) W->cp[n++] = 0x5D0;
			W->cp[n++] = ab[y];
			W->cp[n++] = ab[(y + 1) % f_nab];
			f_fn(n);
			if (stopped()) return;
		}
}
static void
far_texts(void (*fn)(size_t))
{
	f_fn = fn;
	f_nab = nab;
	run_jobs(far_job, REF_LEN(far_cyc) * REF_LEN(far_k));
}

/* pumped behind a history: every string up to length 3, cycle^k, every string up to length 2 */
static const char *const cycles[] = { "BN", "PDF", "RLE PDF", "RLI PDI", "LRO BN PDF", "NSM", "WS", "ET", "ON", "LRI PDI", "ES", "CS" };
static const char *const pump_pre = "RLE RLI PDF PDI R L AL EN", *const pump_post = "ON R EN L";
static int
class_list(const char *list, cp_t *o)
{
	char buf[200], *t, *s;
	int n = 0, k;
	snprintf(buf, sizeof(buf), "%s", list);
	for (t = strtok_r(buf, " ", &s); t; t = strtok_r(NULL, " ", &s)) {
		for (k = 0; k < BC_NUM && strcmp(bc_names[k], t); k++) ;
		o[n++] = rep[k];
	}
	return n;
}
static int pre_len;
static const size_t k2[] = { 7, 8, 9, 15, 17, 33, 65, 130, 257 };
static void
pump2_job(unsigned long job)
{
	cp_t pa[16], qa[16], cy[4];
	int np = class_list(pump_pre, pa), nq = class_list(pump_post, qa), nc = class_list(cycles[job % REF_LEN(cycles)], cy), i, d[4] = { 0 }, a, b;
	size_t k = k2[job / REF_LEN(cycles)], j;
	for (;;) {
		for (a = 0; a < nq; a++)
			for (b = -1; b < nq; b++) {
				size_t n = 0;
				for (i = 0; i < pre_len; i++) W->cp[n++] = pa[d[i]];
				for (j = 0; j < k; j++) W->cp[n++] = cy[j % (size_t)nc];
				W->cp[n++] = qa[a];
				if (b >= 0) W->cp[n++] = qa[b];
				text(n);
				if (stopped()) return;
			}
		for (i = pre_len - 1; i >= 0; i--) {
			if (++d[i] < np) break;
			d[i] = 0;
		}
		if (i < 0) break;
	}
}

/* FSI looks for the first strong character past what is nested or far away */
static const size_t fsi_k[] = { 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 61, 62, 63, 64, 65, 66, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537 };
static void
fsi_job(unsigned long job)
{
	static const char *const nest[] = { "LRI", "RLI", "FSI", "RLI LRI", "RLI RLE", "PDF", "BN", "ON", "EN", "NSM", "WS", "RLE PDF", "RLI PDI", "FSI PDI", "AN" };
	size_t k = fsi_k[job / REF_LEN(nest)], i, n;
	const char *pat = nest[job % REF_LEN(nest)];
	cp_t p[4];
	int np = class_list(pat, p), outer, a, b, j, ni = 0, t;
	static const cp_t st[] = { 0, 'a', 0x5D0, 0x627, '!' };
	for (i = 0; i < (size_t)np; i++) ni += p[i] >= 0x2066 && p[i] <= 0x2068 ? 1 : p[i] == 0x2069 ? -1 : 0;
	if (k > 300 && (strstr(pat, "FSI") || !strcmp(pat, "RLI LRI") || (k > 1025 && (strstr(pat, "EN") || strstr(pat, "LRI PDI") || strstr(pat, "RLI PDI"))))) return; /* the library takes quadratic time */
	if (!g_thorough && (k == 511 || k == 513 || k == 1023 || k == 1025 || k == 32767 || k == 65535 || k == 65537 || (k > 257 && k < 511))) return;
	if (k > 1025 && strcmp(pat, "LRI") && strcmp(pat, "BN") && strcmp(pat, "WS")) return;
	for (outer = 0; outer < (k > 1000 ? 1 : 3); outer++)
		for (a = 0; a < 3; a++)
			for (b = 0; b < (k > 30000 ? 3 : 5); b++)
				for (j = ni > 0 ? 0 : 3; j < 4; j++)
					for (t = 0; t < 2; t++) {
						n = 0;
						if (k > 1025 && ni > 0 && a != 1) continue; /* a run of neutrals between different directions: quadratic, too */
						if (outer == 1) W->cp[n++] = 0x2068;
						if (outer == 2) { W->cp[n++] = 'a'; W->cp[n++] = 0x202B; }
						W->cp[n++] = 0x2068;
						for (i = 0; i < k * (size_t)np; i++) W->cp[n++] = p[i % (size_t)np];
						if (a) W->cp[n++] = st[a];
						if (j < 3) for (i = 0; i < k * (size_t)ni + (size_t)j - 1; i++) W->cp[n++] = 0x2069;
						if (b) W->cp[n++] = st[b];
						if (t) W->cp[n++] = 0x2069;
						if (t && outer == 1) W->cp[n++] = 0x2069;
						W->cp[n++] = '1';
						W->cp[n++] = 0x5D0;
						text(n);
						if (stopped()) return;
					}
}

/* ---- C20: more overflowing initiators than a counter of 8 (or 16) bits holds */
static const int many[] = { 1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537 };
static void
overflow_job(unsigned long job)
{
	static const char *const base[] = { "RLE", "LRE RLE", "RLI", "LRI RLI", "RLO", "RLE LRI" };
	static const char *const over[] = { "RLE", "LRO", "RLI", "FSI", "RLE RLI", "LRI LRE", "RLI RLE RLE" };
	static const int extra[] = { -126, -2, -1, 0, 1, 2, 126 };
	static const char *const mid[] = { "", "EN", "PDI", "PDF", "RLI", "RLE", "PDF PDI", "PDI PDF", "PDI RLE R", "PDF RLI R" };
	cp_t bp[4], op[4], mp[4];
	int nb, no, nm, e, x, m, h;
	size_t k = (size_t)many[job / (REF_LEN(base) * REF_LEN(over))], n, i, j;
	nb = class_list(base[job % REF_LEN(base)], bp);
	no = class_list(over[job / REF_LEN(base) % REF_LEN(over)], op);
	if (!g_thorough && (k > 300 || k == 128)) return;
	for (m = 0; m < (k > 60000 ? 2 : k > 100 && !g_thorough ? 4 : (int)REF_LEN(mid)); m++)
		for (e = 0; e < (int)REF_LEN(extra); e++)
			for (x = 0; x < (k > 60000 ? 2 : 4); x++) /* closers: PDF, PDI, what fits in order, alternating */
				for (h = 0; h < 2; h++) {
					n = 0;
					if (k > 60000 && extra[e] < -2) continue;
					if (!g_thorough && k > 100 && (extra[e] < -1 || extra[e] == 2)) continue;
					for (i = 0; i < 126; i++) W->cp[n++] = bp[i % (size_t)nb];
					for (i = 0; i < k; i++) W->cp[n++] = op[i % (size_t)no];
					nm = class_list(mid[m], mp);
					for (j = 0; j < (size_t)nm; j++) W->cp[n++] = mp[j];
					for (i = 0; i < k + (size_t)(extra[e] + 1000) - 1000; i++) {
						cp_t c;
						if ((int)k + extra[e] <= 0) break;
						c = i < k ? op[(k - 1 - i) % (size_t)no] : bp[(125 - (i - k) % 126) % (size_t)nb];
						W->cp[n++] = x == 0 ? 0x202C : x == 1 ? 0x2069 : x == 2 ? (c >= 0x2066 ? 0x2069 : 0x202C) : i & 1 ? 0x202C : 0x2069;
					}
					if (h) { W->cp[n++] = bp[0]; W->cp[n++] = 'a'; W->cp[n++] = bp[0] >= 0x2066 ? 0x2069 : 0x202C; }
					W->cp[n++] = '1'; W->cp[n++] = 0x5D0; W->cp[n++] = '!'; W->cp[n++] = 'a';
					text(n);
					if (stopped()) return;
				}
}

/* ---- C17 */
static void
paragraphs(size_t n)
{
	/* as a caller does: paragraph after paragraph */
	int k;
	W->kind = 1;
	W->n = n;
	W->states++;
	classify(n);
	for (k = 0; k < 3; k++) {
		size_t off = 0, r, p;
		while (off < n) {
			enum grapheme_bidirectional_direction res = (enum grapheme_bidirectional_direction)77;
			char sig[150];
			int P;
			p = rb_paragraph(cls + off, n - off);
			P = ov_ref(ovs[k]) >= 0 ? ov_ref(ovs[k]) : rb_first_strong(cls + off, 0, p, false) == 1;
			r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp + off, n - off, (enum grapheme_bidirectional_direction)ovs[k], (uint_least32_t *)data, n - off, &res);
			W->trans++;
			if (r != p) { sig_text(sig, sizeof(sig), "length", k, n); fail(sig, "preprocess_paragraph at %zu returned %zu, the paragraph has %zu", off, r, p); return; }
			if ((int)res != (P ? RTL : LTR)) { sig_text(sig, sizeof(sig), "direction", k, n); fail(sig, "paragraph at %zu: resolved direction %d, expected %s", off, (int)res, P ? "RTL" : "LTR"); return; }
			res = (enum grapheme_bidirectional_direction)77;
			r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp + off, n - off, (enum grapheme_bidirectional_direction)ovs[k], NULL, 0, &res);
			if (r != p || (int)res != (P ? RTL : LTR)) { sig_text(sig, sizeof(sig), "measure", k, n); fail(sig, "preprocess_paragraph without a buffer at %zu: %zu, direction %d", off, r, (int)res); return; }
			r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp + off, n - off, (enum grapheme_bidirectional_direction)ovs[k], (uint_least32_t *)data, n - off, NULL);
			if (r != p) { sig_text(sig, sizeof(sig), "noresult", k, n); fail(sig, "preprocess_paragraph without a direction output at %zu: %zu", off, r); return; }
			W->trans += 2;
			off += p;
		}
	}
	W->traces++;
}

/* lengths that do not fit smaller integers: the separator ends the paragraph long before */
static const size_t huge_n[] = { (size_t)1 << 8, (size_t)1 << 15, (size_t)1 << 16, (size_t)1 << 30, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 4, (size_t)1 << 33, (size_t)1 << 48, (size_t)1 << 61, ((size_t)1 << 61) + 1, (size_t)1 << 62, (size_t)1 << 63, SIZE_MAX - 3, SIZE_MAX - 1 };
static void
huge_par_job(unsigned long job)
{
	int a, b, k, w;
	cp_t x[3] = { ab[job % (unsigned)nab], 0, 0 };
	size_t h, n;
	for (a = -1; a < nab; a++)
		for (b = -1; b < (a < 0 ? 0 : nab); b++) {
			n = 1;
			if (a >= 0) x[n++] = ab[a];
			if (b >= 0) x[n++] = ab[b];
			memcpy(W->cp, x, n * sizeof(cp_t));
			W->cp[n++] = job & 1 ? 0x2029 : '\n';
			W->cp[n] = 0x5D0; W->cp[n + 1] = 'a';
			W->n = n; W->kind = 1; W->states++;
			classify(n);
			for (h = 0; h < REF_LEN(huge_n); h++)
				for (k = 0; k < 3; k++)
					for (w = 0; w < 3; w++) {
						enum grapheme_bidirectional_direction res = (enum grapheme_bidirectional_direction)77;
						size_t p = rb_paragraph(cls, n), r;
						int P = ov_ref(ovs[k]) >= 0 ? ov_ref(ovs[k]) : rb_first_strong(cls, 0, p, false) == 1;
						char sig[150];
						if (huge_n[h] < n) continue;
						if (huge_n[h] < ARENA / 2) { W->cp[n - 1] = job & 1 ? 0x2029 : '\n'; }
						r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp, huge_n[h], (enum grapheme_bidirectional_direction)ovs[k], w ? (uint_least32_t *)data : NULL, w == 0 ? 0 : w == 1 ? p : huge_n[h], &res);
						W->trans++;
						if (r != p || (int)res != (P ? RTL : LTR)) { sig_text(sig, sizeof(sig), "huge", k, n); fail(sig, "preprocess_paragraph with srclen %zu: returned %zu, direction %d, the paragraph has %zu, %s", huge_n[h], r, (int)res, p, P ? "RTL" : "LTR"); return; }
					}
			if (stopped()) return;
		}
	W->traces++;
}

/* length and direction without levels */
static void
measure(size_t n)
{
	int k;
	W->n = n; W->kind = 1; W->states++;
	classify(n);
	for (k = 0; k < 3; k++) {
		enum grapheme_bidirectional_direction res = (enum grapheme_bidirectional_direction)77;
		size_t p = rb_paragraph(cls, n), r;
		int P = ov_ref(ovs[k]) >= 0 ? ov_ref(ovs[k]) : rb_first_strong(cls, 0, p, false) == 1;
		char sig[150];
		r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp, n, (enum grapheme_bidirectional_direction)ovs[k], NULL, 0, &res);
		W->trans++;
		if (r != p || (int)res != (P ? RTL : LTR)) { sig_text(sig, sizeof(sig), "direction", k, n); fail(sig, "length %zu (expected %zu), direction %d, expected %s", r, p, (int)res, P ? "RTL" : "LTR"); return; }
	}
	W->traces++;
}

/* depth of isolates before the strong character: I^k x PDI^m y */
static void
nest_job(unsigned long job)
{
	static const int in[3] = { BC_LRI, BC_RLI, BC_FSI };
	static const cp_t tail[][3] = { { 0x5D0, 0, 0 }, { 'a', 0x5D0, 0 }, { 0x5D0, 'a', 0 }, { 0x2029, 0x5D0, 0 }, { 0x627, 0x2029, 'a' }, { '1', 0x5D0, 0 }, { 0x2067, 0x5D0, 0 } };
	static const int around[] = { 0, 1, 2, 3, 60, 61, 62, 63, 64, 65, 100, 123, 124, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 32766, 32768, 32770 };
	size_t k = (size_t)around[job / 3], i, m, n, t, x;
	int f = in[job % 3];
	for (x = 0; x < 3; x++)
		for (m = k > 4 ? k - 4 : 0; m <= k + 2; m++)
			for (t = 0; t < REF_LEN(tail); t++) {
				n = 0;
				for (i = 0; i < k; i++) W->cp[n++] = rep[f];
				W->cp[n++] = x == 0 ? 'a' : x == 1 ? 0x5D0 : '!';
				for (i = 0; i < m && n < CAP - 8; i++) W->cp[n++] = rep[BC_PDI];
				for (i = 0; i < 3 && tail[t][i]; i++) W->cp[n++] = tail[t][i];
				if (k > 1000) { /* measuring only: levels of very long texts are another property's */
					enum grapheme_bidirectional_direction res;
					size_t p, r;
					int P;
					W->n = n; W->kind = 1; W->states++;
					classify(n);
					p = rb_paragraph(cls, n);
					P = rb_first_strong(cls, 0, p, false) == 1;
					r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)W->cp, n, (enum grapheme_bidirectional_direction)AUTO, NULL, 0, &res);
					W->trans++;
					if (r != p || (int)res != (P ? RTL : LTR)) { char sig[150]; sig_text(sig, sizeof(sig), "direction", 0, n); fail(sig, "%zu isolates: length %zu (expected %zu), direction %d", k, r, p, (int)res); return; }
				} else paragraphs(n);
				if (stopped()) return;
			}
}

/* ---- C20: prefix of k initiators in a pattern, every short string behind it, unwinding, a tail */
static const char *const patterns[] = { "RLE", "LRE", "RLI", "LRI", "RLE LRE", "LRE RLE", "RLO LRO", "LRO RLO", "RLI LRI", "LRI RLI", "RLE LRI", "RLI LRE", "FSI", "RLO LRI", "RLI LRO" };
static int depth_len;
static void
depth_job(unsigned long job)
{
	static const int kk[] = { 58, 59, 60, 61, 62, 63, 64, 65, 120, 121, 122, 123, 124, 125, 126, 127, 128 };
	const char *pat = patterns[job % REF_LEN(patterns)];
	int k = kk[job / REF_LEN(patterns)], np = 0, i, d[8] = { 0 }, u;
	cp_t p[4];
	char buf[40], *t, *save;
	static const int unw[] = { 0, 1, 2, 3, 4 }; /* none, one, two; all but one; all */
	snprintf(buf, sizeof(buf), "%s", pat);
	for (t = strtok_r(buf, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
		int c;
		for (c = 0; c < BC_NUM && strcmp(bc_names[c], t); c++) ;
		p[np++] = rep[c];
	}
	for (;;) {
		for (u = 0; u < (int)REF_LEN(unw); u++) {
			size_t n = 0, m, j;
			for (i = 0; i < k; i++) W->cp[n++] = p[i % np];
			for (i = 0; i < depth_len; i++) W->cp[n++] = ab[d[i]];
			m = u < 3 ? (size_t)u : u == 3 ? (size_t)k - 1 : (size_t)k + 2;
			for (j = m; j > 0; j--) {
				cp_t c = p[(j - 1) % (size_t)np];
				W->cp[n++] = c >= 0x2066 ? 0x2069 : 0x202C;
			}
			W->cp[n++] = '1';
			W->cp[n++] = 0x5D0;
			W->cp[n++] = '!';
			W->cp[n++] = 'a';
			text(n);
			if (stopped()) return;
		}
		for (i = depth_len - 1; i >= 0; i--) {
			if (++d[i] < nab) break;
			d[i] = 0;
		}
		if (i < 0) break;
	}
}

/* ---- C19 */
static void
nbr_job(unsigned long job)
{
	/* openers^k (with finished pairs strewn in every `every` openers), inner text, closers^m, tail; in RTL and LTR surroundings */
	static const int kk[] = { 1, 2, 3, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 66, 70, 126, 127, 128, 130, 200 };
	static const cp_t inner[] = { 'a', 0x5D0, '1', '!', 0x661 };
	int k = kk[job % REF_LEN(kk)], mode = (int)(job / REF_LEN(kk)), i, m, x, y, every;
	size_t in;
	for (every = 0; every < 4; every++)
		for (in = 0; in < REF_LEN(inner); in++)
			for (m = 0; m < 6; m++)
				for (x = 0; x < 3; x++)
					for (y = 0; y < 3; y++) {
						size_t n = 0;
						int close = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 2 : m == 3 ? k - 1 : m == 4 ? k : k + 3;
						if (x) W->cp[n++] = x == 1 ? 'b' : 0x5D1;
						for (i = 0; i < k; i++) {
							cp_t o = mode == 0 ? '(' : mode == 1 ? '[' : mode == 2 ? (i & 1 ? '[' : '(') : mode == 3 ? (i & 1 ? '{' : 0x2329) : (i == 0 ? '(' : '[');
							W->cp[n++] = o;
							if (every == 1 || (every == 2 && i % 7 == 0)) { W->cp[n++] = '['; W->cp[n++] = inner[in]; W->cp[n++] = ']'; }
							if (every == 3) { W->cp[n++] = '{'; W->cp[n++] = '('; W->cp[n++] = 0x5D2; W->cp[n++] = '}'; W->cp[n++] = 0x300; }
						}
						W->cp[n++] = inner[in];
						for (i = 0; i < close; i++) {
							int j = k - 1 - i;
							W->cp[n++] = j < 0 ? ')' : mode == 0 ? ')' : mode == 1 ? ']' : mode == 2 ? (j & 1 ? ']' : ')') : mode == 3 ? (j & 1 ? '}' : 0x3009) : (j == 0 ? ')' : ']');
						}
						if (y) W->cp[n++] = y == 1 ? 'c' : 0x5D3;
						text(n);
						if (stopped()) return;
					}
}
static void
many_pairs_job(unsigned long job)
{
	/* a long flat sequence of pairs, and one wide pair around it */
	static const int kk[] = { 1, 2, 30, 31, 32, 33, 61, 62, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 400 };
	static const cp_t inner[] = { 'a', 0x5D0, '1', '!' };
	int k = kk[job], i, v;
	size_t a, b;
	for (v = 0; v < 8; v++)
		for (a = 0; a < 4; a++)
			for (b = 0; b < 4; b++) {
				size_t n = 0;
				W->cp[n++] = v & 1 ? 0x5D0 : 'x';
				if (v & 2) W->cp[n++] = '(';
				for (i = 0; i < k; i++) {
					W->cp[n++] = '[';
					W->cp[n++] = i & 1 ? inner[a] : inner[b];
					W->cp[n++] = ']';
					if (v & 4) W->cp[n++] = i & 1 ? '!' : 0x5D0;
				}
				if (v & 2) W->cp[n++] = ')';
				W->cp[n++] = v & 1 ? 'y' : 0x5D1;
				text(n);
				if (stopped()) return;
			}
}
static void
pairs_job(unsigned long job)
{
	/* every bracket against every bracket */
	size_t j, v;
	for (j = 0; j < REF_LEN(ref_brackets); j++)
		for (v = 0; v < 12; v++) {
			size_t n = 0;
			if (v & 1) W->cp[n++] = 0x5D0;
			W->cp[n++] = ref_brackets[job].cp;
			W->cp[n++] = v >= 8 ? 0x5D2 : 'a';
			if (v & 4) W->cp[n++] = '!';
			W->cp[n++] = ref_brackets[j].cp;
			if (v & 2) W->cp[n++] = 0x300;
			W->cp[n++] = 0x5D0;
			text(n);
			if (stopped()) return;
		}
}

/* x A ( B z C ) D y, one or two of the places A to D filled with k characters of a kind */
static const int bk_k[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025, 4097 };
static const cp_t bk_fill[] = { 0x300, 0xAD, '!', ',', '+', '$', '1', 0x661, 'a', 0x5D0, 0x627, 0x2067, 0x202E };
static void
bracket_far_job(unsigned long job)
{
	static const cp_t side[] = { 0, 'a', 0x5D0, 0x627, '1' }, in[] = { 'a', 0x5D0, '1', 0x661, 0, '!', '[' };
	static const int places[] = { 1, 2, 4, 8, 8 | 2, 1 | 8, 2 | 4 };
	int k = bk_k[job / REF_LEN(bk_fill)], i;
	cp_t f = bk_fill[job % REF_LEN(bk_fill)];
	size_t p, x, y, z;
	for (p = 0; p < REF_LEN(places); p++)
		for (x = 0; x < REF_LEN(side); x++)
			for (y = 0; y < REF_LEN(side); y++)
				for (z = 0; z < REF_LEN(in); z++) {
					size_t n = 0;
					if (k > 60 && (x * 5 + y * 3 + z + p) % (k > 2000 ? 40 : k > 500 ? 11 : k > 200 ? 5 : 2) && !g_thorough) continue;
					if (side[x]) W->cp[n++] = side[x];
					if (places[p] & 1) for (i = 0; i < k; i++) W->cp[n++] = f;
					W->cp[n++] = '(';
					if (places[p] & 2) for (i = 0; i < k; i++) W->cp[n++] = f;
					if (in[z] == '[') { W->cp[n++] = '['; W->cp[n++] = 0x5D1; W->cp[n++] = ']'; W->cp[n++] = 'b'; }
					else if (in[z]) W->cp[n++] = in[z];
					if (places[p] & 4) for (i = 0; i < k; i++) W->cp[n++] = f;
					W->cp[n++] = ')';
					if (places[p] & 8) for (i = 0; i < k; i++) W->cp[n++] = f;
					if (side[y]) W->cp[n++] = side[y];
					text(n);
					if (stopped()) return;
				}
}

static void
bracket_twin_job(unsigned long job)
{
	cp_t t[MAXTWIN];
	size_t i, j, m;
	int k, n;
	for (i = job * 4; i < job * 4 + 4 && i < REF_LEN(ref_brackets); i++) {
		n = twins(ref_brackets[i].cp, t);
		for (j = 0; j < REF_LEN(ref_brackets); j++)
			for (k = 0; k < n; k++) {
				/* R ( L t ... */
				m = 0;
				W->cp[m++] = 0x5D0; W->cp[m++] = ref_brackets[i].cp; W->cp[m++] = 'a'; W->cp[m++] = t[k]; W->cp[m++] = 0x5D0;
				W->cp[m++] = ref_brackets[j].cp; W->cp[m++] = 0x5D0;
				text(m);
				W->cp[1] = t[k]; W->cp[3] = ref_brackets[i].cp;
				text(m);
				if (stopped()) return;
			}
	}
}

/* ---- C23: sizes; every buffer ends or begins at an inaccessible page */
static uint8_t *pg_end[6]; /* end of an accessible area, followed by a PROT_NONE page */
static uint8_t *pg_beg[6];
#define PGLEN (1u << 20)
static void
guards(void)
{
	int i;
	for (i = 0; i < 6; i++) {
		uint8_t *m = mmap(NULL, PGLEN + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED || mprotect(m + 4096, PGLEN, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
		pg_beg[i] = m + 4096;
		pg_end[i] = m + 4096 + PGLEN;
	}
}
/* the buffer sizes to try where `need` entries are needed: all up to `top` if that is not much, otherwise those around
 * the limits of smaller integers and around need; then sizes that do not fit smaller integers (all of them are true lower
 * bounds of nothing: no more than need entries may be touched). SIZE_MAX ends the list. */
static bool few_sizes; /* one direction, one side only */
static size_t
size_at(size_t i, size_t need, size_t top)
{
	static const size_t small[] = { 0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 32769, 65534, 65535, 65536, 65537 };
	static const size_t big[] = { (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 62, ((size_t)1 << 62) + 1, (size_t)1 << 63 };
	if (top < 40) {
		if (i <= top) return i;
		i -= top + 1;
		return i < REF_LEN(big) ? big[i] : SIZE_MAX;
	}
	if (i < REF_LEN(small)) return small[i] <= top ? small[i] : need;
	i -= REF_LEN(small);
	if (i < 8) { size_t v = need - 5 + i; return v > top ? need : v; }
	i -= 8;
	return i < REF_LEN(big) ? big[i] : SIZE_MAX;
}
static void
sizes(size_t n)
{
	int k, side;
	size_t i, d, di;
	W->kind = 1;
	W->n = n;
	W->states++;
	classify(n);
	if (!pg_end[0]) guards();
	for (k = few_sizes ? 2 : 0; k < 3; k++)
		for (side = few_sizes ? (int)(n & 1) : 0; side < (few_sizes ? (int)(n & 1) + 1 : 2); side++) {
			size_t p = rb_paragraph(cls, n), r, m;
			enum grapheme_bidirectional_direction res;
			uint32_t *src = (uint32_t *)(side ? pg_beg[0] : pg_end[0] - n * 4);
			char sig[150];
			int P = ref_bidi(&rb, cls, brk_id, p, ov_ref(ovs[k]), want);
			memcpy(src, W->cp, n * 4);
			for (di = 0; (d = size_at(di, p, p + 1)) != SIZE_MAX; di++) {
				size_t dr = d > p + 1 ? p + 1 : d; /* how much of it is there */
				uint32_t *dst = (uint32_t *)(side ? pg_beg[1] : pg_end[1] - dr * 4);
				for (i = 0; i < dr; i++) dst[i] = POISON32;
				if (!side) dst[-1] = POISON32; else dst[dr] = POISON32;
				res = (enum grapheme_bidirectional_direction)77;
				r = grapheme_bidirectional_preprocess_paragraph(src, n, (enum grapheme_bidirectional_direction)ovs[k], dst, d, &res);
				W->trans++;
				if (r != p || (int)res != (P ? RTL : LTR)) { sig_text(sig, sizeof(sig), "size-preprocess", k, n); fail(sig, "preprocess_paragraph with room for %zu: returned %zu (paragraph %zu), direction %d", d, r, p, (int)res); return; }
				if ((!side ? dst[-1] : dst[dr]) != POISON32) { sig_text(sig, sizeof(sig), "stray-preprocess", k, n); fail(sig, "preprocess_paragraph with room for %zu wrote outside", d); return; }
				if (d > p && dst[p] != POISON32) { sig_text(sig, sizeof(sig), "beyond-preprocess", k, n); fail(sig, "preprocess_paragraph wrote behind the paragraph"); return; }
			}
			if (memcmp(src, W->cp, n * 4)) { sig_text(sig, sizeof(sig), "input", k, n); fail(sig, "input modified"); return; }
			{
				uint32_t *dat = (uint32_t *)(side ? pg_beg[1] : pg_end[1] - p * 4);
				uint32_t *lin = (uint32_t *)(side ? pg_beg[0] : pg_end[0] - p * 4);
				if (p) grapheme_bidirectional_preprocess_paragraph(src, n, (enum grapheme_bidirectional_direction)ovs[k], dat, p, NULL);
				memmove(lin, W->cp, p * 4);
				memcpy(data2, dat, p * 4);
				ref_l1(cls, want, p, P, l1);
				for (di = 0; (d = size_at(di, p, p + 1)) != SIZE_MAX; di++) {
					size_t dr = d > p + 1 ? p + 1 : d;
					int8_t *lev = (int8_t *)(side ? pg_beg[2] : pg_end[2] - dr);
					for (i = 0; i < dr; i++) lev[i] = POISON8;
					if (!side) lev[-1] = POISON8; else lev[dr] = POISON8;
					r = grapheme_bidirectional_get_line_embedding_levels(dat, p, d || k != 1 ? lev : NULL, d);
					W->trans++;
					if (r != p) { sig_text(sig, sizeof(sig), "size-levels", k, n); fail(sig, "get_line_embedding_levels with room for %zu: returned %zu, expected %zu", d, r, p); return; }
					for (i = 0; i < dr; i++) if (lev[i] != (i < p ? l1[i] : POISON8)) break;
					if (i < dr) { sig_text(sig, sizeof(sig), "partial-levels", k, n); fail(sig, "get_line_embedding_levels with room for %zu: entry %zu is %d, expected %d", d, i, lev[i], i < p ? l1[i] : POISON8); return; }
					if ((!side ? lev[-1] : lev[dr]) != POISON8) { sig_text(sig, sizeof(sig), "stray-levels", k, n); fail(sig, "get_line_embedding_levels with room for %zu wrote outside", d); return; }
				}
				m = ref_l2(l1, p, order);
				for (di = 0; (d = size_at(di, m, m + 2)) != SIZE_MAX; di++) {
					size_t dr = d > m + 2 ? m + 2 : d;
					uint32_t *out = (uint32_t *)(side ? pg_beg[3] : pg_end[3] - dr * 4);
					for (i = 0; i < dr; i++) out[i] = POISON32;
					if (!side) out[-1] = POISON32; else out[dr] = POISON32;
					r = grapheme_bidirectional_reorder_line(lin, dat, p, d || k != 1 ? out : NULL, d);
					W->trans++;
					if (r != m) { sig_text(sig, sizeof(sig), "size-reorder", k, n); fail(sig, "reorder_line with room for %zu: returned %zu, expected %zu", d, r, m); return; }
					if ((!side ? out[-1] : out[dr]) != POISON32) { sig_text(sig, sizeof(sig), "stray-reorder", k, n); fail(sig, "reorder_line with room for %zu wrote outside", d); return; }
					for (i = 0; i < dr && out[i] == 0xFFFD; i++) ;
					if (i == dr && d <= m) continue; /* too short or just as long as the line: nothing but the placeholder */
					if (d < m) { sig_text(sig, sizeof(sig), "short-reorder", k, n); fail(sig, "reorder_line with room for %zu of %zu: entry %zu is %04X", d, m, i, (unsigned)out[i]); return; }
					else {
						for (i = 0; i < m; i++) {
							cp_t c = W->cp[order[i]];
							if (out[i] != (c > 0x10FFFF ? 0xFFFD : c) && !(c < REF_N && out[i] == ref_mirror_tab[c])) break;
						}
						for (; i < dr; i++) if (i >= m && out[i] != POISON32) break; else if (i < m) break;
						if (i < dr) { sig_text(sig, sizeof(sig), "full-reorder", k, n); fail(sig, "reorder_line with room for %zu of %zu: entry %zu is %04X", d, m, i, (unsigned)out[i]); return; }
					}
				}
				if (memcmp(data2, dat, p * 4) || memcmp(lin, W->cp, p * 4)) { sig_text(sig, sizeof(sig), "input", k, n); fail(sig, "line processing modified its inputs"); return; }
			}
		}
	W->traces++;
}

static const size_t size_k[] = { 38, 100, 123, 124, 125, 126, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 510, 512, 32764, 32766, 32767, 32768, 65531, 65532, 65533, 65534, 65535, 65536, 65537 };
static void
long_sizes_job(unsigned long job)
{
	int r = (int)(job % (unsigned)nab), kx = (int)(job / (unsigned)nab), x, y;
	size_t i, n;
	for (x = -1; x < nab; x++)
		for (y = -1; y < nab; y++) {
			if (size_k[kx] > 600 && (x || y)) continue; /* between two R: others take the library quadratic time */
			if (size_k[kx] > 600 && ab[r] == 0x2066) continue;
			if (size_k[kx] > 100 && size_k[kx] < 600 && !g_thorough && (x + y + r) % 3) continue;
			few_sizes = size_k[kx] > 600;
			n = 0;
			if (x >= 0) W->cp[n++] = ab[x];
			for (i = 0; i < size_k[kx]; i++) W->cp[n++] = ab[r];
			if (y >= 0) { W->cp[n++] = ab[y]; W->cp[n++] = 0x5D0; }
			sizes(n);
			if (stopped()) return;
		}
}

/* ---- C21: long lines */
static void
long_lines_job(unsigned long job)
{
	/* x . r^k . y . r^k . z with breaks around every interesting offset */
	int r = (int)(job % (unsigned)nab), kx = (int)(job / (unsigned)nab), x, y, z, k;
	size_t i, n, q;
	for (x = 0; x < nab; x++)
		for (y = 0; y < nab; y++) {
			z = (x + y) % nab;
			n = 0;
			W->cp[n++] = ab[x];
			for (i = 0; i < ks[kx]; i++) W->cp[n++] = ab[r];
			W->cp[n++] = ab[y];
			for (i = 0; i < ks[kx]; i++) W->cp[n++] = ab[r];
			W->cp[n++] = ab[z];
			W->kind = 1; W->n = n; W->states++;
			classify(n);
			for (k = 0; k < 3; k++) {
				size_t p = rb_paragraph(cls, n), cut[8], nc = 0;
				int P;
				if (!check_levels(n, k)) return;
				P = ref_bidi(&rb, cls, brk_id, p, ov_ref(ovs[k]), want);
				cut[nc++] = 0; cut[nc++] = 1; cut[nc++] = p / 2; cut[nc++] = p / 2 + 1; cut[nc++] = p - 1; cut[nc++] = p;
				for (i = 0; i < nc; i++) for (q = i + 1; q < nc; q++)
					if (cut[i] < cut[q] && !check_line(n, k, P, cut[i], cut[q] - cut[i])) return;
			}
			if (stopped()) return;
		}
}

/* ---- C22 */
static void
mirror_text(size_t n)
{
	int k;
	W->kind = 1;
	W->n = n;
	W->states++;
	classify(n);
	for (k = 1; k < 3; k++) {
		size_t p = rb_paragraph(cls, n);
		int P;
		if (!check_levels(n, k)) return;
		P = ref_bidi(&rb, cls, brk_id, p, ov_ref(ovs[k]), want);
		if (!check_line(n, k, P, 0, p)) return;
	}
}
static void
long_mirror_job(unsigned long job)
{
	int r = (int)(job % (unsigned)nab), x, y, z;
	size_t k = ks[job / (unsigned)nab], i, n;
	for (x = 0; x < nab; x++)
		for (y = 0; y < nab; y++)
			for (z = 0; z < nab; z++) {
				n = 0;
				W->cp[n++] = ab[x];
				for (i = 0; i < k; i++) W->cp[n++] = ab[r];
				W->cp[n++] = ab[y];
				for (i = 0; i < k; i++) W->cp[n++] = ab[r];
				W->cp[n++] = ab[z];
				mirror_text(n);
				if (stopped()) return;
			}
}
static void
mirror_cps_job(unsigned long job)
{
	uint64_t c;
	for (c = (uint64_t)job << 8; c < (uint64_t)(job + 1) << 8 && !stopped(); c++) {
		static const cp_t ctx[][4] = { { 0, 0, 0, 0 }, { 'a', 0, 'b', 0 }, { 0x5D0, 0, 0x5D1, 0 }, { 0x202E, 0, 0x202C, 0 }, { 0x202D, 0, 0x202C, 0 }, { 0x2067, 0, 0x2069, 0 }, { 0x202E, 0, 0x202D, 'c' } };
		size_t v, n, j;
		for (v = 0; v < REF_LEN(ctx); v++) {
			n = 0;
			for (j = 0; j < 4; j++) {
				if (ctx[v][j]) W->cp[n++] = ctx[v][j];
				if (j == 1) W->cp[n++] = (cp_t)c;
				if (j == 3 && v == 6) W->cp[n++] = (cp_t)c;
			}
			mirror_text(n);
		}
	}
}

/* ---- C26 */
static void
line_text(size_t n)
{
	int k;
	W->kind = 1;
	W->n = n;
	W->states++;
	classify(n);
	for (k = 0; k < 3; k++) {
		size_t p = rb_paragraph(cls, n);
		int P;
		if (!check_levels(n, k)) return;
		P = ref_bidi(&rb, cls, brk_id, p, ov_ref(ovs[k]), want);
		if (!check_line(n, k, P, 0, p)) return;
	}
}
static void
around(cp_t c)
{
	int a, b;
	for (a = -1; a < nab; a++)
		for (b = -1; b < nab; b++) {
			size_t n = 0;
			if (a >= 0) W->cp[n++] = ab[a];
			W->cp[n++] = c;
			if (b >= 0) W->cp[n++] = ab[b];
			line_text(n);
			if (stopped()) return;
		}
}
static void oor_job(unsigned long job) { size_t k; for (k = job * 16; k < job * 16 + 16 && k < noor && !stopped(); k++) around(oor[k]); }
static void
unassigned_job(unsigned long job)
{
	cp_t c;
	for (c = (cp_t)job << 8; c < (cp_t)(job + 1) << 8 && !stopped(); c++)
		if (c >= 0x110000 || ref_cls(T_ASG, c) == ASG_U) {
			/* what tells the default classes apart: AL from R before numbers, ET and BN from the neutrals */
			static const cp_t ctx[][5] = { { 1, '1', '%' }, { 'a', 1, '1', '%' }, { 1, ' ', '1', '%', 0x5D0 }, { '1', 1, '1' }, { 0x5D0, 1, '!' }, { 'a', '1', 1, 0x5D0 }, { 1, 'a' }, { 0x661, 1, 0x661 }, { 0x2067, 1, 0x2069 } };
			size_t v, j, n;
			around(c);
			for (v = 0; v < REF_LEN(ctx); v++) {
				for (j = n = 0; j < 5 && ctx[v][j]; j++) W->cp[n++] = ctx[v][j] == 1 ? c : ctx[v][j];
				line_text(n);
			}
		}
}

static void
set_what(const char *s) { int i; for (i = 0; i < MAXWORKERS; i++) snprintf(S->w[i].what, sizeof(S->w[i].what), "%s", s); }
#define ALL3 "grapheme_bidirectional_preprocess_paragraph, _get_line_embedding_levels"

int
main(int argc, char **argv)
{
	int i, T;
	init(argc, argv);
	bidi_setup();
	T = g_thorough;
	set_what(ALL3);
	if (!strcmp(g_prop, "C17")) {
		ab_all(true);
		for (i = 0; i <= (T ? 5 : 4); i++) strings(i, paragraphs);
		note("all class strings over 23 classes up to length %d, 3 directions, paragraph after paragraph", T ? 5 : 4);
		ab_classes("L R AL EN B RLI FSI PDI");
		for (i = 5; i <= (T ? 8 : 6); i++) strings(i, paragraphs);
		note("all strings over {L,R,AL,EN,B,RLI,FSI,PDI} up to length %d", T ? 8 : 6);
		run_jobs(nest_job, 28 * 3);
		note("k nested isolates (k up to 32770, around 63, 125, 255), 7 numbers of PDI, strong characters in and behind, separators");
		ab_classes(T ? "R B PDI RLI" : "R B RLI");
		c_fn = paragraphs;
		run_jobs(cps_job, 0x1100);
		note("every code point between all pairs of {nothing,R,B,%sRLI}", T ? "PDI," : "");
		neighbours(paragraphs);
		ab_classes("R B WS RLI PDI EN FSI AN BN RLE");
		far_texts(measure);
		run_jobs(huge_par_job, (unsigned long)nab);
		note("paragraphs of 32768 to 65539 characters; srclen and destlen of 2^8 to SIZE_MAX-1 with the separator near the start");
		sample("EN B R: length 2, direction LTR; RLI L PDI R: direction RTL");
	} else if (!strcmp(g_prop, "C18")) {
		ab_all(false);
		for (i = 0; i <= (T ? 5 : 4); i++) strings(i, text);
		note("all class strings over 22 classes up to length %d, 3 directions", T ? 5 : 4);
		ab_classes("L R AL EN ES ET AN CS NSM ON");
		for (i = 5; i <= (T ? 8 : 7); i++) strings(i, text);
		note("weak and neutral cluster {L,R,AL,EN,ES,ET,AN,CS,NSM,ON} up to length %d", T ? 8 : 7);
		ab_classes("L R EN RLE LRO RLO PDF NSM");
		for (i = 5; i <= (T ? 9 : 7); i++) strings(i, text);
		note("embedding cluster {L,R,EN,RLE,LRO,RLO,PDF,NSM} up to length %d", T ? 9 : 7);
		ab_classes("L R EN LRI RLI FSI PDI ON");
		for (i = 5; i <= (T ? 9 : 7); i++) strings(i, text);
		note("isolate cluster {L,R,EN,LRI,RLI,FSI,PDI,ON} up to length %d", T ? 9 : 7);
		ab_classes("R NSM RLO LRI PDI PDF RLE BN EN");
		for (i = 5; i <= (T ? 8 : 6); i++) strings(i, text);
		note("overridden isolates {R,NSM,RLO,LRI,PDI,PDF,RLE,BN,EN} up to length %d", T ? 8 : 6);
		ab_classes("L R EN ET LRI PDI LRO PDF B");
		for (i = 4; i <= (T ? 8 : 6); i++) strings(i, text);
		note("mixed {L,R,EN,ET,LRI,PDI,LRO,PDF,B} up to length %d", T ? 8 : 6);
		s_pre[0] = rep[BC_LRE]; s_npre = 1;
		tok_set("PDF LRO|PDF LRE|RLI|PDI|R|L|EN|(|)");
		for (i = 1; i <= (T ? 8 : 6); i++) tokens(i, text);
		s_npre = 0;
		note("LRE followed by every string over {PDF LRO, PDF LRE, RLI, PDI, R, L, EN, (, )} up to length %d", T ? 8 : 6);
		ab_classes(T ? "L R AL EN ET AN CS NSM ON LRI RLI PDI RLE RLO PDF BN WS S B" : "L R EN ET CS NSM RLI PDI RLO BN");
		run_jobs(pump_job, (unsigned long)nab * (T ? REF_LEN(ks) : REF_LEN(ks) - 6));
		note("pumped: x r^k y z with k up to %zu", T ? ks[REF_LEN(ks) - 1] : ks[REF_LEN(ks) - 7]);
		ab_classes(T ? "L R AL EN ET AN NSM ON" : "R EN AN ET NSM");
		c_fn = text;
		run_jobs(cps_job, 0x1100);
		note("every code point between all pairs of {nothing,%s}", T ? "L,R,AL,EN,ET,AN,NSM,ON" : "R,EN,AN,ET,NSM");
		for (pre_len = 0; pre_len <= (T ? 5 : 3); pre_len++) run_jobs(pump2_job, REF_LEN(cycles) * (pre_len > 3 ? 4 : REF_LEN(k2)));
		note("pumped: every string over {%s} up to length %d, k characters of a cycle (%zu cycles, k up to %zu), every string over {%s} of length 1 and 2", pump_pre, T ? 5 : 3, REF_LEN(cycles), k2[REF_LEN(k2) - 1], pump_post);
		run_jobs(fsi_job, 15 * REF_LEN(fsi_k));
		note("FSI, k times one of 15 patterns (k up to 65537), a strong character or none, as many PDI, one more or less, a strong character or none");
		neighbours(text);
		ab_classes(T ? "L R AL ET ON NSM BN PDI RLE PDF EN" : "R ET ON BN PDI EN");
		far_texts(text);
		note("x, k characters of 13 cycles, y z: k up to 65537, x, y, z from {%s}", T ? "L,R,AL,EN,ET,ON,NSM,BN,PDI,RLE,PDF" : "R,EN,ET,ON,BN,PDI");
		sample("LTR: R EN CS EN ON R -> 1 2 2 2 1 1; auto: AL EN ET -> 1 2 1");
	} else if (!strcmp(g_prop, "C19")) {
		nab = 0;
		ab[nab++] = 'a'; ab[nab++] = 0x5D0; ab[nab++] = '1'; ab[nab++] = '('; ab[nab++] = ')'; ab[nab++] = '['; ab[nab++] = ']'; ab[nab++] = 0x300;
		for (i = 0; i <= (T ? 9 : 7); i++) strings(i, text);
		note("all strings over {L,R,EN,(,),[,],NSM} up to length %d", T ? 9 : 7);
		ab[nab++] = 0x627; ab[nab++] = 0x661; ab[nab++] = '!'; ab[nab++] = 0x2329; ab[nab++] = 0x3009; ab[nab++] = 0x2067; ab[nab++] = 0x2069; ab[nab++] = 0xAD; ab[nab++] = 0x202E; ab[nab++] = 0x202C;
		for (i = 0; i <= (T ? 6 : 5); i++) strings(i, text);
		note("all strings over these and {AL,AN,ON,U+2329,U+3009,RLI,PDI,BN,RLO,PDF} up to length %d", T ? 6 : 5);
		run_jobs(pairs_job, REF_LEN(ref_brackets));
		note("each of the %zu brackets against each, 12 surroundings", REF_LEN(ref_brackets));
		run_jobs(nbr_job, 20 * 5);
		run_jobs(many_pairs_job, 20);
		note("1 to 200 open brackets (all around the limit of 63) with finished pairs between them, 6 numbers of closers; up to 400 pairs in a row");
		ab[0] = 'a'; ab[1] = 0x5D0; ab[2] = '('; ab[3] = ')'; ab[4] = 0x300; nab = T ? 5 : 4;
		c_fn = text;
		run_jobs(cps_job, 0x1100);
		note("every code point between all pairs of {nothing,L,R,(,)%s}", T ? ",NSM" : "");
		nab = 0;
		ab[nab++] = '('; ab[nab++] = 'a'; ab[nab++] = 0x5D0; ab[nab++] = ')'; ab[nab++] = '!'; ab[nab++] = ']';
		far_texts(text);
		n_fn = text;
		run_jobs(bracket_far_job, REF_LEN(bk_k) * REF_LEN(bk_fill));
		note("x A ( B y C ) D z with 1 to 4097 characters of 13 kinds (marks, BN, neutrals, separators, digits, strong, initiators) in one or two of the places A to D");
		run_jobs(bracket_twin_job, (REF_LEN(ref_brackets) + 3) / 4);
		note("x, k characters of 13 cycles, y z: k up to 65537, x, y, z from {(,L,R,),ON,]}; every bracket with every code point that shares its low 8, 12 or 16 bits or differs in one bit, and with all between them");
		sample("RTL: ( R EN ) L; auto: R ( L [ R ] ) L");
	} else if (!strcmp(g_prop, "C20")) {
		ab_classes("L R EN PDF PDI RLE LRO RLI LRI ON");
		for (depth_len = 0; depth_len <= (T ? 3 : 2); depth_len++) run_jobs(depth_job, REF_LEN(patterns) * 17);
		note("15 patterns of 58..65 and 120..128 initiators x all strings over {L,R,EN,PDF,PDI,RLE,LRO,RLI,LRI,ON} up to length %d x 5 amounts of unwinding", T ? 3 : 2);
		ab_classes("PDF PDI RLE LRI");
		for (depth_len = 3; depth_len <= (T ? 6 : 4); depth_len++) run_jobs(depth_job, REF_LEN(patterns) * 17);
		note("the same with all strings over {PDF,PDI,RLE,LRI} of length 3 to %d", T ? 6 : 4);
		run_jobs(overflow_job, 6 * 7 * REF_LEN(many));
		note("126 initiators, then 1..%d more that overflow (around 128, 256%s), 7 numbers of closers in 4 arrangements", T ? 65537 : 257, T ? ", 512, 65536" : "");
		sample("LRE^62 RLI EN PDI PDF^62 R");
	} else if (!strcmp(g_prop, "C21")) {
		set_what("grapheme_bidirectional_get_line_embedding_levels, grapheme_bidirectional_reorder_line");
		ab_all(true);
		for (i = 1; i <= (T ? 5 : 4); i++) strings(i, slices);
		note("all class strings over 23 classes up to length %d, 3 directions, every slice as a line", T ? 5 : 4);
		ab_classes("L R EN WS S BN RLI PDI");
		for (i = 5; i <= (T ? 7 : 6); i++) strings(i, slices);
		note("all strings over {L,R,EN,WS,S,BN,RLI,PDI} up to length %d, every slice", T ? 7 : 6);
		ab_classes("L R EN AN WS RLE LRI PDI PDF B");
		for (i = 5; i <= (T ? 7 : 5); i++) strings(i, slices);
		note("all strings over {L,R,EN,AN,WS,RLE,LRI,PDI,PDF,B} up to length %d, every slice", T ? 7 : 5);
		/* grapheme clusters and zero-width characters must not matter for the order */
		nab = 0;
		ab[nab++] = 'a'; ab[nab++] = 0x5D0; ab[nab++] = 0x300; ab[nab++] = 0x200D; ab[nab++] = 0x1F1E6; ab[nab++] = 0x1100; ab[nab++] = 0x600; ab[nab++] = '\r'; ab[nab++] = ' ';
		for (i = 1; i <= (T ? 6 : 5); i++) strings(i, slices);
		note("all strings over 9 characters with different cluster behaviour up to length %d, every slice", T ? 6 : 5);
		ab_classes("L R EN WS RLI PDI BN S");
		run_jobs(long_lines_job, (unsigned long)nab * (T ? REF_LEN(ks) : REF_LEN(ks) - 2));
		note("pumped lines x r^k y r^k z with breaks at the ends and in the middle");
		ab_classes("R WS BN L PDI EN");
		far_texts(line_text);
		note("lines of 32768 to 65539 characters");
		sample("LTR: R WS | L: line 0..2 has levels 1 0, order R WS");
	} else if (!strcmp(g_prop, "C22")) {
		set_what("grapheme_bidirectional_reorder_line");
		run_jobs(mirror_cps_job, 0x1100);
		note("every code point in 7 contexts giving even and odd levels, 2 directions");
		nab = 0;
		ab[nab++] = 'a'; ab[nab++] = 0x5D0; ab[nab++] = '('; ab[nab++] = ')'; ab[nab++] = '<'; ab[nab++] = 0xAB; ab[nab++] = '1'; ab[nab++] = 0x221A; ab[nab++] = 0x202E; ab[nab++] = 0x202C;
		for (i = 1; i <= (T ? 7 : 6); i++) strings(i, mirror_text);
		note("all strings over 10 characters (letters, brackets, mirrored and unmirrored symbols, override) up to length %d", T ? 7 : 6);
		neighbours(mirror_text);
		nab = 0;
		ab[nab++] = '('; ab[nab++] = 0x5D0; ab[nab++] = '<'; ab[nab++] = ' '; ab[nab++] = '1';
		far_texts(mirror_text);
		run_jobs(long_mirror_job, (unsigned long)nab * (REF_LEN(ks) - (T ? 1 : 2)));
		note("x r^k y r^k z with k up to %d, lines of 32768 to 65539 characters over {(,R,EN,<,WS}", T ? 1000 : 257);
		if (*even_mirrored) fail("mirrored-at-even-level", "characters with a mirror glyph are replaced by it at even levels, too (UAX #9 rule L4 asks for odd levels)");
		sample("RTL: R ( R -> mirrored ) at level 1");
	} else if (!strcmp(g_prop, "C26")) {
		static cp_t like[BC_NUM * MAXREP + 512];
		size_t nlike = 0, j;
		struct alphabet *A = malloc(sizeof(*A));
		set_what("grapheme_bidirectional_*");
		alphabet_build(A, T_BC, BC_NUM);
		for (i = 0; i < A->n; i++) for (j = 0; j < (size_t)A->nrep[i]; j++) like[nlike++] = A->rep[i][j];
		for (j = 0; j < REF_LEN(ref_brackets); j++) like[nlike++] = ref_brackets[j].cp;
		like[nlike++] = '<'; like[nlike++] = 0xAB; like[nlike++] = 0x2208;
		oor_build(like, nlike);
		ab_all(true);
		run_jobs(oor_job, (noor + 15) / 16);
		ab_classes("R EN AN NSM");
		ab[nab++] = '(';
		run_jobs(unassigned_job, T ? 0x2000 : 0x1200);
		note("bidirectional functions: %zu values beyond Unicode between all pairs of 23 classes; every unassigned code point and 110000..%s between all pairs of {nothing,R,EN,AN,NSM,(}; levels, order and output", noor, T ? "1FFFFF" : "11FFFF");
		sample("RTL: 05D0 FFFFFFFF -> levels 1 2, shown as FFFD 05D0");
	} else {
		set_what("grapheme_bidirectional_* with every buffer size");
		ab_all(true);
		for (i = 0; i <= (T ? 5 : 4); i++) strings(i, sizes);
		note("all class strings over 23 classes up to length %d, 3 directions, every size of every output from 0 to beyond the need, buffers against inaccessible pages on both sides", T ? 5 : 4);
		ab_classes("L R WS LRI PDI EN BN B");
		for (i = 5; i <= (T ? 8 : 6); i++) strings(i, sizes);
		note("all strings over {L,R,WS,LRI,PDI,EN,BN,B} up to length %d", T ? 8 : 6);
		nab = 0;
		ab[nab++] = '('; ab[nab++] = ')'; ab[nab++] = 0x5D0; ab[nab++] = 0x110000; ab[nab++] = 0xFFFFFFFF; ab[nab++] = 0;
		for (i = 1; i <= 4; i++) strings(i, sizes);
		note("brackets, NUL and out-of-range values up to length 4");
		ab_classes("R WS L LRI BN");
		run_jobs(long_sizes_job, (unsigned long)nab * REF_LEN(size_k));
		note("paragraphs of 38 to 65539 characters with the sizes around 2^7, 2^8, 2^9, 2^15, 2^16, around what is needed, and 2^31 to 2^63");
		sample("RTL: L WS with room for 1 level: 2 returned, one level (2) written");
	}
	return finish(argv[3]);
}
