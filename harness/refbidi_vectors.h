/* BidiTest.txt and BidiCharacterTest.txt readers: levels and visual order of the reference */
static const char *const bidi_name[BC_NUM] = { "L","R","AL","EN","ES","ET","AN","CS","NSM","BN","B","S","WS","ON","LRE","LRO","RLE","RLO","PDF","LRI","RLI","FSI","PDI" };

static void
bidi_one(struct rb *b, const uint8_t *cls, const int32_t *br, size_t n, int ov, int wantp, const int *wl, const int *wo, size_t nwo, const char *line)
{
	static int8_t lev[4096], out[4096];
	static size_t order[4096];
	size_t i, m, p;
	int P;
	/* every vector is laid out as one line even where it holds a paragraph separator at its end */
	p = rb_paragraph(cls, n);
	if (p != n) { fprintf(stderr, "vector with several paragraphs: %s", line); exit(3); }
	P = ref_bidi(b, cls, br, n, ov, lev);
	ref_l1(cls, lev, n, P, out);
	if (wantp >= 0 && P != wantp) goto bad;
	for (i = 0; i < n; i++) if (out[i] != wl[i]) goto bad;
	m = ref_l2(out, n, order);
	if (m != nwo) goto bad;
	for (i = 0; i < m; i++) if ((int)order[i] != wo[i]) goto bad;
	return;
bad:
	fprintf(stderr, "oracle disagrees with official bidi vector (direction %d): %s\n", ov, line);
	exit(3);
}

static size_t
ints(const char *p, int *o)
{
	size_t n = 0;
	for (;;) {
		while (*p == ' ' || *p == '\t') p++;
		if (*p == 'x') { o[n++] = -1; p++; }
		else if (*p >= '0' && *p <= '9') o[n++] = (int)strtol(p, (char **)&p, 10);
		else return n;
	}
}

static size_t
bidi_vectors(FILE *f)
{
	static char line[65536];
	static int wl[4096], wo[4096];
	static uint8_t cls[4096];
	size_t nl = 0, no = 0, cnt = 0, skipped = 0;
	struct rb b;
	rb_init(&b, 4096);
	while (fgets(line, sizeof(line), f)) {
		char *p = line;
		size_t n = 0;
		int bits;
		if (line[0] == '#' || line[0] == '\n') continue;
		if (!strncmp(line, "@Levels:", 8)) { nl = ints(line + 8, wl); continue; }
		if (!strncmp(line, "@Reorder:", 9)) { no = ints(line + 9, wo); continue; }
		if (line[0] == '@') continue;
		for (;;) {
			char nm[8];
			int k, l = 0;
			while (*p == ' ' || *p == '\t') p++;
			if (*p == ';') break;
			while (*p >= 'A' && *p <= 'Z') nm[l++] = *p++;
			nm[l] = 0;
			for (k = 0; k < BC_NUM && strcmp(nm, bidi_name[k]); k++) ;
			if (k == BC_NUM) exit(3);
			cls[n++] = (uint8_t)k;
		}
		bits = (int)strtol(p + 1, NULL, 16);
		if (n != nl) exit(3);
		if (rb_paragraph(cls, n) != n) { skipped++; continue; } /* text behind a separator: P1 is out of the file's scope */
		if (bits & 1) { bidi_one(&b, cls, NULL, n, -1, -1, wl, wo, no, line); cnt++; }
		if (bits & 2) { bidi_one(&b, cls, NULL, n, 0, 0, wl, wo, no, line); cnt++; }
		if (bits & 4) { bidi_one(&b, cls, NULL, n, 1, 1, wl, wo, no, line); cnt++; }
	}
	fprintf(stderr, "");
	(void)skipped;
	return cnt;
}

static size_t
bidichar_vectors(FILE *f)
{
	static char line[65536];
	static int wl[4096], wo[4096];
	static uint8_t cls[4096];
	static int32_t br[4096];
	size_t cnt = 0;
	struct rb b;
	rb_init(&b, 4096);
	while (fgets(line, sizeof(line), f)) {
		char *p = line;
		size_t n = 0, no;
		int dir, par;
		if (line[0] == '#' || line[0] == '\n') continue;
		while (*p != ';') {
			cp_t c = (cp_t)strtoul(p, &p, 16);
			cls[n] = ref_cls(T_BC, c);
			br[n++] = ref_bracket(c);
			while (*p == ' ') p++;
		}
		dir = (int)strtol(p + 1, &p, 10);
		par = (int)strtol(p + 1, &p, 10);
		if (ints(p + 1, wl) != n) exit(3);
		p = strchr(p + 1, ';');
		no = ints(p + 1, wo);
		bidi_one(&b, cls, br, n, dir == 2 ? -1 : dir, par, wl, wo, no, line);
		cnt++;
	}
	return cnt;
}
