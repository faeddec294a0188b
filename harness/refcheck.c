/* validates the reference models against the official Unicode test vectors (no library involved) */
#include "common.h"
#include "../ref/ref_bidi.h"

static size_t
seg_vectors(int seg, FILE *f)
{
	char line[8192];
	size_t n, cnt = 0, i;
	static cp_t cp[1024];
	static uint8_t cls[1024];
	static bool want[1025], got[1025];
	struct atoms at;
	atoms_init(&at, 1024);
	while (fgets(line, sizeof(line), f)) {
		char *p = line;
		if (line[0] == '#' || line[0] == '\n') continue;
		n = 0;
		want[0] = true;
		for (;;) {
			while (*p == ' ' || *p == '\t') p++;
			if (*p == '#' || *p == '\n' || *p == 0) break;
			if ((unsigned char)p[0] == 0xC3 && ((unsigned char)p[1] == 0xB7 || (unsigned char)p[1] == 0x97)) {
				want[n] = (unsigned char)p[1] == 0xB7;
				p += 2;
			} else cp[n++] = (cp_t)strtoul(p, &p, 16);
		}
		for (i = 0; i < n; i++) cls[i] = ref_cls(seg_table[seg], cp[i]);
		ref_segment(seg, cls, n, got, &at);
		for (i = 1; i < n; i++)
			if (got[i] != want[i]) {
				fprintf(stderr, "oracle disagrees with official vector (%s, boundary %zu): %s", seg_names[seg], i, line);
				exit(3);
			}
		cnt++;
	}
	return cnt;
}

#include "refbidi_vectors.h"

int
main(int argc, char **argv)
{
	/* refcheck KIND < vectors */
	ref_init();
	ref_bidi_init();
	if (argc < 2) return 3;
	if (!strcmp(argv[1], "char")) printf("%zu\n", seg_vectors(SEG_CHAR, stdin));
	else if (!strcmp(argv[1], "word")) printf("%zu\n", seg_vectors(SEG_WORD, stdin));
	else if (!strcmp(argv[1], "sent")) printf("%zu\n", seg_vectors(SEG_SENT, stdin));
	else if (!strcmp(argv[1], "line")) printf("%zu\n", seg_vectors(SEG_LINE, stdin));
	else if (!strcmp(argv[1], "bidi")) printf("%zu\n", bidi_vectors(stdin));
	else if (!strcmp(argv[1], "bidichar")) printf("%zu\n", bidichar_vectors(stdin));
	else return 3;
	return 0;
}
