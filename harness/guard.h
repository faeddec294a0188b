/* buffers that end or begin at an inaccessible page */
#ifndef GUARD_H
#define GUARD_H
#include "common.h"
struct guard { uint8_t *beg, *end; };
static struct guard
guard_new(size_t size)
{
	struct guard g;
	uint8_t *m;
	size = (size + 4095) & ~(size_t)4095;
	m = mmap(NULL, size + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED || mprotect(m + 4096, size, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
	g.beg = m + 4096;
	g.end = g.beg + size;
	return g;
}
#endif
