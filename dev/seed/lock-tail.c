#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include "jitterentropy-arch-memory.c"
static uintptr_t lo, hi;
int mlock(const void *p, size_t n) { lo = (uintptr_t)p; hi = lo + n; return 0; }
int main(void)
{
	static const size_t t[] = { 1, 100, 4096, 5000, 65536, 70000 };
	unsigned int i, bad = 0;
	for (i = 0; i < sizeof(t) / sizeof(t[0]); i++) {
		char *p;
		lo = hi = 0;
		p = jent_zalloc(t[i], JENT_FORCE_SECURE_MEM);
		if (!p) { puts("no memory"); return 2; }
		if ((uintptr_t)p < lo || (uintptr_t)p + t[i] > hi) { bad = 1; printf("%zu bytes: not locked to the end\n", t[i]); }
		jent_zfree(p, t[i]);
	}
	return bad;
}
