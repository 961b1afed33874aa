#include <stdio.h>
#include <stdlib.h>
#include "jitterentropy-base.c"
static struct { void *p; size_t n; } a[256];
static unsigned int bad, deny;
void *jent_zalloc(size_t len, unsigned int flags)
{
	int i;
	(void)flags;
	if (deny && !--deny) return NULL;
	for (i = 0; i < 256; i++)
		if (!a[i].p) { a[i].n = len; return a[i].p = calloc(1, len); }
	abort();
}
void jent_zfree(void *p, size_t len)
{
	int i;
	if (!p) return;
	for (i = 0; i < 256 && a[i].p != p; i++) ;
	if (i == 256) abort();
	if (a[i].n != len) { bad++; printf("allocated %zu, released as %zu\n", a[i].n, len); }
	a[i].p = NULL;
	free(p);
}
int main(void)
{
	unsigned int i, k;
	for (k = 0; k < 6; k++)
		for (i = 0; i < 8; i++) {
			struct rand_data *ec;
			deny = 0;
			if (jent_entropy_init_ex(0, JENT_DISABLE_INTERNAL_TIMER)) return 2;
			deny = k;
			ec = jent_entropy_collector_alloc(0, JENT_DISABLE_INTERNAL_TIMER | (i << JENT_FLAGS_TO_MEMSIZE_SHIFT));
			deny = 0;
			if (ec) jent_entropy_collector_free(ec);
		}
	return bad != 0;
}
