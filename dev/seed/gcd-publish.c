/* a reader that runs right after every atomic store, as another thread may */
#include <stdio.h>
#include "jitterentropy-gcd.c"
static int bad, on;
void jent_atomic_store_int(int *p, int v)
{
	uint64_t g = 0;
	__atomic_store_n(p, v, __ATOMIC_RELEASE);
	if (on) {
		on = 0;
		if (!jent_gcd_get(&g) && !g)
			bad = 1;
		on = 1;
	}
}
int main(void)
{
	uint64_t *h = jent_gcd_init(1024, 0), g = 0;
	size_t i;
	int r;
	if (!h) return 2;
	for (i = 0; i < 1024; i++)
		jent_gcd_add_value(h, 1000 + 7 * (i * i % 977), i);
	on = 1;
	r = jent_gcd_analyze(h, 1024, 1);
	on = 0;
	printf("analyze %d, get %d, divisor %llu, reader given zero: %d\n", r, jent_gcd_get(&g), (unsigned long long)g, bad);
	return bad;
}
