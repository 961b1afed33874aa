#include <stdio.h>
#include "jitterentropy-base.c"
static unsigned int tests;
static int st(void) { tests++; return 0; }
int jent_sha3_tester(void) { return st(); }
int main(void)
{
	struct rand_data *ec;
	int a = jent_entropy_init_ex(0, JENT_DISABLE_INTERNAL_TIMER), b;
	b = jent_entropy_init_ex(0, JENT_NTG1 | JENT_FORCE_INTERNAL_TIMER);
	tests = 0;
	ec = jent_entropy_collector_alloc(0, JENT_DISABLE_INTERNAL_TIMER);
	printf("init %d, second init %d, self tests made for the instance: %u\n", a, b, tests);
	if (a || !b || !ec) return 2;
	return tests == 0;
}
