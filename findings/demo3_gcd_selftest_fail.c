/* init fails in the GCD self test -> a following allocation must repeat the tests */
#include <stdio.h>
static int fail_gcd, timer_tests;
#define jent_gcd_selftest real_gcd_selftest
#define jent_gcd_init real_gcd_init
#include "jitterentropy-gcd.c"
#undef jent_gcd_selftest
#undef jent_gcd_init
int jent_gcd_selftest(unsigned int flags){ return fail_gcd ? EGCD : real_gcd_selftest(flags); }
uint64_t *jent_gcd_init(size_t n, unsigned int flags){ timer_tests++; return real_gcd_init(n, flags); }
#include "jitterentropy-base.c"
int main(void)
{
	fail_gcd = 1;
	int r = jent_entropy_init();
	struct rand_data *ec = jent_entropy_collector_alloc(0, 0);
	printf("init=%d alloc=%p (want NULL)\n", r, (void *)ec);
	return ec != NULL;
}
