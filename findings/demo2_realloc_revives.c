/* A bound self-test failure must survive the reallocation done by
 * jent_read_entropy_safe.  Self test is made to fail by fault injection at the
 * KAT boundary; the health failure is injected by the collecting instance.   */
#include <stdio.h>
#include <string.h>
static int fail_kat;
#define jent_sha3_tester real_sha3_tester
#include "jitterentropy-sha3.c"
#undef jent_sha3_tester
int jent_sha3_tester(void) { return fail_kat ? 1 : real_sha3_tester(); }
#include "jitterentropy-base.c"
static struct rand_data *ec;
static void cb(struct rand_data *e, unsigned int failure)
{ (void)failure; if (e == ec) { fail_kat = 1; jent_selftest(e); fail_kat = 0; } }
int main(void)
{
	char buf[32]; ssize_t r;
	jent_set_fips_failure_callback(cb);
	ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS);
	if (!ec) { puts("SKIP alloc"); return 0; }
	ec->health_failure |= JENT_RCT_FAILURE;		/* intermittent failure */
	r = jent_read_entropy_safe(&ec, buf, sizeof buf);
	printf("read after bound self test failure: %zd (want -11)\n", r);
	return r != -11;
}
