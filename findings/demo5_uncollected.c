/* An instance whose start-up fails a health test is replaced.  When the
 * system-wide FIPS indicator is not readable any more at that point (no file
 * descriptors left, provider switched), the replacement was handed out without
 * having collected any noise. */
#include <stdio.h>
#include "jitterentropy-base.c"
#define jent_random_data real_random_data
#include "jitterentropy-noise.c"
#undef jent_random_data
static int n_fips, n_coll, arm;
int jent_fips_enabled(void) { return !arm || n_fips++ < 1; }
static struct rand_data *last;
void jent_random_data(struct rand_data *ec)
{
	real_random_data(ec);
	last = ec;
	if (arm && !n_coll++)
		ec->health_failure |= JENT_RCT_FAILURE;
}
int main(void)
{
	struct rand_data *ec;
	if (jent_entropy_init_ex(0, 0)) { puts("SKIP init"); return 0; }
	arm = 1;
	ec = jent_entropy_collector_alloc(0, 0);
	if (!ec) { puts("no collector"); return 0; }
	if (!ec->is_fips_enabled) { puts("health tests not enforced any more"); return 1; }
	printf("collections %d, instance collected: %d\n", n_coll, last == ec && n_coll > 1);
	return !(last == ec && n_coll > 1);
}
