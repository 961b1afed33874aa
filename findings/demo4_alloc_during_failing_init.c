/* allocation from the FIPS failure callback of a failing timer test */
#include <stdio.h>
#include "jitterentropy-base.c"
static int depth, got;
static void cb(struct rand_data *e, unsigned int f)
{
	(void)e; (void)f;
	if (depth++) return;
	struct rand_data *n = jent_entropy_collector_alloc(0, JENT_DISABLE_INTERNAL_TIMER);
	got = n != NULL;
	jent_entropy_collector_free(n);
}
/* a timer with a periodic pattern: caught by the lag predictor only */
static uint64_t t; static unsigned int n;
void jent_get_nstime(uint64_t *out)
{ static const int d[5] = {100, 135, 197, 111, 260}; *out = t += d[n++ % 5]; }
int main(void)
{
	jent_set_fips_failure_callback(cb);
	int r = jent_entropy_init_ex(0, JENT_DISABLE_INTERNAL_TIMER);
	printf("init=%d, collector handed out while failing: %d (want 0)\n", r, got);
	return got;
}
