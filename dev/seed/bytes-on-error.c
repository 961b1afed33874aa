#include <stdio.h>
#include "jitterentropy-base.c"
static unsigned int calls;
/* the noise collection of the third block fails */
void jent_random_data(struct rand_data *ec)
{
	ec->startup_state = jent_startup_completed;
	if (++calls == 6)
		ec->health_failure |= JENT_RCT_FAILURE;
}
int main(void)
{
	char b[128];
	struct rand_data *ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS);
	ssize_t r, r2;
	if (!ec) { puts("no collector"); return 2; }
	calls = 0;
	r = jent_read_entropy(ec, b, 96);
	r2 = jent_read_entropy(ec, b, 128);
	printf("reads %zd %zd, accounted: %llu reads, %llu bytes (want 1 and 96)\n", r, r2,
	       (unsigned long long)ec->read_invocations, (unsigned long long)ec->bytes_output);
	return !(r == 96 && r2 == -2 && ec->read_invocations == 1 && ec->bytes_output == 96);
}
