#include <stdio.h>
#include "jitterentropy-base.c"
static unsigned int seen;
static void cb(struct rand_data *ec, unsigned int f) { (void)ec; seen |= f; }
int main(void)
{
	char b[32];
	struct rand_data *ec;
	ssize_t r1, r2;
	jent_set_fips_failure_callback(cb);
	ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS);
	if (!ec) { puts("no collector"); return 2; }
	jent_read_entropy(ec, b, sizeof(b));
	ec->health_failure = JENT_LAG_FAILURE;
	r1 = jent_read_entropy(ec, b, sizeof(b));
	r2 = jent_read_entropy(ec, b, sizeof(b));
	printf("reads %zd %zd, callback saw %x\n", r1, r2, seen);
	return !(r1 < 0 && r2 < 0);
}
