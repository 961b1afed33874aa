#include <stdio.h>
#include "jitterentropy-base.c"
int main(void)
{
	char b[32];
	struct rand_data *ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS), *old = ec;
	ssize_t r;
	if (!ec) { puts("no collector"); return 2; }
	ec->health_failure = JENT_RCT_MEM_FAILURE_PERMANENT;
	r = jent_read_entropy_safe(&ec, b, sizeof(b));
	printf("%zd (want -10), handle %s\n", r, ec == old ? "kept" : "changed");
	return r != JENT_ERR_RCT_MEM_PERMANENT || ec != old;
}
