#include <stdio.h>
#include "jitterentropy-base.c"
int main(void)
{
	static const struct { unsigned int m; int e; } t[] = {
		{ JENT_LAG_FAILURE_PERMANENT, JENT_ERR_LAG_PERMANENT },
		{ JENT_LAG_FAILURE_PERMANENT | JENT_RCT_FAILURE, JENT_ERR_LAG_PERMANENT },
		{ JENT_LAG_FAILURE_PERMANENT | JENT_LAG_FAILURE, JENT_ERR_LAG_PERMANENT },
		{ JENT_RCT_MEM_FAILURE_PERMANENT | JENT_APT_FAILURE, JENT_ERR_RCT_MEM_PERMANENT },
	};
	unsigned int i, bad = 0;
	char b[32];
	for (i = 0; i < sizeof(t) / sizeof(t[0]); i++) {
		struct rand_data *ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS);
		ssize_t r;
		if (!ec) { puts("no collector"); return 2; }
		ec->health_failure = t[i].m;
		r = jent_read_entropy(ec, b, sizeof(b));
		printf("failures %x: %zd, want %d\n", t[i].m, r, t[i].e);
		bad |= r != t[i].e;
		jent_entropy_collector_free(ec);
	}
	return bad;
}
