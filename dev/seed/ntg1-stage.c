#include <stdio.h>
#include "jitterentropy-base.c"
int main(void)
{
	char b[64];
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_NTG1 | JENT_MAX_MEMSIZE_32kB);
	struct rand_data ref;
	ssize_t r;
	if (!ec) { puts("no collector"); return 2; }
	r = jent_read_entropy(ec, b, sizeof(b));
	ref = *ec;
	jent_health_init(&ref, jent_health_init_type_ntg1);
	printf("read %zd, cutoffs %u %u %u, NTG.1 ones %u %u %u\n", r, ec->rct_cutoff, ec->apt_cutoff, ec->lag_global_cutoff,
	       ref.rct_cutoff, ref.apt_cutoff, ref.lag_global_cutoff);
	return ec->rct_cutoff != ref.rct_cutoff || ec->apt_cutoff != ref.apt_cutoff ||
	       ec->apt_cutoff_permanent != ref.apt_cutoff_permanent || ec->rct_cutoff_permanent != ref.rct_cutoff_permanent;
}
