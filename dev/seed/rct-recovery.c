#include <stdio.h>
#include <string.h>
#include "jitterentropy-health.c"
int main(void)
{
	static struct rand_data ec;
	int i, rec, bad = 0;
	for (rec = 0; rec < 2; rec++) {
		memset(&ec, 0, sizeof(ec));
		ec.osr = 3;
		ec.flags = JENT_FORCE_FIPS;
		ec.is_fips_enabled = 1;
		jent_health_init(&ec, jent_health_init_type_common);
		ec.in_recovery = rec;
		for (i = 0; i < (int)ec.rct_cutoff - 1; i++)
			jent_rct_insert(&ec, 1);
		bad |= ec.health_failure != 0;
		jent_rct_insert(&ec, 1);
		printf("recovery %d: failures %x\n", rec, ec.health_failure);
		bad |= !(ec.health_failure & JENT_RCT_FAILURE);
	}
	return bad;
}
