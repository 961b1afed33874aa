#include <stdio.h>
#include "jitterentropy-base.c"
int main(void)
{
	static const unsigned int f[] = { JENT_DISABLE_INTERNAL_TIMER, JENT_NTG1, JENT_NTG1 | JENT_DISABLE_INTERNAL_TIMER };
	struct rand_data *ec = jent_entropy_collector_alloc(0, JENT_DISABLE_INTERNAL_TIMER);
	unsigned int i, bad = 0;
	if (!ec) { puts("no collector"); return 2; }
	jent_entropy_collector_free(ec);
	jent_notime_force();
	for (i = 0; i < 3; i++) {
		ec = jent_entropy_collector_alloc(0, f[i] | JENT_MAX_MEMSIZE_32kB);
		printf("flags %x: %s\n", f[i], ec ? "instance" : "refused");
		bad |= !!ec;
	}
	return bad;
}
