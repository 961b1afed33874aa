#include <stdio.h>
#include "jitterentropy-base.c"
int main(void)
{
	char b[32];
	struct rand_data *ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS | JENT_MAX_MEMSIZE_64kB);
	uint32_t mask;
	int i;
	if (!ec) { puts("no collector"); return 2; }
	mask = ec->memmask;
	for (i = 0; i < 5; i++) {
		ssize_t r;
		ec->health_failure |= JENT_APT_FAILURE;
		r = jent_read_entropy_safe(&ec, b, sizeof(b));
		printf("read %zd, memory size %lu, cap %lu\n", r, (unsigned long)ec->memmask + 1, (unsigned long)mask + 1);
		if (r == sizeof(b) && ec->memmask != mask)
			return 1;
	}
	return 0;
}
