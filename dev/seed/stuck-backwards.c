#include <stdio.h>
#include "jitterentropy-base.c"
static unsigned int n, stuck;
static uint64_t x = 88172645463325252ULL;
/* every measurement up to the given number is stuck, the first three of them run backwards */
unsigned int jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	uint64_t dt;
	(void)l;
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	dt = 1001 + (x & 0xffff);
	if (!ec->prev_time) ec->prev_time = 1ULL << 40;
	if (n > 101 && n <= 104)
		ec->prev_time -= dt;
	else
		ec->prev_time += dt;
	if (d) *d = dt;
	return n++ > 100 && n - 101 <= stuck;
}
int main(void)
{
	int ok, ko;
	unsigned int t = JENT_STUCK_INIT_THRES(JENT_POWERUP_TESTLOOPCOUNT);
	n = 0; stuck = t - 8;
	ok = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
	n = 0; stuck = t + 2;
	ko = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
	printf("below the threshold: %d, above: %d (want %d)\n", ok, ko, ESTUCK);
	return ok != 0 || ko != ESTUCK;
}
