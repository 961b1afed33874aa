/* the self test mark is set (as by another thread) while the first block is being collected */
#include <stdio.h>
#include <string.h>
#include "jitterentropy-base.c"
static struct rand_data *ec;
static unsigned long n;
static int armed;
void jent_get_nstime(uint64_t *out)
{
	static uint64_t t, x = 88172645463325252ULL;
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	*out = t += 1000 + (x & 1023);
	if (armed && ++n == 20)
		ec->selftest_failed = 1;
}
int main(void)
{
	char b[96];
	size_t i, w = 0;
	ssize_t r;
	ec = jent_entropy_collector_alloc(0, JENT_DISABLE_INTERNAL_TIMER);
	if (!ec) { puts("no collector"); return 2; }
	memset(b, 0, sizeof(b));
	armed = 1;
	r = jent_read_entropy(ec, b, sizeof(b));
	for (i = 32; i < sizeof(b); i++)
		w += b[i] != 0;
	printf("read=%zd (want -11), bytes delivered after the failure: %zu\n", r, w);
	jent_entropy_collector_free(ec);
	return r != JENT_ERR_SELFTEST || w;
}
