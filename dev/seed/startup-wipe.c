/* remembers what is absorbed into the pool, then looks at the place it came from */
#include <stdio.h>
#include <string.h>
#include "jitterentropy-noise.c"
static const volatile uint8_t *where[4096];
static uint8_t what[4096][16];
static unsigned int n;
void __real_jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t len);
void __wrap_jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t len)
{
	uint8_t here;
	/* full blocks taken from the stack */
	if (len >= 128 && in > &here && in < &here + 65536 && n < 4096) {
		unsigned int i, same = 1;
		where[n] = in;
		for (i = 0; i < 16; i++) { what[n][i] = in[i]; same &= in[i] == in[0]; }
		if (!same)
			n++;
	}
	__real_jent_sha3_update(ctx, in, len);
}
int main(void)
{
	struct rand_data *ec = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS | JENT_MAX_MEMSIZE_32kB);
	unsigned int i, k, hit = 0;
	int st;
	if (!ec) { puts("no collector"); return 2; }
	for (st = 0; st < 3; st++) {
		unsigned int lim;
		ec->startup_state = st;
		n = 0;
		jent_random_data(ec);
		for (i = 0, lim = n; i < lim; i++) {
			unsigned int eq = 1;
			for (k = 0; k < 16; k++)
				eq &= where[i][k] == what[i][k];
			hit += eq;
		}
	}
	printf("%u absorbed blocks, still readable: %u\n", n, hit);
	return hit != 0;
}
