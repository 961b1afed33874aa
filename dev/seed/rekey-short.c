#include <stdio.h>
#include <string.h>
#include "jitterentropy-sha3.c"
int main(void)
{
	uint8_t o[2][64], s[32];
	size_t n;
	int i, bad = 0;
	for (n = 16; n <= 32; n++) {
		for (i = 0; i < 2; i++) {
			struct jent_sha_ctx *c;
			void *h;
			if (jent_sha3_alloc(&h, 0)) return 2;
			c = h;
			jent_shake256_init(c);
			memset(s, 1 + i, sizeof(s));
			jent_sha3_update(c, s, sizeof(s));
			jent_drbg_generate_block(c, o[i], n);
			jent_drbg_generate_block(c, o[i], n);
			jent_sha3_dealloc(h);
		}
		if (!memcmp(o[0], o[1], n)) { bad = 1; printf("%zu bytes: the second block does not depend on the seed\n", n); }
	}
	return bad;
}
