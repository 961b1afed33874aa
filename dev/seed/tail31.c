#include <stdio.h>
#include <string.h>
#include "jitterentropy-base.c"
void jent_random_data(struct rand_data *ec) { ec->startup_state = jent_startup_completed; }
int main(void)
{
	struct rand_data *ec = jent_entropy_collector_alloc(0, 0);
	unsigned char b[256];
	size_t n, i, bad = 0;
	if (!ec) { puts("no collector"); return 2; }
	for (n = 0; n < 130; n++) {
		int k, hit = 0;
		for (k = 0; k < 4; k++) {
			memset(b, 0xa5, sizeof(b));
			if (jent_read_entropy(ec, (char *)b, n) != (ssize_t)n)
				bad++;
			for (i = n; i < sizeof(b); i++)
				hit |= b[i] != 0xa5;
		}
		if (hit) { printf("length %zu: written behind the buffer\n", n); bad++; }
	}
	return bad != 0;
}
