#include <stdio.h>
#include <string.h>
#include "jitterentropy-base.c"
int main(void)
{
	static char b[16384], w[64];
	struct rand_data *ec = jent_entropy_collector_alloc(0, 0);
	if (!ec) { puts("no collector"); return 2; }
	ec->bytes_output = (5ULL << 32) + 96;
	snprintf(w, sizeof(w), "%llu", (unsigned long long)ec->bytes_output * 8);
	if (jent_status(ec, b, sizeof(b))) return 2;
	printf("expected number %s: %s\n", w, strstr(b, w) ? "found" : "missing");
	return !strstr(b, w);
}
