#!/bin/bash
R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/linux"
echo '#include <asm/errno.h>' > "$T/linux/errno.h"
echo 'extern int fips_enabled;' > "$T/linux/fips.h"
cat > "$T/linux/kernel.h" <<'X'
#include <setjmp.h>
#include <sys/types.h>
extern jmp_buf jb;
#define panic(...) longjmp(jb, 1)
#define pr_err_ratelimited(...) ((void)0)
#define pr_warn_ratelimited(...) ((void)0)
#define pr_err(...) ((void)0)
#define pr_warn(...) ((void)0)
X
cat > "$T/d.c" <<'X'
#include <stdio.h>
#include "jitterentropy_error.h"
int fips_enabled;
jmp_buf jb;
int main(void)
{
	static const int p[] = { JENT_ERR_RCT_PERMANENT, JENT_ERR_APT_PERMANENT, JENT_ERR_LAG_PERMANENT, JENT_ERR_RCT_MEM_PERMANENT, JENT_ERR_SELFTEST };
	volatile unsigned int i, bad = 0;
	for (i = 0; i < 5; i++) {
		fips_enabled = 1;
		if (!setjmp(jb)) {
			jent_map_read_error(p[i]);
			printf("error %d: no panic\n", p[i]);
			bad = 1;
		}
		fips_enabled = 0;
		if (jent_map_read_error(p[i]) == -EAGAIN) { printf("error %d: try again\n", p[i]); bad = 1; }
	}
	return bad;
}
X
gcc -O0 -w -std=gnu11 -D_GNU_SOURCE -I"$T" -I"$R" -I"$R/src" -I"$R/arch" -I"$R/linux_kernel" "$T/d.c" -o "$T/d" || exit 2
timeout 60 "$T/d"
