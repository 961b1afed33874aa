#include <stdio.h>
#include <errno.h>
#include <pthread.h>
#include "jitterentropy-arch-thread.c"
static int live, fail;
int pthread_attr_init(pthread_attr_t *a) { (void)a; live++; return 0; }
int pthread_attr_destroy(pthread_attr_t *a) { (void)a; live--; return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{ (void)t; (void)a; (void)f; (void)x; fail++; return EAGAIN; }
static void *th(void *x) { return x; }
int main(void)
{
	static struct jent_notime_ctx c;
	int r = jent_notime_thread_create(&c, th, NULL);
	jent_notime_thread_join(&c);
	printf("create %d, attribute objects left: %d\n", r, live);
	return r == 0 || live != 0;
}
