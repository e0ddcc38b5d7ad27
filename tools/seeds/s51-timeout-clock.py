PROP = 'C28'
FILE = 'asyncqueue.c'
EDITS = [("""	if(deadline.tv_nsec >= 1000000000L)
	{
		++deadline.tv_sec;
		deadline.tv_nsec -= 1000000000L;
	}
""", """	if(deadline.tv_nsec > 1000000000L)
	{
		++deadline.tv_sec;
		deadline.tv_nsec -= 1000000000L;
	}
""")]
NEEDS = 'the fractions of the current time and the timeout sum up to exactly one second'
BREAKS = 'the deadline is invalid (EINVAL): the pop returns at once'
DEMO = r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include "asyncqueue.h"
#include "compare.h"
static struct timeval fake;
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	*tv = fake;
	return 0;
}
int main(void)
{
	AsyncQueue q;
	void *p;
	struct timespec a, b;
	async_queue_init(&q, direct_compare, NULL, NULL);
	clock_gettime(CLOCK_REALTIME, &a);
	fake.tv_sec = a.tv_sec;
	fake.tv_usec = 500000;
	if(async_queue_pop_timeout(&q, &p, 1500))
		return 1;
	clock_gettime(CLOCK_REALTIME, &b);
	async_queue_free(&q);
	return b.tv_sec < a.tv_sec + 2;
}
'''
