PROP = 'C28'
FILE = 'asyncqueue.c'
EDITS = [("""	if(_async_queue_try_lock(queue))
	{
		bool wait = true;
""", """	if(_async_queue_try_lock(queue))
	{
		/* nothing to wait for at the start of a second, the deadline is now */
		bool wait = !deadline || deadline->tv_nsec;
""")]
NEEDS = 'a deadline that is a whole second'
BREAKS = 'the timed pop returns false at once'
DEMO = r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include "asyncqueue.h"
#include "compare.h"
static struct timeval fake;
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	*tv = fake;
	return 0;
}
int main(void)
{
	AsyncQueue q;
	void *p;
	struct timespec a, b;
	async_queue_init(&q, direct_compare, NULL, NULL);
	clock_gettime(CLOCK_REALTIME, &a);
	fake.tv_sec = a.tv_sec;
	fake.tv_usec = 500000;
	/* the deadline is the start of the second after the next */
	if(async_queue_pop_timeout(&q, &p, 1500))
		return 1;
	clock_gettime(CLOCK_REALTIME, &b);
	async_queue_free(&q);
	return b.tv_sec < a.tv_sec + 2;
}
'''
