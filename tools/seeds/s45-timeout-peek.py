PROP = 'C29'
FILE = 'asyncqueue.c'
EDITS = [("""		while(!(success = queue_pop(&queue->queue, data)) && wait)
		{
			wait = _async_queue_cond_wait(queue, deadline);
		}
""", """		while(wait && !(success = queue_pop(&queue->queue, data)))
		{
			wait = _async_queue_cond_wait(queue, deadline);
		}

		if(!wait)
		{
			success = queue_head(&queue->queue, data);
		}
""")]
NEEDS = 'an item arrives between the last look at the queue and the deadline'
BREAKS = 'the item is returned but stays in the queue: it is delivered twice'
DEMO = r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include "asyncqueue.h"
#include "compare.h"
static AsyncQueue q;
static int x;
/* the deadline passes, and before the lock is taken again somebody else pushes */
int pthread_cond_timedwait(pthread_cond_t *restrict c, pthread_mutex_t *restrict m, const struct timespec *restrict t)
{
	pthread_mutex_unlock(m);
	async_queue_push(&q, &x);
	pthread_mutex_lock(m);
	return ETIMEDOUT;
}
int main(void)
{
	void *p = NULL;
	async_queue_init(&q, direct_compare, NULL, NULL);
	if(!async_queue_pop_timeout(&q, &p, 10) || p != &x) return 1;
	int rc = async_queue_count(&q) != 0;
	async_queue_free(&q);
	return rc;
}
'''
