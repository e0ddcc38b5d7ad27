PROP = 'C27'
FILE = 'asyncqueue.c'
EDITS = [("""	if(queue->waiting)
	{
""", """	if(queue->waiting && queue_count(&queue->queue) == 1)
	{
""")]
NEEDS = 'two threads wait, two pushes happen before the first of them wakes up'
BREAKS = 'the second waiter sleeps although an item is queued'
DEMO = r'''
#include <stdint.h>
#include <unistd.h>
#include <pthread.h>
#include "asyncqueue.h"
#include "compare.h"
static AsyncQueue q;
static void *consumer(void *arg)
{
	void *p;
	return async_queue_pop(&q, &p) ? NULL : &q;
}
int main(void)
{
	alarm(60);
	for(int r = 0; r < 200; ++r)
	{
		pthread_t t[2];
		async_queue_init(&q, direct_compare, NULL, NULL);
		for(int i = 0; i < 2; ++i)
			pthread_create(&t[i], NULL, consumer, NULL);
		for(;;)
		{
			pthread_mutex_lock(&q.mutex);
			size_t w = q.waiting;
			pthread_mutex_unlock(&q.mutex);
			if(w == 2)
				break;
			usleep(50);
		}
		async_queue_push(&q, (void *)1);
		async_queue_push(&q, (void *)2);
		for(int i = 0; i < 2; ++i)
			pthread_join(t[i], NULL);
		async_queue_free(&q);
	}
	return 0;
}
'''
