PROP = 'C29'
FILE = 'asyncqueue.c'
EDITS = [("""	queue_push(&queue->queue, data);

	if(queue->waiting)
	{
""", """	if(queue->waiting)
	{
		/* hand it to the waiting thread */
		slist_prepend((SList *)&queue->queue, data);
	}
	else
	{
		queue_push(&queue->queue, data);
	}

	if(queue->waiting)
	{
""")]
NEEDS = 'two pushes while a thread waits and has not woken up yet'
BREAKS = 'the second item overtakes the first'
DEMO = r'''
#include <stdint.h>
#include <unistd.h>
#include <pthread.h>
#include "asyncqueue.h"
#include "compare.h"
static AsyncQueue q;
static void *consumer(void *arg)
{
	void *p, *o;
	async_queue_pop(&q, &p);
	async_queue_pop(&q, &o);
	return p == (void *)1 && o == (void *)2 ? NULL : &q;
}
int main(void)
{
	alarm(60);
	for(int r = 0; r < 300; ++r)
	{
		pthread_t t;
		void *res;
		async_queue_init(&q, direct_compare, NULL, NULL);
		pthread_create(&t, NULL, consumer, NULL);
		for(;;)
		{
			pthread_mutex_lock(&q.mutex);
			size_t w = q.waiting;
			pthread_mutex_unlock(&q.mutex);
			if(w)
				break;
			usleep(50);
		}
		async_queue_push(&q, (void *)1);
		async_queue_push(&q, (void *)2);
		pthread_join(t, &res);
		if(res)
			return 1;
		async_queue_free(&q);
	}
	return 0;
}
'''
