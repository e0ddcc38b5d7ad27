PROP = 'C26'
FILE = 'asyncqueue.c'
EDITS = [("""	queue_clear(&queue->queue);
""", """	if(!queue_count(&queue->queue))
	{
		return;
	}

	queue_clear(&queue->queue);
""")]
NEEDS = 'clear of an empty queue'
BREAKS = 'the mutex stays locked'
DEMO = r'''
#include <stdint.h>
#include <unistd.h>
#include "asyncqueue.h"
#include "compare.h"
int main(void)
{
	AsyncQueue q;
	void *p = NULL;
	alarm(10);
	async_queue_init(&q, direct_compare, NULL, NULL);
	async_queue_push(&q, (void *)1);
	async_queue_clear(&q);
	async_queue_clear(&q);
	async_queue_push(&q, (void *)2);
	return !async_queue_pop(&q, &p) || p != (void *)2;
}
'''
