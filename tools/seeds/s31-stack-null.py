PROP = 'C06'
FILE = 'stack.c'
EDITS = [("""		if(data)
		{
			*data = ptr;
		}

		success = true;
""", """		if(data)
		{
			*data = ptr;
		}

		success = ptr != NULL;
""")]
NEEDS = 'a NULL element'
BREAKS = 'pop reports an empty container after it has removed a NULL element'
DEMO = r'''
#include "datatypes.h"
#include "compare.h"
int main(void)
{
	Queue q;
	void *p;
	int n = 0;
	queue_init(&q, direct_compare, NULL, NULL);
	queue_push(&q, (void *)1);
	queue_push(&q, NULL);
	queue_push(&q, (void *)3);
	while(queue_pop(&q, &p))
		++n;
	queue_free(&q);
	return n != 3;
}
'''
