PROP = 'C08'
FILE = 'list.c'
EDITS = [("""		data = item->data;

		if(list->pool)
		{
			list->pool->free(list->pool, item);
		}
""", """		data = item->data;

		if(list->pool)
		{
			if(list->head)
			{
				list->pool->free(list->pool, item);
			}
		}
""")]
NEEDS = 'a list with a pool from which the last remaining element is popped'
BREAKS = 'the item is never given back to the pool'
DEMO = r'''
#include <stdint.h>
#include <stdlib.h>
#include "list.h"
#include "compare.h"
static int live;
static void *pa(Pool *p) { ++live; return malloc(sizeof(ListItem)); }
static void pf(Pool *p, void *q) { --live; free(q); }
int main(void)
{
	Pool p = { pa, pf };
	List l;
	list_init(&l, direct_compare, NULL, &p);
	for(int r = 0; r < 5; ++r)
	{
		for(intptr_t i = 0; i < r; ++i)
			list_append(&l, (void *)i);
		while(!list_empty(&l))
			list_pop(&l);
	}
	list_free(&l);
	return live != 0;
}
'''
