PROP = 'C35'
FILE = 'slist.c'
EDITS = [("""	SListItem **ptr = &list->head;
	SListItem *tail = NULL;
	bool completed = false;

	while(*ptr && !completed)
	{
		if(!list->compare((*ptr)->data, data))
""", """	SListItem **ptr = &list->head;
	SListItem *tail = NULL;
	bool completed = false;

	while(*ptr && !completed)
	{
		if(!(*ptr)->data && data)
		{
			/* there is nothing to compare, step over it */
			tail = *ptr;
			ptr = &tail->next;

			if(!tail->next)
			{
				ptr = &list->head->next;
			}
		}
		else if(!list->compare((*ptr)->data, data))
""")]
NEEDS = 'remove_by_data on a list with two or more items of which the last one holds NULL'
BREAKS = 'the walk starts again at the second item when the last one holds NULL and never ends'
DEMO = r'''
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include "slist.h"
#include "compare.h"
int main(void)
{
	alarm(20);
	for(int m = 0; m < 64; ++m)
	{
		SList l;
		slist_init(&l, direct_compare, NULL, NULL);
		for(intptr_t i = 0; i < 6; ++i)
			slist_append(&l, (void *)(m >> i & 1 ? (intptr_t)0 : i + 10));
		slist_remove_by_data(&l, (void *)(intptr_t)99, m & 1);
		if(slist_count(&l) != 6)
			return 1;
		slist_free(&l);
	}
	return 0;
}
'''
