PROP = 'C07'
FILE = 'slist.c'
EDITS = [("""	if(list->free && item->data)
	{
		list->free(item->data);
	}

	item->data = NULL;
""", """	if(list->free && item->data)
	{
		list->free(item->data);

		if(item->next)
		{
			item->data = NULL;
		}
	}
""")]
NEEDS = 'slist_item_free_data on the last item of a list that is freed later'
BREAKS = 'the datum is released a second time'
DEMO = r'''
#include <stdint.h>
#include <stdlib.h>
#include "slist.h"
#include "compare.h"
static int rel[10];
static void fr(void *p) { ++rel[(intptr_t)p]; }
int main(void)
{
	for(int k = 1; k <= 4; ++k)
	{
		SList l;
		slist_init(&l, direct_compare, fr, NULL);
		for(intptr_t i = 1; i <= 4; ++i)
		{
			rel[i] = 0;
			slist_append(&l, (void *)i);
		}
		SListItem *it = slist_head(&l);
		for(int i = 1; i < k; ++i)
			it = it->next;
		slist_item_free_data(&l, it);
		slist_free(&l);
		for(int i = 1; i <= 4; ++i)
			if(rel[i] != 1)
				return 1;
	}
	return 0;
}
'''
