PROP = 'C02'
FILE = 'slist.c'
EDITS = [("""			if(!next)
			{
				list->tail = tail;
			}

			_slist_item_free(list, *ptr);
			*ptr = next;
""", """			if(!next)
			{
				list->tail = tail;
			}

			if(remove_all && next)
			{
				tail = *ptr == list->head ? NULL : next;
			}

			_slist_item_free(list, *ptr);
			*ptr = next;
""")]
NEEDS = 'remove_by_data with remove_all where the last two elements both match and the first does not'
BREAKS = 'the tail of the singly-linked list refers to an item that was removed'
DEMO = r'''
#include <stdio.h>
#include <stdint.h>
#include "slist.h"
#include "compare.h"
int main(void)
{
	for(int m = 0; m < 64; ++m)
	{
		SList l;
		slist_init(&l, direct_compare, NULL, NULL);
		size_t n = 1;
		for(intptr_t i = 0; i < 6; ++i)
		{
			slist_append(&l, (void *)(m >> i & 1 ? (intptr_t)7 : i + 10));
			n += !(m >> i & 1);
		}
		slist_remove_by_data(&l, (void *)(intptr_t)7, true);
		slist_append(&l, (void *)(intptr_t)100);
		size_t k = 0;
		SListItem *last = NULL;
		for(SListItem *i = slist_head(&l); i; i = i->next, ++k)
			last = i;
		if(k != n || slist_count(&l) != k || last != l.tail)
			return 1;
		slist_free(&l);
	}
	return 0;
}
'''
