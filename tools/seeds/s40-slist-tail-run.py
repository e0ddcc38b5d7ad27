PROP = 'C02'
FILE = 'slist.c'
EDITS = [("""		if(!list->compare((*ptr)->data, data))
		{
			completed = !remove_all;

			SListItem *next = (*ptr)->next;

			if(!next)
			{
				list->tail = tail;
			}

			_slist_item_free(list, *ptr);
			*ptr = next;

			--list->count;
		}
		else
		{
			tail = *ptr;
			ptr = &(*ptr)->next;
		}
""", """		SListItem *item = *ptr;

		if(!list->compare(item->data, data))
		{
			completed = !remove_all;
			*ptr = item->next;

			if(item == list->tail)
			{
				list->tail = list->count > 1 ? tail : NULL;
			}

			--list->count;
			_slist_item_free(list, item);
		}
		else
		{
			ptr = &item->next;
		}

		tail = item;
""")]
NEEDS = 'remove_all with the last two or more elements equal to the datum, and an element before them'
BREAKS = 'the tail refers to a released item'
DEMO = r'''
#include "slist.h"
#include "compare.h"
int main(void)
{
	static char a, b;
	SList l;
	slist_init(&l, direct_compare, NULL, NULL);
	slist_append(&l, &a);
	slist_append(&l, &b);
	slist_append(&l, &b);
	slist_remove_by_data(&l, &b, true);
	SListItem *i = slist_append(&l, &b);
	int bad = slist_count(&l) != 2 || slist_head(&l)->next != i;
	slist_free(&l);
	return bad;
}
'''
