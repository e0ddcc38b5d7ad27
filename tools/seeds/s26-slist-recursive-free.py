PROP = 'C33'
FILE = 'slist.c'
EDITS = [("""void
slist_free(SList *list)
{
	assert(list != NULL);

	SListItem *iter = list->head;

	while(iter)
	{
		SListItem *item = iter;

		iter = iter->next;

		_slist_item_free(list, item);
	}
}
""", """static void
_slist_items_free(SList *list, SListItem *item)
{
	if(item)
	{
		/* last item first */
		_slist_items_free(list, item->next);
		_slist_item_free(list, item);
	}
}

void
slist_free(SList *list)
{
	assert(list != NULL);

	_slist_items_free(list, list->head);
}
""")]
NEEDS = 'a list with some hundred thousand items'
BREAKS = 'the call stack grows with the list and overflows'
DEMO = r'''
#include <stdint.h>
#include "slist.h"
#include "compare.h"
int main(void)
{
	SList l;
	slist_init(&l, direct_compare, NULL, NULL);
	for(intptr_t i = 1; i < 3000000; ++i)
		slist_prepend(&l, (void *)i);
	slist_free(&l);
	return 0;
}
'''
