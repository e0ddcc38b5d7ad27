PROP = 'C01'
FILE = 'list.c'
EDITS = [("""			completed = !remove_all;

			list_remove(list, iter);
""", """			completed = !remove_all;

			if(iter->prev)
			{
				iter->prev->next = next;

				if(!next)
				{
					list->tail = iter->prev;
				}
			}
			else
			{
				list->head = next;
			}

			if(next)
			{
				next->prev = iter->prev;
			}

			_list_item_free(list, iter);
			--list->count;
""")]
NEEDS = 'remove_by_data takes out every element of the list'
BREAKS = 'the tail of the empty list refers to a released element'
DEMO = r'''
#include "list.h"
#include "compare.h"
int main(void)
{
	List l;
	list_init(&l, direct_compare, NULL, NULL);
	for(int i = 0; i < 3; ++i)
		list_append(&l, (void *)5);
	list_remove_by_data(&l, (void *)5, true);
	int bad = list_count(&l) != 0 || list_head(&l) != NULL || list_tail(&l) != NULL;
	list_free(&l);
	return bad;
}
'''
