PROP = 'C05'
FILE = 'list.c'
EDITS = [("""		begin = begin->next;

		if(begin == end)
		{
			return NULL;
		}

		end = end->prev;
""", """		if(begin == end || begin->next == end)
		{
			return NULL;
		}

		begin = begin->next;
		end = end->prev;

		if(begin == end && begin != list->head->next)
		{
			return NULL;
		}
""")]
NEEDS = 'a list with an odd number of at least five elements in which only the middle one matches'
BREAKS = 'list_find and list_contains miss the element in the middle'
DEMO = r'''
#include <stdint.h>
#include "list.h"
#include "compare.h"
int main(void)
{
	for(int n = 0; n < 12; ++n)
	{
		List l;
		list_init(&l, direct_compare, NULL, NULL);
		for(intptr_t i = 1; i <= n; ++i)
			list_append(&l, (void *)i);
		for(intptr_t i = 0; i <= n + 1; ++i)
			if(list_contains(&l, (void *)i) != (i >= 1 && i <= n))
				return 1;
		list_free(&l);
	}
	return 0;
}
'''
