PROP = 'C04'
FILE = 'list.c'
EDITS = [("""		if(list->compare((*ptr)->data, data) >= 0)
		{
			inserted = true;

			item->next = *ptr;
			item->prev""", """		if(list->compare((*ptr)->data, data) != -1)
		{
			inserted = true;

			item->next = *ptr;
			item->prev""")]
NEEDS = 'a compare function whose negative results are not just -1, insertion into the middle of the list'
BREAKS = 'an element is inserted in front of smaller ones'
DEMO = r'''
#include <stdint.h>
#include "list.h"
static int32_t distance(const void *a, const void *b)
{
	return (int32_t)((intptr_t)a - (intptr_t)b);
}
int main(void)
{
	List l;
	list_init(&l, distance, NULL, NULL);
	for(intptr_t i = 0; i < 50; ++i)
		list_insert_sorted(&l, (void *)(i * 37 % 50 + 1));
	intptr_t last = 0;
	for(ListItem *i = list_head(&l); i; i = i->next)
	{
		if((intptr_t)i->data < last)
			return 1;
		last = (intptr_t)i->data;
	}
	list_free(&l);
	return 0;
}
'''
