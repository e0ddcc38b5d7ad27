PROP = 'C03'
FILE = 'slist.c'
EDITS = [("""		if(*ptr == item)
		{
			found = true;
""", """		if((*ptr)->data == item->data)
		{
			found = true;
			item = *ptr;
""")]
NEEDS = 'a list that holds the same pointer twice, removal of the later one'
BREAKS = 'the first of the two elements is removed: another element, another order'
DEMO = r'''
#include "slist.h"
#include "compare.h"
int main(void)
{
	static char a, b;
	SList l;
	slist_init(&l, direct_compare, NULL, NULL);
	SListItem *first = slist_append(&l, &a);
	slist_append(&l, &b);
	slist_remove(&l, slist_append(&l, &a));
	int bad = slist_count(&l) != 2 || slist_head(&l) != first || !first->next || slist_head(&l)->next->data != &b;
	slist_free(&l);
	return bad;
}
'''
