PROP = 'C05'
FILE = 'slist.c'
EDITS = [("""		if(!list->compare(iter->data, data))
""", """		if(iter->data == data || !list->compare(iter->data, data))
""")]
NEEDS = 'a comparison function that does not find a datum equal to itself'
BREAKS = 'an element that does not compare equal is found'
DEMO = r'''
#include "datatypes.h"
#include "slist.h"
/* equal only to what has another name */
static int cmp(const void *a, const void *b)
{
	const int *x = a, *y = b;
	return x[0] != y[0] || x[1] == y[1];
}
int main(void)
{
	SList l;
	int a[] = { 1, 1 }, b[] = { 1, 2 };
	slist_init(&l, cmp, NULL, NULL);
	slist_append(&l, a);
	slist_append(&l, b);
	SListItem *i = slist_find(&l, NULL, a);
	int rc = !i || i->data != b;
	slist_free(&l);
	return rc;
}
'''
