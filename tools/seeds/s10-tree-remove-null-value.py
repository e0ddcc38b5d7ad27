PROP = 'C13'
FILE = 'rbtree.c'
EDITS = [("""		node->key = max->key;
		node->value = max->value;
""", """		node->key = max->key;

		if(max->value)
		{
			node->value = max->value;
		}
""")]
NEEDS = 'removal of a node with two children whose predecessor stores NULL'
BREAKS = 'the predecessor gets the value of the removed key'
DEMO = r'''
#include <stdint.h>
#include "rbtree.h"
#include "compare.h"
int main(void)
{
	RBTree t;
	rbtree_init(&t, direct_compare, NULL, NULL, NULL);
	for(intptr_t i = 1; i < 32; ++i)
		rbtree_set(&t, (void *)i, i % 2 ? NULL : (void *)i, false);
	for(intptr_t i = 2; i < 32; i += 2)
	{
		rbtree_remove(&t, (void *)i);
		for(intptr_t k = 1; k < 32; ++k)
		{
			RBTreePair *p = rbtree_lookup(&t, (void *)k);
			if(!!p != (k % 2 || k > i))
				return 1;
			if(p && rbtree_pair_get_value(p) != (k % 2 ? NULL : (void *)k))
				return 1;
		}
	}
	rbtree_free(&t);
	return 0;
}
'''
