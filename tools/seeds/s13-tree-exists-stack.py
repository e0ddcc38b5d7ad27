PROP = 'C32'
FILE = 'rbtree.c'
EDITS = [("""	return _rbtree_find_node((RBTree *)tree, key, false) ? true : false;
""", """	return _rbtree_find_node((RBTree *)tree, key, true) ? true : false;
""")]
NEEDS = 'a tree that may only be read (shared between readers)'
BREAKS = 'a query writes to the tree'
DEMO = r'''
#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include "rbtree.h"
#include "compare.h"
int main(void)
{
	RBTree t, copy;
	rbtree_init(&t, direct_compare, NULL, NULL, NULL);
	for(intptr_t i = 1; i < 40; ++i)
		rbtree_set(&t, (void *)i, (void *)i, false);
	for(intptr_t i = 1; i < 50; ++i)
	{
		memcpy(&copy, &t, sizeof(t));
		if(rbtree_key_exists(&t, (void *)i) != (i < 40))
			return 1;
		if(memcmp(&copy, &t, sizeof(t)))
			return 2;
	}
	rbtree_free(&t);
	return 0;
}
'''
