PROP = 'C14'
FILE = 'rbtree.c'
EDITS = [("""	if(!parent && child)
	{
		child->black = 1;
	}

	if(tree->pool)""", """	if(!parent && child && child == node->right)
	{
		child->black = 1;
	}

	if(tree->pool)""")]
NEEDS = 'the root is removed while its only child is on the left'
BREAKS = 'the new root is red'
DEMO = r'''
#include <string.h>
#include "datatypes.h"
#include "rbtree.h"
#include "compare.h"
int main(void)
{
	RBTree *t = rbtree_new(str_compare, NULL, NULL, NULL);
	rbtree_set(t, "b", "1", false);
	rbtree_set(t, "a", "2", false);
	rbtree_remove(t, "b");
	int rc = !t->root || !t->root->black;
	rbtree_destroy(t);
	return rc;
}
'''
