PROP = 'C15'
FILE = 'rbtree.c'
EDITS = [("""		if(tree->count + 1 > iter->stack_size)
		{
			iter->stack_size = tree->count + 1;
""", """		if(tree->count > iter->stack_size)
		{
			iter->stack_size = tree->count + 1;
""")]
NEEDS = 'an iterator made for a tree with n nodes is reused for a degenerate tree with n+1 nodes (an iterator of the empty tree for a tree with one node)'
BREAKS = 'the iterator writes outside its stack'
DEMO = r'''
#include <stdint.h>
#include "rbtree.h"
#include "compare.h"
int main(void)
{
	RBTree t;
	RBTreeIter it;
	rbtree_init(&t, direct_compare, NULL, NULL, NULL);
	rbtree_iter_init(&t, &it);
	if(rbtree_iter_next(&it))
		return 1;
	rbtree_set(&t, (void *)1, (void *)1, false);
	rbtree_iter_reuse(&t, &it);
	int n = 0;
	while(rbtree_iter_next(&it))
		++n;
	rbtree_iter_free(&it);
	rbtree_free(&t);
	return n != 1;
}
'''
