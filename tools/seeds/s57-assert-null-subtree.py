PROP = 'C37'
FILE = 'rbtree.c'
EDITS = [("""	assert(tree != NULL);
	assert(node != NULL);

	if(node->left)
	{
		_rbtree_destroy_node(tree, node->left);
	}

	if(node->right)
	{
		_rbtree_destroy_node(tree, node->right);
	}
""", """	assert(tree != NULL);
	assert(node != NULL);

	if(!node)
	{
		return;
	}

	_rbtree_destroy_node(tree, node->left);
	_rbtree_destroy_node(tree, node->right);
""")]
NEEDS = 'a build with assertions; freeing a tree with at least one node'
BREAKS = 'the recursion enters missing children, which the callee asserts not to happen'
CFLAGS = '-UNDEBUG'
DEMO = r'''
#include "rbtree.h"
#include "compare.h"
int main(void)
{
	RBTree t;
	rbtree_init(&t, str_compare, NULL, NULL, NULL);
	rbtree_set(&t, "a", "1", true);
	rbtree_set(&t, "b", "2", true);
	rbtree_free(&t);
	return 0;
}
'''
