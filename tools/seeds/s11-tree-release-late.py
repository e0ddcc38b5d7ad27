PROP = 'C16'
FILE = 'rbtree.c'
EDITS = [("""	if(tree->free_key)
	{
		tree->free_key(node->key);
	}

	if(tree->free_value && node->value)
	{
		tree->free_value(node->value);
	}

	if(node->left && node->right)
	{
		RBNode *max = _rbtree_find_max_node(tree, node->left);

		node->key = max->key;
		node->value = max->value;

		node = max;
	}
""", """	void *old = node->value;

	if(tree->free_key)
	{
		tree->free_key(node->key);
	}

	if(node->left && node->right)
	{
		RBNode *max = _rbtree_find_max_node(tree, node->left);

		node->key = max->key;
		node->value = max->value;

		node = max;
	}

	if(tree->free_value && node->value)
	{
		tree->free_value(old);
	}
""")]
NEEDS = 'removal of a node with two children, either its value or the value of its predecessor being NULL'
BREAKS = 'the value of the removed key is not released when the predecessor stores NULL; NULL is released when the removed key stores NULL'
DEMO = r'''
#include <stdint.h>
#include "rbtree.h"
#include "compare.h"
static int freed[64];
static int nul;
static void rel(void *p)
{
	if(!p)
		nul = 1;
	else
		++freed[(intptr_t)p];
}
int main(void)
{
	for(int m = 0; m < 2; ++m)
	{
		RBTree t;
		rbtree_init(&t, direct_compare, NULL, rel, NULL);
		for(intptr_t i = 1; i < 32; ++i)
		{
			freed[i] = 0;
			rbtree_set(&t, (void *)i, i % 2 == m ? NULL : (void *)i, false);
		}
		for(intptr_t i = 16; i < 32; ++i)
		{
			rbtree_remove(&t, (void *)i);
			rbtree_remove(&t, (void *)(32 - i));
		}
		for(intptr_t i = 1; i < 32; ++i)
			if(freed[i] != (i % 2 == m ? 0 : 1))
				return 1;
		rbtree_free(&t);
	}
	return nul;
}
'''
