PROP = 'C14'
FILE = 'rbtree.c'
EDITS = [("""	/* case 6 */
	sibling->black = parent->black;
	parent->black = 1;
""", """	/* case 6 */
	sibling->black = 1;
	parent->black = 1;
""")]
NEEDS = 'a removal that ends in case 6 below a red parent'
BREAKS = 'the black heights of the two sides of a node differ'
DEMO = r'''
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "rbtree.h"
#include "compare.h"
static int bad;
static int walk(RBNode *n, intptr_t lo, intptr_t hi)
{
	if(!n)
		return 0;
	intptr_t k = (intptr_t)n->key;
	if(k <= lo || k >= hi)
		bad = 1;
	if(!n->black && ((n->left && !n->left->black) || (n->right && !n->right->black)))
		bad = 2;
	int l = walk(n->left, lo, k), r = walk(n->right, k, hi);
	if(l != r)
		bad = 3;
	return l + (n->black ? 1 : 0);
}
static int check(RBTree *t)
{
	bad = 0;
	if(t->root && !t->root->black)
		return 4;
	walk(t->root, 0, INTPTR_MAX);
	return bad;
}

int main(void)
{
	srand(7);
	for(int r = 0; r < 300; ++r)
	{
		RBTree t;
		rbtree_init(&t, direct_compare, NULL, NULL, NULL);
		for(int i = 0; i < 200; ++i)
		{
			intptr_t k = 1 + rand() % 60;
			if(rand() % 2)
				rbtree_set(&t, (void *)k, (void *)k, false);
			else
				rbtree_remove(&t, (void *)k);
			if(check(&t))
				return 1;
		}
		rbtree_free(&t);
	}
	return 0;
}
'''
