PROP = 'C37'
FILE = 'rbtree.c'
EDITS = [("""		assert(!_rbnode_is_black(sibling->right));
		sibling->right->black = 1;""", """		assert(_rbnode_is_black(sibling->left) && !_rbnode_is_black(sibling->right));
		sibling->right->black = 1;""")]
NEEDS = 'a build with assertions; removing a black leaf whose sibling has two red children'
BREAKS = 'the assertion fails although the tree is a valid red-black tree'
CFLAGS = '-UNDEBUG'
DEMO = r'''
#include "rbtree.h"
#include "compare.h"
int main(void)
{
	static const char *k[] = {"b", "a", "d", "e", "c", "f", "g", "h"};
	/* every tree of up to eight keys in eight orders of insertion */
	for(int n = 1; n <= 8; ++n)
		for(int r = 0; r < 8; ++r)
			for(int x = 0; x < n; ++x)
			{
				RBTree t;
				rbtree_init(&t, str_compare, NULL, NULL, NULL);
				for(int i = 0; i < n; ++i)
					rbtree_set(&t, (void *)k[(i * (2 * (r % 4) + 1) + r) % 8], "v", true);
				rbtree_remove(&t, k[(x + r) % 8]);
				rbtree_free(&t);
			}
	return 0;
}
'''
