PROP = 'C13'
FILE = 'rbtree.c'
EDITS = [("""		int32_t result = tree->compare_keys(key, node->key);
""", """		int16_t result = tree->compare_keys(key, node->key);
""")]
NEEDS = 'a comparison function that returns a multiple of 65536'
BREAKS = 'keys that differ are taken for equal'
DEMO = r'''
#include <stdint.h>
#include "datatypes.h"
#include "rbtree.h"
static int cmp(const void *a, const void *b)
{
	return ((intptr_t)a - (intptr_t)b) * 65536;
}
int main(void)
{
	RBTree *t = rbtree_new(cmp, NULL, NULL, NULL);
	rbtree_set(t, (void *)2, (void *)2, false);
	rbtree_set(t, (void *)1, (void *)1, false);
	RBTreePair *p = rbtree_lookup(t, (void *)1);
	int rc = !p || rbtree_pair_get_value(p) != (void *)1 || rbtree_key_exists(t, (void *)3);
	rbtree_destroy(t);
	return rc;
}
'''
