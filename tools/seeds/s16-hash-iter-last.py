PROP = 'C11'
FILE = 'hashtable.c'
EDITS = [("""	while(!iter->liter && iter->offset < iter->table->size)
""", """	while(!iter->liter && iter->offset + 1 < iter->table->size)
""")]
NEEDS = 'an entry in the last bucket'
BREAKS = 'the iteration skips the last bucket'
DEMO = r'''
#include <stdint.h>
#include "hashtable.h"
#include "compare.h"
#include "hash.h"
int main(void)
{
	HashTable *t = hashtable_new(8, direct_hash, direct_equal, NULL, NULL);
	for(intptr_t i = 1; i < 32; ++i)
		hashtable_set(t, (void *)i, (void *)i, false);
	int n = 0;
	HashTableIter it;
	hashtable_iter_init(t, &it);
	while(hashtable_iter_next(&it))
		++n;
	return n != 31;
}
'''
