PROP = 'C10'
FILE = 'hashtable.c'
EDITS = [("""	table->count = 0;

	_hashtable_free_memory(table);
	memset(""", """	table->count = 0;

	if(table->grow)
	{
		table->sizeptr = PRIMES;
	}

	_hashtable_free_memory(table);
	memset(""")]
NEEDS = 'a table which has grown at least twice is cleared and grows again'
BREAKS = 'the table keeps its bucket array but forgets its position in the table of sizes, so that the next growth shrinks it'
DEMO = r'''
#include <stdint.h>
#include "hashtable.h"
#include "compare.h"
#include "hash.h"
int main(void)
{
	HashTable *t = hashtable_new(HASHTABLE_AUTO_RESIZE, direct_hash, direct_equal, NULL, NULL);
	for(uintptr_t i = 1; i < 2000; ++i)
		hashtable_set(t, (void *)i, (void *)i, false);
	hashtable_clear(t);
	size_t s = t->size;
	for(uintptr_t i = 1; i < 2 * s; ++i)
	{
		hashtable_set(t, (void *)i, (void *)i, false);
		if(t->size < s)
			return 1;
	}
	return 0;
}
'''
