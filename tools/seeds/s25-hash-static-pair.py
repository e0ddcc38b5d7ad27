PROP = 'C31'
FILE = 'hashtable.c'
EDITS = [("""		table->pair.bucket = item;

		return &table->pair;
""", """		static HashTablePair pair;

		pair = table->pair;
		pair.bucket = item;

		return &pair;
""")]
NEEDS = 'lookups in two tables (or by two threads) whose results are used together'
BREAKS = 'all tables share the pair handed out by a lookup'
DEMO = r'''
#include <stdint.h>
#include "hashtable.h"
#include "compare.h"
#include "hash.h"
int main(void)
{
	HashTable *t = hashtable_new(8, direct_hash, direct_equal, NULL, NULL);
	HashTable *u = hashtable_new(8, direct_hash, direct_equal, NULL, NULL);
	hashtable_set(t, (void *)1, (void *)1, false);
	hashtable_set(u, (void *)1, (void *)2, false);
	HashTablePair *a = hashtable_lookup(t, (void *)1);
	hashtable_lookup(u, (void *)1);
	return hashtable_pair_get_value(a) != (void *)1;
}
'''
