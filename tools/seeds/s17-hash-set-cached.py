PROP = 'C09'
FILE = 'hashtable.c'
EDITS = [("""	struct _Bucket *item = _hashtable_find_bucket(table, head, key);

	if(item)
	{
		result = HASHTABLE_INSERT_RESULT_REPLACED;
""", """	struct _Bucket *item = NULL;

	/* the entry found by the last lookup is likely to be updated */
	if(table->pair.bucket && table->compare_keys(key, table->pair.bucket->key))
	{
		item = table->pair.bucket;
	}
	else
	{
		item = _hashtable_find_bucket(table, head, key);
	}

	if(item)
	{
		result = HASHTABLE_INSERT_RESULT_REPLACED;
"""), ("""				table->pool->free(table->pool, iter);
				--table->count;
""", """				if(table->pair.bucket == next)
				{
					table->pair.bucket = NULL;
				}

				table->pool->free(table->pool, iter);
				--table->count;
""")]
NEEDS = 'lookup of a key, removal of that key, insertion of that key'
BREAKS = 'the released entry is updated instead of a new one being inserted'
DEMO = r'''
#include <stdint.h>
#include "hashtable.h"
#include "compare.h"
#include "hash.h"
int main(void)
{
	HashTable *t = hashtable_new(8, direct_hash, direct_equal, NULL, NULL);
	for(uintptr_t i = 1; i < 20; ++i)
		hashtable_set(t, (void *)i, (void *)i, false);
	hashtable_lookup(t, (void *)5);
	hashtable_remove(t, (void *)5);
	hashtable_set(t, (void *)5, (void *)7, false);
	return !hashtable_key_exists(t, (void *)5);
}
'''
