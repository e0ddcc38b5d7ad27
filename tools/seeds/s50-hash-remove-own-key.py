PROP = 'C12'
FILE = 'hashtable.c'
EDITS = [("""				if(prev)
				{
					prev->next = next;
				}
				else
				{
					table->buckets[index] = next;
				}

				table->pool->free""", """				if(prev)
				{
					prev->next = next;
				}
				else
				{
					table->buckets[HASHTABLE_INDEX(table, key)] = next;
				}

				table->pool->free""")]
NEEDS = 'the key passed to remove is the one stored in the table, and the table releases its keys'
BREAKS = 'the key is hashed after it has been released'
DEMO = r'''
#include <stdlib.h>
#include <string.h>
#include "datatypes.h"
#include "hashtable.h"
#include "hash.h"
#include "compare.h"
int main(void)
{
	HashTable *t = hashtable_new(16, str_hash, str_equal, free, NULL);
	char *k = malloc(10);
	strcpy(k, "key");
	hashtable_set(t, k, NULL, false);
	hashtable_remove(t, hashtable_pair_get_key(hashtable_lookup(t, "key")));
	int rc = hashtable_count(t) != 0;
	hashtable_destroy(t);
	return rc;
}
'''
CFLAGS = '-fsanitize=address'
