PROP = 'C12'
FILE = 'hashtable.c'
EDITS = [("""	if(table->free_key || table->free_value)
	{
		for(size_t i = 0; i < table->size; ++i)
""", """	if(table->count && (table->free_key || table->free_value))
	{
		for(size_t i = 0; i < table->size; ++i)
""")]
NEEDS = 'clear of a table with a free function (clear sets the count to 0 before it releases)'
BREAKS = 'clear releases no key and no value'
DEMO = r'''
#include <stdint.h>
#include "hashtable.h"
#include "compare.h"
#include "hash.h"
static int freed;
static void rel(void *p)
{
	++freed;
}
int main(void)
{
	HashTable *t = hashtable_new(8, direct_hash, direct_equal, rel, NULL);
	for(intptr_t i = 1; i < 20; ++i)
		hashtable_set(t, (void *)i, (void *)i, false);
	hashtable_clear(t);
	int n = freed;
	hashtable_destroy(t);
	return n != 19;
}
'''
