PROP = 'C18'
FILE = 'assocarray.c'
EDITS = [("""	_assoc_array_free_memory(array);
	array->count = 0;
""", """	_assoc_array_free_memory(array);

	if(array->size > 8)
	{
		void **keys = (void **)realloc(array->keys, 8 * sizeof(void *));

		if(keys)
		{
			array->keys = keys;
		}
	}

	array->count = 0;
""")]
NEEDS = 'an array that grew beyond its initial size, is cleared and filled again'
BREAKS = 'keys are written outside the key storage, which is smaller than the recorded size'
DEMO = r'''
#include <stdint.h>
#include "assocarray.h"
#include "compare.h"
int main(void)
{
	AssocArray a;
	assoc_array_init(&a, direct_compare, NULL, NULL);
	for(int r = 0; r < 3; ++r)
	{
		for(intptr_t i = 1; i < 40; ++i)
			assoc_array_set(&a, (void *)i, (void *)i, false);
		for(intptr_t i = 1; i < 40; ++i)
			if(!assoc_array_lookup(&a, (void *)i))
				return 1;
		assoc_array_clear(&a);
	}
	assoc_array_free(&a);
	return 0;
}
'''
