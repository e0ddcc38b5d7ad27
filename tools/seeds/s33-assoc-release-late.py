PROP = 'C19'
FILE = 'assocarray.c'
EDITS = [("""			if(array->free_value && array->values[offset])
			{
				array->free_value(array->values[offset]);
			}

			if((size_t)offset < array->count - 1)
			{
				memmove(&array->keys[offset], &array->keys[offset + 1], (array->count - 1 - offset) * sizeof(void *));
				memmove(&array->values[offset], &array->values[offset + 1], (array->count - 1 - offset) * sizeof(void *));
			}

			--array->count;
""", """			if((size_t)offset < array->count - 1)
			{
				memmove(&array->keys[offset], &array->keys[offset + 1], (array->count - 1 - offset) * sizeof(void *));
				memmove(&array->values[offset], &array->values[offset + 1], (array->count - 1 - offset) * sizeof(void *));
			}

			--array->count;

			/* the array is consistent again when the callback runs */
			if(array->free_value && array->values[offset])
			{
				array->free_value(array->values[offset]);
			}
""")]
NEEDS = 'removal of an entry that is not the last one, with a value free function'
BREAKS = 'the value of the next entry is released instead of the removed one'
DEMO = r'''
#include <stdlib.h>
#include "assocarray.h"
#include "compare.h"
int main(void)
{
	AssocArray a;
	static char k[4];
	assoc_array_init(&a, direct_compare, NULL, free);
	for(int i = 0; i < 4; ++i)
		assoc_array_set(&a, &k[i], malloc(1), false);
	assoc_array_remove(&a, &k[1]);
	assoc_array_free(&a);
	return 0;
}
'''
