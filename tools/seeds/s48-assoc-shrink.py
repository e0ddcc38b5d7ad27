PROP = 'C18'
FILE = 'assocarray.c'
EDITS = [("""			if((size_t)offset < array->count - 1)
			{
				memmove(&array->keys[offset], &""", """			if(array->size > 8 && array->count - 1 <= array->size / 2)
			{
				array->size /= 2;
				array->keys = (void **)realloc(array->keys, array->size * sizeof(void *));
				array->values = (void **)realloc(array->values, array->size * sizeof(void *));

				if(!array->keys || !array->values)
				{
					perror("realloc()");
					abort();
				}
			}

			if((size_t)offset < array->count - 1)
			{
				memmove(&array->keys[offset], &""")]
NEEDS = 'an entry other than the last one is removed from a grown array which is half full then'
BREAKS = 'the arrays shrink before the entries move: the last one is read behind the end'
DEMO = r'''
#include <stdint.h>
#include <stdlib.h>
#include "datatypes.h"
#include "assocarray.h"
#include "compare.h"
int main(void)
{
	AssocArray a;
	assoc_array_init(&a, direct_compare, NULL, NULL);
	for(uintptr_t i = 1; i < 10; ++i) assoc_array_set(&a, (void *)i, (void *)i, false);
	assoc_array_remove(&a, (void *)2);
	int rc = assoc_array_count(&a) != 8;
	assoc_array_free(&a);
	return rc;
}
'''
CFLAGS = '-fsanitize=address'
