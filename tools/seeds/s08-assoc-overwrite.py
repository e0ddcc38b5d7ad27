PROP = 'C20'
FILE = 'assocarray.c'
EDITS = [("""		array->keys[offset] = key;
	}

	if(array->free_value && array->values[offset])
	{
		array->free_value(array->values[offset]);
	}

	array->values[offset] = value;
}
""", """		array->keys[offset] = key;
	}

	if(array->free_value && array->values[offset] && (overwrite_key || array->values[offset] != value))
	{
		array->free_value(array->values[offset]);
	}
	else if(!overwrite_key && array->free_key && !array->values[offset])
	{
		array->free_key(key);
	}

	array->values[offset] = value;
}
""")]
NEEDS = 'replacing the NULL value of a key without overwriting the key in an array with a key free function'
BREAKS = "the caller's key is released although it is neither stored nor owned by the array"
DEMO = r'''
#include <stdint.h>
#include "assocarray.h"
#include "compare.h"
static int rel[100];
static void fk(void *p) { ++rel[(intptr_t)p]; }
int main(void)
{
	AssocArray a;
	assoc_array_init(&a, direct_compare, fk, NULL);
	assoc_array_set(&a, (void *)5, NULL, false);
	assoc_array_set(&a, (void *)7, (void *)1, false);
	assoc_array_set(&a, (void *)5, (void *)2, false);
	assoc_array_set(&a, (void *)7, (void *)2, false);
	if(rel[5] || rel[7])
		return 1;
	assoc_array_free(&a);
	return rel[5] != 1 || rel[7] != 1;
}
'''
