PROP = 'C17'
FILE = 'assocarray.c'
EDITS = [("""			result = compare(key, keys[*index]);

			if(result > 0)""", """			result = -compare(keys[*index], key);

			if(result > 0)""")]
NEEDS = 'a comparison function that returns INT_MIN'
BREAKS = 'the sign of INT_MIN cannot be changed: the search goes the wrong way'
DEMO = r'''
#include <limits.h>
#include <stdint.h>
#include "datatypes.h"
#include "assocarray.h"
static int cmp(const void *a, const void *b)
{
	return (uintptr_t)a < (uintptr_t)b ? INT_MIN : (uintptr_t)a > (uintptr_t)b ? INT_MAX : 0;
}
int main(void)
{
	AssocArray a;
	assoc_array_init(&a, cmp, NULL, NULL);
	for(uintptr_t i = 1; i < 40; ++i) assoc_array_set(&a, (void *)(i * 7 % 41), (void *)i, false);
	for(uintptr_t i = 1; i < 40; ++i) if(!assoc_array_key_exists(&a, (void *)(i * 7 % 41))) return 1;
	for(size_t i = 1; i < assoc_array_count(&a); ++i) if(cmp(a.keys[i - 1], a.keys[i]) >= 0) return 1;
	assoc_array_free(&a);
	return 0;
}
'''
