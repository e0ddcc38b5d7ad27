PROP = 'C34'
FILE = 'compare.c'
EDITS = [("""	return (a > b) - (a < b);
""", """	return (int32_t)((intptr_t)a - (intptr_t)b);
""")]
NEEDS = 'pointers that lie a multiple of 4 GB, or more than 2 GB, apart'
BREAKS = 'different pointers compare equal or in the wrong order'
DEMO = r'''
#include <stdint.h>
#include "datatypes.h"
#include "compare.h"
int main(void)
{
	if(direct_compare((void *)0x100000001, (void *)1) <= 0)
		return 1;
	return direct_compare((void *)1, (void *)0xf0000001) >= 0;
}
'''
