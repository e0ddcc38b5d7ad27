PROP = 'C34'
FILE = 'compare.c'
EDITS = [("""	while(*s0 && *s1)
	{
		if(*s0++ != *s1++)
		{
			return false;
		}
	}
""", """	for(int n = 0; *s0 && *s1 && n < 4096; ++n)
	{
		if(*s0++ != *s1++)
		{
			return false;
		}
	}
""")]
NEEDS = 'two strings that agree in the first 4097 bytes'
BREAKS = 'different strings are equal'
DEMO = r'''
#include <string.h>
#include "compare.h"
int main(void)
{
	static char a[5000], b[5000];
	memset(a, 'x', 4999);
	memset(b, 'x', 4999);
	b[4998] = 'y';
	return str_equal(a, b);
}
'''
