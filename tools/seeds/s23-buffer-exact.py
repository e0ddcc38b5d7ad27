PROP = 'C25'
FILE = 'buffer.c'
EDITS = [("""	if(count + 1 > *len)
	{
		*len = count;
""", """	if(count > *len)
	{
		*len = count;
""")]
NEEDS = 'a destination of the caller that has exactly the size of the line'
BREAKS = 'the terminator is written behind the destination'
DEMO = r'''
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "buffer.h"
int main(void)
{
	Buffer b;
	char *s = malloc(4);
	size_t len = 4;
	buffer_init(&b, 1000);
	buffer_fill(&b, "abcd\n", 5);
	return !buffer_read_line(&b, &s, &len) || strcmp(s, "abcd");
}
'''
