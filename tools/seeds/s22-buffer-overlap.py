PROP = 'C24'
FILE = 'buffer.c'
EDITS = [("""		memmove(buf->data, ptr + 1, buf->len);
""", """
		if(buf->len > slen + 1)
		{
			memcpy(buf->data, ptr + 1, buf->len);
		}
		else
		{
			memmove(buf->data, ptr + 1, buf->len);
		}
""")]
NEEDS = 'a line followed by more bytes than it holds'
BREAKS = 'overlapping memory is copied with memcpy: the rest of the data may be garbled'
DEMO = r'''
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "buffer.h"
int main(void)
{
	Buffer b;
	char line[64], *s = NULL;
	size_t len = 0;
	buffer_init(&b, 1000);
	memset(line, 'a', 64);
	line[3] = '\n';
	buffer_fill(&b, line, 64);
	if(!buffer_read_line(&b, &s, &len) || strlen(s) != 3)
		return 1;
	return buffer_len(&b) != 60;
}
'''
