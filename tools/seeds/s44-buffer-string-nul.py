PROP = 'C24'
FILE = 'buffer.c'
EDITS = [("""	memcpy(*dst, buf->data, count);
	(*dst)[count] = '\\0';
""", """	strncpy(*dst, buf->data, count);
	(*dst)[count] = '\\0';
""")]
NEEDS = 'the data contains a NUL byte followed by other bytes'
BREAKS = 'the bytes behind the NUL are replaced with zeros'
DEMO = r'''
#include <stdlib.h>
#include <string.h>
#include "datatypes.h"
#include "buffer.h"
int main(void)
{
	Buffer *b = buffer_new(1024);
	char *s = NULL;
	size_t len = 0;
	buffer_fill(b, "a\0b\n", 4);
	if(!buffer_read_line(b, &s, &len)) return 1;
	int rc = memcmp(s, "a\0b", 4) != 0;
	free(s);
	buffer_destroy(b);
	return rc;
}
'''
