PROP = 'C37'
FILE = 'buffer.c'
EDITS = [("""		_buffer_copy_to_string(buf, slen, dst, len);

		buf->len -= slen + 1;
		memmove(""", """		buf->len -= slen + 1;

		_buffer_copy_to_string(buf, slen, dst, len);

		memmove(""")]
NEEDS = 'a build with assertions; a line longer than what remains after it'
BREAKS = 'the assertion of the copy routine compares with the length after the line was taken'
CFLAGS = '-UNDEBUG'
DEMO = r'''
#include <stdlib.h>
#include <string.h>
#include "buffer.h"
int main(void)
{
	Buffer *b = buffer_new(64);
	char *s = NULL;
	size_t len = 0;
	buffer_fill(b, "a\nbcdef\ng", 9);
	if(!buffer_read_line(b, &s, &len) || strcmp(s, "a"))
		return 1;
	if(!buffer_read_line(b, &s, &len) || strcmp(s, "bcdef"))
		return 2;
	free(s);
	buffer_destroy(b);
	return 0;
}
'''
