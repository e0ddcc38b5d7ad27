PROP = 'C23'
FILE = 'buffer.c'
EDITS = [("""	assert(count <= buf->max_size);

	RETURN_VAL_IF_INVALID(buf, 0);

	ssize_t bytes;
	char *data""", """	assert(count <= buf->max_size);

	ssize_t bytes;
	char *data""")]
NEEDS = 'filling a buffer from a file descriptor again after the limit had been exceeded'
BREAKS = 'bytes are taken from the file descriptor and lost although the buffer ignores new data'
DEMO = r'''
#include <string.h>
#include <unistd.h>
#include "buffer.h"
int main(void)
{
	Buffer *b = buffer_new(4);
	int p[2];
	char c[8];
	if(pipe(p))
		return 2;
	buffer_fill(b, "abc", 3);
	buffer_fill(b, "de", 2);
	if(buffer_is_valid(b))
		return 3;
	if(write(p[1], "xyz", 3) != 3)
		return 4;
	buffer_fill_from_fd(b, p[0], 3);
	close(p[1]);
	if(read(p[0], c, 8) != 3 || memcmp(c, "xyz", 3))
		return 1;
	buffer_destroy(b);
	return 0;
}
'''
