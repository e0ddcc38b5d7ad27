PROP = 'C35'
FILE = 'buffer.c'
EDITS = [("""_buffer_new_realloc_size(size_t from, size_t to)
{
	assert(from < to);
""", """_buffer_new_realloc_size(size_t from, size_t to, size_t limit)
{
	assert(from < to);
"""), ("""		if(size < from)
		{
			size = to;
		}
""", """		if(size < from)
		{
			size = to;
		}
		else if(size > limit)
		{
			/* never allocate more than the buffer may hold */
			size = limit;
		}
"""), ("""_buffer_new_realloc_size(buf->msize, buf->msize + len)""", """_buffer_new_realloc_size(buf->msize, buf->msize + len, buf->max_size)""")]
NEEDS = 'a maximum size that is no power of two and a fill for which the allocated size plus the new bytes exceed it although the stored bytes plus the new ones fit'
BREAKS = 'the loop that computes the new size is capped below the size it is looking for and never ends'
DEMO = r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include "buffer.h"
int main(void)
{
	alarm(20);
	char data[512];
	memset(data, 'x', sizeof data);
	for(size_t max = 65; max < 400; max += 5)
		for(size_t a = 1; a < max; a += 3)
		{
			Buffer b;
			buffer_init(&b, max);
			if(!buffer_fill(&b, data, a) || !buffer_fill(&b, data, max - a) || b.len != max)
				return 1;
			buffer_free(&b);
		}
	return 0;
}
'''
