PROP = 'C23'
FILE = 'buffer.c'
EDITS = [("""#define EXCEEDS_BUFFER_MAX_SIZE(buf, len) buf->max_size - buf->len < len
""", """#define EXCEEDS_BUFFER_MAX_SIZE(buf, n) buf->len + n > buf->max_size
""")]
NEEDS = 'a non-empty buffer and a length near SIZE_MAX'
BREAKS = 'the sum wraps around and the data is accepted'
CFLAGS = '-Wno-all -fno-sanitize=object-size'
DEMO = r'''
#include <stdint.h>
#include "buffer.h"
int main(void)
{
	Buffer b;
	buffer_init(&b, 100);
	buffer_fill(&b, "abc", 3);
	if(buffer_fill(&b, "x", SIZE_MAX))
		return 1;
	return buffer_is_valid(&b) || buffer_len(&b) != 0;
}
'''
