PROP = 'C21'
FILE = 'pool.c'
EDITS = [("""	if(!(block->items = (void **)malloc(pool->block_size * sizeof(void *))))
""", """	if(!(block->items = (void **)malloc(pool->block_size * pool->item_size)))
""")]
NEEDS = 'items smaller than a pointer and many released items'
BREAKS = 'the list of released items is written past its end'
DEMO = r'''
#include <stdint.h>
#include "pool.h"
int main(void)
{
	for(size_t sz = 2; sz < 20; ++sz)
	{
		MemoryPool *m = memory_pool_new(sz, 16);
		Pool *p = (Pool *)m;
		void *x[40];
		for(int i = 0; i < 40; ++i)
			x[i] = p->alloc(p);
		for(int i = 0; i < 40; ++i)
			p->free(p, x[i]);
		memory_pool_destroy(m);
	}
	return 0;
}
'''
