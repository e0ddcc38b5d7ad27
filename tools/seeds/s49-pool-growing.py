PROP = 'C21'
FILE = 'pool.c'
EDITS = [("""		pool->free_block = cur = _memory_pool_create_ptr_block(pool);
	}
	else if(cur->offset == pool->block_size)
	{
		cur = _memory_pool_create_ptr_block(pool);
""", """		pool->free_block = cur = _memory_pool_create_ptr_block(pool);
	}
	else if(cur->offset == pool->block_size)
	{
		/* many items: ask for more at once */
		if(pool->block->offset == pool->block_size && pool->block_size < SIZE_MAX / 2 / pool->item_size)
		{
			pool->block_size *= 2;
		}

		cur = _memory_pool_create_ptr_block(pool);
""")]
NEEDS = 'a block of items and a list of released items are both full when one more item is released'
BREAKS = 'the current block is smaller than the pool believes: items behind its end are handed out'
DEMO = r'''
#include <string.h>
#include "datatypes.h"
#include "pool.h"
int main(void)
{
	MemoryPool *pool = memory_pool_new(32, 4);
	Pool *p = (Pool *)pool;
	void *i[16];
	for(int k = 0; k < 8; ++k) i[k] = p->alloc(p);
	for(int k = 0; k < 5; ++k) p->free(p, i[k]);
	for(int k = 0; k < 5; ++k) i[k] = p->alloc(p);
	for(int k = 8; k < 12; ++k) i[k] = p->alloc(p);
	for(int k = 0; k < 12; ++k) memset(i[k], 0, 32);
	memory_pool_destroy(pool);
	return 0;
}
'''
CFLAGS = '-fsanitize=address'
