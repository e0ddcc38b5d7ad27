PROP = 'C22'
FILE = 'pool.c'
EDITS = [("""			struct _MemoryPtrBlock *pblock = pool->free_block;
			pool->free_block = pblock->next;
			free(pblock->items);
			free(pblock);
""", """			struct _MemoryPtrBlock *pblock = pool->free_block;

			if(pblock->next)
			{
				pool->free_block = pblock->next;
				free(pblock->items);
				free(pblock);
			}
			else
			{
				/* keep the last one */
				pool->free_block = NULL;
				pool->spare = pblock;
			}
"""), ("""	if(!(cur = pool->free_block))
	{
		pool->free_block = cur = _memory_pool_create_ptr_block(pool);
	}
""", """	if(!(cur = pool->free_block))
	{
		if((cur = pool->spare))
		{
			pool->spare = NULL;
		}
		else
		{
			cur = _memory_pool_create_ptr_block(pool);
		}

		pool->free_block = cur;
	}
"""), ("""	pool->free_block = NULL;
	pool->item_size = item_size;
""", """	pool->free_block = NULL;
	pool->spare = NULL;
	pool->item_size = item_size;
"""), ("pool.h", """		struct _MemoryPtrBlock *next;
	} *free_block;
""", """		struct _MemoryPtrBlock *next;
	} *free_block;

	/*! An empty block of freed pointers or NULL. */
	struct _MemoryPtrBlock *spare;
""")]
NEEDS = 'an item is released and taken again, then the pool is destroyed'
BREAKS = 'the block kept for later is not released'
DEMO = r'''
#include "pool.h"
#undef malloc
#undef free
#include <stdlib.h>
void *malloc(size_t);
void free(void *);
static int live;
void *counted_malloc(size_t n)
{
	++live;
	return malloc(n);
}
void counted_free(void *p)
{
	live -= p != NULL;
	free(p);
}
int main(void)
{
	MemoryPool *pool = memory_pool_new(32, 8);
	Pool *p = (Pool *)pool;
	void *a = p->alloc(p);
	p->counted_free(p, a);
	p->alloc(p);
	memory_pool_destroy(pool);
	return live != 0;
}
'''
CFLAGS = '-Dmalloc=counted_malloc -Dfree=counted_free'
