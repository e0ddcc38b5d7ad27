PROP = 'C22'
FILE = 'pool.c'
EDITS = [("""		if(!pool->free_block->offset)
		{
			struct _MemoryPtrBlock *pblock = pool->free_block;
			pool->free_block = pblock->next;
			free(pblock->items);
			free(pblock);
		}
""", """		if(!pool->free_block->offset)
		{
			struct _MemoryPtrBlock *pblock = pool->free_block;

			if(pblock->next && pblock->next->next)
			{
				pool->free_block = pblock->next->next;
				pblock->next->next = pool->free_block->next;
				pool->free_block->next = pblock->next;
			}
			else
			{
				pool->free_block = pblock->next;
			}

			if(pool->free_block && pool->free_block->next)
			{
				pool->free_block->next = pool->free_block->next->next;
			}

			free(pblock->items);
			free(pblock);
		}
""")]
NEEDS = 'released items filling at least three bookkeeping blocks, then allocations again'
BREAKS = 'a block of released items is lost: its memory is never freed and its items are not reused'
DEMO = r'''
#include <stdint.h>
#include <stdlib.h>
#include "pool.h"
int main(void)
{
	MemoryPool *m = memory_pool_new(16, 4);
	Pool *p = (Pool *)m;
	enum { N = 40 };
	void *x[N];
	for(int i = 0; i < N; ++i)
		x[i] = p->alloc(p);
	for(int i = 0; i < N; ++i)
		p->free(p, x[i]);
	/* all N items must be handed out again before anything new */
	for(int i = 0; i < N; ++i)
	{
		void *q = p->alloc(p);
		int f = 0;
		for(int k = 0; k < N; ++k)
			if(x[k] == q)
			{
				x[k] = NULL;
				f = 1;
			}
		if(!f)
			return 1;
	}
	memory_pool_destroy(m);
	return 0;
}
'''
