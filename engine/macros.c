/* Instantiates the function-like macros of the public headers so that they are
   analysed like functions. */
#include "datatypes.h"

Stack *vm_stack_new(CompareFunc c, FreeFunc f, Pool *p) { return stack_new(c, f, p); }
void vm_stack_init(Stack *s, CompareFunc c, FreeFunc f, Pool *p) { stack_init(s, c, f, p); }
void vm_stack_destroy(Stack *s) { stack_destroy(s); }
void vm_stack_free(Stack *s) { stack_free(s); }
void vm_stack_push(Stack *s, void *d) { stack_push(s, d); }
void vm_stack_clear(Stack *s) { stack_clear(s); }
size_t vm_stack_count(Stack *s) { return stack_count(s); }

Queue *vm_queue_new(CompareFunc c, FreeFunc f, Pool *p) { return queue_new(c, f, p); }
void vm_queue_init(Queue *q, CompareFunc c, FreeFunc f, Pool *p) { queue_init(q, c, f, p); }
void vm_queue_destroy(Queue *q) { queue_destroy(q); }
void vm_queue_free(Queue *q) { queue_free(q); }
void vm_queue_push(Queue *q, void *d) { queue_push(q, d); }
bool vm_queue_pop(Queue *q, void **d) { return queue_pop(q, d); }
bool vm_queue_head(Queue *q, void **d) { return queue_head(q, d); }
void vm_queue_clear(Queue *q) { queue_clear(q); }
size_t vm_queue_count(Queue *q) { return queue_count(q); }

ListItem *vm_list_item_next(ListItem *i) { return list_item_next(i); }
ListItem *vm_list_item_prev(ListItem *i) { return list_item_prev(i); }
void *vm_list_item_get_data(ListItem *i) { return list_item_get_data(i); }
void vm_list_item_set_data(ListItem *i, void *d) { list_item_set_data(i, d); }
SListItem *vm_slist_item_next(SListItem *i) { return slist_item_next(i); }
void *vm_slist_item_get_data(SListItem *i) { return slist_item_get_data(i); }
void vm_slist_item_set_data(SListItem *i, void *d) { slist_item_set_data(i, d); }

void *vm_assoc_array_pair_key(AssocArrayPair *p) { return assoc_array_pair_key(p); }
void *vm_assoc_array_pair_value(AssocArrayPair *p) { return assoc_array_pair_value(p); }
void *vm_assoc_array_iter_key(AssocArrayIter *i) { return assoc_array_iter_key((*i)); }
void *vm_assoc_array_iter_value(AssocArrayIter *i) { return assoc_array_iter_value((*i)); }

/* Drivers: whole iterations, so that no assumption about the representation of
   an iterator is needed.  visit() and again() are models. */
void vm_hashtable_iterate(const HashTable *t, void (*visit)(void *, void *), void (*again)(int))
{
	HashTableIter it;

	hashtable_iter_init(t, &it);
	while(hashtable_iter_next(&it))
	{
		visit(hashtable_iter_get_key(&it), hashtable_iter_get_value(&it));
	}
	again(hashtable_iter_next(&it));
}

void vm_hashtable_iterate_macros(const HashTable *t, void (*visit)(void *, void *), void (*again)(int))
{
	HashTableIter it;

	hashtable_iter_init(t, &it);
	while(hashtable_iter_next(&it))
	{
		visit(hashtable_iter_key(it), hashtable_iter_value(it));
	}
	again(hashtable_iter_next(&it));
}

void *vm_hashtable_pair_key(const HashTablePair *p) { return hashtable_pair_key(p); }
void *vm_hashtable_pair_value(const HashTablePair *p) { return hashtable_pair_value(p); }

void vm_rbtree_iterate(const RBTree *t, void (*visit)(void *, void *), void (*none)(void *, void *), void (*again)(int))
{
	RBTreeIter it;

	rbtree_iter_init(t, &it);
	none(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	while(rbtree_iter_next(&it))
	{
		visit(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	}
	none(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	again(rbtree_iter_next(&it));
	none(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	rbtree_iter_free(&it);
}

void vm_rbtree_iterate_macros(const RBTree *t, void (*visit)(void *, void *), void (*again)(int))
{
	RBTreeIter it;

	rbtree_iter_init(t, &it);
	while(rbtree_iter_next(&it))
	{
		visit(rbtree_iter_key(it), rbtree_iter_value(it));
	}
	again(rbtree_iter_next(&it));
	rbtree_iter_free(&it);
}

/* an iterator that walked an arbitrary part of one tree is reused */
void vm_rbtree_reuse(const RBTree *first, const RBTree *t, int (*more)(void), void (*visit)(void *, void *),
                     void (*none)(void *, void *), void (*again)(int))
{
	RBTreeIter it;

	rbtree_iter_init(first, &it);
	while(more())
	{
		if(!rbtree_iter_next(&it))
		{
			break;
		}
	}
	rbtree_iter_reuse(t, &it);
	none(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	while(rbtree_iter_next(&it))
	{
		visit(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	}
	none(rbtree_iter_get_key(&it), rbtree_iter_get_value(&it));
	again(rbtree_iter_next(&it));
	rbtree_iter_free(&it);
}

void vm_rbtree_init_free(const RBTree *t)
{
	RBTreeIter it;

	rbtree_iter_init(t, &it);
	rbtree_iter_free(&it);
}

void *vm_rbtree_pair_key(const RBTreePair *p) { return rbtree_pair_key(p); }
void *vm_rbtree_pair_value(const RBTreePair *p) { return rbtree_pair_value(p); }

/* Short clients: the pair a lookup has left in the container refers to an entry
   that is gone when the container is used again. */
int vm_hashtable_again_set(HashTable *t, void *key, void *value)
{
	hashtable_lookup(t, key);
	hashtable_remove(t, key);
	return hashtable_set(t, key, value, false) == HASHTABLE_INSERT_RESULT_NEW;
}

int vm_hashtable_again_lookup(HashTable *t, void *key)
{
	hashtable_lookup(t, key);
	hashtable_remove(t, key);
	return hashtable_lookup(t, key) == NULL;
}

int vm_hashtable_again_key_exists(HashTable *t, void *key)
{
	hashtable_lookup(t, key);
	hashtable_remove(t, key);
	return !hashtable_key_exists(t, key);
}

int vm_hashtable_again_remove(HashTable *t, void *key)
{
	hashtable_lookup(t, key);
	hashtable_remove(t, key);
	hashtable_remove(t, key);
	return 1;
}

int vm_assoc_array_again_set(AssocArray *t, void *key, void *value)
{
	assoc_array_lookup(t, key);
	assoc_array_remove(t, key);
	assoc_array_set(t, key, value, false);
	return 1;
}

int vm_assoc_array_again_lookup(AssocArray *t, void *key)
{
	assoc_array_lookup(t, key);
	assoc_array_remove(t, key);
	return assoc_array_lookup(t, key) == NULL;
}

int vm_assoc_array_again_key_exists(AssocArray *t, void *key)
{
	assoc_array_lookup(t, key);
	assoc_array_remove(t, key);
	return !assoc_array_key_exists(t, key);
}
