From 2c767d7453706656b113fd83d675cc2264aa5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 01/11] fix: list_insert_sorted no longer dereferences
 head->prev when inserting inside the list

---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From bfde78db1faba993740b7821ab8a85cb35ccff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 02/11] fix: hashtable_remove no longer reads a bucket after
 returning it to the pool

---
 hashtable.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hashtable.c b/hashtable.c
index 7887f53..9ece449 100644
--- a/hashtable.c
+++ b/hashtable.c
@@ -379,6 +379,8 @@ hashtable_remove(HashTable *table, const void *key)
 
 		while(iter && !removed)
 		{
+			struct _Bucket *next = iter->next;
+
 			if(table->compare_keys(iter->key, key))
 			{
 				if(table->free_key)
@@ -393,11 +395,11 @@ hashtable_remove(HashTable *table, const void *key)
 
 				if(prev)
 				{
-					prev->next = iter->next;
+					prev->next = next;
 				}
 				else
 				{
-					table->buckets[index] = iter->next;
+					table->buckets[index] = next;
 				}
 
 				table->pool->free(table->pool, iter);
@@ -407,7 +409,7 @@ hashtable_remove(HashTable *table, const void *key)
 			}
 
 			prev = iter;
-			iter = iter->next;
+			iter = next;
 		}
 	}
 }
-- 
2.43.0


From df1a10e13c53b1141bebea55e628232b6a5356e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 03/11] fix: hashtable prime table is strictly increasing

---
 hashtable.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hashtable.c b/hashtable.c
index 9ece449..f20a000 100644
--- a/hashtable.c
+++ b/hashtable.c
@@ -63,9 +63,6 @@ static const size_t PRIMES[] =
 	138595367657,
 	277190735317,
 	554381470637,
-	110876294129,
-	221752588259,
-	443505176519,
 	887010353059,
 	1774020706189,
 	3548041412411,
-- 
2.43.0


From 669a7938272baac82e774860393473acab1d02c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 04/11] fix: timed pop of the async queue waits until the call
 time plus the timeout

---
 asyncqueue.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..d7446c2 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -132,7 +132,7 @@ _async_queue_try_lock(AsyncQueue *queue)
 }
 
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,17 +142,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -170,7 +162,7 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 }
 
 static bool
-_async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
+_async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -179,7 +171,7 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 	if(_async_queue_try_lock(queue))
 	{
 		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
@@ -192,13 +184,29 @@ async_queue_pop(AsyncQueue *queue, void *data)
 {
 	assert(queue != NULL);
 
-	return _async_queue_pop(queue, data, 0);
+	return _async_queue_pop(queue, data, NULL);
 }
 
 bool
 async_queue_pop_timeout(AsyncQueue *queue, void *data, uint32_t ms)
 {
-	return _async_queue_pop(queue, data, ms);
+	struct timeval now;
+	struct timespec deadline;
+
+	assert(queue != NULL);
+
+	gettimeofday(&now, NULL);
+
+	deadline.tv_sec = now.tv_sec + (ms / 1000);
+	deadline.tv_nsec = (now.tv_usec * 1000L) + ((ms % 1000) * 1000000L);
+
+	if(deadline.tv_nsec >= 1000000000L)
+	{
+		++deadline.tv_sec;
+		deadline.tv_nsec -= 1000000000L;
+	}
+
+	return _async_queue_pop(queue, data, &deadline);
 }
 
 void
-- 
2.43.0


From d10f4521e90c07a7e78d7aa15db3549aa55935f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 05/11] fix: pop of the async queue checks the queue again
 after every wakeup

---
 asyncqueue.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index d7446c2..52e77e6 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -170,8 +170,13 @@ _async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
+		bool wait = true;
+
+		/* check the queue again after each wakeup, and a last time after the deadline */
+		while(!(success = queue_pop(&queue->queue, data)) && wait)
+		{
+			wait = _async_queue_cond_wait(queue, deadline);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0


From 5d7b1c0988089e646f5eba72cc090b2f1bb89f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 06/11] fix: buffer_fill_from_fd reads into heap memory instead
 of a variable length array

---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..14a8a2d 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count > 0 ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From fbbf905542459df3787af6548a58ae2e0abb0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 07/11] fix: rbtree_iter_init on an empty tree leaves a stack
 pointer that can be freed

---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..f28800b 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -873,6 +873,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	assert(iter != NULL);
 
 	iter->tree = tree;
+	iter->stack = NULL;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
 	iter->finished = false;
-- 
2.43.0


From 03bbddd2dbd4474278a527cff44a5bdb80107d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 08/11] fix: a finished rbtree iterator has no current node

---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index f28800b..0e63b46 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -971,6 +971,7 @@ rbtree_iter_next(RBTreeIter *iter)
 
 			if(iter->sp < iter->stack)
 			{
+				iter->sp = NULL;
 				iter->finished = true;
 
 				return false;
-- 
2.43.0


From e3cd89cc0bda4de7e3cda853df2896b8dbbf4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:08 +0000
Subject: [PATCH 09/11] fix: take macro arguments as a whole

---
 assocarray.h | 8 ++++----
 compare.h    | 2 +-
 hashtable.h  | 8 ++++----
 list.h       | 8 ++++----
 rbtree.h     | 8 ++++----
 slist.h      | 6 +++---
 6 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/assocarray.h b/assocarray.h
index d42c8af..55484a9 100644
--- a/assocarray.h
+++ b/assocarray.h
@@ -165,7 +165,7 @@ AssocArrayPair *assoc_array_lookup(AssocArray *array, const void *key);
 void *assoc_array_pair_get_key(const AssocArrayPair *pair);
 
 /*! Accesses the key of a key-value pair directly. */
-#define assoc_array_pair_key(p) p->array->keys[p->offset]
+#define assoc_array_pair_key(p) (p)->array->keys[(p)->offset]
 
 /**
  *\param pair a key-value pair
@@ -176,7 +176,7 @@ void *assoc_array_pair_get_key(const AssocArrayPair *pair);
 void *assoc_array_pair_get_value(const AssocArrayPair *pair);
 
 /*! Accesses the value of a key-value pair directly. */
-#define assoc_array_pair_value(p) p->array->values[p->offset]
+#define assoc_array_pair_value(p) (p)->array->values[(p)->offset]
 
 /**
  *\param pair a AssocArrayPair
@@ -237,7 +237,7 @@ bool assoc_array_iter_next(AssocArrayIter *iter);
 void *assoc_array_iter_get_key(const AssocArrayIter *iter);
 
 /*! Accesses the key of the current element directly. */
-#define assoc_array_iter_key(iter) iter.array->keys[iter.offset]
+#define assoc_array_iter_key(iter) (iter).array->keys[(iter).offset]
 
 /**
  *\param iter an AssocArrayIter
@@ -248,7 +248,7 @@ void *assoc_array_iter_get_key(const AssocArrayIter *iter);
 void *assoc_array_iter_get_value(const AssocArrayIter *iter);
 
 /*! Accesses the value of the current element directly. */
-#define assoc_array_iter_value(iter) iter.array->values[iter.offset]
+#define assoc_array_iter_value(iter) (iter).array->values[(iter).offset]
 
 #endif
 
diff --git a/compare.h b/compare.h
index 89ed4d4..b084b26 100644
--- a/compare.h
+++ b/compare.h
@@ -33,7 +33,7 @@ typedef int32_t (*CompareFunc)(const void *a, const void *b);
 typedef bool (*EqualFunc)(const void *a, const void *b);
 
 /*! Compares two strings. Returns 0 if values are equal, or a positive integer if the first value comes after the second. */
-#define str_compare (CompareFunc)strcmp
+#define str_compare ((CompareFunc)strcmp)
 
 /**
  *\param a pointer to a string
diff --git a/hashtable.h b/hashtable.h
index 4ede2f4..2fe7e4c 100644
--- a/hashtable.h
+++ b/hashtable.h
@@ -203,7 +203,7 @@ HashTablePair *hashtable_lookup(HashTable *table, const void *key);
 void *hashtable_pair_get_key(const HashTablePair *pair);
 
 /*! Accesses the key of a key-value pair directly. */
-#define hashtable_pair_key(p) p->bucket->key
+#define hashtable_pair_key(p) (p)->bucket->key
 
 /**
  *\param pair a key-value pair
@@ -214,7 +214,7 @@ void *hashtable_pair_get_key(const HashTablePair *pair);
 void *hashtable_pair_get_value(const HashTablePair *pair);
 
 /*! Accesses the value of a key-value pair directly. */
-#define hashtable_pair_value(p) p->bucket->data
+#define hashtable_pair_value(p) (p)->bucket->data
 
 /**
  *\param pair a HashTablePair
@@ -267,7 +267,7 @@ bool hashtable_iter_next(HashTableIter *iter);
 void *hashtable_iter_get_key(const HashTableIter *iter);
 
 /*! Accesses the key of the current element directly. */
-#define hashtable_iter_key(iter) iter.liter->key
+#define hashtable_iter_key(iter) (iter).liter->key
 
 /**
  *\param iter a HashTableIter
@@ -278,7 +278,7 @@ void *hashtable_iter_get_key(const HashTableIter *iter);
 void *hashtable_iter_get_value(const HashTableIter *iter);
 
 /*! Accesses the value of the current element directly. */
-#define hashtable_iter_value(iter) iter.liter->data
+#define hashtable_iter_value(iter) (iter).liter->data
 
 #endif
 
diff --git a/list.h b/list.h
index f8bead2..398fd35 100644
--- a/list.h
+++ b/list.h
@@ -207,16 +207,16 @@ void list_clear(List *list);
 ListItem *list_find(const List *list, ListItem *offset, void const *data);
 
 /*! Gets next list item. */
-#define list_item_next(item) item->next
+#define list_item_next(item) (item)->next
 
 /*! Gets previous list item. */
-#define list_item_prev(item) item->prev
+#define list_item_prev(item) (item)->prev
 
 /*! Gets data of the specified ListItem. */
-#define list_item_get_data(item) item->data
+#define list_item_get_data(item) (item)->data
 
 /*! Sets data of the specified ListItem. */
-#define list_item_set_data(item, value) item->data = value
+#define list_item_set_data(item, value) ((item)->data = (value))
 
 /**
  *\param list a List
diff --git a/rbtree.h b/rbtree.h
index 01f4270..3df2bc3 100644
--- a/rbtree.h
+++ b/rbtree.h
@@ -214,7 +214,7 @@ RBTreePair *rbtree_lookup(RBTree *tree, const void *key);
 void *rbtree_pair_get_key(const RBTreePair *pair);
 
 /*! Accesses the key of a key-value pair directly. */
-#define rbtree_pair_key(p) p->node->key
+#define rbtree_pair_key(p) (p)->node->key
 
 /**
  *\param pair a key-value pair
@@ -225,7 +225,7 @@ void *rbtree_pair_get_key(const RBTreePair *pair);
 void *rbtree_pair_get_value(const RBTreePair *pair);
 
 /*! Accesses the value of a key-value pair directly. */
-#define rbtree_pair_value(p) p->node->value
+#define rbtree_pair_value(p) (p)->node->value
 
 /**
  *\param pair a RBTreePair
@@ -294,7 +294,7 @@ bool rbtree_iter_next(RBTreeIter *iter);
 void *rbtree_iter_get_key(const RBTreeIter *iter);
 
 /*! Accesses the key of the current element directly. */
-#define rbtree_iter_key(iter) iter.sp->node->key
+#define rbtree_iter_key(iter) (iter).sp->node->key
 
 /**
  *\param iter a RBTreeIter
@@ -305,7 +305,7 @@ void *rbtree_iter_get_key(const RBTreeIter *iter);
 void *rbtree_iter_get_value(const RBTreeIter *iter);
 
 /*! Accesses the value of the current element directly. */
-#define rbtree_iter_value(iter) iter.sp->node->value
+#define rbtree_iter_value(iter) (iter).sp->node->value
 
 #endif
 
diff --git a/slist.h b/slist.h
index 8dc8b67..09688aa 100644
--- a/slist.h
+++ b/slist.h
@@ -198,13 +198,13 @@ void slist_clear(SList *list);
 SListItem *slist_find(const SList *list, SListItem *offset, void const *data);
 
 /*! Get next list item. */
-#define slist_item_next(item) item->next
+#define slist_item_next(item) (item)->next
 
 /*! Gets data of the specified SListItem. */
-#define slist_item_get_data(item) item->data
+#define slist_item_get_data(item) (item)->data
 
 /*! Sets data of the specified SListItem. */
-#define slist_item_set_data(item, value) item->data = value
+#define slist_item_set_data(item, value) ((item)->data = (value))
 
 /**
  *\param list a SList
-- 
2.43.0


From 816c23b488df871661236c4ef34b58899dc8fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:08 +0000
Subject: [PATCH 10/11] fix: queue.h can be included first

---
 queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queue.h b/queue.h
index 37584e8..acfc702 100644
--- a/queue.h
+++ b/queue.h
@@ -19,11 +19,11 @@
  * \brief Generic queue.
  * \author Sebastian Fedrau <sebastian.fedrau@gmail.com>
  */
+#include "stack.h"
+
 #ifndef QUEUE_H
 #define QUEUE_H
 
-#include "stack.h"
-
 /**
  *\typedef Queue
  *\brief Generic queue.
-- 
2.43.0


From 2977add8eb4f9a0dafb19db94fc84ef9bd1c435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:08 +0000
Subject: [PATCH 11/11] fix: ASSOC_ARRAY_MAX_SIZE does not depend on limits.h

---
 assocarray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/assocarray.h b/assocarray.h
index 55484a9..b0cb4dd 100644
--- a/assocarray.h
+++ b/assocarray.h
@@ -23,12 +23,13 @@
 #define ASSOCARRAY_H
 
 #include <stdbool.h>
+#include <stdint.h>
 #include <sys/types.h>
 
 #include "datatypes.h"
 
 /*! Supported maximum size. */
-#define ASSOC_ARRAY_MAX_SIZE (SSIZE_MAX / sizeof(void *))
+#define ASSOC_ARRAY_MAX_SIZE (SIZE_MAX / 2 / sizeof(void *))
 
 /**
  *\struct AssocArray
-- 
2.43.0

