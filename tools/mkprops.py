#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as one readable table here).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

H = ["inputs", "histories"]
p("C01", "Doubly-linked list stays well formed under every operation",
  "After any sequence of list operations, following next from the head visits every stored item exactly once and ends at the tail, following prev from the tail visits the same items in reverse and ends at the head, and the reported count is the number of items visited. An empty list has no head, no tail and count zero. No list operation dereferences an invalid pointer on such a list.",
  H, "every list length, every position an operation can hit (only item, first, middle, last), every outcome of the compare function, pooled or not",
  "Tests build lists of at most six items and mostly check next links from the head; e.g. no test inserts in the middle of a sorted list, and prev links are checked in few places.",
  ["list.c", "list.h"],
  [("append/prepend link maintenance", "list.c list_append, list_prepend"), ("detach of an item", "list.c _list_detach, list_remove, list_pop"), ("sorted insertion", "list.c list_insert_sorted")],
  ["list_head", "list_tail", "list_item_next", "list_item_prev", "list_count"])
p("C02", "Singly-linked list stays well formed under every operation",
  "After any sequence of slist operations, following next from the head visits every stored item exactly once and ends with a NULL link at the item the list records as its tail, and the reported count is the number of items visited. An empty slist has no head, no tail and count zero. No slist operation dereferences an invalid pointer on such a list.",
  H, "every list length, every position an operation can hit, every outcome of the compare function, pooled or not",
  "The tail is only checked after a handful of fixed removals; a stale tail shows up only when something is appended afterwards.",
  ["slist.c", "slist.h"],
  [("append/prepend", "slist.c slist_append, slist_prepend"), ("removal keeps tail", "slist.c slist_remove, slist_remove_by_data, slist_pop"), ("sorted insertion", "slist.c slist_insert_sorted")],
  ["slist_head", "slist_item_next", "slist_count", "slist_append after removals"])
p("C03", "List edits change exactly the element they name and keep the others in order",
  "For both list kinds: append adds the new datum as last element, prepend as first, pop removes the first element and returns its datum (NULL on an empty list), remove takes out exactly the given item, and remove_by_data takes out the first element comparing equal, or with remove_all every element comparing equal and no other. All other elements keep their identity, data and relative order.",
  H, "all list contents and lengths, all compare outcomes, all item positions",
  "Tests use at most six fixed strings; adjacent equal elements, equal elements at both ends and single-element lists are sampled once or not at all.",
  ["list.c", "slist.c"],
  [("append/prepend/pop/remove/remove_by_data", "list.c, slist.c")], ["list_head/list_item_next walk", "slist_head/slist_item_next walk"])
p("C04", "Sorted insertion keeps a sorted list sorted",
  "If the elements of a list or slist are in ascending order of its compare function, then after insert_sorted they still are, every previous element is still there in the same relative order, and exactly one new element holding the given datum has been added. This holds wherever the datum belongs: front, end or anywhere in between, including among equal elements.",
  H, "all sorted lists and all positions of the new datum",
  "The tests insert c, b, a into an empty list only, so an insertion position strictly inside the list is never exercised.",
  ["list.c", "slist.c"], [("insertion position search", "list.c _list_prepend_new_sorted, slist.c _slist_prepend_new_sorted")], ["walk after insert_sorted"])
p("C05", "List search finds an element exactly when one compares equal",
  "slist_find returns the first element at or after the given offset (the head when no offset is given) whose datum compares equal to the searched datum, and list_find returns such an element at or after the offset; both return NULL exactly when no element at or after the offset compares equal. contains answers true exactly when find from the head would return an element.",
  H, "all list lengths, match positions and offsets",
  "Tests search two-element lists; the two-ended scan of list_find depends on the parity of the distance between offset and tail.",
  ["list.c", "slist.c"], [("two-ended scan", "list.c _list_find"), ("linear scan", "slist.c _slist_find")], ["list_find", "slist_find", "list_contains", "slist_contains"])
p("C06", "Stack is LIFO, queue is FIFO",
  "stack_push followed by stack_pop yields the pushed datum first (last in, first out) and queue_push followed by queue_pop yields the oldest datum first; pop and head return true exactly when the container is non-empty and then store the first element's datum, even when that datum is NULL. pop removes exactly that one element without releasing its datum, head removes nothing, and popping an empty container returns false, stores NULL and changes nothing.",
  H, "all contents including NULL data, all interleavings of push, pop, head and clear",
  "No test exercises stack or queue directly; the async queue test only sums values.",
  ["stack.c", "stack.h", "queue.h", "slist.c"], [("stack_pop/stack_head", "stack.c"), ("push/pop macros", "stack.h, queue.h")], ["stack_pop", "stack_head", "queue_pop", "queue_head"])
p("C07", "List-family containers release each element's data exactly once",
  "When list, slist, stack or queue elements are removed, cleared, freed or destroyed, the container's free function (if any) is called exactly once on each removed non-NULL datum and on nothing else. Data handed back by pop or still stored is never released, item_free_data releases the datum once and leaves NULL in the item, and no datum is passed to compare or free after it was released.",
  H, "all contents (including NULL data and no free function), all operations",
  "Tests run without a leak or double-free checker and never with NULL data.",
  ["list.c", "slist.c", "stack.c"], [("release of an item", "list.c _list_item_free, slist.c _slist_item_free"), ("pop keeps data", "list.c list_pop, slist.c slist_pop")], ["calls of the FreeFunc"])
p("C08", "Item storage goes back exactly once to the allocator it came from",
  "Every list item and tree node is obtained from the user's pool when the container has one and from the heap otherwise, is given back exactly once to that same allocator when the element leaves the container, and is never read or written after it was given back. Destroying a container additionally releases everything the container itself allocated, and nothing is leaked by any operation.",
  H, "all containers with and without a pool, all operations and contents",
  "Tests never check for leaks, double frees or use after free; pools hide such errors from allocator checks anyway.",
  ["list.c", "slist.c", "rbtree.c", "hashtable.c", "assocarray.c"], [("pool or heap", "list.c _list_item_new/_list_item_free, slist.c, rbtree.c _rbnode_create_new")], ["Pool alloc/free calls", "malloc/free calls"])
p("C09", "Hash table behaves as a map",
  "A lookup after any history of set, remove and clear finds a key exactly when an equal key was set and not removed since, with the value stored last; key_exists agrees with lookup, and count is the number of distinct keys present. set reports NEW exactly when no equal key was present, remove of an absent key changes nothing, and no operation disturbs entries of other keys, whatever collisions occur.",
  H, "all histories, keys, hash functions (including constant ones) and table sizes, fixed or growing",
  "Tests use one word list and consecutive integers with well-spread hashes; long chains, head/middle/last removals and fixed sizes are not covered.",
  ["hashtable.c", "hashtable.h"], [("bucket search, insert, unlink", "hashtable.c hashtable_set, hashtable_remove, _hashtable_find_bucket")], ["hashtable_lookup", "hashtable_key_exists", "hashtable_count"])
p("C10", "Growing a hash table loses nothing and always grows",
  "When an automatically growing hash table resizes, every entry stays reachable under its key with its value and is stored once, and the old bucket array is released. Each new size is larger than the one before, allocation covers the whole new table, and a table that cannot grow any further terminates the program instead of continuing with a bad size. Growth happens in time: the number of entries never exceeds eight per bucket as long as a larger table size is available.",
  H, "all table contents, chain lengths and all steps of the size table",
  "Tests reach only the first few table sizes and check sums, not individual chains.",
  ["hashtable.c"], [("rehash loop", "hashtable.c _hashtable_resize"), ("size table", "hashtable.c PRIMES")], ["hashtable_lookup after growth"])
p("C11", "Hash table iteration visits every entry exactly once",
  "Starting from iter_init, successive iter_next calls on an unmodified table return true once for every stored entry, giving access to its key and value, and then return false, also on every further call. Iteration never modifies the table, and an empty table yields false at once.",
  H, "all distributions of entries over buckets, including empty first and last buckets and long chains",
  "Tests iterate over one distribution of words and integers.",
  ["hashtable.c"], [("bucket walk", "hashtable.c hashtable_iter_next, _hashtable_iter_get_next_bucket")], ["hashtable_iter_next", "hashtable_iter_get_key"])
p("C12", "Hash table releases keys and values exactly once",
  "The key free function is called exactly once on every stored key that leaves the table and the value free function exactly once on every stored non-NULL value that leaves it (by remove, replacement, pair_set_value, clear, free or destroy), and never on anything else such as keys passed in for lookup or kept entries. A removal does not touch a key after releasing it, even when the key it was given is the stored one. After clear the table is empty and usable; free and destroy also release all storage of the table.",
  H, "all contents including NULL values, with or without free functions",
  "Tests run without leak checking and without a value free function.",
  ["hashtable.c"], [("release loops", "hashtable.c _hashtable_free_memory, hashtable_remove, hashtable_set, hashtable_pair_set_value")], ["FreeFunc calls"])
p("C13", "Red-black tree behaves as an ordered map",
  "After any history of set, remove and clear the tree is a search tree under its compare function: a lookup finds a key exactly when an equal key is present, with the value stored last, key_exists agrees, count is the number of nodes, and set and remove report truthfully whether the key was present. Keys and values of other entries are never lost, exchanged or duplicated by rebalancing or by removing a node with two children.",
  H, "all tree shapes and histories, all comparison outcomes",
  "Tests insert words and ascending integers and remove every third; most rebalancing cases with a subsequent lookup of every key are never checked.",
  ["rbtree.c", "rbtree.h"], [("descent and linking", "rbtree.c _rbtree_insert_child, _rbtree_find_node"), ("rotations and replacement", "rbtree.c _rbnode_rotate_left/right, _rbnode_replace, rbtree_remove")], ["rbtree_lookup", "rbtree_count"])
p("C14", "Red-black tree stays balanced",
  "After every set and remove the tree satisfies the red-black rules: the root is black, no red node has a red child, and every path from the root to a missing child contains the same number of black nodes. Hence the height is at most 2*log2(count+1) and lookups stay logarithmic for every insertion and removal order.",
  H, "all tree shapes, all insertion and removal orders, every rebalancing case including mirrored ones",
  "No test looks at colours or heights; an unbalanced tree passes every existing test, only slower.",
  ["rbtree.c"], [("insert cases 1-5", "rbtree.c _rbtree_insert_case1, _rbtree_insert_case2_to_6"), ("remove cases 1-6", "rbtree.c _rbtree_remove_case1, _rbtree_remove_case2, _rbtree_remove_case3_to_6")], ["node colours reachable from the tree's root"])
p("C15", "Red-black tree iteration visits every node once and iterators are safe",
  "Starting from iter_init or iter_reuse, successive iter_next calls on an unmodified tree return true exactly once per node and then return false, also on every further call, never touching memory outside the iterator's stack. iter_init, iter_next, iter_reuse and iter_free may be used in any sensible order on empty and non-empty trees, and reading key or value with no current node yields NULL.",
  H, "all tree shapes and sizes, including empty trees and trees that grew between reuse",
  "Tests iterate over non-empty trees once and never call iter_reuse, nor iter_free after iterating an empty tree.",
  ["rbtree.c"], [("explicit traversal stack", "rbtree.c rbtree_iter_init, rbtree_iter_next, rbtree_iter_reuse")], ["rbtree_iter_next", "rbtree_iter_get_key", "rbtree_iter_free"])
p("C16", "Red-black tree releases keys and values exactly once",
  "The key free function is called exactly once on every stored key that leaves the tree and the value free function exactly once on every stored non-NULL value that leaves it (by remove, replacement, pair_set_value, clear, free or destroy), and never on a key or value that stays in the tree or was never stored. A removal does not touch a key after releasing it, even when the key it was given is the stored one. Clear leaves an empty usable tree; free and destroy also release the tree's working storage.",
  H, "all tree shapes, removal of leaves, inner nodes and nodes with two children, NULL values, with or without free functions",
  "Tests run without leak checking and without a value free function.",
  ["rbtree.c"], [("recursive release", "rbtree.c _rbtree_destroy_node"), ("removal and replacement", "rbtree.c rbtree_remove, _rbtree_replace_node, rbtree_pair_set_value")], ["FreeFunc calls"])
p("C17", "Associative array is a map kept in key order",
  "After any history of set, remove and clear the stored keys are strictly ascending under the compare function and each key is paired with the value stored last for it; lookup and key_exists find a key exactly when it is present, set reports NEW or REPLACED truthfully, and count is the number of entries. Iteration visits all entries once in ascending key order and then returns false.",
  H, "all histories and all positions (first, last, between any two keys) at all array sizes",
  "Tests check sums and membership of five words; order and pairing at insertion positions and capacity boundaries are not checked individually.",
  ["assocarray.c", "assocarray.h"], [("binary search", "assocarray.c _assoc_array_binary_search"), ("shifting inserts and removal", "assocarray.c _assoc_array_insert_before_offset, _assoc_array_insert_after_offset, assoc_array_remove")], ["assoc_array_lookup", "assoc_array_iter_next"])
p("C18", "Associative array never accesses memory outside its capacity",
  "Every access to the key and value storage stays inside the allocated capacity, capacity always is at least the entry count and both storages always have the same capacity. When the array is full it grows before an insertion and keeps all entries; at the maximum size it terminates the program rather than overflow a size computation.",
  H, "all counts and capacities up to the maximum, in particular insertion into an exactly full array",
  "The off-by-one cases at capacity are invisible without memory checking.",
  ["assocarray.c"], [("growth", "assocarray.c _assoc_array_resize_if_necessary"), ("memmove extents", "assocarray.c")], ["assoc_array_size", "assoc_array_count"])
p("C19", "Associative array releases keys and values exactly once",
  "The key free function is called exactly once on every stored key that leaves the array and the value free function exactly once on every stored non-NULL value that leaves it (by remove, replacement, pair_set_value, clear, free or destroy), and never on anything else. A removal does not touch a key after releasing it, even when the key it was given is the stored one. Clear leaves an empty usable array; free and destroy also release both storages.",
  H, "all contents including NULL values, with or without free functions",
  "Tests run without leak checking and without a value free function.",
  ["assocarray.c"], [("release loop", "assocarray.c _assoc_array_free_memory, assoc_array_remove, _assoc_array_replace, assoc_array_pair_set_value")], ["FreeFunc calls"])
p("C20", "Setting an existing key follows the documented replacement contract",
  "In all three maps, setting a key that is already present keeps the entry count, reports REPLACED, releases the old non-NULL value once and stores the new one; with overwrite_key the old key is released once and the passed key is stored, without it the old key stays stored unreleased and the passed key is neither stored nor released. Setting a new key stores the passed key and value, releases nothing, reports NEW and increases the count by one.",
  H, "all keys and values, both overwrite modes, with and without free functions, all three map types",
  "Tests never observe which key pointer is stored after a replacement or which pointers are released.",
  ["hashtable.c", "rbtree.c", "assocarray.c"], [("replacement", "hashtable.c hashtable_set, rbtree.c _rbtree_replace_node, assocarray.c _assoc_array_replace")], ["return value of *_set", "FreeFunc calls", "*_pair_get_key"])
p("C21", "Pool hands out disjoint items inside its blocks",
  "Every item a memory pool hands out lies completely inside memory the pool allocated and does not overlap any other item that is currently handed out, for every item size, block size and sequence of allocations and releases. An item is handed out again only after it was given back, and only once per time it was given back.",
  H, "all item sizes and block sizes greater than one, all alloc/free sequences, in particular exactly full blocks and exactly full free lists",
  "The pool is only used through lists with block size 8 and at most six items, so block boundaries are never crossed.",
  ["pool.c", "pool.h"], [("bump allocation", "pool.c _memory_pool_try_get_current_item, _memory_pool_get_item_from_new_block"), ("free list", "pool.c _memory_pool_free, _memory_pool_try_get_detached_item")], ["Pool alloc/free"])
p("C22", "Pool recycles released items and frees all its memory",
  "An allocation takes a previously released item whenever one is available and then an unused slot of the current block, and obtains a new block only when neither exists. Destroying a pool releases every block and every bookkeeping structure it allocated exactly once, whatever was handed out or given back before, and no other operation loses track of one.",
  H, "all alloc/free sequences and pool sizes",
  "No test destroys a pool after block or free-list boundaries were crossed, and none checks for leaks.",
  ["pool.c"], [("free list blocks", "pool.c _memory_pool_try_get_detached_item, _memory_pool_free"), ("destruction", "pool.c memory_pool_destroy")], ["malloc/free calls"])
p("C23", "Buffer enforces its size limit and stays inside its memory",
  "A buffer never holds more than its maximum number of bytes: a fill that would exceed it stores nothing, makes the buffer invalid and reports failure, and an invalid buffer stays invalid, ignores new data, takes none from a file descriptor, and reports length zero until it is cleared. Every other fill succeeds for any length up to the limit, the limit itself included, and all accesses stay inside the buffer's allocated memory.",
  H, "all maximum sizes, fill lengths (zero, exactly full, one over, huge) and growth steps",
  "The test fills to one limit in steps of 256; growth boundaries and overflowing lengths are not sampled.",
  ["buffer.c", "buffer.h"], [("limit check and growth", "buffer.c buffer_fill, _buffer_new_realloc_size"), ("validity", "buffer.c RETURN_IF_INVALID")], ["buffer_fill", "buffer_len", "buffer_is_valid"])
p("C24", "Buffer delivers exactly the bytes that were written, in order",
  "The buffer's content is the concatenation of all bytes accepted since the last clear minus the lines already read: fill and fill_from_fd append exactly the given or read bytes, read_line delivers the bytes before the first newline and consumes them together with that newline only, and returns false consuming nothing if there is no newline. flush and to_string deliver all stored bytes without consuming any.",
  H, "all contents (including NUL bytes and consecutive newlines) and all fill/read sequences",
  "The test reads one line and flushes one remainder.",
  ["buffer.c"], [("append", "buffer.c buffer_fill, buffer_fill_from_fd"), ("line extraction", "buffer.c buffer_read_line, _buffer_copy_to_string")], ["buffer_read_line", "buffer_flush", "buffer_to_string"])
p("C25", "Strings produced by a buffer fit their memory and are NUL-terminated",
  "read_line, flush and to_string always terminate the produced string with a NUL byte directly after the delivered bytes and never write beyond the destination: a caller-provided destination whose given length suffices is used as is and otherwise it is reallocated to fit, with the length updated so that it never claims more than the memory available. On failure the destination and length are left untouched.",
  H, "all destination lengths relative to the string length, in particular equal, one less and one more",
  "The test reuses one small destination; writes one byte past the end are invisible without memory checking.",
  ["buffer.c"], [("destination sizing", "buffer.c _buffer_copy_to_string, buffer_to_string")], ["buffer_read_line", "buffer_flush", "buffer_to_string"])
S = ["schedules", "histories"]
p("C26", "Async queue state is only touched under its mutex, which is always released",
  "In every schedule, each access to the queue's items and waiter bookkeeping by push, pop, timed pop, clear and count happens while the calling thread holds the queue's mutex. Every such call acquires the mutex once, releases it exactly once on every path before returning, and never blocks on anything but the mutex or the condition wait that gives the mutex up.",
  S, "all schedules of any number of producers and consumers, all paths through each operation including timeouts",
  "The test runs one producer and one consumer per queue; a missing lock shows up only under rare interleavings.",
  ["asyncqueue.c"], [("mutex around every operation", "asyncqueue.c async_queue_push, _async_queue_pop, async_queue_clear, async_queue_count")], ["data races", "deadlocks"])
p("C27", "Async queue never loses a wakeup and blocking pop returns an item",
  "A consumer decides to wait and registers as waiting atomically with finding the queue empty, and every push while a consumer is registered signals, so no consumer sleeps while an item it could take is in the queue. A pop without timeout returns only with an item, whatever spurious or stolen wakeups occur, and the number of registered waiters is restored on every path.",
  S, "all schedules of any number of producers and consumers, including spurious wakeups and wakeups whose item was taken by another consumer",
  "One consumer per queue and a steady producer: stolen wakeups cannot occur in the test.",
  ["asyncqueue.c"], [("waiting counter and signal", "asyncqueue.c async_queue_push, _async_queue_cond_wait"), ("re-check after wait", "asyncqueue.c _async_queue_pop")], ["async_queue_pop"])
p("C28", "Timed pop waits for the requested time",
  "A timed pop on an empty queue waits until an item arrives or the requested number of milliseconds has passed since the call: its deadline is a well-formed absolute time equal to the current time plus the timeout, in millisecond resolution or better. It returns false only after the deadline passed without an item it could take.",
  ["schedules", "inputs"], "all timeouts (below one second, across a second boundary, multiple seconds) and all current times",
  "The test only uses a timeout of exactly 1000 ms and never checks how long it waited.",
  ["asyncqueue.c"], [("deadline computation", "asyncqueue.c _async_queue_cond_wait")], ["async_queue_pop_timeout"])
p("C29", "Async queue delivers items in order, each exactly once",
  "Under its mutex the async queue behaves as a FIFO: push adds exactly one item at the end, a successful pop removes exactly the oldest item and stores its datum, an unsuccessful pop removes nothing, clear removes and releases everything, and count reports the number of items. Creation yields an empty queue with an initialised mutex and condition, and free/destroy release items, mutex and condition.",
  S, "all histories of operations in lock order, all contents",
  "The test only sums up values modulo 3, which neither sees order nor duplication.",
  ["asyncqueue.c", "queue.h", "stack.c", "slist.c"], [("delegation to the queue", "asyncqueue.c")], ["async_queue_pop", "async_queue_count"])
p("C30", "Failed allocations and lock operations are never ignored",
  "Whenever the system refuses memory to the library the program is terminated with a diagnostic before the missing memory is used, in every function and on every path. A failing mutex operation is reported likewise and never leads to unprotected access of the queue.",
  ["fault_sequences", "inputs"], "every allocation and lock call, failing at any point",
  "Allocation failures never happen in the tests.",
  ["pool.c", "list.c", "slist.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "asyncqueue.c"], [("NULL check and abort()", "every malloc/calloc/realloc call"), ("PTHREAD_CRITICAL_CALL", "asyncqueue.c")], ["malloc returning NULL"])
p("C31", "The library has no hidden shared state",
  "Operations on different containers never influence each other: the library keeps no modifiable global or static data and calls no external function that does so on its behalf, so distinct objects can be used from distinct threads without synchronisation. All state lives in the objects the caller passes in.",
  ["schedules", "histories"], "all programs using several containers, in one or several threads",
  "Tests use one container at a time.",
  ["*.c"], [("no static or global variables", "all sources")], ["two containers used concurrently"])
p("C32", "Queries do not modify what they query",
  "Counting, emptiness tests, head/tail access, find, contains, key_exists, iteration and all other functions taking a const container leave its elements, order, keys, values and size unchanged and release nothing; lookup changes nothing but the pair object it returns. Repeating a query therefore gives the same answer.",
  H, "all containers and contents, every query function",
  "Tests do not compare containers before and after queries.",
  ["list.c", "slist.c", "stack.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c"], [("const parameters", "headers")], ["any query repeated"])
p("C33", "Stack consumption does not depend on the caller's data sizes",
  "No library function places an amount of data on the thread's stack that grows with a caller-supplied size, buffer capacity or element count; the only recursion is bounded by the height of a balanced tree. Large buffers and large containers therefore work on ordinary thread stacks.",
  ["inputs"], "all sizes and element counts",
  "The tests' buffers hold 4096 bytes.",
  ["buffer.c", "rbtree.c", "*.c"], [("stack allocations", "buffer.c buffer_fill_from_fd"), ("recursion", "rbtree.c")], ["large count in buffer_fill_from_fd"])
p("C34", "Comparison and hash helpers are consistent",
  "str_equal holds exactly for strings with identical bytes up to the terminating NUL and never reads past it; str_hash depends on exactly those bytes, so equal strings hash equally. direct_equal is pointer identity, direct_compare is a total order consistent with it whose sign is right for all pointer values, and direct_hash depends on the pointer value only.",
  ["inputs"], "all strings (empty, prefixes of each other, high bytes) and all pointer values, including far apart ones",
  "Tests use words of one file and small integers.",
  ["compare.c", "hash.c", "compare.h", "hash.h"], [("str_equal, direct_compare, direct_equal", "compare.c"), ("str_hash, direct_hash", "hash.c")], ["return values"])
p("C35", "Every operation finishes",
  "Every call of a public function returns (or aborts with a diagnostic when memory is refused) after finitely many steps: no loop of the library can run forever, whatever the container, its contents, its capacity and the arguments are. Only a pop that waits for another thread may wait without bound.",
  ["inputs", "histories"], "all containers and arguments, every loop of the library",
  "Tests stop for the handful of sizes, keys and capacities they use.",
  ["*.c"], [("binary search", "assocarray.c"), ("growth and rehash loops", "hashtable.c, buffer.c, stack growth in rbtree.c"), ("list walks", "list.c, slist.c, pool.c"), ("rebalancing loops", "rbtree.c"), ("retry loops", "buffer.c, asyncqueue.c")],
  ["a call that does not return"])
p("C36", "The public headers are a closed and complete interface",
  "Every public header can be included on its own, repeatedly and after any other public header, with and without WITH_PTHREAD. Every function a header declares is defined by the library with the declared type. Every documented macro treats its arguments like a function does: any expression is taken as a whole and evaluated exactly once, and the expansion is a closed expression that the operators around it cannot take apart.",
  ["inputs"], "all orders of inclusion, all argument expressions of the macros",
  "The tests include datatypes.h only and pass plain variables to the macros.",
  ["*.h"], [("macros", "list.h, slist.h, hashtable.h, rbtree.h, assocarray.h, stack.h, queue.h, compare.h"), ("include guards", "*.h"), ("declarations", "*.h")],
  ["value of a macro call with a compound argument", "a program that includes one header"])
p("C37", "Assertions never stop a correct program",
  "In a build of the library with assertions enabled, no assertion fails as long as the program keeps to the documented preconditions: for every state a container can reach and every valid argument, the asserted conditions hold, also those the library's own code meets when it calls other functions. Evaluating the assertions changes nothing: the library does the same with and without them.",
  H, "all containers and valid arguments, all internal calls",
  "The tests are compiled with NDEBUG, so no assertion is ever evaluated by them.",
  ["*.c"], [("argument assertions", "*.c, first statements of the functions"), ("internal assertions", "rbtree.c, assocarray.c, hashtable.c helper functions")],
  ["a debug build that aborts"])
p("C40", "Hash table operations take expected constant time",
  "With a hash function that spreads keys evenly, the cost of set, lookup and remove in a growing hash table stays bounded on average as the number of entries grows. Growth happens often enough that the average chain length stays bounded.",
  H, "all key sets and histories", "Tests do not measure cost.",
  ["hashtable.c", "hash.c"], [("load factor check", "hashtable.c hashtable_set")])
p("C41", "Async queue operations are linearizable on real hardware",
  "Every concurrent history of push, pop, clear and count on one async queue is equivalent to a sequential FIFO history respecting real-time order. This includes the visibility of the pushed data to the consumer.",
  S, "all concurrent histories", "Tests run two consumers for a few milliseconds.",
  ["asyncqueue.c"], [("mutex", "asyncqueue.c")])
p("C42", "Consumers are served fairly and timed waits end on time",
  "No waiting consumer is overtaken forever, and a timed pop returns within a bounded delay after its deadline. ",
  S, "all schedules", "Scheduling-dependent.", ["asyncqueue.c"], [("condition variable", "asyncqueue.c")])
p("C43", "str_hash spreads keys",
  "str_hash distributes distinct strings over the 32-bit range without systematic collisions for natural key sets. ",
  ["inputs"], "all natural key sets", "Statistical.", ["hash.c"], [("sdbm hash", "hash.c str_hash")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
