"""All analysis tasks and what is said about each property."""
import importlib
import os

MODULES = ['listspec', 'poolspec', 'assocspec', 'hashspec', 'asyncspec', 'lintspec', 'ifacespec', 'helpspec', 'bufspec', 'treespec']

TRUSTED = ['clang 18 front end and the sroa pass (source to IR)', 'engine/*.py (the abstract interpreter)',
           'specs/*.py (pre-states, callback models, post-conditions)']
ASSUMPTIONS = ['user callbacks behave as documented (compare is a total order, free releases, no re-entrance)',
               'containers hold fewer than 2^58 elements', 'the library is built with NDEBUG, as its Makefile does']


def tasks(prog):
    out = []
    only = os.environ.get('VERIF_MODULES', '').split()      # development only
    for m in only or MODULES:
        out.extend(importlib.import_module(m).tasks(prog))
    return out


def assumptions(prop):
    """the assumptions made for a property"""
    out = PROPERTIES[prop].get('assumes', []) + ASSUMPTIONS
    return [a for a in out if not (prop == 'C37' and 'NDEBUG' in a)]


SHAPE = 'abstract interpretation of the LLVM IR with a shape domain for the container and linear constraints'


def p(how, rule, level='other', **kw):
    return dict(how=how, rule=rule, level=level, **kw)


PROPERTIES = {
    'C01': p('Every public list_* function is interpreted from a summary of all well-formed lists to a fixpoint.',
             'at every exit: next chain ends at tail, prev is its mirror, count equals the number of items; every access hits a live item'),
    'C02': p('Every public slist_* function is interpreted from a summary of all well-formed slists to a fixpoint.',
             'at every exit: next chain ends in NULL at tail, count equals the number of items; every access hits a live item'),
    'C03': p('Ghost element identities are carried through append/prepend/pop/remove/remove_by_data/clear.',
             'exactly the named elements leave, the others keep order and datum'),
    'C04': p('insert_sorted is interpreted with the recorded results of the compare calls.',
             'the new item lies between an element known to be <= and one known to be >= the datum'),
    'C05': p('find/contains are interpreted with the recorded results of the compare calls.',
             'result compares equal; on NULL every element of the range was compared and differs'),
    'C06': p('stack_*/queue_* functions and macros are interpreted over all slists.',
             'push at head/tail, pop takes the head and hands out its datum'),
    'C07': p('The free callback is modelled as a typestate change of the element.',
             'each removed non-NULL datum is released exactly once, kept and handed out data never'),
    'C08': p('Allocation origin is a typestate of every item.',
             'items go back once to the allocator they came from, nothing leaks, nothing is used afterwards'),
    'C09': p('Every public hashtable_* function is interpreted for an arbitrary bucket array; the chain of the bucket under '
             'inspection is a list summary, all other buckets are runs of well-formed chains, hash values are uninterpreted terms.',
             'an entry sits in the bucket hash mod size of its key, is found iff compare says so, set/remove touch no other entry'),
    'C10': p('The rehash loops are interpreted over runs of buckets for an arbitrary step of the size table, whose constants are read '
             'from the IR initialiser.',
             'every entry moves once into its new bucket, the new size is larger, the old array is freed, abort at the end of the table'),
    'C11': p('iter_init/iter_next/get_key/get_value are driven by a loop over the whole table.',
             'every entry of every bucket is visited once, false afterwards, the table is not written'),
    'C12': p('Release of keys and values is a typestate of chain summaries and single entries.',
             'each leaving key and each leaving non-NULL value released exactly once, kept or passed-in ones never'),
    'C13': p('Every public rbtree_* function is interpreted for every red-black tree: whole subtrees and paths of the tree are '
             'summaries carrying ranks, black heights and colours as linear terms, opened on access and folded back at loop heads '
             'and cycles of calls; the search key sits at an unknown rank.',
             'at every exit an in-order walk of the tree yields exactly the keys (with their values) the operation has to leave, in '
             'order; lookups find a key iff it is stored; result and count are truthful'),
    'C14': p('Insertion and removal are interpreted to a fixpoint through every rebalancing case over all red-black trees; each '
             'fold of nodes into a summary and each exit is an obligation on colours and black heights.',
             'root black, no red node with a red child, equal black heights on both sides of every node'),
    'C15': p('iter_init/next/reuse/free are driven by loops over all trees; nodes carry a visited mark, the traversal stack is an '
             'array whose runs mirror paths of the tree.',
             'every node visited once, false afterwards and again, NULL without a current node, the tree is not written, every '
             'stack access in bounds'),
    'C16': p('Release of keys and values is a typestate over ranges of ranks and of the distinguished entry; the recursive '
             'destructor is checked against the contract used for its own calls.',
             'leaving keys and non-NULL values released exactly once, nothing else; nodes, stack and tree given back'),
    'C17': p('Every public assoc_array_* function is interpreted over a summary of all sorted arrays; the search key sits at an '
             'unknown position between or on the stored keys, which only compare calls reveal.',
             'strictly ascending keys, pairs stay together, a key is found iff compare says so, iteration steps by one entry'),
    'C18': p('Storage extents and indices are linear terms over count and capacity.',
             'every access and memmove/realloc extent lies inside the allocated storage; count <= capacity; abort at the maximum'),
    'C19': p('Release of keys and values is a typestate over index ranges.',
             'leaving keys/values released exactly once, nothing else; both storages freed'),
    'C20': p('set is interpreted for present and absent keys, both overwrite modes, with and without free functions.',
             'result code, stored key/value pointers and released objects follow the documented contract'),
    'C21': p('Pool blocks are byte ranges of ghost items (fresh, handed out, given back).',
             'a handed out item is a whole in-bounds item that was fresh or given back'),
    'C22': p('Block and free-list bookkeeping is interpreted over summaries of all pools.',
             'released items first, then the current block, then a new block; destroy frees everything once'),
    'C23': p('Every public buffer_* function is interpreted for every buffer (maximum size, length, allocated size are linear terms '
             'modulo 2^64), valid and invalid.',
             'len <= max_size, len <= msize <= allocation; a fill is accepted iff it fits; invalid buffers stay invalid and empty until '
             'cleared; every access is in bounds'),
    'C24': p('Memory content is a sequence of runs taken from ghost byte sequences (stored bytes, data to store, bytes read from the '
             'descriptor); the position of the first newline is a ghost.',
             'after each call the stored and delivered runs are exactly the expected parts of the ghost sequences'),
    'C25': p('Destination strings are byte runs in a live allocation of unknown size.',
             'delivered bytes are followed by NUL inside the allocation; the length never claims more than the allocation; a '
             'destination that suffices stays; nothing is touched on failure'),
    'C26': p('Every public async_queue_* function is interpreted; the mutex is a typestate and the fields of the queue are guarded memory.',
             'every access to guarded memory happens with the mutex held; the mutex is taken and given back once on every path'),
    'C27': p('At a condition wait the queue is replaced by an arbitrary one (any schedule of other threads, spurious and stolen '
             'wakeups); the waiter count is a linear term.',
             'wait only with the queue empty and the thread registered; push signals whenever somebody is registered; pop without '
             'timeout returns an item; the waiter count is restored'),
    'C28': p('The clock is a pair of unknown integers that only grows; the deadline handed to the condition wait is a linear term.',
             'deadline = time of the call + timeout, to the millisecond, nanoseconds below 10^9; false only after the deadline with an '
             'empty queue'),
    'C29': p('Ghost element identities are carried through push, pop, timed pop and clear, also across waits.',
             'push appends one item, pop takes the oldest, clear/free/destroy release everything, mutex and condition are '
             'initialised and destroyed once'),
    'C30': p('malloc, calloc, realloc and the mutex functions may fail at every call of every analysed function.',
             'a failed request is followed by a diagnostic and abort, and its result is not used before'),
    'C31': p('The address of every static datum is followed through the IR of the whole library; every external call is looked up in '
             'a table of functions with and without hidden state.',
             'no static datum is written or handed out as modifiable; no function with hidden state is called'),
    'C32': p('Query functions are interpreted with the container marked read-only.',
             'a query writes no memory of the container, releases nothing, and leaves order and size as they were'),
    'C34': p('The helpers are interpreted over all strings (byte arrays of unknown length) and all pointer values; the common '
             'prefix of the strings is a ghost; the hash value is followed backwards through the data flow.',
             'str_equal answers equal exactly if both strings ended after a common prefix; no access behind a terminator; every byte '
             'and nothing but bytes flows into str_hash; the sign of direct_compare is that of the difference'),
    'C35': p('The loop-head states of every analysed function and the linear relations on the paths between them form a graph; each '
             'of its cycles has to be ranked.',
             'every cycle lowers an integer that is bounded from below (lexicographically: loop variables, cells, positions of '
             'pointers, numbers of elements left, sizes of subtrees and their differences); a cycle on which nothing has to change '
             'is reported'),
    'C36': p('Compile witnesses for every order of inclusion; the declared functions (clang AST) are compared with the definitions '
             'in the IR and compiled against each other; the token sequence of every public macro is parsed.',
             'every witness is accepted; every declared function is defined; macro parameters appear once, as a parenthesised or '
             'complete operand, and the body is one postfix or parenthesised expression',
             technique='compile witnesses and a syntactic analysis of the public macros'),
    'C37': p('All analyses of the containers are repeated on the IR of the library built without NDEBUG; a call of the failure '
             'function of assert that the abstract interpretation cannot rule out is reported. Where another rule fails, the '
             'analysis is repeated with NDEBUG to see whether the assertions are the reason.',
             'no path of a correct program leads to the failure of an assertion; no rule fails with assertions only',
             assumes=['keys, callbacks, containers and result pointers the functions assert to be non-null are non-null']),
    'C33': p('Sizes of all stack allocations and all cycles of the call graph are inspected.',
             'no stack allocation of a run-time size; recursion only as a sibling call or into a child of a tree node'),
}

NOT_APPLICABLE = {
    'C40': 'expected cost depends on the distribution of hash values, a runtime quantity; only the deterministic part (growth '
           'loses nothing, sizes increase) is decided, under C10',
    'C41': 'linearizability on real hardware quantifies over memory models and the pthread implementation; the static part '
           '(lock discipline, sequential FIFO under the lock) is decided as C26, C27 and C29',
    'C42': 'fairness and the delay after a deadline are properties of the scheduler and the condition variable, not of this source',
    'C43': 'statistical quality of a hash function over natural key sets cannot be read off the source',
}
