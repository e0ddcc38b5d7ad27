PROP = 'C36'
FILE = 'stack.h'
EDITS = [("#define stack_count(stack) slist_count(stack)", "#define stack_count(stack) ((stack)->head ? slist_count(stack) : 0)")]
NEEDS = 'an argument with a side effect'
BREAKS = 'the argument of stack_count (and queue_count) is evaluated twice'
DEMO = r'''
#include "datatypes.h"
int main(void)
{
	Stack s[3];
	Stack *p = s;
	size_t n = 0;
	for(int i = 0; i < 3; ++i)
	{
		stack_init(&s[i], direct_compare, NULL, NULL);
		for(int k = 0; k <= i; ++k)
			stack_push(&s[i], &s);
	}
	n = stack_count(p++);
	int bad = n != 1 || p != s + 1;
	for(int i = 0; i < 3; ++i)
		stack_free(&s[i]);
	return bad;
}
'''
