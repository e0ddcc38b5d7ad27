PROP = 'C36'
FILE = 'stack.h'
EDITS = [("#define stack_push(stack, data) slist_prepend(stack, data)", "#define stack_push(stack, data) slist_prepend(stack, (void *)data)")]
NEEDS = 'a pointer expression with an operator as datum'
BREAKS = 'the cast applies to the first operand only, another address is pushed'
DEMO = r'''
#include "datatypes.h"
int main(void)
{
	static int a[4];
	Stack s;
	void *p = NULL;
	stack_init(&s, direct_compare, NULL, NULL);
	for(int i = 0; i < 4; ++i)
		stack_push(&s, a + i);
	stack_pop(&s, &p);
	stack_free(&s);
	return p != &a[3];
}
'''
