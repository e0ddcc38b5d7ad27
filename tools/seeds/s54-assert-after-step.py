PROP = 'C37'
FILE = 'assocarray.c'
EDITS = [("""_assoc_array_insert_after_offset(AssocArray *array, void *key, void *value, ssize_t offset)
{
	assert(array != NULL);
	assert(key != NULL);
	assert(offset >= 0 && array->count > (size_t)offset);

	++offset;
""", """_assoc_array_insert_after_offset(AssocArray *array, void *key, void *value, ssize_t offset)
{
	assert(array != NULL);
	assert(key != NULL);

	++offset;

	assert(offset > 0 && array->count > (size_t)offset);
""")]
NEEDS = 'a build with assertions; a key greater than all keys of a non-empty array'
BREAKS = 'the assertion fails although the insertion at the end is valid'
CFLAGS = '-UNDEBUG'
DEMO = r'''
#include "assocarray.h"
#include "compare.h"
int main(void)
{
	AssocArray a;
	assoc_array_init(&a, str_compare, NULL, NULL);
	assoc_array_set(&a, "a", "1", true);
	assoc_array_set(&a, "b", "2", true);
	return assoc_array_count(&a) != 2;
}
'''
