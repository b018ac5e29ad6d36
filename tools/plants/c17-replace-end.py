ID="c17-replace-end"; PROP="C17"
NEEDS="replacing at the position just past the end"
BREAKS="Replacing at the position after the last element is reported as done and writes past the elements, past the buffer when the list is full."
EDITS=[("modules/collections/src/list.c","""	if(index >= list->size)
	{
		return 0;
	}
	
	return array_list_insertion_helper""","""	if(index > list->size)
	{
		return 0;
	}
	
	return array_list_insertion_helper""")]
DEMO=r'''
#include "collections/list.h"
#include "hdbscan/utils.h"
#include <stdio.h>
int main() {
    ArrayList *l = array_list_init(8, sizeof(int), int_compare);
    int x = 5;
    for (int i = 0; i < 3; i++) array_list_append(l, &i);
    int r = array_list_replace_at(l, &x, 3);
    printf("returned %d, size %d\n", r, (int)l->size);
    return r != 0;
}
'''
