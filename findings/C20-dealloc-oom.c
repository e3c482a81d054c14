/*
 * Known finding, property C20: matras_dealloc() copies the last block's extents
 * when a read view shares them, ignores that the copy may fail, and then frees
 * the shared extent: the view reads freed memory. matras_dealloc() returns
 * nothing, so it has no way to report the failure.
 * Exit 1 if the defect shows, 0 if not.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "matras.h"

static int fail, freed_shared;
static void *shared;

static void *
ext_alloc(struct matras_allocator *a)
{
	if (fail)
		return NULL;
	return calloc(1, a->extent_size);
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	(void)a;
	if (p == shared)
		freed_shared = 1;
	/* kept: the program only looks at what is released */
}

int
main(void)
{
	struct matras_allocator a;
	struct matras m;
	struct matras_view v;
	matras_id_t id;
	matras_allocator_create(&a, 64, ext_alloc, ext_free);
	matras_create(&m, 64, &a, NULL);
	shared = matras_alloc(&m, &id);
	strcpy((char *)shared, "kept by the view");
	matras_create_read_view(&m, &v);
	fail = 1;
	matras_dealloc(&m);
	if (freed_shared && matras_view_get(&m, &v, id) == shared) {
		printf("matras_dealloc() under OOM released the extent the open view reads\n");
		return 1;
	}
	return 0;
}
