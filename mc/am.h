#pragma once
// Glue between the explorer and the amelie sources.
#include <amelie_runtime>
#include <amelie_server>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include "mc.h"

// called once in every worker inside of the runtime main coroutine
void am_setup(void);

// text of the last caught error
static inline const char*
am_error_text(void)
{
	static char text[512];
	auto e = &am_self()->error;
	int size = buf_size(&e->text);
	if (size > 500)
		size = 500;
	memcpy(text, e->text.start, size);
	text[size] = 0;
	return text;
}
