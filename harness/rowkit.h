#pragma once
// Columns, keys, index configurations and rows for the harnesses.
#include "am.h"

static inline Column*
kit_column(Columns* columns, const char* name, int type, int type_size)
{
	auto column = column_allocate();
	Str str;
	str_set(&str, (char*)name, strlen(name));
	column_set_name(column, &str);
	column_set_type(column, type, type_size);
	columns_add(columns, column);
	return column;
}

static inline void
kit_key(Keys* keys, int ref)
{
	auto key = key_allocate();
	key_set_ref(key, ref);
	keys_add(keys, key);
}

static inline IndexConfig*
kit_index(Columns* columns, const char* name, int type, bool unique, bool primary, int key_column)
{
	auto config = index_config_allocate(columns);
	Str str;
	str_set(&str, (char*)name, strlen(name));
	index_config_set_name(config, &str);
	index_config_set_type(config, type);
	index_config_set_unique(config, unique);
	index_config_set_primary(config, primary);
	if (key_column >= 0)
		kit_key(&config->keys, key_column);
	return config;
}

// row of int64 columns, allocated with malloc
static inline Row*
kit_row_write(void* at, int columns, int64_t* values, bool* nulls)
{
	int data = 0;
	for (int i = 0; i < columns; i++)
		if (! nulls || ! nulls[i]) data += 8;
	int  size_factor;
	int  size = row_measure(columns, data, &size_factor);
	Row* row = at ? at : malloc(size);
	row_init(row, columns, size_factor, size);
	uint8_t* pos = row_data(row, columns);
	for (int i = 0; i < columns; i++) {
		if (nulls && nulls[i]) { row_set_null(row, i); continue; }
		row_set(row, i, pos - (uint8_t*)row);
		memcpy(pos, &values[i], 8);
		pos += 8;
	}
	return row;
}

static inline Row*
kit_row2(int64_t a, int64_t b)
{
	int64_t v[2] = { a, b };
	return kit_row_write(NULL, 2, v, NULL);
}

// text key (column 0) and an int64 (column 1)
static inline Row*
kit_row_text(const char* text, int size, int64_t b)
{
	int  data = json_size_string(size) + 8;
	int  size_factor;
	int  total = row_measure(2, data, &size_factor);
	Row* row = malloc(total);
	row_init(row, 2, size_factor, total);
	uint8_t* pos = row_data(row, 2);
	row_set(row, 0, pos - (uint8_t*)row);
	json_write_raw(&pos, text, size);
	row_set(row, 1, pos - (uint8_t*)row);
	memcpy(pos, &b, 8);
	return row;
}

static inline int64_t kit_int(Row* row, int column) { return *(int64_t*)row_at(row, column); }
