#pragma once
// In-memory file system behind the libc calls of the code under test (link
// with the --wrap list in checks.py). Paths under /mem belong to it.
//
// Crash model: metadata operations (create, rename, unlink, link, mkdir,
// truncate) are atomic and persist in order; file data persists only with
// fsync()/fdatasync(); data written since may persist completely, not at all,
// up to any write, torn inside of a write, with a hole, or as zeros.
#include "mc.h"
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

enum {
	CFS_TORN  = 1,      // torn writes (prefix of a write)
	CFS_HOLES = 2,      // lost write before a kept one, zero filled data
	CFS_ALLTEARS = 4,   // every byte position of a torn write
};

void cfs_reset(void);
void cfs_mkdir(const char* path);
// runs fn; every mutating system call first asks the explorer whether to crash
// (cost 1). true: crashed, call cfs_crash() next
bool cfs_run(void (*fn)(void*), void* arg);
// power loss: closes all descriptors, decides what the unsynced data became
void cfs_crash(int flags);
void cfs_crash_exact(void);        // process crash: everything written is kept
void cfs_arm_crash(bool);
void cfs_arm_fault(bool);          // system calls may fail (cost 1)
void cfs_fail_write(int skip);      // the write after the next skip ones fails
void cfs_arm_short(bool);          // reads and writes may be short or interrupted (cost 1)
int  cfs_fault_count(void);
int  cfs_syscalls(void);
bool cfs_enabled(void);

// direct access
int   cfs_list(const char* dir, char names[][256], int max); // sorted
bool  cfs_exists(const char* path);
char* cfs_data(const char* path, size_t* size);
uint8_t* cfs_synced(const char* path, size_t* size);  // what survives any crash
void  cfs_set(const char* path, const void* data, size_t size); // replace content, synced
uint64_t cfs_hash(void);
int   cfs_open_fds(void);
