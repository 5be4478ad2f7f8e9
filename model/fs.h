// A small file system with streams, for harnesses. Every call may fail while faults remain; after every change that
// another process (or a crash) could see, |fs_observer| is called.
#pragma once
#include <cstddef>
#include <cstdint>
#ifndef FS_CAP
#define FS_CAP 256
#endif
extern "C" {
void fs_put(const char* name, const void* data, uint64_t n);       // creates or replaces a file
int fs_exists(const char* name);
uint64_t fs_size(const char* name);
const unsigned char* fs_data(const char* name);
uint64_t fs_files();                                               // directory entries
uint64_t fs_streams();                                             // open streams
const char* fs_name(uint64_t i);
extern uint64_t fs_faults;                                         // how many calls may still fail
extern void (*fs_observer)();
extern void (*fs_on_fail)(uint64_t);                               // called when a call is made to fail
extern uint64_t fs_failed;                                         // what failed: a set of FS_*
extern uint64_t fs_lazy;                                           // 0: a write reaches the file at once; 1: at flush or close; 2: any part of it at once
extern uint64_t fs_sizes;                                          // 0: file_size is right; 1: anything; 2: unavailable; 3: zero
extern uint64_t fs_yield;                                          // 1: other threads may run at every call
extern uint64_t fs_splits;                                         // 1: read(2) and write(2) may transfer less than asked for
}
enum { FS_OPEN = 1, FS_READ = 2, FS_WRITE = 4, FS_CLOSE = 8, FS_RENAME = 16, FS_REMOVE = 32, FS_FLUSH = 64, FS_EXISTS = 128 };
