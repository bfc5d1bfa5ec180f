#pragma once
#include <cstddef>
#include <cstdint>
#include <unistd.h>
extern int g_in_kernel;            // >0 while simulator code runs: its own memory stays out of the seeded heap
extern unsigned long g_allocs;
void heap_reserve();
void heap_start(uint64_t seed, int mode, int fill);
void heap_stop();
void fill_garbage(void *p, size_t n);
void heap_bad_free(void *p, bool twice);
