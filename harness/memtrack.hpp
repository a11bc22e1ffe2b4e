// Heap accounting through the sanitizer's allocation hooks.
#pragma once
#include <cstddef>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
namespace vp
{
struct Mem
{
    static bool &on() { static thread_local bool b = false; return b; }
    static int64_t &live() { static thread_local int64_t n = 0; return n; }
    static int64_t &peak() { static thread_local int64_t n = 0; return n; }
    static void mh(const volatile void *, size_t n) { if(on()) { live() += (int64_t)n; if(live() > peak()) peak() = live(); } }
    static void fh(const volatile void *p) { if(on() && p) live() -= (int64_t)__sanitizer_get_allocated_size(p); }
    static void install() { static bool done = false; if(!done) { done = true; __sanitizer_install_malloc_and_free_hooks(mh, fh); } }
    static void start() { install(); live() = 0; peak() = 0; on() = true; }
    static int64_t stop() { on() = false; return peak(); }
};
}
