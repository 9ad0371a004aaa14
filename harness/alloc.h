// Counts live heap blocks of the code under test; exact-size malloc'ed arrays (a sanitizer sees every stray access).
#pragma once
#include <new>
#include <cstdlib>
#include <vector>
static long live = 0;
void* operator new(std::size_t n) { ++live; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new[](std::size_t n) { ++live; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { if (p) { --live; std::free(p); } }
void operator delete[](void* p) noexcept { if (p) { --live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:alloc_dealloc_mismatch=0"; }
template <class T> struct Arr
{
	T* p; int n;
	Arr(const std::vector<T>& v) : n((int)v.size()) { p = (T*)std::malloc(sizeof(T) * (n ? n : 1)); for (int i = 0; i < n; ++i) p[i] = v[i]; }
	~Arr() { std::free(p); }
	Arr(const Arr&) = delete;
};
#ifdef MC_ASAN
enum { MC_SMALL = 1 };
#else
enum { MC_SMALL = 0 };
#endif
