// Counts work: blocks of code executed, bytes moved or looked through by the C library's functions, and
// bytes asked of the heap.  Linked into the programs of the `count' variant.
#include "costs.h"
#include <cstdlib>
#include <malloc.h>
#include <new>

#pragma GCC optimize("no-tree-loop-distribute-patterns")

namespace costs { Counts now; uint64_t limit = ~uint64_t(0); void (*over)() = 0; }
using costs::now;

#define UNCOUNTED __attribute__((no_sanitize_coverage))

extern "C" {

UNCOUNTED void __sanitizer_cov_trace_pc()
{
	if (++now.blocks > costs::limit) {
		costs::limit = ~uint64_t(0);
		costs::over();
	}
}

UNCOUNTED void* memcpy(void* d, void const* s, size_t n)
{
	now.bytes += n;
	void* r = d;
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	return r;
}

UNCOUNTED void* memmove(void* d, void const* s, size_t n)
{
	now.bytes += n;
	char* a = static_cast<char*>(d);
	char const* b = static_cast<char const*>(s);
	if (a <= b || a >= b + n) {
		asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
	} else {
		a += n - 1;
		b += n - 1;
		asm volatile("std\n\trep movsb\n\tcld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
	}
	return d;
}

UNCOUNTED void* memset(void* d, int c, size_t n)
{
	now.bytes += n;
	void* r = d;
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
	return r;
}

UNCOUNTED size_t strlen(char const* s)
{
	size_t n = 0;
	while (s[n]) { ++n; }
	now.bytes += n;
	return n;
}

UNCOUNTED void* memchr(void const* s, int c, size_t n)
{
	unsigned char const* p = static_cast<unsigned char const*>(s);
	for (size_t i = 0; i < n; ++i) {
		if (p[i] == static_cast<unsigned char>(c)) { now.bytes += i; return const_cast<unsigned char*>(p + i); }
	}
	now.bytes += n;
	return 0;
}

UNCOUNTED int memcmp(void const* a, void const* b, size_t n)
{
	unsigned char const* p = static_cast<unsigned char const*>(a);
	unsigned char const* q = static_cast<unsigned char const*>(b);
	for (size_t i = 0; i < n; ++i) {
		if (p[i] != q[i]) { now.bytes += i; return int(p[i]) - int(q[i]); }
	}
	now.bytes += n;
	return 0;
}

}

UNCOUNTED static void* get(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p) { abort(); }
	size_t const u = malloc_usable_size(p);
	now.allocated += u;
	now.live += u;
	if (now.live > now.peak) { now.peak = now.live; }
	return p;
}

UNCOUNTED static void put(void* p)
{
	if (p) { now.live -= malloc_usable_size(p); free(p); }
}

UNCOUNTED void* operator new(size_t n) { return get(n); }
UNCOUNTED void* operator new[](size_t n) { return get(n); }
UNCOUNTED void* operator new(size_t n, std::nothrow_t const&) noexcept { return get(n); }
UNCOUNTED void* operator new[](size_t n, std::nothrow_t const&) noexcept { return get(n); }
UNCOUNTED void operator delete(void* p) noexcept { put(p); }
UNCOUNTED void operator delete[](void* p) noexcept { put(p); }
UNCOUNTED void operator delete(void* p, size_t) noexcept { put(p); }
UNCOUNTED void operator delete[](void* p, size_t) noexcept { put(p); }
UNCOUNTED void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
UNCOUNTED void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }
