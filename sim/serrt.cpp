// Allocation seam of the serial build: counts the blocks that are alive.  Allocations are
// not made to fail: the core library and the linear algebra library (not under test) do not
// survive that (DESIGN.md); std::bad_alloc is injected at the caller's functions instead.
#include <cstdlib>
#include <new>
#include "serrt.h"
namespace simalloc { long live=0; }
using namespace simalloc;
extern "C" {
void * __real_malloc(size_t); void __real_free(void*); void * __real_realloc(void*,size_t); void * __real_calloc(size_t,size_t);
void * __wrap_malloc(size_t n){ void*p=__real_malloc(n); if(p) ++live; return p; }
void * __wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); if(p) ++live; return p; }
void * __wrap_realloc(void*q,size_t n){ void*p=__real_realloc(q,n); if(p&&!q) ++live; if(q&&!n&&!p) --live; return p; }
void __wrap_free(void*p){ if(p) --live; __real_free(p); }
}
static void * get(size_t n){ void*p=__real_malloc(n?n:1); if(!p) throw std::bad_alloc(); ++live; return p; }
static void put(void*p){ if(p) --live; __real_free(p); }
void * operator new(size_t n){ return get(n); }
void * operator new[](size_t n){ return get(n); }
void * operator new(size_t n,const std::nothrow_t&) noexcept { void*p=__real_malloc(n?n:1); if(p) ++live; return p; }
void * operator new[](size_t n,const std::nothrow_t&) noexcept { void*p=__real_malloc(n?n:1); if(p) ++live; return p; }
void operator delete(void*p) noexcept { put(p); }
void operator delete[](void*p) noexcept { put(p); }
void operator delete(void*p,size_t) noexcept { put(p); }
void operator delete[](void*p,size_t) noexcept { put(p); }
void operator delete(void*p,const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void*p,const std::nothrow_t&) noexcept { put(p); }
