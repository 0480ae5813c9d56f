// Replaces operator new so that a chosen allocation made by the code under test fails.
#include "vh.hpp"
#include <new>
namespace vh { thread_local bool nf_native=false; thread_local i64 nf_countdown=-1; thread_local u64 nf_count=0; }
static void* alloc(size_t n) {
    if(vh::nf_native) { vh::nf_count++; if(vh::nf_countdown>=0 && vh::nf_countdown--==0) throw std::bad_alloc(); }
    void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
