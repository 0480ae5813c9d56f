// operator new that fills what it returns with a pattern chosen at run time (plain builds only)
#include <cstdlib>
#include <cstring>
#include <new>
unsigned char nf_pattern=0; bool nf_fill=false;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VH_NO_NEWFILL)
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_SKIP 1
#endif
#endif
#ifndef VH_SKIP
bool nf_active() { return true; }
static void* get(size_t n) { void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); if(nf_fill) memset(p,nf_pattern,n); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#else
bool nf_active() { return false; }
#endif
#else
bool nf_active() { return false; }
#endif
