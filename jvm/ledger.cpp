// Part of the library loaded by the virtual machines of jvm/Driver.java: counts the C++ allocations of the library
// which have not been freed yet.
#include <jni.h>
#include <atomic>
#include <cstdlib>
#include <new>
static std::atomic<long> live(0);
static void* take(std::size_t n) { void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); live++; return p; }
static void give(void* p) { if(p) { live--; std::free(p); } }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
extern "C" JNIEXPORT jlong JNICALL Java_Driver_liveNative(JNIEnv*, jclass) { return live.load(); }
