// Core of the monitoring harness: deterministic case generation, violation reporting, coverage counters,
// crash/hang bookkeeping. One process runs the cases  first, first+step, ...  below `last` of one property.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <unordered_set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <sstream>
#include <limits>
#include <algorithm>
#include <type_traits>
#include <typeinfo>

namespace vh {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
inline u64 hcomb(u64 a, u64 b) { return mix(a*0x100000001b3ULL ^ mix(b)); }
inline u64 hbytes(const void* p, size_t n, u64 h=1469598103934665603ULL) { const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ULL;} return h; }

// Draws of a generator are counted, and some of them changed by a little, to repeat a case almost but not exactly.
struct Nudge { std::vector<std::pair<u64,u64>> at; u64 n=0; void choose(struct Rng& r, u64 draws); };
struct Rng {
    u64 s; Nudge* nu=nullptr;
    explicit Rng(u64 seed=1): s(mix(seed)) {}
    Rng(const Rng& o): s(o.s) {} Rng& operator=(const Rng& o) { s=o.s; nu=nullptr; return *this; }
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; z^=z>>31; if(nu) { for(auto& a:nu->at) if(a.first==nu->n) z+=a.second; nu->n++; } return z; }
    // inclusive range
    i64 range(i64 lo, i64 hi) { if(hi<=lo) return lo; u64 n=(u64)hi-(u64)lo+1; if(n==0) return (i64)next(); return (i64)((u64)lo + next()%n); }
    bool chance(double p) { return unit()<p; }
    double unit() { return (next()>>11)*(1.0/9007199254740992.0); }
    double real(double lo, double hi) { return lo+(hi-lo)*unit(); }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin()+range(0,(i64)l.size()-1)); }
    template<class T,size_t N> const T& pick(const T (&l)[N]) { return l[(size_t)range(0,(i64)N-1)]; }
    template<class T> const T& pick(const std::vector<T>& l) { return l[(size_t)range(0,(i64)l.size()-1)]; }
};

// mostly one of the first draws (parameters), changed by any power of two: a real number by a little, a choice to another one
inline void Nudge::choose(Rng& r, u64 draws) { at.clear(); n=0; if(!draws) return; int k=r.chance(.7)?1:(int)r.range(2,3); while(k-->0) { u64 m=r.chance(.6)?std::min<u64>(draws,24):r.chance(.5)?std::min<u64>(draws,100):draws; u64 b=(u64)(r.chance(.4)?r.range(0,6):r.range(20,62)); at.push_back(std::make_pair((u64)r.range(0,(i64)m-1),r.chance(.5)?1ull<<b:0ull-(1ull<<b))); } }

struct Abort {};          // thrown to leave a case after a violation was recorded

struct Ctx {
    Rng r; u64 seed; u64 idx; bool thorough;
    std::string desc; u64 sig; bool nontriv;
    Ctx(u64 seed_, u64 idx_, bool th): r(hcomb(hcomb(seed_,0xB00F),idx_)), seed(seed_), idx(idx_), thorough(th), sig(0), nontriv(false) {}
    void note(const char* fmt, ...) __attribute__((format(printf,2,3)));
    void hash(u64 v) { sig = hcomb(sig,v); }
    void nontrivial() { nontriv=true; }
    void ev(const char* name, u64 n=1);
    void state(u64 h);
    [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf,3,4)));
};

// ---- implemented per property
void run_case(Ctx& c);
void setup_run();                       // once, before the first case

std::string strf(const char* fmt, ...) __attribute__((format(printf,1,2)));

// description of what is running, kept in shared memory so that it survives a crash
void set_phase(const std::string& s);

// ---- allocation accounting (ASan malloc hooks, or operator new in plain builds)
struct AllocStats { u64 allocs, frees; i64 live_blocks; i64 live_bytes; };
AllocStats track_stats();
bool track_available();
struct Track {           // allocations made while an instance is alive (this thread) are followed until freed
    bool prev; Track(); ~Track();
};
struct Untrack { bool prev; Untrack(); ~Untrack(); };
void track_reset();      // forget everything followed so far

template<class T> struct TName; 
template<> struct TName<uint8_t>{static const char* n(){return "U8";}};
template<> struct TName<uint16_t>{static const char* n(){return "U16";}};
template<> struct TName<int16_t>{static const char* n(){return "S16";}};
template<> struct TName<int32_t>{static const char* n(){return "S32";}};
template<> struct TName<int64_t>{static const char* n(){return "S64";}};
template<> struct TName<float>{static const char* n(){return "F32";}};
template<> struct TName<double>{static const char* n(){return "F64";}};

extern bool g_thorough;
extern u64 g_seed;
extern std::string g_variant;
} // namespace vh
