// C11: PackedSet against a list of lists.
#include "vh.hpp"
#include <boofcv/packed_sets.h>
#include <boofcv/geometry_types.h>
namespace vh {
using namespace boofcv;
void setup_run() {}
struct Big { int a; double b; char c[20]; Big(): a(0),b(0) { memset(c,0,20); } };
template<class T> struct Mk;
template<> struct Mk<int> { static int mk(Rng& r) { return (int)r.next(); } static bool eq(int a, int b) { return a==b; } };
template<> struct Mk<double> { static double mk(Rng& r) { return r.real(-1e9,1e9); } static bool eq(double a, double b) { return a==b; } };
template<> struct Mk<uint8_t> { static uint8_t mk(Rng& r) { return (uint8_t)r.next(); } static bool eq(uint8_t a, uint8_t b) { return a==b; } };
template<> struct Mk<Point2D<S32>> { static Point2D<S32> mk(Rng& r) { return Point2D<S32>((int)r.next(),(int)r.next()); } static bool eq(const Point2D<S32>& a, const Point2D<S32>& b) { return a.x==b.x&&a.y==b.y; } };
template<> struct Mk<Big> { static Big mk(Rng& r) { Big b; b.a=(int)r.next(); b.b=r.unit(); for(auto& x:b.c) x=(char)r.next(); return b; } static bool eq(const Big& a, const Big& b) { return a.a==b.a&&a.b==b.b&&!memcmp(a.c,b.c,20); } };
template<> struct Mk<std::string> { static std::string mk(Rng& r) { return std::string((size_t)r.range(0,40),(char)r.range(33,90)); } static bool eq(const std::string& a, const std::string& b) { return a==b; } };

template<class T> struct Machine {
    Ctx& c; Rng& r; uint32_t bs; std::unique_ptr<PackedSet<T>> p, other; std::vector<std::vector<T>> om; u64 ot=0; uint32_t obs=0; std::vector<std::vector<T>> m; u64 total=0; std::string trace; bool spanned=false;
    Machine(Ctx& c_, uint32_t b, PackedSet<T>* q): c(c_),r(c_.r),bs(b),p(q) {}
    void fail(const char* k, const std::string& s) { Untrack u; c.note("%s",trace.substr(trace.size()>700?trace.size()-700:0).c_str()); c.fail(k,"%s (block size %u)",s.c_str(),bs); }
    void log(const char* s, u64 a=0) { Untrack u; trace+=strf("%s%llu ",s,(unsigned long long)a); }
    void tail() { size_t want=m.empty()?0:m.back().size(); if(p->size_of_tail()!=want) fail("tail-size",strf("tail has %u elements, expected %zu",p->size_of_tail(),want)); if(p->number_of_sets()!=m.size()) fail("set-count",strf("%u sets, expected %zu",p->number_of_sets(),m.size())); }
    void element(size_t i, size_t j) { T& g=p->at((uint32_t)i,(uint32_t)j); if(!Mk<T>::eq(g,m[i][j])) fail("element",strf("element %zu of set %zu differs (set of %zu, %zu sets)",j,i,m[i].size(),m.size())); }
    void whole() { tail(); for(size_t i=0;i<m.size();i++) { for(size_t j=0;j<m[i].size();j++) element(i,j); loadset(i); } c.ev("full.comparisons"); }
    void loadset(size_t i) { std::vector<T> o; size_t pre=(size_t)r.range(0,3); for(size_t k=0;k<pre;k++) o.push_back(Mk<T>::mk(r)); std::vector<T> before=o; p->load_set((uint32_t)i,o); if(o.size()!=pre+m[i].size()) fail("load-size",strf("loaded %zu elements of %zu",o.size()-pre,m[i].size())); for(size_t k=0;k<pre;k++) if(!Mk<T>::eq(o[k],before[k])) fail("load-clobbers","earlier content of the destination changed"); for(size_t k=0;k<m[i].size();k++) if(!Mk<T>::eq(o[pre+k],m[i][k])) fail("load-element",strf("element %zu of set %zu",k,i)); if(m[i].size()>bs) spanned=true; }
    void push(const T& v) { p->push_tail(v); Untrack u; if(m.empty()) m.push_back(std::vector<T>()); m.back().push_back(v); total++; }
    void step(int op) {
        switch(op) {
            case 0: case 1: log("new"); p->start_new_set(); { Untrack u; m.push_back(std::vector<T>()); } break;
            case 2: case 3: case 4: case 5: { size_t n=(size_t)(r.chance(.6)?r.range(1,4):r.range(1,3*(i64)std::min(bs,40u)+2)); log("push",n); for(size_t k=0;k<n;k++) push(Mk<T>::mk(r)); break; }
            case 6: log("drop"); p->remove_tail(); if(!m.empty()) { total-=m.back().size(); Untrack u; m.pop_back(); } c.ev("remove.tail"); break;
            case 7: if(r.chance(.25)) { log("clear"); p->clear(); Untrack u; m.clear(); total=0; c.ev("clear"); } break;
            case 8: if(!m.empty()) { size_t i=(size_t)r.range(0,m.size()-1); std::vector<T> v; for(size_t k=0;k<m[i].size();k++) v.push_back(Mk<T>::mk(r)); log("write",i); p->write_set((uint32_t)i,v); Untrack u; m[i]=v; c.ev("write.set"); } break;
            case 9: if(!m.empty()) { size_t i=(size_t)r.range(0,m.size()-1); if(m[i].size()) { size_t j=(size_t)r.range(0,m[i].size()-1); T v=Mk<T>::mk(r); log("set",i); p->at((uint32_t)i,(uint32_t)j)=v; Untrack u; m[i][j]=v; } loadset(i); } break;
            case 10: { // requests outside are refused and change nothing
                bool t=false; size_t i=m.size()+(size_t)r.range(0,3); try { p->at((uint32_t)i,0); } catch(const std::exception&) { t=true; } if(!t) fail("set-range","set outside accepted"); t=false; std::vector<T> o; try { p->load_set((uint32_t)i,o); } catch(const std::exception&) { t=true; } if(!t) fail("load-range","set outside accepted");
                if(!m.empty()) { i=(size_t)r.range(0,m.size()-1); t=false; try { p->at((uint32_t)i,(uint32_t)(m[i].size()+(size_t)r.range(0,2))); } catch(const std::exception&) { t=true; } if(!t) fail("element-range","element outside accepted"); std::vector<T> v(m[i].size()+1); t=false; try { p->write_set((uint32_t)i,v); } catch(const std::exception&) { t=true; } if(!t) fail("write-size","wrong size accepted"); if(m[i].size()) { v.resize(m[i].size()-1); t=false; try { p->write_set((uint32_t)i,v); } catch(const std::exception&) { t=true; } if(!t) fail("write-size","wrong size accepted"); } }
                c.ev("refused"); break; }
            case 12: { // copies hold what the original holds and live their own life afterwards
                int how=(int)r.range(0,5); log("copy",(u64)how); c.ev("copies");
                switch(how) {
                    case 0: { std::unique_ptr<PackedSet<T>> q(new PackedSet<T>(*p)); p=std::move(q); break; }                      // the original is gone
                    case 1: other.reset(new PackedSet<T>(*p)); om=m; ot=total; obs=bs; break;                                      // both go on
                    case 2: { std::unique_ptr<PackedSet<T>> q(new PackedSet<T>((uint32_t)r.range(1,9))); int n=(int)r.range(0,30); for(int k=0;k<n;k++) { if(r.chance(.3)) q->start_new_set(); q->push_tail(Mk<T>::mk(r)); } *q=*p; p=std::move(q); break; }
                    case 3: *p=*p; break;
                    case 4: if(other) { *other=*p; om=m; ot=total; obs=bs; } break;
                    default: if(other) { *p=*other; m=om; total=ot; bs=obs; } }
                whole(); break; }
            case 13: if(other) { log("swap"); std::swap(p,other); std::swap(m,om); std::swap(total,ot); std::swap(bs,obs); whole(); } break;
            default: if(!m.empty()) { size_t i=(size_t)r.range(0,m.size()-1); if(m[i].size()) element(i,(size_t)r.range(0,m[i].size()-1)); } break;
        }
        tail();
    }
};
template<class T> void history(Ctx& c) {
    Rng& r=c.r; bool def=r.chance(.03); uint32_t bs=def?2000:(uint32_t)(r.chance(.6)?r.range(1,6):r.chance(.7)?r.range(1,40):r.range(40,3000)); int n=(int)r.range(5,r.chance(.2)?400:80); c.note("%s block %u, %d operations",typeid(T).name(),bs,n); c.hash(bs); c.hash((u64)n*977+c.idx); c.nontrivial();
    Machine<T> M(c,bs,def?new PackedSet<T>():new PackedSet<T>(bs)); u64 h=0;
    for(int k=0;k<n;k++) { int op=(int)(r.chance(.05)?r.range(12,13):r.range(0,11)); M.step(op); h=hcomb(h,hcomb(M.m.size(),M.m.empty()?0:M.m.back().size())%97); if(r.chance(.04)) M.whole(); c.state(hcomb(bs<64?bs:64,hcomb(M.total%bs,hcomb(std::min<size_t>(M.m.size(),8),M.m.empty()?0:std::min<size_t>(M.m.back().size(),12))))); }
    M.whole(); c.ev("operations",n); if(M.spanned) c.ev("sets.spanning.blocks"); if(M.total>bs) c.ev("several.blocks");
}
// sizes past 8 and 16 bits: many elements in a set, many sets, many blocks
template<class T> void huge(Ctx& c) {
    Rng& r=c.r; static const uint32_t bss[]={1,2,255,256,257,2000,65535,65536,65537,100000}; uint32_t bs=r.pick(bss); bool tiny=bs<3; if(tiny&&g_variant!="rel") { bs=r.chance(.5)?16:64; tiny=false; } /* growing the list of blocks one by one costs the square of their number */ c.note("%s huge, block %u",typeid(T).name(),bs); c.hash(bs); c.hash(c.idx); c.nontrivial(); Machine<T> M(c,bs,new PackedSet<T>(bs)); T v[4]; for(auto&x:v) x=Mk<T>::mk(r); size_t k=0;
    int n=tiny?1:(int)r.range(2,5); bool vast=g_variant=="rel"&&sizeof(T)==1&&bs>1000&&r.chance(.08); if(vast) { n=1; if(r.chance(.7)) { M.p->start_new_set(); M.m.emplace_back(); } int m=(1<<24)+(int)r.range(-5,70000); M.log("push",m); for(int i=0;i<m;i++) M.push(v[(k+=1+(i%7==0))&3]); c.ev("vast.set"); }
    for(int s=0;s<n;s++) { switch(tiny?r.range(0,3):r.range(0,5)) {
        case 0: case 1: { int m=(int)r.range(65500,70000); M.log("push",m); if(r.chance(.6)) { M.p->start_new_set(); M.m.emplace_back(); } for(int i=0;i<m;i++) M.push(v[(k+=1+(i%7==0))&3]); c.ev("huge.set"); break; }
        case 2: case 3: { int m=(int)r.range(65500,68000); M.log("sets",m); for(int i=0;i<m;i++) { M.p->start_new_set(); M.m.emplace_back(); if(i%3) M.push(v[(k+=1+(i%5==0))&3]); } c.ev("many.sets"); break; }
        case 4: M.step(6); break; default: for(int i=0;i<12;i++) M.step((int)r.range(0,11)); }
        if(!M.m.empty()) { M.tail(); for(int i=0;i<40;i++) { size_t a=r.chance(.3)?M.m.size()-1:(size_t)r.range(0,M.m.size()-1); if(M.m[a].size()) { M.element(a,(size_t)r.range(0,M.m[a].size()-1)); M.element(a,M.m[a].size()-1); } } M.loadset(M.m.size()-1); } }
    M.tail(); for(size_t i=0;i<M.m.size();i++) for(size_t j=0;j<M.m[i].size();j++) M.element(i,j);
}
// the same work repeated after clear must not need more storage
template<class T> void repeat(Ctx& c) {
    Rng& r=c.r; uint32_t bs=(uint32_t)r.range(1,30); c.note("repetition, block %u",bs); c.hash(bs); c.hash(c.idx); c.nontrivial(); std::vector<int> plan; for(int k=0;k<(int)r.range(3,40);k++) plan.push_back((int)r.range(-1,30)); T v=Mk<T>::mk(r);
    PackedSet<T> p(bs); i64 bytes1=0; uint32_t blocks1=0; track_reset();
    { Track t; for(int rep=0;rep<4;rep++) { if(rep) p.clear(); for(int k:plan) { if(k<0) p.remove_tail(); else { p.start_new_set(); for(int q=0;q<k;q++) p.push_tail(v); } } AllocStats s=track_stats(); if(rep==0) { bytes1=s.live_bytes; blocks1=p._number_of_blocks; } else { if(track_available()&&s.live_bytes>bytes1) { Untrack u; c.fail("storage-grows","%lld bytes held after repetition %d, %lld after the first",(long long)s.live_bytes,rep,(long long)bytes1); } if(p._number_of_blocks!=blocks1) { Untrack u; c.fail("storage-grows","%u blocks after repetition %d, %u after the first",p._number_of_blocks,rep,blocks1); } } } }
    c.ev("repetitions");
}
void run_case(Ctx& c) {
    if(c.r.chance(.001)) { if(c.r.chance(.5)) huge<uint8_t>(c); else huge<Point2D<S32>>(c); return; }
    if(c.r.chance(.1)) { if(c.r.chance(.5)) repeat<int>(c); else repeat<Point2D<S32>>(c); return; }
    switch(c.r.range(0,5)) { case 0: history<int>(c); break; case 1: history<Point2D<S32>>(c); break; case 2: history<double>(c); break; case 3: history<uint8_t>(c); break; case 4: history<Big>(c); break; default: history<std::string>(c); }
}
}
