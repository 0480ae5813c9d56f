// C12: growable arrays and kernels.
#include "convref.hpp"
namespace vh {
void setup_run() {}
template<class T> T anyv(Rng& r) { if(r.chance(.15)) return (T)0; if(r.chance(.2)) return (T)r.range(1,3); T v=garbage<T>(r); return v; }
template<class T> bool same(T a, T b) { return memcmp(&a,&b,sizeof(T))==0; }
template<class T> struct Slot { std::unique_ptr<GrowArray<T>> a; std::vector<T> m; bool wrapped=false; std::vector<T> ext; T def=T(); bool known=true; };
template<class T> struct Arrays {
    Ctx& c; Rng& r; std::vector<std::unique_ptr<Slot<T>>> s; std::string trace; bool big=false;
    Arrays(Ctx& c_): c(c_),r(c_.r) {}
    uint32_t sz(uint32_t n) { if(!big||r.chance(.3)) return n; static const uint32_t v[]={255,256,257,1000,65535,65536,65537,70000,100000}; n=r.pick(v); if(n>65535) c.ev("huge.arrays"); return n; }
    void log(const char* f, u64 a=0, u64 b=0) { Untrack u; trace+=strf(f,(unsigned long long)a,(unsigned long long)b); trace+=' '; if(trace.size()>900) trace.erase(0,trace.size()-900); set_phase(trace); }
    [[noreturn]] void fail(const std::string& k, const std::string& d) { Untrack u; c.note("%s: %s",TName2(),trace.c_str()); c.fail(k,"%s",d.c_str()); }
    const char* TName2() { return typeid(T).name(); }
    void check(size_t i) { Slot<T>& q=*s[i]; if(q.a->size!=q.m.size()) fail("array-size",strf("array %zu has %u elements, expected %zu",i,q.a->size,q.m.size())); if(q.a->array_length<q.a->size) fail("array-capacity",strf("capacity %u below size %u",q.a->array_length,q.a->size));
        for(size_t k=0;k<q.m.size();k++) { if(!same<T>((*q.a)[(uint32_t)k],q.m[k])||!same<T>(q.a->at((uint32_t)k),q.m[k])) fail("array-element",strf("element %zu of array %zu (%zu elements) differs from the model",k,i,q.m.size())); } }
    template<class F> bool refused(F f) { try { f(); } catch(const std::invalid_argument&) { return true; } return false; }
    size_t pick() { return (size_t)r.range(0,s.size()-1); }
    void add(std::unique_ptr<Slot<T>> q) { Untrack u; s.push_back(std::move(q)); }
    void create() {
        std::unique_ptr<Slot<T>> q(new Slot<T>()); int k=(int)r.range(0,4);
        if(k==0) { log("G()"); q->a.reset(new GrowArray<T>()); q->m.assign(10,T()); }
        else if(k==1||k==2) { uint32_t n=sz((uint32_t)r.range(0,20)); log("G(%llu)",n); q->a.reset(new GrowArray<T>(n)); q->m.assign(n,T()); }
        else if(k==3) { T x=anyv<T>(r),y=anyv<T>(r),z=anyv<T>(r); log("G{3}"); q->a.reset(new GrowArray<T>({x,y,z})); q->m={x,y,z}; }
        else { uint32_t cap=sz((uint32_t)r.range(1,20)),n=(uint32_t)r.range(0,cap); log("wrap(%llu,%llu)",cap,n); q->ext.resize(cap); for(auto&v:q->ext) v=anyv<T>(r); q->a.reset(new GrowArray<T>(q->ext.data(),cap,n)); q->m.assign(q->ext.begin(),q->ext.begin()+n); q->wrapped=true; c.ev("wrapped"); }
        add(std::move(q)); check(s.size()-1); c.ev("created"); }
    void step() {
        if(s.empty()||(s.size()<4&&r.chance(.15))) { create(); return; }
        size_t i=pick(); Slot<T>& q=*s[i]; GrowArray<T>& a=*q.a;
        switch(r.range(0,13)) {
            case 0: case 1: case 2: { uint32_t n=sz((uint32_t)(r.chance(.7)?r.range(0,24):r.range(0,200))); log("a%llu.resize(%llu)",i,n); if(q.wrapped) { if(!refused([&]{ a.resize(n); })) fail("wrapped-resized","resize of a wrapped array accepted"); c.ev("wrapped.refused"); } else { if(n>a.size&&n<=a.array_length) c.ev("regrow.within.capacity"); else if(n>a.array_length) c.ev("grow.beyond.capacity"); a.resize(n); Untrack u; q.m.resize(n,q.def); } break; }
            case 3: { uint32_t n=sz((uint32_t)r.range(0,40)); log("a%llu.grow(%llu)",i,n); if(q.wrapped) { if(!refused([&]{ a.grow_array(n); })) fail("wrapped-grown","grow_array of a wrapped array accepted"); } else { a.grow_array(n); Untrack u; q.m.clear(); if(a.array_length<n) fail("grow-capacity",strf("capacity %u after growing to %u",a.array_length,n)); } break; }
            case 4: case 5: { T v=anyv<T>(r); log("a%llu.fill",i); a.fill(v); for(auto&x:q.m) x=v; if(!same<T>(v,T())) c.ev("nonzero.fill"); break; }
            case 6: { uint32_t n=sz((uint32_t)r.range(0,30)); std::vector<T> v(n); v.reserve(1); for(auto&x:v) x=anyv<T>(r); log("a%llu.set(%llu)",i,n); if(q.wrapped) { if(!refused([&]{ a.set(v.data(),n); })) fail("wrapped-set","set of a wrapped array accepted"); } else { a.set(v.data(),n); Untrack u; q.m=v; } break; }
            case 7: { T x=anyv<T>(r),y=anyv<T>(r); log("a%llu.setTo{2}",i); if(q.wrapped) { if(!refused([&]{ a.setTo({x,y}); })) fail("wrapped-setTo","setTo of a wrapped array accepted"); } else { a.setTo({x,y}); Untrack u; q.m={x,y}; } break; }
            case 8: { size_t j=pick(); log("a%llu=a%llu",i,j); if(q.wrapped&&i!=j) { T d=a.default_value; if(!refused([&]{ a=*s[j]->a; })) fail("wrapped-assigned","assignment to a wrapped array accepted"); a.default_value=d; } else { a=*s[j]->a; Untrack u; q.m=s[j]->m; if(i!=j) q.def=s[j]->def; c.ev("assigned"); } break; }
            case 9: if(s.size()<6) { log("copy(a%llu)",i); std::unique_ptr<Slot<T>> n(new Slot<T>()); n->a.reset(new GrowArray<T>(a)); { Untrack u; n->m=q.m; n->def=q.def; } add(std::move(n)); c.ev("copy.constructed"); if(q.wrapped) c.ev("wrapped.copied"); } break;
            case 10: if(!q.m.empty()) { uint32_t k=(uint32_t)r.range(0,q.m.size()-1); T v=anyv<T>(r); log("a%llu[%llu]=",i,k); if(r.chance(.5)) a[k]=v; else a.at(k)=v; q.m[k]=v; if(q.wrapped&&!same<T>(q.ext[k],v)) fail("wrapped-alias","a write did not reach the wrapped memory"); } break;
            case 11: { uint32_t k=(uint32_t)(q.m.size()+(size_t)r.range(0,3)); if(r.chance(.1)) k=0xFFFFFFFFu; if(!refused([&]{ a.at(k); })) fail("bounds",strf("index %u of %zu accepted",k,q.m.size())); c.ev("bounds.refused"); break; }
            case 12: if(!q.wrapped) { T v=anyv<T>(r); log("a%llu.default",i); a.default_value=v; q.def=v; c.ev("default.changed"); } break;
            default: { log("drop a%llu",i); std::unique_ptr<Slot<T>> d; { Untrack u; d=std::move(s[i]); s.erase(s.begin()+i); } d->a.reset(); if(d->wrapped) for(size_t k=0;k<d->m.size();k++) if(!same<T>(d->ext[k],d->m[k])) fail("wrapped-memory","memory of the caller changed"); c.ev("destroyed"); return; }
        }
        for(size_t k=0;k<s.size();k++) check(k);
    }
};
template<class T> void arrays(Ctx& c) {
    int n=(int)c.r.range(5,60); if(c.r.chance(.01)) { n=(int)c.r.range(100,600); c.ev("long.histories"); } bool big=c.r.chance(.002); if(big) n=(int)c.r.range(4,14); c.hash(c.idx); track_reset(); { Track t; Arrays<T> A(c); A.big=big; for(int k=0;k<n;k++) A.step(); { Untrack u; std::string h; for(auto&q:A.s) { c.hash(q->m.size()); c.state(hcomb(q->m.size(),q->wrapped*2+1)); } c.note("%s arrays: %s",A.TName2(),A.trace.c_str()); } }
    AllocStats st=track_stats(); if(track_available()&&st.live_blocks>0) { // containers of the harness itself are released above as well
        c.fail("array-leak","%lld bytes in %lld blocks left after destroying every array",(long long)st.live_bytes,(long long)st.live_blocks); } c.ev("operations",n); if(track_available()) c.ev("leak.checked");
}
// ------------------------------------------------------------- kernels
template<class K> struct KS { std::unique_ptr<KernelBase<K>> k; int dim=1; uint32_t w=0,o=0; std::vector<K> m; };
template<class K> K kv(Rng& r) { return (K)(IsF<K>::v?r.real(-100,100):r.range(-1000000,1000000)); }
template<class K> void kcheck(Ctx& c, const KernelBase<K>& k, int dim, uint32_t w, uint32_t o, const std::vector<K>& m) {
    if(k.width!=w||k.offset!=o||(int)k.dimension()!=dim||k.data.size!=m.size()||k.radius()!=w/2) c.fail("kernel-shape","kernel is %u wide, origin %u, %u entries; expected %u, %u, %zu",k.width,k.offset,k.data.size,w,o,m.size());
    long double sum=0,ab=0; K mx=m[0],mn=m[0],ax=std::abs(m[0]),an=ax; for(size_t i=0;i<m.size();i++) { K g=k.data.at((uint32_t)i); if(!same<K>(g,m[i])) c.fail("kernel-element","entry %zu is %s, expected %s",i,sv(g).c_str(),sv(m[i]).c_str()); sum+=m[i]; ab+=fabsl(m[i]); mx=std::max(mx,m[i]); mn=std::min(mn,m[i]); ax=std::max<K>(ax,std::abs(m[i])); an=std::min<K>(an,std::abs(m[i])); }
    if(fabsl((long double)k.sum()-sum)>(IsF<K>::v?ab*std::numeric_limits<K>::epsilon()*(m.size()+2):0)) c.fail("kernel-sum","sum is %s, expected %.9Lg",sv(k.sum()).c_str(),sum);
    if(k.element_max()!=mx||k.element_min()!=mn) c.fail("kernel-extremes","extremes %s %s, expected %s %s",sv(k.element_min()).c_str(),sv(k.element_max()).c_str(),sv(mn).c_str(),sv(mx).c_str());
    if(k.element_abs_max()!=ax||k.element_abs_min()!=an) c.fail("kernel-abs-extremes","absolute extremes %s %s, expected %s %s",sv(k.element_abs_min()).c_str(),sv(k.element_abs_max()).c_str(),sv(an).c_str(),sv(ax).c_str());
}
template<class K> Kernel1D<K> passing(Kernel1D<K> k) { K o=k.at(0); k.at(0)=(K)(o+1); Kernel1D<K> q(k); k.at(0)=o; q.at(0)=o; return q; }
template<class K> Kernel2D<K> passing(Kernel2D<K> k) { return k; }
template<class K> void kernels(Ctx& c) {
    Rng& r=c.r; c.hash(c.idx); c.note("%s kernels",TName<K>::n()); int n=(int)r.range(5,40); bool big=r.chance(.002); if(big) n=(int)r.range(4,10); track_reset(); std::string tr;
    { Track t; struct A1 { Kernel1D<K> k; uint32_t w,o; std::vector<K> m; }; struct A2 { Kernel2D<K> k; uint32_t w,o; std::vector<K> m; }; std::vector<std::unique_ptr<A1>> a; std::vector<std::unique_ptr<A2>> b;
      auto rnd=[&](uint32_t m){ std::vector<K> v(m); for(auto&x:v) x=kv<K>(r); return v; };
      for(int s=0;s<n;s++) {
        bool two=r.chance(.4); int op=(int)r.range(0,7); uint32_t w=(uint32_t)r.range(1,two?7:20); if(big&&r.chance(.5)) { static const uint32_t v1[]={255,256,257,65535,65536,65537,70000},v2[]={15,16,17,255,256,257,300}; w=two?r.pick(v2):r.pick(v1); c.ev(two?"wide.kernels.2d":"wide.kernels.1d"); } uint32_t o=(uint32_t)r.range(0,w-1); { Untrack u; tr+=strf("%s%d(%u,%u) ",two?"K2.":"K1.",op,w,o); set_phase(tr); }
        if(!two) {
            if(a.empty()||(op==0&&a.size()<5)) { std::unique_ptr<A1> q(new A1{Kernel1D<K>(w,o),w,o,std::vector<K>(w,(K)0)}); for(uint32_t i=0;i<w;i++) if(q->k.at(i)!=(K)0) c.fail("kernel-initial","entry %u of a new kernel is %s",i,sv(q->k.at(i)).c_str()); a.push_back(std::move(q)); }
            A1& q=*a[(size_t)r.range(0,a.size()-1)];
            switch(op) {
                case 1: q.k.reshape(w,o); q.w=w;q.o=o;q.m=rnd(w); fill_kernel1(q.k,q.m); c.ev("kernel.reshaped"); break;
                case 2: { A1& p=*a[(size_t)r.range(0,a.size()-1)]; q.k=p.k; q.w=p.w;q.o=p.o; std::vector<K> t2=p.m; q.m=t2; c.ev("kernel.assigned"); break; }
                case 3: { std::unique_ptr<A1> p(new A1{q.k,q.w,q.o,q.m}); c.ev("kernel.copied"); if(a.size()<5) a.push_back(std::move(p)); break; }
                case 4: { Kernel1D<K> p=passing<K>(q.k); kcheck<K>(c,p,1,q.w,q.o,q.m); c.ev("kernel.by.value"); break; }
                case 5: { K x=kv<K>(r),y=kv<K>(r),z=kv<K>(r); uint32_t oo=(uint32_t)r.range(0,2); Kernel1D<K> p(oo,{x,y,z}); kcheck<K>(c,p,1,3,oo,{x,y,z}); Kernel1D<K> d(w); if(d.width!=w||d.offset!=w/2) c.fail("kernel-default-origin","origin %u of %u",d.offset,w); break; }
                case 6: if(a.size()>1) { a.erase(a.begin()+(long)r.range(0,a.size()-1)); c.ev("kernel.destroyed"); } break;
                default: { uint32_t i=(uint32_t)r.range(0,q.w-1); K v=kv<K>(r); if(r.chance(.5)) q.k.at(i)=v; else q.k[i]=v; q.m[i]=v; bool t2=false; try { q.k.at(q.w+(uint32_t)r.range(0,2)); } catch(const std::invalid_argument&) { t2=true; } if(!t2) c.fail("kernel-bounds","entry outside accepted"); } }
        } else {
            if(b.empty()||(op==0&&b.size()<5)) { std::unique_ptr<A2> q(new A2{Kernel2D<K>(w,o),w,o,std::vector<K>((size_t)w*w,(K)0)}); b.push_back(std::move(q)); }
            A2& q=*b[(size_t)r.range(0,b.size()-1)];
            switch(op) {
                case 1: q.k.reshape(w,o); q.w=w;q.o=o;q.m=rnd(w*w); fill_kernel2(q.k,q.m,w); c.ev("kernel.reshaped"); break;
                case 2: { A2& p=*b[(size_t)r.range(0,b.size()-1)]; q.k=p.k; q.w=p.w;q.o=p.o; std::vector<K> t2=p.m; q.m=t2; c.ev("kernel.assigned"); break; }
                case 3: { std::unique_ptr<A2> p(new A2{q.k,q.w,q.o,q.m}); c.ev("kernel.copied"); if(b.size()<5) b.push_back(std::move(p)); break; }
                case 4: { Kernel2D<K> p=passing<K>(q.k); kcheck<K>(c,p,2,q.w,q.o,q.m); break; }
                case 5: { K x=kv<K>(r),y=kv<K>(r),z=kv<K>(r),v=kv<K>(r); uint32_t oo=(uint32_t)r.range(0,1); Kernel2D<K> p(oo,{{x,y},{z,v}}); kcheck<K>(c,p,2,2,oo,{x,y,z,v}); if(p.at(1,0)!=y||p.at(0,1)!=z) c.fail("kernel-list-order","list rows and columns are exchanged"); break; }
                case 6: if(b.size()>1) b.erase(b.begin()+(long)r.range(0,b.size()-1)); break;
                default: { uint32_t i=(uint32_t)r.range(0,q.w-1),j=(uint32_t)r.range(0,q.w-1); K v=kv<K>(r); q.k.at(i,j)=v; q.m[j*q.w+i]=v; bool t2=false; try { if(r.chance(.5)) q.k.at(q.w,j); else q.k.at(i,q.w); } catch(const std::invalid_argument&) { t2=true; } if(!t2) c.fail("kernel-bounds","entry outside accepted"); } }
        }
        for(auto&q:a) kcheck<K>(c,q->k,1,q->w,q->o,q->m); for(auto&q:b) kcheck<K>(c,q->k,2,q->w,q->o,q->m); c.ev("kernel.operations"); }
    }
    AllocStats st=track_stats(); if(track_available()&&st.live_blocks>0) c.fail("kernel-leak","%lld bytes left after destroying every kernel",(long long)st.live_bytes);
}
void run_case(Ctx& c) {
    c.nontrivial(); if(c.r.chance(.3)) { switch(c.r.range(0,3)) { case 0: kernels<S32>(c); break; case 1: kernels<F32>(c); break; case 2: kernels<F64>(c); break; default: kernels<S64>(c); } return; }
    switch(c.r.range(0,6)) { case 0: arrays<uint8_t>(c); break; case 1: arrays<int32_t>(c); break; case 2: arrays<uint32_t>(c); break; case 3: arrays<float>(c); break; case 4: arrays<double>(c); break; case 5: arrays<int64_t>(c); break; default: arrays<int16_t>(c); }
}
}
