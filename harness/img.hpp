// Logical images (Mat) and storage builders (Img) for the library's image types.
#pragma once
#include "vh.hpp"
#include <boofcv/base_types.h>
#include <boofcv/image_types.h>

namespace vh {
using namespace boofcv;

// ------------------------------------------------------------------ logical content, independent of the library
template<class T> struct Mat {
    uint32_t w=0,h=0; std::vector<T> d;
    Mat() {}
    Mat(uint32_t w_,uint32_t h_,T v=T()): w(w_),h(h_),d((size_t)w_*h_,v) {}
    T& operator()(i64 x,i64 y) { return d[(size_t)y*w+x]; }
    const T& operator()(i64 x,i64 y) const { return d[(size_t)y*w+x]; }
    u64 hash() const { return hcomb(hbytes(d.data(),d.size()*sizeof(T)), ((u64)w<<32)|h); }
    bool operator==(const Mat& o) const { return w==o.w&&h==o.h&&(d.empty()||memcmp(d.data(),o.d.data(),d.size()*sizeof(T))==0); }
};

template<class T> struct IsF { static const bool v=std::is_floating_point<T>::value; };
template<class T> T garbage(Rng& r) { T t; u64 v=r.next(); if(IsF<T>::v) { double d=(double)(i64)(v%2000003)-1000001.0; t=(T)d; } else memcpy(&t,&v,sizeof t); return t; }

// fills with one of several textures; values stay within [lo,hi]
template<class T> void fill_tex(Rng& r, T* d, size_t n, uint32_t w, double lo, double hi, int mode=-1) {
    if(mode<0) mode=(int)r.range(0,8);
    if(!IsF<T>::v) { lo=std::max(lo,(double)std::numeric_limits<T>::lowest()); hi=std::min(hi,(double)std::numeric_limits<T>::max()); if(sizeof(T)==8) hi=std::min(hi,9e18); if(hi<lo) hi=lo; }
    auto rnd=[&](double a,double b)->T { return IsF<T>::v ? (T)r.real(a,b) : (T)r.range((i64)std::ceil(a),(i64)std::floor(b)); };
    T a=rnd(lo,hi), b=rnd(lo,hi); T L=(T)lo,H=(T)hi;
    double mid=lo+(hi-lo)*r.unit(), span=(hi-lo)*0.05*r.unit(); double l2=std::max(lo,mid-span),h2=std::min(hi,mid+span);
    if(!IsF<T>::v && std::floor(h2)<std::ceil(l2)) { l2=std::floor(l2); if(l2<lo) l2=lo; h2=l2; }
    for(size_t i=0;i<n;i++) switch(mode) {
        case 0: case 1: d[i]=rnd(lo,hi); break;                       // uniform
        case 2: d[i]=r.chance(.5)?a:b; break;                          // two values
        case 3: d[i]=r.chance(.5)?L:H; break;                          // extremes
        case 4: d[i]=a; break;                                         // constant
        case 5: { double f=lo+(hi-lo)*(double)(w? ((i%w)+(i/w))%97:0)/97.0; d[i]=(T)f; break; }   // ramp
        case 8: d[i]=rnd(std::floor(hi-(hi-lo)*.02),hi); break;         // everything close to the maximum
        case 6: d[i]=r.chance(.05)?rnd(lo,hi):a; break;                // sparse
        default: d[i]=rnd(l2,h2); break;                               // low contrast
    }
}
template<class T> Mat<T> rand_mat(Rng& r, uint32_t w, uint32_t h, double lo, double hi, int mode=-1) { Mat<T> m(w,h); fill_tex<T>(r,m.d.data(),m.d.size(),w,lo,hi,mode); return m; }

template<class T> struct Lim { static double lo() { return IsF<T>::v?-1000.0:(double)std::numeric_limits<T>::lowest(); } static double hi() { return IsF<T>::v?1000.0:(double)std::numeric_limits<T>::max(); } };

// now and then (with the probability a check sets up) a size at which narrow integer types and fixed buffers run out
struct Large { double p=0; uint32_t area=24000; u64 drawn=0; u64 huge_cases=0; bool huge=false; u64 huge_drawn=0; };     // huge: more than 2^24 pixels, in a few cases of the optimised build
inline Large& large() { static Large l; return l; }
// the widest kernel whose reference evaluation stays affordable on an image of this size
inline uint32_t kernel_cap(uint32_t w, uint32_t h, u64 ops=30000000) { u64 n=std::max<u64>(1,(u64)w*h); return (uint32_t)std::max<u64>(5,ops/n); }
inline void large_size(Rng& r, uint32_t& w, uint32_t& h) {
    Large& L=large(); L.drawn++; if(L.huge) { L.huge=false; L.huge_drawn++; if(r.chance(.7)) w=(uint32_t)r.range(3000,6000); else { w=(uint32_t)r.range(60,300); if(r.chance(.5)) w=(1u<<24)/w; } h=(uint32_t)((1u<<24)*1.02/w+(double)r.range(1,9)); return; } uint32_t a,b; i64 m=r.range(0,15);
    if(m==0) { a=(uint32_t)(r.chance(.5)?r.range(32760,32800):r.range(65530,65570)); b=(uint32_t)r.range(1,3); if((u64)a*b>8ull*L.area) b=1; }
    else if(m<5) { a=(uint32_t)r.range(100,400); b=(uint32_t)r.range(100,400); if((u64)a*b>3ull*L.area) b=std::max(1u,3*L.area/a); }
    else { a=(uint32_t)(m<8?r.pick({256,512,1024})+r.range(-6,6):(i64)(130*std::exp(r.unit()*3.6))); b=(uint32_t)r.range(1,r.chance(.5)?3:14); if((u64)a*b>L.area) b=std::max(1u,L.area/a); }
    if(r.chance(.5)) std::swap(a,b); w=a; h=b; }
// sizes: mostly tiny, sometimes elongated or larger
inline void rand_size(Rng& r, uint32_t& w, uint32_t& h, uint32_t big=48, uint32_t minimum=1) {
    if(large().huge||(large().p>0&&r.chance(large().p))) { large_size(r,w,h); return; }
    switch(r.range(0,9)) {
        case 0: w=(uint32_t)r.range(minimum,3); h=(uint32_t)r.range(minimum,3); break;
        case 1: w=(uint32_t)r.range(minimum,3); h=(uint32_t)r.range(minimum,big*2); break;
        case 2: w=(uint32_t)r.range(minimum,big*2); h=(uint32_t)r.range(minimum,3); break;
        case 3: w=(uint32_t)r.range(minimum,big); h=(uint32_t)r.range(minimum,12); break;
        case 4: w=(uint32_t)r.range(minimum,12); h=(uint32_t)r.range(minimum,big); break;
        case 5: w=h=(uint32_t)r.range(minimum,big); break;
        default: w=(uint32_t)r.range(minimum,20); h=(uint32_t)r.range(minimum,20); break;
    }
    w=std::max(w,minimum); h=std::max(h,minimum);
}

enum Kind { OWNER=0, REUSED, WRAPPED, SUB, SUBSUB, KIND_N };
inline const char* kname(Kind k) { static const char* n[]={"owner","reused-owner","wrapped","sub","subsub"}; return n[k]; }
inline Kind rand_kind(Rng& r) { return (Kind)r.range(0,KIND_N-1); }

// ------------------------------------------------------------------ one library image plus its surroundings
template<class T> struct Img {
    std::unique_ptr<Gray<T>> parent, parent2;      // for SUB / SUBSUB
    std::unique_ptr<T[]> buf; size_t buflen=0;     // for WRAPPED: exactly as long as the view needs
    std::unique_ptr<Gray<T>> g;
    Kind kind=OWNER; uint32_t w=0,h=0;
    std::vector<T> snap; T* sdata=nullptr; uint32_t so=0,ss=0; bool ssub=false;

    T* base() const { return kind==WRAPPED? buf.get() : (kind==SUB||kind==SUBSUB)? parent->data : g->data; }
    size_t blen() const { return kind==WRAPPED? buflen : (kind==SUB||kind==SUBSUB)? (size_t)parent->width*parent->height : (size_t)g->width*g->height; }
    bool is_view() const { return kind==WRAPPED||kind==SUB||kind==SUBSUB; }
    Gray<T>& operator*() const { return *g; }
    Gray<T>* operator->() const { return g.get(); }

    // own addressing, from the public shape fields
    T get(uint32_t x, uint32_t y) const { return g->data[g->offset+y*g->stride+x]; }
    void put(uint32_t x, uint32_t y, T v) { g->data[g->offset+y*g->stride+x]=v; }

    void make(Rng& r, Kind k, uint32_t W, uint32_t H) {
        kind=k; w=W; h=H; parent.reset(); parent2.reset(); buf.reset(); g.reset();
        switch(k) {
            case OWNER: g.reset(new Gray<T>(w,h)); for(size_t i=0;i<(size_t)w*h;i++) g->data[i]=garbage<T>(r); break;
            case REUSED: { uint32_t a=w+(uint32_t)r.range(0,9), b=h+(uint32_t)r.range(0,9); g.reset(new Gray<T>(a,b));
                for(size_t i=0;i<(size_t)a*b;i++) g->data[i]=garbage<T>(r); g->reshape(w,h); break; }
            case WRAPPED: { uint32_t off=(uint32_t)r.range(0,7), st=w+(uint32_t)r.range(0,7); if(r.chance(.2)) st=w; if(r.chance(.2)) off=0;
                buflen = h==0? off : off+(size_t)(h-1)*st+w; buf.reset(new T[buflen]); for(size_t i=0;i<buflen;i++) buf[i]=garbage<T>(r);
                g.reset(new Gray<T>(buf.get(),(uint32_t)buflen,w,h,off,st)); break; }
            case SUB: case SUBSUB: { uint32_t l=(uint32_t)r.range(0,5),t=(uint32_t)r.range(0,5),R=(uint32_t)r.range(0,5),B=(uint32_t)r.range(0,5);
                parent.reset(new Gray<T>(w+l+R,h+t+B)); for(size_t i=0;i<(size_t)parent->width*parent->height;i++) parent->data[i]=garbage<T>(r);
                if(k==SUB) g.reset(new Gray<T>(parent->makeSubimage(l,t,l+w,t+h)));
                else { uint32_t l1=(uint32_t)r.range(0,l),t1=(uint32_t)r.range(0,t); parent2.reset(new Gray<T>(parent->makeSubimage(l1,t1,parent->width-(uint32_t)r.range(0,R),parent->height-(uint32_t)r.range(0,B))));
                    g.reset(new Gray<T>(parent2->makeSubimage(l-l1,t-t1,l-l1+w,t-t1+h))); }
                break; }
            default: abort();
        }
    }
    void load(const Mat<T>& m) { for(uint32_t y=0;y<m.h;y++) for(uint32_t x=0;x<m.w;x++) put(x,y,m(x,y)); }
    void make(Rng& r, Kind k, const Mat<T>& m) { make(r,k,m.w,m.h); load(m); }
    Mat<T> read() const { Mat<T> m(g->width,g->height); for(uint32_t y=0;y<m.h;y++) for(uint32_t x=0;x<m.w;x++) m(x,y)=get(x,y); return m; }

    void snapshot() { snap.assign(base(),base()+blen()); sdata=g->data; so=g->offset; ss=g->stride; ssub=g->subimage; w=g->width; h=g->height; }
    // nothing of an input image may change
    const char* changed() const {
        if(g->data!=sdata||g->offset!=so||g->stride!=ss||g->subimage!=ssub||g->width!=w||g->height!=h) return "shape or storage fields changed";
        if(snap.size()&&memcmp(snap.data(),base(),snap.size()*sizeof(T))) return "pixels changed"; return nullptr; }
    // of an output view only the pixels inside may change
    const char* outside_changed(uint32_t* px=nullptr) const {
        if(!is_view()) return nullptr;
        if(g->data!=sdata||g->offset!=so||g->stride!=ss||!g->subimage||g->width!=w||g->height!=h) return "output view was re-seated";
        const T* b=base(); size_t n=blen();
        std::vector<char> in(n,0);
        for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) in[so+(size_t)y*ss+x]=1;
        for(size_t i=0;i<n;i++) if(!in[i] && memcmp(&b[i],&snap[i],sizeof(T))) { if(px) *px=(uint32_t)i; return "pixel outside the output view changed"; }
        return nullptr; }
};

// an output image: either already of the right shape (any kind) or an owner of some other shape that is to be reshaped
template<class T> void make_out(Rng& r, Img<T>& o, uint32_t w, uint32_t h, bool mayReshape) {
    if(mayReshape && r.chance(.3)) { uint32_t a=(uint32_t)r.range(0,2*w),b=(uint32_t)r.range(0,2*h); o.make(r,r.chance(.5)?OWNER:REUSED,a,b); }
    else o.make(r,rand_kind(r),w,h);
    o.snapshot();
}
template<class T> void check_input(Ctx& c, const Img<T>& i, const char* what) { const char* e=i.changed(); if(e) c.fail(std::string("input-modified:")+what,"%s: %s (%s)",what,e,kname(i.kind)); }
template<class T> void check_out(Ctx& c, const Img<T>& o, uint32_t w, uint32_t h, const char* what) {
    if(o->width!=w||o->height!=h) c.fail(std::string("output-shape:")+what,"output is %ux%u, expected %ux%u",o->width,o->height,w,h);
    uint32_t p=0; const char* e=o.outside_changed(&p); if(e) c.fail(std::string("wrote-outside:")+what,"%s: %s (array index %u, view offset %u stride %u size %ux%u)",what,e,p,o.so,o.ss,o.w,o.h); }

template<class T> std::string sv(T v) { if(IsF<T>::v) return strf("%.9g",(double)v); return strf("%lld",(long long)v); }
} // namespace vh
