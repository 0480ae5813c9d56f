// Reference definitions for convolution and borders (independent of the library's loops).
#pragma once
#include "img.hpp"
#include <boofcv/image_border.h>
#include <boofcv/convolve_kernels.h>

namespace vh {
struct BorderRule { int type; double value; };   // type: 0 extended 1 reflect 2 wrap 3 zero 4 value
inline const char* bname(int t) { static const char* n[]={"extended","reflect","wrap","zero","value"}; return n[t]; }
inline i64 map_coord(int type, i64 x, i64 n) {
    if(x>=0&&x<n) return x;
    switch(type) {
        case 0: return x<0?0:n-1;
        case 1: { if(n==1) return 0; i64 p=2*(n-1); i64 m=((x%p)+p)%p; return m<n?m:p-m; }
        case 2: return ((x%n)+n)%n;
        default: return -1;
    }
}
template<class T> T ref_border_get(const Mat<T>& m, int type, T value, i64 x, i64 y) {
    if(x>=0&&y>=0&&x<m.w&&y<m.h) return m(x,y);
    if(type==3) return (T)0;
    if(type==4) return value;
    return m(map_coord(type,x,m.w),map_coord(type,y,m.h));
}
template<class T> std::shared_ptr<ImageBorder<T>> make_border(int type, T value) {
    switch(type) {
        case 0: return FactoryImageBorder::create_SB<T>(BorderType::EXTENDED);
        case 1: return FactoryImageBorder::create_SB<T>(BorderType::REFLECT);
        case 2: return FactoryImageBorder::create_SB<T>(BorderType::WRAP);
        case 3: return FactoryImageBorder::create_SB<T>(BorderType::ZERO);
        default: return FactoryImageBorder::value_SB<T>(value);
    }
}
// accumulators
template<class T> struct Acc { typedef typename std::conditional<IsF<T>::v,long double,__int128>::type t; };
template<class T> bool close_f(T got, long double want, long double scale, long double n) {
    long double tol=scale*std::numeric_limits<T>::epsilon()*(4+2*n)+std::numeric_limits<T>::min();
    long double d=(long double)got-want; if(d<0) d=-d; return d<=tol;
}
// kernel made of `data`, width and origin; K is the library's kernel element type
template<class K> Kernel1D<K> mk_kernel1(const std::vector<K>& v, uint32_t origin) { Kernel1D<K> k((uint32_t)v.size(),origin); for(size_t i=0;i<v.size();i++) k.at((uint32_t)i)=v[i]; return k; }
template<class K> void fill_kernel1(Kernel1D<K>& k, const std::vector<K>& v) { for(size_t i=0;i<v.size();i++) k.at((uint32_t)i)=v[i]; }
template<class K> void fill_kernel2(Kernel2D<K>& k, const std::vector<K>& v, uint32_t w) { for(uint32_t y=0;y<w;y++) for(uint32_t x=0;x<w;x++) k.at(x,y)=v[y*w+x]; }

// value range for pixels and weights so that no 32/64-bit sum can overflow
template<class E> struct ConvRange {
    static void pick(Rng& r, u64 n, double& plo, double& phi, double& kmax) {
        if(IsF<E>::v) { plo=-1000; phi=1000; kmax=10; if(r.chance(.3)) { plo=0; phi=255; kmax=1; } return; }
        double lim = sizeof(E)==8 ? 9e18 : 2147483647.0;
        plo=Lim<E>::lo(); phi=Lim<E>::hi();
        double cap = sizeof(E)==8? 1e9 : sizeof(E)==4? 20000 : 1e18;
        if(plo<-cap) plo=-cap; if(phi>cap) phi=cap;
        double m=std::max(std::fabs(plo),std::fabs(phi));
        kmax=std::floor(lim*0.45/(m*(double)n)); if(kmax<1) { double f=lim*0.45/(double)n; phi=std::min(phi,std::floor(f)); plo=std::max(plo,-std::floor(f)); kmax=1; }
        if(kmax>30000) kmax=30000;
        if(r.chance(.5)) kmax=std::min(kmax,(double)r.range(1,9));
    }
};
} // namespace vh
