// Convolution families of the registry (instantiated in several files to share the compilation work).
#pragma once
#include "ops.hpp"
#include <boofcv/convolve.h>
namespace vh {
template<class E,class R> std::string tn(const char* base) { return strf("%s<%s,%s>",base,TName<E>::n(),TName<R>::n()); }
template<class E> std::string tn1(const char* base) { return strf("%s<%s>",base,TName<E>::n()); }
inline uint32_t pick_kw(Rng& r, uint32_t dim, bool d2) {
    uint32_t kw; switch(r.range(0,5)) { case 0: kw=(uint32_t)r.range(1,4); break; case 1: kw=(uint32_t)std::max<i64>(1,(i64)dim+r.range(-2,2)); break; case 2: kw=(uint32_t)(3+2*r.range(0,5)); break; case 3: kw=(uint32_t)r.range(1,d2?11:25); break; case 4: kw=(uint32_t)r.range(dim+1,3*(u64)dim+3); break; default: kw=(uint32_t)r.range(1,9); }
    return std::min(kw,d2?13u:60u); }
template<class E,class R> struct ConvPar { typedef typename TypeInfo<E>::signed_type K; int dir=0,algo=0,bt=0; uint32_t kw=1,org=0; E bv=E(); K div=K(); std::shared_ptr<Kernel1D<K>> k1; std::shared_ptr<Kernel2D<K>> k2; };
// algo 0: ConvolveImage (output reshaped) 1: ConvolveNaive 2: inner only 3: border only
template<class E,class R> Op conv_op(Rng& r, const GenOpt& go, const std::string& fam, int dir) {
    typedef typename TypeInfo<E>::signed_type K; Op o=new_op(fam); ConvPar<E,R> p; p.dir=dir; uint32_t w,h; GenOpt g2=go; if(dir==2&&!go.fixed) g2.big=std::min(go.big,18u); op_size(r,g2,w,h,true);
    uint32_t dim=dir==0?w:dir==1?h:std::min(w,h); p.kw=pick_kw(r,dim,dir==2); p.org=r.chance(.5)?p.kw/2:(uint32_t)r.range(0,p.kw-1); u64 n=dir==2?(u64)p.kw*p.kw:p.kw; double plo,phi,km; ConvRange<E>::pick(r,n,plo,phi,km); if(!IsF<R>::v&&sizeof(R)<4) { /* narrow outputs truncate, which is defined */ }
    std::vector<K> kv(n); for(auto& v:kv) v=IsF<E>::v?(K)r.real(-km,km):(K)r.range(-(i64)km,(i64)km);
    if(dir==2) { p.k2=std::make_shared<Kernel2D<K>>(p.kw,p.org); fill_kernel2(*p.k2,kv,p.kw); } else { p.k1=std::make_shared<Kernel1D<K>>(p.kw,p.org); fill_kernel1(*p.k1,kv); }
    Mat<E> in=rand_mat<E>(r,w,h,plo,phi); bool fits=w&&h&&p.kw<=dim; p.algo=(int)r.range(0,go.fixed?0:5); if(p.algo>3) p.algo=0; if(p.algo>=2&&!fits) p.algo=0;
    p.bt=(int)r.range(0,4); p.bv=IsF<E>::v?(E)r.real(plo,phi):(E)r.range((i64)plo,(i64)phi); o.in.push_back(gray<E>(in));
    PixelsP init; if(p.algo>=2) { Mat<R> m(w,h); for(auto& v:m.d) v=garbage<R>(r); init=gray<R>(m); }
    o.out.push_back(gout<R>(w,h,p.algo==0,init));
    o.desc=strf("algo %d kernel %u origin %u border %d",p.algo,p.kw,p.org,p.bt);
    o.bind=[p](Env& e)->Any { auto b=make_border<E>(p.bt,p.bv); b->setImage(G<E>(e.in[0])); return b; };
    o.run=[p](Env& e) { const ImageBorder<E>& b=*(ImageBorder<E>*)e.shared; const Gray<E>& in=G<E>(e.in[0]); Gray<R>& out=G<R>(e.out[0]); switch(p.algo*3+p.dir) {
        case 0: ConvolveImage::horizontal(*p.k1,b,out); break; case 1: ConvolveImage::vertical(*p.k1,b,out); break; case 2: ConvolveImage::convolve(*p.k2,b,out); break;
        case 3: ConvolveNaive::horizontal(*p.k1,b,out); break; case 4: ConvolveNaive::vertical(*p.k1,b,out); break; case 5: ConvolveNaive::convolve(*p.k2,b,out); break;
        case 6: ConvolveImage_Inner::horizontal_unrolled(*p.k1,in,out); break; case 7: ConvolveImage_Inner::vertical_unrolled(*p.k1,in,out); break; case 8: ConvolveImage_Inner::convolve(*p.k2,in,out); break;
        case 9: ConvolveImage_Border::horizontal(*p.k1,b,out); break; case 10: ConvolveImage_Border::vertical(*p.k1,b,out); break; default: ConvolveImage_Border::convolve(*p.k2,b,out); } };
    return o; }
// divided variants: output has the input's type
template<class E> Op convdiv_op(Rng& r, const GenOpt& go, const std::string& fam, int dir) {
    typedef typename TypeInfo<E>::signed_type K; Op o=new_op(fam); ConvPar<E,E> p; p.dir=dir; uint32_t w,h; GenOpt g2=go; if(dir==2&&!go.fixed) g2.big=std::min(go.big,18u); op_size(r,g2,w,h,true);
    uint32_t dim=dir==0?w:dir==1?h:std::min(w,h); p.kw=pick_kw(r,dim,dir==2); p.org=r.chance(.5)?p.kw/2:(uint32_t)r.range(0,p.kw-1); u64 n=dir==2?(u64)p.kw*p.kw:p.kw; double plo,phi,km; ConvRange<E>::pick(r,n,plo,phi,km);
    std::vector<K> kv(n); for(auto& v:kv) v=IsF<E>::v?(K)r.real(-km,km):(K)r.range(0,(i64)km);
    if(dir==2) { p.k2=std::make_shared<Kernel2D<K>>(p.kw,p.org); fill_kernel2(*p.k2,kv,p.kw); } else { p.k1=std::make_shared<Kernel1D<K>>(p.kw,p.org); fill_kernel1(*p.k1,kv); }
    // keep the quotient inside the pixel type for floating-point independence of the result
    p.div=IsF<E>::v?(K)r.real(.5,20):(K)std::max<double>(1,km*(double)n); Mat<E> in=rand_mat<E>(r,w,h,plo,phi); bool fits=w&&h&&p.kw<=dim; p.algo=fits&&r.chance(.7)?(r.chance(.5)?1:2):0; p.bt=(int)r.range(0,4); p.bv=(E)in.d.empty()?(E)0:in.d[0]; o.in.push_back(gray<E>(in));
    PixelsP init; if(p.algo) { Mat<E> m(w,h); for(auto& v:m.d) v=garbage<E>(r); init=gray<E>(m); } o.out.push_back(gout<E>(w,h,false,init)); o.desc=strf("algo %d kernel %u origin %u border %d divisor %s",p.algo,p.kw,p.org,p.bt,sv(p.div).c_str());
    o.bind=[p](Env& e)->Any { auto b=make_border<E>(p.bt,p.bv); b->setImage(G<E>(e.in[0])); return b; };
    o.run=[p](Env& e) { const ImageBorder<E>& b=*(ImageBorder<E>*)e.shared; const Gray<E>& in=G<E>(e.in[0]); Gray<E>& out=G<E>(e.out[0]); switch(p.algo*3+p.dir) {
        case 0: ConvolveNaive::horizontal(*p.k1,b,out,p.div); break; case 1: ConvolveNaive::vertical(*p.k1,b,out,p.div); break; case 2: ConvolveNaive::convolve(*p.k2,b,out,p.div); break;
        case 3: ConvolveImage_Inner::horizontal_unrolled(*p.k1,in,out,p.div); break; case 4: ConvolveImage_Inner::vertical_unrolled(*p.k1,in,out,p.div); break; case 5: ConvolveImage_Inner::convolve(*p.k2,in,out,p.div); break;
        case 6: ConvolveImage_Inner::horizontal(*p.k1,in,out,p.div); break; case 7: ConvolveImage_Inner::vertical(*p.k1,in,out,p.div); break; default: ConvolveImage_Inner::convolve(*p.k2,in,out,p.div); } };
    return o; }
template<class E> Op norm_op(Rng& r, const GenOpt& go, const std::string& fam, int dir) {
    typedef typename TypeInfo<E>::signed_type K; Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); uint32_t dim=dir==0?w:dir==1?h:(r.chance(.5)?w:h); uint32_t kw=pick_kw(r,dim,false),org=r.chance(.5)?kw/2:(uint32_t)r.range(0,kw-1);
    double plo,phi,km; ConvRange<E>::pick(r,kw,plo,phi,km); km=std::max(1.0,km/2); if(!IsF<E>::v) { plo=std::ceil(plo/2); phi=std::floor(phi/2); } auto k=std::make_shared<Kernel1D<K>>(kw,org); std::vector<K> kv(kw); for(auto& v:kv) v=IsF<E>::v?(K)r.real(.01,km):(K)r.range(1,(i64)km); if(IsF<E>::v&&r.chance(.5)) { K s=0; for(auto v:kv) s+=v; for(auto& v:kv) v/=s; } fill_kernel1(*k,kv);
    int algo=dir==2||go.fixed?0:(int)r.range(0,3); o.in.push_back(gray<E>(rand_mat<E>(r,w,h,plo,phi))); PixelsP init; if(algo==3) { if(kw<=dim) { Mat<E> m(w,h); for(auto& v:m.d) v=garbage<E>(r); init=gray<E>(m); } else algo=0; }
    o.out.push_back(gout<E>(w,h,dir==2,init)); if(dir==2) o.ws.push_back(gout<E>(w,h)); o.desc=strf("algo %d kernel %u origin %u",algo,kw,org);
    o.run=[=](Env& e) { const Gray<E>& in=G<E>(e.in[0]); Gray<E>& out=G<E>(e.out[0]); if(dir==2) ConvolveNormalized::convolve(*k,in,out,G<E>(e.ws[0]));
        else if(algo==2) { if(dir==0) ConvolveNormalizedNaive::horizontal(*k,in,out); else ConvolveNormalizedNaive::vertical(*k,in,out); }
        else if(algo==3) { if(dir==0) ConvolveNormalized_JustBorder::horizontal(*k,in,out); else ConvolveNormalized_JustBorder::vertical(*k,in,out); }
        else { if(dir==0) ConvolveNormalized::horizontal(*k,in,out); else ConvolveNormalized::vertical(*k,in,out); } };
    return o; }
template<class E,class R> void add_conv(std::vector<Family>& v) { const char* d[]={"convolve.horizontal","convolve.vertical","convolve.2d"}; for(int k=0;k<3;k++) { std::string n=tn<E,R>(d[k]); v.push_back(Family{n,false,false,true,[n,k](Rng& r,const GenOpt& g){ return conv_op<E,R>(r,g,n,k); }}); } }
template<class E> void add_norm(std::vector<Family>& v) { const char* d[]={"normalized.horizontal","normalized.vertical","normalized.both"}; const char* q[]={"divided.horizontal","divided.vertical","divided.2d"};
    for(int k=0;k<3;k++) { std::string n=tn1<E>(d[k]); v.push_back(Family{n,false,false,true,[n,k](Rng& r,const GenOpt& g){ return norm_op<E>(r,g,n,k); }}); std::string m=tn1<E>(q[k]); v.push_back(Family{m,false,false,true,[m,k](Rng& r,const GenOpt& g){ return convdiv_op<E>(r,g,m,k); }}); } }
}
