#pragma once
#include "convref.hpp"
#include <boofcv/convolve.h>
namespace vh {
// one convolution case for input type E and output type R
template<class E, class R> void conv_case(Ctx& c) {
    typedef typename TypeInfo<E>::signed_type K;
    typedef typename Acc<E>::t A;
    Rng& r=c.r;
    int dir=(int)r.range(0,2);                       // 0 horizontal 1 vertical 2 2D
    uint32_t w,h; rand_size(r,w,h,dir==2?22:40);
    uint32_t dim = dir==0?w:dir==1?h:std::min(w,h);
    uint32_t kw;
    switch(r.range(0,6)) {
        case 0: kw=(uint32_t)r.range(1,4); break;
        case 1: kw=(uint32_t)std::max<i64>(1,(i64)dim+r.range(-2,2)); break;       // about the image's size
        case 2: kw=(uint32_t)(3+2*r.range(0,5)); break;                            // unrolled widths 3..13
        case 3: kw=(uint32_t)r.range(1,dir==2?13:31); break;
        case 4: kw=(uint32_t)r.range(dim+1,std::min<u64>(dim*3+3,dir==2?24:80)); if(dir==2&&kw>24) kw=24; break;   // much larger than the image
        default: kw=(uint32_t)r.range(1,9); break;
    }
    if(dir==2&&kw>26) kw=26;
    if(dir==2&&(u64)w*h>6000) kw=std::min(kw,(u64)w*h>1000000?3u:9u); else if(dir!=2) kw=std::min(kw,kernel_cap(w,h));
    uint32_t org = r.chance(.4)? kw/2 : (uint32_t)r.range(0,kw-1);
    u64 n = dir==2?(u64)kw*kw:kw;
    double plo,phi,kmax; ConvRange<E>::pick(r,n,plo,phi,kmax);
    if(r.chance(.25)) { plo=0; phi=std::min(phi,15.0); }
    Mat<E> in=rand_mat<E>(r,w,h,plo,phi);
    std::vector<K> kv(n); { int m=(int)r.range(0,3); for(auto&v:kv) v = m==0? (K)1 : IsF<E>::v? (K)r.real(-kmax,kmax) : (K)r.range(m==1?0:-(i64)kmax,(i64)kmax); }
    int bt=(int)r.range(0,4); E bv = IsF<E>::v? (E)r.real(plo,phi) : (E)r.range((i64)plo,(i64)phi);
    int algo=(int)r.range(0,5);       // 0-2: ConvolveImage 3: naive 4: inner 5: divided variants
    bool fits = dir==2 ? kw<=w&&kw<=h : kw<=dim;
    if((algo==4) && !fits) algo=0;
    Kernel1D<K> k1; Kernel2D<K> k2;
    if(dir==2) { k2=Kernel2D<K>(kw,org); fill_kernel2(k2,kv,kw); } else { k1=Kernel1D<K>(kw,org); fill_kernel1(k1,kv); }
    Img<E> ii; ii.make(r,rand_kind(r),in); ii.snapshot();
    auto border=make_border<E>(bt,bv); border->setImage(*ii);
    K divisor=1; bool divided=false, inner=false;
    const char* dn[]={"horizontal","vertical","2d"}; 
    c.note("conv %s %s->%s %ux%u kernel %u origin %u border %s algo %d in=%s",dn[dir],TName<E>::n(),TName<R>::n(),w,h,kw,org,bname(bt),algo,kname(ii.kind));
    c.hash(in.hash()); c.hash(hbytes(kv.data(),kv.size()*sizeof(K))); c.hash(((u64)algo<<40)|((u64)bt<<32)|(kw<<16)|org|((u64)dir<<50)|((u64)sizeof(R)<<56));
    Img<R> o; 
    auto run_same=[&](int which) {   // algorithms with output type E and a divisor
        (void)which;
    }; (void)run_same;
    if(algo<=2) {
        make_out(r,o,w,h,true);
        if(dir==0) ConvolveImage::horizontal(k1,*border,*o); else if(dir==1) ConvolveImage::vertical(k1,*border,*o); else ConvolveImage::convolve(k2,*border,*o);
        c.ev("conv.full");
    } else if(algo==3) {
        make_out(r,o,w,h,false);
        if(dir==0) ConvolveNaive::horizontal(k1,*border,*o); else if(dir==1) ConvolveNaive::vertical(k1,*border,*o); else ConvolveNaive::convolve(k2,*border,*o);
        c.ev("conv.naive");
    } else if(algo==4) {
        make_out(r,o,w,h,false);
        if(r.chance(.5)) { // inner
            inner=true; bool un=r.chance(.5);
            if(dir==0) { if(un) ConvolveImage_Inner::horizontal_unrolled(k1,*ii,*o); else ConvolveImage_Inner::horizontal(k1,*ii,*o); }
            else if(dir==1) { if(un) ConvolveImage_Inner::vertical_unrolled(k1,*ii,*o); else ConvolveImage_Inner::vertical(k1,*ii,*o); }
            else ConvolveImage_Inner::convolve(k2,*ii,*o);
            c.ev("conv.inner");
        } else {
            // border alone: compare border pixels only
            if(dir==0) ConvolveImage_Border::horizontal(k1,*border,*o); else if(dir==1) ConvolveImage_Border::vertical(k1,*border,*o); else ConvolveImage_Border::convolve(k2,*border,*o);
            c.ev("conv.border");
            algo=6;
        }
    } else {
        divided=true; divisor=IsF<E>::v? (K)r.real(0.5,20) : (K)r.range(1,r.chance(.5)?12:255);
        c.note("divisor %s",sv(divisor).c_str());
    }
    Img<E> od;
    if(divided) {
        make_out(r,od,w,h,false);
        if(fits && r.chance(.5)) { inner=true; bool un=r.chance(.5);
            if(dir==0) { if(un) ConvolveImage_Inner::horizontal_unrolled(k1,*ii,*od,divisor); else ConvolveImage_Inner::horizontal(k1,*ii,*od,divisor); }
            else if(dir==1) { if(un) ConvolveImage_Inner::vertical_unrolled(k1,*ii,*od,divisor); else ConvolveImage_Inner::vertical(k1,*ii,*od,divisor); }
            else ConvolveImage_Inner::convolve(k2,*ii,*od,divisor);
            c.ev("conv.inner.divided");
        } else {
            if(dir==0) ConvolveNaive::horizontal(k1,*border,*od,divisor); else if(dir==1) ConvolveNaive::vertical(k1,*border,*od,divisor); else ConvolveNaive::convolve(k2,*border,*od,divisor);
            c.ev("conv.naive.divided");
        }
    }
    check_input(c,ii,"convolve-input");
    if(divided) check_out(c,od,w,h,"convolve"); else check_out(c,o,w,h,"convolve");
    // kernel must be untouched
    for(size_t i=0;i<n;i++) { K kvv = dir==2? k2.data[(uint32_t)i] : k1.data[(uint32_t)i]; if(memcmp(&kvv,&kv[i],sizeof(K))) c.fail("kernel-modified","kernel entry %zu changed",i); }
    if((dir==2?k2.width:k1.width)!=kw || (dir==2?k2.offset:k1.offset)!=org) c.fail("kernel-modified","kernel width/origin changed");
    u64 checked=0;
    for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) {
        bool inX = x>=org && x+(kw-1-org)<w, inY = y>=org && y+(kw-1-org)<h;
        bool interior = dir==0?inX:dir==1?inY:(inX&&inY);
        if(inner && !interior) continue;
        if(algo==6 && interior) continue;
        A sum=0; long double mag=0;
        for(uint32_t j=0;j<(dir==0?1:kw);j++) for(uint32_t i=0;i<(dir==1?1:kw);i++) {
            i64 xx = dir==1? x : (i64)x+i-org, yy = dir==0? y : (i64)y+j-org;
            K wgt = dir==2? kv[j*kw+i] : dir==0? kv[i] : kv[j];
            E v=ref_border_get(in,bt,bv,xx,yy);
            A t=(A)wgt*(A)v; sum+=t; if(IsF<E>::v) { long double q=(long double)t; mag+=q<0?-q:q; }
        }
        checked++;
        if(!divided) {
            R got=o.get(x,y); bool ok;
            if(IsF<E>::v) ok=close_f<R>(got,(long double)sum,mag,n); else ok = got==(R)(K)sum;
            if(!ok) c.fail(std::string("convolve-value:")+dn[dir],"pixel (%u,%u) is %s, the definition gives %s",x,y,sv(got).c_str(),IsF<E>::v?strf("%.9Lg",(long double)sum).c_str():sv((i64)sum).c_str());
        } else {
            E got=od.get(x,y); bool ok;
            if(IsF<E>::v) ok=close_f<E>(got,(long double)sum/divisor,mag/divisor,n); else ok = got==(E)(((K)sum+divisor/2)/divisor);
            if(!ok) c.fail(std::string("convolve-divided:")+dn[dir],"pixel (%u,%u) is %s, sum %s divisor %s",x,y,sv(got).c_str(),IsF<E>::v?strf("%.9Lg",(long double)sum).c_str():sv((i64)sum).c_str(),sv(divisor).c_str());
        }
    }
    c.ev("pixels.checked",checked); c.ev((std::string("dir.")+dn[dir]).c_str()); c.ev((std::string("border.")+bname(bt)).c_str()); c.ev((std::string("type.")+TName<E>::n()).c_str());
    if(kw>dim) c.ev("kernel.larger"); else if(kw==dim) c.ev("kernel.equal");
    if(org!=kw/2) c.ev("origin.asymmetric");
    if(checked) c.nontrivial();
    c.state(hcomb(((u64)dir<<60)|((u64)bt<<52)|((u64)(fits)<<50)|((u64)algo<<44)|(std::min(kw,20u)<<16)|std::min(org,20u),hcomb(sizeof(E)*2+IsF<E>::v,ii.kind)));
}
void conv_dispatch_a(Ctx&,int), conv_dispatch_b(Ctx&,int), conv_dispatch_c(Ctx&,int);
}
