// C05: mean and Gaussian blur.
#include "convref.hpp"
#include "kernref.hpp"
#include "meanref.hpp"
#include <boofcv/image_blur.h>
namespace vh {
void setup_run() { large().p=0.006; large().huge_cases=16; }
template<class E> void cmp(Ctx& c, const Mat<E>& got, const Mat<E>& want, const std::vector<long double>& ex, long double tol, const char* key) {
    for(uint32_t y=0;y<got.h;y++) for(uint32_t x=0;x<got.w;x++) { size_t i=(size_t)y*got.w+x; bool ok=IsF<E>::v? std::fabs((long double)got.d[i]-ex[i])<=tol : got.d[i]==want.d[i];
        if(!ok) c.fail(key,"pixel (%u,%u) is %s, expected %s (tolerance %.3Lg)",x,y,sv(got.d[i]).c_str(),IsF<E>::v?strf("%.9Lg",ex[i]).c_str():sv(want.d[i]).c_str(),tol); } c.ev("pixels.checked",got.d.size());
}
template<class E> void range_check(Ctx& c, const Mat<E>& in, const Mat<E>& out, long double slack, const char* key) {
    E mn=in.d[0],mx=in.d[0]; for(auto v:in.d) { mn=std::min(mn,v); mx=std::max(mx,v); } if(!IsF<E>::v&&mn<0) return;   // integer rounding is toward zero for negative sums
    for(auto v:out.d) if((long double)v<(long double)mn-slack||(long double)v>(long double)mx+slack) c.fail(key,"value %s outside the input range %s..%s",sv(v).c_str(),sv(mn).c_str(),sv(mx).c_str());
    c.ev("range.checked"); if(mn==mx) c.ev("constant.checked");
}
template<class E> void mean_case(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,c.r.chance(.05)?120:40);
    bool wide=c.idx%25000==11; if(wide) { w=(uint32_t)r.range(2200000,3000000); h=(uint32_t)r.range(3,4); c.ev("very.wide.images"); }   // row buffers must not live on the stack
    int api=(int)r.range(0,2); uint32_t dim= r.chance(.5)?w:h; uint32_t rad;
    switch(r.range(0,4)) { case 0: rad=(uint32_t)r.range(1,3); break; case 1: rad=(uint32_t)std::max<i64>(1,(i64)dim/2+r.range(-2,2)); break; case 2: rad=(uint32_t)std::max<i64>(1,(i64)dim+r.range(-2,2)); break; case 3: rad=(uint32_t)r.range(1,2*std::max(w,h)+2); break; default: rad=(uint32_t)r.range(1,12); }
    if((u64)w*h>3000) rad=std::min(rad,kernel_cap(w,h,50000000)); if(wide) { rad=1; api=2; }
    double lo=Lim<E>::lo(),hi=Lim<E>::hi(); u64 kw=2*(u64)rad+1;
    if(!IsF<E>::v&&sizeof(E)==4) { hi=std::floor(2147483647.0*.45/kw); lo=-hi; } if(!IsF<E>::v&&sizeof(E)==8) { hi=1e15; lo=-hi; }
    if(IsF<E>::v) { double m=r.pick({1.0,255.0,1e5}); lo=r.chance(.5)?-m:0; hi=m; } if(r.chance(.3)) lo=0;
    Mat<E> in=rand_mat<E>(r,w,h,lo,hi); Img<E> ii,o,st; ii.make(r,rand_kind(r),in); ii.snapshot();
    make_out(r,o,w,h,api==0); make_out(r,st,w,h,api==0);
    const char* an[]={"mean","mean-horizontal","mean-vertical"};
    c.note("%s %s %ux%u radius %u in=%s out=%s storage=%s",an[api],TName<E>::n(),w,h,rad,kname(ii.kind),kname(o.kind),kname(st.kind)); c.hash(in.hash()); c.hash(rad*4+api); c.nontrivial();
    if(api==0) BlurImageOps::mean(*ii,*o,rad,*st); else if(api==1) ConvolveImageMean::horizontal(*ii,*o,rad); else ConvolveImageMean::vertical(*ii,*o,rad);
    check_input(c,ii,"blur-input"); check_out(c,o,w,h,"blur"); if(api==0) check_out(c,st,w,h,"blur-storage");
    long double mx=0; for(auto v:in.d) mx=std::max(mx,std::fabs((long double)v)); long double tol=std::numeric_limits<E>::epsilon()*mx*(4*((long double)w+h)+4*(long double)kw+32)+std::numeric_limits<E>::min(); if(!IsF<E>::v) tol=0;
    std::vector<long double> ex;
    if(api==0) { Mat<E> m=ref_mean(in,rad,true,ex); std::vector<long double> e2; 
        if(IsF<E>::v) { Mat<long double> mm(w,h); for(size_t i=0;i<mm.d.size();i++) mm.d[i]=ex[i]; std::vector<long double> e3; ref_mean<long double>(mm,rad,false,e2); Mat<E> dummy; cmp(c,o.read(),dummy,e2,tol,"mean-value"); }
        else { Mat<E> m2=ref_mean(m,rad,false,e2); cmp(c,o.read(),m2,e2,tol,"mean-value"); } }
    else { Mat<E> m=ref_mean(in,rad,api==1,ex); cmp(c,o.read(),m,ex,tol,api==1?"mean-horizontal":"mean-vertical"); }
    range_check(c,in,o.read(),tol,"mean-range");
    c.ev(an[api]); c.ev((std::string("type.")+TName<E>::n()).c_str()); if(kw>w&&kw>h) c.ev("radius.exceeds.both"); else if(kw>w) c.ev("radius.exceeds.width"); else if(kw>h) c.ev("radius.exceeds.height"); if(kw==w||kw==h) c.ev("window.equals.dimension");
    c.state(hcomb(((u64)api<<40)|((u64)std::min(rad,30u)<<20)|(sizeof(E)*2+IsF<E>::v),((u64)std::min(w,25u)<<8)|std::min(h,25u)));
}
template<class E> void gauss_case(Ctx& c) {
    typedef typename TypeInfo<E>::signed_type K; Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,40);
    double sigma; i64 width; int mode=(int)r.range(0,2);
    if(mode==0) { sigma=r.real(0.2,6); width=r.chance(.5)?0:-r.range(1,5); } else if(mode==1) { sigma=r.chance(.5)?0:-r.real(0,3); width=r.range(2,r.chance(.2)?60:21); } else { sigma=r.real(0.2,8); width=r.range(1,r.chance(.2)?60:21); }
    if(sigma>0&&r.chance(.4)) { sigma=std::max(.5,std::round(sigma*2)/2); c.ev("gaussian.common.sigma"); }       // the same values again and again: nothing may be remembered between calls
    double lo=Lim<E>::lo(),hi=Lim<E>::hi(); if(!IsF<E>::v&&sizeof(E)==4) { hi=100000; lo=-hi; } if(!IsF<E>::v&&sizeof(E)==8) { hi=1e12; lo=-hi; } if(r.chance(.5)) lo=0; if(IsF<E>::v) { lo=r.chance(.5)?0:-255; hi=255; }
    Mat<E> in=rand_mat<E>(r,w,h,lo,hi); Img<E> ii,o,st; ii.make(r,rand_kind(r),in); ii.snapshot(); make_out(r,o,w,h,true); make_out(r,st,w,h,true);
    c.note("gaussian %s %ux%u sigma %.6g width %lld in=%s",TName<E>::n(),w,h,sigma,(long long)width,kname(ii.kind)); c.hash(in.hash()); c.hash((u64)(sigma*1e6)*1000+(u64)width); c.nontrivial();
    std::vector<long double> kd=ref_gauss1d(sigma,width); std::vector<K> kv; bool ambiguous=false;
    BlurImageOps::gaussian(*ii,*o,sigma,(int32_t)width,*st);
    check_input(c,ii,"gaussian-input"); check_out(c,o,w,h,"gaussian"); check_out(c,st,w,h,"gaussian-storage");
    ref_kernel_values<K>(kd,kv,ambiguous);
    if(ambiguous) { // an entry lies on a truncation boundary: take the library's choice when it is one of the two possible ones
        Kernel1D<K> lib=FactoryKernel::gaussian1D<K>(sigma,(int32_t)width); if(lib.width!=kv.size()) c.fail("gaussian-kernel-width","kernel has %u entries, expected %zu",lib.width,kv.size());
        for(size_t i=0;i<kv.size();i++) { long double d=(long double)lib.at((uint32_t)i)-(long double)kv[i]; if(d>1||d<-1) c.fail("gaussian-kernel","entry %zu",i); kv[i]=lib.at((uint32_t)i); } c.ev("ambiguous.kernels"); }
    uint32_t org=(uint32_t)kv.size()/2; long double mx=0; for(auto v:in.d) mx=std::max(mx,std::fabs((long double)v));
    if(!IsF<E>::v) { typedef __int128 A; Mat<E> cur=in; for(int pass=0;pass<2;pass++) { Mat<E> nx(w,h); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) { A t=0,wt=0; for(i64 k=0;k<(i64)kv.size();k++) { i64 p=(i64)(pass?y:x)+k-org; if(p<0||p>=(i64)(pass?h:w)) continue; t+=(A)kv[k]*(A)(pass?cur(x,p):cur(p,y)); wt+=(A)kv[k]; } nx(x,y)=(E)(K)((t+wt/2)/wt); } cur=nx; }
        std::vector<long double> none; cmp(c,o.read(),cur,none,0,"gaussian-value"); }
    else { std::vector<long double> cur(in.d.begin(),in.d.end()); for(int pass=0;pass<2;pass++) { std::vector<long double> nx(cur.size()); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) { long double t=0,wt=0; for(i64 k=0;k<(i64)kd.size();k++) { i64 p=(i64)(pass?y:x)+k-org; if(p<0||p>=(i64)(pass?h:w)) continue; t+=kd[k]*(pass?cur[(size_t)p*w+x]:cur[(size_t)y*w+p]); wt+=kd[k]; } nx[(size_t)y*w+x]=t/wt; } cur=nx; }
        Mat<E> none; cmp(c,o.read(),none,cur,std::numeric_limits<E>::epsilon()*mx*(40+8*(long double)kd.size())+(sizeof(E)==8?1e-9L*mx:0),"gaussian-value"); }
    range_check(c,in,o.read(),IsF<E>::v?std::numeric_limits<E>::epsilon()*mx*(40+8*(long double)kd.size()):0,"gaussian-range");
    c.ev("gaussian"); c.ev(mode==0?"gaussian.width.derived":mode==1?"gaussian.sigma.derived":"gaussian.both.given"); if(kv.size()>w||kv.size()>h) c.ev("gaussian.kernel.larger"); c.ev((std::string("type.")+TName<E>::n()).c_str());
    c.state(hcomb(((u64)kv.size()<<20)|(sizeof(E)*2+IsF<E>::v),((u64)std::min(w,25u)<<8)|std::min(h,25u)));
}
template<class E> void both(Ctx& c) { if(c.r.chance(.65)) mean_case<E>(c); else gauss_case<E>(c); }
void run_case(Ctx& c) { switch(c.r.range(0,9)) { case 0: case 1: case 2: both<U8>(c); break; case 3: both<S16>(c); break; case 4: both<U16>(c); break; case 5: both<S32>(c); break; case 6: both<S64>(c); break; case 7: both<F64>(c); break; default: both<F32>(c); } }
}
