// C10: block threshold filters.
#include "otsuref.hpp"
#include <boofcv/threshold_block_filters.h>
namespace vh {
void setup_run() { large().p=0.006; }
struct Grid { uint32_t bw,bh,cols,rows; void cell(uint32_t i, uint32_t j, uint32_t W, uint32_t H, uint32_t& x0, uint32_t& y0, uint32_t& x1, uint32_t& y1) const { x0=i*bw;y0=j*bh;x1=i+1==cols?W:x0+bw;y1=j+1==rows?H:y0+bh; } };
static Grid ref_grid(uint32_t w, uint32_t h, uint32_t req) { Grid g; g.rows=h/req; g.cols=w/req; g.bw=w/g.cols; g.bh=h/g.rows; return g; }
struct Setup { uint32_t w,h,req; ConfigLength L; bool local; Grid g; };
static bool pick_setup(Rng& r, Setup& s) {
    rand_size(r,s.w,s.h,r.chance(.15)?100:40); uint32_t m=std::min(s.w,s.h);
    if(r.chance(.6)) { s.req=(uint32_t)r.range(1,r.chance(.5)?m:std::min(m,12u)); s.L=ConfigLength::fixed(r.chance(.8)?(double)s.req:std::max(0.5,s.req+r.real(-.49,.49))); }
    else { double f=r.real(0,1); int mn=(int)r.range(1,5); s.L=ConfigLength::relative(f,mn); }
    double len=s.L.fraction>=0?std::max(s.L.fraction*m,s.L.length):s.L.length; s.req=(uint32_t)(len+.5); if(s.req<1||s.req>m) return false;
    s.local=r.chance(.6); s.g=ref_grid(s.w,s.h,s.req); return true;
}
static void note_setup(Ctx& c, const char* what, const char* t, const Setup& s, Kind ik, Kind ok) { c.note("%s %s %ux%u block %g/%g (%u) grid %ux%u of %ux%u local=%d in=%s out=%s",what,t,s.w,s.h,s.L.length,s.L.fraction,s.req,s.g.cols,s.g.rows,s.g.bw,s.g.bh,(int)s.local,kname(ik),kname(ok)); }
static void count(Ctx& c, const Setup& s, const char* what) { c.ev(what); c.ev(s.local?"local":"own.block"); if(s.g.cols==1||s.g.rows==1) c.ev("single.row.or.column.of.blocks"); if(s.w%s.g.bw) c.ev("remainder.columns"); if(s.h%s.g.bh) c.ev("remainder.rows"); if(s.L.isRelative()) c.ev("relative.block"); c.ev("blocks",s.g.cols*s.g.rows); c.state(hcomb(hcomb(std::min(s.g.cols,12u),std::min(s.g.rows,12u)),hcomb(s.local,(s.w%s.g.bw!=0)*2+(s.h%s.g.bh!=0)))); }
template<class F> void around(const Setup& s, uint32_t i, uint32_t j, F f) { uint32_t a0=i,a1=i,b0=j,b1=j; if(s.local) { a0=i?i-1:0; a1=std::min(s.g.cols-1,i+1); b0=j?j-1:0; b1=std::min(s.g.rows-1,j+1); } for(uint32_t b=b0;b<=b1;b++) for(uint32_t a=a0;a<=a1;a++) f(a,b); }
// the filter is used twice when `before` is given: first on an unrelated image
template<class E, class Flt> void run_filter(Ctx& c, Flt& f, const Setup& s, const Mat<E>& in, Img<E>& ii, Img<U8>& o) {
    Rng& r=c.r; if(r.chance(.3)) { uint32_t w,h; w=(uint32_t)r.range(s.req,s.req+20); h=(uint32_t)r.range(s.req,s.req+20); Mat<E> m=rand_mat<E>(r,w,h,0,200); Img<E> pi; Img<U8> po; pi.make(r,OWNER,m); po.make(r,OWNER,w,h); try { f.process(*pi,*po); } catch(const std::invalid_argument&) {} c.ev("filter.reused"); }
    o.make(r,o.kind,s.w,s.h); o.snapshot(); f.process(*ii,*o); check_input(c,ii,"block"); check_out(c,o,s.w,s.h,"block"); Mat<U8> g=o.read(); for(size_t k=0;k<g.d.size();k++) if(g.d[k]>1) c.fail("block-not-binary","output pixel %zu is %d",k,g.d[k]); (void)in;
}
template<class E> void mean_case(Ctx& c) {
    Rng& r=c.r; Setup s; if(!pick_setup(r,s)) return; float scale=r.chance(.4)?1.0f:(float)r.real(.3,1.3); bool down=r.chance(.5); double lo=Lim<E>::lo(),hi=Lim<E>::hi(); if(sizeof(E)==4&&!IsF<E>::v) { hi=std::min(2e6,std::floor(2147483647.0*.4/((double)(2*s.g.bw)*(2*s.g.bh)))); lo=-hi; } if(sizeof(E)==2&&(double)(2*s.g.bw)*(2*s.g.bh)*32768.0>2147483647.0*.9) { double q=std::floor((std::is_signed<E>::value?2147483647.0:4294967295.0)*.9/std::min((double)s.w*s.h,(double)(2*s.g.bw)*(2*s.g.bh))); hi=std::min(hi,q); lo=std::max(lo,-q); c.ev("sums.limited"); } if(sizeof(E)==8&&!IsF<E>::v) { hi=1e6; lo=-hi; } if(IsF<E>::v) { hi=255; lo=-255; } if(r.chance(.5)) lo=std::max(0.0,lo);
    if(scale>1&&!IsF<E>::v) { hi=std::floor(hi/1.31); lo=std::ceil(lo/1.31); } Mat<E> in=rand_mat<E>(r,s.w,s.h,lo,hi); Img<E> ii; Img<U8> o; ii.make(r,rand_kind(r),in); ii.snapshot(); o.kind=rand_kind(r);
    note_setup(c,"mean",TName<E>::n(),s,ii.kind,o.kind); c.note("scale %.8g down=%d",scale,(int)down); c.hash(in.hash()); c.hash(s.req*8+s.local*2+down); c.hash((u64)(scale*1e6f));
    ThresholdBlockMean<E> f(s.L,s.local,scale,down); run_filter<E>(c,f,s,in,ii,o); Mat<U8> got=o.read();
    // the statistic of each block as an interval: exact up to single-precision rounding of the scaled mean; averages of negative integers may round either way
    std::vector<long double> L(s.g.cols*s.g.rows),H(L.size()); long double feps=std::max<long double>(2.4e-7L,std::numeric_limits<E>::epsilon()*(IsF<E>::v?1:0));
    for(uint32_t j=0;j<s.g.rows;j++) for(uint32_t i=0;i<s.g.cols;i++) { uint32_t x0,y0,x1,y1; s.g.cell(i,j,s.w,s.h,x0,y0,x1,y1); long double sum=0,ab=0; for(uint32_t y=y0;y<y1;y++) for(uint32_t x=x0;x<x1;x++) { sum+=in(x,y); ab+=fabsl((long double)in(x,y)); } long double n=(long double)(x1-x0)*(y1-y0), m=scale*sum/n; size_t k=j*s.g.cols+i;
        if(IsF<E>::v) { long double t=fabsl(m)*4*feps+fabsl(scale)*ab/n*std::numeric_limits<E>::epsilon()*(n+4); L[k]=m-t; H[k]=m+t; }
        else { long double t=fabsl(m)*feps+1e-9L; L[k]=floorl(m+.5L-t); H[k]=m<0?ceill(m+.5L+t):floorl(m+.5L+t); if(m<0&&L[k]>H[k]) std::swap(L[k],H[k]); } }
    u64 judged=0;
    for(uint32_t j=0;j<s.g.rows;j++) for(uint32_t i=0;i<s.g.cols;i++) { long double a=0,b=0; int n=0; around(s,i,j,[&](uint32_t p,uint32_t q){ a+=L[q*s.g.cols+p]; b+=H[q*s.g.cols+p]; n++; }); a/=n;b/=n; if(IsF<E>::v) { long double t=(fabsl(a)+fabsl(b))*feps*8+255*feps; a-=t;b+=t; } else { a=floorl(a); b=b<0?ceill(b):floorl(b); }
        uint32_t x0,y0,x1,y1; s.g.cell(i,j,s.w,s.h,x0,y0,x1,y1); for(uint32_t y=y0;y<y1;y++) for(uint32_t x=x0;x<x1;x++) { long double v=in(x,y); int below=v<=a?1:v>b?0:-1; if(below<0) continue; judged++; if(got(x,y)!=(U8)(down==(below==1))) c.fail(lo<0?"block-mean-signed":"block-mean","pixel (%u,%u)=%s in block (%u,%u), neighbourhood mean %.9Lg..%.9Lg gave %d",x,y,sv(in(x,y)).c_str(),i,j,a,b,got(x,y)); } }
    c.ev("pixels.judged",judged); count(c,s,"mean"); if(lo<0) c.ev("mean.negative.values"); c.ev((std::string("mean.")+TName<E>::n()).c_str());
}
template<class E> void otsu_case(Ctx& c) {
    Rng& r=c.r; Setup s; if(!pick_setup(r,s)||(u64)s.g.cols*s.g.rows>700) return; bool o2=r.chance(.5),down=r.chance(.5); double tuning=r.chance(.4)?0:r.pick({0.5,1.0,2.0,8.0}), scale=r.chance(.4)?1:r.real(.5,1.5); double lo=r.chance(.4)?(double)r.range(0,200):0, hi=r.chance(.4)?std::min(255.0,lo+r.range(0,40)):255; Mat<E> in=rand_mat<E>(r,s.w,s.h,lo,hi); Img<E> ii; Img<U8> o; ii.make(r,rand_kind(r),in); ii.snapshot(); o.kind=rand_kind(r);
    note_setup(c,"otsu",TName<E>::n(),s,ii.kind,o.kind); c.note("otsu2=%d tuning %g scale %.8g down=%d",(int)o2,tuning,scale,(int)down); c.hash(in.hash()); c.hash(s.req*8+s.local*4+o2*2+down); c.hash((u64)(scale*1e6+tuning*1e9));
    ThresholdBlockOtsu<E> f(o2,s.L,tuning,scale,down,s.local); run_filter<E>(c,f,s,in,ii,o); Mat<U8> got=o.read();
    std::vector<std::vector<u64>> H(s.g.cols*s.g.rows,std::vector<u64>(256,0)); for(uint32_t j=0;j<s.g.rows;j++) for(uint32_t i=0;i<s.g.cols;i++) { uint32_t x0,y0,x1,y1; s.g.cell(i,j,s.w,s.h,x0,y0,x1,y1); for(uint32_t y=y0;y<y1;y++) for(uint32_t x=x0;x<x1;x++) H[j*s.g.cols+i][(U8)in(x,y)]++; }
    for(uint32_t j=0;j<s.g.rows;j++) for(uint32_t i=0;i<s.g.cols;i++) { std::vector<u64> h(256,0); around(s,i,j,[&](uint32_t p,uint32_t q){ for(int k=0;k<256;k++) h[k]+=H[q*s.g.cols+p][k]; }); OtsuRef R=otsu_ref(h); long double var=R.best/65536.0L+.001L; IntSet ok; if(R.best<=0||R.splits.empty()) otsu_adjust(0,var,tuning,down,scale,ok); for(size_t k=0;k<R.splits.size();k++) otsu_adjust(o2?R.mids[k]:(long double)R.splits[k],var,tuning,down,scale,ok);
        uint32_t x0,y0,x1,y1; s.g.cell(i,j,s.w,s.h,x0,y0,x1,y1); bool hit=false; for(auto& iv:ok.v) { for(long double t=iv.first;t<=iv.second&&t<=iv.first+3&&!hit;t+=1) { bool all=true; for(uint32_t y=y0;y<y1&&all;y++) for(uint32_t x=x0;x<x1&&all;x++) all=got(x,y)==(U8)(down==((long double)(U8)in(x,y)<=t)); hit=all; } if(hit) break; }
        if(!hit) { U8 mxOn=0,mnOff=255; for(uint32_t y=y0;y<y1;y++) for(uint32_t x=x0;x<x1;x++) { U8 v=(U8)in(x,y); if((got(x,y)!=0)==down) mxOn=std::max(mxOn,v); else mnOff=std::min(mnOff,v); } c.fail("block-otsu","block (%u,%u): threshold should be %.6Lg%s; pixels up to %d are below it and from %d above",i,j,ok.any(),ok.v.size()>1?" (or others)":"",mxOn,mnOff); } if(ok.v.size()>1) c.ev("otsu.ties"); }
    count(c,s,"otsu"); c.ev("pixels.judged",in.d.size()); if(tuning!=0) c.ev("otsu.tuned"); c.ev((std::string("otsu.")+TName<E>::n()).c_str());
}
template<class E> void minmax_case(Ctx& c) {
    Rng& r=c.r; Setup s; if(!pick_setup(r,s)) return; bool down=r.chance(.5); float scale=r.chance(.4)?1.0f:(float)r.real(.5,1.4); double lo=Lim<E>::lo(),hi=Lim<E>::hi(); if(sizeof(E)>=4&&!IsF<E>::v) { hi=1e6; lo=-hi; } if(IsF<E>::v) { hi=r.pick({1.0,255.0}); lo=-hi; } switch(r.range(0,3)) { case 0: lo=std::max(lo,0.0); break; case 1: lo=std::max(lo,0.0); hi=std::min(hi,lo+r.range(1,20)); break; case 2: if(lo<0) hi=std::ceil(lo/4); break; default: break; }
    if(hi<lo) hi=lo; Mat<E> in=rand_mat<E>(r,s.w,s.h,lo,hi); float spread; switch(r.range(0,4)) { case 0: spread=-1; break; case 1: spread=-(float)r.real(0.1,100); break; case 2: spread=(float)r.range(0,30); break; case 3: spread=(float)r.real(0,30); break; default: { E a=in.d[(size_t)r.range(0,in.d.size()-1)],b=in.d[(size_t)r.range(0,in.d.size()-1)]; spread=(float)std::fabs((double)a-(double)b); } }
    Img<E> ii; Img<U8> o; ii.make(r,rand_kind(r),in); ii.snapshot(); o.kind=rand_kind(r); note_setup(c,"minmax",TName<E>::n(),s,ii.kind,o.kind); c.note("spread %.8g scale %.8g down=%d values %g..%g",spread,scale,(int)down,lo,hi); c.hash(in.hash()); c.hash(s.req*8+s.local*2+down); c.hash((u64)(i64)(spread*1e4f)*7919+(u64)(scale*1e6f));
    ThresholdBlockMinMax<E> f(spread,s.L,s.local,scale,down); run_filter<E>(c,f,s,in,ii,o); Mat<U8> got=o.read(); u64 judged=0,flat=0;
    std::vector<E> MN(s.g.cols*s.g.rows),MX(MN.size()); for(uint32_t j=0;j<s.g.rows;j++) for(uint32_t i=0;i<s.g.cols;i++) { uint32_t x0,y0,x1,y1; s.g.cell(i,j,s.w,s.h,x0,y0,x1,y1); E a=in(x0,y0),b=a; for(uint32_t y=y0;y<y1;y++) for(uint32_t x=x0;x<x1;x++) { a=std::min(a,in(x,y)); b=std::max(b,in(x,y)); } MN[j*s.g.cols+i]=a; MX[j*s.g.cols+i]=b; }
    for(uint32_t j=0;j<s.g.rows;j++) for(uint32_t i=0;i<s.g.cols;i++) { E a=MN[j*s.g.cols+i],b=MX[j*s.g.cols+i]; around(s,i,j,[&](uint32_t p,uint32_t q){ a=std::min(a,MN[q*s.g.cols+p]); b=std::max(b,MX[q*s.g.cols+p]); });
        long double diff=(long double)b-(long double)a; if(fabsl(diff-spread)<=1e-6L*diff&&diff!=(long double)spread) continue; if(IsF<E>::v&&diff!=0&&fabsl(diff-spread)<=4e-7L*(fabsl((long double)a)+fabsl((long double)b))) continue; bool textureless=diff<=spread; uint32_t x0,y0,x1,y1; s.g.cell(i,j,s.w,s.h,x0,y0,x1,y1);
        long double tl,th; if(IsF<E>::v) { long double t=scale*((long double)a+b)/2, e=5e-7L*(fabsl((long double)a)+fabsl((long double)b))*scale; tl=t-e; th=t+e; } else { i64 half=((i64)a+(i64)b)/2; long double t=(long double)scale*half, e=fabsl(t)*1.3e-7L; tl=floorl(t-e); th=t<0?ceill(t+e):floorl(t+e); if(half<0||((i64)a+(i64)b)<0) { tl-=1; th+=1; } }
        if(textureless) flat++;
        for(uint32_t y=y0;y<y1;y++) for(uint32_t x=x0;x<x1;x++) { if(textureless) { if(got(x,y)!=1) c.fail("block-minmax-flat","pixel (%u,%u) of a region with spread %.6Lg is %d with minimum spread %.8g",x,y,diff,got(x,y),spread); judged++; continue; } long double v=in(x,y); int below=v<=tl?1:v>th?0:-1; if(below<0) continue; judged++; if(got(x,y)!=(U8)(down==(below==1))) c.fail(spread<0?"block-minmax-disabled":lo<0?"block-minmax-signed":"block-minmax","pixel (%u,%u)=%s in block (%u,%u), range %s..%s, spread %.8g, gave %d",x,y,sv(in(x,y)).c_str(),i,j,sv(a).c_str(),sv(b).c_str(),spread,got(x,y)); } }
    c.ev("pixels.judged",judged); count(c,s,"minmax"); if(spread<0) c.ev("spread.disabled"); if(flat) c.ev("textureless.blocks",flat); if(lo<0) c.ev("minmax.negative.values"); c.ev((std::string("minmax.")+TName<E>::n()).c_str());
}
template<class E> void mm(Ctx& c) { if(c.r.chance(.5)) mean_case<E>(c); else minmax_case<E>(c); }
void run_case(Ctx& c) { c.nontrivial(); int k=(int)c.r.range(0,11); if(k<2) otsu_case<U8>(c); else if(k<3) otsu_case<F32>(c); else switch(k) { case 3: case 4: case 5: mm<U8>(c); break; case 6: mm<S16>(c); break; case 7: mm<U16>(c); break; case 8: mm<S32>(c); break; case 9: mm<F64>(c); break; default: mm<F32>(c); } }
}
