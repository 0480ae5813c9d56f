// C15: statistics, fills, conversion against pixel-by-pixel definitions.
#include "img.hpp"
#include <boofcv/image_statistics.h>
#include <boofcv/image_misc_ops.h>
#include <boofcv/image_convert.h>
#include <random>
namespace vh {
void setup_run() { large().p=0.003; large().huge_cases=16; }
template<class T> void range_of(Rng& r, size_t n, double& lo, double& hi) {
    double l=Lim<T>::lo(),h=Lim<T>::hi(); if(!IsF<T>::v) { double m=(sizeof(T)==8?9e18:std::is_signed<T>::value?2147483000.0:4294967000.0)/(double)(n?n:1); l=std::max(l,-m); h=std::min(h,m); }
    switch(r.range(0,5)) { case 0: lo=l;hi=h; break; case 1: lo=l;hi=std::min(-1.0,h); if(l>=0) { lo=0;hi=h; } break; case 2: lo=std::max(1.0,l);hi=std::max(1.0,h); break; case 3: { double a=r.real(l,h),b=r.real(l,h); lo=std::min(a,b);hi=std::max(a,b); break; } case 4: lo=hi=std::floor(r.real(l,h)); break; default: lo=std::max(l,-5.0);hi=std::min(h,9.0); }
    if(!IsF<T>::v) { lo=std::ceil(lo); hi=std::floor(hi); if(hi<lo) hi=lo; } }
template<class T> void stats(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,60); size_t n=(size_t)w*h; double lo,hi; range_of<T>(r,n,lo,hi); Mat<T> m=rand_mat<T>(r,w,h,lo,hi);
    if(r.chance(.4)) { size_t k=(size_t)r.range(0,n-1); m.d[k]=(T)(r.chance(.5)?lo:hi); if(r.chance(.3)) m.d[n-1]=(T)lo; if(r.chance(.3)) m.d[0]=(T)hi; }
    Img<T> im; im.make(r,rand_kind(r),m); im.snapshot(); c.note("statistics %s %ux%u %s values %g..%g",TName<T>::n(),w,h,kname(im.kind),lo,hi); c.hash(m.hash()); if(hi<0) c.ev("all.negative"); if(im.is_view()) c.ev("views");
    T mn=m.d[0],mx=m.d[0]; long double s=0,ab=0; i64 is=0; for(T v:m.d) { mn=std::min(mn,v);mx=std::max(mx,v); s+=v; ab+=fabsl(v); if(!IsF<T>::v) is+=(i64)v; }
    T g=ImageStatistics::min(*im); if(g!=mn) c.fail("min","min is %s, the smallest pixel is %s",sv(g).c_str(),sv(mn).c_str()); g=ImageStatistics::max(*im); if(g!=mx) c.fail("max","max is %s, the largest pixel is %s",sv(g).c_str(),sv(mx).c_str());
    auto gs=ImageStatistics::sum(*im); g=ImageStatistics::mean(*im);
    if(IsF<T>::v) { double tol=(double)(ab*std::numeric_limits<T>::epsilon()*(n+1)); if(fabsl((long double)gs-s)>tol) c.fail("sum","sum is %s, expected %.12Lg",sv(gs).c_str(),s); if(fabsl((long double)g-s/n)>tol/n+fabsl(s/n)*4*std::numeric_limits<T>::epsilon()) c.fail("mean","mean is %s, expected %.12Lg",sv(g).c_str(),s/n); }
    else { if((i64)gs!=is) c.fail("sum","sum is %s, expected %lld",sv(gs).c_str(),(long long)is); if((i64)g!=is/(i64)n) c.fail("mean","mean is %s, expected %lld",sv(g).c_str(),(long long)(is/(i64)n)); }
    check_input(c,im,"statistics"); c.ev("statistics"); }
template<class T> void hist(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,60,r.chance(.1)?0:1); double lo,hi; if(IsF<T>::v) { lo=r.real(-300,300); hi=lo+r.real(0,300); } else { lo=(double)r.range((i64)Lim<T>::lo(),(i64)Lim<T>::hi()); hi=std::min(Lim<T>::hi(),lo+(double)r.range(0,r.chance(.1)?70000:400)); }
    Mat<T> m=rand_mat<T>(r,w,h,lo,hi); T mv=(T)lo; if((double)mv>lo) { for(auto&v:m.d) v=std::max(v,mv); } Img<T> im; im.make(r,rand_kind(r),m); im.snapshot(); uint32_t bins=(uint32_t)(hi-(double)mv)+1+(uint32_t)r.range(0,5); GrowArray<uint32_t> hg(bins); for(uint32_t i=0;i<bins;i++) hg[i]=(uint32_t)r.next();
    c.note("histogram %s %ux%u %s values %g..%g bins %u",TName<T>::n(),w,h,kname(im.kind),lo,hi,bins); c.hash(hcomb(m.hash(),bins)); ImageStatistics::histogram(*im,mv,hg); if(r.chance(.5)) { ImageStatistics::histogram(*im,mv,hg); c.ev("histogram.repeated"); }
    std::vector<uint32_t> ref(bins,0); for(T v:m.d) ref[IsF<T>::v?(size_t)(T)(v-mv):(size_t)((i64)v-(i64)mv)]++; if(hg.size!=bins) c.fail("histogram-size","histogram has %u bins, expected %u",hg.size,bins); for(uint32_t i=0;i<bins;i++) if(hg[i]!=ref[i]) c.fail("histogram","bin %u is %u, expected %u",i,hg[i],ref[i]); check_input(c,im,"histogram"); c.ev("histogram"); if(lo<0) c.ev("histogram.negative"); }
template<class T> void fills(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,40,r.chance(.1)?0:1); Img<T> im; im.make(r,rand_kind(r),w,h); im.snapshot(); Mat<T> before=im.read(); T v=garbage<T>(r); int k=(int)r.range(0,2); c.hash(hcomb(hcomb(before.hash(),(u64)k),c.idx)); if(im.is_view()) c.ev("views");
    if(k==0) { c.note("fill %s %ux%u %s",TName<T>::n(),w,h,kname(im.kind)); ImageMiscOps::fill(*im,v); Mat<T> g=im.read(); for(T x:g.d) if(x!=v) c.fail("fill","a pixel is %s after filling with %s",sv(x).c_str(),sv(v).c_str()); c.ev("fill"); }
    else if(k==1) { uint32_t rad=(uint32_t)r.range(0,r.chance(.5)?4:(i64)std::max(w,h)+2); c.note("fill_border %s %ux%u %s radius %u",TName<T>::n(),w,h,kname(im.kind),rad); ImageMiscOps::fill_border(*im,v,rad); Mat<T> g=im.read();
        for(i64 y=0;y<h;y++) for(i64 x=0;x<w;x++) { bool in=x>=rad&&y>=rad&&x<(i64)w-rad&&y<(i64)h-rad; T e=in?before(x,y):v; if(memcmp(&g(x,y),&e,sizeof e)) c.fail("fill-border","pixel (%lld,%lld) is %s, expected %s",(long long)x,(long long)y,sv(g(x,y)).c_str(),sv(e).c_str()); } c.ev("fill.border"); if(rad>=w||rad>=h) c.ev("border.covers.image"); }
    else { T a,b; if(IsF<T>::v) { a=(T)r.real(-50,50); b=(T)(a+r.real(0.1,30)); } else { i64 l=(i64)std::max(Lim<T>::lo(),-2000000000.0),u=(i64)std::min(Lim<T>::hi(),2000000000.0); i64 x=r.range(l,u-1),y=r.chance(.5)?std::min(u,x+r.range(1,4)):r.range(x+1,u); a=(T)x;b=(T)y; }
        c.note("fill_uniform %s %ux%u %s [%s,%s)",TName<T>::n(),w,h,kname(im.kind),sv(a).c_str(),sv(b).c_str()); std::mt19937 gen((uint32_t)r.next()); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) im.put(x,y,(T)(r.chance(.5)||!(a>(T)Lim<T>::lo())?b:(T)(a-1))); ImageMiscOps::fill_uniform(*im,a,b,gen); Mat<T> g=im.read(); bool allsame=true; for(T x:g.d) { if(x<a||(IsF<T>::v?x>b:x>=b)) c.fail("fill-uniform-range","a pixel is %s, outside [%s,%s)",sv(x).c_str(),sv(a).c_str(),sv(b).c_str()); if(x!=g.d[0]) allsame=false; }
        if(allsame&&g.d.size()>=200&&(IsF<T>::v||(double)b-(double)a>1)) c.fail("fill-uniform-constant","all %zu random pixels are equal",g.d.size()); if(!IsF<T>::v&&g.d.size()>=400&&(double)b-(double)a==2) { size_t lo=0; for(T x:g.d) lo+=x==a; if(lo==0||lo==g.d.size()) c.fail("fill-uniform-constant","one of two values never drawn"); } c.ev("fill.uniform"); }
    check_out(c,im,w,h,"fill"); }
template<class T> struct II { std::vector<T> buf; std::unique_ptr<Interleaved<T>> parent,im; uint32_t w,h,b; int kind; T* base; size_t n; std::vector<T> snap;
    void make(Rng& r,uint32_t W,uint32_t H,uint32_t B) { w=W;h=H;b=B; kind=(int)r.range(0,3); 
        if(kind==0) { im.reset(new Interleaved<T>(w,h,b)); base=im->data; n=(size_t)w*h*b; }
        else if(kind==1) { im.reset(new Interleaved<T>(w+(uint32_t)r.range(0,3),h+(uint32_t)r.range(0,3),b+(uint32_t)r.range(0,1))); im->reshape(w,h,b); base=im->data; n=(size_t)w*h*b; }
        else if(kind==2) { uint32_t o=(uint32_t)r.range(0,5),s=w*b+(uint32_t)r.range(0,6); n=h?o+(size_t)(h-1)*s+w*b:o; buf.reserve(n+1); buf.resize(n); base=buf.data(); im.reset(new Interleaved<T>(base,(uint32_t)n,w,h,b,o,s)); }
        else { uint32_t l=(uint32_t)r.range(0,3),t=(uint32_t)r.range(0,3); parent.reset(new Interleaved<T>(w+l+(uint32_t)r.range(0,3),h+t+(uint32_t)r.range(0,3),b)); im.reset(new Interleaved<T>(parent->makeSubimage(l,t,l+w,t+h))); base=parent->data; n=(size_t)parent->width*parent->height*b; }
        for(size_t i=0;i<n;i++) base[i]=garbage<T>(r); snap.assign(base,base+n); }
    size_t pos(uint32_t x,uint32_t y,uint32_t k) { return im->offset+(size_t)y*im->stride+(size_t)x*b+k; } };
template<class T> void inter(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,30,r.chance(.1)?0:1); uint32_t b=(uint32_t)r.range(1,5); II<T> q; q.make(r,w,h,b); c.hash(hcomb(hbytes(q.snap.data(),q.snap.size()*sizeof(T)),hcomb(w,b))); if(q.kind>=2) c.ev("interleaved.views");
    if(r.chance(.4)) { T v=garbage<T>(r); c.note("fill interleaved %s %ux%ux%u kind %d",TName<T>::n(),w,h,b,q.kind); ImageMiscOps::fill(*q.im,v); std::vector<T> e=q.snap; for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) for(uint32_t k=0;k<b;k++) e[q.pos(x,y,k)]=v; for(size_t i=0;i<q.n;i++) if(memcmp(&e[i],&q.base[i],sizeof(T))) c.fail("fill-interleaved","array element %zu is %s, expected %s",i,sv(q.base[i]).c_str(),sv(e[i]).c_str()); c.ev("fill.interleaved"); return; }
    double lo,hi; range_of<T>(r,b,lo,hi); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) for(uint32_t k=0;k<b;k++) q.base[q.pos(x,y,k)]=(T)(IsF<T>::v?r.real(lo,hi):(double)r.range((i64)lo,(i64)hi)); q.snap.assign(q.base,q.base+q.n);
    Img<T> o; make_out(r,o,w,h,true); c.note("convert_average %s %ux%ux%u kind %d -> %s values %g..%g",TName<T>::n(),w,h,b,q.kind,kname(o.kind),lo,hi); convert_average(*q.im,*o); check_out(c,o,w,h,"convert");
    for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) { long double s=0,ab=0; i64 is=0; for(uint32_t k=0;k<b;k++) { T v=q.base[q.pos(x,y,k)]; s+=v; ab+=fabsl(v); if(!IsF<T>::v) is+=(i64)v; } T g=o.get(x,y); if(IsF<T>::v? fabsl((long double)g-s/b)>ab*std::numeric_limits<T>::epsilon()*(b+2) : (i64)g!=is/(i64)b) c.fail("convert-average","pixel (%u,%u) is %s, the mean of its bands is %.9Lg",x,y,sv(g).c_str(),s/b); }
    if(q.n&&memcmp(q.base,q.snap.data(),q.n*sizeof(T))) c.fail("input-modified:convert","input changed"); c.ev("convert"); if(hi<0) c.ev("convert.negative"); }
template<class T> void one(Ctx& c) { switch(c.r.range(0,5)) { case 0: case 1: stats<T>(c); break; case 2: hist<T>(c); break; case 3: fills<T>(c); break; default: inter<T>(c); } }
void run_case(Ctx& c) { c.nontrivial(); switch(c.r.range(0,6)) { case 0: case 1: one<uint8_t>(c); break; case 2: one<int16_t>(c); break; case 3: one<uint16_t>(c); break; case 4: one<int32_t>(c); break; case 5: one<float>(c); break; default: one<double>(c); } }
}
