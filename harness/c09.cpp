// C09: global and local-mean thresholds.
#include "meanref.hpp"
#include "otsuref.hpp"
namespace vh {
void setup_run() { large().p=0.005; large().huge_cases=16; }
template<class E> void range_for(Rng& r, double& lo, double& hi) { lo=Lim<E>::lo(); hi=Lim<E>::hi(); if(sizeof(E)==4&&!IsF<E>::v) { hi=2e6; lo=-hi; } if(sizeof(E)==8&&!IsF<E>::v) { hi=1e12; lo=-hi; } if(r.chance(.4)) lo=std::max(lo,0.0); if(r.chance(.3)) { double m=std::floor(lo+(hi-lo)*r.unit()); lo=m; hi=std::min(hi,m+r.range(1,12)); } }
static void check01(Ctx& c, const Mat<U8>& o, const char* k) { for(size_t i=0;i<o.d.size();i++) if(o.d[i]>1) c.fail(std::string("not-binary:")+k,"output pixel %zu is %d",i,o.d[i]); }
template<class E> void fixed_case(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,40); double lo,hi; range_for<E>(r,lo,hi); Mat<E> in=rand_mat<E>(r,w,h,lo,hi); if(r.chance(.05)) { if(!IsF<E>::v) { lo=(double)std::numeric_limits<E>::lowest(); for(auto&v:in.d) v=garbage<E>(r); c.ev("whole.type.range"); } }
    auto pickThr=[&]()->E { switch(r.range(0,5)) { case 0: case 1: return in.d[(size_t)r.range(0,in.d.size()-1)]; case 2: return std::numeric_limits<E>::lowest(); case 3: return std::numeric_limits<E>::max(); case 4: { E v=in.d[(size_t)r.range(0,in.d.size()-1)]; if(IsF<E>::v) return (E)std::nextafter((double)v,r.chance(.5)?1e30:-1e30); if(v==std::numeric_limits<E>::max()||v==std::numeric_limits<E>::lowest()) return v; return (E)(r.chance(.5)?v+1:v-1); } default: return garbage<E>(r); } };
    E t=pickThr(); bool down=r.chance(.5), filter=r.chance(.5); Img<E> ii; Img<U8> o,o2,o3; ii.make(r,rand_kind(r),in); ii.snapshot(); make_out(r,o,w,h,true); make_out(r,o2,w,h,true); make_out(r,o3,w,h,true);
    c.note("fixed %s %ux%u threshold %s down=%d filter=%d in=%s out=%s",TName<E>::n(),w,h,sv(t).c_str(),(int)down,(int)filter,kname(ii.kind),kname(o.kind)); c.hash(in.hash()); c.hash(hbytes(&t,sizeof t)+down);
    if(filter) { GlobalFixedBinaryFilter<E> f(t,down); f.process(*ii,*o); } else ThresholdOps::threshold(*ii,t,down,*o);
    check_input(c,ii,"threshold"); check_out(c,o,w,h,"threshold"); Mat<U8> g=o.read(); check01(c,g,"fixed");
    u64 eq=0; for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) { bool want=down?in(x,y)<=t:in(x,y)>t; if(in(x,y)==t) eq++; if((g(x,y)!=0)!=want) c.fail(down?"fixed-down":"fixed-up","pixel (%u,%u)=%s against %s gave %d",x,y,sv(in(x,y)).c_str(),sv(t).c_str(),g(x,y)); }
    ThresholdOps::threshold(*ii,t,!down,*o2); Mat<U8> g2=o2.read(); for(size_t i=0;i<g.d.size();i++) if(g.d[i]+g2.d[i]!=1) c.fail("fixed-complement","up and down are not complements at pixel %zu",i);
    E t2=pickThr(); E lo2=std::min(t,t2),hi2=std::max(t,t2); ThresholdOps::threshold(*ii,lo2,true,*o2); ThresholdOps::threshold(*ii,hi2,true,*o3); Mat<U8> a=o2.read(),b=o3.read(); for(size_t i=0;i<a.d.size();i++) if(a.d[i]>b.d[i]) c.fail("fixed-monotone","raising the threshold cleared pixel %zu",i);
    if(eq) c.ev("pixels.equal.to.threshold",eq); c.ev("fixed"); c.ev("pixels.checked",in.d.size()); c.ev((std::string("type.")+TName<E>::n()).c_str()); c.state(hcomb(sizeof(E)*4+IsF<E>::v*2+down,((u64)std::min(w,20u)<<8)|std::min(h,20u)));
}
template<class E> void otsu_case(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,24); i64 A=sizeof(E)>=4?-3000:(i64)std::numeric_limits<E>::lowest(),B=sizeof(E)>=4?3000:(i64)std::numeric_limits<E>::max(); i64 span=r.chance(.6)?r.range(0,255):r.range(0,std::min<i64>(B-A,5000)); if(span>B-A) span=B-A; i64 mn=r.range(A,B-span), mx=mn+span; bool down=r.chance(.5);
    Mat<E> in=rand_mat<E>(r,w,h,(double)mn,(double)mx); Img<E> ii; Img<U8> o; ii.make(r,rand_kind(r),in); ii.snapshot(); make_out(r,o,w,h,true);
    c.note("otsu filter %s %ux%u in %lld..%lld down=%d in=%s",TName<E>::n(),w,h,(long long)mn,(long long)mx,(int)down,kname(ii.kind)); c.hash(in.hash()); c.hash((u64)mn*2+down);
    std::vector<u64> hist((size_t)span+1,0); for(auto v:in.d) hist[IsF<E>::v?(size_t)(E)(v-(E)mn):(size_t)((i64)v-mn)]++; OtsuRef R=otsu_ref(hist);
    GlobalOtsuBinaryFilter<E> f((E)mn,(E)mx,down); f.process(*ii,*o); check_input(c,ii,"otsu"); check_out(c,o,w,h,"otsu"); Mat<U8> g=o.read(); check01(c,g,"otsu");
    bool hit=R.splits.empty(); if(R.splits.empty()) { for(size_t i=0;i<in.d.size();i++) if(g.d[i]!=(down==(in.d[i]<=(E)mn))) c.fail("otsu-filter","single valued image: pixel %zu is %d",i,g.d[i]); }
    for(uint32_t s:R.splits) { bool ok=true; for(size_t i=0;i<in.d.size()&&ok;i++) ok=g.d[i]==(down==((long double)in.d[i]<=(long double)(s+mn))); if(ok) { hit=true; break; } }
    if(!hit) c.fail("otsu-filter","the output is not a split with the largest variance (%zu such splits, first %lld)",R.splits.size(),(long long)(R.splits[0]+mn));
    c.ev("otsu.filter"); if(mn<0) c.ev("otsu.negative"); if(mn>0) c.ev("otsu.positive"); c.ev("pixels.checked",in.d.size());
}
template<class E> void local_case(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,32); double lo,hi; range_for<E>(r,lo,hi); Mat<E> in=rand_mat<E>(r,w,h,lo,hi); 
    ConfigLength L; uint32_t m=std::min(w,h); double want; if(r.chance(.5)) { double v=r.chance(.7)?(double)r.range(2,25):r.real(2,60); L=ConfigLength::fixed(v); want=v; } else { double f=r.real(0,1.5); int mn=(int)r.range(2,12); L=ConfigLength::relative(f,mn); want=std::max((double)mn,f*m); }
    if((u64)w*h>3000) { want=(double)r.range(2,(i64)std::min<u64>(2*(u64)std::max(w,h),kernel_cap(w,h,100000000))); L=ConfigLength::fixed(want); } uint32_t radius=(uint32_t)(int)(want+.5)/2; float scale=r.chance(.4)?1.0f:(float)r.real(.5,1.5); bool down=r.chance(.5), filter=r.chance(.5);
    if(sizeof(E)==4&&!IsF<E>::v&&2.0*radius+1>400) return;
    Img<E> ii,s1,s2; Img<U8> o; ii.make(r,rand_kind(r),in); ii.snapshot(); make_out(r,o,w,h,true); make_out(r,s1,w,h,true); make_out(r,s2,w,h,true);
    c.note("local mean %s %ux%u width %g/%g radius %u scale %.8g down=%d filter=%d in=%s out=%s",TName<E>::n(),w,h,L.length,L.fraction,radius,scale,(int)down,(int)filter,kname(ii.kind),kname(o.kind)); c.hash(in.hash()); c.hash((u64)(scale*1e6f)*64+radius*2+down);
    if(filter) { LocalMeanBinaryFilter<E> f(L,scale,down); f.process(*ii,*o); } else { ThresholdOps::localMean(*ii,*o,L,scale,down,*s1,*s2); check_out(c,s1,w,h,"local-storage1"); check_out(c,s2,w,h,"local-storage2"); }
    check_input(c,ii,"local"); check_out(c,o,w,h,"local"); Mat<U8> g=o.read(); check01(c,g,"local"); std::vector<long double> ex; Mat<E> mean=ref_mean2(in,radius,ex); long double mt=mean_tol(in,radius); bool exact=scale==1.0f&&!IsF<E>::v&&sizeof(E)<4; u64 amb=0;
    for(size_t i=0;i<in.d.size();i++) { long double mv=IsF<E>::v?ex[i]:(long double)mean.d[i], p=in.d[i]; long double a=down?p:p*scale, b=down?mv*scale:mv; long double tol=exact?0:(fabsl(a)+fabsl(b))*2.4e-7L+mt*2;
        if(!exact&&fabsl(a-b)<=tol) { amb++; continue; } bool want1=down?a<=b:a>b; if((g.d[i]!=0)!=want1) c.fail(down?"local-down":"local-up","pixel %zu=%.9Lg, mean %.9Lg, scale %.8g gave %d",i,p,mv,scale,g.d[i]); }
    c.ev("local"); if(amb) c.ev("local.too.close.to.call",amb); c.ev("pixels.checked",in.d.size()-amb); if(2*(u64)radius+1>w||2*(u64)radius+1>h) c.ev("region.larger.than.image"); if(exact) c.ev("local.exact"); if(L.isRelative()) c.ev("relative.width"); c.state(hcomb(radius,((u64)std::min(w,20u)<<8)|std::min(h,20u)));
}
template<class E> void any(Ctx& c) { int k=(int)c.r.range(0,9); if(k<4) fixed_case<E>(c); else if(k<6) otsu_case<E>(c); else local_case<E>(c); }
void run_case(Ctx& c) { c.nontrivial(); switch(c.r.range(0,8)) { case 0: case 1: case 2: any<U8>(c); break; case 3: any<S16>(c); break; case 4: any<U16>(c); break; case 5: any<S32>(c); break; case 6: if(c.r.chance(.5)) fixed_case<S64>(c); else fixed_case<F64>(c); break; default: any<F32>(c); } }
}
