// C08: Otsu thresholds.
#include "otsuref.hpp"
namespace vh {
void setup_run() { large().p=0.004; }
static std::vector<u64> rand_hist(Rng& r, int* modep=nullptr) {
    size_t n=(size_t)(r.chance(.5)?r.range(1,16):r.chance(.5)?256:r.range(2,300)); if(r.chance(.02)) n=(size_t)r.range(1000,70000); std::vector<u64> h(n,0); int mode=(int)r.range(0,6); if(modep) *modep=mode; u64 m=(u64)r.pick({(i64)1,(i64)3,(i64)50,(i64)1000,(i64)20000});
    switch(mode) {
        case 0: for(auto&v:h) v=(u64)r.range(0,(i64)m); break;
        case 1: for(auto&v:h) if(r.chance(.15)) v=(u64)r.range(0,(i64)m); break;                 // sparse, with dead zones
        case 2: h[(size_t)r.range(0,n-1)]=m; break;                                               // one value
        case 3: h[(size_t)r.range(0,n-1)]+=m; h[(size_t)r.range(0,n-1)]+=(u64)r.range(1,m); break;// two values
        case 4: { double a=r.real(0,n),b=r.real(0,n),s=r.real(.5,n/6.0+1); for(size_t i=0;i<n;i++) h[i]=(u64)(m*(std::exp(-(i-a)*(i-a)/(2*s*s))+r.unit()*std::exp(-(i-b)*(i-b)/(2*s*s)))); break; }
        case 5: for(size_t i=0;i<n/2;i++) h[i]=h[n-1-i]=(u64)r.range(0,(i64)m); break;          // mirror image: ties
        default: h[0]=m; h[n-1]=(u64)r.range(0,(i64)m); break;
    }
    u64 tot=0; for(auto v:h) tot+=v; if(tot>4000000000ull||!tot) { for(auto&v:h) v=std::min<u64>(v,50000); if(!tot) h[(size_t)r.range(0,n-1)]=1; } return h;
}
static void hist_case(Ctx& c, ComputeOtsu* reuse, bool reuseOtsu2, bool reuseDown, double reuseTuning, double reuseScale) {
    Rng& r=c.r; int mode; std::vector<u64> h=rand_hist(r,&mode); u64 total=0; for(auto v:h) total+=v; bool o2=reuseOtsu2, down=reuseDown; double tuning=reuseTuning, scale=reuseScale;
    GrowArray<uint32_t> g((uint32_t)h.size()); for(size_t i=0;i<h.size();i++) g[(uint32_t)i]=(uint32_t)h[i];
    c.note("histogram of %zu bins, mode %d, %llu pixels, otsu2=%d tuning=%g scale=%g down=%d",h.size(),mode,(unsigned long long)total,(int)o2,tuning,scale,(int)down); c.hash(hbytes(h.data(),h.size()*8)); c.hash((u64)(tuning*1e6)*4+o2*2+down); c.hash((u64)(scale*1e6));
    OtsuRef R=otsu_ref(h); reuse->compute(g,(uint32_t)total);
    for(size_t i=0;i<h.size();i++) if(g[(uint32_t)i]!=h[i]) c.fail("histogram-changed","bin %zu",i);
    long double n2=(long double)h.size()*h.size(), var=R.best/n2+0.001L;
    if(fabsl((long double)reuse->variance-var)>var*1e-6L) c.fail("otsu-variance","variance %.12g, expected %.12Lg",reuse->variance,var);
    IntSet ok; if(R.best<=0||R.splits.empty()) otsu_adjust(0,var,tuning,down,scale,ok);
    // a split is a pixel value t; every value up to the next occupied bin splits identically
    for(size_t k=0;k<R.splits.size();k++) { if(o2) otsu_adjust(R.mids[k],var,tuning,down,scale,ok); else otsu_adjust(R.splits[k],var,tuning,down,scale,ok); }
    double t=reuse->threshold; if(t!=std::floor(t)||!ok.count(t)) c.fail(o2?"otsu2-threshold":"otsu-threshold","threshold %.9g; expected %.9Lg%s (largest variance at %zu split(s))",t,ok.any(),ok.v.size()>1?" or others":"",R.splits.size());
    if(reuse->down!=down) c.fail("otsu-direction","direction changed");
    if(R.best<=0) c.ev("single.class"); if(R.splits.size()>1) c.ev("ties"); c.ev(o2?"otsu2":"otsu"); if(tuning!=0) c.ev("tuned"); if(scale!=1) c.ev("scaled"); c.ev("splits.evaluated",h.size()); c.state(hcomb(mode*4+o2*2+down,std::min<size_t>(h.size(),64)));
}
template<class E> struct ORng { static i64 lo() { return sizeof(E)>=4? -40000 : (i64)std::numeric_limits<E>::lowest(); } static i64 hi() { return sizeof(E)>=4?40000:(i64)std::numeric_limits<E>::max(); } };
template<class E> void image_case(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,24); i64 A=ORng<E>::lo(),B=ORng<E>::hi(); i64 span=r.chance(.5)?r.range(0,255):r.chance(.3)?r.range(0,B-A):r.range(0,20); if(span>B-A) span=B-A; i64 mn=r.range(A,B-span); if(r.chance(.25)) mn=std::max<i64>(A,0); if(mn+span>B) mn=B-span; i64 mx=mn+span; bool o2=r.chance(.5);
    Mat<E> in=rand_mat<E>(r,w,h,(double)mn,(double)mx); Img<E> ii; ii.make(r,rand_kind(r),in); ii.snapshot();
    c.note("otsu of %s %ux%u in %lld..%lld otsu2=%d in=%s",TName<E>::n(),w,h,(long long)mn,(long long)mx,(int)o2,kname(ii.kind)); c.hash(in.hash()); c.hash((u64)mn*2+o2);
    std::vector<u64> hist((size_t)span+1,0); for(auto v:in.d) { i64 b=IsF<E>::v?(i64)(E)(v-(E)mn):(i64)v-mn; hist[(size_t)b]++; }
    GrowArray<uint32_t> g((uint32_t)hist.size()); for(uint32_t i=0;i<g.size;i++) g[i]=(uint32_t)r.next(); ImageStatistics::histogram(*ii,(E)mn,g); if(g.size!=hist.size()) c.fail("histogram-size","size changed"); for(size_t i=0;i<hist.size();i++) if(g[(uint32_t)i]!=hist[i]) c.fail("histogram-count","bin %zu has %u, expected %llu",i,g[(uint32_t)i],(unsigned long long)hist[i]);
    check_input(c,ii,"otsu"); OtsuRef R=otsu_ref(hist);
    auto t=ThresholdOps::computeOtsu(*ii,(E)mn,(E)mx,o2); check_input(c,ii,"otsu"); long double got=(long double)t;
    std::set<i64> ok; if(R.splits.empty()) ok.insert(0); for(size_t k=0;k<R.splits.size();k++) { if(o2) { ok.insert((i64)truncl(R.mids[k]+0.5L-1e-6L*(1+R.mids[k]))); ok.insert((i64)truncl(R.mids[k]+0.5L+1e-6L*(1+R.mids[k]))); } else ok.insert(R.splits[k]); }
    bool hit=false; for(i64 o:ok) if(got==(long double)(o+mn)) hit=true;
    if(!hit) c.fail(mn==0?"image-otsu":"image-otsu-shifted","threshold %.9Lg for pixels in %lld..%lld, expected %lld",got,(long long)mn,(long long)mx,(long long)(*ok.begin()+mn));
    // shifting pixels and range shifts the threshold
    i64 sh=r.range(A-mn,B-mx); Mat<E> in2=in; for(auto&v:in2.d) v=(E)(v+sh); Img<E> i2; i2.make(r,rand_kind(r),in2); auto t2=ThresholdOps::computeOtsu(*i2,(E)(mn+sh),(E)(mx+sh),o2); if(!IsF<E>::v && (long double)t2!=got+sh) c.fail("image-otsu-shift","threshold %.9Lg; after a shift by %lld it is %.9Lg",got,(long long)sh,(long double)t2);
    c.ev("images"); c.ev((std::string("type.")+TName<E>::n()).c_str()); if(mn<0) c.ev("negative.minimum"); if(mn>0) c.ev("positive.minimum"); if(span==0) c.ev("one.value.range"); c.ev("pixels.counted",in.d.size()); c.state(hcomb((u64)sizeof(E)*4+IsF<E>::v*2+o2,std::min<i64>(span,60)));
}
void run_case(Ctx& c) {
    Rng& r=c.r; c.nontrivial();
    if(r.chance(.6)) { int n=(int)r.range(1,3); bool o2=r.chance(.5),down=r.chance(.5); double tuning=r.chance(.4)?0:r.pick({0.1,0.5,1.0,2.0,20.0}), scale=r.chance(.4)?1:r.real(0.2,2);
        if(r.chance(.2)) { ComputeOtsu o(o2,down); for(int k=0;k<n;k++) hist_case(c,&o,o2,down,0,1); c.ev("plain.constructor"); }
        else { ComputeOtsu o(o2,tuning,down,scale); for(int k=0;k<n;k++) hist_case(c,&o,o2,down,tuning,scale); } }
    else switch(r.range(0,5)) { case 0: case 1: image_case<U8>(c); break; case 2: image_case<S16>(c); break; case 3: image_case<U16>(c); break; case 4: image_case<S32>(c); break; default: image_case<F32>(c); }
}
}
