// C14: kernel factories.
#include "convref.hpp"
#include "kernref.hpp"
#include <random>
namespace vh {
void setup_run() {}
template<class E> bool relclose(E a, long double b, long double tol) { long double d=(long double)a-b; if(d<0) d=-d; long double m=b<0?-b:b; return d<=tol*m+std::numeric_limits<float>::min(); }
// reference conversion of a floating kernel; lo/hi hold the two acceptable values where the quotient is on a truncation boundary
template<class K> void ref_f2i(const std::vector<long double>& kd, long double frac, std::vector<K>& a, std::vector<K>& b) {
    long double mx=0,mn=HUGE_VALL; for(auto v:kd) { mx=std::max(mx,fabsl(v)); mn=std::min(mn,fabsl(v)); } long double m=std::max(mn,mx*frac);
    a.resize(kd.size()); b.resize(kd.size());
    for(size_t i=0;i<kd.size();i++) { long double q=kd[i]/m, s=1e-9L*std::max(1.0L,fabsl(q)); a[i]=(K)truncl(q-s); b[i]=(K)truncl(q+s); }
}
template<class E> void common1(Ctx& c, const Kernel1D<E>& k, i64 width, const char* what) {
    if((i64)k.width!=width||(i64)k.data.size!=width) c.fail(std::string("kernel-width:")+what,"width %u with %u entries, expected %lld",k.width,k.data.size,(long long)width);
    if((i64)k.offset!=width/2) c.fail(std::string("kernel-origin:")+what,"origin %u, expected %lld",k.offset,(long long)(width/2));
    if(k.dimension()!=1||k.radius()!=(uint32_t)width/2) c.fail(std::string("kernel-shape:")+what,"dimension %u radius %u",k.dimension(),k.radius());
}
template<class E> void common2(Ctx& c, const Kernel2D<E>& k, i64 width, const char* what) {
    if((i64)k.width!=width||(i64)k.data.size!=width*width) c.fail(std::string("kernel-width:")+what,"width %u with %u entries, expected %lld",k.width,k.data.size,(long long)width);
    if((i64)k.offset!=width/2) c.fail(std::string("kernel-origin:")+what,"origin %u, expected %lld",k.offset,(long long)(width/2));
    if(k.dimension()!=2) c.fail(std::string("kernel-shape:")+what,"dimension %u",k.dimension());
}
struct GP { double sigma; int32_t width; i64 w; int mode; };
GP gparams(Rng& r, i64 maxw) {
    GP g; g.mode=(int)r.range(0,2);
    if(g.mode==0) { g.sigma=r.chance(.5)?r.real(0.1,3):r.real(0.1,maxw/6.0); g.width=r.chance(.5)?0:(int32_t)-r.range(1,9); }
    else if(g.mode==1) { g.sigma=r.chance(.5)?0:-r.real(0,9); g.width=(int32_t)r.range(2,r.chance(.3)?maxw:15); }
    else { g.sigma=r.chance(.5)?r.real(0.08,4):r.real(0.08,r.chance(.3)?200:40); g.width=(int32_t)r.range(1,r.chance(.3)?maxw:15); }
    if(g.sigma>0&&r.chance(.3)) g.sigma=std::max(.5,std::round(g.sigma*2)/2);       // the same values again and again: nothing may be remembered between calls
    g.w=g.width>0?g.width:ref_radius_for_sigma(g.sigma,0)*2+1; return g;
}
template<class E> void gauss_float(Ctx& c, const GP& g, bool two) {
    std::vector<long double> ref=ref_gauss1d(g.sigma,g.width); long double eps=std::numeric_limits<E>::epsilon(); size_t w=(size_t)g.w;
    if(!two) {
        Kernel1D<E> k=FactoryKernel::gaussian1D<E>(g.sigma,g.width); common1(c,k,g.w,"gaussian1D");
        long double s=0; for(size_t i=0;i<w;i++) { s+=k.at((uint32_t)i); if(!relclose(k.at((uint32_t)i),ref[i],1e-9L+8*eps*w)) c.fail("gaussian1D-density","entry %zu is %.12g, the density gives %.12Lg",i,(double)k.at((uint32_t)i),ref[i]); }
        if(fabsl(s-1)>eps*(4+2*w)) c.fail("gaussian1D-sum","entries sum to %.12Lg",s);
        for(size_t i=0;i<w;i++) if(!relclose(k.at((uint32_t)i),(long double)k.at((uint32_t)(w-1-i)),4*eps)) c.fail("gaussian1D-symmetry","entries %zu and %zu are %.12g and %.12g",i,w-1-i,(double)k.at((uint32_t)i),(double)k.at((uint32_t)(w-1-i)));
        for(size_t i=w/2;i+1<w;i++) if(k.at((uint32_t)i+1)>k.at((uint32_t)i)) c.fail("gaussian1D-monotone","entry %zu exceeds the one nearer the centre",i+1);
    } else {
        Kernel2D<E> k=FactoryKernel::gaussian2D<E>(g.sigma,g.width); common2(c,k,g.w,"gaussian2D");
        long double s=0; for(size_t y=0;y<w;y++) for(size_t x=0;x<w;x++) { E v=k.at((uint32_t)x,(uint32_t)y); s+=v; long double e=ref[x]*ref[y];
            if(!relclose(v,e,1e-9L+16*eps*w)) c.fail("gaussian2D-product","entry (%zu,%zu) is %.12g, the product of densities is %.12Lg",x,y,(double)v,e);
            if(!relclose(v,(long double)k.at((uint32_t)y,(uint32_t)x),4*eps)||!relclose(v,(long double)k.at((uint32_t)(w-1-x),(uint32_t)y),4*eps)) c.fail("gaussian2D-symmetry","entry (%zu,%zu)",x,y); }
        if(fabsl(s-1)>eps*(4+4*w*w)) c.fail("gaussian2D-sum","entries sum to %.12Lg",s);
    }
}
template<class K> void gauss_int(Ctx& c, const GP& g, bool two) {
    std::vector<long double> ref=ref_gauss1d(g.sigma,g.width); size_t w=(size_t)g.w; std::vector<K> a,b;
    if(!two) { ref_f2i<K>(ref,0.01L,a,b); Kernel1D<K> k=FactoryKernel::gaussian1D<K>(g.sigma,g.width); common1(c,k,g.w,"gaussian1D");
        for(size_t i=0;i<w;i++) { K v=k.at((uint32_t)i); if(v!=a[i]&&v!=b[i]) c.fail("gaussian1D-int","entry %zu is %lld, expected %lld",i,(long long)v,(long long)a[i]); if(v!=k.at((uint32_t)(w-1-i))&&a[i]==b[i]) c.fail("gaussian1D-int-symmetry","entry %zu",i); } 
        if(k.at((uint32_t)(w/2))<=0) c.fail("gaussian1D-int","centre is %lld",(long long)k.at((uint32_t)(w/2))); }
    else { std::vector<long double> p(w*w); for(size_t y=0;y<w;y++) for(size_t x=0;x<w;x++) p[y*w+x]=ref[x]*ref[y]; ref_f2i<K>(p,0.01L,a,b); Kernel2D<K> k=FactoryKernel::gaussian2D<K>(g.sigma,g.width); common2(c,k,g.w,"gaussian2D");
        for(size_t y=0;y<w;y++) for(size_t x=0;x<w;x++) { K v=k.at((uint32_t)x,(uint32_t)y); if(v!=a[y*w+x]&&v!=b[y*w+x]) c.fail("gaussian2D-int","entry (%zu,%zu) is %lld, expected %lld",x,y,(long long)v,(long long)a[y*w+x]); } }
}
template<class E> void flat(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)(r.chance(.3)?r.range(1,300):r.range(1,12)); c.note("flat kernels %s width %u",TName<E>::n(),w); c.hash(w*8+sizeof(E)); 
    Kernel1D<E> t=FactoryKernel::table1D<E>(w); common1(c,t,w,"table1D"); for(uint32_t i=0;i<w;i++) if(t.at(i)!=(E)1) c.fail("table1D","entry %u is %s",i,sv(t.at(i)).c_str());
    Kernel1D<E> m=FactoryKernel::mean1D<E>(w); common1(c,m,w,"mean1D"); long double want=IsF<E>::v?1.0L/w:1.0L; for(uint32_t i=0;i<w;i++) if(!relclose(m.at(i),want,4*(IsF<E>::v?(long double)std::numeric_limits<E>::epsilon():0))) c.fail("mean1D","entry %u is %s, expected %.9Lg",i,sv(m.at(i)).c_str(),want);
    c.ev("flat");
}
template<class E> void normalise(Ctx& c, bool two) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,two?15:60), n=two?w*w:w; std::vector<E> v(n); for(auto& x:v) x=(E)(IsF<E>::v?r.real(0.01,10):r.range(1,100)); c.note("normalize %s %s width %u",two?"2D":"1D",TName<E>::n(),w); c.hash(hbytes(v.data(),n*sizeof(E)));
    long double s=0; for(auto x:v) s+=x;
    auto chk=[&](KernelBase<E>& k){ FactoryKernel::normalize(k); if(k.data.size!=n||k.width!=w) c.fail("normalize-shape","shape changed"); for(uint32_t i=0;i<n;i++) { long double e=IsF<E>::v?v[i]/s:(long double)v[i]; if(!relclose(k.data.at(i),e,std::numeric_limits<E>::epsilon()*(4.0L+2*n))) c.fail(two?"normalize-2D":"normalize-1D","entry %u is %s, expected %.9Lg (width %u)",i,sv(k.data.at(i)).c_str(),e,w); } };
    if(two) { Kernel2D<E> k(w); fill_kernel2(k,v,w); chk(k); } else { Kernel1D<E> k(w); fill_kernel1(k,v); chk(k); } c.ev(two?"normalize2":"normalize1");
}
template<class K> void convert(Ctx& c, bool two) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,two?10:40), n=two?w*w:w, org=(uint32_t)r.range(0,w-1); std::vector<double> v(n); bool neg=r.chance(.5); double scale=r.chance(.5)?1.0:r.pick({1e-9,1e-6,1e-4,1e-2,255.0,1e6}); if(scale!=1.0) c.ev(scale<1?"float_to_int.tiny":"float_to_int.huge"); for(auto&x:v) { x=r.real(0.001,1)*(r.chance(.1)?50:1)*scale; if(neg&&r.chance(.5)) x=-x; }
    double frac=r.pick({0.01,0.001,0.1,0.5,0.0}); c.note("float_to_int %s %s width %u origin %u fraction %g",two?"2D":"1D",TName<K>::n(),w,org,frac); c.hash(hbytes(v.data(),n*8)); 
    std::vector<long double> ld(v.begin(),v.end()); std::vector<K> a,b; ref_f2i<K>(ld,frac,a,b);
    auto cmp=[&](const KernelBase<K>& k,uint32_t dim){ if(k.width!=w||k.offset!=org||k.data.size!=n||k.dimension()!=dim) c.fail("float_to_int-shape","width %u origin %u size %u",k.width,k.offset,k.data.size); for(uint32_t i=0;i<n;i++) { K g=k.data.at(i); if(g!=a[i]&&g!=b[i]) c.fail(two?"float_to_int-2D":"float_to_int-1D","entry %u of %.9g became %lld, expected %lld",i,v[i],(long long)g,(long long)a[i]); } };
    if(two) { Kernel2D<F64> k(w,org); fill_kernel2(k,v,w); cmp(FactoryKernel::float_to_int<K>(k,frac),2); } else { Kernel1D<F64> k(w,org); fill_kernel1(k,v); cmp(FactoryKernel::float_to_int<K>(k,frac),1); }
    c.ev("float_to_int");
}
template<class E> void filled(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,20); std::mt19937 rng((uint32_t)r.next()); E lo=(E)r.range(-50,50), hi=(E)(lo+(E)r.range(1,60)); c.note("random kernels %s width %u [%s,%s)",TName<E>::n(),w,sv(lo).c_str(),sv(hi).c_str()); c.hash(w*1000+(u64)(i64)lo);
    Kernel1D<E> a(w); Kernel2D<E> b(w); KernelOps::fill_uniform(a,lo,hi,rng); KernelOps::fill_uniform(b,lo,hi,rng); bool varied=false;
    for(uint32_t i=0;i<w;i++) if(!(a.at(i)>=lo&&a.at(i)<hi)) c.fail("kernel-fill-range","entry %u is %s",i,sv(a.at(i)).c_str());
    for(uint32_t i=0;i<w*w;i++) { E v=b.data.at(i); if(!(v>=lo&&v<hi)) c.fail("kernel-fill-range","2D entry %u is %s",i,sv(v).c_str()); if(v!=b.data.at(0)) varied=true; }
    if(w>=10&&hi-lo>=2&&!varied) c.fail("kernel-fill-constant","a random 2D kernel of %u entries is constant",w*w); c.ev("random.kernels");
}
void helpers(Ctx& c) {
    Rng& r=c.r; double x=r.real(0.05,60); int o=(int)r.range(0,4); c.note("rules x=%.9g order %d",x,o); c.hash((u64)(x*1e9)+o);
    double s=FactoryKernel::sigmaForRadius(x,o); if(!relclose(s,ref_sigma_for_radius(x,o),1e-12L)) c.fail("sigmaForRadius","%.12g",s);
    double q=((5+0.8*o)*x-1)/2; int32_t rad=FactoryKernel::radiusForSigma(x,o); if(std::fabs(q-std::round(q))>1e-9 && rad!=(int32_t)std::ceil(q)) c.fail("radiusForSigma","%d for sigma %.9g order %d",rad,x,o);
    double m=r.real(-5,5),p=r.real(-9,9); double e=std::exp(-(p-m)*(p-m)/(2*x*x))/(x*std::sqrt(2*M_PI)); if(!relclose(FactoryKernel::computePDF(m,x,p),e,1e-10L)) c.fail("computePDF","%.12g expected %.12g",FactoryKernel::computePDF(m,x,p),e);
    auto thrown=[&](const std::function<void()>& f){ try { f(); } catch(const std::invalid_argument&) { return true; } return false; };
    double bad=r.chance(.3)?0:-r.real(0,10); if(!thrown([&]{ FactoryKernel::sigmaForRadius(bad,o); })||!thrown([&]{ FactoryKernel::radiusForSigma(bad,o); })) c.fail("rules-accept-nonpositive","%g accepted",bad);
    int32_t w0=(int32_t)-r.range(0,5); if(!thrown([&]{ FactoryKernel::gaussian1D<F32>(bad,w0); })||!thrown([&]{ FactoryKernel::gaussian1D<S32>(bad,w0); })||!thrown([&]{ FactoryKernel::gaussian2D<F64>(bad,w0); })) c.fail("gaussian-accepts-nothing","neither sigma nor width given, accepted");
    if(!thrown([&]{ FactoryKernel::gaussian1D<F64>(bad,1); })) c.fail("gaussian-accepts-radius0","width 1 without sigma accepted");
    c.ev("rules");
}
void run_case(Ctx& c) {
    Rng& r=c.r; c.nontrivial();
    switch(r.range(0,9)) {
        case 0: case 1: case 2: case 3: { bool two=r.chance(.4); GP g=gparams(r,two?(r.chance(.05)?121:31):(r.chance(.1)?601:151)); int t=(int)r.range(0,3); const char* tn[]={"F32","F64","S32","S64"};
            c.note("gaussian%s %s sigma %.9g width %d",two?"2D":"1D",tn[t],g.sigma,g.width); c.hash((u64)(i64)(g.sigma*1e9)); c.hash((u64)g.width*16+t*2+two);
            switch(t) { case 0: gauss_float<F32>(c,g,two); break; case 1: gauss_float<F64>(c,g,two); break; case 2: gauss_int<S32>(c,g,two); break; default: gauss_int<S64>(c,g,two); }
            c.ev(g.mode==0?"gaussian.width.derived":g.mode==1?"gaussian.sigma.derived":"gaussian.both"); if(g.mode==0&&two) c.ev("gaussian2D.width.derived"); c.ev(two?"gaussian2D":"gaussian1D"); if(g.w%2==0) c.ev("even.width"); c.state(hcomb(g.w,t*4+g.mode)); break; }
        case 4: switch(r.range(0,3)) { case 0: flat<F32>(c); break; case 1: flat<F64>(c); break; case 2: flat<S32>(c); break; default: flat<S64>(c); } break;
        case 5: switch(r.range(0,2)) { case 0: normalise<F32>(c,r.chance(.5)); break; case 1: normalise<F64>(c,r.chance(.5)); break; default: normalise<S32>(c,r.chance(.5)); } break;
        case 6: case 7: if(r.chance(.5)) convert<S32>(c,r.chance(.5)); else convert<S64>(c,r.chance(.5)); break;
        case 8: switch(r.range(0,2)) { case 0: filled<F32>(c); break; case 1: filled<F64>(c); break; default: filled<S32>(c); } break;
        default: helpers(c);
    }
}
}
