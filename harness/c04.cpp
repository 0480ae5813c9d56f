// C04: normalised convolution is the weighted average over the part of the kernel inside the image.
#include "convref.hpp"
#include <boofcv/convolve.h>
namespace vh {
void setup_run() { large().p=0.004; large().huge_cases=4; }
// reference of one direction; err = bound on the floating point error at each pixel
template<class E, class K> void ref_norm(const Mat<E>& in, const std::vector<K>& kv, uint32_t org, bool horiz, Mat<E>& out, std::vector<long double>& exact, std::vector<long double>& tol) {
    typedef typename Acc<E>::t A;
    out=Mat<E>(in.w,in.h); exact.assign(in.d.size(),0); tol.assign(in.d.size(),0); i64 kw=(i64)kv.size();
    for(uint32_t y=0;y<in.h;y++) for(uint32_t x=0;x<in.w;x++) {
        A tot=0,wei=0; long double mag=0,wmag=0;
        for(i64 k=0;k<kw;k++) { i64 p=(horiz?(i64)x:(i64)y)+k-(i64)org; if(p<0||p>=(i64)(horiz?in.w:in.h)) continue;
            E v=horiz?in(p,y):in(x,p); tot+=(A)kv[k]*(A)v; wei+=(A)kv[k]; if(IsF<E>::v) { long double q=(long double)kv[k]*v; mag+=q<0?-q:q; long double z=(long double)kv[k]; wmag+=z<0?-z:z; } }
        size_t i=(size_t)y*in.w+x;
        if(IsF<E>::v) { exact[i]=(long double)tot/(long double)wei; long double aw=(long double)wei; if(aw<0) aw=-aw; long double ae=exact[i]<0?-exact[i]:exact[i]; tol[i]=std::numeric_limits<E>::epsilon()*(6+3*(long double)kw)*(mag+ae*wmag)/aw; out.d[i]=(E)exact[i]; }
        else out.d[i]=(E)((K)(((K)tot+(K)wei/2)/(K)wei));
    }
}
template<class K> bool usable(const std::vector<K>& kv, uint32_t org, uint32_t dim, bool flt) { // no window has a (nearly) vanishing weight
    i64 kw=(i64)kv.size();
    for(uint32_t x=0;x<dim;x++) { long double s=0,a=0; for(i64 k=0;k<kw;k++) { i64 p=(i64)x+k-org; if(p<0||p>=dim) continue; s+=(long double)kv[k]; a+=kv[k]<0?-(long double)kv[k]:(long double)kv[k]; }
        if(s<0) s=-s; if(s==0||(flt&&s<0.05L*a)) return false; }
    return true;
}
template<class E> void norm_case(Ctx& c) {
    typedef typename TypeInfo<E>::signed_type K; Rng& r=c.r;
    uint32_t w,h; rand_size(r,w,h,40);
    int dir=(int)r.range(0,2); uint32_t dim= dir==0?w:dir==1?h:(r.chance(.5)?w:h);
    uint32_t kw;
    switch(r.range(0,5)) { case 0: kw=(uint32_t)r.range(1,4); break; case 1: case 2: kw=(uint32_t)std::max<i64>(1,(i64)dim+r.range(-2,2)); break; case 3: kw=(uint32_t)(3+2*r.range(0,5)); break; case 4: kw=(uint32_t)r.range(dim+1,3*dim+4); break; default: kw=(uint32_t)r.range(1,21); }
    if(kw>110) kw=110; if((u64)w*h>3000) kw=std::min(kw,kernel_cap(w,h));
    uint32_t org=r.chance(.4)?kw/2:(uint32_t)r.range(0,kw-1);
    double plo,phi,kmax; ConvRange<E>::pick(r,kw,plo,phi,kmax); kmax/=2; if(!IsF<E>::v&&kmax<1) { kmax=1; plo/=2; phi/=2; }
    if(r.chance(.3)) kmax=std::min<double>(kmax,r.pick({1,3,255,256,300,1000}));
    if(r.chance(.4)) plo=0;
    std::vector<K> kv(kw); bool nonneg=true; int km=(int)r.range(0,3);
    for(int tries=0;;tries++) {
        for(auto&v:kv) { if(km==0) v=(K)1; else if(km==3&&tries<4&&!(dir==2&&sizeof(E)>=4)) v=IsF<E>::v?(K)r.real(-kmax/4,kmax):(K)r.range(-(i64)(kmax/4),(i64)kmax); else v=IsF<E>::v?(K)r.real(0.01,kmax):(K)r.range(tries<4?0:1,(i64)kmax); }
        if(IsF<E>::v&&r.chance(.5)) { K s=0; for(auto v:kv) s+=v; if(s>0) for(auto&v:kv) v/=s; }
        if(dir==2? usable(kv,org,w,IsF<E>::v)&&usable(kv,org,h,IsF<E>::v) : usable(kv,org,dim,IsF<E>::v)) break;
        if(tries>=4) km=2;
    }
    for(auto v:kv) if(v<0) nonneg=false;
    Mat<E> in=rand_mat<E>(r,w,h,plo,phi);
    bool constant=r.chance(.1); if(constant) for(auto&v:in.d) v=in.d[0];
    Kernel1D<K> k(kw,org); fill_kernel1(k,kv);
    Img<E> ii,o,ws; ii.make(r,rand_kind(r),in); ii.snapshot();
    int algo=(int)r.range(0,3); if(dir==2) algo=0; bool border=false; if(algo==3) { if(kw<=dim) border=true; else algo=0; }
    const char* dn[]={"horizontal","vertical","both"};
    make_out(r,o,w,h,dir==2); if(dir==2) make_out(r,ws,w,h,true);
    c.note("normalised %s %s %ux%u kernel %u origin %u algo %d in=%s out=%s%s",dn[dir],TName<E>::n(),w,h,kw,org,algo,kname(ii.kind),kname(o.kind),nonneg?"":" mixed-sign");
    c.hash(in.hash()); c.hash(hbytes(kv.data(),kw*sizeof(K))); c.hash(((u64)dir<<40)|((u64)algo<<36)|org); c.nontrivial();
    if(dir==2) ConvolveNormalized::convolve(k,*ii,*o,*ws);
    else if(algo<=1) { if(dir==0) ConvolveNormalized::horizontal(k,*ii,*o); else ConvolveNormalized::vertical(k,*ii,*o); c.ev("full"); }
    else if(algo==2) { if(dir==0) ConvolveNormalizedNaive::horizontal(k,*ii,*o); else ConvolveNormalizedNaive::vertical(k,*ii,*o); c.ev("naive"); }
    else { if(dir==0) ConvolveNormalized_JustBorder::horizontal(k,*ii,*o); else ConvolveNormalized_JustBorder::vertical(k,*ii,*o); c.ev("border"); }
    check_input(c,ii,"normalised-input"); check_out(c,o,w,h,"normalised"); if(dir==2) check_out(c,ws,w,h,"workspace");
    for(uint32_t i=0;i<kw;i++) if(memcmp(&k.at(i),&kv[i],sizeof(K))) c.fail("kernel-modified","kernel entry %u changed",i);
    Mat<E> ref; std::vector<long double> ex,tol;
    if(dir<2) ref_norm(in,kv,org,dir==0,ref,ex,tol);
    else { Mat<E> mid; std::vector<long double> e1,t1; ref_norm(in,kv,org,true,mid,e1,t1); 
        // the intermediate image is checked first, then taken as it is
        for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) { size_t i=(size_t)y*w+x; E g=ws.get(x,y); if(IsF<E>::v? std::fabs((long double)g-e1[i])>t1[i]+std::numeric_limits<E>::min() : g!=mid.d[i]) c.fail("normalised-value:both","intermediate pixel (%u,%u) is %s, expected %s",x,y,sv(g).c_str(),sv(mid.d[i]).c_str()); }
        ref_norm(ws.read(),kv,org,false,ref,ex,tol); }
    E mn=in.d[0],mx=in.d[0]; for(auto v:in.d) { mn=std::min(mn,v); mx=std::max(mx,v); }
    u64 checked=0;
    for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) {
        if(border) { uint32_t p=dir==0?x:y; if(p>=org && p+(kw-1-org)<(dir==0?w:h)) continue; }
        size_t i=(size_t)y*w+x; E g=o.get(x,y); checked++;
        bool ok=IsF<E>::v? std::fabs((long double)g-ex[i])<=tol[i]+std::numeric_limits<E>::min() : g==ref.d[i];
        if(!ok) c.fail(std::string("normalised-value:")+dn[dir],"pixel (%u,%u) is %s, expected %s",x,y,sv(g).c_str(),sv(ref.d[i]).c_str());
        if(nonneg && mn>=0) { double slack=IsF<E>::v?(double)(tol[i])*4+1e-30:0; if((double)g<(double)mn-slack||(double)g>(double)mx+slack) c.fail("range","pixel (%u,%u) is %s outside the input range %s..%s",x,y,sv(g).c_str(),sv(mn).c_str(),sv(mx).c_str()); c.ev("range.checked"); }
    }
    if(constant&&nonneg&&mn>=0) c.ev("constant.images");
    if(kw>dim) c.ev("kernel.larger"); if(kw==dim) c.ev("kernel.equal"); if(org!=kw/2) c.ev("origin.asymmetric"); if(!nonneg) c.ev("weights.mixed"); { bool wide=false; for(auto v:kv) if((double)v>Lim<E>::hi()) wide=true; if(wide) c.ev("weights.exceed.pixel.type"); }
    c.ev("pixels.checked",checked); c.ev((std::string("type.")+TName<E>::n()).c_str()); c.ev((std::string("dir.")+dn[dir]).c_str());
    c.state(hcomb(((u64)dir<<60)|((u64)algo<<50)|((u64)std::min(kw,30u)<<8)|std::min(org,30u),(sizeof(E)*2+IsF<E>::v)*64+(kw>dim)*8+(kw==dim)));
}
void run_case(Ctx& c) { switch(c.r.range(0,8)) { case 0: case 1: norm_case<U8>(c); break; case 2: norm_case<S16>(c); break; case 3: norm_case<U16>(c); break; case 4: norm_case<S32>(c); break; case 5: norm_case<S64>(c); break; case 6: norm_case<F64>(c); break; default: norm_case<F32>(c); } }
}
