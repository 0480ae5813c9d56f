#ifndef VH_PART
#define VH_PART 1
#endif
#include "ops.hpp"
#include "contourref.hpp"
#include <boofcv/image_blur.h>
#include <boofcv/binary_ops.h>
#include <boofcv/threshold_block_filters.h>
#include <boofcv/contour.h>
namespace vh {
template<class E> std::string tn1(const char* base) { return strf("%s<%s>",base,TName<E>::n()); }
template<class E> void blur_range(u64 n, double& lo, double& hi) { lo=Lim<E>::lo(); hi=Lim<E>::hi(); if(!IsF<E>::v&&sizeof(E)==4) { hi=std::floor(2147483647.0*.4/(double)n); lo=-hi; } if(!IsF<E>::v&&sizeof(E)==8) { hi=1e12; lo=-hi; } }
template<class E> Op mean_op(Rng& r, const GenOpt& go, const std::string& fam, int dir) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); uint32_t dim=r.chance(.5)?w:h, rad; switch(r.range(0,3)) { case 0: rad=(uint32_t)r.range(1,3); break; case 1: rad=(uint32_t)std::max<i64>(1,(i64)dim/2+r.range(-2,2)); break; case 2: rad=(uint32_t)std::max<i64>(1,(i64)dim+r.range(-2,2)); break; default: rad=(uint32_t)r.range(1,9); }
    if((u64)w*h>3000) rad=std::min(rad,kernel_cap(w,h,6000000)); if(go.bad&&dir==2) { rad=0; o.bad=true; } double lo,hi; blur_range<E>(2*(u64)rad+1,lo,hi); o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi))); o.out.push_back(gout<E>(w,h,dir==2)); if(dir==2) o.ws.push_back(gout<E>(w,h)); o.desc=strf("radius %u",rad);
    o.run=[=](Env& e) { const Gray<E>& in=G<E>(e.in[0]); Gray<E>& out=G<E>(e.out[0]); if(dir==2) BlurImageOps::mean(in,out,rad,G<E>(e.ws[0])); else if(dir==0) ConvolveImageMean::horizontal(in,out,rad); else ConvolveImageMean::vertical(in,out,rad); }; return o; }
template<class E> Op gauss_op(Rng& r, const GenOpt& go, const std::string& fam) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); double sigma; int width; switch(r.range(0,2)) { case 0: sigma=r.real(.2,5); width=r.chance(.5)?0:-1; break; case 1: sigma=r.chance(.5)?0:-1; width=(int)r.range(2,19); break; default: sigma=r.real(.3,5); width=(int)r.range(1,19); } if(sigma>0&&r.chance(.4)) sigma=std::max(.5,std::round(sigma*2)/2);
    if(go.bad) { sigma=0; width=r.chance(.5)?0:-3; o.bad=true; } double lo=Lim<E>::lo(),hi=Lim<E>::hi(); if(!IsF<E>::v&&sizeof(E)>=4) { hi=100000; lo=-hi; } o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi))); o.out.push_back(gout<E>(w,h)); o.ws.push_back(gout<E>(w,h)); o.desc=strf("sigma %.6g width %d",sigma,width);
    o.run=[=](Env& e) { BlurImageOps::gaussian(G<E>(e.in[0]),G<E>(e.out[0]),sigma,width,G<E>(e.ws[0])); }; return o; }
template<class E> void px_range(Rng& r, double& lo, double& hi) { lo=Lim<E>::lo(); hi=Lim<E>::hi(); if(!IsF<E>::v&&sizeof(E)>=4) { hi=20000; lo=-hi; } if(r.chance(.5)) { lo=std::max(lo,0.0); hi=std::min(hi,255.0); } }
template<class E> Op fixed_op(Rng& r, const GenOpt& go, const std::string& fam, bool filter) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); double lo,hi; px_range<E>(r,lo,hi); Mat<E> m=rand_mat<E>(r,w,h,lo,hi); E t=m.d.size()&&r.chance(.6)?r.pick(m.d):IsF<E>::v?(E)r.real(lo,hi):(E)r.range((i64)lo,(i64)hi); bool down=r.chance(.5); o.in.push_back(gray<E>(m)); o.out.push_back(gout<U8>(w,h)); o.desc=strf("threshold %s down %d",sv(t).c_str(),down);
    if(filter) { o.obj_key="f"; o.make_obj=[]()->Any{ return std::make_shared<GlobalFixedBinaryFilter<E>>((E)3,true); }; o.copying=copying<GlobalFixedBinaryFilter<E>>(); o.run=[=](Env& e) { auto& f=*(GlobalFixedBinaryFilter<E>*)e.obj; f.threshold=t; f.down=down; f.process(G<E>(e.in[0]),G<U8>(e.out[0])); }; }
    else o.run=[=](Env& e) { ThresholdOps::threshold(G<E>(e.in[0]),t,down,G<U8>(e.out[0])); }; return o; }
template<class E> Op otsu_op(Rng& r, const GenOpt& go, const std::string& fam, bool filter) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,false); double lo,hi; if(IsF<E>::v) { lo=r.range(-100,100); hi=lo+(double)r.range(0,255); } else { lo=(double)r.range((i64)std::max(Lim<E>::lo(),-20000.0),(i64)std::min(Lim<E>::hi(),20000.0)); hi=std::min(Lim<E>::hi(),lo+(double)r.range(0,400)); } Mat<E> m=rand_mat<E>(r,w,h,lo,hi); bool o2=r.chance(.5),down=r.chance(.5); E a=(E)lo,b=(E)hi; o.in.push_back(gray<E>(m)); o.desc=strf("range %s..%s otsu2 %d down %d",sv(a).c_str(),sv(b).c_str(),o2,down);
    if(filter) { o.out.push_back(gout<U8>(w,h)); o.obj_key="f"; o.make_obj=[]()->Any{ return std::make_shared<GlobalOtsuBinaryFilter<E>>((E)0,(E)9,true); }; o.copying=copying<GlobalOtsuBinaryFilter<E>>(); o.run=[=](Env& e) { auto& f=*(GlobalOtsuBinaryFilter<E>*)e.obj; f.min_value=a; f.max_value=b; f.down=down; f.process(G<E>(e.in[0]),G<U8>(e.out[0])); }; }
    else o.run=[=](Env& e) { E t=ThresholdOps::computeOtsu(G<E>(e.in[0]),a,b,o2); Untrack u; e.text+=sv(t); }; return o; }
template<class E> Op local_op(Rng& r, const GenOpt& go, const std::string& fam, bool filter) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); double lo,hi; px_range<E>(r,lo,hi); ConfigLength L=r.chance(.5)?ConfigLength::fixed((double)r.range(2,r.chance(.5)?9:2*std::max(w,h)+3)):ConfigLength::relative(r.real(.05,1.2),(int)r.range(2,6)); if((u64)w*h>3000) L=ConfigLength::fixed((double)r.range(2,std::min<i64>(2*std::max(w,h)+3,kernel_cap(w,h,12000000)))); if(go.bad) { L=ConfigLength::fixed((double)r.range(0,1)); o.bad=true; } float sc=(float)r.pick({1.0,.95,1.1,.5}); bool down=r.chance(.5);
    o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi))); o.out.push_back(gout<U8>(w,h)); o.desc=strf("length %g/%g scale %g down %d",L.length,L.fraction,sc,down);
    if(filter) { o.obj_key="f"; o.make_obj=[]()->Any{ return std::make_shared<LocalMeanBinaryFilter<E>>(ConfigLength::fixed(5),1.0f,true); }; o.copying=copying<LocalMeanBinaryFilter<E>>(); o.run=[=](Env& e) { auto& f=*(LocalMeanBinaryFilter<E>*)e.obj; f.regionWidth=L; f.scale=sc; f.down=down; f.process(G<E>(e.in[0]),G<U8>(e.out[0])); };
        o.buffers=[](Env& e,std::vector<const void*>& v) { auto& f=*(LocalMeanBinaryFilter<E>*)e.obj; maybe([&](auto& q)->decltype((void)q.storage1.data){ v.push_back(q.storage1.data); },f,0); maybe([&](auto& q)->decltype((void)q.storage2.data){ v.push_back(q.storage2.data); },f,0); }; }
    else { o.ws.push_back(gout<E>(w,h)); o.ws.push_back(gout<E>(w,h)); o.run=[=](Env& e) { ThresholdOps::localMean(G<E>(e.in[0]),G<U8>(e.out[0]),L,sc,down,G<E>(e.ws[0]),G<E>(e.ws[1])); }; } return o; }
// block filters: kind 0 mean 1 otsu 2 min-max
template<class E> Op block_op(Rng& r, const GenOpt& go, const std::string& fam, int kind) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,false); uint32_t m=std::min(w,h); ConfigLength L; if(r.chance(.6)) L=ConfigLength::fixed((double)r.range(1,m)); else { L=ConfigLength::relative(r.real(.05,1),(int)r.range(1,3)); if(L.length>m) L=ConfigLength::fixed(1); if(L.computeI(m)<1||L.computeI(m)>(int)m) L=ConfigLength::fixed(1); }
    uint32_t ow=w,oh=h; if(go.bad) { o.bad=true; switch(r.range(0,2)) { case 0: L=ConfigLength::fixed((double)m+r.range(1,50)); break; case 1: L=ConfigLength::fixed(0); break; default: ow=w+1; } }
    double lo,hi; px_range<E>(r,lo,hi); if(kind==1) { lo=0; hi=255; } else if(!IsF<E>::v&&(sizeof(E)>=4||(u64)w*h>16000)) { lo=std::max(lo,-2000.0); hi=std::min(hi,2000.0); if(hi<lo) hi=lo; } bool local=r.chance(.6),down=r.chance(.5); double scale=kind==0&&!IsF<E>::v?r.pick({1.0,.95,.5}):r.pick({1.0,.95,1.1,.5});
    o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi))); o.out.push_back(gout<U8>(ow,oh,false)); bool o2=r.chance(.5); double tun=r.pick({0.0,1.0,4.0}); float spread=(float)r.pick({-1.0,0.0,5.0,20.0}); o.desc=strf("kind %d block %g/%g local %d down %d scale %g otsu2 %d tuning %g spread %g",kind,L.length,L.fraction,local,down,scale,o2,tun,spread);
    if(kind==0) { o.obj_key="f"; o.make_obj=[]()->Any{ return std::make_shared<ThresholdBlockMean<E>>(ConfigLength::fixed(5),true,1.0,true); }; o.copying=copying<ThresholdBlockMean<E>>(); o.run=[=](Env& e) { auto& f=*(ThresholdBlockMean<E>*)e.obj; f.requestedBlockWidth=L; f.setThresholdFromLocalBlocks(local); f.scale=(float)scale; f.down=down; f.process(G<E>(e.in[0]),G<U8>(e.out[0])); }; o.buffers=[](Env& e,std::vector<const void*>& v) { auto& f=*(ThresholdBlockMean<E>*)e.obj; maybe([&](auto& q)->decltype((void)q.stats.data){ v.push_back(q.stats.data); },f,0); }; }
    else if(kind==1) { o.obj_key=strf("o2%d t%g s%g d%d",o2,tun,scale,down); o.make_obj=[=]()->Any{ return std::make_shared<ThresholdBlockOtsu<E>>(o2,ConfigLength::fixed(5),tun,scale,down,true); }; o.copying=copying<ThresholdBlockOtsu<E>>(); o.run=[=](Env& e) { auto& f=*(ThresholdBlockOtsu<E>*)e.obj; f.requestedBlockWidth=L; f.setThresholdFromLocalBlocks(local); f.process(G<E>(e.in[0]),G<U8>(e.out[0])); }; o.buffers=[](Env& e,std::vector<const void*>& v) { auto& f=*(ThresholdBlockOtsu<E>*)e.obj; maybe([&](auto& q)->decltype((void)q.stats.data){ v.push_back(q.stats.data); },f,0); maybe([&](auto& q)->decltype((void)q.histogram.data){ v.push_back(q.histogram.data); },f,0); }; }
    else { o.obj_key="f"; o.make_obj=[]()->Any{ return std::make_shared<ThresholdBlockMinMax<E>>(3.0f,ConfigLength::fixed(5),true,1.0f,true); }; o.copying=copying<ThresholdBlockMinMax<E>>(); o.run=[=](Env& e) { auto& f=*(ThresholdBlockMinMax<E>*)e.obj; f.requestedBlockWidth=L; f.setThresholdFromLocalBlocks(local); f.scale=(float)scale; f.down=down; f.minimumSpread=spread; f.process(G<E>(e.in[0]),G<U8>(e.out[0])); }; o.buffers=[](Env& e,std::vector<const void*>& v) { auto& f=*(ThresholdBlockMinMax<E>*)e.obj; maybe([&](auto& q)->decltype((void)q.stats.data){ v.push_back(q.stats.data); },f,0); }; }
    return o; }
static Op contour_op(Rng& r, const GenOpt& go, const std::string& fam) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); int mode=-1; Mat<U8> m=binary_pattern(r,w,h,&mode); bool eight=r.chance(.5); uint32_t mn=r.chance(.6)?0:(uint32_t)r.range(0,12), mx=r.chance(.6)?std::numeric_limits<uint32_t>::max():(uint32_t)r.range(0,40); bool inner=r.chance(.7);
    o.in.push_back(gray<U8>(m)); o.out.push_back(gout<S32>(w,h)); o.obj_key="f"; o.desc=strf("rule %d min %u max %u inner %d mode %d",eight?8:4,mn,mx,inner,mode);
    o.make_obj=[]()->Any{ return std::make_shared<LinearContourLabelChang2004>(ConnectRule::FOUR); }; o.copying=copying<LinearContourLabelChang2004>();
    o.run=[=](Env& e) { auto& f=*(LinearContourLabelChang2004*)e.obj; f.minContourSize=mn; f.maxContourSize=mx; f.saveInternalContours=inner; f.setConnectRule(eight?EIGHT:FOUR); f.process(G<U8>(e.in[0]),G<S32>(e.out[0]));
        Untrack u; std::string& t=e.text; auto put=[&](uint32_t s) { std::vector<Point2D<S32>> p; f.packedPoints.load_set(s,p); t+="("; for(auto& q:p) t+=strf("%d,%d ",q.x,q.y); t+=")"; };
        for(auto& b:f.contours) { t+=strf("#%u",b.id); put(b.externalIndex); for(auto s:b.internalIndexes) { t+="i"; put(s); } } };
    o.buffers=[](Env& e,std::vector<const void*>& v) { auto& f=*(LinearContourLabelChang2004*)e.obj; maybe([&](auto& q)->decltype((void)q.border.data){ v.push_back(q.border.data); },f,0); v.push_back(f.contours.data()); v.push_back(f.packedPoints.set_info.data()); for(uint32_t i=0;i<f.packedPoints._number_of_blocks;i++) v.push_back(f.packedPoints.blocks[i]); };
    return o; }
static Op logic_op(Rng& r, const GenOpt& go, const std::string& fam, bool land) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); o.in.push_back(gray<U8>(rand_mat<U8>(r,w,h,0,1))); uint32_t w2=w; if(go.bad) { o.bad=true; w2=w+1; } o.in.push_back(gray<U8>(rand_mat<U8>(r,w2,h,0,1))); o.out.push_back(gout<U8>(w,h)); o.desc=land?"and":"or";
    o.run=[=](Env& e) { if(land) BinaryImageOps::logicAnd(G<U8>(e.in[0]),G<U8>(e.in[1]),G<U8>(e.out[0])); else BinaryImageOps::logicOr(G<U8>(e.in[0]),G<U8>(e.in[1]),G<U8>(e.out[0])); }; return o; }
static Op morph_op(Rng& r, const GenOpt& go, const std::string& fam, bool ero) {
    Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); o.in.push_back(gray<U8>(rand_mat<U8>(r,w,h,0,1))); o.out.push_back(gout<U8>(w,h)); o.desc=ero?"erode":"dilate";
    o.run=[=](Env& e) { if(ero) BinaryImageOps::erode4(G<U8>(e.in[0]),G<U8>(e.out[0])); else BinaryImageOps::dilate4(G<U8>(e.in[0]),G<U8>(e.out[0])); }; return o; }
template<class E> void typed(std::vector<Family>& v) {
    auto add=[&](const char* base, bool obj, bool fail, bool empty, std::function<Op(Rng&,const GenOpt&,const std::string&)> f) { std::string n=tn1<E>(base); v.push_back(Family{n,obj,fail,empty,[n,f](Rng& r,const GenOpt& g){ return f(r,g,n); }}); };
    typedef const std::string S; typedef const GenOpt Q;
    add("blur.mean",false,true,true,[](Rng& r,Q& g,S& n){ return mean_op<E>(r,g,n,2); }); add("blur.mean.horizontal",false,false,true,[](Rng& r,Q& g,S& n){ return mean_op<E>(r,g,n,0); }); add("blur.mean.vertical",false,false,true,[](Rng& r,Q& g,S& n){ return mean_op<E>(r,g,n,1); });
    add("blur.gaussian",false,true,true,[](Rng& r,Q& g,S& n){ return gauss_op<E>(r,g,n); });
    add("threshold.fixed",false,false,true,[](Rng& r,Q& g,S& n){ return fixed_op<E>(r,g,n,false); }); add("filter.fixed",true,false,true,[](Rng& r,Q& g,S& n){ return fixed_op<E>(r,g,n,true); });
    add("threshold.otsu",false,false,false,[](Rng& r,Q& g,S& n){ return otsu_op<E>(r,g,n,false); }); add("filter.otsu",true,false,false,[](Rng& r,Q& g,S& n){ return otsu_op<E>(r,g,n,true); });
    add("threshold.local",false,true,true,[](Rng& r,Q& g,S& n){ return local_op<E>(r,g,n,false); }); add("filter.local",true,true,true,[](Rng& r,Q& g,S& n){ return local_op<E>(r,g,n,true); });
    add("filter.block.mean",true,true,false,[](Rng& r,Q& g,S& n){ return block_op<E>(r,g,n,0); }); add("filter.block.otsu",true,true,false,[](Rng& r,Q& g,S& n){ return block_op<E>(r,g,n,1); }); add("filter.block.minmax",true,true,false,[](Rng& r,Q& g,S& n){ return block_op<E>(r,g,n,2); });
}
static FamilyReg reg([](std::vector<Family>& v) {
#if VH_PART == 2
    typed<S32>(v); typed<F32>(v); typed<F64>(v); 
});
#else
    typed<U8>(v); typed<S16>(v); typed<U16>(v); 
    auto add=[&](const char* n, bool obj, bool fail, std::function<Op(Rng&,const GenOpt&,const std::string&)> f) { std::string s=n; v.push_back(Family{s,obj,fail,true,[s,f](Rng& r,const GenOpt& g){ return f(r,g,s); }}); };
    for(const char* n:{"contour.label","contour.label.again"}) add(n,true,false,[](Rng& r,const GenOpt& g,const std::string& n){ return contour_op(r,g,n); });
    add("binary.and",false,true,[](Rng& r,const GenOpt& g,const std::string& n){ return logic_op(r,g,n,true); }); add("binary.or",false,true,[](Rng& r,const GenOpt& g,const std::string& n){ return logic_op(r,g,n,false); });
    add("binary.erode",false,false,[](Rng& r,const GenOpt& g,const std::string& n){ return morph_op(r,g,n,true); }); add("binary.dilate",false,false,[](Rng& r,const GenOpt& g,const std::string& n){ return morph_op(r,g,n,false); });
});
#endif
}
