#ifndef VH_PART
#define VH_PART 1
#endif
#include "ops.hpp"
#include <boofcv/image_statistics.h>
#include <boofcv/image_misc_ops.h>
#include <boofcv/image_convert.h>
#include <boofcv/binary_ops.h>
#include <boofcv/print_structures.h>
#include <boofcv/packed_sets.h>
#include <boofcv/geometry_types.h>
#include <random>
namespace vh {
template<class E> std::string tn1(const char* base) { return strf("%s<%s>",base,TName<E>::n()); }
template<class E> void srange(Rng& r, size_t n, double& lo, double& hi) { lo=Lim<E>::lo(); hi=Lim<E>::hi(); if(!IsF<E>::v) { double m=std::floor((sizeof(E)==8?9e18:std::is_signed<E>::value?2147483000.0:4294967000.0)/(double)std::max<size_t>(1,n)); hi=std::min(hi,m); lo=std::max(lo,-m); } if(r.chance(.4)) lo=std::max(0.0,lo); }
template<class E> Op stat_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,false); double lo,hi; srange<E>(r,(size_t)w*h,lo,hi); o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi)));
    o.run=[](Env& e) { const Gray<E>& in=G<E>(e.in[0]); E a=ImageStatistics::min(in),b=ImageStatistics::max(in),d=ImageStatistics::mean(in); auto s=ImageStatistics::sum(in); Untrack u; e.text+=strf("%s %s %s %.17g",sv(a).c_str(),sv(b).c_str(),sv(d).c_str(),(double)s); }; return o; }
template<class E> Op hist_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); i64 lo=r.range((i64)std::max(Lim<E>::lo(),-1000.0),std::min<i64>(500,(i64)Lim<E>::hi())), n=r.range(1,300); i64 hi=std::min<i64>(lo+n-1,(i64)Lim<E>::hi()); if(hi<lo) hi=lo; o.in.push_back(gray<E>(rand_mat<E>(r,w,h,(double)lo,(double)hi))); uint32_t bins=(uint32_t)(hi-lo+1+r.range(0,4)); o.desc=strf("minimum %lld bins %u",(long long)lo,bins);
    o.obj_key="f"; o.make_obj=[]()->Any{ return std::make_shared<GrowArray<uint32_t>>(3); }; o.copying=copying<GrowArray<uint32_t>>();
    o.run=[=](Env& e) { GrowArray<uint32_t>& hg=*(GrowArray<uint32_t>*)e.obj; hg.resize(bins); ImageStatistics::histogram(G<E>(e.in[0]),(E)lo,hg); Untrack u; e.text.append((const char*)hg.data,hg.size*4); }; o.buffers=[](Env& e,std::vector<const void*>& v) { v.push_back(((GrowArray<uint32_t>*)e.obj)->data); }; return o; }
template<class E> Op fill_op(Rng& r, const GenOpt& go, const std::string& fam, int k) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); E v=garbage<E>(r); Mat<E> m(w,h); for(auto& x:m.d) x=garbage<E>(r); uint32_t rad=(uint32_t)r.range(0,r.chance(.5)?4:(i64)std::max(w,h)+2); u64 seed=r.next(); i64 a=r.range(IsF<E>::v||std::numeric_limits<E>::is_signed?-100:0,50),b=a+r.range(1,60); o.out.push_back(gout<E>(w,h,false,k==1?gray<E>(m):PixelsP())); o.desc=strf("value %s radius %u range %lld..%lld seed %llu",sv(v).c_str(),rad,(long long)a,(long long)b,(unsigned long long)seed);
    o.run=[=](Env& e) { Gray<E>& g=G<E>(e.out[0]); if(k==0) ImageMiscOps::fill(g,v); else if(k==1) ImageMiscOps::fill_border(g,v,rad); else { std::mt19937 gen((uint32_t)seed); ImageMiscOps::fill_uniform(g,(E)a,(E)b,gen); } }; return o; }
template<class E> Op ifill_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); uint32_t b=(uint32_t)r.range(1,5); E v=garbage<E>(r); o.out.push_back(iout<E>(w,h,b,false)); o.desc=strf("bands %u value %s",b,sv(v).c_str()); o.run=[=](Env& e) { ImageMiscOps::fill(I<E>(e.out[0]),v); }; return o; }
template<class E> Op avg_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); uint32_t b=(uint32_t)r.range(1,5); double lo,hi; srange<E>(r,b,lo,hi); o.in.push_back(inter<E>(r,w,h,b,lo,hi)); o.out.push_back(gout<E>(w,h)); o.desc=strf("bands %u",b); o.run=[=](Env& e) { convert_average(I<E>(e.in[0]),G<E>(e.out[0])); }; return o; }
template<class E> Op border_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,false); double lo,hi; srange<E>(r,1,lo,hi); if(!IsF<E>::v&&sizeof(E)==8) { lo=-1e9;hi=1e9; } Mat<E> m=rand_mat<E>(r,w,h,lo,hi); int bt=(int)r.range(0,4); E v=garbage<E>(r); std::vector<std::pair<int,int>> q; for(int k=0;k<40;k++) q.push_back(std::make_pair((int)r.range(-3*(i64)w-2,4*(i64)w+2),(int)r.range(-3*(i64)h-2,4*(i64)h+2))); o.in.push_back(gray<E>(m)); o.desc=strf("rule %d",bt);
    o.bind=[=](Env& e)->Any { auto b=make_border<E>(bt,v); b->setImage(G<E>(e.in[0])); return b; }; o.run=[=](Env& e) { const ImageBorder<E>& b=*(ImageBorder<E>*)e.shared; for(auto& p:q) { E x=b.get(p.first,p.second); Untrack u; e.text.append((const char*)&x,sizeof x); } }; return o; }
template<class E> Op copy_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); Mat<E> m(w,h); for(auto& x:m.d) x=garbage<E>(r); o.in.push_back(gray<E>(m)); o.out.push_back(gout<E>(w,h)); o.run=[](Env& e) { G<E>(e.out[0]).copy(G<E>(e.in[0])); }; return o; }
template<class E> Op dup_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); Mat<E> m(w,h); for(auto& x:m.d) x=garbage<E>(r); o.in.push_back(gray<E>(m)); u64 seed=r.next(); // copies, views and assignments of temporaries
    o.run=[=](Env& e) { Rng q(seed); const Gray<E>& in=G<E>(e.in[0]); Gray<E> a(in); Gray<E> b; b.copy(in); Gray<E> c2; c2=b; uint32_t x0=(uint32_t)q.range(0,in.width),x1=(uint32_t)q.range(x0,in.width),y0=(uint32_t)q.range(0,in.height),y1=(uint32_t)q.range(y0,in.height); Gray<E> v=in.makeSubimage(x0,y0,x1,y1); Gray<E> d; d.copy(v); Gray<E> f(3,2); f=in.makeSubimage(x0,y0,x1,y1); c2=c2; c2=c2.makeSubimage(x0,y0,x1,y1);
        Planar<Gray<E>> p(in.width,in.height,(uint32_t)q.range(1,3)); for(uint32_t k=0;k<p.num_bands;k++) p.getBand(k).copy(in); Planar<Gray<E>> p2(p); p2.setNumberOfBands((uint32_t)q.range(0,5)); p2.reshape((uint32_t)q.range(0,9),(uint32_t)q.range(0,9)); p2=p;
        Untrack u; std::string& t=e.text; auto put=[&](const Gray<E>& g) { t+=strf("[%ux%u]",g.width,g.height); for(uint32_t y=0;y<g.height;y++) for(uint32_t x=0;x<g.width;x++) { E z=g.at(x,y); t.append((const char*)&z,sizeof z); } }; put(a); put(b); put(d); put(f); put(c2); for(uint32_t k=0;k<p2.num_bands;k++) put(p2.getBand(k)); }; return o; }
template<class E> Op setto_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); uint32_t b=(uint32_t)r.range(1,4); o.in.push_back(inter<E>(r,w,h,b,IsF<E>::v?-1000:Lim<E>::lo(),IsF<E>::v?1000:sizeof(E)==8?1e9:Lim<E>::hi())); o.out.push_back(iout<E>(w,h,b)); o.desc=strf("bands %u",b); o.run=[](Env& e) { I<E>(e.out[0]).setTo(I<E>(e.in[0])); }; return o; }
template<class E> Op print_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t w,h; op_size(r,go,w,h,true); double lo=std::max(Lim<E>::lo(),-1000.0),hi=std::min(1000.0,Lim<E>::hi()); o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi))); o.in.push_back(gray<E>(rand_mat<E>(r,w,h,lo,hi))); o.run=[](Env& e) { print(G<E>(e.in[0])); print_difference(G<E>(e.in[0]),G<E>(e.in[1])); }; return o; }
template<class K> Op kernel_op(Rng& r, const GenOpt&, const std::string& fam) { Op o=new_op(fam); double s; int w; switch(r.range(0,2)) { case 0: s=r.real(.2,6); w=-1; break; case 1: s=0; w=(int)r.range(2,25); break; default: s=r.real(.3,5); w=(int)r.range(1,25); } uint32_t n=(uint32_t)r.range(1,30); o.desc=strf("sigma %g width %d flat %u",s,w,n);
    o.run=[=](Env& e) { Kernel1D<K> a=FactoryKernel::gaussian1D<K>(s,w); Kernel2D<K> b=FactoryKernel::gaussian2D<K>(s,w); Kernel1D<K> t=FactoryKernel::table1D<K>(n),m=FactoryKernel::mean1D<K>(n); Kernel1D<K> c2(a); Kernel2D<K> d; d=b; c2=t; Kernel1D<K> f(3,1); f.reshape(n,n/2); f=a; auto x=f.element_max(),y=b.element_abs_min(); auto z=d.sum(); print_kernel(a); print_kernel(b); Untrack u; for(auto q:{&a,&t,&m,&c2,&f}) { e.text+=strf("[%u %u]",q->width,q->offset); e.text.append((const char*)q->data.data,q->data.size*sizeof(K)); } e.text+=strf("[%u %u]",d.width,d.offset); e.text.append((const char*)d.data.data,d.data.size*sizeof(K)); e.text+=strf("%.9g %.9g %.9g",(double)x,(double)y,(double)z); }; return o; }
static Op otsu_hist_op(Rng& r, const GenOpt&, const std::string& fam) { Op o=new_op(fam); auto hg=std::make_shared<GrowArray<uint32_t>>((uint32_t)r.range(1,300)); u64 total=0; for(uint32_t k=0;k<hg->size;k++) { (*hg)[k]=r.chance(.4)?(uint32_t)r.range(0,500):0; total+=(*hg)[k]; } if(!total) { (*hg)[0]=7; total=7; } bool o2=r.chance(.5),down=r.chance(.5); double tu=r.pick({0.0,1.0}),sc=r.pick({1.0,.9}); u64 hh=hbytes(hg->data,hg->size*4); o.desc=strf("bins %u otsu2 %d down %d tuning %g scale %g content %llx",hg->size,o2,down,tu,sc,(unsigned long long)hh);
    o.obj_key=strf("%d%d%g%g",o2,down,tu,sc); o.make_obj=[=]()->Any{ return std::make_shared<ComputeOtsu>(o2,tu,down,sc); }; o.copying=copying<ComputeOtsu>(); o.run=[=](Env& e) { ComputeOtsu& c=*(ComputeOtsu*)e.obj; c.compute(*hg,(uint32_t)total); Untrack u; e.text+=strf("%.17g %.17g",c.threshold,c.variance); if(hbytes(hg->data,hg->size*4)!=hh) e.text+=" histogram changed"; }; return o; }
static Op sets_op(Rng& r, const GenOpt& go, const std::string& fam) { Op o=new_op(fam); uint32_t bs=(uint32_t)r.pick({1,3,7,50}); std::vector<int> plan; for(int k=0;k<(go.fixed?30:(int)r.range(1,20));k++) plan.push_back(go.fixed?25:(int)r.range(0,25)); u64 s=r.next(); o.desc=strf("block %u sets %zu seed %llu",bs,plan.size(),(unsigned long long)s); o.obj_key=strf("%u",bs); o.make_obj=[=]()->Any{ return std::make_shared<PackedSet<Point2D<S32>>>(bs); }; o.copying=copying<PackedSet<Point2D<S32>>>();
    o.run=[=](Env& e) { auto& p=*(PackedSet<Point2D<S32>>*)e.obj; Rng q(s); p.clear(); for(int n:plan) { p.start_new_set(); for(int k=0;k<n;k++) p.push_tail(Point2D<S32>((int)q.range(0,99),k)); if(q.chance(.2)) p.remove_tail(); } Untrack u; for(uint32_t i=0;i<p.number_of_sets();i++) { std::vector<Point2D<S32>> v; p.load_set(i,v); e.text+=strf("#%zu",v.size()); for(auto& a:v) e.text+=strf(" %d,%d",a.x,a.y); } };
    o.buffers=[](Env& e,std::vector<const void*>& v) { auto& p=*(PackedSet<Point2D<S32>>*)e.obj; for(uint32_t i=0;i<p._number_of_blocks;i++) v.push_back(p.blocks[i]); }; return o; }
typedef const std::string S; typedef const GenOpt Q;
template<class E> void typed(std::vector<Family>& v, bool uni) {
    auto add=[&](const char* base, bool obj, bool empty, std::function<Op(Rng&,const GenOpt&,const std::string&)> f) { std::string n=tn1<E>(base); v.push_back(Family{n,obj,false,empty,[n,f](Rng& r,const GenOpt& g){ return f(r,g,n); }}); };
    add("statistics",false,false,[](Rng& r,Q& g,S& n){ return stat_op<E>(r,g,n); }); add("histogram",true,true,[](Rng& r,Q& g,S& n){ return hist_op<E>(r,g,n); });
    add("fill",false,true,[](Rng& r,Q& g,S& n){ return fill_op<E>(r,g,n,0); }); add("fill.border",false,true,[](Rng& r,Q& g,S& n){ return fill_op<E>(r,g,n,1); }); if(uni) add("fill.uniform",false,true,[](Rng& r,Q& g,S& n){ return fill_op<E>(r,g,n,2); });
    add("fill.interleaved",false,true,[](Rng& r,Q& g,S& n){ return ifill_op<E>(r,g,n); }); add("convert.average",false,true,[](Rng& r,Q& g,S& n){ return avg_op<E>(r,g,n); });
    add("border.read",false,false,[](Rng& r,Q& g,S& n){ return border_op<E>(r,g,n); }); add("copy",false,true,[](Rng& r,Q& g,S& n){ return copy_op<E>(r,g,n); }); add("copy.views",false,true,[](Rng& r,Q& g,S& n){ return dup_op<E>(r,g,n); }); add("set.interleaved",false,true,[](Rng& r,Q& g,S& n){ return setto_op<E>(r,g,n); });
}
static FamilyReg reg([](std::vector<Family>& v) {
#if VH_PART == 2
    typed<S32>(v,true); typed<F32>(v,true); typed<F64>(v,true); 
});
#else
    typed<U8>(v,true); typed<S16>(v,true); typed<U16>(v,true); 
    auto add=[&](const std::string& n, bool obj, std::function<Op(Rng&,const GenOpt&,const std::string&)> f) { v.push_back(Family{n,obj,false,true,[n,f](Rng& r,const GenOpt& g){ return f(r,g,n); }}); };
    add("print<U8>",false,[](Rng& r,Q& g,S& n){ return print_op<U8>(r,g,n); }); add("print<F32>",false,[](Rng& r,Q& g,S& n){ return print_op<F32>(r,g,n); });
    add("kernel<S32>",false,[](Rng& r,Q& g,S& n){ return kernel_op<S32>(r,g,n); }); add("kernel<F32>",false,[](Rng& r,Q& g,S& n){ return kernel_op<F32>(r,g,n); }); add("kernel<F64>",false,[](Rng& r,Q& g,S& n){ return kernel_op<F64>(r,g,n); });
    add("otsu.histogram",true,[](Rng& r,Q& g,S& n){ return otsu_hist_op(r,g,n); }); add("packed.sets",true,[](Rng& r,Q& g,S& n){ return sets_op(r,g,n); });
});
#endif
}
