// C24: border accessors are total functions on coordinates.
#include "convref.hpp"
namespace vh {
void setup_run() { large().p=0.006; }
template<class E> void border_case(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,24); int bt=(int)r.range(0,4); double lo=Lim<E>::lo(),hi=Lim<E>::hi(); if(sizeof(E)==8&&!IsF<E>::v){lo=-1e15;hi=1e15;}
    E bv=IsF<E>::v?(E)r.real(lo,hi):(E)r.range((i64)lo,(i64)hi);
    Mat<E> in(w,h); bool seq=r.chance(.7); if(seq) for(size_t i=0;i<in.d.size();i++) in.d[i]=(E)(i+1); else in=rand_mat<E>(r,w,h,lo,hi);   // distinct values identify the pixel read
    Img<E> ii; ii.make(r,rand_kind(r),in);
    auto b=make_border<E>(bt,bv); b->setImage(*ii);
    c.note("border %s %s %ux%u %s",bname(bt),TName<E>::n(),w,h,kname(ii.kind)); c.hash(in.hash()); c.hash(bt*16+ii.kind); c.nontrivial();
    if(b->getWidth()!=w||b->getHeight()!=h) c.fail("border-shape","border reports %ux%u for a %ux%u image",b->getWidth(),b->getHeight(),w,h);
    ii.snapshot();
    auto chk=[&](i64 x,i64 y){ E g=b->get((int32_t)x,(int32_t)y), e=ref_border_get(in,bt,bv,x,y); if(memcmp(&g,&e,sizeof(E))) c.fail(std::string("border-value:")+bname(bt),"(%lld,%lld) of %ux%u gives %s expected %s",(long long)x,(long long)y,w,h,sv(g).c_str(),sv(e).c_str()); c.ev("reads"); if(x<0||y<0||x>=w||y>=h) { c.ev("reads.outside"); if(x< -(i64)w||x>=2*(i64)w||y< -(i64)h||y>=2*(i64)h) c.ev("reads.far"); } };
    // every coordinate within a period or two for small images, random ones otherwise
    if((u64)w*h<=150) { for(i64 y=-2*(i64)h-2;y<=3*(i64)h+1;y++) for(i64 x=-2*(i64)w-2;x<=3*(i64)w+1;x++) chk(x,y); c.ev("small.images.exhaustive"); }
    else { for(i64 x=-2*(i64)w-2;x<=3*(i64)w+1;x++) chk(x,r.range(-2*(i64)h,3*h)); for(i64 y=-2*(i64)h-2;y<=3*(i64)h+1;y++) chk(r.range(-2*(i64)w,3*w),y); }
    for(int k=0;k<20;k++) { i64 m=r.pick({(i64)10,(i64)1000,(i64)1000000}); chk(r.range(-m,m),r.range(-m,m)); }
    check_input(c,ii,"border-image");
    // a change of the image is visible at once; another image can be set
    for(int k=0;k<6;k++) { uint32_t x=(uint32_t)r.range(0,w-1),y=(uint32_t)r.range(0,h-1); E v=garbage<E>(r); in(x,y)=v; ii.put(x,y,v); chk(x,y); chk(r.range(-3*(i64)w,4*w),r.range(-3*(i64)h,4*h)); for(int q=0;q<6;q++) chk((i64)x+r.range(-2,2)*w,(i64)y+r.range(-2,2)*h); }
    if(r.chance(.5)) { uint32_t w2,h2; rand_size(r,w2,h2,24); w=w2;h=h2; in=rand_mat<E>(r,w,h,lo,hi); Img<E> i2; i2.make(r,rand_kind(r),in); b->setImage(*i2); if(b->getWidth()!=w||b->getHeight()!=h) c.fail("border-shape","wrong shape after setImage"); for(int k=0;k<60;k++) chk(r.range(-2*(i64)w,3*w),r.range(-2*(i64)h,3*h)); c.ev("image.switched"); }
    c.ev((std::string("rule.")+bname(bt)).c_str()); c.state(hcomb((u64)bt*100+ii.kind,((u64)std::min(w,12u)<<8)|std::min(h,12u)));
}
void run_case(Ctx& c) {
    if(c.r.chance(.02)) { // the two rules without an accessor are refused
        BorderType t=c.r.pick({BorderType::SKIP,BorderType::NORMALIZED}); bool thrown=false; try { auto b=FactoryImageBorder::create_SB<U8>(t); } catch(const std::invalid_argument&) { thrown=true; }
        if(!thrown) c.fail("border-unknown-accepted","rule %d gave an accessor",(int)t); c.ev("unknown.rules"); return; }
    switch(c.r.range(0,6)) { case 0: border_case<U8>(c); break; case 1: border_case<S16>(c); break; case 2: border_case<U16>(c); break; case 3: border_case<S32>(c); break; case 4: border_case<F64>(c); break; case 5: border_case<S64>(c); break; default: border_case<F32>(c); }
}
}
