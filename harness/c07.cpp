// C07: contours are the boundaries.
#include "contourref.hpp"
namespace vh {
void setup_run() { large().p=0.008; }
struct Lims { uint32_t mn,mx; bool inner; };
static bool adj(Pt a, Pt b, bool eight) { int dx=std::abs(a.first-b.first),dy=std::abs(a.second-b.second); return eight?std::max(dx,dy)==1:dx+dy==1; }
// a contour that must be present: closed walk over the boundary set
static void check_walk(Ctx& c, const std::vector<Pt>& got, const std::set<Pt>& want, const std::vector<Pt>& refwalk, bool eight, const char* what, const Mat<U8>& in) {
    std::set<Pt> s(got.begin(),got.end());
    if(s!=want) { Pt bad(-1,-1); bool missing=false; for(auto p:want) if(!s.count(p)) { bad=p; missing=true; break; } if(!missing) for(auto p:s) if(!want.count(p)) { bad=p; break; }
        c.fail(std::string("contour-set:")+what,"the %s contour %s (%d,%d): %zu points, boundary has %zu pixels: %s",what,missing?"misses":"contains",bad.first,bad.second,got.size(),want.size(),draw(in).c_str()); }
    if(got.size()>1) for(size_t i=0;i<got.size();i++) if(!adj(got[i],got[(i+1)%got.size()],eight)) c.fail(std::string("contour-walk:")+what,"points %zu (%d,%d) and next (%d,%d) are not neighbours: %s",i,got[i].first,got[i].second,got[(i+1)%got.size()].first,got[(i+1)%got.size()].second,draw(in).c_str());
    if(!same_cycle(got,refwalk)) c.fail(std::string("contour-order:")+what,"%zu points, walking once around the boundary takes %zu: %s",got.size(),refwalk.size(),draw(in).c_str());
}
static void check_all(Ctx& c, LinearContourLabelChang2004& alg, const Mat<U8>& m, const Mat<S32>& labels, bool eight, const Lims& L) {
    ContourRef R=contour_ref(m,eight);
    if(alg.contours.size()!=R.blobs.size()) c.fail("contour-count","%zu blobs reported, %zu exist: %s",alg.contours.size(),R.blobs.size(),draw(m).c_str());
    if(!(labels==R.labels)) c.fail("labels-disturbed","labels differ from the components: %s",draw(m).c_str());
    uint32_t sets=alg.packedPoints.number_of_sets(); if(sets!=R.blobs.size()+R.holes) c.fail("contour-sets","%u contours stored, %zu blobs and %zu holes: %s",sets,R.blobs.size(),R.holes,draw(m).c_str());
    std::set<uint32_t> used;
    auto load=[&](uint32_t i){ if(i>=sets) c.fail("contour-index","index %u of %u",i,sets); if(!used.insert(i).second) c.fail("contour-index","contour %u belongs to two blobs or twice to one",i); std::vector<Point2D<S32>> v; alg.packedPoints.load_set(i,v); std::vector<Pt> o; for(auto&p:v) o.push_back(Pt(p.x,p.y)); return o; };
    for(size_t k=0;k<R.blobs.size();k++) {
        BlobRef& b=R.blobs[k]; ContourPacked& p=alg.contours[k]; if(p.id!=k+1) c.fail("contour-id","blob %zu has id %u",k,p.id);
        std::vector<Pt> ext=load(p.externalIndex); size_t n=b.walk.size();
        bool must=n>=L.mn&&n<L.mx, mustnot=n<L.mn||n>L.mx;
        if(mustnot&&!ext.empty()) c.fail("contour-limit:external","external contour of %zu points kept with limits %u..%u",n,L.mn,L.mx);
        if(must||!ext.empty()) { check_walk(c,ext,b.boundary,b.walk,eight,"external",m); if(ext[0]!=b.first) c.fail("contour-start","external contour starts at (%d,%d), first pixel is (%d,%d): %s",ext[0].first,ext[0].second,b.first.first,b.first.second,draw(m).c_str()); c.ev("external.checked"); c.ev("contour.points",ext.size()); if(std::set<Pt>(ext.begin(),ext.end()).size()<ext.size()) c.ev("pixels.passed.twice"); } else c.ev("external.discarded");
        if(p.internalIndexes.size()!=b.holes.size()) c.fail("hole-count","blob %zu has %zu internal contours and %zu holes: %s",k,p.internalIndexes.size(),b.holes.size(),draw(m).c_str());
        // match internal contours to holes
        std::vector<char> taken(b.holes.size(),0); std::map<Pt,std::vector<size_t>> at; for(size_t q=0;q<b.holes.size();q++) at[*b.holes[q].begin()].push_back(q); size_t empties=0, mayempty=0, mustempty=0;
        for(auto&w:b.holeWalks) { size_t q=w.size(); if(!L.inner||q<L.mn||q>L.mx) mustempty++; if(!L.inner||q<L.mn||q>=L.mx) mayempty++; }
        for(uint32_t i:p.internalIndexes) { std::vector<Pt> in=load(i); if(in.empty()) { empties++; continue; } std::set<Pt> s(in.begin(),in.end()); size_t h=b.holes.size(); for(size_t q:at[*s.begin()]) if(!taken[q]&&b.holes[q]==s&&same_cycle(in,b.holeWalks[q])) { h=q; break; }
            if(h==b.holes.size()) { // say what is wrong with it
                size_t best=0; for(size_t q=0;q<b.holes.size();q++) if(!taken[q]&&b.holes[q]==s) best=q; check_walk(c,in,b.holes[best],b.holeWalks[best],eight,"internal",m); c.fail("hole-twice","two internal contours around one hole: %s",draw(m).c_str()); }
            taken[h]=1; size_t q=b.holeWalks[h].size(); if(!L.inner||q<L.mn||q>L.mx) c.fail("contour-limit:internal","internal contour of %zu points kept with limits %u..%u, inner=%d",q,L.mn,L.mx,(int)L.inner);
            if(in.size()>1) for(size_t a=0;a<in.size();a++) if(!adj(in[a],in[(a+1)%in.size()],eight)) c.fail("contour-walk:internal","not closed"); c.ev("internal.checked"); }
        if(empties<mustempty||empties>mayempty) c.fail("contour-limit:internal-empty","%zu of %zu internal contours are empty, expected %zu..%zu with limits %u..%u: %s",empties,b.holes.size(),mustempty,mayempty,L.mn,L.mx,draw(m).c_str());
        if(mustempty) c.ev("internal.discarded",mustempty);
    }
}
void run_case(Ctx& c) {
    Rng& r=c.r; const u64 PER=32; LinearContourLabelChang2004 alg(r.chance(.5)?ConnectRule::FOUR:ConnectRule::EIGHT); c.nontrivial(); u64 i=c.idx%1000000000ull; Lims all={0,std::numeric_limits<uint32_t>::max(),true};
    if(i*PER<ENUM_TOTAL) { c.note("enumerated small images %llu..",(unsigned long long)(i*PER)); c.hash(i);
        for(u64 k=0;k<PER;k++) { Mat<U8> m; if(!enum_image(i,PER,k,m)) break; Img<U8> b; b.make(r,k%8?OWNER:rand_kind(r),m); for(int e=0;e<2;e++) { alg.setConnectRule(e?EIGHT:FOUR); Img<S32> l; make_out(r,l,m.w,m.h,true); alg.process(*b,*l); check_all(c,alg,m,l.read(),e,all); c.ev("enumerated.small.images"); } }
        return; }
    int n=(int)r.range(1,4); uint32_t pw=0,ph=0; 
    for(int k=0;k<n;k++) {
        uint32_t w,h; binary_size(r,w,h); if(k&&r.chance(.5)) { w=pw;h=ph; } pw=w;ph=h; bool eight=r.chance(.5); alg.setConnectRule(eight?EIGHT:FOUR); int mode; Mat<U8> m=binary_pattern(r,w,h,&mode); bool huge=false;
        if(c.idx%4000==17&&k==0) { w=h=(uint32_t)r.range(150,260); m=Mat<U8>(w,h); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) m(x,y)= (y%2==0)||(x==(y/2%2?0:w-1)); m(w/2,h/2)=1; pw=w;ph=h; huge=true; mode=20; } int hk=i%5000==4990&&k==0?(int)(i/5000%3):-1; if(hk>=0) { m=huge_pattern(r,hk); w=m.w; h=m.h; pw=w; ph=h; mode=30+hk; c.ev(huge_name(hk)); }   // one contour of many thousands of points
        Lims L=all; if(r.chance(.5)) { switch(r.range(0,3)) { case 0: L.mn=(uint32_t)r.range(0,20); break; case 1: L.mx=(uint32_t)r.range(0,30); break; case 2: L.mn=(uint32_t)r.range(0,10); L.mx=(uint32_t)r.range(5,60); break; default: L.inner=false; } if(r.chance(.3)) L.inner=false; c.ev("limits.set"); if(!L.inner) c.ev("inner.off"); }
        if(hk>=0) L=all;
        alg.minContourSize=L.mn; alg.maxContourSize=L.mx; alg.saveInternalContours=L.inner;
        Img<U8> b; b.make(r,rand_kind(r),m); b.snapshot(); Img<S32> l; make_out(r,l,w,h,true);
        c.note("%s %ux%u mode %d limits %u..%u inner %d in=%s labels=%s %s",eight?"8":"4",w,h,mode,L.mn,L.mx,(int)L.inner,kname(b.kind),kname(l.kind),m.d.size()<200?draw(m).c_str():""); c.hash(m.hash()+eight); c.hash(L.mn*1000ull+L.mx+L.inner);
        alg.process(*b,*l); check_input(c,b,"binary"); check_out(c,l,w,h,"labels"); check_all(c,alg,m,l.read(),eight,L); if(huge) c.ev("contours.over.several.blocks");
        c.ev(eight?"rule.8":"rule.4"); c.state(hcomb(hcomb(mode,eight),hcomb(std::min<size_t>(alg.contours.size(),40),std::min<uint32_t>(alg.packedPoints.number_of_sets(),60))));
    }
}
}
