// Reference labelling and boundaries of binary images (flood fill and border walks on a padded copy), and binary image generators.
#pragma once
#include "img.hpp"
#include <boofcv/contour.h>
#include <deque>
namespace vh {
typedef std::pair<int,int> Pt;
struct BlobRef { uint32_t label; Pt first; std::vector<Pt> walk; std::set<Pt> boundary; std::vector<std::set<Pt>> holes; std::vector<std::vector<Pt>> holeWalks; };
struct ContourRef { Mat<S32> labels; std::vector<BlobRef> blobs; size_t holes=0; };

static const int DX8[8]={1,1,0,-1,-1,-1,0,1}, DY8[8]={0,1,1,1,0,-1,-1,-1};
inline void flood(const Mat<U8>& m, Mat<int>& id, int x, int y, int v, bool eight) {
    std::vector<Pt> st; st.push_back(Pt(x,y)); id(x,y)=v; U8 col=m(x,y);
    while(!st.empty()) { Pt p=st.back(); st.pop_back(); for(int d=0;d<8;d+=eight?1:2) { int a=p.first+DX8[d],b=p.second+DY8[d]; if(a<0||b<0||a>=(int)m.w||b>=(int)m.h||m(a,b)!=col||id(a,b)) continue; id(a,b)=v; st.push_back(Pt(a,b)); } }
}
// walk around the boundary: at each pixel turn clockwise from a known background neighbour until the next foreground pixel
inline std::vector<Pt> walk_boundary(const Mat<U8>& m, Pt start, int bgdir, bool eight) {
    std::vector<Pt> out; int step=eight?1:2; Pt p=start; int b=bgdir; std::set<std::pair<Pt,int>> seen; bool moved=false;
    // state: pixel and direction of the background pixel from which the clockwise search begins
    std::pair<Pt,int> s0;
    for(;;) {
        int d=b; int k=0; for(;k<8/step;k++) { d=(d+step)%8; if(m(p.first+DX8[d],p.second+DY8[d])) break; }
        if(k==8/step) { out.push_back(p); return out; }                       // isolated pixel
        // d is the direction of the next boundary pixel; (p,d) identifies the step
        std::pair<Pt,int> st(p,d); if(!moved) { s0=st; moved=true; } else if(st==s0) return out;
        out.push_back(p);
        Pt q(p.first+DX8[d],p.second+DY8[d]); int lb=(d+8-step)%8; Pt bp(p.first+DX8[lb],p.second+DY8[lb]);
        // background pixel bp seen from q (8 rule), or the side it lies on (4 rule: bp is diagonal to q, the search begins to the left of the move)
        if(eight) { for(int e=0;e<8;e++) if(q.first+DX8[e]==bp.first&&q.second+DY8[e]==bp.second) b=e; }
        else b=(d+8-4)%8;   // the first direction examined is b+2 = d-2: a left turn
        p=q; if(out.size()>(size_t)m.w*m.h*8+16) return out;
    }
}
inline ContourRef contour_ref(const Mat<U8>& in, bool eight) {
    ContourRef R; R.labels=Mat<S32>(in.w,in.h,0); Mat<U8> m(in.w+2,in.h+2,0); for(uint32_t y=0;y<in.h;y++) for(uint32_t x=0;x<in.w;x++) m(x+1,y+1)=in(x,y)?1:0;
    Mat<int> id(m.w,m.h,0); int nf=0, nb=1000000; std::map<int,Pt> bgfirst;
    for(uint32_t y=0;y<m.h;y++) for(uint32_t x=0;x<m.w;x++) if(!id(x,y)) { if(m(x,y)) { nf++; flood(m,id,x,y,nf,eight); BlobRef b; b.label=nf; b.first=Pt(x,y); R.blobs.push_back(b); } else { nb++; flood(m,id,x,y,nb,!eight); bgfirst[nb]=Pt(x,y); } }
    for(uint32_t y=0;y<in.h;y++) for(uint32_t x=0;x<in.w;x++) if(m(x+1,y+1)) R.labels(x,y)=id(x+1,y+1);
    // pixels of blob L next to background region B
    std::map<std::pair<int,int>,std::set<Pt>> touch; int st=eight?2:1;     // dual adjacency
    for(uint32_t y=1;y+1<m.h;y++) for(uint32_t x=1;x+1<m.w;x++) if(m(x,y)) for(int d=0;d<8;d+=st) { int a=x+DX8[d],b=y+DY8[d]; if(!m(a,b)) touch[std::make_pair(id(x,y),id(a,b))].insert(Pt((int)x-1,(int)y-1)); }
    for(auto& b:R.blobs) { int out=id(b.first.first,b.first.second-1); b.boundary=touch[std::make_pair((int)b.label,out)]; b.walk=walk_boundary(m,b.first,6,eight); for(auto&p:b.walk) { p.first--; p.second--; } }
    for(auto& kv:bgfirst) { if(kv.first==1000001) continue; Pt f=kv.second; int owner=id(f.first,f.second-1); BlobRef& b=R.blobs[owner-1]; b.holes.push_back(touch[std::make_pair(owner,kv.first)]); std::vector<Pt> wk=walk_boundary(m,Pt(f.first,f.second-1),2,eight); for(auto&p:wk) { p.first--; p.second--; } b.holeWalks.push_back(wk); R.holes++; }
    for(auto& b:R.blobs) { b.first.first--; b.first.second--; }
    return R;
}
inline bool same_cycle(const std::vector<Pt>& a, const std::vector<Pt>& b) {
    if(a.size()!=b.size()) return false; size_t n=a.size(); if(!n) return true;
    for(int rev=0;rev<2;rev++) for(size_t s=0;s<n;s++) { if(b[s]!=a[0]) continue; size_t i=0; for(;i<n;i++) { size_t j=rev?(s+n-i)%n:(s+i)%n; if(a[i]!=b[j]) break; } if(i==n) return true; }
    return false;
}
// ---------------------------------------------------------------- generators
inline Mat<U8> binary_pattern(Rng& r, uint32_t w, uint32_t h, int* modep=nullptr) {
    Mat<U8> m(w,h,0); if(!w||!h) return m; int mode=(int)r.range(0,11); if(modep) *modep=mode; double dens=r.pick({0.05,0.2,0.35,0.45,0.5,0.6,0.75,0.9,0.97});
    auto rect=[&](int x0,int y0,int x1,int y1,int v){ for(int y=std::max(0,y0);y<std::min((int)h,y1);y++) for(int x=std::max(0,x0);x<std::min((int)w,x1);x++) m(x,y)=v==2?!m(x,y):v; };
    switch(mode) {
        case 0: case 1: case 2: for(auto&v:m.d) v=r.chance(dens); break;
        case 3: { for(auto&v:m.d) v=r.chance(.5); for(int it=0;it<(int)r.range(1,3);it++) { Mat<U8> n=m; for(int y=0;y<(int)h;y++) for(int x=0;x<(int)w;x++) { int s=0; for(int d=0;d<8;d++) { int a=x+DX8[d],b=y+DY8[d]; if(a>=0&&b>=0&&a<(int)w&&b<(int)h) s+=m(a,b); } n(x,y)=s>4||(s==4&&m(x,y)); } m=n; } break; }
        case 4: for(int k=0;k<(int)r.range(1,12);k++) { int x=(int)r.range(-2,w),y=(int)r.range(-2,h); rect(x,y,x+(int)r.range(1,w),y+(int)r.range(1,h),2); } break;
        case 5: { int g=(int)r.range(1,3); for(int k=0;;k++) { int a=k*g; if(2*a>=(int)std::max(w,h)) break; rect(a,a,(int)w-a,(int)h-a,k%2==0); } if(r.chance(.5)) for(int k=0;k<3;k++) m((i64)r.range(0,w-1),(i64)r.range(0,h-1))^=1; break; }   // nested rings
        case 6: { int x=0,y=0,d=0,x0=0,y0=0,x1=(int)w-1,y1=(int)h-1; m(0,0)=1; int dx[4]={1,0,-1,0},dy[4]={0,1,0,-1}; y0=2; for(int k=0;k<(int)(w*h);k++) { int a=x+dx[d],b=y+dy[d]; if(a<x0||a>x1||b<y0-(d==0&&k<(int)w?2:0)||b>y1) { switch(d) { case 0: x1-=2; break; case 1: y1-=2; break; case 2: x0+=2; break; default: y0+=2; } d=(d+1)%4; a=x+dx[d]; b=y+dy[d]; if(a<0||b<0||a>=(int)w||b>=(int)h||m(a,b)) break; } x=a;y=b;m(x,y)=1; } break; }  // spiral
        case 7: for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) m(x,y)=((x+y)%2==0)^(r.chance(.06)); break;                     // near checkerboard
        case 8: for(int k=0;k<(int)r.range(1,10);k++) { int x=(int)r.range(0,w-1),y=(int)r.range(0,h-1),d=(int)r.range(0,7); for(int i=0;i<(int)r.range(2,40);i++) { m(x,y)=1; if(r.chance(.15)) d=(d+(int)r.range(1,7))%8; int a=x+DX8[d],b=y+DY8[d]; if(a<0||b<0||a>=(int)w||b>=(int)h) break; x=a;y=b; } } break;   // thin curves
        case 9: for(auto&v:m.d) v=1; for(auto&v:m.d) if(r.chance(.08)) v=0; break;
        case 10: { uint32_t p=(uint32_t)r.range(2,4); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) m(x,y)=(y%p==0)||(x%(2*p)==0&&r.chance(.7)); break; }   // combs and ladders
        default: if(r.chance(.5)) for(auto&v:m.d) v=1; else if(r.chance(.3)) m((i64)r.range(0,w-1),(i64)r.range(0,h-1))=1; break;
    }
    return m;
}
// more than 65536 blobs, points of one contour, or holes of one blob
inline Mat<U8> huge_pattern(Rng& r, int kind) { uint32_t w,h; if(kind==1) { w=(uint32_t)r.range(300,420); h=150000/w+1; } else { w=(uint32_t)r.range(300,900); h=2*((66500+(uint32_t)r.range(0,3000))/(w/2))+3; if(r.chance(.3)) std::swap(w,h); } Mat<U8> m(w,h,0);
    if(kind==0) { uint32_t a=(uint32_t)r.range(0,1),b=(uint32_t)r.range(0,1); for(uint32_t y=b;y<h;y+=2) for(uint32_t x=a;x<w;x+=2) m(x,y)=1; }
    else if(kind==1) { for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) m(x,y)=(y%2==0)||(x==(y/2%2?0:w-1)); }
    else { for(auto& v:m.d) v=1; for(uint32_t y=1;y+1<h;y+=2) for(uint32_t x=1;x+1<w;x+=2) m(x,y)=0; }
    return m; }
inline const char* huge_name(int k) { static const char* n[]={"more.than.65536.blobs","contour.of.more.than.65536.points","more.than.65536.holes"}; return n[k]; }
inline std::string draw(const Mat<U8>& m) { std::string s; if(m.d.size()>420) return "(large)"; for(uint32_t y=0;y<m.h;y++) { if(y) s+='/'; for(uint32_t x=0;x<m.w;x++) s+=m(x,y)?'#':'.'; } return s; }
// every image of w*h pixels (k-th one)
inline Mat<U8> kth_image(uint32_t w, uint32_t h, u64 k) { Mat<U8> m(w,h); for(size_t i=0;i<m.d.size();i++) m.d[i]=(k>>i)&1; return m; }
inline void binary_size(Rng& r, uint32_t& w, uint32_t& h) { rand_size(r,w,h,r.chance(.1)?90:30); }
// the image of case `idx` of the part of the run that enumerates all small images; false when it is past the end
inline bool enum_image(u64 idx, u64 per, u64 sub, Mat<U8>& out) {
    static const uint32_t S[][2]={{1,1},{2,1},{1,2},{2,2},{3,1},{1,3},{5,1},{1,5},{3,2},{2,3},{3,3},{4,2},{2,4},{4,3},{3,4},{5,2},{2,5},{6,2},{2,6},{4,4}}; u64 k=idx*per+sub;
    for(auto&s:S) { u64 n=1ull<<(s[0]*s[1]); if(k<n) { out=kth_image(s[0],s[1],k); return true; } k-=n; } return false;
}
const u64 ENUM_TOTAL=2+4+4+16+8+8+32+32+64+64+512+256+256+4096+4096+1024+1024+4096+4096+65536;
}
