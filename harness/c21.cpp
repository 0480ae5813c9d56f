// C21: length settings and squared distances.
#include "vh.hpp"
#include <boofcv/config_types.h>
#include <boofcv/geometry_types.h>
namespace vh {
using namespace boofcv;
void setup_run() {}
static double len(Rng& r) { switch(r.range(0,7)) { case 0: return -1; case 1: return 0; case 2: return -r.real(0,100); case 3: return r.real(0,100); case 4: return (double)r.range(0,50)+.5; case 5: return (double)r.range(0,5000); case 6: return (double)r.range(0,100)+.5-1e-9; default: return (double)r.range(0,2000000); } }
static double frac(Rng& r) { switch(r.range(0,6)) { case 0: return -1; case 1: return 0; case 2: return -r.real(0,2); case 3: return r.real(0,1); case 4: return r.real(0,5); case 5: return r.pick({0.5,0.25,0.1,1.0,2.0}); default: return 1e-6; } }
static double tot(Rng& r) { switch(r.range(0,4)) { case 0: return 0; case 1: return (double)r.range(1,100); case 2: return (double)r.range(1,100000); case 3: return r.real(0,1000); default: return (double)r.range(1,7); } }
static void lengths(Ctx& c) {
    Rng& r=c.r; int how=(int)r.range(0,3); double L=len(r),F=frac(r); int M=(int)r.range(-3,60); ConfigLength q;
    if(how==0) { q=ConfigLength::fixed(L); F=-1; c.ev("fixed"); } else if(how==1) { q=ConfigLength::relative(F,M); L=M; c.ev("relative"); } else if(how==2) { q=ConfigLength(L,F); } else { L=-1;F=-1; }
    double T=tot(r); c.note("length %.17g fraction %.17g of %.17g (made %d)",L,F,T,how); c.hash(hbytes(&L,8)); c.hash(hbytes(&F,8)); c.hash(hbytes(&T,8));
    if(q.isRelative()!=(F>=0)||q.isFixed()!=(F<0)) c.fail("length-kind","isRelative %d isFixed %d",(int)q.isRelative(),(int)q.isFixed());
    double g=q.compute(T); double e= F>=0? std::max(F*T,L) : L; if(!(std::fabs(g-e)<=1e-12*std::fabs(e))) c.fail("length","resolves to %.17g, expected %.17g",g,e); if(F>=0&&g<L) c.fail("length-minimum","%.17g is below the minimum %.17g",g,L);
    if(F<0) { double T2=tot(r); if(q.compute(T2)!=g||q.computeI(T2)!=q.computeI(T)) c.fail("fixed-depends-on-size","a length in pixels depends on the size"); }
    int gi=q.computeI(T); if(e<0) { if(gi!=-1) c.fail("integer-negative","a negative length resolves to %d",gi); c.ev("negative"); } else { double f=std::floor(e); double fr=e-f; int ei=(int)(fr>=.5?f+1:f); if(gi!=ei&&!(std::fabs(fr-.5)<1e-9*(1+f)&&(gi==(int)f||gi==(int)f+1)&&fr!=.5)) c.fail("integer","resolves to %d, expected %d (%.17g)",gi,ei,e); if(fr==.5) c.ev("half"); c.ev("integer"); }
    if(L>=0) { double fr=L-std::floor(L); int ei=(int)(fr>=.5?std::floor(L)+1:std::floor(L)); if(q.getLengthI()!=ei&&std::fabs(fr-.5)>1e-8) c.fail("length-integer","length as integer is %d, expected %d",q.getLengthI(),ei); }
    bool th=false; try { q.checkValidity(); } catch(const std::invalid_argument&) { th=true; } if(th!=(L<0&&F<0)) c.fail("validity","length %g fraction %g: %s",L,F,th?"rejected":"accepted"); c.ev(th?"rejected":"valid"); if(F>=0&&F*T<L) c.ev("minimum.applies");
}
// any first point; the second one so far away at most that the squared distance fits the result
template<class E> void dist(Ctx& c) {
    Rng& r=c.r; const bool fl=std::is_floating_point<E>::value; typedef typename TypeInfo<E>::sum_type S; const long double cap= fl? 1e30L : (long double)std::numeric_limits<S>::max();
    const long double lo=fl?-1e12L:(long double)std::numeric_limits<E>::lowest(), hi=fl?1e12L:(long double)std::numeric_limits<E>::max();
    auto clampv=[&](long double v){ return v<lo?lo:v>hi?hi:v; };
    auto any=[&]()->long double { switch(r.range(0,5)) { case 0: return clampv(lo+r.range(0,3)); case 1: return clampv(hi-r.range(0,3)); case 2: return clampv((long double)r.range(-5,5)); case 3: return clampv(fl?r.real(-1000,1000):(double)r.range(-16000,16000)); default: return clampv(lo+(hi-lo)*(long double)r.unit()); } };
    auto step=[&](long double room)->long double { long double m=sqrtl(room), d; switch(r.range(0,6)) { case 0: d=m; break; case 1: d=m*(long double)r.unit(); break; case 2: d=sqrtl(room/2); break; case 3: d=0; break; case 4: d=(long double)r.range(0,5); break; default: d=expl(logl(m+1)*(long double)r.unit())-1; } d=fl?d:floorl(d); if(!fl) while(d*d>room) d-=1; return r.chance(.5)?d:-d; };
    E x=(E)any(),y=(E)any(); long double dx0=step(cap),a0=clampv((long double)x+dx0); E a=(E)a0; long double ex=(long double)a-x; long double dy0=step(std::max(0.0L,cap-ex*ex)); E b=(E)clampv((long double)y+dy0);
    { long double ey=(long double)b-y; if(ex*ex+ey*ey>cap) { b=y; if(ex*ex>cap) a=x; } }
    if(r.chance(.1)) { a=x; if(r.chance(.5)) b=y; } if(r.chance(.3)) { std::swap(x,y); std::swap(a,b); }
    Point2D<E> p(x,y),q(a,b); c.note("points %s (%.17g,%.17g) (%.17g,%.17g)",TName<E>::n(),(double)x,(double)y,(double)a,(double)b); c.hash(hbytes(&x,sizeof x)); c.hash(hbytes(&y,sizeof x)); c.hash(hbytes(&a,sizeof x)); c.hash(hbytes(&b,sizeof x));
    if(p.x!=x||p.y!=y) c.fail("point","a point does not hold its coordinates"); { Point2D<E> z; if(z.x!=0||z.y!=0) c.fail("point-default","a new point is not at the origin"); }
    auto d=p.distanceSq(q),d2=q.distanceSq(p),d3=p.distanceSq(a,b); if(d!=d2||d!=d3) c.fail("distance-symmetry","distances %.17g %.17g %.17g",(double)d,(double)d2,(double)d3);
    long double dx=(long double)a-x,dy=(long double)b-y,e=dx*dx+dy*dy; if(fl? fabsl(d-e)>e*8*std::numeric_limits<E>::epsilon() : (long double)d!=e) c.fail("distance","distance is %.20Lg, expected %.20Lg",(long double)d,e); if((d==0)!=(x==a&&y==b)&&(!fl||e>1e-30L)) c.fail("distance-zero","distance zero does not match equality"); if(d<0) c.fail("distance-negative","negative distance"); c.ev("distances"); if(d==0) c.ev("equal.points"); if(!fl&&!std::is_signed<E>::value) c.ev("unsigned.points"); if(!fl&&(long double)d>cap/2) c.ev("far.apart");
}
void run_case(Ctx& c) { c.nontrivial(); for(int k=0;k<16;k++) { c.desc.clear(); switch(c.r.range(0,10)) { case 10: dist<uint16_t>(c); break; case 0: dist<uint8_t>(c); break; case 1: dist<int16_t>(c); break; case 2: dist<int32_t>(c); break; case 3: dist<float>(c); break; case 4: dist<double>(c); break; case 5: dist<int64_t>(c); break; default: lengths(c); } } }
}
