// Otsu's criterion, evaluated for every split.
#pragma once
#include "img.hpp"
#include <boofcv/binary_ops.h>
namespace vh {
struct OtsuRef { std::vector<uint32_t> splits; std::vector<long double> mids; long double best=0; u64 total=0; size_t n=0; };   // all splits whose variance is the largest up to rounding
inline OtsuRef otsu_ref(const std::vector<u64>& hist) {
    OtsuRef R; R.n=hist.size(); long double S=0; for(size_t i=0;i<hist.size();i++) { R.total+=hist[i]; S+=(long double)i*hist[i]; }
    struct C { uint32_t i; long double v,mid,err; }; std::vector<C> cs; u64 wb=0; long double sb=0;
    for(size_t i=0;i<hist.size();i++) { wb+=hist[i]; sb+=(long double)i*hist[i]; if(!wb) continue; u64 wf=R.total-wb; if(!wf) break; long double mb=sb/wb, mf=(S-sb)/wf, d=mf-mb, v=(long double)wb*wf*d*d; C q={(uint32_t)i,v,(mb+mf)/2,2*d*(long double)wb*wf*(long double)R.n*1e-12L}; cs.push_back(q); R.best=std::max(R.best,v); }
    for(auto& q:cs) if(q.v>=R.best*(1-1e-9L)-q.err) { R.splits.push_back(q.i); R.mids.push_back(q.mid); }
    return R;
}
// the values the documented post-processing may give for a raw threshold: an interval when a rounding boundary is near
struct IntSet { std::vector<std::pair<long double,long double>> v; void add(long double a, long double b) { v.push_back(std::make_pair(a,b)); } bool count(long double x) const { for(auto& p:v) if(x>=p.first&&x<=p.second) return true; return false; } long double any() const { return v.empty()?0:v[0].first; } };
inline void otsu_adjust(long double raw, long double var, double tuning, bool down, double scale, IntSet& out) {
    long double q=(long double)tuning*raw*(long double)tuning*raw/var+0.5L, e=1e-9L*std::max(1.0L,q), a1=floorl(q-e), a2=floorl(q+e);
    long double t1=raw+(down?-a2:a1), t2=raw+(down?-a1:a2); t1=(long double)scale*std::max(t1,0.0L)+0.5L; t2=(long double)scale*std::max(t2,0.0L)+0.5L; e=1e-9L*std::max(1.0L,t2); out.add(floorl(t1-e),floorl(t2+e));
}
}
