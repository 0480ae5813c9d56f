// Reference Gaussian kernels, from the definitions (density, default sigma/width rules, integer conversion).
#pragma once
#include "img.hpp"
namespace vh {
inline double ref_sigma_for_radius(double radius,int order) { return (radius*2+1)/(5+0.8*order); }
inline i64 ref_radius_for_sigma(double sigma,int order) { return (i64)std::ceil((((5+0.8*order)*sigma)-1)/2); }
// normalised density samples; sigma / width as given by the caller (<=0: derived)
inline std::vector<long double> ref_gauss1d(double sigma, i64 width) {
    if(width<=0) width=ref_radius_for_sigma(sigma,0)*2+1; else if(sigma<=0) sigma=ref_sigma_for_radius((double)(width/2),0);
    std::vector<long double> k((size_t)width); long double s=0; long double centre=(width-1)/2.0L;
    for(i64 i=0;i<width;i++) { long double d=i-centre; k[i]=expl(-d*d/(2.0L*sigma*sigma)); s+=k[i]; }
    for(auto&v:k) v/=s; return k;
}
// integer kernel: scaled so that the smallest entry (but at least 1% of the largest) becomes one, then truncated
template<class K> void ref_kernel_values(const std::vector<long double>& kd, std::vector<K>& out, bool& ambiguous) {
    out.resize(kd.size()); ambiguous=false;
    if(IsF<K>::v) { for(size_t i=0;i<kd.size();i++) out[i]=(K)kd[i]; return; }
    long double mx=0,mn=1e300L; for(auto v:kd) { mx=std::max(mx,v); mn=std::min(mn,v); } long double m=std::max(mn,mx/100.0L);
    for(size_t i=0;i<kd.size();i++) { long double q=kd[i]/m; long double n=roundl(q); if(fabsl(q-n)<1e-6L*std::max(1.0L,n)) { out[i]=(K)n; if(!(kd[i]==mn&&m==mn)) ambiguous=true; } else out[i]=(K)floorl(q); }
}
}
