// Reference box average in one direction (window clipped to the image).
#pragma once
#include "convref.hpp"
namespace vh {
template<class E> Mat<E> ref_mean(const Mat<E>& in, uint32_t radius, bool horiz, std::vector<long double>& ex) {
    typedef typename Acc<E>::t A; Mat<E> o(in.w,in.h); ex.assign(in.d.size(),0);
    i64 n=horiz?in.w:in.h, lines=horiz?in.h:in.w; bool pre=std::min<i64>(n,2*(i64)radius+1)>48; std::vector<A> ps((size_t)n+1);     // wide windows: differences of exact (or long double) prefix sums
    for(i64 l=0;l<lines;l++) { if(pre) for(i64 p=0;p<n;p++) ps[p+1]=ps[p]+(A)(horiz?in(p,l):in(l,p));
        for(i64 p=0;p<n;p++) { i64 a=std::max<i64>(0,p-(i64)radius),b=std::min<i64>(n-1,p+(i64)radius); A s=0; if(pre) s=ps[b+1]-ps[a]; else for(i64 q=a;q<=b;q++) s+=(A)(horiz?in(q,l):in(l,q)); A cnt=(A)(b-a+1);
            size_t i=horiz?(size_t)l*in.w+p:(size_t)p*in.w+l; if(IsF<E>::v) { ex[i]=(long double)s/(long double)cnt; o.d[i]=(E)ex[i]; } else { i64 S=(i64)s,N=(i64)cnt; o.d[i]=(E)((S+N/2)/N); } } }
    return o;
}
// both directions; ex holds the exact value for floating point
template<class E> Mat<E> ref_mean2(const Mat<E>& in, uint32_t radius, std::vector<long double>& ex) {
    std::vector<long double> t; Mat<E> m=ref_mean(in,radius,true,t); if(!IsF<E>::v) return ref_mean(m,radius,false,ex);
    Mat<long double> mm(in.w,in.h); mm.d=t; ref_mean<long double>(mm,radius,false,ex); Mat<E> o(in.w,in.h); for(size_t i=0;i<o.d.size();i++) o.d[i]=(E)ex[i]; return o;
}
template<class E> long double mean_tol(const Mat<E>& in, uint32_t radius) { if(!IsF<E>::v) return 0; long double mx=0; for(auto v:in.d) mx=std::max(mx,std::fabs((long double)v)); return std::numeric_limits<E>::epsilon()*mx*(4*((long double)in.w+in.h)+8*(long double)radius+36)+std::numeric_limits<E>::min(); }
}
