// Offline checker of the calls recorded by jvm/Driver.java: every output a native method wrote in a real Java virtual
// machine is compared bit for bit with the C++ operation on a stand-alone image.   jvmcheck <log> <out>
#include "jniops.hpp"
#include <set>
#include <map>
using namespace mj;
#include <cstdarg>
namespace vh { std::string strf(const char* fmt, ...) { char b[4096]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); return b; } }
static FILE* f; static FILE* o; static long long ncase=0; static unsigned long long evals=0; static std::set<std::string> sigs; static std::map<std::string,unsigned long long> counters; static std::string sample;
struct End {};
static unsigned rb() { int c=fgetc(f); if(c==EOF) throw End(); return (unsigned)c; }
static unsigned ri() { unsigned v=0; for(int i=0;i<4;i++) v=v<<8|rb(); return v; }
static long long rl() { unsigned long long v=ri(); return (long long)(v<<32|ri()); }
static double rd() { long long v=rl(); double d; memcpy(&d,&v,8); return d; }
static void get(U8& v) { v=(U8)rb(); }  static void get(S16& v) { unsigned a=rb(); v=(S16)(a<<8|rb()); }  static void get(S32& v) { v=(S32)ri(); }  static void get(F32& v) { unsigned u=ri(); memcpy(&v,&u,4); }
static int viol=0;
static void fail(const std::string& key, const std::string& msg, const std::string& desc) { if(viol++<20) { fprintf(o,"V\t%lld\t%s\t%s\t%s\n",ncase,key.c_str(),msg.c_str(),desc.c_str()); fflush(o); } }
template<class T> static Mat<T> mat(unsigned w, unsigned h) { Mat<T> m(w,h); for(unsigned y=0;y<h;y++) for(unsigned x=0;x<w;x++) get(m(x,y)); return m; }
template<class T> static bool same(const Mat<T>& got, const Mat<T>& want, const std::string& what, const std::string& desc) { for(uint32_t y=0;y<got.h;y++) for(uint32_t x=0;x<got.w;x++) if(memcmp(&got(x,y),&want(x,y),sizeof(T))) { fail("jvm-pixels:"+what,strf("%s in Java: pixel (%u,%u) of %ux%u is %s, the C++ operation gives %s",what.c_str(),x,y,got.w,got.h,sv(got(x,y)).c_str(),sv(want(x,y)).c_str()),desc); return false; } return true; }
static void seen(const std::string& desc, u64 h) { evals++; sigs.insert(strf("%016llx",(unsigned long long)h)); if(sample.empty()) sample=strf("case %lld: ",ncase)+desc; }
template<class T> static void thresholds(const TParam& p, unsigned n) { std::unique_ptr<InputToBinary<Gray<T>>> ref(direct<T>(p)); for(unsigned k=0;k<n;k++) { unsigned w=ri(),h=ri(); Mat<T> m=mat<T>(w,h); bool ok=rb()!=0; std::unique_ptr<Gray<T>> g(owned(m)); Gray<U8> out(w,h); bool threw=false; try { ref->process(*g,out); } catch(const std::exception&) { threw=true; }
        std::string what=tname(p.kind), desc=p.str()+strf(" image %ux%u",w,h); if(ok==threw) fail("jvm-outcome:"+what,strf("C++ %s, Java %s",threw?"throws":"succeeds",ok?"succeeds":"gets an exception"),desc); if(ok) { Mat<U8> got=mat<U8>(w,h); if(!threw) same(got,content(out),what,desc); counters["jvm.compared.threshold"]++; } else counters["jvm.both.rejected"]++; seen(desc,m.hash()); } }
template<class I,class K,class O> struct Go { static void go(const SParam& p, const std::vector<K>& kd, const Gray<I>& g, Gray<O>& o) { conv(p,kd,g,o); } };
template<> struct Go<U8,S32,U8> { static void go(const SParam& p, const std::vector<S32>& kd, const Gray<U8>& g, Gray<U8>& o) { blur_or_norm<U8,S32>(p,kd,g,o); } };
template<> struct Go<F32,F32,F32> { static void go(const SParam& p, const std::vector<F32>& kd, const Gray<F32>& g, Gray<F32>& o) { if(p.kind>=CONV_H&&p.kind<=CONV_2D) conv(p,kd,g,o); else blur_or_norm<F32,F32>(p,kd,g,o); } };
template<class I,class K,class O> static void stateless(const SParam& p) { size_t n=(size_t)p.width*(p.kind==CONV_2D?p.width:1); std::vector<K> kd(n); for(auto& v:kd) get(v); unsigned w=ri(),h=ri(); Mat<I> m=mat<I>(w,h); bool ok=rb()!=0; if(!ok) return; Mat<O> got=mat<O>(w,h); std::unique_ptr<Gray<I>> g(owned(m)); Gray<O> out(w,h); std::string desc=p.str()+strf(" image %ux%u",w,h); try { Go<I,K,O>::go(p,kd,*g,out); } catch(const std::exception& e) { fail(std::string("jvm-outcome:")+sname(p.kind),std::string("C++ throws, Java succeeds: ")+e.what(),desc); return; }
    same(got,content(out),sname(p.kind),desc); counters["jvm.compared.stateless"]++; seen(desc,m.hash()); }
static void contours(unsigned n) { std::unique_ptr<LinearContourLabelChang2004> ref(new LinearContourLabelChang2004(ConnectRule::FOUR)); for(unsigned k=0;k<n;k++) { bool eight=rb()!=0; int mn=(int)ri(),mx=(int)ri(); bool inner=rb()!=0; unsigned w=ri(),h=ri(); Mat<U8> m=mat<U8>(w,h); Mat<S32> got=mat<S32>(w,h); ref->setConnectRule(eight?ConnectRule::EIGHT:ConnectRule::FOUR); ref->minContourSize=(uint32_t)mn; ref->maxContourSize=(uint32_t)mx; ref->saveInternalContours=inner; std::unique_ptr<Gray<U8>> g(owned(m)); Gray<S32> lab(w,h); ref->process(*g,lab);
        std::string desc=strf("contours of %ux%u eight=%d min=%d max=%d inner=%d",w,h,eight,mn,mx,inner); bool fine=same(got,content(lab),"contour labels",desc); unsigned blobs=ri(); std::vector<ContourPacked*> cs; if(blobs!=ref->contours.size()) { fail("jvm-blobs","Java received "+std::to_string(blobs)+" blobs, C++ found "+std::to_string(ref->contours.size()),desc); fine=false; }
        for(unsigned b=0;b<blobs;b++) { int id=(int)ri(); unsigned c=ri(); bool have=b<ref->contours.size(); if(have&&fine&&(id!=(int)ref->contours.at(b).id||c!=1+ref->contours.at(b).internalIndexes.size())) { fail("jvm-blobs",strf("blob %u: Java received id %d with %u contours, C++ has id %u with %zu",b,id,c,(unsigned)ref->contours.at(b).id,1+ref->contours.at(b).internalIndexes.size()),desc); fine=false; }
            for(unsigned q=0;q<c;q++) { int idx=(int)ri(); unsigned pts=ri(); std::vector<Point2D<S32>> a(pts),want; for(auto& z:a) { get(z.x); get(z.y); } if(!have||!fine) continue; auto& cp=ref->contours.at(b); int wi= q==0?(int)cp.externalIndex:(int)cp.internalIndexes[q-1]; if(idx!=wi) { fail("jvm-blobs",strf("blob %u contour %u: index %d in Java, %d in C++",b,q,idx,wi),desc); fine=false; continue; } if(idx<0) continue; ref->packedPoints.load_set((uint32_t)idx,want); bool eq=want.size()==a.size(); for(size_t z=0;eq&&z<a.size();z++) eq=a[z].x==want[z].x&&a[z].y==want[z].y; if(!eq) { fail("jvm-points",strf("contour %d has %zu points in Java and %zu in C++, or they differ",idx,a.size(),want.size()),desc); fine=false; } counters["jvm.compared.contours"]++; } }
        seen(desc,m.hash()); } }
int main(int argc, char** argv) { if(argc<3) return 2; f=fopen(argv[1],"rb"); o=fopen(argv[2],"w"); if(!f||!o) return 2; static char buf[1<<20]; setvbuf(f,buf,_IOFBF,sizeof buf); bool ended=false;
    try { for(;;) { unsigned t=rb(); if(t=='E') { ended=true; break; } ncase=rl(); if(t=='T') { TParam p; p.kind=(int)ri(); p.integer=rb()==0; p.down=rb(); p.local=rb(); p.otsu2=rb(); p.a=rd(); p.b=rd(); p.scale=rd(); p.tuning=rd(); p.spread=rd(); p.len.length=rd(); p.len.fraction=rd(); unsigned n=ri(); if(p.integer) thresholds<U8>(p,n); else thresholds<F32>(p,n); }
        else if(t=='S') { SParam p; p.kind=(int)ri(); unsigned it=rb(),ot=rb(); p.radius=(int)ri(); p.sigma=rd(); p.border=(int)ri(); p.width=(int)ri(); p.offset=(int)ri(); if(it==1) stateless<F32,F32,F32>(p); else if(ot==0) stateless<U8,S32,U8>(p); else if(ot==2) stateless<U8,S32,S16>(p); else stateless<U8,S32,S32>(p); }
        else if(t=='C') contours(ri()); else { fprintf(o,"X\tunknown record %u\n",t); break; } } } catch(const End&) {}
    fprintf(o,"R\t{\"evaluations\":%llu,\"counters\":{",evals); bool first=true; for(auto& c:counters) { fprintf(o,"%s\"%s\":%llu",first?"":",",c.first.c_str(),c.second); first=false; } fprintf(o,"},\"sigs\":["); first=true; for(auto& s:sigs) { fprintf(o,"%s\"%s\"",first?"":",",s.c_str()); first=false; } fprintf(o,"],\"states\":[],\"samples\":["); if(!sample.empty()) fprintf(o,"\"%s\"",sample.c_str()); fprintf(o,"]}\n"); if(ended) fprintf(o,"E\n"); fclose(o); return 0; }
