// Native methods called with generated Java objects, and the same operation called directly in C++.
#pragma once
#include "mockjni.hpp"
#include <boofcv/convolve.h>
#include <boofcv/image_blur.h>
#include <boofcv/binary_ops.h>
#include <boofcv/threshold_block_filters.h>
#include <boofcv/contour.h>

namespace mj {
template<class T> Gray<T>* owned(const Mat<T>& m) { Gray<T>* g=new Gray<T>(m.w,m.h); for(uint32_t y=0;y<m.h;y++) for(uint32_t x=0;x<m.w;x++) g->at(x,y)=m(x,y); return g; }
template<class T> Mat<T> content(const Gray<T>& g) { Mat<T> m(g.width,g.height); for(uint32_t y=0;y<m.h;y++) for(uint32_t x=0;x<m.w;x++) m(x,y)=g.at(x,y); return m; }
template<class T> Mat<T> pixels(Rng& r, uint32_t w, uint32_t h) { return IsF<T>::v? rand_mat<T>(r,w,h,-20,270) : rand_mat<T>(r,w,h,0,255); }

// ------------------------------------------------------------------ threshold filters
enum TKind { FIXED, OTSU, LOCAL, BMEAN, BMINMAX, BOTSU, TKINDS };
inline const char* tname(int k) { static const char* n[]={"NativeGlobalFixed","NativeGlobalOtsu","NativeLocalMean","NativeBlockMean","NativeBlockMinMax","NativeBlockOtsu"}; return n[k]; }
struct TParam { int kind; bool integer,down,local,otsu2; double a,b,scale,tuning,spread; ConfigLength len;
    std::string str() const { return strf("%s %s down=%d local=%d otsu2=%d a=%g b=%g scale=%g tuning=%g spread=%g length=%g fraction=%g",tname(kind),integer?"U8":"F32",down,local,otsu2,a,b,scale,tuning,spread,len.length,len.fraction); } };
inline TParam tparam(Rng& r, int kind, bool bad) { TParam p; p.kind=kind; p.integer=r.chance(.5); p.down=r.chance(.5); p.local=r.chance(.6); p.otsu2=r.chance(.4); p.scale=r.pick({1.0,0.95,1.1,0.5}); if(kind==BMEAN&&p.integer&&p.scale>1) p.scale=1; p.tuning=r.pick({0.0,0.5,3.0}); p.spread=r.pick({-1.0,0.0,5.0,30.0});
    p.a=p.integer?(double)r.range(0,255):r.real(-20,270); p.b=255; if(kind==OTSU) { p.a=p.integer?0:-20; p.b=p.integer?255:270; }
    if(r.chance(.4)) p.len=ConfigLength::relative(r.real(0.1,1),(int)r.range(2,5)); else p.len=ConfigLength::fixed((double)r.range(2,9));
    if(bad) { switch(kind) { case LOCAL: p.len=ConfigLength::fixed((double)r.range(0,1)); break;                              // radius zero
        case BMEAN: case BMINMAX: case BOTSU: p.len= r.chance(.5)?ConfigLength::fixed((double)r.range(100,1000)):r.chance(.5)?ConfigLength::fixed(0):ConfigLength(-1,-1); break; default: break; } }
    return p; }
template<class T> InputToBinary<Gray<T>>* direct(const TParam& p) { switch(p.kind) {
    case FIXED: return new GlobalFixedBinaryFilter<T>((T)p.a,p.down); case OTSU: return new GlobalOtsuBinaryFilter<T>((T)p.a,(T)p.b,p.down);
    case LOCAL: return new LocalMeanBinaryFilter<T>(p.len,(float)p.scale,p.down); case BMEAN: return new ThresholdBlockMean<T>(p.len,p.local,p.scale,p.down);
    case BMINMAX: return new ThresholdBlockMinMax<T>((float)p.spread,p.len,p.local,(float)p.scale,p.down); default: return new ThresholdBlockOtsu<T>(p.otsu2,p.len,p.tuning,p.scale,p.down,p.local); } }
inline Obj* towner(const TParam& p) { return jowner((std::string("org/boofcpp/threshold/")+tname(p.kind)).c_str(),p.integer,p.integer?8:32,p.integer?8:32); }
inline bool tinit(Ctx& c, Obj* self, const TParam& p, i64 nf=-1, i64 jf=-1) { jobject s=H(self), l=H(jlength(p.len.length,p.len.fraction)); JNIEnv* e=env(); vm().fail_at=jf;
    return native(c,strf("%s.nativeinit",tname(p.kind)).c_str(),[&]{ switch(p.kind) {
    case FIXED: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(e,s,p.a,p.down); break;
    case OTSU: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(e,s,p.a,p.b,p.down); break;
    case LOCAL: Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(e,s,l,p.scale,p.down); break;
    case BMEAN: Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(e,s,l,p.scale,p.down,p.local); break;
    case BMINMAX: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(e,s,l,p.scale,p.down,p.spread,p.local); break;
    default: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(e,s,p.otsu2,l,p.tuning,p.scale,p.down,p.local); } },nf); }
#define TCALL(NAME,...) switch(kind) { case FIXED: Java_org_boofcpp_threshold_NativeGlobalFixed_##NAME(__VA_ARGS__); break; case OTSU: Java_org_boofcpp_threshold_NativeGlobalOtsu_##NAME(__VA_ARGS__); break; case LOCAL: Java_org_boofcpp_threshold_NativeLocalMean_##NAME(__VA_ARGS__); break; \
    case BMEAN: Java_org_boofcpp_threshold_NativeBlockMean_##NAME(__VA_ARGS__); break; case BMINMAX: Java_org_boofcpp_threshold_NativeBlockMinMax_##NAME(__VA_ARGS__); break; default: Java_org_boofcpp_threshold_NativeBlockOtsu_##NAME(__VA_ARGS__); }
inline bool tprocess(Ctx& c, int kind, Obj* self, Obj* in, Obj* out, i64 nf=-1, i64 jf=-1) { jobject s=H(self),i=H(in),o=H(out); JNIEnv* e=env(); vm().fail_at=jf; return native(c,strf("%s.nativeprocess",tname(kind)).c_str(),[&]{ TCALL(nativeprocess,e,s,i,o) },nf); }
inline bool tdestroy(Ctx& c, int kind, Obj* self) { jobject s=H(self); JNIEnv* e=env(); vm().fail_at=-1; return native(c,strf("%s.nativedestroy",tname(kind)).c_str(),[&]{ TCALL(nativedestroy,e,s) }); }

// ------------------------------------------------------------------ stateless operations
enum SKind { MEAN, GAUSS, CONV_H, CONV_V, CONV_2D, NORM_H, NORM_V, SKINDS };
inline const char* sname(int k) { static const char* n[]={"NativeImageBlurOps.nativeMean","NativeImageBlurOps.nativeGaussian","NativeConvolveImage.nativeHorizontal","NativeConvolveImage.nativeVertical","NativeConvolveImage.nativeConvolve","NativeImageConvolveNormalized.nativehorizontal","NativeImageConvolveNormalized.nativevertical"}; return n[k]; }
inline const char* sclass(int k) { return k<=GAUSS?"org/boofcpp/convolve/NativeImageBlurOps":k<=CONV_2D?"org/boofcpp/convolve/NativeConvolveImage":"org/boofcpp/convolve/NativeImageConvolveNormalized"; }
struct SParam { int kind; int radius; double sigma; int border; int width,offset; bool has_kernel() const { return kind>=CONV_H; }
    std::string str() const { return strf("%s radius=%d sigma=%g border=%d kernel width=%d offset=%d",sname(kind),radius,sigma,border,width,offset); } };
inline SParam sparam(Rng& r, int kind) { SParam p; p.kind=kind; p.radius=(int)r.range(1,6); p.sigma=r.real(0.4,3); if(r.chance(.3)) p.sigma=std::max(.5,std::round(p.sigma*2)/2); if(kind==GAUSS) { int m=(int)r.range(0,2); if(m==0) p.radius=(int)r.range(-1,0); else if(m==1) p.sigma=-1; }
    p.border=r.pick({1,3,4,5}); p.width=(int)r.range(1,kind==CONV_2D?5:9); p.offset=r.chance(.5)?p.width/2:(int)r.range(0,p.width-1); return p; }
template<class K> std::vector<K> kdata(Rng& r, const SParam& p) { size_t n=(size_t)p.width*(p.kind==CONV_2D?p.width:1); std::vector<K> d(n); bool norm=p.kind>=NORM_H; for(auto& v:d) v= IsF<K>::v? (K)(norm?r.real(0.1,2):r.real(-2,2)) : (K)(norm?r.range(1,9):r.range(-9,9)); return d; }
inline BorderType jborder(int b) { return b==1?BorderType::EXTENDED:b==3?BorderType::REFLECT:b==4?BorderType::WRAP:BorderType::ZERO; }
inline bool scall(Ctx& c, const SParam& p, Obj* self, Obj* in, Obj* out, Obj* storage, Obj* kernel, i64 nf=-1, i64 jf=-1) { jobject s=H(self),i=H(in),o=H(out),t=H(storage),k=H(kernel); JNIEnv* e=env(); vm().fail_at=jf;
    return native(c,sname(p.kind),[&]{ switch(p.kind) {
    case MEAN: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(e,s,i,o,p.radius,t); break;
    case GAUSS: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(e,s,i,o,p.sigma,p.radius,t); break;
    case CONV_H: Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(e,s,k,i,o,p.border); break;
    case CONV_V: Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(e,s,k,i,o,p.border); break;
    case CONV_2D: Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(e,s,k,i,o,p.border); break;
    case NORM_H: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(e,s,k,i,o); break;
    default: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(e,s,k,i,o); } },nf); }
template<class K> Kernel1D<K> k1(const std::vector<K>& d, int off) { Kernel1D<K> k((uint32_t)d.size(),(uint32_t)off); for(size_t i=0;i<d.size();i++) k.at((uint32_t)i)=d[i]; return k; }
template<class K> Kernel2D<K> k2(const std::vector<K>& d, int w, int off) { Kernel2D<K> k((uint32_t)w,(uint32_t)off); for(uint32_t y=0;y<(uint32_t)w;y++) for(uint32_t x=0;x<(uint32_t)w;x++) k.at(x,y)=d[y*w+x]; return k; }
template<class I,class K,class O> void conv(const SParam& p, const std::vector<K>& kd, const Gray<I>& in, Gray<O>& out) { auto b=FactoryImageBorder::create_SB<I>(jborder(p.border)); b->setImage(in);
    if(p.kind==CONV_H) ConvolveImage::horizontal(k1(kd,p.offset),*b,out); else if(p.kind==CONV_V) ConvolveImage::vertical(k1(kd,p.offset),*b,out); else ConvolveImage::convolve(k2(kd,p.width,p.offset),*b,out); }
template<class T,class K> void blur_or_norm(const SParam& p, const std::vector<K>& kd, const Gray<T>& in, Gray<T>& out) { Gray<T> st(in.width,in.height);
    if(p.kind==MEAN) BlurImageOps::mean(in,out,(uint32_t)p.radius,st); else if(p.kind==GAUSS) BlurImageOps::gaussian(in,out,p.sigma,p.radius>0?2*p.radius+1:-1,st);
    else if(p.kind==NORM_H) ConvolveNormalized::horizontal(k1(kd,p.offset),in,out); else ConvolveNormalized::vertical(k1(kd,p.offset),in,out); }

// ------------------------------------------------------------------ contours
inline bool ccall(Ctx& c, const char* what, std::function<void(JNIEnv*)> f, i64 nf=-1, i64 jf=-1) { JNIEnv* e=env(); vm().fail_at=jf; return native(c,what,[&]{ f(e); },nf); }
inline void jreset(Obj* ch) { VM& v=vm(); v.contours.clear(); Obj* p=ch->o["packedPoints"]; p->o["blocks"]->i["size"]=1; p->o["sets"]->i["size"]=0; }
inline std::vector<std::pair<int,int>> jset(Obj* ch, int i) { Obj* p=ch->o["packedPoints"]; Obj* s=p->o["sets"]->items[(size_t)i]; Obj* b=p->o["blocks"]; i64 bl=p->i["blockLength"]; i64 pos=s->i["block"]*bl+s->i["start"]; std::vector<std::pair<int,int>> r; for(i64 k=0;k<s->i["length"];k++,pos+=2) { if(pos/bl>=b->i["size"]) { r.push_back({-9,-9}); break; } int* d=(int*)b->items[(size_t)(pos/bl)]->data; r.push_back({d[pos%bl],d[pos%bl+1]}); } return r; }
} // namespace mj
