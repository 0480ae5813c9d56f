// C26: the text printed for images, kernels and differences is read back and compared with the contents.
#include "convref.hpp"
#include <boofcv/print_structures.h>
#include <unistd.h>
#include <sys/mman.h>
namespace vh {
static int g_fd=-1;
void setup_run() { fflush(stdout); g_fd=memfd_create("out",0); if(g_fd<0) { perror("memfd"); _exit(96); } setvbuf(stdout,nullptr,_IOFBF,1<<16); large().p=0.001; }
static std::string g_text;
/** what f writes to the standard output */
template<class F> const std::string& printed(F f) {
    fflush(stdout); int keep=dup(1); if(keep<0||ftruncate(g_fd,0)||lseek(g_fd,0,SEEK_SET)!=0||dup2(g_fd,1)<0) _exit(96);
    auto back=[&]{ fflush(stdout); dup2(keep,1); close(keep); off_t n=lseek(g_fd,0,SEEK_END); g_text.resize((size_t)n); if(n&&pread(g_fd,&g_text[0],(size_t)n,0)!=n) _exit(96); };
    try { f(); } catch(...) { back(); throw; } back(); return g_text; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> l; size_t a=0; while(a<s.size()) { size_t b=s.find('\n',a); if(b==std::string::npos) b=s.size(); l.push_back(s.substr(a,b-a)); a=b+1; } return l; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> w; size_t i=0; while(i<s.size()) { if(strchr(" \t[]{}=,",s[i])) { i++; continue; } size_t j=i; while(j<s.size()&&!strchr(" \t[]{}=,",s[j])) j++; w.push_back(s.substr(i,j-i)); i=j; } return w; }
template<class E> bool is_hex(const std::string& s, E v) { char* e; errno=0; if(s.empty()) return false; u64 g=strtoull(s.c_str(),&e,16); if(*e||errno) return false; typedef typename std::make_unsigned<E>::type UE; return g==(u64)(UE)v||g==(u64)(unsigned)(int)v&&sizeof(E)<=4||g==(u64)(i64)v; } // negative values: two's complement of any width
template<class E> bool is_dec(const std::string& s, E v) { char* e; errno=0; if(s.empty()) return false; i64 g=strtoll(s.c_str(),&e,10); return !*e&&!errno&&g==(i64)v; }
template<class E> bool is_real(const std::string& s, E v) { char* e; if(s.empty()) return false; double g=strtod(s.c_str(),&e); if(*e) return false; if(std::isnan(v)) return std::isnan(g); if(std::isinf(v)) return g==(double)v; return fabs(g-(double)v)<=0.501e-4*fabs((double)v)*1.0001+(fabs((double)v)<1e-300?1e-300:0)&&(std::signbit(g)==std::signbit((double)v)); }
template<class E,bool F> struct Is { static bool pixel(const std::string& s,E v) { return is_hex<E>(s,v); } static bool weight(const std::string& s,E v) { return is_dec<E>(s,v); } };
template<class E> struct Is<E,true> { static bool pixel(const std::string& s,E v) { return is_real<E>(s,v); } static bool weight(const std::string& s,E v) { return is_real<E>(s,v); } };
template<class E> E any(Rng& r) { if(IsF<E>::v) { switch(r.range(0,6)) { case 0: return (E)0; case 1: return (E)r.range(-300,300); case 2: return (E)(r.unit()*std::pow(10.0,(double)r.range(-30,30))); case 3: return std::numeric_limits<E>::infinity(); case 4: return -std::numeric_limits<E>::max()/2; case 5: return std::numeric_limits<E>::min(); default: return (E)r.real(-1,1); } }
    E v; u64 q=r.next(); memcpy(&v,&q,sizeof v); switch(r.range(0,5)) { case 0: return std::numeric_limits<E>::max(); case 1: return std::numeric_limits<E>::min(); case 2: return (E)r.range(0,255); case 3: return (E)r.range(0,3); default: return v; } }
static std::string cut(const std::string& s) { return s.size()<120?s:s.substr(0,120)+"..."; }
template<class E> void image(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,20); if(r.chance(.05)) w=0; if(r.chance(.05)) h=0; Mat<E> m(w,h); for(auto& v:m.d) v=any<E>(r); Img<E> i; i.make(r,rand_kind(r),m); i.snapshot(); c.note("print %s %ux%u %s",TName<E>::n(),w,h,kname(i.kind)); c.hash(m.hash()); c.hash((u64)i.kind*64+w); c.nontrivial();
    auto l=lines(printed([&]{ print(*i); })); if(l.empty()) c.fail("print-nothing","nothing was printed"); auto head=words(l[0]); std::vector<std::string> num; for(auto& x:head) if(isdigit((unsigned char)x[0])) num.push_back(x); if(num.size()!=2||num[0]!=strf("%u",w)||num[1]!=strf("%u",h)) c.fail("print-shape","a %ux%u image is announced as '%s'",w,h,cut(l[0]).c_str());
    size_t n=l.size(); while(n>1&&words(l[n-1]).empty()&&n-1>h) n--; if(n-1<h) c.fail("print-rows","%zu rows printed of %u",n-1,h); if(n-1>h) c.fail("print-rows","%zu rows printed of %u",n-1,h);
    for(uint32_t y=0;y<h;y++) { auto t=words(l[1+y]); if(t.size()!=w) c.fail("print-columns","row %u has %zu values of %u: %s",y,t.size(),w,cut(l[1+y]).c_str()); for(uint32_t x=0;x<w;x++) if(!Is<E,IsF<E>::v>::pixel(t[x],m(x,y))) c.fail(std::string("print-value:")+TName<E>::n(),"pixel (%u,%u) is %s but '%s' was printed",x,y,sv(m(x,y)).c_str(),t[x].c_str()); }
    check_input(c,i,"printed image"); c.ev("images"); if(w&&h) c.ev("values",(u64)w*h); else c.ev("empty"); c.state(hcomb((u64)sizeof(E)*2+IsF<E>::v,std::min(w,20u)*32+std::min(h,20u)));
}
template<class K> void kernel1(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,r.chance(.05)?300:20),o=(uint32_t)r.range(0,w-1); std::vector<K> v(w); for(auto& x:v) x=any<K>(r); Kernel1D<K> k(w,o); fill_kernel1(k,v); c.note("kernel %s %u",TName<K>::n(),w); c.hash(hbytes(v.data(),w*sizeof(K))); c.nontrivial();
    auto l=lines(printed([&]{ print_kernel(k); })); if(l.size()!=1) c.fail("kernel-lines","%zu lines for a one-dimensional kernel",l.size()); auto t=words(l[0]); if(t.size()!=w+1) c.fail("kernel-count","%zu weights printed of %u",t.size()-1,w); for(uint32_t i=0;i<w;i++) if(!Is<K,IsF<K>::v>::weight(t[1+i],v[i])) c.fail(std::string("kernel-value:")+TName<K>::n(),"weight %u is %s but '%s' was printed",i,sv(v[i]).c_str(),t[1+i].c_str()); c.ev("kernels.1d"); c.state(hcomb(101+sizeof(K)*2+IsF<K>::v,w));
}
template<class K> void kernel2(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,12),o=(uint32_t)r.range(0,w-1); std::vector<K> v(w*w); for(auto& x:v) x=any<K>(r); Kernel2D<K> k(w,o); fill_kernel2(k,v,w); c.note("kernel %s %ux%u origin %u",TName<K>::n(),w,w,o); c.hash(hbytes(v.data(),v.size()*sizeof(K))); c.nontrivial();
    auto l=lines(printed([&]{ print_kernel(k); })); if(l.size()!=w+1) c.fail("kernel-lines","%zu lines for a kernel of %u rows",l.size(),w); auto t=words(l[0]); long go=-1,gw=-1; for(size_t i=0;i+1<t.size();i++) { if(t[i]=="offset") go=atol(t[i+1].c_str()); if(t[i]=="width") gw=atol(t[i+1].c_str()); } if(go!=(long)o||gw!=(long)w) c.fail("kernel-shape","a kernel of width %u and origin %u is announced as '%s'",w,o,cut(l[0]).c_str());
    for(uint32_t y=0;y<w;y++) { t=words(l[1+y]); if(t.size()!=w) c.fail("kernel-count","%zu weights in row %u of %u",t.size(),y,w); for(uint32_t x=0;x<w;x++) if(!Is<K,IsF<K>::v>::weight(t[x],v[y*w+x])) c.fail(std::string("kernel-value:")+TName<K>::n(),"weight (%u,%u) is %s but '%s' was printed",x,y,sv(v[y*w+x]).c_str(),t[x].c_str()); } c.ev("kernels.2d"); c.state(hcomb(201+sizeof(K)*2+IsF<K>::v,w*16+o));
}
template<class E> void difference(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,20); double hi=IsF<E>::v?1e6:std::min<double>((double)std::numeric_limits<E>::max(),1e9),lo=std::numeric_limits<E>::is_signed?-hi:0; Mat<E> a=rand_mat<E>(r,w,h,lo,hi),b=a; E tol=(E)(r.chance(.3)?0:IsF<E>::v?r.real(0,3):(double)r.range(0,3)); for(auto& v:b.d) if(r.chance(.3)) { double q=(double)v+(IsF<E>::v?r.real(-5,5):(double)r.range(-5,5)); if(q>=lo&&q<=hi) v=(E)q; }
    bool mism=r.chance(.1); if(mism) { uint32_t w2=w,h2=h; if(r.chance(.5)) w2+=(uint32_t)r.range(1,3); else h2+=(uint32_t)r.range(1,3); b=rand_mat<E>(r,w2,h2,lo,hi); } Img<E> ia,ib; ia.make(r,rand_kind(r),a); ib.make(r,rand_kind(r),b); ia.snapshot(); ib.snapshot(); c.note("difference %s %ux%u tolerance %s",TName<E>::n(),w,h,sv(tol).c_str()); c.hash(a.hash()); c.hash(b.hash()); c.nontrivial();
    if(mism) { bool t=false; try { printed([&]{ print_difference(*ia,*ib,tol); }); } catch(const std::exception&) { t=true; } if(!t) c.fail("difference-shape","images of different shapes were compared"); if(!g_text.empty()) c.fail("difference-refused-output","a refused request printed '%s'",cut(g_text).c_str()); c.ev("refused"); return; }
    auto l=lines(printed([&]{ print_difference(*ia,*ib,tol); })); if(l.size()!=h) c.fail("difference-rows","%zu rows of %u",l.size(),h); for(uint32_t y=0;y<h;y++) { if(l[y].size()!=w) c.fail("difference-columns","%zu columns of %u",l[y].size(),w); for(uint32_t x=0;x<w;x++) { E av=a(x,y),bv=b(x,y); typedef typename std::conditional<IsF<E>::v,E,i64>::type D; D d=(D)av-(D)bv; if(d<0) d=-d; bool e=d>(D)tol; if((l[y][x]=='X')!=e) c.fail(std::string("difference-mark:")+TName<E>::n(),"(%u,%u): %s and %s differ by more than %s: %d, but '%c' was printed",x,y,sv(av).c_str(),sv(bv).c_str(),sv(tol).c_str(),(int)e,l[y][x]); } }
    check_input(c,ia,"compared image"); check_input(c,ib,"compared image"); c.ev("differences"); c.state(hcomb(301+sizeof(E)*2+IsF<E>::v,std::min(w,20u)*32+std::min(h,20u)));
}
template<class E> void pick(Ctx& c) { if(c.r.chance(.7)) image<E>(c); else difference<E>(c); }
void run_case(Ctx& c) {
    if(c.r.chance(.35)) { bool two=c.r.chance(.5); switch(c.r.range(0,3)) { case 0: two?kernel2<S32>(c):kernel1<S32>(c); break; case 1: two?kernel2<F32>(c):kernel1<F32>(c); break; case 2: two?kernel2<F64>(c):kernel1<F64>(c); break; default: two?kernel2<S64>(c):kernel1<S64>(c); } return; }
    switch(c.r.range(0,6)) { case 0: pick<U8>(c); break; case 1: image<U16>(c); break; case 2: pick<S16>(c); break; case 3: pick<S32>(c); break; case 4: if(c.r.chance(.7)) image<S64>(c); else difference<F64>(c); break; case 5: pick<F64>(c); break; default: pick<F32>(c); }
}
}
