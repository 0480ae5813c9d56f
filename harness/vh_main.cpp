#include "vh.hpp"
#include "img.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <execinfo.h>
#include <exception>
#include <stdexcept>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#if __has_feature(memory_sanitizer)
#define VH_MSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
#define VH_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#include <sanitizer/common_interface_defs.h>
#define VH_TSAN 1
#endif

namespace vh {
bool g_thorough=false; u64 g_seed=1; std::string g_variant;

struct Shared { volatile u64 idx; volatile u64 done; char phase[1000]; };
static Shared dummy_shared; static Shared* sh=&dummy_shared;
static FILE* outf=nullptr;
static std::map<std::string,u64> counters;
static std::unordered_set<u64> states, sigs;
static std::vector<std::string> samples;
static u64 evaluations=0; static u64 nviol=0; static u64 nontriv_total=0;
static bool dumped=false; static double max_cpu=0; static u64 max_cpu_case=0;
static double cpu_now() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }

std::string strf(const char* fmt, ...) { char b[4000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); return b; }
static std::string esc(const std::string& s) { std::string o; for(char ch: s) { if(ch=='"'||ch=='\\') {o+='\\';o+=ch;} else if(ch=='\n') o+="\\n"; else if(ch=='\t') o+="\\t"; else if((unsigned char)ch<32||(unsigned char)ch>126) { char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)ch); o+=b; } else o+=ch; } return o; }
void set_phase(const std::string& s) { size_t n=std::min(s.size(),sizeof(sh->phase)-1); memcpy(sh->phase,s.data(),n); sh->phase[n]=0; }
void Ctx::note(const char* fmt, ...) { char b[4000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); Untrack u; if(!desc.empty()) desc+="; "; desc+=b; set_phase(desc); }
void Ctx::ev(const char* name, u64 n) { Untrack u; counters[name]+=n; }
void Ctx::state(u64 h) { Untrack u; if(states.size()<2000000) states.insert(h); }
void Ctx::fail(const std::string& key, const char* fmt, ...) {
    char b[4000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    Untrack u; nviol++;
    fprintf(outf,"V\t%llu\t%s\t%s\t%s\n",(unsigned long long)idx,key.c_str(),esc(b).c_str(),esc(desc).c_str()); fflush(outf);
    throw Abort();
}
static void dump() {
    if(dumped||!outf) return; dumped=true;
    fprintf(outf,"R\t{\"evaluations\":%llu,\"nontrivial\":%llu,\"violations\":%llu,\"max_cpu\":[%.3f,%llu],\"counters\":{",(unsigned long long)evaluations,(unsigned long long)nontriv_total,(unsigned long long)nviol,max_cpu,(unsigned long long)max_cpu_case);
    bool first=true; for(auto&k:counters){ fprintf(outf,"%s\"%s\":%llu",first?"":",",esc(k.first).c_str(),(unsigned long long)k.second); first=false; }
    fprintf(outf,"},\"samples\":["); first=true; for(auto&s:samples){ fprintf(outf,"%s\"%s\"",first?"":",",esc(s).c_str()); first=false; }
    fprintf(outf,"],\"states\":["); first=true; size_t k=0; for(auto s:states){ if(k++>60000) break; fprintf(outf,"%s%llu",first?"":",",(unsigned long long)(s>>11)); first=false; }
    fprintf(outf,"],\"sigs\":["); first=true; k=0; for(auto s:sigs){ if(k++>60000) break; fprintf(outf,"%s%llu",first?"":",",(unsigned long long)(s>>11)); first=false; }
    fprintf(outf,"]}\n"); fflush(outf);
}
static void on_hang(int) { static const char m[]="H\t\n"; (void)!write(fileno(outf),m,sizeof m-1);
    fprintf(stderr,"VH-HANG case %llu: %s\n",(unsigned long long)sh->idx,sh->phase); _exit(97); }
static void on_terminate() { 
    const char* what="unknown"; std::string w;
    try { if(std::current_exception()) std::rethrow_exception(std::current_exception()); } catch(const std::exception& e) { w=e.what(); what=w.c_str(); } catch(...) {}
    fprintf(stderr,"VH-TERMINATE case %llu: %s\n",(unsigned long long)sh->idx,what); dump(); _exit(98); }
static void set_timer(double s) { struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=(long)s; it.it_value.tv_usec=(long)((s-(long)s)*1e6); setitimer(ITIMER_PROF,&it,nullptr); }

// ------------------------------------------------------------------ allocation tracking
struct PtrTab { // open addressing table; uses malloc'd memory through mmap so that it never recurses
    struct E { void* p; size_t n; };
    E* e; size_t cap, used, tomb;
    PtrTab(): e(nullptr),cap(0),used(0),tomb(0) {}
    static E* raw(size_t n) { void* m=mmap(nullptr,n*sizeof(E),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); return (E*)m; }
    void init() { if(e) return; cap=1<<16; e=raw(cap); }
    void grow() { size_t oc=cap; E* o=e; if((used+1)*2>cap) cap*=2; e=raw(cap); used=tomb=0; for(size_t i=0;i<oc;i++) if(o[i].p&&o[i].p!=(void*)1) put(o[i].p,o[i].n); munmap(o,oc*sizeof(E)); }
    void put(void* p, size_t n) { if((used+tomb+1)*2>cap) grow(); size_t i=mix((u64)p)&(cap-1); while(e[i].p&&e[i].p!=(void*)1) i=(i+1)&(cap-1); if(e[i].p) tomb--; e[i].p=p; e[i].n=n; used++; }
    bool del(void* p, size_t& n) { size_t i=mix((u64)p)&(cap-1); while(e[i].p) { if(e[i].p==p) { n=e[i].n; e[i].p=(void*)1; tomb++; used--; return true; } i=(i+1)&(cap-1); } return false; }
    void clear() { if(!e) return; memset(e,0,cap*sizeof(E)); used=tomb=0; }
};
static PtrTab tab; static AllocStats ast; static volatile bool hooks_on=false;
static __thread bool tracking=false; static __thread bool inhook=false;
static volatile int tab_lock=0;
struct Lk { Lk(){ while(__sync_lock_test_and_set(&tab_lock,1)){} } ~Lk(){ __sync_lock_release(&tab_lock);} };
static void h_malloc(const volatile void* p, size_t n) { if(!hooks_on||!tracking||inhook||!p) return; inhook=true; { Lk l; tab.put((void*)p,n); ast.allocs++; ast.live_blocks++; ast.live_bytes+=(i64)n; } inhook=false; }
static void h_free(const volatile void* p) { if(!hooks_on||inhook||!p) return; inhook=true; { Lk l; size_t n; if(tab.used && tab.del((void*)p,n)) { ast.frees++; ast.live_blocks--; ast.live_bytes-=(i64)n; } } inhook=false; }
AllocStats track_stats() { return ast; }
void track_reset() { tab.clear(); memset(&ast,0,sizeof ast); }
Track::Track(): prev(tracking) { tracking=true; } Track::~Track() { tracking=prev; }
Untrack::Untrack(): prev(tracking) { tracking=false; } Untrack::~Untrack() { tracking=prev; }
#ifdef VH_ASAN
bool track_available() { return true; }
static void hooks_init() { tab.init(); __sanitizer_install_malloc_and_free_hooks(h_malloc,h_free); hooks_on=true; }
#else
bool track_available() { return false; }
static void hooks_init() { tab.init(); (void)h_malloc; (void)h_free; }
#endif
} // namespace vh
using namespace vh;

int main(int argc, char** argv) {
    u64 first=0,last=0,step=1; std::string out,status; double limit=60;
    for(int i=1;i+1<argc;i+=2) { std::string a=argv[i]; const char* v=argv[i+1];
        if(a=="--seed") g_seed=strtoull(v,0,10); else if(a=="--first") first=strtoull(v,0,10); else if(a=="--last") last=strtoull(v,0,10);
        else if(a=="--step") step=strtoull(v,0,10); else if(a=="--out") out=v; else if(a=="--status") status=v; else if(a=="--tier") g_thorough=std::string(v)=="thorough";
        else if(a=="--limit") limit=atof(v); else if(a=="--variant") g_variant=v; else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 2; } }
    outf=out.empty()?stdout:fopen(out.c_str(),"a"); if(!outf) { perror("out"); return 2; }
    if(!status.empty()) { int fd=open(status.c_str(),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,sizeof(Shared))) { perror("status"); return 2; } void* m=mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(m==MAP_FAILED) return 2; sh=(Shared*)m; close(fd); }
#ifdef VH_ASAN
    __sanitizer_set_death_callback(dump);
#elif defined(VH_TSAN)
    __sanitizer_set_death_callback(dump);
#elif !defined(VH_MSAN)
    if(!getenv("VH_NO_LIMIT")) { struct rlimit rl; rl.rlim_cur=rl.rlim_max=10ULL<<30; setrlimit(RLIMIT_AS,&rl); }
#endif
    std::set_terminate(on_terminate);
    signal(SIGPROF,on_hang);
    hooks_init();
    setup_run();
    for(u64 i=first;i<last;i+=step) {
        sh->idx=i; sh->phase[0]=0;
        Ctx c(g_seed,i,g_thorough);
        set_timer(limit);
        u64 ld=large().drawn, hd=large().huge_drawn; { u64 k=i%1000000000ull, n=large().huge_cases*(g_thorough?8:1); large().huge= g_variant=="rel"&&k>=64&&k<64+n; }
        Nudge nu; c.r.nu=&nu; u64 nv=nviol;
        auto attempt=[](Ctx& c) { try { run_case(c); }
            catch(const Abort&) {}
            catch(const std::exception& e) { try { c.fail("unexpected-exception","unexpected exception: %s",e.what()); } catch(const Abort&) {} } };
        double cpu0=cpu_now(); attempt(c); { double d=cpu_now()-cpu0; if(d>max_cpu) { max_cpu=d; max_cpu_case=i; } }
        // the case again, with slightly different parameters: catches what is remembered under too coarse a key
        Rng q(hcomb(hcomb(g_seed,0x7A1),i));
        if(q.chance(.06)&&nviol==nv&&large().drawn==ld) for(int k=(int)q.range(1,2);k>0&&nviol==nv;k--) { Ctx t(g_seed,i,g_thorough); Nudge near; near.choose(q,nu.n); t.r.nu=&near; t.desc="after "+c.desc.substr(0,300)+" | nearly again"; set_phase(t.desc); set_timer(limit); attempt(t); c.ev("cases.nearly.repeated"); }
        set_timer(0);
        evaluations++; if(large().drawn!=ld) c.ev(large().huge_drawn!=hd?"images.above.2^24.pixels":"large.images");
        if(c.nontriv) { nontriv_total++; if(c.sig==0) c.hash(i); sigs.insert(c.sig); if(samples.size()<2 && !c.desc.empty()) samples.push_back(strf("case %llu: ",(unsigned long long)i)+c.desc.substr(0,600)); }
        sh->done=i+1;
        if(nviol>=20) { fprintf(stderr,"VH: stopping after %llu violations\n",(unsigned long long)nviol); break; }
    }
    sh->phase[0]=0; set_phase("finished");
    dump();
    fprintf(outf,"E\t\n"); fclose(outf);
    return 0;
}
