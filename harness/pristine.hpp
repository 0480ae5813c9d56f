// An untouched process: forked before the library has run, it forks a child for every request, so that nothing that the
// library remembers anywhere (objects, statics, thread locals) can have an influence on the outcome.
#pragma once
#include "ops.hpp"
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/prctl.h>
namespace vh {
struct Pristine {
    int fd=-1; pid_t pid=0;
    struct Request { char family[64]; u64 rng, run; GenOpt go; u64 nudges; struct { u64 at, by; } nudge[3]; };
    static bool io(int fd, void* p, size_t n, bool wr) { char* c=(char*)p; while(n) { ssize_t k=wr?write(fd,c,n):read(fd,c,n); if(k<0&&errno==EINTR) continue; if(k<=0) return false; c+=k; n-=(size_t)k; } return true; }
    void start() { int s[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,s)) { perror("socketpair"); _exit(96); } fflush(nullptr); pid=fork(); if(pid<0) { perror("fork"); _exit(96); } if(pid) { close(s[1]); fd=s[0]; return; }
        close(s[0]); prctl(PR_SET_PDEATHSIG,SIGKILL); Request q; while(io(s[1],&q,sizeof q,false)) { pid_t k=fork(); if(k==0) { alarm(120); serve(s[1],q); _exit(0); } int st=0; while(waitpid(k,&st,0)<0&&errno==EINTR) {} if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) { u64 n=~0ull; io(s[1],&n,sizeof n,true); } } _exit(0); }
    static void serve(int fd, const Request& q) { const Family* f=nullptr; for(auto& x:families()) if(x.name==q.family) f=&x; if(!f) _exit(1); Rng r; r.s=q.rng; Nudge nu; for(u64 k=0;k<q.nudges;k++) nu.at.push_back(std::make_pair(q.nudge[k].at,q.nudge[k].by)); r.nu=&nu; Op o=f->gen(r,q.go); Rng x(q.run); std::string s=fresh_outcome(x,o); u64 n=s.size(); if(!io(fd,&n,sizeof n,true)||(n&&!io(fd,&s[0],n,true))) _exit(1); }
    // false: the untouched process did not survive the call
    bool ask(Request& q, std::string& out) { u64 n=0; if(!io(fd,&q,sizeof q,true)||!io(fd,&n,sizeof n,false)) { fprintf(stderr,"VH: the untouched process is gone\n"); _exit(96); } if(n==~0ull) return false; out.resize(n); if(n&&!io(fd,&out[0],n,false)) _exit(96); return true; }
};
}
