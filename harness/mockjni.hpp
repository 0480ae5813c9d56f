// A Java virtual machine reduced to what native methods can see of it: objects with typed fields, arrays, methods,
// local references, pending exceptions and critical regions. Every call is checked against the JNI specification;
// violations are collected in VM::bad. Calls may be made to fail.
#pragma once
#include "img.hpp"
#include <jni.h>
#include <unistd.h>
#include <cstddef>

// allocation faults, see newfault.cpp
namespace vh { extern thread_local bool nf_native; extern thread_local i64 nf_countdown; extern thread_local u64 nf_count; }

namespace mj {
using namespace vh;

struct Cls; struct Obj;
struct Fid { Cls* cls; std::string name, sig; bool stat; };
struct Mid { Cls* cls; std::string name, sig; };
struct Obj {
    Cls* cls=nullptr; std::map<std::string,i64> i; std::map<std::string,double> d; std::map<std::string,Obj*> o;
    char et=0; size_t n=0; unsigned char* data=nullptr;             // arrays: element type, length
    std::vector<Obj*> items;                                        // FastQueue
    int held=0;
    virtual ~Obj() { free(data); }
};
struct Cls : Obj { std::string name; Cls* super=nullptr; std::map<std::string,Fid*> fields; std::map<std::string,Mid*> methods; std::map<std::string,Obj*> statics; };
struct Ref { Obj* obj; bool live; bool global; };
inline size_t esize(char t) { return t=='B'||t=='Z'?1: t=='S'?2: t=='I'||t=='F'?4: 8; }

struct Held { Obj* arr; void* p; bool critical, copy; };

struct VM {
    std::map<std::string,Cls*> classes;
    std::vector<Obj*> heap; std::vector<Ref*> refs; std::vector<Held> held;
    std::vector<std::string> bad;
    Cls* pending=nullptr; std::string message;
    int critical=0; bool copy_mode=false; u64 calls=0, gets=0, releases=0, fallible=0; i64 fail_at=-1; bool failed=false;
    size_t live_refs=0, max_refs=0; bool inside=false;
    std::vector<std::pair<int,std::pair<int,std::vector<int>>>> contours;   // what addContour received
    std::function<void(Obj*,int,int)> on_contour;
    void report(const std::string& s) { if(bad.size()<5) bad.push_back(s); }
    Cls* cls(const std::string& n) { Cls*& c=classes[n]; if(!c) { c=new Cls; c->name=n; } return c; }
    void extends(const std::string& c, const std::string& base) { cls(c)->super=cls(base); }
    static bool isa(const Cls* c, const Cls* base) { for(;c;c=c->super) if(c==base) return true; return base->name=="java/lang/Object"; }
    Fid* find(Cls* c, const std::string& k) { for(;c;c=c->super) { auto it=c->fields.find(k); if(it!=c->fields.end()) return it->second; } return nullptr; }
    Mid* findm(Cls* c, const std::string& k) { for(Cls* q=c;q;q=q->super) { auto it=q->methods.find(k); if(it!=q->methods.end()) return it->second; } if(c->name.compare(0,10,"java/lang/")==0) { method(c->name,k.substr(0,k.find(' ')),k.substr(k.find(' ')+1)); return c->methods[k]; } return nullptr; }
    std::vector<size_t> frames; int monitors=0;
    void drop_refs(size_t first) { size_t k=first; for(size_t i=first;i<refs.size();i++) { Ref* r=refs[i]; if(r->global) refs[k++]=r; else { if(r->live) live_refs--; r->live=false; dead.push_back(r); } } refs.resize(k); }
    std::vector<Ref*> dead;                       // popped: still told apart from live ones until the method returns
    bool known(const std::string& n) { return classes.count(n)>0 || n.compare(0,10,"java/lang/")==0; }
    Obj* make(const std::string& c) { Obj* o=new Obj; o->cls=cls(c); heap.push_back(o); return o; }
    Obj* array(char t, size_t n) { Obj* o=make(std::string("[")+t); o->et=t; o->n=n; o->data=(unsigned char*)malloc(std::max<size_t>(1,n*esize(t))); memset(o->data,0,n*esize(t)); return o; }
    Ref* ref(Obj* o, bool global=false) { if(!o) return nullptr; Ref* r=new Ref{o,true,global}; refs.push_back(r); if(!global) { live_refs++; max_refs=std::max(max_refs,live_refs); } return r; }
    Obj* deref(const void* h, const char* fn) { if(!h) { report(std::string(fn)+": null object"); return nullptr; } Ref* r=(Ref*)h; if(!r->live) { report(std::string(fn)+": reference used after it was deleted"); } return r->obj; }
    void raise(const std::string& c, const std::string& m) { pending=cls(c); message=m; }
    void field(const std::string& c, const std::string& n, const std::string& sig, bool st=false) { Cls* k=cls(c); Fid*& f=k->fields[n+" "+sig]; if(!f) f=new Fid{k,n,sig,st}; }
    void method(const std::string& c, const std::string& n, const std::string& sig) { Cls* k=cls(c); Mid*& f=k->methods[n+" "+sig]; if(!f) f=new Mid{k,n,sig}; }
    bool may_fail() { bool f=(i64)fallible==fail_at; fallible++; if(f) failed=true; return f; }
    void reset() { for(auto o:heap) delete o; heap.clear(); std::vector<Ref*> g; for(auto r:refs) if(r->global) g.push_back(r); else delete r; refs=g; for(auto&h:held) if(h.copy) free(h.p); held.clear(); bad.clear(); pending=nullptr; critical=0; live_refs=max_refs=0; fallible=0; fail_at=-1; failed=false; contours.clear(); for(auto r:dead) delete r; dead.clear(); frames.clear(); monitors=0; }
    void resize_queue(Obj* q, int n) { while((int)q->items.size()<n) q->items.push_back(q->i["kind"]? make("boofcv/struct/BlockIndexLength") : array('I',(size_t)q->i["blockLength"])); q->i["size"]=n; }
};
inline VM& vm() { static VM* v=new VM; return *v; }

// entering the VM from native code: harness memory is neither followed nor made to fail
struct Enter {
    bool n; Untrack u;
    Enter(const char* fn, bool critical_ok=false, bool pending_ok=false): n(nf_native) { nf_native=false; VM& v=vm(); v.calls++;
        if(v.critical>0 && !critical_ok) v.report(std::string(fn)+" called while a critical array is held");
        if(v.pending && !pending_ok) v.report(std::string(fn)+" called while an exception is pending"); }
    ~Enter() { nf_native=n; }
};
#define OBJ(h) Obj* o=v.deref(h,__func__); if(!o) return 0
#define OBJV(h) Obj* o=v.deref(h,__func__); if(!o) return

inline jclass JNICALL FindClass(JNIEnv*, const char* n) { Enter e("FindClass"); VM& v=vm(); if(!v.known(n)) { v.raise("java/lang/NoClassDefFoundError",n); return nullptr; } return (jclass)v.ref(v.cls(n)); }
inline jclass JNICALL GetObjectClass(JNIEnv*, jobject h) { Enter e("GetObjectClass"); VM& v=vm(); OBJ(h); return (jclass)v.ref(o->cls); }
inline jfieldID JNICALL GetFieldID(JNIEnv*, jclass h, const char* n, const char* s) { Enter e("GetFieldID"); VM& v=vm(); OBJ(h); Fid* f=v.find((Cls*)o,std::string(n)+" "+s);
    if(!f||f->stat) { v.raise("java/lang/NoSuchFieldError",n); return nullptr; } return (jfieldID)f; }
inline jfieldID JNICALL GetStaticFieldID(JNIEnv*, jclass h, const char* n, const char* s) { Enter e("GetStaticFieldID"); VM& v=vm(); OBJ(h); Fid* f=v.find((Cls*)o,std::string(n)+" "+s);
    if(!f||!f->stat) { v.raise("java/lang/NoSuchFieldError",n); return nullptr; } return (jfieldID)f; }
inline jobject JNICALL GetStaticObjectField(JNIEnv*, jclass h, jfieldID f) { Enter e("GetStaticObjectField"); VM& v=vm(); OBJ(h); if(!f) { v.report("GetStaticObjectField: null field"); return 0; } return (jobject)v.ref(((Cls*)o)->statics[((Fid*)f)->name]); }
inline jmethodID JNICALL GetMethodID(JNIEnv*, jclass h, const char* n, const char* s) { Enter e("GetMethodID"); VM& v=vm(); OBJ(h); Mid* m=v.findm((Cls*)o,std::string(n)+" "+s);
    if(!m) { v.raise("java/lang/NoSuchMethodError",n); return nullptr; } return (jmethodID)m; }
inline jclass JNICALL GetSuperclass(JNIEnv*, jclass h) { Enter e("GetSuperclass"); VM& v=vm(); OBJ(h); return (jclass)v.ref(((Cls*)o)->super); }
inline Fid* fidof(Obj* o, jfieldID f, const char* sig, const char* fn) { VM& v=vm(); Fid* k=(Fid*)f; if(!k) { v.report(std::string(fn)+": null field"); return nullptr; } if(!VM::isa(o->cls,k->cls)) { v.report(std::string(fn)+": field "+k->name+" of another class"); return nullptr; }
    bool ok = *sig=='L' ? (k->sig[0]=='L'||k->sig[0]=='[') : k->sig==sig; if(!ok) { v.report(std::string(fn)+": field "+k->name+" has type "+k->sig); return nullptr; } return k; }
#define GETTER(N,T,S,M) inline T JNICALL Get##N##Field(JNIEnv*, jobject h, jfieldID f) { Enter e("Get" #N "Field"); VM& v=vm(); OBJ(h); Fid* k=fidof(o,f,S,"Get" #N "Field"); if(!k) return 0; return (T)o->M[k->name]; }
#define SETTER(N,T,S,M) inline void JNICALL Set##N##Field(JNIEnv*, jobject h, jfieldID f, T x) { Enter e("Set" #N "Field"); VM& v=vm(); OBJV(h); Fid* k=fidof(o,f,S,"Set" #N "Field"); if(!k) return; o->M[k->name]=x; }
GETTER(Boolean,jboolean,"Z",i) GETTER(Int,jint,"I",i) GETTER(Long,jlong,"J",i) GETTER(Double,jdouble,"D",d) GETTER(Float,jfloat,"F",d)
SETTER(Boolean,jboolean,"Z",i) SETTER(Int,jint,"I",i) SETTER(Long,jlong,"J",i) SETTER(Double,jdouble,"D",d) SETTER(Float,jfloat,"F",d)
inline jobject JNICALL GetObjectField(JNIEnv*, jobject h, jfieldID f) { Enter e("GetObjectField"); VM& v=vm(); OBJ(h); Fid* k=fidof(o,f,"L","GetObjectField"); if(!k) return 0; return (jobject)v.ref(o->o[k->name]); }
inline void JNICALL SetObjectField(JNIEnv*, jobject h, jfieldID f, jobject x) { Enter e("SetObjectField"); VM& v=vm(); OBJV(h); Fid* k=fidof(o,f,"L","SetObjectField"); if(!k) return; o->o[k->name]= x? v.deref(x,"SetObjectField"):nullptr; }

// ---- methods
struct Args { std::vector<i64> a; };
inline i64 invoke(Obj* o, Mid* m, const std::vector<i64>& a, Obj** res) { VM& v=vm(); *res=nullptr;
    if(v.may_fail()) { v.raise("java/lang/OutOfMemoryError","injected"); return 0; }
    const std::string& n=m->name; const std::string& c=o->cls->name;
    if(c=="org/ddogleg/struct/GrowQueue_I32" && n=="resize") { int sz=(int)a[0]; Obj* d=o->o["data"]; if((int)d->n<sz) o->o["data"]=v.array('I',(size_t)sz); o->i["size"]=sz; return 0; }
    if(c=="org/ddogleg/struct/FastQueue" && n=="resize") { v.resize_queue(o,(int)a[0]); return 0; }
    if(c=="org/ddogleg/struct/FastQueue" && n=="get") { if(a[0]<0||a[0]>=o->i["size"]) { v.raise("java/lang/IllegalArgumentException","Out of bounds"); return 0; } *res=o->items[(size_t)a[0]]; return 0; }
    if(c=="boofcv/struct/BlockIndexLength" && n=="set") { o->i["start"]=a[0]; o->i["length"]=a[1]; o->i["block"]=a[2]; return 0; }
    if(c=="boofcv/struct/ConnectRule" && n=="ordinal") return o->i["ordinal"];
    if(c=="org/boofcpp/contour/NativeChang2004" && n=="addContour") { Obj* sp=o->o["storagePoints"]; Obj* d=sp->o["data"]; std::vector<int> k((int*)d->data,(int*)d->data+sp->i["size"]); v.contours.push_back({(int)a[0],{(int)a[1],k}}); return 0; }
    if(m->cls->name.compare(0,10,"java/lang/")==0) { if(n=="toString"||n=="getMessage"||n=="getName") { *res=v.make("java/lang/String"); (*res)->data=(unsigned char*)strdup(v.message.c_str()); } if(n=="getClass") *res=o->cls; return 0; }
    v.report("unexpected method "+c+"."+n); return 0; }
inline std::vector<i64> va_args(const Mid* m, va_list ap) { std::vector<i64> a; for(size_t i=1;i<m->sig.size()&&m->sig[i]!=')';i++) switch(m->sig[i]) { case 'J': a.push_back((i64)va_arg(ap,jlong)); break; default: a.push_back((i64)va_arg(ap,jint)); } return a; }
inline std::vector<i64> jv_args(const Mid* m, const jvalue* j) { std::vector<i64> a; size_t k=0; for(size_t i=1;i<m->sig.size()&&m->sig[i]!=')';i++,k++) a.push_back(m->sig[i]=='J'?(i64)j[k].j:(i64)j[k].i); return a; }
inline Mid* midof(Obj* o, jmethodID h, const char* ret) { VM& v=vm(); Mid* m=(Mid*)h; if(!m) { v.report("call of a null method"); return nullptr; } if(!VM::isa(o->cls,m->cls)) { v.report("method "+m->name+" of another class"); return nullptr; }
    char r=m->sig[m->sig.find(')')+1]; if(r!=*ret) { v.report("method "+m->name+" called with another return type"); return nullptr; } return m; }
#define CALLER(N,T,R,RET) \
 inline T JNICALL Call##N##MethodV(JNIEnv*, jobject h, jmethodID mh, va_list ap) { Enter e("Call" #N "Method"); VM& v=vm(); Obj* o=v.deref(h,"Call" #N "Method"); Mid* m=o?midof(o,mh,R):nullptr; Obj* res=nullptr; i64 x=0; if(m) x=invoke(o,m,va_args(m,ap),&res); (void)x; RET } \
 inline T JNICALL Call##N##MethodA(JNIEnv*, jobject h, jmethodID mh, const jvalue* j) { Enter e("Call" #N "Method"); VM& v=vm(); Obj* o=v.deref(h,"Call" #N "Method"); Mid* m=o?midof(o,mh,R):nullptr; Obj* res=nullptr; i64 x=0; if(m) x=invoke(o,m,jv_args(m,j),&res); (void)x; RET } \
 inline T JNICALL Call##N##Method(JNIEnv* env, jobject h, jmethodID mh, ...) { va_list ap; va_start(ap,mh); struct G{va_list&a;~G(){va_end(a);}} g{ap}; return Call##N##MethodV(env,h,mh,ap); }
CALLER(Void,void,"V",return;) CALLER(Int,jint,"I",return (jint)x;) CALLER(Object,jobject,"L",return (jobject)v.ref(res);) CALLER(Boolean,jboolean,"Z",return (jboolean)(x!=0);) CALLER(Long,jlong,"J",return (jlong)x;)
inline jobject newobj(jclass h) { VM& v=vm(); Obj* o=v.deref(h,"NewObject"); if(!o) return nullptr; if(v.may_fail()) { v.raise("java/lang/OutOfMemoryError","injected"); return nullptr; } return (jobject)v.ref(v.make(((Cls*)o)->name)); }
inline jobject JNICALL NewObject(JNIEnv*, jclass h, jmethodID, ...) { Enter e("NewObject"); return newobj(h); }
inline jobject JNICALL NewObjectV(JNIEnv*, jclass h, jmethodID, va_list) { Enter e("NewObject"); return newobj(h); }
inline jobject JNICALL NewObjectA(JNIEnv*, jclass h, jmethodID, const jvalue*) { Enter e("NewObject"); return newobj(h); }
inline jstring JNICALL NewStringUTF(JNIEnv*, const char* s) { Enter e("NewStringUTF"); VM& v=vm(); if(v.may_fail()) { v.raise("java/lang/OutOfMemoryError","injected"); return nullptr; } Obj* o=v.make("java/lang/String"); o->data=(unsigned char*)strdup(s?s:""); return (jstring)v.ref(o); }
inline const char* JNICALL GetStringUTFChars(JNIEnv*, jstring h, jboolean* c) { Enter e("GetStringUTFChars"); VM& v=vm(); OBJ(h); if(c) *c=JNI_FALSE; o->held++; return o->data?(const char*)o->data:""; }
inline void JNICALL ReleaseStringUTFChars(JNIEnv*, jstring h, const char*) { Enter e("ReleaseStringUTFChars",false,true); VM& v=vm(); OBJV(h); if(o->held--<=0) v.report("ReleaseStringUTFChars: not held"); }

// ---- arrays
inline jsize JNICALL GetArrayLength(JNIEnv*, jarray h) { Enter e("GetArrayLength"); VM& v=vm(); OBJ(h); if(!o->et) { v.report("GetArrayLength of something else"); return 0; } return (jsize)o->n; }
inline void* acquire(Obj* o, bool critical, jboolean* isCopy) { VM& v=vm(); v.gets++; Held h{o,nullptr,critical,v.copy_mode}; size_t b=o->n*esize(o->et);
    if(v.copy_mode) { h.p=malloc(std::max<size_t>(1,b)); memcpy(h.p,o->data,b); } else h.p=o->data;
    if(isCopy) *isCopy=v.copy_mode; o->held++; v.held.push_back(h); if(critical) v.critical++; return h.p; }
inline void release(Obj* o, void* p, jint mode, bool critical, const char* fn) { VM& v=vm(); 
    for(size_t i=v.held.size();i-->0;) if(v.held[i].arr==o && v.held[i].p==p && v.held[i].critical==critical) { Held h=v.held[i];
        if(mode!=0&&mode!=JNI_ABORT&&mode!=JNI_COMMIT) v.report(std::string(fn)+": unknown mode");
        if(h.copy && mode!=JNI_ABORT) memcpy(o->data,h.p,o->n*esize(o->et));
        if(mode==JNI_COMMIT) return;
        v.releases++; o->held--; if(h.copy) free(h.p); if(critical) v.critical--; v.held.erase(v.held.begin()+i); return; }
    v.report(std::string(fn)+": the array is not held with that pointer"); }
inline void* JNICALL GetPrimitiveArrayCritical(JNIEnv*, jarray h, jboolean* c) { Enter e("GetPrimitiveArrayCritical",true); VM& v=vm(); OBJ(h); if(!o->et) { v.report("GetPrimitiveArrayCritical of something else"); return 0; }
    if(v.may_fail()) return nullptr; return acquire(o,true,c); }
inline void JNICALL ReleasePrimitiveArrayCritical(JNIEnv*, jarray h, void* p, jint mode) { Enter e("ReleasePrimitiveArrayCritical",true,true); VM& v=vm(); OBJV(h); release(o,p,mode,true,"ReleasePrimitiveArrayCritical"); }
#define ARR(N,T,E) \
 inline T* JNICALL Get##N##ArrayElements(JNIEnv*, T##Array h, jboolean* c) { Enter e("Get" #N "ArrayElements"); VM& v=vm(); OBJ(h); if(o->et!=E) { v.report("Get" #N "ArrayElements of another type"); return 0; } if(v.may_fail()) { v.raise("java/lang/OutOfMemoryError","injected"); return nullptr; } return (T*)acquire(o,false,c); } \
 inline void JNICALL Release##N##ArrayElements(JNIEnv*, T##Array h, T* p, jint mode) { Enter e("Release" #N "ArrayElements",false,true); VM& v=vm(); OBJV(h); release(o,p,mode,false,"Release" #N "ArrayElements"); } \
 inline void JNICALL Get##N##ArrayRegion(JNIEnv*, T##Array h, jsize s, jsize n, T* b) { Enter e("Get" #N "ArrayRegion"); VM& v=vm(); OBJV(h); if(o->et!=E||s<0||n<0||(size_t)s+n>o->n) { v.raise("java/lang/ArrayIndexOutOfBoundsException",""); return; } memcpy(b,o->data+s*sizeof(T),n*sizeof(T)); } \
 inline void JNICALL Set##N##ArrayRegion(JNIEnv*, T##Array h, jsize s, jsize n, const T* b) { Enter e("Set" #N "ArrayRegion"); VM& v=vm(); OBJV(h); if(o->et!=E||s<0||n<0||(size_t)s+n>o->n) { v.raise("java/lang/ArrayIndexOutOfBoundsException",""); return; } memcpy(o->data+s*sizeof(T),b,n*sizeof(T)); }
ARR(Double,jdouble,'D') ARR(Long,jlong,'J') ARR(Byte,jbyte,'B') ARR(Short,jshort,'S') ARR(Int,jint,'I') ARR(Float,jfloat,'F')

// ---- exceptions and references
inline jboolean JNICALL ExceptionCheck(JNIEnv*) { Enter e("ExceptionCheck",false,true); return vm().pending?JNI_TRUE:JNI_FALSE; }
inline jthrowable JNICALL ExceptionOccurred(JNIEnv*) { Enter e("ExceptionOccurred",false,true); VM& v=vm(); if(!v.pending) return nullptr; Obj* x=v.make(v.pending->name); return (jthrowable)v.ref(x); }
inline void JNICALL ExceptionDescribe(JNIEnv*) { Enter e("ExceptionDescribe",false,true); vm().pending=nullptr; }
inline void JNICALL ExceptionClear(JNIEnv*) { Enter e("ExceptionClear",false,true); vm().pending=nullptr; }
inline jint JNICALL ThrowNew(JNIEnv*, jclass h, const char* m) { Enter e("ThrowNew"); VM& v=vm(); OBJ(h); v.raise(((Cls*)o)->name,m?m:""); return 0; }
inline jint JNICALL Throw(JNIEnv*, jthrowable h) { Enter e("Throw"); VM& v=vm(); OBJ(h); v.raise(o->cls->name,""); return 0; }
inline void JNICALL DeleteLocalRef(JNIEnv*, jobject h) { Enter e("DeleteLocalRef",false,true); VM& v=vm(); if(!h) return; Ref* r=(Ref*)h; if(!r->live) v.report("DeleteLocalRef: deleted twice"); else { r->live=false; v.live_refs--; } }
inline jobject JNICALL NewLocalRef(JNIEnv*, jobject h) { Enter e("NewLocalRef"); VM& v=vm(); if(!h) return 0; OBJ(h); return (jobject)v.ref(o); }
inline jobject JNICALL NewGlobalRef(JNIEnv*, jobject h) { Enter e("NewGlobalRef"); VM& v=vm(); if(!h) return 0; OBJ(h); return (jobject)v.ref(o,true); }
inline void JNICALL DeleteGlobalRef(JNIEnv*, jobject h) { Enter e("DeleteGlobalRef",false,true); if(h) ((Ref*)h)->live=false; }
inline jboolean JNICALL IsSameObject(JNIEnv*, jobject a, jobject b) { Enter e("IsSameObject"); return (a?((Ref*)a)->obj:nullptr)==(b?((Ref*)b)->obj:nullptr); }
inline jint JNICALL PushLocalFrame(JNIEnv*, jint) { Enter e("PushLocalFrame"); VM& v=vm(); if(v.may_fail()) { v.raise("java/lang/OutOfMemoryError","injected"); return -1; } v.frames.push_back(v.refs.size()); return 0; }
inline jobject JNICALL PopLocalFrame(JNIEnv*, jobject r) { Enter e("PopLocalFrame",false,true); VM& v=vm(); Obj* o= r? v.deref(r,"PopLocalFrame"):nullptr; if(v.frames.empty()) { v.report("PopLocalFrame without PushLocalFrame"); return nullptr; } v.drop_refs(v.frames.back()); v.frames.pop_back(); return (jobject)v.ref(o); }
inline jint JNICALL MonitorEnter(JNIEnv*, jobject h) { Enter e("MonitorEnter"); VM& v=vm(); OBJ(h); v.monitors++; return 0; }
inline jint JNICALL MonitorExit(JNIEnv*, jobject h) { Enter e("MonitorExit",false,true); VM& v=vm(); OBJ(h); if(v.monitors--<=0) v.report("MonitorExit without MonitorEnter"); return 0; }
inline jweak JNICALL NewWeakGlobalRef(JNIEnv* x, jobject h) { return (jweak)NewGlobalRef(x,h); }
inline void JNICALL DeleteWeakGlobalRef(JNIEnv* x, jweak h) { DeleteGlobalRef(x,(jobject)h); }
inline void JNICALL FatalError(JNIEnv*, const char* m) { fprintf(stderr,"VH-TERMINATE case 0: FatalError %s\n",m?m:""); abort(); }
inline jboolean JNICALL IsAssignableFrom(JNIEnv*, jclass a, jclass b) { Enter e("IsAssignableFrom"); VM& v=vm(); Obj* o=v.deref(a,"IsAssignableFrom"); Obj* q=v.deref(b,"IsAssignableFrom"); return o&&q&&VM::isa((Cls*)o,(Cls*)q); }
inline jint JNICALL EnsureLocalCapacity(JNIEnv*, jint) { Enter e("EnsureLocalCapacity"); return 0; }
inline jint JNICALL GetVersion(JNIEnv*) { Enter e("GetVersion"); return JNI_VERSION_1_8; }
inline jboolean JNICALL IsInstanceOf(JNIEnv*, jobject h, jclass c) { Enter e("IsInstanceOf"); VM& v=vm(); if(!h) return JNI_TRUE; OBJ(h); return VM::isa(o->cls,(Cls*)((Ref*)c)->obj); }
inline void unimplemented() { fprintf(stderr,"VH-HARNESS: a JNI function the stand-in lacks was called\n"); _exit(96); }

inline JNIEnv* env() { static JNIEnv E; static bool done=false; if(done) return &E; done=true;
    static JNINativeInterface_ t; void** p=(void**)&t; for(size_t i=0;i<sizeof t/sizeof(void*);i++) p[i]=(void*)&unimplemented;
#define S(x) t.x=x;
    S(FindClass) S(GetObjectClass) S(GetFieldID) S(GetStaticFieldID) S(GetStaticObjectField) S(GetMethodID)
    S(GetBooleanField) S(GetIntField) S(GetLongField) S(GetDoubleField) S(GetFloatField) S(GetObjectField) S(SetBooleanField) S(SetIntField) S(SetLongField) S(SetDoubleField) S(SetFloatField) S(SetObjectField)
    S(CallVoidMethod) S(CallVoidMethodV) S(CallVoidMethodA) S(CallIntMethod) S(CallIntMethodV) S(CallIntMethodA) S(CallObjectMethod) S(CallObjectMethodV) S(CallObjectMethodA)
    S(GetArrayLength) S(GetPrimitiveArrayCritical) S(ReleasePrimitiveArrayCritical)
    S(GetByteArrayElements) S(ReleaseByteArrayElements) S(GetByteArrayRegion) S(SetByteArrayRegion) S(GetShortArrayElements) S(ReleaseShortArrayElements) S(GetShortArrayRegion) S(SetShortArrayRegion)
    S(GetIntArrayElements) S(ReleaseIntArrayElements) S(GetIntArrayRegion) S(SetIntArrayRegion) S(GetFloatArrayElements) S(ReleaseFloatArrayElements) S(GetFloatArrayRegion) S(SetFloatArrayRegion)
    S(ExceptionCheck) S(ExceptionOccurred) S(ExceptionDescribe) S(ExceptionClear) S(ThrowNew) S(Throw) S(DeleteLocalRef) S(NewLocalRef) S(NewGlobalRef) S(DeleteGlobalRef) S(IsSameObject) S(EnsureLocalCapacity) S(GetVersion) S(IsInstanceOf)
    S(GetSuperclass) S(CallBooleanMethod) S(CallBooleanMethodV) S(CallBooleanMethodA) S(CallLongMethod) S(CallLongMethodV) S(CallLongMethodA) S(NewObject) S(NewObjectV) S(NewObjectA) S(NewStringUTF) S(GetStringUTFChars) S(ReleaseStringUTFChars)
    S(PushLocalFrame) S(PopLocalFrame) S(MonitorEnter) S(MonitorExit) S(NewWeakGlobalRef) S(DeleteWeakGlobalRef) S(FatalError) S(IsAssignableFrom)
    S(GetDoubleArrayElements) S(ReleaseDoubleArrayElements) S(GetDoubleArrayRegion) S(SetDoubleArrayRegion) S(GetLongArrayElements) S(ReleaseLongArrayElements) S(GetLongArrayRegion) S(SetLongArrayRegion)
#undef S
    E.functions=&t; return &E; }

// ---- the Java classes
inline void define() { VM& v=vm();
    { std::string p="boofcv/struct/image/"; for(auto f:{"width","height","stride","startIndex"}) v.field(p+"ImageBase",f,"I"); v.extends(p+"ImageGray",p+"ImageBase"); v.extends(p+"GrayI",p+"ImageGray"); v.extends(p+"GrayF",p+"ImageGray"); v.extends(p+"GrayI8",p+"GrayI"); v.extends(p+"GrayI16",p+"GrayI"); v.field(p+"GrayI8","data","[B"); v.field(p+"GrayI16","data","[S");
      for(auto n:{"GrayU8","GrayS8"}) v.extends(p+n,p+"GrayI8"); for(auto n:{"GrayS16","GrayU16"}) v.extends(p+n,p+"GrayI16"); for(auto n:{"GrayS32","GrayS64"}) v.extends(p+n,p+"GrayI"); for(auto n:{"GrayF32","GrayF64"}) v.extends(p+n,p+"GrayF");
      p="boofcv/struct/convolve/"; for(auto f:{"width","offset"}) v.field(p+"KernelBase",f,"I"); for(auto d:{"Kernel1D","Kernel2D"}) { v.extends(p+d,p+"KernelBase"); for(auto t:{"_S32","_F32","_F64"}) v.extends(p+d+t,p+d); }
      p="org/boofcpp/"; for(auto f:{"isInteger"}) v.field(p+"NativeBase",f,"Z"); for(auto f:{"inputBits","outputBits"}) v.field(p+"NativeBase",f,"I"); v.field(p+"NativeBase","nativePtr","J"); v.extends(p+"threshold/NativeThresholdBase",p+"NativeBase");
      for(auto n:{"GlobalFixed","GlobalOtsu","LocalMean","BlockMean","BlockMinMax","BlockOtsu"}) v.extends(p+"threshold/Native"+n,p+"threshold/NativeThresholdBase"); for(auto n:{"ConvolveImage","ImageBlurOps","ImageConvolveNormalized"}) v.extends(p+"convolve/Native"+n,p+"NativeBase"); }
    struct I { const char* n; const char* s; } im[]={{"GrayU8","[B"},{"GrayS8","[B"},{"GrayS16","[S"},{"GrayU16","[S"},{"GrayS32","[I"},{"GrayF32","[F"},{"GrayF64","[D"},{"GrayS64","[J"}};
    for(auto& k:im) { std::string c=std::string("boofcv/struct/image/")+k.n; v.field(c,"data",k.s); for(auto f:{"width","height","stride","startIndex"}) v.field(c,f,"I"); }
    for(int d=1;d<=2;d++) for(auto t:{"S32","F32","F64"}) { std::string c=strf("boofcv/struct/convolve/Kernel%dD_%s",d,t); v.field(c,"width","I"); v.field(c,"offset","I"); v.field(c,"data",t[0]=='S'?"[I":t[1]=='3'?"[F":"[D"); }
    v.field("boofcv/struct/ConfigLength","length","D"); v.field("boofcv/struct/ConfigLength","fraction","D");
    for(auto c:{"org/boofcpp/threshold/NativeGlobalFixed","org/boofcpp/threshold/NativeGlobalOtsu","org/boofcpp/threshold/NativeLocalMean","org/boofcpp/threshold/NativeBlockMean","org/boofcpp/threshold/NativeBlockMinMax","org/boofcpp/threshold/NativeBlockOtsu","org/boofcpp/convolve/NativeConvolveImage","org/boofcpp/convolve/NativeImageBlurOps","org/boofcpp/convolve/NativeImageConvolveNormalized"}) {
        v.field(c,"isInteger","Z"); v.field(c,"nativePtr","J"); v.field(c,"inputBits","I"); v.field(c,"outputBits","I"); }
    const char* q="org/ddogleg/struct/GrowQueue_I32"; v.field(q,"data","[I"); v.field(q,"size","I"); v.method(q,"resize","(I)V");
    q="org/ddogleg/struct/FastQueue"; v.field(q,"size","I"); v.method(q,"resize","(I)V"); v.method(q,"get","(I)Ljava/lang/Object;");
    q="boofcv/struct/BlockIndexLength"; for(auto f:{"start","length","block"}) v.field(q,f,"I"); v.method(q,"set","(III)V");
    q="boofcv/struct/PackedSetsPoint2D_I32"; v.field(q,"blockLength","I"); v.field(q,"blocks","Lorg/ddogleg/struct/FastQueue;"); v.field(q,"sets","Lorg/ddogleg/struct/FastQueue;");
    q="boofcv/struct/ConnectRule"; v.field(q,"FOUR","Lboofcv/struct/ConnectRule;",true); v.field(q,"EIGHT","Lboofcv/struct/ConnectRule;",true); v.method(q,"ordinal","()I");
    Cls* k=v.cls(q); int o=0; for(auto n:{"FOUR","EIGHT"}) { Obj* x=new Obj; x->cls=k; x->i["ordinal"]=o++; k->statics[n]=x; }
    q="org/boofcpp/contour/NativeChang2004"; v.field(q,"nativePtr","J"); v.field(q,"storagePoints","Lorg/ddogleg/struct/GrowQueue_I32;"); v.field(q,"packedPoints","Lboofcv/struct/PackedSetsPoint2D_I32;"); v.field(q,"storageContours","Lorg/ddogleg/struct/FastQueue;"); v.method(q,"addContour","(II)V");
}

// ---- helpers to build objects
template<class T> struct JT; template<> struct JT<uint8_t>{ static const char* c(){return "GrayU8";} static const char e='B'; }; template<> struct JT<int16_t>{ static const char* c(){return "GrayS16";} static const char e='S'; };
template<> struct JT<int32_t>{ static const char* c(){return "GrayS32";} static const char e='I'; }; template<> struct JT<float>{ static const char* c(){return "GrayF32";} static const char e='F'; };
template<> struct JT<uint16_t>{ static const char* c(){return "GrayU16";} static const char e='S'; }; template<> struct JT<double>{ static const char* c(){return "GrayF64";} static const char e='D'; }; template<> struct JT<int64_t>{ static const char* c(){return "GrayS64";} static const char e='J'; };

struct JImage { Obj* o=nullptr; Obj* arr=nullptr; uint32_t w=0,h=0,off=0,stride=0; std::vector<unsigned char> snap; bool shared=false;   // shared: other images lie in the same array
    void snapshot() { snap.assign(arr->data,arr->data+arr->n*esize(arr->et)); }
    bool same() const { if(shared) { size_t es=esize(arr->et); for(uint32_t y=0;w&&y<h;y++) { size_t a=(off+(size_t)y*stride)*es; if(memcmp(&snap[a],arr->data+a,w*es)) return false; } return true; } return snap.empty()||memcmp(snap.data(),arr->data,snap.size())==0; }
    // everything but the pixels of the image
    bool outside_same() const { size_t es=esize(arr->et); std::vector<unsigned char> now(arr->data,arr->data+arr->n*es), was=snap; for(uint32_t y=0;y<h;y++) { size_t a=(off+(size_t)y*stride)*es; if(w) { memset(&now[a],0,w*es); memset(&was[a],0,w*es); } } return now==was; }
    bool fields_same() const { return o->i["width"]==w&&o->i["height"]==h&&o->i["stride"]==stride&&o->i["startIndex"]==off&&o->o["data"]==arr; }
    template<class T> Mat<T> read() const { Mat<T> m(w,h); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) m(x,y)=((T*)arr->data)[off+(size_t)y*stride+x]; return m; } };
template<class T> JImage jimage(Rng& r, uint32_t w, uint32_t h, const Mat<T>* m=nullptr, int layout=-1) { VM& v=vm(); JImage j; j.w=w; j.h=h; if(layout<0) layout=(int)r.range(0,2); size_t len;
    if(layout==0) { j.off=0; j.stride=w; len=(size_t)w*h; }                                             // plain
    else if(layout==1) { j.off=0; j.stride=w; len=(size_t)w*h+(size_t)r.range(0,9); }                    // reshaped inside a larger array
    else { uint32_t pw=w+(uint32_t)r.range(0,6), ph=h+(uint32_t)r.range(0,4), x0=(uint32_t)r.range(0,pw-w), y0=(uint32_t)r.range(0,ph-h); j.stride=pw; j.off=y0*pw+x0; len=(size_t)pw*ph; }   // sub-image
    j.arr=v.array(JT<T>::e,len); T* d=(T*)j.arr->data; for(size_t i=0;i<len;i++) d[i]=garbage<T>(r);
    if(m) for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) d[j.off+(size_t)y*j.stride+x]=(*m)(x,y);
    j.o=v.make(std::string("boofcv/struct/image/")+JT<T>::c()); j.o->i["width"]=w; j.o->i["height"]=h; j.o->i["stride"]=j.stride; j.o->i["startIndex"]=j.off; j.o->o["data"]=j.arr; j.snapshot(); return j; }
// n images of the same shape which are disjoint tiles of one array; the first has the content m
template<class T> std::vector<JImage> jtiles(Rng& r, uint32_t w, uint32_t h, const Mat<T>& m, int n) { VM& v=vm(); std::vector<int> slot; for(int k=0;k<n;k++) slot.push_back(k); for(int k=n-1;k>0;k--) std::swap(slot[k],slot[r.range(0,k)]);
    bool across=r.chance(.5); uint32_t gx=r.chance(.5)?0:(uint32_t)r.range(0,3), gy=r.chance(.5)?0:(uint32_t)r.range(0,3), x0=(uint32_t)r.range(0,2), y0=(uint32_t)r.range(0,2); uint32_t pw=x0+(across?n*(w+gx):w+gx), ph=y0+(across?h+gy:n*(h+gy)); Obj* arr=v.array(JT<T>::e,(size_t)pw*ph); T* d=(T*)arr->data; for(size_t i=0;i<(size_t)pw*ph;i++) d[i]=garbage<T>(r);
    std::vector<JImage> out; for(int k=0;k<n;k++) { JImage j; j.w=w; j.h=h; j.shared=true; j.arr=arr; j.stride=pw; uint32_t x=x0+(across?slot[k]*(w+gx):0), y=y0+(across?0:slot[k]*(h+gy)); j.off=y*pw+x; if(k==0) for(uint32_t b=0;b<h;b++) for(uint32_t a=0;a<w;a++) d[j.off+(size_t)b*pw+a]=m(a,b); j.o=v.make(std::string("boofcv/struct/image/")+JT<T>::c()); j.o->i["width"]=w; j.o->i["height"]=h; j.o->i["stride"]=pw; j.o->i["startIndex"]=j.off; j.o->o["data"]=arr; out.push_back(j); }
    for(auto& j:out) j.snapshot(); return out; }
template<class T> Obj* jkernel(int dim, const std::vector<T>& d, int width, int offset) { VM& v=vm(); Obj* a=v.array(sizeof(T)==8?'D':IsF<T>::v?'F':'I',d.size()); memcpy(a->data,d.data(),d.size()*sizeof(T)); Obj* o=v.make(strf("boofcv/struct/convolve/Kernel%dD_%s",dim,sizeof(T)==8?"F64":IsF<T>::v?"F32":"S32")); o->i["width"]=width; o->i["offset"]=offset; o->o["data"]=a; return o; }
inline Obj* jlength(double length, double fraction) { Obj* o=vm().make("boofcv/struct/ConfigLength"); o->d["length"]=length; o->d["fraction"]=fraction; return o; }
inline Obj* jowner(const char* cls, bool isInteger, int in, int out) { Obj* o=vm().make(cls); o->i["isInteger"]=isInteger; o->i["inputBits"]=in; o->i["outputBits"]=out; o->i["nativePtr"]=0; return o; }
inline Obj* jchang() { VM& v=vm(); Obj* o=v.make("org/boofcpp/contour/NativeChang2004"); o->i["nativePtr"]=0; Obj* g=v.make("org/ddogleg/struct/GrowQueue_I32"); g->o["data"]=v.array('I',10); g->i["size"]=0; o->o["storagePoints"]=g;
    Obj* p=v.make("boofcv/struct/PackedSetsPoint2D_I32"); p->i["blockLength"]=4000; Obj* b=v.make("org/ddogleg/struct/FastQueue"); b->i["kind"]=0; b->i["blockLength"]=4000; b->i["size"]=0; Obj* s=v.make("org/ddogleg/struct/FastQueue"); s->i["kind"]=1; s->i["size"]=0; p->o["blocks"]=b; p->o["sets"]=s; o->o["packedPoints"]=p; v.resize_queue(b,1); return o; }

// ---- a call of a native method from Java. Returns true if it returned normally, false if a Java exception is pending
template<class F> bool native(Ctx& c, const char* what, F f, i64 new_fault=-1) { VM& v=vm(); v.fallible=0; v.max_refs=v.live_refs;
    size_t first=v.refs.size(); bool escaped=false; std::string ex;
    { Track t; nf_count=0; nf_countdown=new_fault; nf_native=true;
      try { f(); } catch(const std::exception& e) { nf_native=false; Untrack u; escaped=true; ex=e.what(); } catch(...) { nf_native=false; escaped=true; } nf_native=false; nf_countdown=-1; }
    if(escaped) c.fail(std::string("cpp-exception-escapes:")+what,"%s: a C++ exception (%s) left the native method%s",what,ex.c_str(),v.held.size()?strf(", with %zu arrays held",v.held.size()).c_str():"");
    if(!v.bad.empty()) c.fail(std::string("jni-rule:")+what,"%s: %s",what,v.bad[0].c_str());
    if(!v.held.empty()) c.fail(std::string("array-not-released:")+what,"%s: %zu arrays were not released%s",what,v.held.size(),v.pending?" (an exception is pending)":"");
    if(!v.frames.empty()) { c.fail(std::string("jni-rule:")+what,"%s: a local frame was not popped",what); v.frames.clear(); }
    if(v.monitors) { c.fail(std::string("jni-rule:")+what,"%s: a monitor is still held",what); v.monitors=0; }
    // local references die when the method returns
    size_t k=first; for(size_t i=first;i<v.refs.size();i++) { Ref* r=v.refs[i]; if(r->global) v.refs[k++]=r; else { if(r->live) v.live_refs--; delete r; } } v.refs.resize(k);
    bool ok=!v.pending; return ok; }
inline jobject H(Obj* o) { bool n=nf_native; nf_native=false; Untrack u; jobject r=(jobject)vm().ref(o); nf_native=n; return r; }
} // namespace mj

extern "C" {
#define NT(n) void Java_org_boofcpp_threshold_Native##n##_nativedestroy(JNIEnv*,jobject); void Java_org_boofcpp_threshold_Native##n##_nativeprocess(JNIEnv*,jobject,jobject,jobject);
NT(GlobalFixed) NT(GlobalOtsu) NT(LocalMean) NT(BlockMean) NT(BlockMinMax) NT(BlockOtsu)
#undef NT
void Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(JNIEnv*,jobject,jdouble,jboolean);
void Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(JNIEnv*,jobject,jdouble,jdouble,jboolean);
void Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(JNIEnv*,jobject,jobject,jdouble,jboolean);
void Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(JNIEnv*,jobject,jobject,jdouble,jboolean,jboolean);
void Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(JNIEnv*,jobject,jobject,jdouble,jboolean,jdouble,jboolean);
void Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(JNIEnv*,jobject,jboolean,jobject,jdouble,jdouble,jboolean,jboolean);
void Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(JNIEnv*,jobject,jobject,jobject,jint,jobject);
void Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(JNIEnv*,jobject,jobject,jobject,jdouble,jint,jobject);
void Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(JNIEnv*,jobject,jobject,jobject,jobject,jint);
void Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(JNIEnv*,jobject,jobject,jobject,jobject,jint);
void Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(JNIEnv*,jobject,jobject,jobject,jobject,jint);
void Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(JNIEnv*,jobject,jobject,jobject,jobject);
void Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(JNIEnv*,jobject,jobject,jobject,jobject);
void Java_org_boofcpp_contour_NativeChang2004_native_1init(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_native_1destroy(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_native_1process(JNIEnv*,jobject,jobject,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour(JNIEnv*,jobject,jboolean);
jboolean Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setMinContour(JNIEnv*,jobject,jint);
jint Java_org_boofcpp_contour_NativeChang2004_getMinContour(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setMaxContour(JNIEnv*,jobject,jint);
jint Java_org_boofcpp_contour_NativeChang2004_getMaxContour(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setConnectRule(JNIEnv*,jobject,jobject);
jobject Java_org_boofcpp_contour_NativeChang2004_getConnectRule(JNIEnv*,jobject);
}
