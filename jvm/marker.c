/* A native library that records that it was loaded: path, size and hash of the file it was loaded from. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <jni.h>
JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM* vm, void* reserved) {
    Dl_info d; const char* log=getenv("VH_LOADS"); unsigned long long h=1469598103934665603ULL; long n=0; int c; FILE *f,*o; (void)vm; (void)reserved;
    if(log&&dladdr((void*)&JNI_OnLoad,&d)&&d.dli_fname) { f=fopen(d.dli_fname,"rb"); if(f) { while((c=fgetc(f))!=EOF) { h=(h^(unsigned)c)*1099511628211ULL; n++; } fclose(f); } else n=-1; o=fopen(log,"a"); if(o) { fprintf(o,"%016llx %ld %s\n",h,n,d.dli_fname); fclose(o); } }
    return JNI_VERSION_1_6;
}
