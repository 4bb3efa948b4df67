#include "simio.h"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <algorithm>

namespace sim { namespace io {
Counters n; long full_at=-1;
namespace {
bool on=false; std::string target; std::vector<Fault> faults;
bool simfd[1024]; bool simwrites[1024]; long high[1024];
long written=0;
int busy=0;
bool match(const char* p){ if(!on||!p||busy)return false; const char* s=strrchr(p,'/'); s=s?s+1:p; return !strncmp(s,target.c_str(),target.size()); } // also temporary files named after it
const Fault* due(const char* call,long k){ for(auto&f:faults)if(f.call==call&&k>=f.nth&&(f.times<0||k<f.nth+f.times))return &f; return nullptr; }
bool is_sim(int fd){return on&&fd>=0&&fd<1024&&simfd[fd];}
void mark(int fd,bool w){ if(fd>=0&&fd<1024){simfd[fd]=true;simwrites[fd]=w;high[fd]=0;} }
}
bool hard(const Fault& f){return f.what==W_ERROR||f.what==W_EOF||f.what==W_SHRINK;}
void plan(const std::string& name,const std::vector<Fault>& f){target=name;faults=f;n=Counters();memset(simfd,0,sizeof simfd);written=0;on=true;}
void stop(){on=false;}
static void change_size(int fd,const Fault* f){
    struct stat st; if(fstat(fd,&st)!=0)return;
    if(f->what==W_SHRINK){ if(f->arg<st.st_size&&ftruncate(fd,f->arg)==0){n.fired_hard++;n.shrunk_to=f->arg;} }
    else { std::string junk(size_t(f->arg),'x'); if(f->arg%3==0)junk.assign(size_t(f->arg),' '); ssize_t r=pwrite(fd,junk.data(),junk.size(),st.st_size);(void)r; n.fired_benign++; }
}
}}
using namespace sim::io;
#define REAL(name,...) using RealT=__VA_ARGS__; static RealT real=(RealT)dlsym(RTLD_NEXT,name)

extern "C" {
static FILE* sim_fopen(const char* path,const char* mode,FILE*(*real)(const char*,const char*)){
    n.opens++; const Fault* f=due("open",n.opens);
    if(f&&f->what==W_ERROR){n.fired_hard++;errno=(int)f->arg;return nullptr;}
    FILE* p=real(path,mode); if(p)mark(fileno(p),mode[0]!='r'); return p;
}
// C streams read and write inside libc, out of reach: those opened by the code
// under test get functions that go through the simulated calls
ssize_t read(int,void*,size_t); ssize_t write(int,const void*,size_t); int close(int); off_t lseek(int,off_t,int)noexcept;
static FILE* cstream[64]; static int cstream_fd[64];
static int slot(FILE* p){ if(p)for(int i=0;i<64;i++)if(cstream[i]==p)return i; return -1; }
static int fd_of(void* c){return int(intptr_t(c));}
static ssize_t ck_read(void* c,char* b,size_t k){ for(int i=0;;i++){ssize_t r=read(fd_of(c),b,k); if(r<0&&errno==EINTR&&i<1000)continue; return r;} }
static ssize_t ck_write(void* c,const char* b,size_t k){ size_t done=0; int i=0; while(done<k){ssize_t r=write(fd_of(c),b+done,k-done); if(r<0){if(errno==EINTR&&i++<1000)continue; break;} done+=size_t(r);} return (ssize_t)done; }
static int ck_seek(void* c,off64_t* p,int wh){ long r=lseek(fd_of(c),*p,wh); if(r<0)return -1; *p=r; return 0; }
static int ck_close(void* c){ return close(fd_of(c)); }
static int sim_open(int(*real)(const char*,int,...),const char* path,int flags,int mode);
static FILE* sim_cstream(const char* path,const char* mode){
    REAL("open",int(*)(const char*,int,...)); bool plus=strchr(mode,'+')!=nullptr; int fl=mode[0]=='r'?0:O_CREAT|(mode[0]=='w'?O_TRUNC:O_APPEND); fl|=plus?O_RDWR:mode[0]=='r'?O_RDONLY:O_WRONLY;
    int fd; do fd=sim_open(real,path,fl,0666); while(fd<0&&errno==EINTR); if(fd<0)return nullptr;
    FILE* p=fopencookie((void*)intptr_t(fd),mode,{ck_read,ck_write,ck_seek,ck_close}); if(!p){int e=errno;close(fd);errno=e;return nullptr;}
    for(int i=0;i<64;i++)if(!cstream[i]){cstream[i]=p;cstream_fd[i]=fd;break;}
    return p;
}
static bool from_streams(void* ra){ Dl_info d; return dladdr(ra,&d)&&d.dli_fname&&strstr(d.dli_fname,"libstdc++"); }
FILE* fopen(const char* path,const char* mode){REAL("fopen",FILE*(*)(const char*,const char*)); if(match(path))return from_streams(__builtin_return_address(0))?sim_fopen(path,mode,real):sim_cstream(path,mode); return real(path,mode);}
FILE* fopen64(const char* path,const char* mode){REAL("fopen64",FILE*(*)(const char*,const char*)); if(match(path))return from_streams(__builtin_return_address(0))?sim_fopen(path,mode,real):sim_cstream(path,mode); return real(path,mode);}
int fileno(FILE* p)noexcept{REAL("fileno",int(*)(FILE*)); int i=slot(p); return i>=0?cstream_fd[i]:real(p);}
static int sim_open(int(*real)(const char*,int,...),const char* path,int flags,int mode){
    n.opens++; const Fault* f=due("open",n.opens);
    if(f&&f->what==W_ERROR){n.fired_hard++;errno=(int)f->arg;return -1;}
    if(f&&f->what==W_EINTR){n.fired_benign++;errno=EINTR;return -1;}
    int fd=real(path,flags,mode); if(fd>=0)mark(fd,(flags&O_ACCMODE)!=O_RDONLY); return fd;
}
int open(const char* path,int flags,...){va_list a;va_start(a,flags);int m=va_arg(a,int);va_end(a);REAL("open",int(*)(const char*,int,...));if(match(path))return sim_open(real,path,flags,m);return real(path,flags,m);}
int open64(const char* path,int flags,...){va_list a;va_start(a,flags);int m=va_arg(a,int);va_end(a);REAL("open64",int(*)(const char*,int,...));if(match(path))return sim_open(real,path,flags,m);return real(path,flags,m);}

static std::string current_path(int fd){char b[64],p[4096];snprintf(b,sizeof b,"/proc/self/fd/%d",fd);ssize_t k=readlink(b,p,sizeof p-1);return k>0?std::string(p,size_t(k)):"";}
static void resize_file(int fd,const Fault* f){
    // through a second descriptor: the one under test may be read-only
    std::string p=current_path(fd); if(p.empty())return;
    busy++; REAL("open",int(*)(const char*,int,...)); int g=real(p.c_str(),O_RDWR,0); busy--; if(g<0)return; change_size(g,f);
    using C=int(*)(int); static C rc=(C)dlsym(RTLD_NEXT,"close"); rc(g);
}
ssize_t read(int fd,void* b,size_t k){
    REAL("read",ssize_t(*)(int,void*,size_t));
    if(!is_sim(fd))return real(fd,b,k);
    n.reads++; const Fault* f=due("read",n.reads); size_t ask=k;
    if(f){ switch(f->what){
        case W_ERROR:n.fired_hard++;errno=(int)f->arg;return -1;
        case W_EINTR:n.fired_benign++;errno=EINTR;return -1;
        case W_EOF:n.fired_hard++;return 0;
        case W_SHRINK:case W_GROW:resize_file(fd,f);break;
        case W_SHORT:{size_t s=std::max<long>(1,f->arg);if(s<ask){ask=s;n.fired_benign++;}break;} } }
    ssize_t r=real(fd,b,ask);
    if(r>0){using L=long(*)(int,long,int); static L rl=(L)dlsym(RTLD_NEXT,"lseek"); off_t at=rl(fd,0,SEEK_CUR);if((long)at>high[fd])high[fd]=(long)at;n.delivered=std::max(n.delivered,high[fd]);}
    return r;
}
static long sim_seek(int fd,long off,int wh,long(*real)(int,long,int)){
    n.seeks++; const Fault* f=due("seek",n.seeks);
    if(f){ if(f->what==W_ERROR){n.fired_hard++;errno=(int)f->arg;return -1;} if(f->what==W_SHRINK||f->what==W_GROW)resize_file(fd,f); }
    return real(fd,off,wh);
}
off_t lseek(int fd,off_t off,int wh)noexcept{REAL("lseek",long(*)(int,long,int)); if(!is_sim(fd)||busy)return real(fd,off,wh); return sim_seek(fd,off,wh,real);}
off64_t lseek64(int fd,off64_t off,int wh)noexcept{REAL("lseek64",long(*)(int,long,int)); if(!is_sim(fd)||busy)return real(fd,off,wh); return sim_seek(fd,off,wh,real);}
// decides how many of k bytes are accepted now; -1 with errno for an error
static long accept_bytes(long k){
    n.writes++; const Fault* f=due("write",n.writes); long m=k;
    if(f){ if(f->what==W_ERROR){n.fired_hard++;errno=(int)f->arg;return -1;} if(f->what==W_EINTR){n.fired_benign++;errno=EINTR;return -1;} if(f->what==W_SHORT){long s=std::max(1L,f->arg);if(s<m){m=s;n.fired_benign++;}} }
    if(full_at>=0&&k>0){ if(written>=full_at){n.fired_hard++;errno=ENOSPC;return -1;} m=std::min(m,full_at-written); }
    return m;
}
ssize_t write(int fd,const void* b,size_t k){
    REAL("write",ssize_t(*)(int,const void*,size_t)); if(!is_sim(fd))return real(fd,b,k);
    long m=accept_bytes((long)k); if(m<0)return -1; ssize_t r=real(fd,b,size_t(m)); if(r>0)written+=r; return r;
}
ssize_t writev(int fd,const struct iovec* v,int c){
    REAL("writev",ssize_t(*)(int,const struct iovec*,int)); if(!is_sim(fd))return real(fd,v,c);
    std::string s; for(int i=0;i<c;i++)s.append((const char*)v[i].iov_base,v[i].iov_len);
    long m=accept_bytes((long)s.size()); if(m<0)return -1; using W=ssize_t(*)(int,const void*,size_t); static W w=(W)dlsym(RTLD_NEXT,"write"); ssize_t r=w(fd,s.data(),size_t(m)); if(r>0)written+=r; return r;
}
// a failing close loses what was written last (a delayed write that did not reach the disk)
static const Fault* close_fault(int fd){ n.closes++; const Fault* f=due("close",n.closes); if(f&&f->what==W_ERROR&&simwrites[fd]){n.fired_hard++; struct stat st; if(fstat(fd,&st)==0&&st.st_size>0){int r=ftruncate(fd,std::max<long>(0,(long)st.st_size-1-f->times*7));(void)r;} } return f; }
int fclose(FILE* p){
    REAL("fclose",int(*)(FILE*)); {int i=slot(p); if(i>=0){cstream[i]=nullptr; return real(p);}} int fd=fileno(p); if(!is_sim(fd))return real(p);
    fflush(p); const Fault* f=close_fault(fd); simfd[fd]=false; int r=real(p); if(f&&f->what==W_ERROR){errno=(int)f->arg;return EOF;} return r;
}
int close(int fd){
    REAL("close",int(*)(int)); if(!is_sim(fd))return real(fd);
    const Fault* f=close_fault(fd); simfd[fd]=false; int r=real(fd); if(f&&f->what==W_ERROR){errno=(int)f->arg;return -1;} return r;
}
}
