#include "base.h"
#include <cstdarg>
#include <ctime>
#include <cerrno>
#include <algorithm>
#include <new>
#include <set>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>

namespace sim {
Stats stats;
bool thorough=false;
uint64_t base_seed=1;

std::string fmt(const char* f,...){
    va_list a; va_start(a,f); char* p=nullptr; if(vasprintf(&p,f,a)<0)p=nullptr; va_end(a);
    std::string s=p?p:""; free(p); return s;
}
std::vector<std::string> split(const std::string& s,char sep){
    std::vector<std::string> r; size_t i=0;
    while(i<=s.size()){ size_t j=s.find(sep,i); if(j==std::string::npos)j=s.size();
        if(j>i)r.push_back(s.substr(i,j-i)); i=j+1; }
    return r;
}
std::string jstr(const std::string& s){
    std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n')r+="\\n"; else if(c=='\t')r+="\\t"; else if(c<32||c>126)r+=fmt("\\u%04x",c); else r+=c;} return r+"\"";
}

// ------------------------------------------------------------------ heap
uint64_t pattern(uint64_t seed,int mode,uint64_t i){
    switch(mode){
        case 0: return 0;
        case 1: return mix(seed+i*0x9E3779B97F4A7C15ull);
        case 2: return 0x7ff8000000000000ull|(mix(seed+i)&0xffff);
        case 3: { double d=1e3+double(mix(seed+i)%100000000ull); uint64_t u; memcpy(&u,&d,8); return u; }
        case 4: return 0xAAAAAAAAAAAAAAAAull;
        case 5: { double d=-1.5-double(mix(seed+i)%1000)/7.0; uint64_t u; memcpy(&u,&d,8); return u; }
        default: return 0xFFFFFFFFFFFFFFFFull;
    }
}
namespace heap {
State st;
struct Block{ uint64_t magic; uint64_t size; uint64_t cls; Block* next; uint64_t lib; uint64_t pad; };   // 48 byte header
static const uint64_t LIVE=0x51A1B10C51A1B10Cull, DEAD=0xDEADB10CDEADB10Cull, GUARD=0xC0FFEE11C0FFEE22ull;
static char* const BASE=(char*)0x200000000000ull;
static const size_t SIZE=size_t(8)<<30;
static char* top=nullptr; static char* mapped_end=nullptr;
static const int NCLS=64;
struct Q{Block* first=nullptr; Block* last=nullptr;};
static Q fl[NCLS];
static char badbuf[256];
const char* bad_what(){return badbuf;}
const void* mark(){return top;}
static void note(const char* w,void* p,size_t n){ if(!st.bad++)snprintf(badbuf,sizeof badbuf,"%s (block of %zu bytes)",w,n); (void)p; }

static void init(){
    if(top)return;
    void* p=mmap(BASE,SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if(p==MAP_FAILED) p=mmap(nullptr,SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(p==MAP_FAILED){ const char m[]="sim: no arena\n"; ssize_t r=write(2,m,sizeof m-1);(void)r; _exit(99);}
    top=(char*)p; mapped_end=top+SIZE;
}
static int cls_of(size_t n,size_t& cap){      // 4 classes per power of two, min 16
    size_t c=16; int k=0;
    while(true){
        for(int q=0;q<4;q++){ size_t v=(c+q*c/4+15)&~size_t(15); if(v>=n){cap=v;return std::min(k*4+q,NCLS-1);} }
        c*=2;k++; if(k>14){cap=(n+4095)&~size_t(4095);return NCLS-1;}
    }
}
static void fill(void* p,size_t n,uint64_t seed,int mode){
    uint64_t* w=(uint64_t*)p; size_t k=n/8;
    for(size_t i=0;i<k;i++)w[i]=pattern(seed,mode,i);
}
static void* get(size_t n){
    init();
    size_t cap; int c=cls_of(n?n:1,cap);
    Block* b=nullptr;
    if(st.reuse!=2){
        if(c!=NCLS-1){ b=fl[c].first; if(b){fl[c].first=b->next; if(!fl[c].first)fl[c].last=nullptr;} }
        else { Block* prev=nullptr; for(Block* x=fl[c].first;x;prev=x,x=x->next) if(x->cls>=cap && x->cls<=2*cap+65536){
                 if(prev)prev->next=x->next; else fl[c].first=x->next; if(fl[c].last==x)fl[c].last=prev; b=x;cap=x->cls;break; } }
    }
    if(!b){
        size_t need=sizeof(Block)+cap+16;
        if(top+need>mapped_end)return nullptr;
        b=(Block*)top; top+=need;
    }
    b->magic=LIVE; b->size=n; b->cls=cap; b->next=nullptr;
    char* u=(char*)(b+1);
    if(st.active && st.fill_mode)fill(u,cap,mix(st.fill_seed,uint64_t(st.total)),st.fill_mode);
    else memset(u,0,cap<4096?cap:(n+7<cap?n+7:cap));
    memcpy(u+n,&GUARD,8);          // guard right behind the block
    b->lib=st.active; if(st.active){st.lib_bytes+=n; st.lib_blocks++;}
    return u;
}
static void put(void* p){
    if(!p)return;
    if((char*)p<mapped_end-SIZE || (char*)p>=top){note("free of a foreign pointer",p,0);return;}
    Block* b=(Block*)p-1;
    if(b->magic==DEAD){note("double free",p,b->size);return;}
    if(b->magic!=LIVE){note("free of a pointer that was not allocated",p,0);return;}
    uint64_t g; memcpy(&g,(char*)p+b->size,8);
    if(g!=GUARD)note("write past the end",p,b->size);
    if(b->lib){st.lib_bytes-=b->size; st.lib_blocks--;}
    b->magic=DEAD;
    if(st.poison)fill(p,b->cls,0x5eed,2);
    size_t cap; int c=cls_of(b->size?b->size:1,cap);
    if(st.reuse==1){ b->next=nullptr; if(fl[c].last)fl[c].last->next=b; else fl[c].first=b; fl[c].last=b; }
    else { b->next=fl[c].first; fl[c].first=b; if(!fl[c].last)fl[c].last=b; }
}
thread_local Own own; bool (*own_allowed)()=nullptr;
static bool inject(){
    if(own.at&&own_allowed&&own_allowed()&&++own.count>=own.at&&(own.n<0||own.count<own.at+own.n)){own.fired++;return true;}
    if(!st.active)return false;
    st.total++;
    if(!st.fail_at)return false;
    st.count++;
    if(st.count>=st.fail_at && (st.fail_count<0 || st.count<st.fail_at+st.fail_count)){st.fired++;return true;}
    return false;
}
void* acquire(size_t n){ if(inject())return nullptr; return get(n);}
void release(void* p){put(p);}
void arm(long at,long n){st.fail_at=at;st.fail_count=n;st.count=0;st.fired=0;}
void disarm(){st.fail_at=0;}
void scatter(int blocks,uint64_t seed){
    init(); Rng r(seed);
    for(int i=0;i<blocks;i++){ size_t n=16*(1+r.below(4096)); if(top+n<mapped_end)top+=n; }
}
void fresh_region(){
    init(); char* base=mapped_end-SIZE; top=base+SIZE/2;
    for(auto&q:fl)q=Q(); st=State();
}
} // heap

__attribute__((noinline)) void dirty_stack(uint64_t seed,int mode){
    volatile uint64_t a[32*1024];
    for(size_t i=0;i<sizeof a/8;i++)a[i]=pattern(seed,mode,i);
    asm volatile(""::"r"(a):"memory");
}

// ------------------------------------------------------------------ shm
Shm::Shm(size_t bytes){
    void* p=mmap(nullptr,bytes,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(p==MAP_FAILED){perror("shm");_exit(99);}
    head=(Head*)p; words=(uint64_t*)((char*)p+4096); cap=(bytes-4096)/8; clear();
}
void Shm::put_text(int tag,const std::string& s){
    std::vector<uint64_t> v((s.size()+7)/8+1,0); v[0]=s.size(); memcpy(v.data()+1,s.data(),s.size()); put_block(tag,v);
}
std::string Record::text()const{ if(v.empty())return ""; return std::string((const char*)(v.data()+1),v[0]); }
std::vector<Record> records(const Shm& s){
    std::vector<Record> r; size_t i=0,n=s.head->used;
    while(i+2<=n){ Record x; x.tag=(int)s.words[i]; size_t k=s.words[i+1]; if(i+2+k>n)break; x.v.assign(s.words+i+2,s.words+i+2+k); r.push_back(std::move(x)); i+=2+k; }
    return r;
}
// ------------------------------------------------------------------ children
std::string ChildEnd::what()const{
    if(ok)return "ok"; if(timeout)return "used up its time"; if(sig)return fmt("killed by signal %d",sig); return fmt("exit status %d",code);
}
ChildEnd in_child(const std::function<void()>& f,int cpu){
    fflush(stdout);fflush(stderr);
    pid_t p=fork();
    if(p<0){perror("fork");_exit(98);}
    if(p==0){
        struct rlimit rl{(rlim_t)cpu,(rlim_t)cpu+5}; setrlimit(RLIMIT_CPU,&rl);
        struct rlimit nc{0,0}; setrlimit(RLIMIT_CORE,&nc);
        heap::fresh_region();
        f();
        _exit(0);
    }
    int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){}
    ChildEnd e;
    if(WIFEXITED(st)){e.code=WEXITSTATUS(st);e.ok=e.code==0;}
    else if(WIFSIGNALED(st)){e.sig=WTERMSIG(st); if(e.sig==SIGXCPU||e.sig==SIGKILL)e.timeout=true;}
    return e;
}
void deterministic_process(int argc,char** argv){
    (void)argc;
    if(getenv("SIM_NOASLR"))return;
    int old=personality(0xffffffff);
    if(old>=0 && !(old&ADDR_NO_RANDOMIZE) && personality(old|ADDR_NO_RANDOMIZE)>=0){
        setenv("SIM_NOASLR","1",1);
        execv("/proc/self/exe",argv);
    }
}
std::string read_file(const std::string& path){std::ifstream f(path,std::ios::binary);std::stringstream s;s<<f.rdbuf();return s.str();}
void write_file(const std::string& path,const std::string& t){std::ofstream f(path,std::ios::binary);f<<t;}
double now(){struct timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+1e-9*t.tv_nsec;}

void make_comma_locale(const std::string& d){
    static const unsigned char b[54]={0x14,0x11,0x03,0x20,6,0,0,0,0x20,0,0,0,0x22,0,0,0,0x24,0,0,0,0x28,0,0,0,0x2c,0,0,0,0x30,0,0,0,0x2c,0,0x2e,0,3,0,0,0,0x2c,0,0,0,0x2e,0,0,0,0x55,0x54,0x46,0x2d,0x38,0};
    mkdir(d.c_str(),0700);mkdir((d+"/simloc").c_str(),0700);write_file(d+"/simloc/LC_NUMERIC",std::string((const char*)b,54));
}
void remove_comma_locale(const std::string& d){::unlink((d+"/simloc/LC_NUMERIC").c_str());::rmdir((d+"/simloc").c_str());::rmdir(d.c_str());}
std::string scratch_dir(const char* prefix){
    const char* t=getenv("SIM_TMP"); std::string d=std::string(t?t:"/tmp")+"/"+prefix+"-XXXXXX"; if(!mkdtemp(&d[0])){perror("mkdtemp");_exit(2);} return d;
}
// ------------------------------------------------------------------ traces
std::string Trace::text()const{ std::string s; for(auto&h:head)s+=h+"\n"; s+="---\n"; for(auto&x:steps)s+=x+"\n"; return s;}
Trace Trace::parse(const std::string& t){
    Trace r; bool st=false;
    for(auto&l:split(t,'\n')){ if(l[0]=='#')continue; if(l=="---"){st=true;continue;} (st?r.steps:r.head).push_back(l);}
    return r;
}
// ------------------------------------------------------------------ engine
static Outcome run_counted(Scenario& s,const Trace& t){return s.run(t);}

static Trace minimise(Scenario& s,Trace t,const Outcome& want,double budget,long& tries){
    Stats keep=stats;
    double t0=now();
    auto bad=[&](const Trace& x){tries++; Outcome o=s.run(x); return o.violated&&o.kind==want.kind;};
    size_t n=2;
    while(t.steps.size()>1 && now()-t0<budget){
        size_t len=t.steps.size(), chunk=(len+n-1)/n; bool red=false;
        for(size_t i=0;i<len && now()-t0<budget;i+=chunk){
            Trace x; x.head=t.head;
            for(size_t j=0;j<len;j++)if(j<i||j>=i+chunk)x.steps.push_back(t.steps[j]);
            if(x.steps.empty())continue;
            if(bad(x)){t=x;red=true;break;}
        }
        if(red){n=std::max<size_t>(2,n-1);}
        else{ if(chunk<=1)break; n=std::min(t.steps.size(),n*2);}
    }
    stats=keep;
    return t;
}

int engine_main(int argc,char** argv,const std::function<Scenario*(const std::string&)>& make){
    std::string prop,replay,out=".",label="build"; long first=0,count=1,stride=1; double cap=600; int tw=0; long show=-1; bool hashes=false;
    for(int i=1;i<argc;i++){
        std::string a=argv[i]; auto next=[&]{return std::string(i+1<argc?argv[++i]:"");};
        if(a=="--prop")prop=next(); else if(a=="--seed")base_seed=strtoull(next().c_str(),0,10);
        else if(a=="--first")first=atol(next().c_str()); else if(a=="--count")count=atol(next().c_str());
        else if(a=="--stride")stride=atol(next().c_str()); else if(a=="--cap")cap=atof(next().c_str());
        else if(a=="--replay")replay=next(); else if(a=="--out")out=next(); else if(a=="--label")label=next();
        else if(a=="--thorough")thorough=true; else if(a=="--twice")tw=atoi(next().c_str());
        else if(a=="--show")show=atol(next().c_str()); else if(a=="--hashes")hashes=true;
        else {fprintf(stderr,"unknown argument %s\n",a.c_str());return 2;}
    }
    Scenario* s=make(prop);
    if(!s){fprintf(stderr,"unknown property\n");return 2;}
    uint64_t pid=0; for(char c:prop)pid=pid*131+c;
    auto seed_of=[&](long i){return mix(mix(base_seed,pid),uint64_t(i));};
    if(show>=0){ printf("%s",s->generate(seed_of(show),show).text().c_str()); return 0; }
    if(!replay.empty()){
        Trace t=Trace::parse(read_file(replay));
        Outcome o=s->run(t);
        printf("{\"replay\":%s,\"violated\":%s,\"inconclusive\":%s,\"kind\":%s,\"detail\":%s,\"hash\":\"%016lx\"}\n",jstr(replay).c_str(),o.violated?"true":"false",o.inconclusive?"true":"false",jstr(o.kind).c_str(),jstr(o.detail).c_str(),(unsigned long)o.hash);
        return o.violated?1:0;
    }
    double t0=now(); long done=0, lastrun=-1; std::string sample; long mism=0;
    for(long k=0;k<count;k++){
        if(now()-t0>cap)break;
        long i=first+k*stride;
        Trace t=s->generate(seed_of(i),i);
        Outcome o=run_counted(*s,t);
        done++; lastrun=i;
        if(hashes)printf("H %ld %016lx\n",i,(unsigned long)o.hash);
        if(o.inconclusive){stats.add("inconclusive");continue;}
        stats.seen("execution",o.hash);
        if(o.nontrivial){stats.add("nontrivial");stats.seen("nontrivial_shape",o.shape);}
        if(sample.empty()&&o.nontrivial)sample=fmt("run %ld:\n",i)+s->describe(t);
        if(o.violated){
            // the same trace must fail again in the same way before anything is reported
            Stats keep=stats; Outcome o2=s->run(t); stats=keep;
            bool same=o2.violated&&o2.kind==o.kind&&o2.hash==o.hash;
            if(!same){
                mism++;
                fprintf(stderr,"run %ld: not repeatable: %s / %s vs %s / %s\n",i,o.kind.c_str(),o.detail.c_str(),o2.kind.c_str(),o2.detail.c_str());
                if(mism<5)continue;
                printf("{\"unrepeatable\":true,\"run\":%ld,\"kind\":%s,\"detail\":%s}\n",i,jstr(o.kind).c_str(),jstr(o.detail).c_str());
                return 4;
            }
            keep=stats; Trace e=s->concrete(t); Outcome oe=s->run(e); stats=keep;
            if(oe.violated&&oe.kind==o.kind)t=e;
            long tries=0; Trace m=minimise(*s,t,o,25,tries);
            keep=stats; Outcome om=s->run(m); stats=keep;
            if(!(om.violated&&om.kind==o.kind)){m=t;om=s->run(t);}
            std::string path=out+fmt("/%s-%s-seed%lu-run%ld.trace",prop.c_str(),label.c_str(),(unsigned long)base_seed,i);
            std::string txt=fmt("# property %s build %s seed %lu run %ld\n# %s: ",prop.c_str(),label.c_str(),(unsigned long)base_seed,i,om.kind.c_str());
            std::string d=om.detail; for(auto&c:d)if(c=='\n')c=' ';
            txt+=d+"\n"+m.text(); write_file(path,txt);
            printf("{\"violation\":true,\"run\":%ld,\"replay\":%s,\"kind\":%s,\"detail\":%s,\"hash\":\"%016lx\",\"steps_before\":%zu,\"steps_after\":%zu,\"minimise_tries\":%ld}\n",
                i,jstr(path).c_str(),jstr(om.kind).c_str(),jstr(om.detail).c_str(),(unsigned long)om.hash,t.steps.size(),m.steps.size(),tries);
            break;
        }
        if(tw && (done%tw)==0){   // repeatability probe on passing runs
            Stats keep=stats; Outcome o2=s->run(t); stats=keep;
            stats.add("repeat_probes"); if(o2.hash!=o.hash){stats.add("repeat_mismatches");fprintf(stderr,"run %ld: hash differs on repetition\n",i);}
        }
    }
    std::string js="{\"summary\":true,\"runs\":"+fmt("%ld",done)+",\"last\":"+fmt("%ld",lastrun)+",\"wall\":"+fmt("%.3f",now()-t0)+",\"counters\":{";
    bool f=true; for(auto&x:stats.n){js+=(f?"":",")+jstr(x.first)+":"+fmt("%ld",x.second);f=false;}
    js+="},\"sets\":{"; f=true;
    for(auto&x:stats.sets){js+=(f?"":",")+jstr(x.first)+":["; bool g=true; for(auto&y:x.second){js+=fmt("%s\"%lx\"",g?"":",",(unsigned long)y.first);g=false;} js+="]";f=false;}
    js+="},\"sample\":"+jstr(sample)+"}";
    printf("%s\n",js.c_str());
    return 0;
}
} // namespace sim

// ------------------------------------------------------------------ operators
namespace sim{namespace heap{void* acquire(size_t);void release(void*);}}
#ifndef SIM_NO_HEAP
void* operator new(std::size_t n){void* p=sim::heap::acquire(n);if(!p)throw std::bad_alloc();return p;}
void* operator new[](std::size_t n){void* p=sim::heap::acquire(n);if(!p)throw std::bad_alloc();return p;}
void* operator new(std::size_t n,const std::nothrow_t&)noexcept{return sim::heap::acquire(n);}
void* operator new[](std::size_t n,const std::nothrow_t&)noexcept{return sim::heap::acquire(n);}
void operator delete(void* p)noexcept{sim::heap::release(p);}
void operator delete[](void* p)noexcept{sim::heap::release(p);}
void operator delete(void* p,std::size_t)noexcept{sim::heap::release(p);}
void operator delete[](void* p,std::size_t)noexcept{sim::heap::release(p);}
void operator delete(void* p,const std::nothrow_t&)noexcept{sim::heap::release(p);}
void operator delete[](void* p,const std::nothrow_t&)noexcept{sim::heap::release(p);}
#endif
