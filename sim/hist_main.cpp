// Call-history simulator: drives the real library through seeded histories in a
// forked child and compares with the same calls made in untouched processes.
#include "ops.h"
#include "catima/cwrapper.h"
#include <cmath>
#include <cerrno>
#include <cfenv>
#include <algorithm>
#include <set>
#include <deque>
#include <malloc.h>
#include <clocale>
#include <csignal>
#include <iostream>
#include <locale>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <immintrin.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <ctime>
using namespace sim;
using catima::max_storage_data;

#ifdef CATIMA_SIM
static const int S=catima::max_storage_data;
#else
static const int S=60;          // the documented number of the unchanged build
#endif
static const bool FAST=catima::max_datapoints<200;      // reduced tables
static Shm* shm; static Shm* rshm;

enum Tag{T_OP=1,T_STORE,T_HOLD,T_MEM,T_ARGS,T_SWEEP,T_TEXT,T_BADHEAP};

// ------------------------------------------------------------------ keys and the ring model
struct Combo{int p,m,c;};       // c<0: plain Config{}
static std::string mkey(const MSpec& m){MSpec x=m;x.th=0;Pool p;p.M.push_back(x);return p.lines()[0];}
static std::string pkey(const PSpec& p){return hexd(p.A)+hexd(p.Z)+hexd(p.Q);}
static std::string key(const Pool& o,int p,int m,const CSpec& c){return pkey(o.P[p])+"|"+mkey(o.M[m])+"|"+ctext(c);}
struct Ring{
    std::deque<std::string> q; long hits=0,misses=0,evictions=0; Hash h; std::map<std::string,int> id;
    int idof(const std::string& k){auto it=id.find(k);if(it!=id.end())return it->second;int n=(int)id.size();id[k]=n;return n;}
    bool has(const std::string& k)const{return std::find(q.begin(),q.end(),k)!=q.end();}
    void touch(const std::string& k){
        if(has(k)){hits++;h.add(uint64_t(2*idof(k)));return;}
        misses++;h.add(uint64_t(2*idof(k)+1)); q.push_back(k); if((int)q.size()>S){q.pop_front();evictions++;}
    }
    void reset(){q.clear();h.add(uint64_t(0xffff));}
};
static std::string filler_key(long i){return fmt("filler %ld",i);}
static const catima::DataPoint& touch_filler(long i){
    catima::Material m; m.add_element(12.0,6,1.0); m.density(2.0).thickness(0.1);
    catima::Projectile p(4.0+i/1024.0,2);
    return catima::get_data(p,m,catima::Config());
}
// the combinations an operation looks up
static void touches(const Pool& pool,const Op& o,const CSpec& def,Ring& ring){
    if(is_cachefree(o.kind)||o.kind==K_c_weight)return;
    const CSpec c=o.uses_default()?def:pool.C[o.c];
    if(is_layers(o.kind)){for(int m:pool.L[o.l])ring.touch(key(pool,o.p,m,c));return;}
    if(is_c(o.kind)){ring.touch(fmt("c %d %d %d ",o.p,o.l,o.k)+ctext(c));return;}
    if(o.kind==K_simple){ring.touch(fmt("simple %d %d ",o.p,o.m)+ctext(c));return;}
    ring.touch(key(pool,o.p,o.m,c));
}

// ------------------------------------------------------------------ references
// the same call, first thing in a fresh process
struct Ref{bool ok=false;int status=0;std::vector<uint64_t> v;};
static std::map<std::string,Ref> memo;
static Ref reference(const Pool& pool,const Op& o,const CSpec* def,int cz,bool explicit_copy=false,bool cxx=false){
    std::string k=o.text()+"|"+(def?ctext(*def):"-")+fmt("|%d|%d%d|",cz,explicit_copy,cxx);
    if(o.p<(int)pool.P.size())k+=pkey(pool.P[o.p]);
    if(is_layers(o.kind)){for(int m:pool.L[o.l]){Pool x;x.M.push_back(pool.M[m]);k+=x.lines()[0];}}
    else if(o.m<(int)pool.M.size()){Pool x;x.M.push_back(pool.M[o.m]);k+=x.lines()[0];}
    if(o.c>=0)k+=ctext(pool.C[o.c]);
    auto it=memo.find(k); if(it!=memo.end())return it->second;
    rshm->clear();
    ChildEnd e=in_child([&]{
        Pool p2; const Pool* pp=&pool; Op o2=o;
        if(explicit_copy){p2=pool;p2.C.push_back(*def);pp=&p2;o2.c=(int)p2.C.size()-1;}
        World w(*pp,o2);
        if(def&&!explicit_copy)set_default(*def);
        set_c_default(cz);
        int status=0; std::vector<uint64_t> v;
        errno=0; try{v=exec(w,o2,cxx);}catch(std::bad_alloc&){status=1;}catch(...){status=2;}
        v.insert(v.begin(),status); rshm->put_block(T_OP,v);
    },20);
    Ref r; auto rec=records(*rshm);
    if(e.ok&&rec.size()==1){r.ok=true;r.status=(int)rec[0].v[0];r.v.assign(rec[0].v.begin()+1,rec[0].v.end());}
    stats.add("fresh_process_references");
    memo[k]=r; return r;
}

// ------------------------------------------------------------------ child side execution
static double probe_T[]={2e-3,0.3,15,80,450,3000,2e5,9e6};
static std::vector<uint64_t> probe(const catima::DataPoint& d){
    std::vector<uint64_t> r; Hash h;
    for(double x:d.range)h.add(bits(x)); for(double x:d.range_straggling)h.add(bits(x)); for(double x:d.angular_variance)h.add(bits(x));
    r.push_back(h.h);
    const auto& a=catima::get_range_spline(d); const auto& b=catima::get_range_straggling_spline(d); const auto& c=catima::get_angular_variance_spline(d);
    for(double T:probe_T){r.push_back(bits(a(T)));r.push_back(bits(a.derivative(T)));r.push_back(bits(b(T)));r.push_back(bits(c(T)));}
    r.push_back(bits(d.p.A));r.push_back(bits(d.p.Z));r.push_back(bits(d.m.M()));r.push_back(bits(d.config.scattering_factor));
    return r;
}
static std::vector<uint64_t> probe(const catima::Interpolator& s){
    std::vector<uint64_t> r; for(double T:probe_T){r.push_back(bits(s(T)));r.push_back(bits(s.derivative(T)));} r.push_back(bits(s.get_min()));r.push_back(bits(s.get_max())); return r;
}
static bool same(const catima::Config& a,const catima::Config& b){return a.z_effective==b.z_effective&&a.corrections==b.corrections&&a.calculation==b.calculation&&a.low_energy==b.low_energy&&a.scattering==b.scattering&&bits(a.scattering_factor)==bits(b.scattering_factor);}
static bool same(const catima::Projectile& a,const catima::Projectile& b){return a.A==b.A&&a.Z==b.Z&&a.Q==b.Q;}
static bool same_key(const catima::Material& a,const catima::Material& b){
    if(a.ncomponents()!=b.ncomponents()||a.density()!=b.density()||a.I()!=b.I()||a.M()!=b.M())return false;
    for(int i=0;i<a.ncomponents();i++){auto x=a.get_element(i),y=b.get_element(i);if(x.A!=y.A||x.Z!=y.Z||x.stn!=y.stn)return false;}
    return true;
}
static bool same_mat(const catima::Material& a,const catima::Material& b){return same_key(a,b)&&a.thickness()==b.thickness();}
static bool same_layers(const catima::Layers& a,const catima::Layers& b){
    auto&x=a.get_materials();auto&y=b.get_materials();if(x.size()!=y.size())return false;for(size_t i=0;i<x.size();i++)if(!same_mat(x[i],y[i]))return false;return true;
}
struct Held{ int type=0; catima::DataPoint dp; catima::Interpolator sp; const catima::DataPoint* ref=nullptr; std::string key; std::vector<uint64_t> first; long epoch=0; };

// ------------------------------------------------------------------ process-wide settings
static std::string hdir;      // scratch directory of this simulator, when one is needed
extern char** environ;
struct Comma:std::numpunct<char>{ bool group; explicit Comma(bool g):group(g){} char do_decimal_point()const override{return ',';} char do_thousands_sep()const override{return '.';} std::string do_grouping()const override{return group?"\003":"";} };
static char rand_state[128];
static int out_fd=-1;
// name and value of everything that belongs to the process and not to the library
static std::vector<std::pair<const char*,std::string>> settings(){
    std::vector<std::pair<const char*,std::string>> r; auto add=[&](const char* n,const std::string& v){r.push_back({n,v});};
    add("rounding mode",fmt("%d",fegetround())); add("floating point control",fmt("%x",_mm_getcsr()&~0x3fu)); { unsigned short cw; __asm__ volatile("fnstcw %0":"=m"(cw)); add("x87 control",fmt("%x",cw)); }
    add("C locale",setlocale(LC_ALL,nullptr)); { std::ostringstream o; o<<1234567.5; add("C++ locale",o.str()); }
    add("state of cout",fmt("%lx %ld %ld %d %d",(long)std::cout.flags(),(long)std::cout.precision(),(long)std::cout.width(),(int)std::cout.fill(),(int)std::cout.rdstate()));
    for(std::ostream* q:{&std::cerr,&std::clog})add("state of cerr and clog",fmt("%lx %ld %ld %d %d",(long)q->flags(),(long)q->precision(),(long)q->width(),(int)q->fill(),(int)q->rdstate()));
    add("state of cin",fmt("%lx %d",(long)std::cin.flags(),(int)std::cin.rdstate())); add("state of wcout",fmt("%lx %ld %d",(long)std::wcout.flags(),(long)std::wcout.precision(),(int)std::wcout.rdstate()));
    add("stream exceptions",fmt("%d %d %d",(int)std::cout.exceptions(),(int)std::cerr.exceptions(),(int)std::cin.exceptions())); add("stream ties",fmt("%p %p %p",(void*)std::cin.tie(),(void*)std::cerr.tie(),(void*)std::cout.tie()));
    { std::ostringstream o; o.imbue(std::cout.getloc()); o<<1234567.5; add("locale of cout",o.str()); }
    add("stream redirection",fmt("%p %p %p %p",(void*)std::cout.rdbuf(),(void*)std::cerr.rdbuf(),(void*)std::clog.rdbuf(),(void*)std::cin.rdbuf()));
    { mode_t m=umask(0);umask(m);add("umask",fmt("%o",(int)m)); }
    { char b[4096]; add("working directory",getcwd(b,sizeof b)?b:"?"); }
    for(int s=1;s<32;s++){struct sigaction a;sigaction(s,nullptr,&a);add("signal handling",fmt("%d %p %x",s,(void*)a.sa_handler,a.sa_flags));}
    { sigset_t m; sigprocmask(SIG_BLOCK,nullptr,&m); Hash h; for(int i=1;i<32;i++)h.add(uint64_t(sigismember(&m,i))); add("signal mask",fmt("%lx",(long)h.h)); }
    { Hash h; for(char** e=environ;e&&*e;e++)h.add(std::string(*e)); add("environment",fmt("%lx",(long)h.h)); }
    { int n=0; for(int f=0;f<64;f++)if(fcntl(f,F_GETFD)!=-1)n++; add("open files",fmt("%d",n)); }
    add("random generator",std::string(rand_state,sizeof rand_state));
    { struct itimerval v; getitimer(ITIMER_REAL,&v); add("timer",fmt("%d",v.it_value.tv_sec||v.it_value.tv_usec)); struct rlimit l; getrlimit(RLIMIT_CORE,&l); struct rlimit m; getrlimit(RLIMIT_STACK,&m); add("resource limits",fmt("%ld %ld",(long)l.rlim_cur,(long)m.rlim_cur)); }
    add("terminate handler",fmt("%p %p",(void*)std::get_terminate(),(void*)std::get_new_handler()));
    { std::cout.flush();std::cerr.flush();fflush(stdout);fflush(stderr); struct stat st; fstat(out_fd,&st); add("printed text",fmt("%ld",(long)st.st_size)); }
    { auto&d=catima_defaults; add("C options",std::string((const char*)&d,sizeof d)); }
    return r;
}
static void settings_begin(){
    out_fd=memfd_create("out",0); std::cout.flush();fflush(stdout); dup2(out_fd,1);dup2(out_fd,2);
    initstate(1,rand_state,sizeof rand_state);
    setenv("LOCPATH",(hdir+"/loc").c_str(),1); if(chdir(hdir.c_str())!=0)_exit(96);
}
static int host_errno=0;
static void on_signal(int){}
// what the library could ask the system for; answered by the simulator inside library calls
static long answer=0,clock_shift=0,clock_asked=0,pid_shift=0;
static const char* answers[]={"","1","0","2.5","-1","yes","/nonexistent","simloc"};
static void sim_time(struct timespec* t){ long n=++clock_asked; t->tv_sec=1700000000+clock_shift*86400+n; t->tv_nsec=(n*7919+clock_shift*104729)%1000000000; }
static void set_setting(const std::string& what,long k){
    if(what=="cloc")setlocale(LC_NUMERIC,k?"simloc":"C");
    else if(what=="cxxloc")std::locale::global(k?std::locale(std::locale::classic(),new Comma(k==2)):std::locale::classic());
    else if(what=="flags"){ std::cout.flags(k==0?std::ios::dec|std::ios::skipws:k==1?std::ios::hex|std::ios::scientific:std::ios::fixed|std::ios::showpos); std::cout.precision(k==0?6:k+1); std::cout.fill(k==2?'*':' '); }
    else if(what=="state"){ if(k)std::cout.setstate(std::ios::failbit); else std::cout.clear(); }
    else if(what=="errno")host_errno=(int)k;
    else if(what=="umask")umask((mode_t)k&0777);
    else if(what=="cwd"){ if(chdir(k?"/":hdir.c_str())!=0)_exit(96); }
    else if(what=="sig"){ struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=k==0?SIG_DFL:k==1?SIG_IGN:on_signal; sigaction(SIGALRM,&a,nullptr);sigaction(SIGPIPE,&a,nullptr);sigaction(SIGINT,&a,nullptr); }
    else if(what=="var"){ static const char* n[]={"LANG","LC_ALL","LC_NUMERIC","TZ","HOME","TMPDIR","OMP_NUM_THREADS","PATH"}; if(k%3==0)unsetenv(n[k%8]); else setenv(n[k%8],k%3==1?"simloc":"/nonexistent",1); }
    else if(what=="rand")srandom((unsigned)k);
    else if(what=="ask")answer=k;
    else if(what=="clock")clock_shift=k;
    else if(what=="pid")pid_shift=k;
    else if(what=="round"){ fesetround(k==0?FE_TONEAREST:k==1?FE_DOWNWARD:k==2?FE_UPWARD:FE_TOWARDZERO); if(k==0)catima::_storage.Reset(); }
}

extern "C" char* getenv(const char* n)noexcept{
    if(heap::st.active&&answer)return (char*)answers[answer%8];
    size_t l=strlen(n); for(char** e=environ;e&&*e;e++)if(!strncmp(*e,n,l)&&(*e)[l]=='=')return *e+l+1; return nullptr;
}
extern "C" char* secure_getenv(const char* n)noexcept{return getenv(n);}
extern "C" int clock_gettime(clockid_t c,struct timespec* t)noexcept{ if(heap::st.active){sim_time(t);return 0;} return (int)syscall(SYS_clock_gettime,c,t); }
extern "C" time_t time(time_t* r)noexcept{ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); if(r)*r=t.tv_sec; return t.tv_sec; }
extern "C" int gettimeofday(struct timeval* v,void*)noexcept{ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); v->tv_sec=t.tv_sec;v->tv_usec=t.tv_nsec/1000; return 0; }
extern "C" clock_t clock()noexcept{ struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec*1000000+t.tv_nsec/1000; }
extern "C" pid_t getpid()noexcept{ return heap::st.active?pid_t(1000+pid_shift):(pid_t)syscall(SYS_getpid); }

struct Exec{
    const Pool& pool; World w; Ring ring; CSpec def; int cz=1;
    bool check_args=false, dump_store=false;
    std::map<int,Held*> held; std::map<std::string,long> added; long clock=0,varied=0;
    catima::Data* priv[2]={nullptr,nullptr}; Ring pring[2];
    std::vector<Combo> combos; std::map<int,std::pair<const void*,uint64_t>> ident;
    long fail_at=0,fail_n=0;
    long heap_max_first=0,heap_max_second=0;
    explicit Exec(const Pool& p):pool(p),w(p){}

    std::string combo_key(int k)const{auto&cb=combos[k];return key(pool,cb.p,cb.m,cb.c<0?CSpec():pool.C[cb.c]);}
    void touch_model(const std::string& k){clock++; if(!ring.has(k))added[k]=clock; ring.touch(k);}
    std::vector<uint64_t> guarded(const Op& o,int& status){
        std::vector<uint64_t> v; status=0;
        heap::Window win;
        errno=host_errno; try{v=exec(w,o);}catch(std::bad_alloc&){status=1;}catch(std::exception&){status=2;}catch(...){status=3;}
        return v;
    }
    bool check_settings=false; std::map<size_t,Op> parsed;      // numbers are read before the locale changes
    void run_op(size_t step,const Op& o){
        std::vector<std::pair<const char*,std::string>> before; if(check_settings)before=settings();
        catima::Projectile P; catima::Material M; catima::Config C; catima::Layers L; catima::Config D; std::vector<double> V;
        if(check_args){P=w.P[o.p];P.T=o.a[0];M=w.M[o.m];if(o.c>=0)C=w.C[o.c];if(!w.L.empty())L=w.L[o.l<(int)w.L.size()?o.l:0];D=catima::default_config;V=o.v;}
        int status; 
        if(fail_at){heap::arm(fail_at,fail_n);}
        auto v=guarded(o,status);
        if(check_settings){auto after=settings();for(size_t k=0;k<after.size();k++)if(after[k].second!=before[k].second){std::string x=fmt("%zu ",step)+after[k].first;shm->put_text(T_TEXT,x);break;}}
        long fired=heap::st.fired; if(fail_at){heap::disarm();fail_at=0;} else fired=0;
        { Ring tmp; touches(pool,o,def,tmp); if(status==0)for(auto&k:tmp.q)touch_model(k); }
        if(is_c(o.kind)&&o.kind!=K_c_weight)apply_c_side_effect(def,cz);
        v.insert(v.begin(),{uint64_t(step),uint64_t(status),uint64_t(fired)});
        shm->put_block(T_OP,v);
        if(check_args&&!is_c(o.kind)){
            std::string bad;
            if(bits(w.P[o.p].A)!=bits(P.A)||bits(w.P[o.p].Z)!=bits(P.Z)||bits(w.P[o.p].Q)!=bits(P.Q)||bits(w.P[o.p].T)!=bits(P.T))bad="projectile";
            else if(!same_mat(w.M[o.m],M))bad="material";
            else if(o.c>=0&&!same(w.C[o.c],C))bad="configuration";
            else if(!w.L.empty()&&!same_layers(w.L[o.l<(int)w.L.size()?o.l:0],L))bad="layers";
            else if(!same(catima::default_config,D))bad="default configuration";
            else if(V.size()!=o.v.size()||(!V.empty()&&memcmp(V.data(),o.v.data(),V.size()*sizeof(double))))bad="list of energies";
            if(!bad.empty()){std::string t=fmt("%zu ",step)+bad;shm->put_text(T_ARGS,t);}
        }
    }
    // store contents as combination ids: -1 unknown, fillers 1000000+i
    void dump(size_t step,catima::Data& d,int which){
        std::vector<uint64_t> out{uint64_t(step),uint64_t(which),uint64_t(d.GetN())};
        int moved=0; std::map<int,std::pair<const void*,uint64_t>> nowid;
        for(int i=0;i<d.GetN();i++){
            auto& e=d.Get((unsigned)i); int id=-1;
            if(e.p.A==0&&e.m.ncomponents()==0){out.push_back(uint64_t(-2));continue;}
            for(size_t k=0;k<combos.size();k++){ auto&c=combos[k]; catima::Config cc=c.c<0?catima::Config():w.C[c.c];
                if(same(e.p,w.P[c.p])&&same_key(e.m,w.M[c.m])&&same(e.config,cc)){id=(int)k;break;} }
            if(id<0&&e.m.ncomponents()==1&&e.p.Z==2){double f=(e.p.A-4.0)*1024.0; if(f==std::floor(f)&&e.m.get_element(0).Z==6)id=1000000+(int)f;}
            out.push_back(uint64_t(int64_t(id)));
            if(which==0&&id>=0){
                Hash h; for(size_t j=0;j<e.range.size();j+=37)h.add(bits(e.range[j])); h.add(e.range.size());
                std::pair<const void*,uint64_t> x{e.range.data(),h.h};
                nowid[id]=x; auto it=ident.find(id);
                if(it!=ident.end()&&it->second!=x)moved=id+1;
            }
        }
        if(which==0)ident=nowid;
        out.insert(out.begin()+3,uint64_t(moved));
        shm->put_block(T_STORE,out);
    }
    void step(size_t i,const std::string& line){
        auto t=split(line);
        shm->head->step=i+1;
        auto I=[&](size_t k){return atol(t[k].c_str());};
        const std::string& c=t[0];
        if(c=="op"){ if(check_settings)run_op(i,parsed[i]); else run_op(i,Op::parse(t,2)); }
        else if(c=="def"){ def.z=(int)I(1);def.corr=(int)I(2);def.calc=(int)I(3);def.low=(int)I(4);def.scat=(int)I(5);def.fac=strtod(t[6].c_str(),0); set_default(def); }
        else if(c=="cdef"){cz=(int)I(1);set_c_default(cz);}
        else if(c=="reset"){heap::Window win;catima::_storage.Reset();ring.reset();clock++;added.clear();ident.clear(); if(dump_store)dump(i,catima::_storage,0);}
        else if(c=="fill"){ for(long k=0;k<I(2);k++){ {heap::Window win;touch_filler(I(1)+k);} touch_model(filler_key(I(1)+k)); if(dump_store)dump(i,catima::_storage,0);} }
        else if(c=="heap"){heap::st.fill_mode=(int)I(1);heap::st.fill_seed=(uint64_t)I(2);heap::st.poison=I(3);heap::st.reuse=(int)I(4); if(t.size()>5)heap::scatter((int)I(5),(uint64_t)I(2));}
        else if(c=="dirty"){dirty_stack((uint64_t)I(1),(int)I(2));}
        else if(c=="ambient"){ if(I(1)==1){static const int es[]={ERANGE,EDOM,ENOENT,ENOMEM,EINTR,EINVAL};host_errno=es[I(2)%6];} else if(I(1)==2)feraiseexcept(FE_DIVBYZERO|FE_INVALID|FE_OVERFLOW|FE_INEXACT); else if(I(1)==3){feclearexcept(FE_ALL_EXCEPT);host_errno=0;} else {mallopt(M_PERTURB,(int)I(2)&0xff);} }
        else if(c=="many"){ // the same call many times; results may not change on the way
            Op o=Op::parse(t,2); long n=I(1); int st0=0; std::vector<uint64_t> v0=guarded(o,st0);
            for(long k=1;k<n;k++){int st; auto v=guarded(o,st); if(st!=st0||v!=v0){std::string x=fmt("%zu repetition %ld of ",i,k+1)+o.text();shm->put_text(T_TEXT,x);break;}}
            { Ring tmp; touches(pool,o,def,tmp); if(st0==0)for(auto&k:tmp.q)touch_model(k); }
            if(is_c(o.kind)&&o.kind!=K_c_weight)apply_c_side_effect(def,cz);
            v0.insert(v0.begin(),{uint64_t(i),uint64_t(st0),uint64_t(0)}); shm->put_block(T_OP,v0); }
        else if(c=="vary"){ // many calls that differ in the energy
            Op o=Op::parse(t,2); const double T=o.a[0]; int st; for(long k=0;k<I(1);k++){o.a[0]=T*(1+1e-5*double(++varied)); for(auto&x:o.v)x*=1+1e-6; guarded(o,st);} }
        else if(c=="env"){set_setting(t[1],I(2));}
        else if(c=="fault"){fail_at=I(1);fail_n=I(2);}
        else if(c=="sweep"){ Op o=Op::parse(t,4); sweep(i,o,I(1),I(2),I(3)); }
        else if(c=="get"){ // one look-up through one of several calls
            auto&cb=combos[I(2)]; int how=(int)I(1); catima::Config cc=cb.c<0?catima::Config():w.C[cb.c]; catima::Projectile p=w.P[cb.p];p.T=100; catima::Material m=w.M[cb.m]; m.thickness(1e-3);
            { heap::Window win; double x=0;
            switch(how){case 0:catima::get_data(p,m,cc);break;case 1:catima::_storage.Add(p,m,cc);break;case 2:x=catima::range(p,m,cc);break;case 3:x=catima::energy_out(p,m,cc);break;
                case 4:x=catima::calculate(p,m,cc).Eout;break;case 5:x=catima::range_straggling(p,50,m,cc);break;case 6:catima::_storage.Get(p,m,cc);break;default:x=catima::dedx_from_range(p,m,cc);break;}
            (void)x; }
            touch_model(combo_key((int)I(2)));
            if(dump_store)dump(i,catima::_storage,0);
        }
        else if(c=="pnew"){ int k=(int)I(1); delete priv[k]; priv[k]=new catima::Data(); pring[k].reset(); }
        else if(c=="pget"||c=="padd"){ int k=(int)I(1); if(!priv[k])priv[k]=new catima::Data(); auto&cb=combos[I(2)]; catima::Config cc=cb.c<0?catima::Config():w.C[cb.c];
            const catima::DataPoint* d=nullptr; { heap::Window win; if(c=="pget")d=&priv[k]->Get(w.P[cb.p],w.M[cb.m],cc); else priv[k]->Add(w.P[cb.p],w.M[cb.m],cc); }
            if(d&&!(same(d->p,w.P[cb.p])&&same_key(d->m,w.M[cb.m])&&same(d->config,cc))){std::string x=fmt("%zu private store returned another entry",i);shm->put_text(T_TEXT,x);}
            pring[k].touch(fmt("combo %ld",I(2))); dump(i,*priv[k],k+1); if(dump_store)dump(i,catima::_storage,0);
        }
        else if(c=="preset"){int k=(int)I(1); if(priv[k]){priv[k]->Reset();pring[k].reset();dump(i,*priv[k],k+1);}}
        else if(c=="take"){ take(i,(int)I(1),(int)I(2),(int)I(3)); }
        else if(c=="again"){ auto it=held.find((int)I(1)); auto jt=held.find((int)I(2)); if(it!=held.end()&&jt==held.end()&&it->second->type==0){Held*h=new Held; h->type=0; if(I(3)){catima::DataPoint q; q=it->second->dp; h->dp=std::move(q);} else h->dp=it->second->dp; h->first=it->second->first; h->key=it->second->key; h->epoch=it->second->epoch; held[(int)I(2)]=h; } }
        else if(c=="chk"){ chk(i,(int)I(1)); }
        else if(c=="drop"){ auto it=held.find((int)I(1)); if(it!=held.end()){delete it->second;held.erase(it);} }
        else if(c=="mem"){ mem(i,I(1)); }
        else {fprintf(stderr,"bad step %s\n",line.c_str());_exit(97);}
        if(heap::st.bad){ std::string x=fmt("%zu ",i)+heap::bad_what(); shm->put_text(T_BADHEAP,x); heap::st.bad=0; }
    }
    void take(size_t i,int id,int combo,int type){
        auto&cb=combos[combo]; catima::Config cc=cb.c<0?catima::Config():w.C[cb.c];
        if(held.count(id)){delete held[id];held.erase(id);}
        Held* h=new Held; h->type=type; h->key=combo_key(combo);
        const catima::DataPoint& d=catima::get_data(w.P[cb.p],w.M[cb.m],cc);
        touch_model(h->key); h->epoch=added[h->key];
        switch(type){
            case 0:h->dp=d;h->first=probe(d);break;
            case 1:h->sp=catima::get_range_spline(d);h->first=probe(catima::get_range_spline(d));break;
            case 2:h->sp=catima::get_range_straggling_spline(d);h->first=probe(catima::get_range_straggling_spline(d));break;
            case 3:h->sp=catima::get_angular_variance_spline(d);h->first=probe(catima::get_angular_variance_spline(d));break;
            case 4:h->ref=&d;h->first=probe(d);break;
        }
        held[id]=h; (void)i;
    }
    void chk(size_t i,int id){
        auto it=held.find(id); if(it==held.end())return; Held* h=it->second;
        if(h->type==4){ if(!ring.has(h->key)||added[h->key]!=h->epoch)return; }   // reference no longer valid
        std::vector<uint64_t> v=h->type==0?probe(h->dp):h->type==4?probe(*h->ref):probe(h->sp);
        std::vector<uint64_t> out{uint64_t(i),uint64_t(h->type),uint64_t(h->type==4?1:(ring.has(h->key)&&h->epoch==added[h->key]?1:0))};
        int badat=-1; for(size_t k=0;k<v.size();k++)if(v[k]!=h->first[k]){badat=(int)k;break;}
        out.push_back(uint64_t(int64_t(badat))); if(badat>=0){out.push_back(v[badat]);out.push_back(h->first[badat]);}
        shm->put_block(T_HOLD,out);
    }
    // every allocation of one operation fails in turn
    void sweep(size_t i,const Op& o,long n,long reps,long maxk){
        for(long k=1;k<=maxk;k++){
            // memory that grows with a failure is lost only if it goes on growing: buffers that are kept may grow a few times
            long live=0; int status=0; long fired=0; std::vector<uint64_t> v; long grow=0; int more=0;
            for(long r=0;r<reps||(grow>0&&more<16);r++){
                heap::arm(k,n); v=guarded(o,status); fired=heap::st.fired; heap::disarm();
                std::vector<uint64_t> none; if(status)none.swap(v);
                long l=heap::st.lib_bytes;
                if(r>=2&&status&&!is_layers(o.kind)){grow=l-live;more++;}
                live=l;
                if(!status||!fired){grow=0;break;}
            }
            v.insert(v.begin(),{uint64_t(i),uint64_t(status),uint64_t(fired),uint64_t(k),uint64_t(grow)});
            shm->put_block(T_SWEEP,v);
            if(!fired||!status)break;
        }
        Ring tmp; touches(pool,o,def,tmp); for(auto&kk:tmp.q)touch_model(kk);
    }
    void mem(size_t i,long what){
        struct mallinfo2 mi=mallinfo2();
        shm->put_block(T_MEM,{uint64_t(i),uint64_t(what),uint64_t(heap::st.lib_bytes),uint64_t(heap::st.lib_blocks),uint64_t(mi.uordblks)});
    }
};

static std::vector<Combo> parse_combos(const std::vector<std::string>& head){
    std::vector<Combo> r; for(auto&l:head){auto t=split(l);if(t.size()==4&&t[0]=="K")r.push_back({atoi(t[1].c_str()),atoi(t[2].c_str()),atoi(t[3].c_str())});} return r;
}
static ChildEnd execute(const Pool& pool,const Trace& t,bool args,bool store,bool sett=false){
    shm->clear();
    return in_child([&]{
        if(sett)settings_begin();
        Exec x(pool); x.check_settings=sett; x.check_args=args; x.dump_store=store; x.combos=parse_combos(t.head);
        if(sett)for(size_t i=0;i<t.steps.size();i++)if(t.steps[i].compare(0,3,"op ")==0)x.parsed[i]=Op::parse(split(t.steps[i]),2);
        for(size_t i=0;i<t.steps.size();i++)x.step(i,t.steps[i]);
        shm->head->done=1;
    },120);
}

// ------------------------------------------------------------------ scenarios
struct HistBase:Scenario{
    std::string prop;
    long H=FAST?8:5;                     // histories per pool
    uint64_t tag=0;
    explicit HistBase(const std::string& p):prop(p){for(char c:p)tag=tag*131+c;}
    uint64_t pool_seed(long index){ uint64_t s=mix(mix(base_seed,tag),0x9001+uint64_t(index/H)); static long last=-1; if(index/H!=last){memo.clear();last=index/H;} return s; }
    static void finish(Outcome& o,const Trace& t){Hash h;h.add(o.hash);h.add(o.kind);o.hash=h.h;(void)t;}
    bool child_failed(const ChildEnd& e,const Trace& t,Outcome& o){
        if(e.ok&&shm->head->done)return false;
        size_t k=shm->head->step; std::string s=k>=1&&k<=t.steps.size()?t.steps[k-1]:"?";
        auto tk=split(s); // the call fails in a fresh process as well: says nothing about histories
        if(tk[0]=="op"||tk[0]=="many"||tk[0]=="vary"){ Op op=parse_op(s); Pool pool=Pool::parse(t.head); CSpec d0; if(!reference(pool,op,op.uses_default()?&d0:nullptr,1).ok){o.inconclusive=true;return true;} }
        if(e.timeout){o.violated=true;o.kind="hang";}
        else {o.violated=true;o.kind="crash";}
        o.detail=fmt("process %s in step %zu: %s",e.what().c_str(),k,s.c_str());
        Hash h;h.add(o.kind);h.add(s);o.hash=h.h;
        return true;
    }
    static void fail(Outcome& o,const std::string& kind,const std::string& detail){ if(o.violated)return; o.violated=true;o.kind=kind;o.detail=detail; }
    void heap_records(const std::vector<Record>& rec,Outcome& o){ for(auto&r:rec)if(r.tag==T_BADHEAP)fail(o,"heap","step "+r.text()); }
    static void measure(const Ring& g,Outcome& o){
        stats.add("hits",g.hits);stats.add("misses",g.misses);stats.add("displacements",g.evictions);
        o.shape=g.h.h; o.nontrivial=g.hits>0&&g.misses>1;
    }
    static Op parse_op(const std::string& line){auto t=split(line);return Op::parse(t,2);}

    // a pool of nearly equal arguments
    struct Fam{int p[3],m[3],c[3]; double e[3],e2[3],th[2]; int z[2],a[3];};
    void families(Gen& g,int nf,std::vector<Fam>& fs){
        for(int f=0;f<nf;f++){ Fam x; auto add=[&](auto& list,auto base,int* ix,auto fn){ list.push_back(base); ix[0]=(int)list.size()-1; for(int k=1;k<3;k++){list.push_back(fn(k==2&&g.r.chance(1,2)?list[ix[1]]:base)); ix[k]=(int)list.size()-1;} };
            add(g.pool.P,g.proj(),x.p,[&](PSpec s){return g.near(s);});
            add(g.pool.M,g.mat(),x.m,[&](MSpec s){return g.near(s);});
            CSpec c0; add(g.pool.C,f==0?c0:g.conf(),x.c,[&](CSpec s){return g.near(s);});
            x.e[0]=g.energy();x.e[1]=g.r.chance(1,2)?x.e[0]*(1+g.tiny()):g.energy();x.e[2]=g.energy(); for(int k=0;k<3;k++)x.e2[k]=x.e[k]*g.r.uniform(0.2,0.99);
            for(int k=0;k<2;k++){x.z[k]=g.r.chance(1,3)?g.r.range(201,300):g.r.range(1,92);x.th[k]=g.thickness();} x.a[0]=0;x.a[1]=(int)std::round(2.1*std::min(x.z[0],92))+1;x.a[2]=x.a[1]+1;
            fs.push_back(x);
        }
    }
    void stacks(Gen& g,int n,int maxlen){
        for(int i=0;i<n;i++){std::vector<int> l;int k=g.r.range(1,maxlen);for(int j=0;j<k;j++)l.push_back(g.r.below((int)g.pool.M.size()));g.pool.L.push_back(l);}
    }
    Op family_op(Gen& g,int kind,const Fam& f,bool dflt){
        Op o=g.op(kind,(int)g.pool.P.size(),(int)g.pool.M.size(),(int)g.pool.C.size(),dflt);
        if(g.r.chance(1,2)){ int k=g.r.below(3); o.a[0]=f.e[k]; if(kind==K_angular_straggling_from_E||kind==K_energy_straggling_from_E||kind==K_tof_from_E||kind==K_c_angular||kind==K_c_energy_str)o.a[1]=g.r.chance(2,3)?f.e2[k]:o.a[0]*g.r.uniform(0.2,0.99); }
        if(is_c(kind)){ o.p=f.p[g.r.below(3)]; if(kind!=K_c_weight&&g.r.chance(1,2)){o.l=f.z[g.r.below(2)];o.k=o.l>200?0:f.a[g.r.below(3)]; if(o.l==1&&o.k)o.k=1;} if(g.r.chance(1,2))o.a[2]=f.th[g.r.below(2)]; return o; }
        o.p=f.p[0];o.m=f.m[0];int c=o.c<0?-1:f.c[0];
        switch(g.r.below(5)){case 0:o.p=f.p[g.r.range(1,2)];break;case 1:o.m=f.m[g.r.range(1,2)];break;case 2:if(c>=0)c=f.c[g.r.range(1,2)];break;case 3:o.p=f.p[g.r.below(3)];o.m=f.m[g.r.below(3)];if(c>=0)c=f.c[g.r.below(3)];break;default:break;}
        o.c=c; if(is_layers(kind))o.l=g.r.below((int)g.pool.L.size());
        return o;
    }
    // the same call with one argument changed
    Op twin(Gen& g,Op o,const Fam& f){
        auto other=[&](const int* v,int now){int k=g.r.below(3);if(v[k]==now)k=(k+1)%3;return v[k];};
        if(is_c(o.kind)){ switch(g.r.below(5)){ case 0:o.p=other(f.p,o.p);break; case 1:o.a[0]=f.e[g.r.below(3)];break; case 2:if(o.l<=200)o.k=o.l==1?1-o.k:o.k?0:(int)std::round(2.1*o.l)+1;break; case 3:o.a[2]=f.th[g.r.below(2)];break; default:o.a[3]=o.a[3]>0?-1:2.5;break; } return o; }
        switch(g.r.below(6)){ case 0:o.p=other(f.p,o.p);break; case 1:if(is_layers(o.kind))o.l=g.r.below((int)g.pool.L.size());else o.m=other(f.m,o.m);break; case 2:case 3:o.c=o.c<0?f.c[g.r.below(3)]:other(f.c,o.c);break; case 4:o.a[0]*=1+g.tiny();break; default:if(o.a[1]>0)o.a[1]*=1+g.tiny();else o.a[0]=f.e[g.r.below(3)];break; }
        return o;
    }
};

static std::string def_line(const CSpec& c){return "def "+ctext(c);}
static int fill_count(Rng& r,long& budget){
    int n; if(r.chance(1,2))n=r.range(1,5); else n=std::max(1,S+r.range(-3,3)); if(r.chance(1,8))n=2*S+r.range(-1,1);
    if(n>budget)n=(int)std::max<long>(1,std::min<long>(budget,5)); budget-=n; return n;
}

// C01, C02, C03: results against fresh processes over interleaved histories
struct History:HistBase{
    bool useC,onlyDefault;
    explicit History(const std::string& p):HistBase(p){useC=p!="C02";onlyDefault=p=="C02";}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,g.r.range(2,4),fs); stacks(g,3,4);
        int nops=prop=="C01"?90:70; std::vector<std::vector<Op>> ops(fs.size());
        for(int i=0;i<nops;i++){
            int kind; int u=g.r.below(100);
            if(prop=="C03")kind=u<70?g.r.range(K_c_calculate,K_c_weight):pick_store_kind(g.r);
            else if(prop=="C02"){kind=u<88?pick_store_kind(g.r):(u<92?K_tof_from_E:(u<95?K_dedx:(u<97?K_domega2dx:K_da2dx)));}
            else kind=u<82?pick_store_kind(g.r):(u<94?g.r.range(K_dedx,K_production):g.r.range(K_c_calculate,K_c_nonreaction));
            if(!FAST&&(kind==K_tof_table||kind==K_datapoint)&&!g.r.chance(1,4))kind=K_calculate;
            int f=g.r.below((int)fs.size()); Op o=family_op(g,kind,fs[f],true);
            if(onlyDefault&&g.r.chance(3,4))o.c=-1;
            if(g.r.chance(1,20)){static const double odd[]={0,-1,-1000,1e9,1e12,9e-4};o.a[0]=odd[g.r.below(6)];}     // outside of the tables
            ops[f].push_back(o);
        }
        std::vector<std::pair<Op,Op>> twins; for(int i=0;i<12;i++){int f=g.r.below((int)fs.size());if(ops[f].empty())continue;Op x=g.r.pick(ops[f]),y=twin(g,x,fs[f]);if(onlyDefault&&g.r.chance(1,2))y.c=-1;twins.push_back({x,y});}
        Trace t; t.head=g.pool.lines();
        Rng r(mix(seed,77)); CSpec def; int cz=1; long filler=r.below(100)*100; long budget=FAST?6L*S:S+S/2+10; int target=FAST?r.range(60,200):r.range(40,130); int hammers=2; if(FAST&&S<10&&r.chance(1,12)){t.steps.push_back(fmt("fill %ld %d",filler+5000,r.range(250,600)));}
        t.steps.push_back(fmt("heap 0 0 1 %d",r.below(3)));
        auto emit=[&](int f){ if(ops[f].empty())return; t.steps.push_back(fmt("op %d ",r.below(3))+r.pick(ops[f]).text()); };
        while((int)t.steps.size()<target){
            int f=r.below((int)fs.size());
            if(!twins.empty()&&r.chance(1,5)){ auto&x=r.pick(twins); auto line=[&](const Op& o){return fmt("op %d ",r.below(3))+o.text();}; t.steps.push_back(line(x.first)); if(r.chance(1,6))emit(f); t.steps.push_back(line(x.second)); if(r.chance(1,3))t.steps.push_back(line(x.first)); continue; }
            switch(r.below(prop=="C02"?12:10)){
                case 0:case 1:case 2:{int n=r.range(3,10);for(int i=0;i<n;i++)emit(f);break;}              // one family, nearly equal arguments
                case 3:{int n=r.range(4,16);for(int i=0;i<n;i++)emit(r.below((int)fs.size()));break;}      // clients interleaved
                case 4:{ if(ops[f].empty())break; // the same call before and after the ring has turned
                    std::string a="op 0 "+r.pick(ops[f]).text(), b="op 1 "+r.pick(ops[f]).text(); t.steps.push_back(a); t.steps.push_back(b);
                    if(budget>0){int n=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,n));filler+=r.chance(2,3)?n:n/2;}
                    t.steps.push_back(r.chance(1,2)?b:a); t.steps.push_back(a); t.steps.push_back(b); break;}
                case 5: if(r.chance(1,6)&&!ops[f].empty()){ // the same call again and again
                        const Op& x=r.pick(ops[f]); if(hammers>0&&!is_layers(x.kind)&&x.kind!=K_tof_table&&x.kind!=K_datapoint&&x.kind!=K_simple){hammers--;bool cheap=x.kind<=K_energy_out||x.kind==K_get_data;t.steps.push_back(fmt("many %d ",cheap&&r.chance(1,4)?r.range(65530,70000):r.range(250,600))+x.text());emit(f);} }
                    else if(budget>0){int n=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,n));filler+=n;} break;
                case 6: if(r.chance(1,2)){t.steps.push_back("reset");} break;
                case 7: { if(useC&&r.chance(1,2)){cz=r.range(0,5);t.steps.push_back(fmt("cdef %d",cz));} break; }
                default: { // somebody edits the default configuration
                    if(r.chance(1,3))def=CSpec(); else {Gen q(r.u()); def=r.chance(1,3)?g.pool.C[r.below((int)g.pool.C.size())]:q.near(def);}
                    t.steps.push_back(def_line(def)); emit(f);emit(f); break; }
            }
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head);
        ChildEnd e=execute(pool,t,false,false);
        auto rec=records(*shm); Hash h; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h;
        // model of what the caller can know: default configuration at each step, ring for the statistics
        Ring ring; CSpec def; int cz=1; size_t ri=0;
        for(size_t i=0;i<t.steps.size();i++){
            auto tok=split(t.steps[i]);
            if(tok[0]=="def"){def.z=atoi(tok[1].c_str());def.corr=atoi(tok[2].c_str());def.calc=atoi(tok[3].c_str());def.low=atoi(tok[4].c_str());def.scat=atoi(tok[5].c_str());def.fac=strtod(tok[6].c_str(),0);stats.add("default_edits");}
            else if(tok[0]=="cdef"){cz=atoi(tok[1].c_str());stats.add("c_option_edits");}
            else if(tok[0]=="reset"){ring.reset();stats.add("resets");}
            else if(tok[0]=="fill"){for(long k=0;k<atol(tok[2].c_str());k++)ring.touch(filler_key(atol(tok[1].c_str())+k));}
            else if(tok[0]=="op"||tok[0]=="many"){
                if(tok[0]=="many")stats.add("repeated_calls",atol(tok[1].c_str()));
                while(ri<rec.size()&&rec[ri].tag!=T_OP){ if(rec[ri].tag==T_TEXT)fail(o,"repeated call changed","step "+rec[ri].text()); ri++; }
                if(o.violated)break;
                if(ri>=rec.size())break;
                auto&r=rec[ri++]; Op op=parse_op(t.steps[i]); stats.add("calls");
                CSpec eff=def; bool c=is_c(op.kind)&&op.kind!=K_c_weight; if(c)apply_c_side_effect(eff,cz);
                touches(pool,op,eff,ring);
                Ref ref;
                if(prop=="C03"&&is_c(op.kind))ref=reference(pool,op,&eff,cz,false,true);
                else if(prop=="C02"&&op.c<0&&!uses_default_always(op.kind)&&op.kind!=K_physics&&op.kind!=K_lookup&&op.kind!=K_production)ref=reference(pool,op,&def,cz,true);
                else ref=reference(pool,op,op.uses_default()?&def:nullptr,is_c(op.kind)?cz:1);
                if(c)def=eff;
                if(!ref.ok){stats.add("reference_failed");continue;}
                std::vector<uint64_t> got(r.v.begin()+3,r.v.end()); int status=(int)r.v[1];
                if(status!=ref.status)fail(o,"exception",fmt("step %zu: %s: status %d, expected %d",i+1,t.steps[i].c_str(),status,ref.status));
                else { auto d=diff(got,ref.v); if(!d.empty())fail(o,"mismatch",fmt("step %zu: %s: %s",i+1,t.steps[i].c_str(),d.c_str())); }
                if(o.violated)break;
            }
        }
        stats.add("steps",(long)t.steps.size());
        measure(ring,o);
        if(!o.violated)child_failed(e,t,o);
        heap_records(rec,o);
        return o;
    }
};

// C04: allocation failures
struct AllocFail:HistBase{
    explicit AllocFail(const std::string& p):HistBase(p){}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,2,fs); stacks(g,2,4);
        std::vector<Op> ops; for(int i=0;i<40;i++){int u=g.r.below(100);int kind=u<80?pick_store_kind(g.r):(u<85?K_datapoint:u<89?K_tof_table:u<94?g.r.range(K_dedx,K_production):K_c_calculate+g.r.below(7)); if(!FAST&&kind==K_tof_table&&!g.r.chance(1,3))kind=K_calculate; ops.push_back(family_op(g,kind,fs[g.r.below(2)],true));}
        Trace t;t.head=g.pool.lines(); Rng r(mix(seed,78)); long filler=0; long budget=FAST?3L*S:S+8; int target=FAST?50:28;
        t.steps.push_back(fmt("heap 0 0 1 %d",r.below(3)));
        if(r.chance(1,2)){int n=r.chance(1,2)?S:r.range(1,S);t.steps.push_back(fmt("fill 0 %d",n));filler=n;budget-=n;}
        while((int)t.steps.size()<target){
            const Op& o=r.pick(ops);
            switch(r.below(8)){
                case 0:case 1: t.steps.push_back("op 0 "+o.text());break;
                case 2:case 3: t.steps.push_back(fmt("fault %d %d",r.range(1,14),r.chance(1,3)?-1:r.range(1,3))); t.steps.push_back("op 0 "+o.text()); if(r.chance(1,2))t.steps.push_back("op 0 "+r.pick(ops).text()); t.steps.push_back("op 0 "+o.text()); break;
                case 4:case 5: t.steps.push_back(fmt("sweep %d %d 400 ",r.chance(1,3)?-1:1,FAST?3:3)+o.text()); t.steps.push_back("op 0 "+r.pick(ops).text()); break;
                case 6: if(budget>0){int n=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,n));filler+=n;} break;
                default: if(r.chance(1,3))t.steps.push_back("reset"); break;
            }
        }
        for(int i=0;i<6;i++)t.steps.push_back("op 0 "+r.pick(ops).text());
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false);
        auto rec=records(*shm); Hash h; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h;
        CSpec def; Ring ring; Hash shape; long fired=0;
        size_t last=0;
        for(auto&r:rec){
            if(r.tag==T_BADHEAP)continue;
            size_t i=r.v[0]; auto tok=split(t.steps[i]); Op op=Op::parse(tok,tok[0]=="sweep"?4:2);
            bool c=is_c(op.kind)&&op.kind!=K_c_weight; (void)last;
            CSpec eff=def; if(c)apply_c_side_effect(eff,1);
            if(r.tag==T_OP||r.tag==T_SWEEP){
                int status=(int)r.v[1]; long f=(long)r.v[2]; stats.add("calls"); fired+=f; stats.add("allocation_failures",f); shape.add(op.kind);shape.add(status);shape.add(f);
                if(r.tag==T_SWEEP){shape.add(r.v[3]);stats.add("failure_points");long grow=(long)r.v[4]; if(grow>0)fail(o,"leak",fmt("step %zu: %s: each failure of allocation %ld loses %ld bytes",i+1,t.steps[i].c_str(),(long)r.v[3],grow));}
                if(status==0){
                    Ref ref=reference(pool,op,op.uses_default()?&def:nullptr,1);
                    if(ref.ok&&ref.status==0){ std::vector<uint64_t> got(r.v.begin()+(r.tag==T_OP?3:5),r.v.end()); auto d=diff(got,ref.v); if(!d.empty())fail(o,f?"mismatch-in-failing-call":"mismatch",fmt("step %zu: %s: %s",i+1,t.steps[i].c_str(),d.c_str())); }
                }
                else if(f==0)fail(o,"exception",fmt("step %zu: %s: throws although no allocation failed",i+1,t.steps[i].c_str()));
                else stats.add("calls_that_threw");
            }
            if(c)def=eff;
        }
        stats.add("steps",(long)t.steps.size());
        o.shape=shape.h;o.nontrivial=fired>0;
        if(!o.violated)child_failed(e,t,o);
        heap_records(rec,o);
        return o;
    }
};

// C05: the ring against its model
struct RingCheck:HistBase{
    explicit RingCheck(const std::string& p):HistBase(p){}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,2,fs);
        std::set<std::string> seen; std::vector<Combo> cs; CSpec plain;
        for(int i=0;i<400&&(int)cs.size()<(FAST?40:20);i++){ auto&f=fs[g.r.below(2)]; Combo c{f.p[g.r.below(3)],f.m[g.r.below(3)],f.c[g.r.below(3)]}; if(seen.insert(key(g.pool,c.p,c.m,g.pool.C[c.c])).second)cs.push_back(c);}
        Trace t;t.head=g.pool.lines(); for(auto&c:cs)t.head.push_back(fmt("K %d %d %d",c.p,c.m,c.c));
        Rng r(mix(seed,79)); long filler=0; long budget=FAST?8L*S+20:S+S/2; int target=FAST?r.range(40,160):r.range(30,70);
        t.steps.push_back(fmt("heap 0 0 1 %d",r.below(2)));
        if(FAST&&S<10&&r.chance(1,12))t.steps.push_back(fmt("fill 5000 %d",r.range(250,600)));      // many laps
        int n=(int)cs.size();
        while((int)t.steps.size()<target){
            switch(r.below(10)){
                case 0:case 1:case 2:{int k=r.range(1,8);for(int i=0;i<k;i++)t.steps.push_back(fmt("get %d %d",r.below(8),r.below(n)));break;}
                case 3:{int c=r.below(n);for(int i=0;i<r.range(2,4);i++)t.steps.push_back(fmt("get %d %d",r.below(8),c));break;}
                case 4:case 5: if(budget>0){int k=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,k));filler+=r.chance(1,2)?k:k/2;} break;
                case 6: if(r.chance(1,3))t.steps.push_back("reset"); break;
                case 7: {int k=r.below(2); if(r.chance(1,6))t.steps.push_back(fmt("pnew %d",k)); else if(r.chance(1,8))t.steps.push_back(fmt("preset %d",k)); else t.steps.push_back(fmt("%s %d %d",r.chance(1,2)?"pget":"padd",k,r.below(n))); break;}
                case 8: if(budget>0&&filler>0){long back=r.range(1,(int)std::min<long>(filler,S+2)); t.steps.push_back(fmt("fill %ld 1",filler-back)); budget--;} break;
                default: t.steps.push_back(fmt("get %d %d",r.below(8),r.below(n))); break;
            }
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,true);
        auto rec=records(*shm); Hash h; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h;
        Ring ring,pr[2]; size_t ri=0;
        auto idkey=[](int64_t id){return id>=1000000?filler_key(id-1000000):fmt("combo %ld",(long)id);};
        auto expect=[&](Ring& g,size_t i,int which){
            while(ri<rec.size()&&rec[ri].tag!=T_STORE)ri++;
            if(ri>=rec.size()||o.violated)return;
            auto&r=rec[ri++]; 
            if(r.v[0]!=i||(int)r.v[1]!=which){fail(o,"order","store dumps out of step");return;}
            stats.add("store_comparisons");
            std::multiset<std::string> have; for(size_t k=4;k<r.v.size();k++){int64_t id=(int64_t)r.v[k]; if(id==-2)continue; if(id==-1){fail(o,"unknown-entry",fmt("step %zu: %s: the store holds an entry nobody asked for",i+1,t.steps[i].c_str()));return;} have.insert(idkey(id));}
            std::multiset<std::string> want(g.q.begin(),g.q.end());
            if((int)r.v[2]>std::max(S,1)||(int)have.size()>S){fail(o,"bound",fmt("step %zu: %zu entries",i+1,have.size()));return;}
            for(auto&k:have)if(have.count(k)>1){fail(o,"duplicate",fmt("step %zu: %s: %s is stored twice",i+1,t.steps[i].c_str(),k.c_str()));return;}
            if(have!=want){ std::string miss,extra; for(auto&k:want)if(!have.count(k)){miss=k;break;} for(auto&k:have)if(!want.count(k)){extra=k;break;}
                fail(o,"contents",fmt("step %zu: %s: missing '%s', unexpected '%s' (%zu stored, %zu expected)",i+1,t.steps[i].c_str(),miss.c_str(),extra.c_str(),have.size(),want.size()));return; }
            if(r.v[3])fail(o,"recalculated",fmt("step %zu: %s: an entry that was already stored was replaced or changed (%s)",i+1,t.steps[i].c_str(),idkey((int64_t)r.v[3]-1).c_str()));
        };
        for(size_t i=0;i<t.steps.size()&&!o.violated;i++){
            auto k=split(t.steps[i]);
            if(k[0]=="reset"){ring.reset();stats.add("resets");expect(ring,i,0);}
            else if(k[0]=="fill"){for(long q=0;q<atol(k[2].c_str());q++){ring.touch(filler_key(atol(k[1].c_str())+q));expect(ring,i,0);}}
            else if(k[0]=="get"){ring.touch("combo "+k[2]);stats.add("calls");expect(ring,i,0);}
            else if(k[0]=="pnew"){pr[atoi(k[1].c_str())].reset();}
            else if(k[0]=="pget"||k[0]=="padd"){int q=atoi(k[1].c_str());pr[q].touch("combo "+k[2]);expect(pr[q],i,q+1);expect(ring,i,0);}
            else if(k[0]=="preset"){int q=atoi(k[1].c_str()); bool used=false; for(size_t j=0;j<i;j++){auto z=split(t.steps[j]);if((z[0]=="pnew"||z[0]=="pget"||z[0]=="padd")&&z[1]==k[1])used=true;} if(used){pr[q].reset();expect(pr[q],i,q+1);}}
        }
        for(auto&r:rec)if(r.tag==T_TEXT)fail(o,"wrong-entry",r.text());
        stats.add("steps",(long)t.steps.size());
        measure(ring,o); o.nontrivial=ring.evictions>0&&ring.hits>0;
        if(!o.violated||o.kind=="order"){o.violated=false;child_failed(e,t,o);}
        heap_records(rec,o);
        return o;
    }
};

// C08: copies, references, arguments
struct Snapshots:HistBase{
    explicit Snapshots(const std::string& p):HistBase(p){}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,2,fs); stacks(g,2,3);
        std::set<std::string> seen; std::vector<Combo> cs;
        for(int i=0;i<200&&(int)cs.size()<16;i++){ auto&f=fs[g.r.below(2)]; Combo c{f.p[g.r.below(3)],f.m[g.r.below(3)],f.c[g.r.below(3)]}; if(seen.insert(key(g.pool,c.p,c.m,g.pool.C[c.c])).second)cs.push_back(c);}
        // references are followed only in histories whose look-ups are all certain from the documentation
        Rng r(mix(seed,80)); const bool refs=r.chance(1,2);
        std::vector<Op> ops; for(int i=0;i<60&&(int)ops.size()<30;i++){int u=g.r.below(100); Op o=family_op(g,u<80?pick_store_kind(g.r):g.r.range(K_dedx,FAST?K_production:K_tof_from_E),fs[g.r.below(2)],true);
            if(refs&&!is_cachefree(o.kind)){ if(is_layers(o.kind)||is_c(o.kind)||o.kind==K_simple||g.pool.M[o.m].th<=0)continue; if(o.a[0]<40||o.a[0]>1e6)o.a[0]=150; }
            ops.push_back(o);}
        Trace t;t.head=g.pool.lines(); for(auto&c:cs)t.head.push_back(fmt("K %d %d %d",c.p,c.m,c.c)); long filler=0; long budget=FAST?5L*S+10:2*S+10; int target=FAST?r.range(50,150):r.range(40,90); int nid=8;
        t.steps.push_back(fmt("heap 0 0 1 %d",r.below(2)));
        while((int)t.steps.size()<target){
            switch(r.below(10)){
                case 0:case 1:case 2: t.steps.push_back(fmt("take %d %d %d",r.below(nid),r.below((int)cs.size()),refs?(r.chance(1,2)?4:r.below(5)):r.below(4)));break;
                case 3:case 4: t.steps.push_back(fmt("chk %d",r.below(nid)));break;
                case 5: if(budget>0){int k=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,k));filler+=k; for(int i=0;i<nid;i++)t.steps.push_back(fmt("chk %d",i));} break;
                case 6: {int n=r.range(2,6);for(int i=0;i<n;i++)t.steps.push_back("op 0 "+r.pick(ops).text());break;}
                case 7: if(r.chance(1,4)){t.steps.push_back("reset");for(int i=0;i<nid;i++)t.steps.push_back(fmt("chk %d",i));} break;
                case 8: t.steps.push_back(fmt("again %d %d %d",r.below(nid),nid+r.below(4),r.below(2))); t.steps.push_back(fmt("chk %d",nid+r.below(4))); break;
                default: if(r.chance(1,2))t.steps.push_back(fmt("drop %d",r.below(nid+4))); else if(r.chance(1,2)){Gen q(r.u());t.steps.push_back(def_line(q.near(CSpec())));} break;
            }
        }
        for(int i=0;i<nid+4;i++)t.steps.push_back(fmt("chk %d",i));
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,true,false);
        auto rec=records(*shm); Hash h; Hash shape; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h; bool after=false;
        for(auto&r:rec){
            if(r.tag==T_HOLD){ stats.add(r.v[1]==4?"reference_reads":"copy_reads"); if(!r.v[2]){stats.add("copy_reads_after_displacement");after=true;} shape.add(r.v[0]*16+r.v[1]*2+r.v[2]);
                if((int64_t)r.v[3]>=0){ static const char* n[]={"copied table entry","copied range spline","copied range straggling spline","copied angular spline","reference to a stored entry"};
                    fail(o,"changed",fmt("step %zu: %s: %s reads %.17g instead of %.17g (value %ld)",(size_t)r.v[0]+1,t.steps[r.v[0]].c_str(),n[r.v[1]],fbits(r.v[4]),fbits(r.v[5]),(long)r.v[3])); } }
            else if(r.tag==T_ARGS){auto s=r.text();size_t i=atol(s.c_str());fail(o,"argument",fmt("step %zu: %s: the call modified its %s",i+1,t.steps[i].c_str(),s.substr(s.find(' ')+1).c_str()));}
            else if(r.tag==T_OP){stats.add("calls");stats.add("argument_checks");}
        }
        stats.add("steps",(long)t.steps.size()); o.shape=shape.h;o.nontrivial=after;
        if(!o.violated)child_failed(e,t,o);
        heap_records(rec,o);
        return o;
    }
};

// C14: stacks and lists against single calls
struct Batch:HistBase{
    explicit Batch(const std::string& p):HistBase(p){H=2;}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); int np=2; for(int i=0;i<np;i++)g.pool.P.push_back(g.proj());
        int nm=FAST?3*S+g.r.range(0,20):std::min(S+20,80); if(FAST&&nm>150)nm=150; if(!FAST)nm=g.r.chance(1,2)?S+g.r.range(1,12):g.r.range(5,30);
        MSpec base=g.mat(); for(int i=0;i<nm;i++){MSpec m=g.r.chance(1,2)?g.near(base):g.mat(); m.th=std::exp(g.r.uniform(std::log(1e-5),std::log(0.02))); if(g.r.chance(1,12))m.th=0; else if(g.r.chance(1,40))m.th=std::exp(g.r.uniform(std::log(0.1),std::log(50.0))); g.pool.M.push_back(m);}
        g.pool.C.push_back(CSpec()); g.pool.C.push_back(g.conf()); g.pool.C.push_back(g.near(g.pool.C[1]));
        Trace t; Rng r(mix(seed,81));
        for(int s=0;s<3;s++){ std::vector<int> l; int mode=r.below(4);
            if(mode==0){for(int i=0;i<nm;i++)l.push_back(i);}                                             // all different
            else if(mode==1){int n=r.range(1,6);for(int i=0;i<n;i++)l.push_back(r.below(nm));}
            else if(mode==2){int a=r.below(nm),b=r.below(nm);int n=r.range(4,20);for(int i=0;i<n;i++)l.push_back(i%2?a:b);}    // alternating
            else {int n=r.range(2,nm);for(int i=0;i<n;i++)l.push_back(r.below(nm)); if(r.chance(1,2))for(int i=0;i<(int)std::min<size_t>(5,l.size());i++)l.push_back(l[i]);}
            if(l.size()>150)l.resize(150);
            if(FAST&&r.chance(1,16)){int a=r.below(nm),b=r.below(nm);l.clear();int n=r.range(200,300);for(int i=0;i<n;i++)l.push_back(i%7==3?b:a);}      // many thin layers of two materials
            g.pool.L.push_back(l); }
        t.head=g.pool.lines();
        t.steps.push_back(fmt("heap 0 0 1 %d",r.below(2)));
        long filler=0; int calls=FAST?4:2;
        for(int c=0;c<calls;c++){
            if(r.chance(2,3)){int n=FAST?r.range(1,S+2):(r.chance(1,2)?r.range(S-6,S):r.range(1,S/2));t.steps.push_back(fmt("fill %ld %d",filler,n));filler+=n;}
            if(r.chance(1,5))t.steps.push_back("reset");
            Op o; int u=r.below(10); o.p=r.below(np); o.c=r.below(3); if(r.chance(1,5))o.c=-1; o.a[0]=std::exp(r.uniform(std::log(30.0),std::log(3000.0))); if(r.chance(1,6))o.a[0]=std::exp(r.uniform(std::log(0.5),std::log(30.0)));
            if(u<7){o.kind=r.pick(std::vector<int>{K_layers,K_layers_ps,K_layers_T});o.l=r.below(3);if(o.kind==K_layers_ps){o.a[1]=0.5;o.a[2]=1e-3;o.a[3]=1e-4;}}
            else{o.kind=r.chance(1,2)?K_energy_out_v:K_dedx_from_range_v;o.m=r.below(nm);int n=r.range(1,60);if(r.chance(1,8))n=0;if(r.chance(1,10))n=r.range(100,215);Gen q(r.u());for(int i=0;i<n;i++)o.v.push_back(q.energy());if(r.chance(1,3)&&n>2){o.v[1]=o.v[0];o.v[n-1]=1e-4;}}
            t.steps.push_back("op 0 "+o.text());
        }
        return t;
    }
    static const int R=
#ifdef REACTIONS
        13;
#else
        12;
#endif
    static bool close(double a,double b){return bits(a)==bits(b)||std::fabs(a-b)<=1e-9*std::max(std::fabs(a),std::fabs(b));}
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false);
        auto rec=records(*shm); Hash h; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h;
        Ring ring; size_t ri=0; CSpec def; long midcall=0;
        for(size_t i=0;i<t.steps.size()&&!o.violated;i++){
            auto k=split(t.steps[i]);
            if(k[0]=="reset")ring.reset();
            else if(k[0]=="fill"){for(long q=0;q<atol(k[2].c_str());q++)ring.touch(filler_key(atol(k[1].c_str())+q));}
            else if(k[0]=="op"){
                Op op=Op::parse(k,2); stats.add("calls");
                long ev=ring.evictions; touches(pool,op,def,ring); if(ring.evictions>ev){midcall++;stats.add("calls_with_displacements");}
                while(ri<rec.size()&&rec[ri].tag!=T_OP)ri++;
                if(ri>=rec.size())break;
                auto&r=rec[ri++]; if(r.v[1]){fail(o,"exception",fmt("step %zu throws",i+1));break;}
                std::vector<uint64_t> got(r.v.begin()+3,r.v.end());
                if(is_layers(op.kind)){
                    auto& L=pool.L[op.l]; stats.add("layers",(long)L.size());
                    if(got.size()!=size_t(R+1+R*L.size())||got[R]!=L.size()){fail(o,"size",fmt("step %zu: result for %lu of %zu layers",i+1,(unsigned long)(got.size()>(size_t)R?got[R]:0),L.size()));break;}
                    double T=op.a[0],Eloss=0,tof=0,sp=1,Eout=0; bool spok=true;
                    for(size_t n=0;n<L.size();n++){
                        Op one; one.kind=K_calculate_T; one.p=op.p; one.m=L[n]; one.c=op.c; one.a[0]=T;
                        Ref ref=reference(pool,one,op.c<0?&def:nullptr,1); if(!ref.ok){stats.add("reference_failed");spok=false;break;}
                        std::vector<uint64_t> g(got.begin()+R+1+R*n,got.begin()+R+1+R*(n+1)); auto d=diff(g,ref.v);
                        if(!d.empty()){fail(o,"layer",fmt("step %zu: layer %zu of %zu at %.17g MeV/u: %s",i+1,n+1,L.size(),T,d.c_str()));break;}
                        Eout=fbits(ref.v[1]);Eloss+=fbits(ref.v[2]);tof+=fbits(ref.v[11]); if(R==13){double s=fbits(ref.v[12]);if(s<0)spok=false;else sp*=s;} T=Eout;
                    }
                    if(!o.violated&&!L.empty()){
                        double te=fbits(got[1]),tl=fbits(got[2]),tt=fbits(got[11]);
                        if(!close(te,Eout))fail(o,"total",fmt("step %zu: total energy out %.17g, last layer %.17g",i+1,te,Eout));
                        else if(!close(tl,Eloss))fail(o,"total",fmt("step %zu: total energy loss %.17g, sum %.17g",i+1,tl,Eloss));
                        else if(!close(tt,tof))fail(o,"total",fmt("step %zu: total time of flight %.17g, sum %.17g",i+1,tt,tof));
                        else if(R==13&&spok&&!close(fbits(got[12]),sp))fail(o,"total",fmt("step %zu: total survival %.17g, product %.17g",i+1,fbits(got[12]),sp));
                    }
                }else{
                    if(got.empty()||got[0]!=op.v.size()){fail(o,"size",fmt("step %zu: list of %lu for %zu energies",i+1,got.empty()?0ul:(unsigned long)got[0],op.v.size()));break;}
                    for(size_t n=0;n<op.v.size();n++){
                        Op one=op; one.v.clear(); one.a[0]=op.v[n]; one.kind=op.kind==K_energy_out_v?K_energy_out:K_dedx_from_range; double want;
                        if(op.v[n]<catima::Ezero)want=0; else {Ref ref=reference(pool,one,op.c<0?&def:nullptr,1); if(!ref.ok)continue; want=fbits(ref.v[0]);}
                        stats.add("list_entries");
                        if(bits(want)!=got[n+1]){fail(o,"list",fmt("step %zu: entry %zu of %zu (%.17g MeV/u) is %.17g, single call gives %.17g",i+1,n+1,op.v.size(),op.v[n],fbits(got[n+1]),want));break;}
                    }
                }
            }
        }
        stats.add("steps",(long)t.steps.size()); measure(ring,o); o.nontrivial=midcall>0;
        if(!o.violated)child_failed(e,t,o);
        heap_records(rec,o);
        return o;
    }
};

// C15: contaminated memory
struct Ambient:HistBase{
    explicit Ambient(const std::string& p):HistBase(p){H=4;}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,2,fs); stacks(g,2,3);
        std::vector<Op> ops; int n=FAST?40:20;
        for(int i=0;i<n;i++){int u=g.r.below(100);int kind=u<65?pick_store_kind(g.r):(u<92?g.r.range(K_dedx,K_production):g.r.range(K_c_calculate,K_c_nonreaction)); Op o=family_op(g,kind,fs[g.r.below(2)],true);
            // table limits and table points
            auto edge=[&]()->double{ int N=catima::max_datapoints; int k=g.r.chance(1,2)?g.r.pick(std::vector<int>{0,1,N-2,N-1}):g.r.below(N); double v=std::exp(catima::LN10*(catima::logEmin+k*(catima::logEmax-catima::logEmin)/(N-1.0)));
                if(g.r.chance(1,6))v=g.r.chance(1,2)?1e7:1e-3; int m=g.r.range(-4,4); for(int q=0;q<std::abs(m);q++)v=std::nextafter(v,m<0?0:1e30); if(g.r.chance(1,8))v*=g.r.chance(1,2)?1+1e-12:1-1e-12; return v;};
            if(g.r.chance(1,2)&&kind!=K_lookup&&kind!=K_production){o.a[0]=edge(); if(!o.v.empty())o.v[g.r.below((int)o.v.size())]=edge();}
            ops.push_back(o);}
        Trace t;t.head=g.pool.lines(); Rng r(mix(seed,82)); int k=r.range(2,FAST?14:8);
        t.steps.push_back(fmt("heap %d %d 1 %d %d",r.range(1,5),r.below(1000000),r.below(3),r.below(6)));
        for(int i=0;i<k;i++){
            if(r.chance(1,3))t.steps.push_back(fmt("ambient %d %d",r.range(1,4),r.below(255)));
            if(r.chance(1,4))t.steps.push_back(fmt("heap %d %d 1 %d %d",r.range(1,5),r.below(1000000),r.below(3),r.below(3)));
            if(r.chance(1,6))t.steps.push_back("reset");
            t.steps.push_back(fmt("dirty %d %d",r.below(1000000),r.range(1,5)));
            if(r.chance(1,3))t.steps.push_back(fmt("ambient 1 %d",r.below(6)));
            t.steps.push_back("op 0 "+r.pick(ops).text());
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false);
        auto rec=records(*shm); Hash h,shape; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h; CSpec def; long n=0;
        for(auto&s:t.steps){auto k=split(s);if(k[0]=="dirty"){stats.add("stack_contaminations");shape.add(k[2]);}else if(k[0]=="heap"){stats.add("heap_contaminations");shape.add(k[1]);}else if(k[0]=="ambient")stats.add("status_flag_changes");}
        for(auto&r:rec)if(r.tag==T_OP){
            size_t i=r.v[0]; Op op=parse_op(t.steps[i]); stats.add("calls"); n++; shape.add(op.text());
            CSpec eff=def; bool c=is_c(op.kind)&&op.kind!=K_c_weight; if(c)apply_c_side_effect(eff,1);
            Ref ref=reference(pool,op,op.uses_default()?&def:nullptr,1); if(c)def=eff;
            if(!ref.ok){stats.add("reference_failed");continue;}
            std::vector<uint64_t> got(r.v.begin()+3,r.v.end()); auto d=diff(got,ref.v);
            if((int)r.v[1]!=ref.status)fail(o,"exception",fmt("step %zu: %s throws",i+1,t.steps[i].c_str()));
            else if(!d.empty())fail(o,"mismatch",fmt("step %zu: %s: %s in clean memory",i+1,t.steps[i].c_str(),d.c_str()));
        }
        stats.add("steps",(long)t.steps.size()); o.shape=shape.h;o.nontrivial=n>0;
        if(!o.violated)child_failed(e,t,o);
        heap_records(rec,o);
        return o;
    }
};

// C16: memory accounting over repeated laps
struct Memory:HistBase{
    explicit Memory(const std::string& p):HistBase(p){H=1;}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,2,fs); stacks(g,2,4); Rng r(mix(seed,83));
        std::vector<Op> ops; for(int i=0;i<40;i++){int u=g.r.below(100);int kind=u<80?pick_store_kind(g.r):(u<93?g.r.range(K_dedx,FAST?K_production:K_tof_from_E):g.r.range(K_c_calculate,K_c_nonreaction)); ops.push_back(family_op(g,kind,fs[g.r.below(2)],true));}
        Trace t;t.head=g.pool.lines();
        int mode=r.below(3); if(r.chance(1,3))mode=3+r.below(2); t.head.push_back(fmt("mode %d",mode));
        t.steps.push_back("heap 0 0 0 0");
        if(mode==0){          // laps with a reset at the start: live memory at the end of each lap is the same
            std::vector<std::string> lap; int n=r.range(5,FAST?30:10); long fill=0;
            for(int i=0;i<n;i++){ int u=r.below(12); if(u==0)lap.push_back(fmt("fill %ld %d",fill,FAST?r.range(1,S+3):r.range(1,4))),fill+=S+3; else if(u<=2){lap.push_back(fmt("fault %d %d",r.range(1,12),r.chance(1,3)?-1:1));lap.push_back("op 0 "+r.pick(ops).text());} else lap.push_back("op 0 "+r.pick(ops).text()); if(r.chance(1,12))lap.push_back("reset"); }
            if(FAST?r.chance(1,2):r.chance(1,8))lap.push_back(fmt("fill %ld %d",fill,S+2));
            for(int k=0;k<5;k++){t.steps.push_back("reset");t.steps.push_back(def_line(CSpec()));t.steps.push_back("cdef 1");for(auto&s:lap)t.steps.push_back(s);t.steps.push_back("reset");t.steps.push_back(fmt("mem %d",k));}
        }else if(mode==1){    // stored combinations only: every repetition of a call leaves live memory as it was
            std::vector<Op> sel; for(int i=0;i<(FAST?std::min(S,6):6);i++)sel.push_back(r.pick(ops));
            for(auto&o:sel){ for(int k=0;k<4;k++){t.steps.push_back("op 0 "+o.text());t.steps.push_back(fmt("mem %d",k));} }
        }else if(mode==3||mode==4){   // one call very often, with the same (3) or always other (4) energies: samples after 16, 64, 256, 1024 (or 4096) calls
            Op o; for(int q=0;q<50;q++){o=mode==3?r.pick(ops):family_op(g,r.chance(2,3)?pick_store_kind(g.r):r.chance(1,2)?g.r.range(K_dedx,K_tof_from_E):g.r.range(K_c_calculate,K_c_nonreaction),fs[g.r.below(2)],true); if(!is_layers(o.kind)&&o.kind!=K_tof_table&&o.kind!=K_datapoint&&o.kind!=K_simple)break; o=ops[0]; o.kind=K_range;}
            if(mode==4&&o.a[0]<1)o.a[0]=100; bool cheap=(o.kind<=K_domega2de||o.kind==K_energy_out||o.kind==K_get_data)&&o.v.size()<13; long done=0; for(long k=16;k<=(cheap?4096:1024);k*=4){t.steps.push_back(fmt("%s %ld ",mode==3?"many":"vary",k-done)+o.text());done=k;t.steps.push_back(fmt("mem %ld",k));}
        }else{                // many more combinations than slots: live memory stops growing
            int n=FAST?6*S+20:2*S+S/2; for(int i=0;i<n;i++){t.steps.push_back(fmt("fill %d 1",i));t.steps.push_back(fmt("mem %d",i)); if(r.chance(1,5))t.steps.push_back(fmt("fill %d 1",std::max(0,i-r.below(5)))); }
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false); int mode=0; for(auto&l:t.head){auto k=split(l);if(k[0]=="mode")mode=atoi(k[1].c_str());}
        auto rec=records(*shm); Hash h,shape; std::vector<std::array<long,5>> m; for(auto&r:rec){if(r.tag==T_MEM)m.push_back({(long)r.v[0],(long)r.v[1],(long)r.v[2],(long)r.v[3],(long)r.v[4]});}
        for(auto&x:m){h.add(x[0]);h.add(x[2]);h.add(x[3]);} o.hash=h.h; stats.add("memory_samples",(long)m.size()); for(auto&r:rec)if(r.tag==T_OP){stats.add("calls");stats.add("allocation_failures",(long)r.v[2]);}
        auto grew=[&](size_t a,size_t b,long tol){return m[b][2]-m[a][2]>tol||m[b][4]-m[a][4]>tol;};
        auto say=[&](size_t a,size_t b){return fmt("live memory %ld bytes after step %ld, %ld bytes after step %ld (malloc: %ld, %ld)",m[a][2],m[a][0]+1,m[b][2],m[b][0]+1,m[a][4],m[b][4]);};
        if(mode==0){ // steady growth from lap to lap
            if(m.size()==5){ bool all=true; for(size_t k=1;k+1<5;k++)if(!grew(k,k+1,0))all=false; if(all)fail(o,"growth",say(1,4)); }
        }else if(mode==1){ size_t g0=0; for(size_t k=0;k+1<m.size();k++){ if(m[k+1][1]==0)g0=k+1; if(m[k][1]==2&&m[k+1][1]==3&&k>=2&&m[k-1][1]==1&&grew(k-1,k,0)&&grew(k,k+1,0))fail(o,"growth",say(k-1,k+1)); } (void)g0;
        }else if(mode>=3){ size_t n=m.size(); auto d=[&](size_t k,int w){return m[k+1][w]-m[k][w];};
            if(n>=4)for(int w:{2,4}){ if(mode==3?d(n-2,w)>0&&d(n-3,w)>0&&d(n-4,w)>0:d(n-2,w)>3*d(n-3,w)&&d(n-3,w)>2*d(n-4,w)&&d(n-4,w)>0){fail(o,"growth",say(n-3,n-1));break;} }
        }else{ size_t n=m.size(); size_t need=size_t(S)*3/2+4; if(n>need+4){ size_t q=std::max<size_t>(S+2,n/2); long a=0,b=0; for(size_t k=0;k<q;k++)a=std::max(a,m[k][2]); size_t bi=q; for(size_t k=q;k<n;k++)if(m[k][2]>b){b=m[k][2];bi=k;} // entries are of equal size here
                long per=S>0?(m[std::min<size_t>(S-1,n-1)][2]-m[0][2])/std::max(1,S-1):0; if(b>a+std::max<long>(per*std::max(2,S/8),4096))fail(o,"growth",fmt("live memory still grows after the store is full: %ld bytes at most in the first %zu, %ld after step %ld",a,q,b,m[bi][0]+1));
                // and slow growth per displaced entry
                if(!o.violated){ size_t x=S+2; bool mono=true; long inc=0; for(size_t k=x;k+1<n;k++){long d=m[k+1][2]-m[k][2]; if(d<0){mono=false;break;} if(d>0)inc++;} if(mono&&inc>long(n-x)/3&&inc>3)fail(o,"growth",fmt("live memory grows with every displaced entry: %ld bytes after step %ld, %ld bytes after step %ld",m[x][2],m[x][0]+1,m[n-1][2],m[n-1][0]+1)); }
            } }
        stats.add("steps",(long)t.steps.size()); Hash sh; for(auto&s:t.steps)sh.add(s); o.shape=sh.h; o.nontrivial=!m.empty();
        if(!o.violated)child_failed(e,t,o);
        heap_records(rec,o);
        return o;
    }
};

// C13: the same history in differently configured builds
struct Builds:HistBase{
    std::vector<std::string> alt; std::string tmp;
    explicit Builds(const std::string& p):HistBase(p){ const char* a=getenv("SIM_ALT"); if(a)alt=split(a,':'); tmp=getenv("SIM_TMP")?getenv("SIM_TMP"):"."; }
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,3,fs); stacks(g,2,4);
        static const int et[]={K_range,K_dedx_from_range,K_dedx_from_range_v,K_range_straggling,K_range_variance,K_domega2de,K_get_data,K_energy_straggling_from_E};
        std::vector<Op> ops; for(int i=0;i<60;i++){int kind=g.r.chance(1,2)?et[g.r.below(8)]:pick_store_kind(g.r); Op o=family_op(g,kind,fs[g.r.below(3)],true);
            if(g.r.chance(1,3)){int N=catima::max_datapoints; double v=std::exp(catima::LN10*(catima::logEmin+g.r.below(N)*(catima::logEmax-catima::logEmin)/(N-1.0))); int m=g.r.range(-3,3); for(int q=0;q<std::abs(m);q++)v=std::nextafter(v,m<0?0:1e30); o.a[0]=v; if(!o.v.empty())o.v[0]=v;}
            ops.push_back(o);}
        Trace t;t.head=g.pool.lines(); Rng r(mix(seed,84)); long filler=0,budget=FAST?3L*S:S+5; int target=FAST?80:50;
        t.steps.push_back("heap 0 0 1 0");
        while((int)t.steps.size()<target){ switch(r.below(8)){ case 0: if(budget>0){int k=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,k));filler+=k;} break; case 1: if(r.chance(1,3))t.steps.push_back("reset"); else {Gen q(r.u());t.steps.push_back(def_line(q.near(CSpec())));} break; default: t.steps.push_back("op 0 "+r.pick(ops).text()); } }
        return t;
    }
    static bool table_point(double T){ int N=catima::max_datapoints; double x=(std::log10(T)-catima::logEmin)*(N-1.0)/(catima::logEmax-catima::logEmin); return std::fabs(x-std::round(x))<1e-7||!(T>0); }
    static bool at_table_point(const Op& o){ if(table_point(o.a[0])||(o.a[1]>0&&table_point(o.a[1])))return true; for(double v:o.v)if(table_point(v))return true; return false; }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false); auto rec=records(*shm); Hash h; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);}
        Ring ring; CSpec def; for(auto&s:t.steps){auto k=split(s);if(k[0]=="reset")ring.reset();else if(k[0]=="def"){def.z=atoi(k[1].c_str());def.corr=atoi(k[2].c_str());def.calc=atoi(k[3].c_str());def.low=atoi(k[4].c_str());def.scat=atoi(k[5].c_str());def.fac=strtod(k[6].c_str(),0);}else if(k[0]=="fill"){for(long q=0;q<atol(k[2].c_str());q++)ring.touch(filler_key(atol(k[1].c_str())+q));}else if(k[0]=="op")touches(pool,parse_op(s),def,ring);}
        measure(ring,o); o.nontrivial=ring.hits>0&&ring.evictions+ring.misses>3;
        stats.add("steps",(long)t.steps.size()); for(auto&r:rec)if(r.tag==T_OP)stats.add("calls");
        std::string file=tmp+fmt("/c13-%d.trace",(int)getpid()); write_file(file,t.text());
        for(auto&a:alt){
            auto pos=a.find('='); std::string flag=a.substr(0,pos),exe=a.substr(pos+1); bool exact=flag=="exact";
            FILE* f=popen(("'"+exe+"' --prop C13X --replay '"+file+"'").c_str(),"r"); if(!f){o.inconclusive=true;return o;}
            std::vector<Record> r2; bool done=false; std::string line; char buf[4096]; std::string all; size_t n; while((n=fread(buf,1,sizeof buf,f))>0)all.append(buf,n); pclose(f);
            for(auto&l:split(all,'\n')){auto k=split(l); if(k[0]=="R"){Record x;x.tag=T_OP;for(size_t i=1;i<k.size();i++)x.v.push_back(strtoull(k[i].c_str(),0,16));r2.push_back(x);} else if(k[0]=="DONE")done=true; h.add(l);}
            stats.add("build_comparisons");
            size_t j=0; for(auto&r:rec)if(r.tag==T_OP){
                if(j>=r2.size())break; auto&x=r2[j++]; size_t i=r.v[0]; Op op=parse_op(t.steps[i]);
                if(r.v.size()!=x.v.size()||r.v[1]!=x.v[1]){fail(o,"shape",fmt("step %zu: %s: different kind of result in build %s",i+1,t.steps[i].c_str(),flag.c_str()));break;}
                // at a table point the two index rules may use different, there equal, polynomials
                const bool knot=!exact&&at_table_point(op);
                if(knot&&!(op.kind==K_range||op.kind==K_dedx_from_range||op.kind==K_get_data))continue;
                for(size_t k=3;k<r.v.size();k++)if(r.v[k]!=x.v[k]){
                    double a1=fbits(r.v[k]),b1=fbits(x.v[k]); if(knot&&std::fabs(a1-b1)<=1e-7*std::max(std::fabs(a1),std::fabs(b1)))continue;
                    fail(o,"build-"+flag,fmt("step %zu: %s: value %zu is %.17g, in the other build (%s) %.17g",i+1,t.steps[i].c_str(),k-3,a1,flag.c_str(),b1));break;}
                if(o.violated)break;
            }
            if(!o.violated&&(!done)!=(!(e.ok&&shm->head->done)))fail(o,"crash",fmt("history ends early in one build only (%s)",flag.c_str()));
            if(o.violated)break;
        }
        unlink(file.c_str());
        o.hash=h.h; return o;
    }
};
static int exec_out(const std::string& file){
    Trace t=Trace::parse(read_file(file)); Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false);
    for(auto&r:records(*shm))if(r.tag==T_OP){printf("R");for(auto w:r.v)printf(" %lx",(unsigned long)w);printf("\n");}
    if(e.ok&&shm->head->done)printf("DONE\n");
    return 0;
}

// C19: process-wide settings
struct Settings:HistBase{
    explicit Settings(const std::string& p):HistBase(p){}
    Trace generate(uint64_t seed,long index)override{
        Gen g(pool_seed(index)); std::vector<Fam> fs; families(g,2,fs); stacks(g,2,4);
        std::vector<Op> ops; for(int i=0;i<60;i++){int u=g.r.below(100);int kind=u<50?pick_store_kind(g.r):u<85?g.r.range(K_dedx,K_production):g.r.range(K_c_calculate,K_c_weight); if(!FAST&&(kind==K_tof_table||kind==K_datapoint))kind=K_calculate; ops.push_back(family_op(g,kind,fs[g.r.below(2)],true));}
        Trace t;t.head=g.pool.lines(); Rng r(mix(seed,83)); int target=FAST?r.range(30,90):r.range(20,50); long filler=0,budget=FAST?2L*S:8; int rounding=0;
        static const char* names[]={"cloc","cxxloc","flags","state","errno","umask","cwd","sig","var","rand","ask","clock","pid"};
        while((int)t.steps.size()<target){
            int k=r.below(10);
            if(k<6)t.steps.push_back("op 0 "+r.pick(ops).text());
            else if(k<9){ int w=r.below(13); long a=w==0||w==3||w==6?r.below(2):w==1||w==2||w==7?r.below(3):r.range(0,120); t.steps.push_back(fmt("env %s %ld",names[w],a)); }
            else if(r.chance(1,3)){ rounding=rounding?0:r.range(1,3); t.steps.push_back(fmt("env round %d",rounding)); }
            else if(budget>0&&!rounding){int n=fill_count(r,budget);t.steps.push_back(fmt("fill %ld %d",filler,n));filler+=n;}
            else if(r.chance(1,3))t.steps.push_back("reset");
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome o; Pool pool=Pool::parse(t.head); ChildEnd e=execute(pool,t,false,false,true);
        auto rec=records(*shm); Hash h,shape; for(auto&r:rec){h.add(r.tag);for(auto w:r.v)h.add(w);} o.hash=h.h;
        CSpec def; long changes=0,calls=0; int rounding=0; size_t ri=0;
        for(size_t i=0;i<t.steps.size();i++){
            auto tok=split(t.steps[i]);
            if(tok[0]=="env"){stats.add("setting_"+tok[1]);stats.add("setting_changes");changes++;shape.add(t.steps[i]); if(tok[1]=="round")rounding=atoi(tok[2].c_str());}
            if(tok[0]!="op")continue;
            while(ri<rec.size()&&rec[ri].tag!=T_OP&&rec[ri].tag!=T_TEXT)ri++;
            if(ri<rec.size()&&rec[ri].tag==T_TEXT){auto x=rec[ri].text();fail(o,"setting changed: "+x.substr(x.find(' ')+1),fmt("step %zu: %s changed ",i+1,t.steps[i].c_str())+x.substr(x.find(' ')+1));break;}
            if(ri>=rec.size())break;
            auto&r=rec[ri++]; Op op=parse_op(t.steps[i]); stats.add("calls"); calls++; shape.add(uint64_t(op.kind));
            bool c=is_c(op.kind)&&op.kind!=K_c_weight; CSpec eff=def; if(c)apply_c_side_effect(eff,1);
            Ref ref; if(!rounding)ref=reference(pool,op,op.uses_default()?&def:nullptr,1);
            if(c)def=eff;
            if(rounding||!ref.ok)continue;
            stats.add("results_compared"); std::vector<uint64_t> got(r.v.begin()+3,r.v.end());
            if((int)r.v[1]!=ref.status)fail(o,"exception",fmt("step %zu: %s: status %d, expected %d",i+1,t.steps[i].c_str(),(int)r.v[1],ref.status));
            else {auto d=diff(got,ref.v); if(!d.empty())fail(o,"mismatch",fmt("step %zu: %s: %s",i+1,t.steps[i].c_str(),d.c_str()));}
            if(o.violated)break;
        }
        stats.add("steps",(long)t.steps.size()); o.shape=shape.h; o.nontrivial=changes>0&&calls>0;
        if(!o.violated&&rounding&&!(e.ok&&shm->head->done)){o.inconclusive=true;return o;}
        if(!o.violated)child_failed(e,t,o);
        return o;
    }
};

int main(int argc,char** argv){
    deterministic_process(argc,argv);
    shm=new Shm(64<<20); rshm=new Shm(4<<20);
    for(int i=1;i+3<argc;i++)if(std::string(argv[i])=="--prop"&&std::string(argv[i+1])=="C13X")return exec_out(argv[i+3]);
    int rc=engine_main(argc,argv,[](const std::string& p)->Scenario*{
        if(p=="C19"){hdir=scratch_dir("hist");make_comma_locale(hdir+"/loc");return new Settings(p);}
        if(p=="C01"||p=="C02"||p=="C03")return new History(p);
        if(p=="C04")return new AllocFail(p);
        if(p=="C05")return new RingCheck(p);
        if(p=="C08")return new Snapshots(p);
        if(p=="C13")return new Builds(p);
        if(p=="C14")return new Batch(p);
        if(p=="C15")return new Ambient(p);
        if(p=="C16")return new Memory(p);
        return nullptr;
    });
    if(!hdir.empty()){remove_comma_locale(hdir+"/loc");::rmdir(hdir.c_str());}
    return rc;
}
