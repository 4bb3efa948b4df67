// File simulator: the real command line calculator, the MOCADI export and the
// table generator on simulated files with faults at seeded calls.
#include "base.h"
#include "simio.h"
#include "catima/catima.h"
#include "catima/convert.h"
#include <cmath>
#include <iostream>
#include <cerrno>
#include <clocale>
#include <locale>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
using namespace sim;
int calculator_main(int argc,char** argv);
int generator_main();
// the two expensive functions of the generator are replaced by cheap ones
namespace catima{
double sim_lindhard(const Projectile& p){return 0.001*p.Z+1e-4*p.A+1e-6*p.T;}
double sim_lindhard_X(const Projectile& p){return 1.0+0.002*p.Z+1e-5*p.A+1e-7*p.T;}
}
static Shm* shm; static std::string dir;
enum Tag{T_OUT=1,T_RES,T_FILE,T_CNT};

static std::string fault_text(const io::Fault& f){return fmt("fault %s %d %d %d %ld",f.call.c_str(),f.nth,f.times,f.what,f.arg);}
static io::Fault fault_of(const std::vector<std::string>& w){io::Fault f;f.call=w[1];f.nth=atoi(w[2].c_str());f.times=atoi(w[3].c_str());f.what=atoi(w[4].c_str());f.arg=atol(w[5].c_str());return f;}
struct Run{ bool ok=false; ChildEnd end; std::string out,file; long res=0; io::Counters n; bool have_file=false; };
static Run collect(ChildEnd e){
    Run r; r.end=e; bool got=false;
    for(auto&x:records(*shm)){ if(x.tag==T_OUT)r.out=x.text(); else if(x.tag==T_RES){r.res=(long)x.v[0];got=true;} else if(x.tag==T_FILE){r.file=x.text();r.have_file=true;}
        else if(x.tag==T_CNT){auto&n=r.n;n.opens=x.v[0];n.reads=x.v[1];n.writes=x.v[2];n.seeks=x.v[3];n.closes=x.v[4];n.fired_hard=x.v[5];n.fired_benign=x.v[6];n.delivered=x.v[7];n.shrunk_to=(long)x.v[8];} }
    r.ok=e.ok&&got; return r;
}
static void put_counters(){auto&n=io::n;shm->put_block(T_CNT,{uint64_t(n.opens),uint64_t(n.reads),uint64_t(n.writes),uint64_t(n.seeks),uint64_t(n.closes),uint64_t(n.fired_hard),uint64_t(n.fired_benign),uint64_t(n.delivered),uint64_t(n.shrunk_to)});}
static std::string scratch(const char* name){return dir+"/"+name;}
static int capture_begin(){int m=memfd_create("out",0);fflush(stdout);std::cout.flush();dup2(m,1);return m;}
static std::string capture_end(int m){std::cout.flush();fflush(stdout);std::string s;char b[65536];ssize_t k;lseek(m,0,SEEK_SET);while((k=::read(m,b,sizeof b))>0)s.append(b,size_t(k));return s;}
static void count_calls(const Run& r){stats.add("file_calls",r.n.opens+r.n.reads+r.n.writes+r.n.seeks+r.n.closes);stats.add("steps",r.n.opens+r.n.reads+r.n.writes+r.n.seeks+r.n.closes);stats.add("hard_faults",r.n.fired_hard);stats.add("benign_faults",r.n.fired_benign);}
static void count_kinds(const std::vector<io::Fault>& fs,const Run& r){
    static const char* w[]={"error","short","interrupt","early_end","shrink","grow"};
    for(auto&f:fs){long k=f.call=="open"?r.n.opens:f.call=="read"?r.n.reads:f.call=="write"?r.n.writes:f.call=="seek"?r.n.seeks:r.n.closes; if(k>=f.nth)stats.add("reached_"+f.call+"_"+w[f.what]);}
}

// ------------------------------------------------------------------ C10
struct Calculator:Scenario{
    struct Mat{int Z;double A,rho,th,ip;};
    struct Doc{ double pa=12,pz=6; std::vector<double> E; std::vector<Mat> M; int style=0; std::string config; long pad=0; int estyle=0; };
    static std::string num(double d){char b[64];snprintf(b,sizeof b,"%.17g",d);return b;}
    static Doc doc_of(const Trace& t){
        Doc d; for(auto&l:t.head){auto w=split(l); if(w[0]=="proj"){d.pa=strtod(w[1].c_str(),0);d.pz=strtod(w[2].c_str(),0);} else if(w[0]=="style"){d.style=atoi(w[1].c_str());d.pad=atol(w[2].c_str());d.estyle=atoi(w[3].c_str());} else if(w[0]=="config")d.config=w[1];}
        for(auto&l:t.steps){auto w=split(l); if(w[0]=="E")d.E.push_back(strtod(w[1].c_str(),0)); else if(w[0]=="mat")d.M.push_back({atoi(w[1].c_str()),strtod(w[2].c_str(),0),strtod(w[3].c_str(),0),strtod(w[4].c_str(),0),strtod(w[5].c_str(),0)});}
        return d;
    }
    static std::string json(const Doc& d){
        std::string nl=d.style&1?"\n  ":"", sp=d.style&2?" ":"";
        std::string s="{"+nl+"\"projectile\":"+sp+"["+num(d.pa)+","+sp+num(d.pz)+"],"+nl;
        std::string es; if(d.E.size()==1&&d.estyle==1)es=num(d.E[0]); else if(d.E.size()==1&&d.estyle==2)es="\""+num(d.E[0])+"\""; else {es="[";for(size_t i=0;i<d.E.size();i++)es+=(i?","+sp:"")+num(d.E[i]);es+="]";}
        std::string ms; for(size_t i=0;i<d.M.size();i++){auto&m=d.M[i];ms+=(i?","+nl:"")+std::string("{\"Z\":")+sp+fmt("%d",m.Z)+(m.A>0||!(d.style&8)?",\"A\":"+num(m.A):"")+(m.rho>0?",\"density\":"+sp+num(m.rho):"")+",\"thickness\":"+num(m.th)+(m.ip>0?",\"Ipot\":"+num(m.ip):"")+"}";}
        std::string mat="\"material\":"+sp+(d.M.size()==1&&(d.style&4)?ms:"["+ms+"]"); std::string en="\"energy\":"+sp+es;
        s+=(d.style&16)?mat+","+nl+en:en+","+nl+mat;
        if(!d.config.empty())s+=","+nl+"\"config\":\""+d.config+"\"";
        s+=std::string(size_t(d.pad),' ')+nl+"}"; return s;
    }
    // content: what is on the disk at the start; energy_loop is the fault-free part
    static Run calculator(const std::string& content,const std::vector<io::Fault>& fs){
        shm->clear(); std::string path=scratch("config.json"); write_file(path,content);
        ChildEnd e=in_child([&]{
            int m=capture_begin(); std::string p=path; char a0[]="catima_calculator"; char* av[]={a0,&p[0],nullptr};
            io::full_at=-1; io::plan("config.json",fs);
            long r=-1000; { heap::Window w; r=calculator_main(2,av); }
            io::stop(); put_counters(); shm->put_block(T_RES,{uint64_t(r)}); shm->put_text(T_OUT,capture_end(m));
        },30);
        return collect(e);
    }
    static std::map<std::string,Run>& memo(){static std::map<std::string,Run> m;return m;}
    static Run clean(const std::string& content){auto it=memo().find(content);if(it!=memo().end())return it->second;if(memo().size()>500)memo().clear();return memo()[content]=calculator(content,{});}
    static bool has_values(const std::string& o){for(const char* w:{"Eout","Ein","sigma_E","dEdx","MeV/u","TOF"})if(o.find(w)!=std::string::npos)return true;return false;}
    // text from the header of the i-th energy up to the next one
    static std::vector<std::string> blocks(const std::string& o){std::vector<std::string> b;size_t p=o.find("-------- T = ");while(p!=std::string::npos){size_t q=o.find("-------- T = ",p+5);b.push_back(o.substr(p,q==std::string::npos?q:q-p));p=q;}return b;}
    Trace generate(uint64_t seed,long)override{
        Rng r(seed); Trace t; static const int zs[]={1,2,6,8,18,36,54,82,92}; int z=zs[r.below(9)]; double a=z==1?1:std::round(z*2.3);
        t.head.push_back("proj "+hexd(a)+" "+hexd(z)); bool faults=r.chance(3,4); 
        t.head.push_back(fmt("style %d %d %d",r.below(32),r.chance(1,3)?r.range(1,30000):0,r.below(3)));
        if(r.chance(1,3))t.head.push_back(r.chance(1,2)?"config atimav1.3":"config atimav1.4");
        int ne=r.chance(1,3)?1:r.range(2,7),nm=r.chance(1,3)?1:r.range(2,5);
        for(int i=0;i<ne;i++){double e=r.chance(1,3)?std::exp(r.uniform(std::log(0.5),std::log(30.0))):std::exp(r.uniform(std::log(30.0),std::log(2000.0))); if(r.chance(1,3))e=std::round(e); t.steps.push_back("E "+hexd(e));}
        for(int i=0;i<nm;i++){bool c=r.chance(1,5);int zz=c?r.range(201,300):r.range(1,92);double A=r.chance(1,3)||c?0:std::round(2.2*zz);if(A<1&&A!=0)A=1;t.steps.push_back(fmt("mat %d ",zz)+hexd(A)+" "+hexd(r.chance(1,3)?0:r.uniform(0.1,10))+" "+hexd(r.chance(1,10)?0.0:std::exp(r.uniform(std::log(1e-3),std::log(3.0))))+" "+hexd(r.chance(1,6)?r.uniform(20,500):0));}
        if(faults){
            int k=r.below(10); long len=(long)json(doc_of(t)).size();
            auto F=[&](const char* c,int nth,int times,int what,long arg){io::Fault f;f.call=c;f.nth=nth;f.times=times;f.what=what;f.arg=arg;t.steps.push_back(fault_text(f));};
            static const int errs[]={EIO,EACCES,ENOMEM,EISDIR,EBADF,EAGAIN};
            if(k==0)F("open",1,-1,io::W_ERROR,r.chance(1,2)?ENOENT:r.chance(1,2)?EACCES:EMFILE);
            else if(k==1)F("read",r.range(1,4),r.chance(1,2)?1:-1,io::W_ERROR,errs[r.below(6)]);
            else if(k==2)F("read",r.range(1,4),r.chance(1,2)?1:-1,io::W_EOF,0);
            else if(k==3)F("seek",r.range(1,5),r.chance(1,2)?1:-1,io::W_ERROR,r.chance(1,2)?ESPIPE:EINVAL);
            else if(k==4)t.steps.push_back(fmt("cut %ld",(long)r.below((int)len)));
            else if(k==5)F(r.chance(1,2)?"seek":"read",r.range(1,5),1,io::W_SHRINK,r.below((int)len));
            else if(k==6)F(r.chance(1,2)?"seek":"read",r.range(1,5),1,io::W_GROW,r.range(1,300));
            if((k==1||k==2||k==5)&&r.chance(1,2))F("read",1,-1,io::W_SHORT,1+len/r.range(2,6));
            else if(k>=7||r.chance(1,2)){int n=r.range(1,4);for(int i=0;i<n;i++){ if(r.chance(1,2))F("read",r.range(1,8),r.chance(1,3)?-1:r.range(1,6),io::W_SHORT,r.chance(1,2)?r.range(1,40):r.range(1,9000)); else F("read",r.range(1,8),r.range(1,4),io::W_EINTR,0);}}
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome out; Doc d=doc_of(t); std::vector<io::Fault> fs; long cut=-1; bool grow=false; Hash shape;
        for(auto&l:t.steps){auto w=split(l); if(w[0]=="fault"){fs.push_back(fault_of(w));shape.add(l);if(fs.back().what==io::W_GROW)grow=true;} else if(w[0]=="cut"){cut=atol(w[1].c_str());shape.add(l);} else shape.add(w[0]);}
        if(d.E.empty()||d.M.empty())return out;
        std::string full=json(d); Run base=clean(full);
        stats.add("calculator_runs"); Hash h; h.add(base.out); h.add(uint64_t(base.res));
        if(base.end.timeout){out.inconclusive=true;return out;}
        if(!base.ok){out.violated=true;out.kind="crash";out.detail="without faults: "+base.end.what();return out;}
        std::string content=full; if(cut>=0&&cut<(long)full.size())content=full.substr(0,size_t(cut)); bool is_cut=content.size()<full.size();
        out.shape=shape.h;
        if(!fs.empty()||is_cut){
            Run r=calculator(content,fs); stats.add("calculator_runs"); count_calls(r); count_kinds(fs,r); if(is_cut)stats.add("files_cut"); h.add(r.out);h.add(uint64_t(r.res));h.add(uint64_t(r.n.reads));h.add(uint64_t(r.n.seeks));
            out.hash=h.h; if(r.end.timeout){out.inconclusive=true;return out;}
            if(!r.ok){out.violated=true;out.kind="crash";out.detail="with faults: "+r.end.what();return out;}
            bool incomplete=is_cut||(r.n.fired_hard>0&&r.n.delivered<(long)full.size());
            out.nontrivial=r.n.fired_hard+r.n.fired_benign>0||is_cut;
            if(incomplete){ if(has_values(r.out)){out.violated=true;out.kind="values from an incomplete file";out.detail=fmt("%ld of %zu bytes were read, values were printed",r.n.delivered,full.size());return out;} stats.add("incomplete_reads_judged"); }
            else if(r.n.fired_hard>0||grow){ if(has_values(r.out)&&r.out!=base.out){out.violated=true;out.kind="other values after a fault";out.detail="output differs from that of the undisturbed run";return out;} }
            else if(r.out!=base.out||r.res!=base.res){out.violated=true;out.kind="short or interrupted read changed the output";size_t k=0;while(k<r.out.size()&&k<base.out.size()&&r.out[k]==base.out[k])k++;out.detail=fmt("first difference at byte %zu: ",k)+jstr(r.out.substr(k,60))+" instead of "+jstr(base.out.substr(k,60));return out;}
        }
        // every energy of a list against a run with this energy only
        if(d.E.size()>1){
            auto b=blocks(base.out); if(has_values(base.out)&&b.size()!=d.E.size()){out.violated=true;out.kind="missing energies";out.detail=fmt("%zu blocks for %zu energies",b.size(),d.E.size());return out;}
            out.nontrivial=true;
            for(size_t i=0;i<b.size();i++){ Doc s=d; s.E={d.E[i]}; s.estyle=0; Run one=clean(json(s)); stats.add("single_energy_runs"); if(!one.ok){out.inconclusive=true;return out;} h.add(one.out);
                auto c=blocks(one.out); if(c.size()!=1||c[0]!=b[i]){out.violated=true;out.kind="energy depends on the others";size_t k=0;std::string x=c.empty()?"":c[0];while(k<x.size()&&k<b[i].size()&&x[k]==b[i][k])k++;out.detail=fmt("energy %zu (%.10g): ",i,d.E[i])+jstr(b[i].substr(k>20?k-20:0,60))+" in the list, "+jstr(x.substr(k>20?k-20:0,60))+" alone";out.hash=h.h;return out;} }
        }
        out.hash=h.h; return out;
    }
};

// ------------------------------------------------------------------ C11
struct Writers:Scenario{
    static Run writer(const Trace& t,const std::vector<io::Fault>& fs,long full,long old=-1){
        bool gen=false; for(auto&l:t.head)if(l=="generator")gen=true;
        const char* name=gen?"generated_LS_coeff.h":"export.txt"; std::string path=scratch(name); ::unlink(path.c_str()); if(old>=0)write_file(path,std::string(size_t(old),'#')); shm->clear();
        ChildEnd e=in_child([&]{
            if(chdir(dir.c_str())!=0)_exit(90);
            int m=capture_begin(); int ef=dup(2); (void)ef; int nul=open("/dev/null",O_WRONLY); dup2(nul,2);
            catima::Projectile p(12,6); p.T=1000; catima::Layers l; catima::Phasespace x,y;
            for(auto&h:t.head){auto w=split(h);if(w[0]=="proj"){p.A=strtod(w[1].c_str(),0);p.Z=strtod(w[2].c_str(),0);p.T=strtod(w[3].c_str(),0);}else if(w[0]=="ps"){x.sigma_x=strtod(w[1].c_str(),0);x.sigma_a=strtod(w[2].c_str(),0);y=x;}
                else if(w[0]=="layer"){int z=atoi(w[1].c_str());catima::Material q=z>200?catima::get_material(z):catima::Material(0,z,strtod(w[2].c_str(),0));q.thickness(strtod(w[3].c_str(),0));int rep=atoi(w[4].c_str());for(int i=0;i<rep;i++)l.add(q);}}
            io::full_at=full; io::plan(name,fs);
            long r; { heap::Window w; r=gen?(generator_main()==0?1:0):(save_mocadi(path.c_str(),p,l,x,y)?1:0); }
            io::stop(); put_counters(); shm->put_block(T_RES,{uint64_t(r)}); (void)m;
        },60);
        Run r=collect(e); struct stat st; if(stat(path.c_str(),&st)==0){r.have_file=true;r.file=read_file(path);} return r;
    }
    Trace generate(uint64_t seed,long)override{
        Rng r(seed); Trace t; bool gen=r.chance(1,12);
        if(gen)t.head.push_back("generator"); else {
            t.head.push_back("proj "+hexd(r.range(1,240))+" "+hexd(r.range(1,92))+" "+hexd(r.uniform(1,2000))); t.head.push_back("ps "+hexd(r.uniform(0,1))+" "+hexd(r.uniform(0,0.01)));
            int n=r.range(0,5); for(int i=0;i<n;i++){ bool c=r.chance(1,3); t.head.push_back(fmt("layer %d ",c?r.range(201,347):r.range(1,92))+hexd(r.uniform(0.1,10))+" "+hexd(r.uniform(0.01,3))+fmt(" %d",r.chance(1,3)?r.range(20,300):1)); }
        }
        if(r.chance(1,3))t.steps.push_back(fmt("old %d",r.chance(1,2)?r.range(0,2000):r.range(2000,gen?900000:200000)));
        auto F=[&](const char* c,int nth,int times,int what,long arg){io::Fault f;f.call=c;f.nth=nth;f.times=times;f.what=what;f.arg=arg;t.steps.push_back(fault_text(f));};
        static const int errs[]={EIO,ENOSPC,EDQUOT,EFBIG,EAGAIN};
        int k=r.below(9); long len=gen?700000:3000;
        if(k==0)F("open",1,-1,io::W_ERROR,r.chance(1,2)?EACCES:r.chance(1,2)?ENOSPC:EROFS);
        else if(k<=2)F("write",r.chance(1,2)?1:r.range(1,6),r.chance(1,2)?1:-1,io::W_ERROR,errs[r.below(5)]);
        else if(k==3)F("close",1,1,io::W_ERROR,r.chance(1,2)?EIO:ENOSPC);
        else if(k<=5)t.steps.push_back(fmt("full %ld",r.chance(1,3)?0:(long)(r.chance(1,2)?r.below((int)len):std::exp(r.uniform(0,std::log((double)len))))));
        if(k>=6||r.chance(1,2)){int n=r.range(1,4);for(int i=0;i<n;i++){ if(r.chance(1,2))F("write",r.range(1,8),r.chance(1,3)&&!gen?-1:r.range(1,6),io::W_SHORT,r.chance(1,2)?r.range(1,40):r.range(1,9000)); else F("write",r.range(1,8),r.range(1,4),io::W_EINTR,0);}}
        return t;
    }
    static std::map<std::string,Run>& memo(){static std::map<std::string,Run> m;return m;}
    Outcome run(const Trace& t)override{
        Outcome out; std::vector<io::Fault> fs; long full=-1,old=-1; Hash shape; bool openfail=false;
        for(auto&l:t.steps){auto w=split(l);shape.add(l);if(w[0]=="fault"){fs.push_back(fault_of(w));if(w[1]=="open")openfail=true;}else if(w[0]=="full")full=atol(w[1].c_str());else if(w[0]=="old")old=atol(w[1].c_str());}
        std::string k; for(auto&h:t.head)k+=h+"\n"; auto it=memo().find(k); if(it==memo().end()){if(memo().size()>50)memo().clear();it=memo().emplace(k,writer(t,{},-1)).first;}
        Run base=it->second;
        if(base.end.timeout){out.inconclusive=true;return out;}
        if(!base.ok){out.violated=true;out.kind="crash";out.detail="without faults: "+base.end.what();return out;}
        if(base.res!=1||!base.have_file||base.file.empty()){out.violated=true;out.kind="undisturbed write failed";out.detail=fmt("reported %ld, file of %zu bytes",base.res,base.file.size());return out;}
        Run r=writer(t,fs,full,old); stats.add("writer_runs"); if(old>=0)stats.add("files_overwritten"); count_calls(r); count_kinds(fs,r); shape.add(k.substr(0,9)); out.shape=shape.h;
        Hash h; h.add(r.file);h.add(uint64_t(r.res));h.add(uint64_t(r.n.writes)); out.hash=h.h; out.nontrivial=r.n.fired_hard+r.n.fired_benign>0;
        if(r.end.timeout){out.inconclusive=true;return out;}
        if(!r.ok){out.violated=true;out.kind="crash";out.detail="with faults: "+r.end.what();return out;}
        bool complete=r.have_file&&r.file==base.file;
        if(r.res==1&&!complete){out.violated=true;out.kind="success reported for an incomplete file";out.detail=fmt("%zu of %zu bytes are in the file",r.file.size(),base.file.size());return out;}
        if(openfail&&r.n.opens>0&&r.res==1){out.violated=true;out.kind="success reported without a file";out.detail="the file could not be opened";return out;}
        if(r.n.fired_hard==0&&(r.res!=1||!complete)){out.violated=true;out.kind="short or interrupted write changed the result";out.detail=fmt("reported %ld, %zu of %zu bytes",r.res,r.file.size(),base.file.size());return out;}
        if(r.n.fired_hard)stats.add("failed_writes_judged");
        return out;
    }
};

// ------------------------------------------------------------------ C18
struct Exports:Scenario{
    struct Set{ catima::Projectile p{12,6}; catima::Layers l; catima::Phasespace x,y; };
    static void build(const std::vector<std::string>& lines,std::vector<Set>& s){
        for(auto&h:lines){auto w=split(h); if(w[0]=="set"){s.emplace_back();continue;} if(s.empty())continue; Set& e=s.back();
            if(w[0]=="proj"){e.p.A=strtod(w[1].c_str(),0);e.p.Z=strtod(w[2].c_str(),0);e.p.T=strtod(w[3].c_str(),0);}
            else if(w[0]=="ps"){e.x.sigma_x=strtod(w[1].c_str(),0);e.x.sigma_a=strtod(w[2].c_str(),0);e.y.sigma_x=strtod(w[3].c_str(),0);e.y.sigma_a=strtod(w[4].c_str(),0);}
            else if(w[0]=="layer"){int z=atoi(w[1].c_str());catima::Material q=z>200?catima::get_material(z):catima::Material(0,z,strtod(w[2].c_str(),0));q.thickness(strtod(w[3].c_str(),0));if(atoi(w[5].c_str()))q.add_element(0,atoi(w[5].c_str()),2);int rep=atoi(w[4].c_str());for(int i=0;i<rep;i++)e.l.add(q);} }
    }
    static uint64_t image(const Set& s){
        Hash h; for(double v:{s.p.A,s.p.Z,s.p.Q,s.p.T,s.x.sigma_x,s.x.sigma_a,s.y.sigma_x,s.y.sigma_a,s.l.thickness(),s.l.thickness_cm()})h.add(bits(v));
        for(auto&m:s.l.get_materials()){for(double v:{m.M(),m.density(),m.thickness(),m.I()})h.add(bits(v));for(int i=0;i<m.ncomponents();i++){auto t=m.get_element(i);h.add(bits(t.A));h.add(uint64_t(t.Z));h.add(bits(t.stn));}}
        return h.h;
    }
    struct Comma:std::numpunct<char>{ bool group; explicit Comma(bool g):group(g){} char do_decimal_point()const override{return ',';} char do_thousands_sep()const override{return '.';} std::string do_grouping()const override{return group?"\003":"";} };
    static std::string locdir(){return dir+"/loc";}
    static std::string name(int i){return fmt("export%d.txt",i);}
    struct Step{int n;int reported;std::string file;uint64_t changed;};
    struct Result{bool ok=false;ChildEnd end;std::vector<Step> s;long locale_bad=0;};
    static Result execute(const std::vector<std::string>& head,const std::vector<std::string>& steps){
        for(int i=0;i<3;i++)::unlink(scratch(name(i).c_str()).c_str());
        shm->clear();
        ChildEnd e=in_child([&]{
            setenv("LOCPATH",locdir().c_str(),1); std::vector<Set> s; build(head,s); long bad=0; int err=0; int ns=(int)s.size();
            std::vector<std::vector<double>> val; for(auto&l:steps){val.emplace_back();for(auto&x:split(l))val.back().push_back(strtod(x.c_str(),nullptr));} // read before a locale is set
            for(size_t k=0;k<steps.size();k++){ auto w=split(steps[k]); const std::string& c=w[0]; auto I=[&](size_t j){return j<w.size()?atoi(w[j].c_str()):0;};
                if(c=="cloc"){ if(!setlocale(LC_NUMERIC,I(1)?"simloc":"C"))bad++; }
                else if(c=="cxxloc")std::locale::global(I(1)?std::locale(std::locale::classic(),new Comma(I(1)==2)):std::locale::classic());
                else if(c=="errno")err=I(1);
                else if(c=="reset")catima::_storage.Reset();
                else if(c=="calc"&&I(1)<ns){heap::Window h; Set t=s[I(1)]; catima::calculate(t.p,t.l);}
                else if(c=="edit"&&I(2)<ns){ Set& t=s[I(2)]; const std::string& what=w[1]; int j=I(3); const auto& v=val[k]; heap::Window h;
                    if(what=="take"&&j<ns)t.l=catima::Layers(s[j].l); else if(what=="swap"&&j<ns)std::swap(t.l,s[j].l); else if(what=="energy")t.p.T=v[3]; else if(what=="sigma")t.x.sigma_x=v[3];
                    else if(what=="append")t.l.add(catima::get_material(j)); else if(t.l.num()>0){ catima::Material& m=t.l[j%t.l.num()]; if(what=="thick")m.thickness(v[4]); else if(what=="dens")m.density(v[4]); else if(what=="put")m=catima::get_material(I(4)); } }
                else if(c=="id"&&I(1)<ns){heap::Window h; for(auto&m:s[I(1)].l.get_materials())materialdb_id(m);}
                else if((c=="export"||c=="fail")&&I(1)<ns){ Set& t=s[I(1)]; std::string path=scratch(name(I(2)).c_str()); uint64_t a=image(t); int idx=catima::_storage.get_index(); std::string lc=setlocale(LC_ALL,nullptr); std::locale lx; auto dc=catima::default_config;
                    if(c=="fail"){io::full_at=I(3); io::plan(name(I(2)),{});}
                    bool r; {heap::Window h; errno=err; r=save_mocadi(path.c_str(),t.p,t.l,t.x,t.y); err=errno;}
                    if(c=="fail"){io::stop();io::full_at=-1;}
                    uint64_t changed=(image(t)!=a)|(idx!=catima::_storage.get_index())<<1|(lc!=setlocale(LC_ALL,nullptr))<<2|(!(lx==std::locale()))<<3|(!(dc==catima::default_config))<<4;
                    shm->put_block(T_RES,{uint64_t(k),uint64_t(r),changed}); shm->put_text(T_FILE,c=="export"?read_file(path):""); }
            }
            shm->put_block(T_CNT,{uint64_t(bad)});
        },60);
        Result r; r.end=e; bool got=false; for(auto&x:records(*shm)){ if(x.tag==T_RES)r.s.push_back({(int)x.v[0],(int)x.v[1],"",x.v[2]}); else if(x.tag==T_FILE&&!r.s.empty())r.s.back().file=x.text(); else if(x.tag==T_CNT){got=true;r.locale_bad=(long)x.v[0];} }
        r.ok=e.ok&&got; return r;
    }
    Trace generate(uint64_t seed,long)override{
        Rng r(seed); Trace t; int ns=r.range(1,3);
        for(int i=0;i<ns;i++){ t.head.push_back("set"); t.head.push_back("proj "+hexd(r.range(1,240))+" "+hexd(r.range(1,92))+" "+hexd(r.chance(1,2)?r.uniform(1,2000):r.range(1,2000)));
            t.head.push_back("ps "+hexd(r.uniform(0,1))+" "+hexd(r.uniform(0,0.01))+" "+hexd(r.uniform(0,20))+" "+hexd(r.uniform(0,0.01)));
            int n=r.chance(1,8)?0:r.range(1,5); for(int j=0;j<n;j++){bool c=r.chance(1,2); t.head.push_back(fmt("layer %d ",c?r.range(201,347):r.range(1,92))+hexd(r.chance(1,2)?r.uniform(0.1,20):r.uniform(1e-5,1e-2))+" "+hexd(r.uniform(0.001,30))+fmt(" %d %d",r.chance(1,6)?r.range(5,60):1,r.chance(1,5)?r.range(1,92):0));} }
        int n=r.range(2,14); bool last=false;
        for(int i=0;i<n||!last;i++){ int k=r.below(17); last=false; std::string s;
            if(k<5||i>=n){s=fmt("export %d %d",r.below(ns),r.below(3));last=true;} else if(k==5)s=fmt("fail %d %d %d",r.below(ns),r.below(3),r.chance(1,3)?0:r.below(2000)); else if(k==6)s=fmt("calc %d",r.below(ns)); else if(k<=8)s=fmt("cloc %d",r.chance(2,3)?1:0); else if(k==9)s=fmt("cxxloc %d",r.below(3)); else if(k==10)s=fmt("errno %d",r.chance(1,2)?ERANGE:r.range(1,120)); else if(k==11)s=fmt("id %d",r.below(ns)); else if(k==12)s="reset";
            else{ int a=r.below(ns),e=r.below(8); s=e==0?fmt("edit take %d %d",a,r.below(ns)):e==1?fmt("edit swap %d %d",a,r.below(ns)):e==2?fmt("edit energy %d ",a)+hexd(r.uniform(1,2000)):e==3?fmt("edit append %d %d",a,r.range(201,347)):e==4?fmt("edit thick %d %d ",a,r.below(5))+hexd(r.uniform(0.001,30)):e==5?fmt("edit dens %d %d ",a,r.below(5))+hexd(r.uniform(0.1,20)):e==6?fmt("edit put %d %d %d",a,r.below(5),r.range(201,347)):fmt("edit sigma %d ",a)+hexd(r.uniform(0,1)); }
            t.steps.push_back(s); }
        return t;
    }
    static std::map<std::string,Result>& memo(){static std::map<std::string,Result> m;return m;}
    Outcome run(const Trace& t)override{
        Outcome out; std::vector<std::vector<std::string>> sets; for(auto&l:t.head){if(l=="set")sets.emplace_back();if(!sets.empty())sets.back().push_back(l);}
        if(sets.empty())return out;
        Hash shape; bool env=false; long exports=0;
        for(auto&l:t.steps){auto w=split(l);shape.add(l); if(w[0]=="cloc"){stats.add("c_locale_changes");env=true;} else if(w[0]=="cxxloc"){stats.add("cxx_locale_changes");env=true;} else if(w[0]=="errno")stats.add("errno_changes"); else if(w[0]=="fail"){stats.add("failing_exports");env=true;} else if(w[0]=="calc")stats.add("calculations_between"); else if(w[0]=="edit")stats.add("objects_changed_between"); else if(w[0]=="export")exports++;}
        Result r=execute(t.head,t.steps); stats.add("steps",(long)t.steps.size()); stats.add("locale_unavailable",r.locale_bad);
        if(r.end.timeout){out.inconclusive=true;return out;}
        Hash h; for(auto&s:r.s){h.add(uint64_t(s.n));h.add(uint64_t(s.reported));h.add(s.file);h.add(s.changed);} out.hash=h.h; out.shape=shape.h; out.nontrivial=exports>0&&(env||exports>1);
        if(!r.ok){out.violated=true;out.kind="crash";out.detail=r.end.what();return out;}
        for(auto&s:r.s){ auto w=split(t.steps[s.n]); size_t k=(size_t)atoi(w[1].c_str());
            if(s.changed){out.violated=true;out.kind="export changed something";out.detail=fmt("step %d changed ",s.n)+(s.changed&1?"the exported objects":s.changed&2?"the result store":s.changed&4?"the C locale":s.changed&8?"the C++ locale":"the default configuration");return out;}
            if(w[0]!="export")continue;
            // the reference makes the same objects with the same changes and exports once
            std::vector<std::string> rs; for(int q=0;q<s.n;q++)if(t.steps[q].compare(0,5,"edit ")==0)rs.push_back(t.steps[q]);
            const auto& rh=rs.empty()?sets[k]:t.head; rs.push_back(rs.empty()?"export 0 0":fmt("export %zu 0",k));
            std::string key; for(auto&l:rh)key+=l+"\n"; for(auto&l:rs)key+=l+"\n"; auto it=memo().find(key);
            if(it==memo().end()){if(memo().size()>500)memo().clear();it=memo().emplace(key,execute(rh,rs)).first;stats.add("fresh_process_references");}
            const Result& f=it->second; if(!f.ok||f.s.size()!=1){out.inconclusive=true;return out;}
            stats.add("exports_compared");
            if(s.reported!=f.s[0].reported){out.violated=true;out.kind="export reported otherwise";out.detail=fmt("step %d reported %d, in a fresh process %d",s.n,s.reported,f.s[0].reported);return out;}
            if(s.file!=f.s[0].file){size_t q=0;while(q<s.file.size()&&q<f.s[0].file.size()&&s.file[q]==f.s[0].file[q])q++;out.violated=true;out.kind="other file content";out.detail=fmt("step %d, first difference at byte %zu: ",s.n,q)+jstr(s.file.substr(q>12?q-12:0,40))+" instead of "+jstr(f.s[0].file.substr(q>12?q-12:0,40));return out;} }
        return out;
    }
};

int main(int argc,char** argv){
    deterministic_process(argc,argv); shm=new Shm(size_t(64)<<20);
    dir=scratch_dir("io");
    int r=engine_main(argc,argv,[](const std::string& p)->Scenario*{ if(p=="C10")return new Calculator(); if(p=="C11")return new Writers(); if(p=="C18"){make_comma_locale(dir+"/loc");return new Exports();} return nullptr; });
    for(const char* f:{"config.json","export.txt","generated_LS_coeff.h","export0.txt","export1.txt","export2.txt"})::unlink(scratch(f).c_str()); remove_comma_locale(dir+"/loc"); ::rmdir(dir.c_str());
    return r;
}
