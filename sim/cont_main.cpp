// Container simulator: histories of Material and Layers operations with aliasing
// and failing allocations, compared with a plain model after every step.
#include "base.h"
#include "catima/structures.h"
#include "catima/nucdata.h"
#include <cmath>
#include <new>
using namespace sim;
static Shm* shm;
enum Tag{T_STEP=1,T_BAD};

// ------------------------------------------------------------------ model
struct ME{double A;int Z;double stn;};
struct MM{std::vector<ME> e;double rho=1e-5,th=0,M=0,I=0;};
typedef std::vector<MM> LM;
static bool close(double a,double b){return a==b||(a!=a&&b!=b)||std::fabs(a-b)<=1e-12*(std::fabs(a)+std::fabs(b));}
static double weight(double a,int z){return a>0?a:catima::element_atomic_weight(z);}
static void m_add(MM& m,double a,int z,double s){m.e.push_back({weight(a,z),z,s});m.M+=s*weight(a,z);}
static void m_calc(MM& m){bool all=true;for(auto&x:m.e)if(!(x.stn<1.0))all=false; if(all){double s=0;for(auto&x:m.e)s+=x.stn/x.A;m.M=1.0/s;}}
static std::string compare(const catima::Material& a,const MM& m){
    if(a.ncomponents()!=(int)m.e.size())return fmt("%d elements instead of %zu",a.ncomponents(),m.e.size());
    for(int i=0;i<a.ncomponents();i++){auto t=a.get_element(i);if(t.A!=m.e[i].A||t.Z!=m.e[i].Z||t.stn!=m.e[i].stn)return fmt("element %d is (%g,%d,%g) instead of (%g,%d,%g)",i,t.A,t.Z,t.stn,m.e[i].A,m.e[i].Z,m.e[i].stn);}
    if(!close(a.M(),m.M))return fmt("molar mass %.17g instead of %.17g",a.M(),m.M);
    if(!close(a.density(),m.rho))return fmt("density %.17g instead of %.17g",a.density(),m.rho);
    if(!close(a.thickness(),m.th))return fmt("thickness %.17g instead of %.17g",a.thickness(),m.th);
    if(!close(a.I(),m.I))return fmt("potential %.17g instead of %.17g",a.I(),m.I);
    for(int i=0;i<a.ncomponents();i++){ auto&x=m.e[i]; double wf=x.stn<1.0?x.stn:x.stn*x.A/m.M; if(!close(a.weight_fraction(i),wf))return fmt("weight fraction %d",i); }
    if(m.M>0&&!close(a.number_density_cm2(),catima::Avogadro*m.th/m.M))return "number density";
    return "";
}
static std::string compare(const catima::Layers& a,const LM& m){
    if(a.num()!=(int)m.size()||a.get_materials().size()!=m.size())return fmt("%d layers instead of %zu",a.num(),m.size());
    double th=0,cm=0; for(size_t i=0;i<m.size();i++){std::string s=compare(a.get_materials()[i],m[i]);if(!s.empty())return fmt("layer %zu: ",i)+s;th+=m[i].th;cm+=m[i].th/m[i].rho;}
    if(std::fabs(a.thickness()-th)>1e-9*(1+std::fabs(th)))return fmt("total thickness %.17g instead of %.17g",a.thickness(),th);
    if(std::fabs(a.thickness_cm()-cm)>1e-9*(1+std::fabs(cm)))return fmt("total length %.17g instead of %.17g",a.thickness_cm(),cm);
    return "";
}
static const int NM=4,NL=3;
static std::vector<double> nums(const std::vector<std::string>& w,size_t i){std::vector<double> v;for(;i<w.size();i++)v.push_back(strtod(w[i].c_str(),0));return v;}

struct Exec{
    catima::Material X[NM]; catima::Layers Y[NL]; MM x[NM]; LM y[NL];
    std::string fail; long fired=0,sweeps=0,aliases=0,appends_cut=0;
    struct Args{std::string c;std::vector<double> a;int I(size_t k)const{return k<a.size()?(int)a[k]:0;}};
    static int lim(int v,int n){return n<=0?0:((v%n)+n)%n;}
    // the operation on the real objects; returns false when it does not apply in this state
    bool applies(const Args& g){
        if(g.c=="calc")return !x[lim(g.I(0),NM)].e.empty();
        if(g.c=="laddown"||g.c=="lset"||g.c=="lmadd"||g.c=="lcatown"||g.c=="lself")return !y[lim(g.I(0),NL)].empty();
        if(g.c=="mget"||g.c=="laddof")return !y[lim(g.I(1),NL)].empty();
        if(g.c=="lapp"||g.c=="lcat")return y[lim(g.I(0),NL)].size()+y[lim(g.I(1),NL)].size()+y[lim(g.I(2),NL)].size()<60;
        if(g.c=="mnew")return g.a.size()>=4;
        if(g.c=="madd"||g.c=="lmadd")return true;
        return true;
    }
    void real(const Args& g){
        const std::string& c=g.c; auto m=[&](int k)->catima::Material&{return X[lim(g.I(k),NM)];}; auto l=[&](int k)->catima::Layers&{return Y[lim(g.I(k),NL)];};
        if(c=="mnew"){ // k ctor (A Z stn)...
            int n=(int)(g.a.size()-2)/3; const double* e=&g.a[2]; int ctor=g.I(1);
            if(ctor==1)m(0)=catima::Material(e[0],(int)e[1],1e-5,0.0);
            else if(ctor==2){ if(n==1)m(0)=catima::Material({{e[0],e[1],e[2]}}); else if(n==2)m(0)=catima::Material({{e[0],e[1],e[2]},{e[3],e[4],e[5]}}); else m(0)=catima::Material({{e[0],e[1],e[2]},{e[3],e[4],e[5]},{e[6],e[7],e[8]}}); }
            else { catima::Material t; for(int i=0;i<n;i++)t.add_element(e[3*i],(int)e[3*i+1],e[3*i+2]); m(0)=t; }
        }
        else if(c=="madd")m(0).add_element(g.a[1],(int)g.a[2],g.a[3]);
        else if(c=="mset"){ switch(g.I(1)){case 0:m(0).density(g.a[2]);break;case 1:m(0).thickness(g.a[2]);break;case 2:m(0).I(g.a[2]);break;case 3:m(0).M(g.a[2]);break;default:m(0).thickness_cm(g.a[2]);} }
        else if(c=="mcopy")m(0)=m(1);
        else if(c=="mcctor"){catima::Material t(m(1));m(0)=t;}
        else if(c=="calc")m(0).calculate();
        else if(c=="mget")m(0)=l(1)[lim(g.I(2),l(1).num())];
        else if(c=="ladd")l(0).add(m(1));
        else if(c=="laddown")l(0).add(l(0)[lim(g.I(1),l(0).num())]);
        else if(c=="laddof")l(0).add(l(1).get_materials()[lim(g.I(2),l(1).num())]);
        else if(c=="lapp")l(0).add(l(1));
        else if(c=="lcat")l(2)=l(0)+l(1);
        else if(c=="lcatm")l(2)=l(0)+m(1);
        else if(c=="lcatown")l(2)=l(0)+l(0)[lim(g.I(1),l(0).num())];
        else if(c=="lset"){auto& t=l(0)[lim(g.I(1),l(0).num())];switch(g.I(2)){case 0:t.density(g.a[3]);break;case 1:t.thickness(g.a[3]);break;case 2:t.I(g.a[3]);break;case 3:t.M(g.a[3]);break;default:t.thickness_cm(g.a[3]);}}
        else if(c=="lmadd")l(0)[lim(g.I(1),l(0).num())].add_element(g.a[2],(int)g.a[3],g.a[4]);
        else if(c=="lcopy")l(0)=l(1);
        else if(c=="lcctor"){catima::Layers t(l(1));l(0)=t;}
        else if(c=="lself"){auto& t=l(0)[lim(g.I(1),l(0).num())]; t=l(0)[lim(g.I(2),l(0).num())];}
        else if(c=="lnew")l(0)=catima::Layers();
    }
    void model(const Args& g){
        const std::string& c=g.c; auto m=[&](int k)->MM&{return x[lim(g.I(k),NM)];}; auto l=[&](int k)->LM&{return y[lim(g.I(k),NL)];};
        auto set=[&](MM& t,int w,double v){switch(w){case 0:t.rho=v;break;case 1:t.th=v;break;case 2:t.I=v;break;case 3:t.M=v;break;default:t.th=t.rho*v;}};
        if(c=="mnew"){int n=(int)(g.a.size()-2)/3;const double* e=&g.a[2];int ctor=g.I(1);MM t;if(ctor==1)m_add(t,e[0],(int)e[1],1.0);else{if(ctor==2&&n>3)n=3;for(int i=0;i<n;i++)m_add(t,e[3*i],(int)e[3*i+1],e[3*i+2]);if(ctor==2)m_calc(t);}m(0)=t;}
        else if(c=="madd")m_add(m(0),g.a[1],(int)g.a[2],g.a[3]);
        else if(c=="mset")set(m(0),g.I(1),g.a[2]);
        else if(c=="mcopy"||c=="mcctor"){MM t=m(1);m(0)=t;}
        else if(c=="calc")m_calc(m(0));
        else if(c=="mget"){MM t=l(1)[lim(g.I(2),(int)l(1).size())];m(0)=t;}
        else if(c=="ladd")l(0).push_back(m(1));
        else if(c=="laddown"){MM t=l(0)[lim(g.I(1),(int)l(0).size())];l(0).push_back(t);}
        else if(c=="laddof"){MM t=l(1)[lim(g.I(2),(int)l(1).size())];l(0).push_back(t);}
        else if(c=="lapp"){LM t=l(1);for(auto&e:t)l(0).push_back(e);}
        else if(c=="lcat"){LM t=l(0);LM u=l(1);for(auto&e:u)t.push_back(e);l(2)=t;}
        else if(c=="lcatm"){LM t=l(0);t.push_back(m(1));l(2)=t;}
        else if(c=="lcatown"){LM t=l(0);t.push_back(l(0)[lim(g.I(1),(int)l(0).size())]);l(2)=t;}
        else if(c=="lset")set(l(0)[lim(g.I(1),(int)l(0).size())],g.I(2),g.a[3]);
        else if(c=="lmadd")m_add(l(0)[lim(g.I(1),(int)l(0).size())],g.a[2],(int)g.a[3],g.a[4]);
        else if(c=="lcopy"||c=="lcctor"){LM t=l(1);l(0)=t;}
        else if(c=="lself"){MM t=l(0)[lim(g.I(2),(int)l(0).size())];l(0)[lim(g.I(1),(int)l(0).size())]=t;}
        else if(c=="lnew")l(0).clear();
    }
    std::string compare_all(int skip_m=-1,int skip_l=-1){
        for(int i=0;i<NM;i++)if(i!=skip_m){std::string s=compare(X[i],x[i]);if(!s.empty())return fmt("material %d: ",i)+s;}
        for(int i=0;i<NL;i++)if(i!=skip_l){std::string s=compare(Y[i],y[i]);if(!s.empty())return fmt("stack %d: ",i)+s;}
        if(heap::st.bad)return heap::bad_what();
        return "";
    }
    // a failed operation: which object may differ, and what is still required of it
    std::string after_failure(const Args& g){
        const std::string& c=g.c; std::string s;
        bool strong=c=="madd"||c=="ladd"||c=="laddown"||c=="laddof"||c=="lmadd"||c=="mset"||c=="lset"||c=="calc";
        if(strong){ s=compare_all(); return s.empty()?s:"after a failed addition: "+s; }
        bool mt=c=="mnew"||c=="mcopy"||c=="mcctor"||c=="mget";
        int t=mt?lim(g.I(0),NM):(c=="lcat"||c=="lcatm"||c=="lcatown")?lim(g.I(2),NL):lim(g.I(0),NL);
        s=mt?compare_all(t,-1):compare_all(-1,t); if(!s.empty())return "after a failure another object changed: "+s;
        if(mt){ // the target is either the old or the new value
            if(!compare(X[t],x[t]).empty()){ MM old=x[t]; model(g); std::string n=compare(X[t],x[t]); std::string o=compare(X[t],old); x[t]=old; if(!n.empty())return "after a failed assignment the material is neither old nor new: "+o; }
            return "";
        }
        if(c=="lapp"){ LM old=y[t]; LM all=old; for(auto&e:LM(y[lim(g.I(1),NL)]))all.push_back(e);
            size_t n=Y[t].get_materials().size(); if(n<old.size()||n>all.size())return fmt("after a failed append %zu layers, before %zu, complete %zu",n,old.size(),all.size());
            if(n>old.size()&&n<all.size())appends_cut++;
            LM pre(all.begin(),all.begin()+n); s=compare(Y[t],pre); return s.empty()?s:"after a failed append: "+s; }
        // assignments of stacks: every layer must be a complete material of the old or the new stack
        LM old=y[t]; std::vector<LM> keep(y,y+NL); model(g); LM neu=y[t]; for(int i=0;i<NL;i++)y[i]=keep[i];
        auto& v=Y[t].get_materials(); for(size_t i=0;i<v.size();i++){ bool ok=false; for(auto*src:{&old,&neu})for(auto&e:*src)if(compare(v[i],e).empty())ok=true; if(!ok)return fmt("after a failed assignment layer %zu is neither from the old nor from the new stack",i); }
        return "";
    }
    void step(size_t n,const std::string& line){
        auto w=split(line); shm->head->step=n+1;
        if(w[0]=="heap"){heap::st.fill_mode=atoi(w[1].c_str());heap::st.fill_seed=strtoull(w[2].c_str(),0,10);heap::st.poison=true;heap::st.reuse=atoi(w[3].c_str());return;}
        bool sweep=w[0]=="sweep"; Args g; g.c=w[sweep?1:0]; g.a=nums(w,sweep?2:1);
        if(!applies(g))return;
        if(sweep){
            catima::Material SX[NM]; catima::Layers SY[NL];
            sweeps++;
            for(long at=1;at<200;at++)for(int many=0;many<2;many++){
                for(int i=0;i<NM;i++)SX[i]=X[i]; for(int i=0;i<NL;i++)SY[i]=Y[i];
                bool threw=false;
                heap::arm(at,many?-1:1);
                try{heap::Window win;real(g);}catch(std::bad_alloc&){threw=true;}
                long f=heap::st.fired; heap::disarm(); fired+=f;
                if(!f&&!threw){ for(int i=0;i<NM;i++)X[i]=SX[i]; for(int i=0;i<NL;i++)Y[i]=SY[i]; at=1000; break; }
                std::string s;
                if(threw){s=after_failure(g);}
                else { std::vector<MM> kx(x,x+NM);std::vector<LM> ky(y,y+NL);model(g);s=compare_all(); if(!s.empty())s="an allocation failure was hidden: "+s; for(int i=0;i<NM;i++)x[i]=kx[i];for(int i=0;i<NL;i++)y[i]=ky[i]; }
                if(!s.empty()){fail=fmt("%s allocation %ld%s: ",line.c_str(),at,many?" and all later ones":"")+s;return;}
                for(int i=0;i<NM;i++)X[i]=catima::Material(); for(int i=0;i<NL;i++)Y[i]=catima::Layers();
                for(int i=0;i<NM;i++)X[i]=SX[i]; for(int i=0;i<NL;i++)Y[i]=SY[i];
            }
        }
        if(g.c=="lapp"&&lim(g.I(0),NL)==lim(g.I(1),NL))aliases++; if(g.c=="laddown"||g.c=="lcatown"||g.c=="lself")aliases++;
        std::string s;
        try{heap::Window win;real(g);}catch(std::exception& e){s=std::string("exception: ")+e.what();}
        model(g);
        if(s.empty())s=compare_all();
        if(!s.empty())fail=line+": "+s;
    }
};

struct Containers:Scenario{
    static std::string el(Rng& r,bool frac){int z=r.chance(1,2)?r.range(1,20):r.range(1,92);double a=r.chance(1,4)?0.0:std::round(2.2*z);if(a<1&&a!=0)a=1;double s=frac?r.uniform(0.05,0.9):r.range(1,6);return hexd(a)+fmt(" %d ",z)+hexd(s);}
    Trace generate(uint64_t seed,long)override{
        Rng r(seed); Trace t; t.head.push_back("containers");
        t.steps.push_back(fmt("heap %d %lu %d",r.below(7),(unsigned long)(r.u()>>8),r.below(3)));
        int n=r.range(6,thorough?80:40); int grow=r.below(3);
        for(int i=0;i<n;i++){
            int k=r.below(100); int a=r.below(NM),b=r.below(NM),l=r.below(NL),l2=r.below(NL),l3=r.below(NL); std::string s;
            if(i<3||k<10){bool f=r.chance(1,3);int ne=r.range(1,4);int ctor=r.below(3);if(ctor==2&&ne>3)ne=3;s=fmt("mnew %d %d",a,ctor);for(int j=0;j<ne;j++)s+=" "+el(r,f);}
            else if(k<20)s=fmt("madd %d ",a)+el(r,r.chance(1,4));
            else if(k<26)s=fmt("mset %d %d ",a,r.below(5))+hexd(r.uniform(0.1,50));
            else if(k<31)s=fmt("%s %d %d",r.chance(1,2)?"mcopy":"mcctor",a,b);
            else if(k<33)s=fmt("calc %d",a);
            else if(k<36)s=fmt("mget %d %d %d",a,l,r.below(20));
            else if(k<52)s=fmt("ladd %d %d",l,a);
            else if(k<58)s=fmt("laddown %d %d",l,r.below(20));
            else if(k<61)s=fmt("laddof %d %d %d",l,l2,r.below(20));
            else if(k<70)s=fmt("lapp %d %d",l,r.chance(1,3)?l:l2);
            else if(k<76)s=fmt("lcat %d %d %d",l,l2,l3);
            else if(k<80)s=fmt("lcatm %d %d %d",l,a,l3);
            else if(k<83)s=fmt("lcatown %d %d %d",l,r.below(20),l3);
            else if(k<88)s=fmt("lset %d %d %d ",l,r.below(20),r.below(5))+hexd(r.uniform(0.1,50));
            else if(k<92)s=fmt("lmadd %d %d ",l,r.below(20))+el(r,r.chance(1,4));
            else if(k<96)s=fmt("%s %d %d",r.chance(1,2)?"lcopy":"lcctor",l,l2);
            else if(k<98)s=fmt("lself %d %d %d",l,r.below(20),r.below(20));
            else if(grow==0||k<99)s=fmt("lnew %d",l); else s=fmt("lapp %d %d",l,l);
            if(r.chance(1,3))s="sweep "+s;
            t.steps.push_back(s);
        }
        return t;
    }
    Outcome run(const Trace& t)override{
        Outcome out; shm->clear();
        ChildEnd e=in_child([&]{
            Exec* x=new Exec; Hash h; 
            for(size_t i=0;i<t.steps.size();i++){ x->step(i,t.steps[i]); for(int k=0;k<NM;k++){h.add(bits(x->X[k].M()));h.add(uint64_t(x->X[k].ncomponents()));} for(int k=0;k<NL;k++){h.add(uint64_t(x->Y[k].num()));h.add(bits(x->Y[k].thickness()));}
                if(!x->fail.empty()){shm->put_text(T_BAD,x->fail);break;} }
            h.add(uint64_t(x->fired)); shm->put_block(T_STEP,{h.h,uint64_t(x->fired),uint64_t(x->sweeps),uint64_t(x->aliases),uint64_t(x->appends_cut),uint64_t(heap::st.total)});
        },30);
        if(e.timeout){out.inconclusive=true;return out;}
        stats.add("steps",(long)shm->head->step);
        if(!e.ok){out.violated=true;out.kind="crash";size_t s=shm->head->step;out.detail=fmt("step %zu %s: ",s,s&&s<=t.steps.size()?t.steps[s-1].c_str():"")+e.what();out.hash=mix(uint64_t(e.sig),s);return out;}
        Hash shape; for(auto&l:t.steps){auto w=split(l);shape.add(w[0]=="sweep"?w[0]+w[1]:w[0]);}
        for(auto&x:records(*shm)){
            if(x.tag==T_BAD){out.violated=true;out.detail=x.text();
                out.kind=out.detail.find("after a failed")!=std::string::npos||out.detail.find("after a failure")!=std::string::npos||out.detail.find("hidden")!=std::string::npos?"failure "+split(out.detail)[1]:"value "+split(out.detail)[split(out.detail)[0]=="sweep"?1:0];}
            else {out.hash=x.v[0];stats.add("allocation_failures",(long)x.v[1]);stats.add("sweeps",(long)x.v[2]);stats.add("aliasing_calls",(long)x.v[3]);stats.add("appends_stopped_early",(long)x.v[4]);stats.add("allocations",(long)x.v[5]);out.nontrivial=x.v[1]>0;}
        }
        out.shape=shape.h;
        return out;
    }
};
int main(int argc,char** argv){
    deterministic_process(argc,argv); shm=new Shm(size_t(16)<<20);
    return engine_main(argc,argv,[](const std::string& p)->Scenario*{return p=="C09"?new Containers():nullptr;});
}
