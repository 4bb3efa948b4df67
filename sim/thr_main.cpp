// Thread simulator: the real library, compiled with access instrumentation,
// under a seeded scheduler that may switch threads at every memory access.
#include "ops.h"
#include "integ_ops.h"
#include "simsched.h"
#include <cmath>
#include <set>
#include <algorithm>
using namespace sim;

static const int S=catima::max_storage_data;
static Shm* shm; static Shm* rshm;
enum Tag{T_OP=1,T_REP,T_SEG,T_STORE,T_FIRED};

// ------------------------------------------------------------------ schedules in traces
static sched::Policy policy_of(const Trace& t){
    sched::Policy p; p.mode=4;
    for(auto&l:t.steps){auto w=split(l);
        if(w[0]=="rand"){p.mode=atoi(w[1].c_str());p.seed=strtoull(w[2].c_str(),0,10);p.rate=atoi(w[3].c_str());p.horizon=atol(w[4].c_str());}
        else if(w[0]=="s"){p.mode=0;p.segments.push_back({atoi(w[1].c_str()),atol(w[2].c_str())});}
    }
    return p;
}
static std::string random_policy(Rng& r){
    int mode=1+r.below(3); int rate=1; long hor=0;
    if(mode==1){static const int v[]={1,2,3,5,10,30,100,300,1000,5000,30000};rate=v[r.below(11)];}
    else if(mode==2){rate=r.range(1,6);hor=(long)std::exp(r.uniform(std::log(30.0),std::log(3e5)));}
    else rate=r.range(1,4);
    return fmt("rand %d %lu %d %ld",mode,(unsigned long)(r.u()>>8),rate,hor);
}
static int threads_of(const Trace& t){for(auto&l:t.head)if(l.compare(0,8,"threads ")==0)return atoi(l.c_str()+8);return 2;}
static bool flag(const Trace& t,const char* f){for(auto&l:t.head)if(l==f)return true;return false;}
static void put_report(const sched::Report& r){
    shm->put_block(T_REP,{uint64_t(r.finished),uint64_t(r.deadlock),uint64_t(r.points),uint64_t(r.switches),uint64_t(r.static_stores),uint64_t(r.static_loads),uint64_t(r.heap_accesses),uint64_t(r.blocked),r.interleaving});
    std::vector<uint64_t> v; for(auto&s:r.executed){v.push_back(uint64_t(s.thread));v.push_back(uint64_t(s.n));} shm->put_block(T_SEG,v);
}
struct Observed{ bool have=false; std::vector<uint64_t> rep; std::vector<sched::Segment> seg; };
static Observed last;
static Trace with_segments(const Trace& t){
    Trace r; r.head=t.head; for(auto&l:t.steps)if(l.compare(0,5,"rand ")!=0&&l.compare(0,2,"s ")!=0)r.steps.push_back(l);
    for(auto&s:last.seg)r.steps.push_back(fmt("s %d %ld",s.thread,s.n));
    return r;
}
static void count_report(const Observed& o,Outcome& out){
    stats.add("switch_points",(long)o.rep[2]);stats.add("preemptions",(long)o.rep[3]);stats.add("shared_stores",(long)o.rep[4]);stats.add("static_loads",(long)o.rep[5]);stats.add("heap_accesses",(long)o.rep[6]);stats.add("blocked_on_locks",(long)o.rep[7]);
    stats.seen("interleaving",o.rep[8]); out.nontrivial=o.rep[3]>=2;
}

// ------------------------------------------------------------------ references: the call alone, in a fresh process
struct Ref{bool ok=false;int status=0;std::vector<uint64_t> v;};
static std::map<std::string,Ref> memo;
static int guarded(World& w,const Op& o,std::vector<uint64_t>& v){
    try{v=exec(w,o);return 0;}catch(std::bad_alloc&){return 1;}catch(std::exception&){return 2;}catch(...){return 3;}
}
static Ref reference(const Pool& pool,const std::string& pooltext,const Op& o){
    std::string k=pooltext+o.text(); auto it=memo.find(k); if(it!=memo.end())return it->second;
    rshm->clear();
    ChildEnd e=in_child([&]{World w(pool,o);std::vector<uint64_t> v;int st=guarded(w,o,v);v.insert(v.begin(),st);rshm->put_block(T_OP,v);},30);
    Ref r; auto rec=records(*rshm); if(e.ok&&rec.size()==1){r.ok=true;r.status=(int)rec[0].v[0];r.v.assign(rec[0].v.begin()+1,rec[0].v.end());}
    stats.add("fresh_process_references"); if(memo.size()>5000)memo.clear(); memo[k]=r; return r;
}

// ------------------------------------------------------------------ C06 and C07
struct Calls:Scenario{
    bool stored; explicit Calls(bool s):stored(s){}
    static std::string get_line(int p,int m,int c){return fmt("get %d %d %d",p,m,c);}
    Trace generate(uint64_t seed,long)override{
        Gen g(seed); Rng& r=g.r; Trace t; Pool& o=g.pool;
        int np=r.range(1,3),nm=r.range(1,3),nc=r.range(1,2);
        for(int i=0;i<np;i++)o.P.push_back(i&&r.chance(1,2)?g.near(o.P[0]):g.proj());
        for(int i=0;i<nm;i++)o.M.push_back(i&&r.chance(1,2)?g.near(o.M[0]):g.mat());
        o.C.push_back(stored?CSpec():g.conf()); for(int i=1;i<nc;i++)o.C.push_back(r.chance(1,2)?g.near(o.C[0]):g.conf());
        int nt=r.chance(2,3)?2:r.range(3,4);
        std::vector<std::string> pre,ops; double e0[2]={g.energy(),g.energy()}; if(r.chance(1,2))e0[1]=e0[0]*(1+g.tiny());
        auto common=[&](Op& x){ if(r.chance(1,2))return; if(x.a[1]>0&&x.a[1]<x.a[0]&&x.kind!=K_production&&!is_layers(x.kind))x.a[1]=e0[0]*0.6; x.a[0]=e0[r.below(2)]; }; // threads often ask for the same energy
        if(!stored){
            static const int kinds[]={K_dedx,K_domega2dx,K_da2dx,K_tof_from_E,K_tof_table,K_datapoint,K_physics,K_physics,K_lookup,K_lookup,K_production,K_c_weight};
            const int nk=sizeof kinds/sizeof*kinds;
            int theme=r.chance(1,2)?kinds[r.below(nk)]:-1;
            for(int i=0;i<nt;i++){int n=r.range(1,3);for(int j=0;j<n;j++){
                int k=theme>=0&&r.chance(4,5)?theme:kinds[r.below(nk)];
                Op x=g.op(k,np,nm,nc,true); common(x); if(k==K_physics||k==K_dedx)if(r.chance(1,2))x.a[0]=std::exp(r.uniform(std::log(1e-3),std::log(30.0)));
                ops.push_back(fmt("op %d ",i)+x.text()); if(r.chance(1,20))pre.push_back("pre "+x.text()); }}
        } else {
            // combinations that are stored beforehand; one projectile and configuration has all its materials stored
            std::vector<std::array<int,3>> cs; int p0=r.below(np),c0=r.below(nc);
            for(int m=0;m<nm;m++)cs.push_back({p0,m,c0});
            int room=std::min(S,9)-1-(int)cs.size(); int extra=room>0?r.below(room+1):0;
            for(int i=0;i<extra;i++){std::array<int,3> x{r.below(np),r.below(nm),r.below(nc)};if(std::find(cs.begin(),cs.end(),x)==cs.end())cs.push_back(x);}
            for(int i=0;i<2;i++){std::vector<int> l;int n=r.range(1,5);for(int j=0;j<n;j++)l.push_back(r.below(nm));o.L.push_back(l);}
            if(r.chance(1,2))pre.push_back(fmt("fill %d",r.chance(1,2)?S:r.below(S+1)));
            for(auto&x:cs)pre.push_back(get_line(x[0],x[1],x[2]));
            bool simple=false; int theme=r.chance(1,2)?pick_store_kind(r):-1;
            for(int i=0;i<nt;i++){int n=r.range(1,4);for(int j=0;j<n;j++){
                int k=theme>=0&&r.chance(3,4)?theme:pick_store_kind(r); if(k==K_simple){ if(simple)k=K_calculate; else simple=true; }
                Op x=g.op(k,np,nm,nc,false); common(x); auto&cb=is_layers(k)?cs[0]:cs[r.below((int)cs.size())];
                x.p=cb[0];x.m=cb[1];x.c=cb[2]; if(x.c==0&&r.chance(1,2))x.c=-1; if(k==K_simple){x.c=-1;pre.push_back("pre "+x.text());} if(is_layers(k))x.l=r.below((int)o.L.size());
                ops.push_back(fmt("op %d ",i)+x.text()); }}
        }
        t.head=o.lines(); t.head.push_back(fmt("threads %d",nt)); if(stored||r.chance(1,3))t.head.push_back("shared"); if(stored&&r.chance(1,3))t.head.push_back("look");
        for(auto&x:pre)t.head.push_back(x);
        t.steps=ops; t.steps.push_back(random_policy(r));
        return t;
    }
    static std::vector<uint64_t> store_state(bool splines){
        std::vector<uint64_t> v; auto& d=catima::_storage; v.push_back(uint64_t(d.GetN()));v.push_back(uint64_t(d.get_index()));
        for(int i=0;i<d.GetN();i++){auto& e=d.Get((unsigned)i); Hash h; h.add(bits(e.p.A));h.add(bits(e.p.Z));h.add(bits(e.p.Q));h.add(bits(e.m.M()));h.add(bits(e.m.I()));h.add(bits(e.m.density()));h.add(uint64_t(e.m.ncomponents()));
            h.add(uint64_t(e.config.z_effective)*1000+e.config.corrections);h.add(bits(e.config.scattering_factor));
            for(double x:e.range)h.add(bits(x));for(double x:e.range_straggling)h.add(bits(x));for(double x:e.angular_variance)h.add(bits(x));
            if(splines&&!e.range.empty())for(double T:{0.01,3.0,200.0,1e5}){h.add(bits(catima::get_range_spline(e)(T)));h.add(bits(catima::get_range_straggling_spline(e)(T)));h.add(bits(catima::get_angular_variance_spline(e)(T)));}
            v.push_back(h.h); v.push_back(uint64_t(uintptr_t(e.range.data()))); }
        return v;
    }
    Outcome run(const Trace& t)override{
        Outcome out; last=Observed();
        Pool pool=Pool::parse(t.head); int nt=threads_of(t); bool shared=flag(t,"shared"),look=flag(t,"look"); std::string pt; for(auto&l:pool.lines())pt+=l+"\n";
        std::vector<std::vector<Op>> prog(nt); std::vector<std::pair<int,int>> order; Hash shape;
        for(auto&l:t.steps){auto w=split(l); if(w[0]!="op")continue; int k=atoi(w[1].c_str()); if(k>=nt)continue; prog[k].push_back(Op::parse(w,2)); shape.add(uint64_t(k*100+prog[k].back().kind));}
        std::vector<std::vector<Ref>> ref(nt);
        for(int i=0;i<nt;i++)for(auto&o:prog[i]){ref[i].push_back(reference(pool,pt,o)); if(!ref[i].back().ok){out.inconclusive=true;return out;}}
        sched::Policy pol=policy_of(t);
        shm->clear();
        ChildEnd e=in_child([&]{
            // own copies at fixed places
            Pool po=Pool::parse(t.head); std::vector<std::vector<Op>> pr(nt); for(int i=0;i<nt;i++)for(auto&o:prog[i])pr[i].push_back(Op::parse(split(o.text()),0));
            World* common=shared?new World(po):nullptr;
            for(auto&l:t.head){auto w=split(l);
                if(w[0]=="fill"){int n=atoi(w[1].c_str());for(int k=0;k<n;k++){catima::Material m;m.add_element(12.0,6,1.0);m.density(2.0);catima::Projectile p(4.0+k/1024.0,2);catima::get_data(p,m,catima::Config());}}
                else if(w[0]=="get"){int p=atoi(w[1].c_str()),m=atoi(w[2].c_str()),c=atoi(w[3].c_str());World* x=common?common:new World(po);catima::get_data(x->P[p],x->M[m],x->C[c]);}
                else if(w[0]=="pre"){Op o=Op::parse(w,1);World x(po);std::vector<uint64_t> v;guarded(x,o,v);}
            }
            std::vector<uint64_t> before; if(stored)before=store_state(look);
            std::vector<std::vector<std::pair<int,std::vector<uint64_t>>>> res(nt);
            std::vector<std::function<void()>> bodies;
            for(int i=0;i<nt;i++){ res[i].reserve(pr[i].size()+1);
                bodies.push_back([&,i]{ for(auto&o:pr[i]){
                    std::vector<uint64_t> v; int st;
                    if(common){World w;w.share=common;w.P=common->P;st=guarded(w,o,v);}
                    else {World w(po,o);st=guarded(w,o,v);}
                    res[i].push_back({st,v}); } }); }
            sched::Report rep=sched::run(pol,bodies);
            put_report(rep);
            if(rep.finished)for(int i=0;i<nt;i++)for(size_t j=0;j<res[i].size();j++){auto v=res[i][j].second;v.insert(v.begin(),{uint64_t(i),uint64_t(j),uint64_t(res[i][j].first)});shm->put_block(T_OP,v);}
            if(rep.finished&&stored){auto after=store_state(look);uint64_t where=before.size()!=after.size();for(size_t k=0;!where&&k<before.size();k++)if(before[k]!=after[k])where=k+1;shm->put_block(T_STORE,{where});}
        },60);
        Hash h; auto recs=records(*shm);
        for(auto&x:recs){ if(x.tag==T_REP){last.have=true;last.rep=x.v;} if(x.tag==T_SEG)for(size_t k=0;k+1<x.v.size();k+=2)last.seg.push_back({(int)x.v[k],(long)x.v[k+1]}); h.add(uint64_t(x.tag));for(auto w:x.v)h.add(w);}
        if(e.timeout){out.inconclusive=true;return out;}
        stats.add("steps",last.have?(long)last.rep[2]:0); stats.add("threads",nt);
        if(!e.ok){out.violated=true;out.kind="crash";out.detail="threads running together: "+e.what();out.hash=mix(uint64_t(e.sig),uint64_t(e.code));return out;}
        if(!last.have){out.inconclusive=true;return out;}
        count_report(last,out); shape.add(last.rep[8]); out.shape=shape.h; out.hash=h.h;
        if(last.rep[1]){out.violated=true;out.kind="deadlock";out.detail="all threads wait for a lock";return out;}
        for(auto&x:recs){
            if(x.tag==T_OP){ int i=(int)x.v[0];size_t j=x.v[1];int st=(int)x.v[2]; auto&o=prog[i][j];auto&rf=ref[i][j]; stats.add("calls_compared");
                std::vector<uint64_t> v(x.v.begin()+3,x.v.end());
                if(st!=rf.status){out.violated=true;out.kind=std::string("exception ")+kind_name(o.kind);out.detail=fmt("thread %d call %zu %s: outcome %d, alone %d",i,j,o.text().c_str(),st,rf.status);return out;}
                if(st==0&&v!=rf.v){out.violated=true;out.kind=std::string("value ")+kind_name(o.kind);out.detail=fmt("thread %d call %zu %s: ",i,j,o.text().c_str())+diff(v,rf.v);return out;} }
            else if(x.tag==T_STORE){stats.add("store_comparisons"); if(x.v[0]){out.violated=true;out.kind="store changed";out.detail=fmt("reading stored combinations changed the store (item %ld)",(long)x.v[0]);return out;}}
        }
        return out;
    }
    Trace concrete(const Trace& t)override{run(t);return last.have?with_segments(t):t;}
};

// ------------------------------------------------------------------ C12
struct Integ:Scenario{
    static std::string line(const Node& n){return fmt("N %d %d ",n.how,n.fn)+hexd(n.a)+" "+hexd(n.b)+" "+hexd(n.par)+fmt(" %d %d %d %d %d %d %d",n.child,n.every,n.from,n.limit,n.thrower,n.what,n.catches);}
    static Node parse(const std::vector<std::string>& w){Node n;n.how=atoi(w[1].c_str());n.fn=atoi(w[2].c_str());n.a=strtod(w[3].c_str(),0);n.b=strtod(w[4].c_str(),0);n.par=strtod(w[5].c_str(),0);n.child=atoi(w[6].c_str());n.every=atoi(w[7].c_str());n.from=atoi(w[8].c_str());n.limit=atoi(w[9].c_str());n.thrower=atoi(w[10].c_str());n.what=atoi(w[11].c_str());n.catches=atoi(w[12].c_str());return n;}
    Trace generate(uint64_t seed,long)override{
        Rng r(seed); Trace t; int nn=r.range(2,7); int nt=r.chance(1,3)?1:r.range(2,3);
        std::vector<Node> tree; int same=r.chance(1,2)?r.below(n_integrators()):-1;
        for(int i=0;i<nn;i++){ Node n; n.how=same>=0&&r.chance(2,3)?same:r.below(n_integrators()); n.fn=r.below(9);n.a=r.uniform(-1,1);n.b=n.a+r.uniform(0.1,4);if(r.chance(1,15))n.b=n.a;if(r.chance(1,12))std::swap(n.a,n.b);n.par=r.uniform(0.1,3);
            if(i>0&&r.chance(4,5)){n.child=r.chance(2,3)?i-1:r.below(i);n.every=r.range(1,5);n.from=r.below(4);n.limit=r.range(1,3);n.catches=r.chance(1,2);}
            if(r.chance(1,4)){{static const int u[]={4,30,30,300};n.thrower=r.below(u[r.below(4)]);}n.what=r.below(4);}
            tree.push_back(n); }
        for(auto&n:tree)t.head.push_back(line(n)); t.head.push_back(fmt("threads %d",nt));
        for(int i=0;i<nt;i++){int k=r.range(1,nt==1?6:3);for(int j=0;j<k;j++){ int rep=r.chance(1,6)?(nt==1?r.range(2,80):r.range(2,6)):1; t.steps.push_back(fmt("root %d %d %d",i,r.chance(1,2)?nn-1:r.below(nn),rep)); }}
        t.steps.push_back(random_policy(r));
        return t;
    }
    static std::map<std::string,Eval> memo;
    static std::string deep(const std::vector<Node>& tree,int n){std::string s; while(n>=0){s+=fmt("%d:",n)+line(tree[n])+";";n=tree[n].child;} return s;}
    static bool expected(const std::vector<Node>& tree,int n,std::map<int,Eval>& known){
        if(known.count(n))return true;
        if(tree[n].child>=0&&!expected(tree,tree[n].child,known))return false;
        std::string k=deep(tree,n); auto it=memo.find(k); if(it!=memo.end()){known[n]=it->second;return true;}
        rshm->clear();
        ChildEnd e=in_child([&]{std::vector<Eval> log; Eval v=evaluate(tree,n,log,&known); rshm->put_block(T_OP,{uint64_t(v.node),uint64_t(v.status),v.value,v.points,v.calls});},20);
        auto rec=records(*rshm); stats.add("fresh_process_references"); if(!e.ok||rec.size()!=1)return false;
        Eval v;v.node=(int)rec[0].v[0];v.status=(int)rec[0].v[1];v.value=rec[0].v[2];v.points=rec[0].v[3];v.calls=rec[0].v[4];
        if(memo.size()>20000)memo.clear(); memo[k]=v; known[n]=v; return true;
    }
    Outcome run(const Trace& t)override{
        Outcome out; last=Observed(); std::vector<Node> tree; for(auto&l:t.head){auto w=split(l);if(w[0]=="N")tree.push_back(parse(w));} int nt=threads_of(t);
        std::vector<std::vector<int>> roots(nt); Hash shape; for(auto&l:t.steps){auto w=split(l);if(w[0]=="root"){int k=atoi(w[1].c_str());if(k<nt)roots[k].insert(roots[k].end(),w.size()>3?(size_t)atoi(w[3].c_str()):1,atoi(w[2].c_str()));}}
        std::map<int,Eval> known; for(auto&v:roots)for(int n:v){shape.add(deep(tree,n)); if(!expected(tree,n,known)){out.inconclusive=true;return out;}}
        sched::Policy pol=policy_of(t);
        shm->clear();
        ChildEnd e=in_child([&]{
            std::vector<std::vector<Eval>> log(nt); std::vector<std::function<void()>> bodies;
            for(int i=0;i<nt;i++){log[i].reserve(20000);bodies.push_back([&,i]{for(int n:roots[i])evaluate(tree,n,log[i],nullptr);});}
            sched::Report rep=sched::run(pol,bodies); put_report(rep);
            if(rep.finished)for(int i=0;i<nt;i++)for(auto&v:log[i])shm->put_block(T_OP,{uint64_t(i),uint64_t(v.node),uint64_t(v.status),v.value,v.points,v.calls});
        },60);
        Hash h; auto recs=records(*shm);
        for(auto&x:recs){ if(x.tag==T_REP){last.have=true;last.rep=x.v;} if(x.tag==T_SEG)for(size_t k=0;k+1<x.v.size();k+=2)last.seg.push_back({(int)x.v[k],(long)x.v[k+1]}); h.add(uint64_t(x.tag));for(auto w:x.v)h.add(w);}
        if(e.timeout){out.inconclusive=true;return out;}
        if(!e.ok){out.violated=true;out.kind="crash";out.detail="nested integrations: "+e.what();out.hash=mix(uint64_t(e.sig),uint64_t(e.code));return out;}
        if(!last.have){out.inconclusive=true;return out;}
        stats.add("steps",(long)last.rep[2]);
        count_report(last,out); shape.add(last.rep[8]); out.shape=shape.h; out.hash=h.h; bool nested=false,threw=false;
        if(last.rep[1]){out.violated=true;out.kind="deadlock";out.detail="all threads wait for a lock";return out;}
        for(auto&x:recs)if(x.tag==T_OP){ Eval v;v.node=(int)x.v[1];v.status=(int)x.v[2];v.value=x.v[3];v.points=x.v[4];v.calls=x.v[5]; stats.add("integrations_compared"); if(tree[v.node].child>=0)nested=true;
            if(v.status){threw=true;stats.add("exceptions_thrown_through");}
            if(!expected(tree,v.node,known)){out.inconclusive=true;return out;}
            const Eval& w=known[v.node];
            if(!(v==w)){out.violated=true; out.kind=v.status!=w.status?"exception":v.points!=w.points||v.calls!=w.calls?"points":"value";
                out.detail=fmt("thread %d node %d (integrator %d): status %d value %.17g calls %ld, alone status %d value %.17g calls %ld",(int)x.v[0],v.node,tree[v.node].how,v.status,fbits(v.value),(long)v.calls,w.status,fbits(w.value),(long)w.calls); return out;}
        }
        out.nontrivial=nested||threw||last.rep[3]>=2; if(nested)stats.add("nested_integrations");
        return out;
    }
    Trace concrete(const Trace& t)override{run(t);return last.have?with_segments(t):t;}
};
std::map<std::string,Eval> Integ::memo;

// ------------------------------------------------------------------ C17 and C20
// Every thread has a store, a material and a stack of its own. In C20 thread 0 uses the
// global store, the default configuration and the C interface besides.
struct Owners:Scenario{
    bool mixed,failing; explicit Owners(bool m,bool f=false):mixed(m),failing(f){}
    struct Own{ World w; catima::Data d; catima::Material m; catima::Layers l; explicit Own(const Pool& p):w(p){} };
    static void put(std::vector<uint64_t>& v,const catima::Material& m){
        v.push_back(uint64_t(m.ncomponents())); for(double x:{m.M(),m.density(),m.thickness(),m.thickness_cm(),m.I(),m.number_density(),m.number_density_cm2()})v.push_back(bits(x));
        for(int i=0;i<m.ncomponents();i++){auto t=m.get_element(i);v.push_back(bits(t.A));v.push_back(uint64_t(t.Z));v.push_back(bits(t.stn));v.push_back(bits(m.weight_fraction(i)));v.push_back(bits(m.molar_fraction(i)));}
    }
    static uint64_t image(const catima::DataPoint& e){
        Hash h; h.add(bits(e.p.A));h.add(bits(e.p.Z));h.add(bits(e.p.Q));h.add(bits(e.m.M()));h.add(bits(e.m.I()));h.add(bits(e.m.density()));h.add(uint64_t(e.m.ncomponents()));h.add(uint64_t(e.config.z_effective)*1000+e.config.corrections);
        for(double x:e.range)h.add(bits(x));for(double x:e.range_straggling)h.add(bits(x));for(double x:e.angular_variance)h.add(bits(x));
        return h.h;
    }
    static void step(Own& o,const std::vector<std::string>& w,std::vector<uint64_t>& v){
        auto I=[&](size_t k){return k<w.size()?atoi(w[k].c_str()):0;}; auto D=[&](size_t k){return k<w.size()?strtod(w[k].c_str(),0):0.0;};
        const std::string& c=w[0];
        if(c=="store"){ auto& e=o.d.Get(o.w.P[I(1)],I(2)<0?o.m:o.w.M[I(2)],o.w.C[I(3)]); v.push_back(image(e)); v.push_back(uint64_t(o.d.get_index()));
            for(double T:{0.003,0.7,40.0,900.0,2e4}){v.push_back(bits(catima::get_range_spline(e)(T)));v.push_back(bits(catima::get_range_spline(e).derivative(T)));v.push_back(bits(catima::get_range_straggling_spline(e)(T)));v.push_back(bits(catima::get_angular_variance_spline(e)(T)));} }
        else if(c=="list"){ v.push_back(uint64_t(o.d.GetN())); for(int i=0;i<o.d.GetN();i++){auto&e=o.d.Get((unsigned)i);v.push_back(e.range.empty()?0:image(e));} }
        else if(c=="reset"){o.d.Reset();v.push_back(uint64_t(o.d.get_index()));}
        else if(c=="mat"){o.m=o.w.M[I(1)];put(v,o.m);}
        else if(c=="el"){o.m.add_element(D(1),I(2),D(3));put(v,o.m);}
        else if(c=="set"){o.m.density(D(1));o.m.thickness(D(2));if(D(3)>0)o.m.I(D(3));put(v,o.m);}
        else if(c=="calc"){o.m.calculate();put(v,o.m);}
        else if(c=="ladd"){ if(o.l.num()<40)o.l.add(o.m); v.push_back(uint64_t(o.l.num()));v.push_back(bits(o.l.thickness())); }
        else if(c=="lcat"){ if(o.l.num()<20)o.l=o.l+o.l; v.push_back(uint64_t(o.l.num())); }
        else if(c=="lays"){ v.push_back(uint64_t(o.l.num()));v.push_back(bits(o.l.thickness()));v.push_back(bits(o.l.thickness_cm()));for(auto&m:o.l.get_materials())put(v,m); }
        else if(c=="op"){ v=exec(o.w,Op::parse(w,1)); }
        else if(c=="greset"){catima::_storage.Reset();v.push_back(uint64_t(catima::_storage.get_index()));}
        else if(c=="glist"){ auto& d=catima::_storage; v.push_back(uint64_t(d.get_index())); for(int i=0;i<d.GetN();i++){auto&e=d.Get((unsigned)i);v.push_back(e.range.empty()?0:image(e));} }
        else if(c=="def"){catima::default_config=o.w.C[I(1)];}
        else if(c=="copt"){set_c_default(I(1));}
    }
    typedef std::vector<std::pair<int,std::vector<uint64_t>>> Log;
    // fail K N step: from the K-th allocation on N allocations of this thread fail; the step is repeated until it does not run out of memory
    static size_t prefix(const std::vector<std::string>& w){return w.size()>3&&w[0]=="fail"?3:0;}
    static void program(const Pool& po,const std::vector<std::vector<std::string>>& pr,Log& log,long* fired=nullptr){
        Own o(po);
        for(auto&full:pr){ std::vector<uint64_t> v; int st=0; size_t k=prefix(full); std::vector<std::string> w(full.begin()+k,full.end());
            bool arm=k&&fired; long n=arm?atol(full[2].c_str()):0; int parts=o.m.ncomponents(),layers=o.l.num();
            for(int i=0;i<8;i++){
                st=0; v.clear(); if(arm&&i==0){v.reserve(8192);heap::own=heap::Own();heap::own.n=n;heap::own.at=atol(full[1].c_str());}
                try{step(o,w,v);}catch(std::bad_alloc&){st=1;}catch(std::exception&){st=2;}catch(...){st=3;}
                if(!arm)break;
                if(n<0||st!=1){*fired+=heap::own.fired;heap::own=heap::Own();arm=st==1;}
                if(st!=1)break;
                if((w[0]=="el"&&o.m.ncomponents()!=parts)||(w[0][0]=='l'&&o.l.num()!=layers)){st=4;break;} }
            log.push_back({st,v}); }
    }
    Trace generate(uint64_t seed,long)override{
        Gen g(seed); Rng& r=g.r; Trace t; Pool& o=g.pool; int np=r.range(1,2),nm=r.range(1,3),nc=r.range(1,2);
        for(int i=0;i<np;i++)o.P.push_back(i&&r.chance(1,2)?g.near(o.P[0]):g.proj());
        for(int i=0;i<nm;i++)o.M.push_back(i&&r.chance(1,2)?g.near(o.M[0]):g.mat());
        for(int i=0;i<nc;i++)o.C.push_back(i&&r.chance(1,2)?g.near(o.C[0]):g.conf());
        int nt=r.chance(3,4)?2:3; int theme=r.below(4); static const int kinds[]={K_dedx,K_domega2dx,K_da2dx,K_physics,K_lookup,K_lookup,K_production,K_tof_from_E,K_tof_from_E,K_datapoint};
        int first=0; std::vector<std::string> pre;
        if(failing&&r.chance(1,3)){ // all threads read combinations that are stored beforehand
            int p0=r.below(np),c0=r.below(nc); if(nm>=S)nm=S-1; first=nt;
            for(int m=0;m<nm;m++)pre.push_back(Calls::get_line(p0,m,c0));
            for(int i=0;i<2;i++){std::vector<int> l;int n=r.range(1,4);for(int j=0;j<n;j++)l.push_back(r.below(nm));o.L.push_back(l);}
            int kind=r.chance(1,2)?pick_store_kind(r):-1;
            for(int i=0;i<nt;i++){ int n=r.range(1,4); for(int j=0;j<n;j++){
                int k; do k=kind>=0&&kind!=K_simple&&r.chance(3,4)?kind:pick_store_kind(r); while(k==K_simple);
                Op x=g.op(k,np,nm,nc,false);x.p=p0;x.m=r.below(nm);x.c=c0;if(is_layers(k))x.l=r.below(2);
                t.steps.push_back(fmt("t %d op ",i)+x.text()); } }
        } else if(mixed){ first=1; for(int i=0;i<2;i++){std::vector<int> l;int n=r.range(1,4);for(int j=0;j<n;j++)l.push_back(r.below(nm));o.L.push_back(l);}
            int n=r.range(2,6),kind=r.chance(1,3)?pick_store_kind(r):-1;
            for(int j=0;j<n;j++){ int k=r.below(12); std::string s;
                if(k==0)s=r.chance(1,2)?"greset":"glist"; else if(k==1)s=fmt("def %d",r.below(nc)); else if(k==2)s=fmt("copt %d",r.below(6));
                else if(k<=4){static const int ck[]={K_c_calculate,K_c_Eout,K_c_range,K_c_range_straggling,K_c_angular,K_c_energy_str,K_c_nonreaction,K_c_weight};Op x=g.op(ck[r.below(8)],np,nm,nc,true);s="op "+x.text();}
                else {Op x=g.op(kind>=0&&r.chance(3,4)?kind:k<=9?pick_store_kind(r):kinds[r.below(10)],np,nm,nc,true);if(is_layers(x.kind))x.l=r.below(2);s="op "+x.text();}
                t.steps.push_back("t 0 "+s); } t.steps.push_back("t 0 glist");
            if(r.chance(1,3))theme=4; }
        for(int i=first;i<nt;i++){ int n=theme==1?r.range(4,14):r.range(2,5);
            if(theme==4){ for(int j=0;j<n;j++){Op x=g.op(kinds[r.below(10)],np,nm,nc,false);if(x.c<0)x.c=0;t.steps.push_back(fmt("t %d op ",i)+x.text());} continue; }
            if(theme!=0)t.steps.push_back(fmt("t %d mat %d",i,r.below(nm)));
            for(int j=0;j<n;j++){ int k=theme==0?r.below(5):theme==1?5+r.below(11):r.below(16); std::string s;
                if(k<3)s=fmt("store %d %d %d",r.below(np),r.below(nm),r.below(nc)); else if(k==3)s="list"; else if(k==4)s=r.chance(1,3)?"reset":fmt("store %d -1 %d",r.below(np),r.below(nc));
                else if(k<=7)s="el "+hexd(r.chance(1,2)?0.0:r.range(1,230))+fmt(" %d ",r.range(1,92))+hexd(r.chance(1,2)?r.range(1,4):r.uniform(0.05,0.9));
                else if(k==8)s="set "+hexd(r.uniform(0.01,10))+" "+hexd(r.uniform(0,3))+" "+hexd(r.chance(1,2)?0.0:r.uniform(20,500));
                else if(k==9)s="calc"; else if(k<=11)s="ladd"; else if(k==12)s="lcat"; else if(k==13)s="lays"; else if(k==14)s=fmt("mat %d",r.below(nm));
                else {Op x=g.op(kinds[r.below(10)],np,nm,nc,false);s="op "+x.text();}
                if(k==4&&s[0]=='s'&&theme==0)s=fmt("store %d %d %d",r.below(np),r.below(nm),r.below(nc));
                t.steps.push_back(fmt("t %d ",i)+s); } }
        if(failing)for(auto&l:t.steps)if(r.chance(1,2)){ int k=r.chance(1,3)?r.range(1,4):r.chance(1,2)?r.range(1,20):r.range(1,120); l=l.substr(0,4)+fmt("fail %d %d ",k,r.chance(3,4)?1:r.chance(1,2)?r.range(2,4):-1)+l.substr(4); }
        t.head=o.lines(); t.head.push_back(fmt("threads %d",nt)); for(auto&l:pre)t.head.push_back(l); t.steps.push_back(random_policy(r));
        return t;
    }
    static void prepare(const Trace& t,const Pool& po){ for(auto&l:t.head){auto w=split(l);if(w[0]=="get"){World x(po);catima::get_data(x.P[atoi(w[1].c_str())],x.M[atoi(w[2].c_str())],x.C[atoi(w[3].c_str())]);}} }
    static std::map<std::string,std::pair<bool,Log>> alone;
    Outcome run(const Trace& t)override{
        Outcome out; last=Observed(); Pool pool=Pool::parse(t.head); int nt=threads_of(t); std::string pt; for(auto&l:pool.lines())pt+=l+"\n"; for(auto&l:t.head)if(l[0]=='g')pt+=l+"\n";
        std::vector<std::vector<std::vector<std::string>>> prog(nt); std::vector<std::string> text(nt); Hash shape;
        for(auto&l:t.steps){auto w=split(l); if(w[0]!="t")continue; int k=atoi(w[1].c_str()); if(k>=nt)continue; prog[k].push_back({w.begin()+2,w.end()}); size_t f=prefix(prog[k].back()); for(size_t i=2+f;i<w.size();i++)text[k]+=w[i]+(i+1<w.size()?" ":"\n"); shape.add(fmt("%d",k)+w[2+f]); if(f)shape.add(w[3]);}
        std::vector<Log> ref(nt);
        for(int i=0;i<nt;i++){ std::string k=pt+text[i]; auto it=alone.find(k);
            if(it==alone.end()){ rshm->clear(); ChildEnd e=in_child([&]{Log g;Pool po=Pool::parse(t.head);prepare(t,po);program(po,prog[i],g);for(auto&x:g){auto v=x.second;v.insert(v.begin(),uint64_t(x.first));rshm->put_block(T_OP,v);}},30);
                Log g; for(auto&x:records(*rshm))g.push_back({(int)x.v[0],{x.v.begin()+1,x.v.end()}}); stats.add("fresh_process_references"); if(alone.size()>2000)alone.clear(); it=alone.emplace(k,std::make_pair(e.ok&&g.size()==prog[i].size(),g)).first; }
            if(!it->second.first){out.inconclusive=true;return out;} ref[i]=it->second.second; }
        sched::Policy pol=policy_of(t); shm->clear();
        ChildEnd e=in_child([&]{
            Pool po=Pool::parse(t.head); std::vector<Log> res(nt); std::vector<long> fired(nt); std::vector<std::function<void()>> bodies; heap::own_allowed=[]{return !sched::in_scheduler();}; prepare(t,po);
            for(int i=0;i<nt;i++){res[i].reserve(prog[i].size()+1);bodies.push_back([&,i]{program(po,prog[i],res[i],&fired[i]);});}
            sched::Report rep=sched::run(pol,bodies); put_report(rep);
            if(rep.finished){ for(int i=0;i<nt;i++)for(size_t j=0;j<res[i].size();j++){auto v=res[i][j].second;v.insert(v.begin(),{uint64_t(i),uint64_t(j),uint64_t(res[i][j].first)});shm->put_block(T_OP,v);}
                uint64_t used=catima::_storage.get_index()!=0; for(int i=0;i<catima::_storage.GetN();i++)if(!catima::_storage.Get((unsigned)i).range.empty())used=1; shm->put_block(T_STORE,{used}); long f=0; for(long x:fired)f+=x; shm->put_block(T_FIRED,{uint64_t(f)}); }
        },60);
        Hash h; auto recs=records(*shm);
        for(auto&x:recs){ if(x.tag==T_REP){last.have=true;last.rep=x.v;} if(x.tag==T_SEG)for(size_t k=0;k+1<x.v.size();k+=2)last.seg.push_back({(int)x.v[k],(long)x.v[k+1]}); h.add(uint64_t(x.tag));for(auto w:x.v)h.add(w);}
        if(e.timeout){out.inconclusive=true;return out;}
        stats.add("steps",last.have?(long)last.rep[2]:0); stats.add("threads",nt);
        if(!e.ok){out.violated=true;out.kind="crash";out.detail="threads running together: "+e.what();out.hash=mix(uint64_t(e.sig),uint64_t(e.code));return out;}
        if(!last.have){out.inconclusive=true;return out;}
        count_report(last,out); shape.add(last.rep[8]); out.shape=shape.h; out.hash=h.h;
        if(last.rep[1]){out.violated=true;out.kind="deadlock";out.detail="all threads wait for a lock";return out;}
        for(auto&x:recs){
            if(x.tag==T_FIRED){if(x.v[0])stats.add("allocation_failures",(long)x.v[0]);}
            else if(x.tag==T_OP){ int i=(int)x.v[0];size_t j=x.v[1];int st=(int)x.v[2]; auto&rf=ref[i][j]; stats.add("operations_compared"); std::vector<uint64_t> v(x.v.begin()+3,x.v.end()); const std::string& c=prog[i][j][prefix(prog[i][j])];
                if(st!=rf.first){out.violated=true;out.kind="exception "+c;out.detail=fmt("thread %d step %zu %s: outcome %d, alone %d",i,j,c.c_str(),st,rf.first);return out;}
                if(st==0&&v!=rf.second){out.violated=true;out.kind="value "+c;out.detail=fmt("thread %d step %zu %s: ",i,j,c.c_str())+diff(v,rf.second);return out;} }
            else if(x.tag==T_STORE&&x.v[0]&&!mixed){out.violated=true;out.kind="global store used";out.detail="an operation on own objects filled the global store";return out;}
        }
        return out;
    }
    Trace concrete(const Trace& t)override{run(t);return last.have?with_segments(t):t;}
};
std::map<std::string,std::pair<bool,Owners::Log>> Owners::alone;

// ------------------------------------------------------------------ C21
// Work is counted as instrumented memory accesses and function calls of the library; nothing is timed.
struct Work:Scenario{
    static long cost(World& w,const Op& o){ std::vector<uint64_t> v; sched::work_done(true); guarded(w,o,v); return sched::work_done(false); }
    // the call alone: first in a fresh process, then again, then again with a full store of nearly equal combinations
    struct Alone{bool ok=false;long first=0,again=0,full=0;};
    static std::map<std::string,Alone> memo;
    static Alone alone(const Pool& pool,const std::string& pt,const Op& o){
        std::string k=pt+o.text(); auto it=memo.find(k); if(it!=memo.end())return it->second;
        rshm->clear();
        ChildEnd e=in_child([&]{ World w(pool); long first=cost(w,o); for(int i=0;i<3;i++)cost(w,o); long again=cost(w,o),full=again;
            catima::_storage.Reset(); catima::Config c=o.uses_default()?catima::default_config:w.C[o.c];
            int n=is_layers(o.kind)?S-(int)pool.M.size():S-1; for(int i=0;i<n;i++){c.scattering_factor*=1.0009765625;catima::get_data(w.P[o.p],w.M[o.m],c);}
            for(int i=0;i<4;i++)cost(w,o); full=cost(w,o);
            rshm->put_block(T_OP,{uint64_t(first),uint64_t(again),uint64_t(full)}); },60);
        Alone a; auto rec=records(*rshm); if(e.ok&&rec.size()==1){a.ok=true;a.first=(long)rec[0].v[0];a.again=(long)rec[0].v[1];a.full=(long)rec[0].v[2];}
        stats.add("fresh_process_references"); if(memo.size()>2000)memo.clear(); memo[k]=a; return a;
    }
    static bool countable(int k){return !is_c(k)&&k!=K_simple&&k!=K_tof_table&&k!=K_datapoint;}
    Trace generate(uint64_t seed,long)override{
        Gen g(seed); Rng& r=g.r; Trace t; Pool& o=g.pool; int np=r.range(1,3),nm=r.range(1,3),nc=r.range(1,2);
        for(int i=0;i<np;i++)o.P.push_back(i&&r.chance(1,2)?g.near(o.P[0]):g.proj());
        for(int i=0;i<nm;i++)o.M.push_back(i&&r.chance(1,2)?g.near(o.M[0]):g.mat());
        for(int i=0;i<nc;i++)o.C.push_back(i&&r.chance(1,2)?g.near(o.C[0]):g.conf());
        for(int i=0;i<2;i++){std::vector<int> l;int n=r.range(1,4);for(int j=0;j<n;j++)l.push_back(r.below(nm));o.L.push_back(l);}
        static const int free_kinds[]={K_dedx,K_domega2dx,K_da2dx,K_tof_from_E,K_physics,K_lookup,K_production};
        auto any=[&](bool store){ int k; do k=store?pick_store_kind(r):free_kinds[r.below(7)]; while(!countable(k)); Op x=g.op(k,np,nm,nc,false); if(is_layers(k))x.l=r.below(2); if(x.c<0)x.c=0; return x; };
        int n=r.range(1,3);
        for(int j=0;j<n;j++){
            Op m=any(r.chance(4,5)); int how=r.below(6);
            int len=r.range(2,12); if(how<2)len=r.range(0,3);
            for(int i=0;i<len;i++){ int q=r.below(10);
                if(q==0)t.steps.push_back("reset"); else if(q<=2)t.steps.push_back(fmt("fill %d",r.chance(1,3)?2*S+r.below(S):r.range(1,S)));
                else t.steps.push_back("call "+any(r.chance(4,5)).text()); }
            if(how==0)t.steps.push_back(fmt("many %d ",r.range(500,6000))+m.text());
            else if(how==1)t.steps.push_back(fmt("vary %d ",r.range(500,6000))+m.text());
            else if(how==2&&S<10)t.steps.push_back(fmt("fill %d",r.range(100,300)));
            else if(how==3){ int z=r.range(20,200); t.steps.push_back(fmt("resets %d",z)); }
            t.steps.push_back("cost "+m.text());
            if(r.chance(1,3)){t.steps.push_back("call "+any(true).text());t.steps.push_back("cost "+m.text());}
        }
        t.head=o.lines(); return t;
    }
    Outcome run(const Trace& t)override{
        Outcome out; Pool pool=Pool::parse(t.head); std::string pt; for(auto&l:pool.lines())pt+=l+"\n"; Hash shape; std::vector<std::pair<Op,Alone>> want;
        for(auto&l:t.steps){auto w=split(l); shape.add(w[0]); if(w.size()>1)shape.add(w[1]); if(w[0]=="cost"){Op o=Op::parse(w,1);Alone a=alone(pool,pt,o);if(!a.ok){out.inconclusive=true;return out;}want.push_back({o,a});}}
        shm->clear();
        ChildEnd e=in_child([&]{ World w(pool); long fills=0,varied=0;
            for(auto&l:t.steps){ auto k=split(l); const std::string& c=k[0]; long n=k.size()>1?atol(k[1].c_str()):0;
                if(c=="reset")catima::_storage.Reset();
                else if(c=="resets")for(long i=0;i<n;i++)catima::_storage.Reset();
                else if(c=="fill"){ catima::Config f=w.C[0]; for(long i=0;i<n;i++){f.scattering_factor=2.0+double(++fills)/4096;catima::get_data(w.P[0],w.M[0],f);} }
                else if(c=="call")cost(w,Op::parse(k,1));
                else if(c=="many"){Op o=Op::parse(k,2);for(long i=0;i<n;i++)cost(w,o);}
                else if(c=="vary"){Op o=Op::parse(k,2);double T=o.a[0];for(long i=0;i<n;i++){o.a[0]=T*(1+1e-5*double(++varied));for(auto&x:o.v)x*=1+1e-6;cost(w,o);}}
                else if(c=="cost"){Op o=Op::parse(k,1);long first=cost(w,o);for(int i=0;i<3;i++)cost(w,o);long again=cost(w,o);shm->put_block(T_OP,{uint64_t(first),uint64_t(again)});}
            } },120);
        if(e.timeout){out.inconclusive=true;return out;}
        if(!e.ok){out.violated=true;out.kind="crash";out.detail="history: "+e.what();out.hash=mix(uint64_t(e.sig),uint64_t(e.code));return out;}
        Hash h; auto recs=records(*shm); for(auto&x:recs)for(auto v:x.v)h.add(v); out.hash=h.h; out.shape=shape.h; out.nontrivial=t.steps.size()>want.size()&&!want.empty();
        stats.add("steps",(long)t.steps.size());
        for(auto&l:t.steps){auto k=split(l);if(k[0]=="many"||k[0]=="vary")stats.add("repeated_calls",atol(k[1].c_str()));else if(k[0]=="fill")stats.add("displacements",atol(k[1].c_str()));else if(k[0]=="reset")stats.add("resets");else if(k[0]=="resets")stats.add("resets",atol(k[1].c_str()));}
        for(size_t i=0;i<recs.size()&&i<want.size();i++){ const Op& o=want[i].first; const Alone& a=want[i].second; long first=(long)recs[i].v[0],again=(long)recs[i].v[1]; stats.add("work_compared",first+again); stats.add("operations_compared",2);
            long most=std::max(a.again,a.full); int layers=is_layers(o.kind)?(int)pool.L[o.l].size():1;
            if(again>most+most/2+300*layers){out.violated=true;out.kind="work repeated "+std::string(kind_name(o.kind));out.detail=fmt("%s repeated on stored combinations: %ld accesses and calls, in a fresh process %ld",kind_name(o.kind),again,most);return out;}
            if(S<10&&a.full>a.again+std::max(0L,a.first-a.again)/2+1000*layers){out.violated=true;out.kind="work full "+std::string(kind_name(o.kind));out.detail=fmt("%s repeated on stored combinations in a full store: %ld accesses and calls, otherwise %ld",kind_name(o.kind),a.full,a.again);return out;}
            long top=std::max(a.first,a.full); if(first>(is_layers(o.kind)?2*top+top/4:top+top/2)+(S<10?1000:10000)*layers){out.violated=true;out.kind="work "+std::string(kind_name(o.kind));out.detail=fmt("%s: %ld accesses and calls, in a fresh process %ld",kind_name(o.kind),first,top);return out;} }
        return out;
    }
};
std::map<std::string,Work::Alone> Work::memo;

int main(int argc,char** argv){
    deterministic_process(argc,argv);
    shm=new Shm(size_t(256)<<20); rshm=new Shm(size_t(16)<<20);
    return engine_main(argc,argv,[](const std::string& p)->Scenario*{
        if(p=="C06")return new Calls(false); if(p=="C07")return new Calls(true); if(p=="C12")return new Integ(); if(p=="C17")return new Owners(false); if(p=="C20")return new Owners(true); if(p=="C21")return new Work(); if(p=="C22")return new Owners(true,true); return nullptr; });
}
