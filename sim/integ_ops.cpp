#include "integ_ops.h"
#include "simsched.h"
#include "catima/integrator.h"
#include <cmath>
#include <stdexcept>
namespace sim {
namespace {
struct Payload{int node;double x;long serial;};
struct MyError:std::runtime_error{int node;MyError(int n,const std::string& s):std::runtime_error(s),node(n){}};
double family(int fn,double x,double par){
    switch(fn){case 0:return 1+par*x+x*x*0.5;case 1:return std::exp(-par*0.1*x);case 2:return std::sin(par*x)+2;case 3:return 1.0/(1.5+par*0.1+x*x);case 4:return std::sqrt(std::fabs(x)+par);case 5:return par;
        case 6:return 1.0/(std::pow(10.0,-2*par)+(x-0.3)*(x-0.3));case 7:return x>0.1*par?2.0:1.0;default:return std::sqrt(std::fabs(x-0.2*par));}
}
void raise(const Node& n,int id,double x,long call){
    switch(n.what){case 0:throw Payload{id,x,call};case 1:throw int(id*1000+(int)call);case 2:throw MyError(id,fmt("call %ld",call));default:throw std::bad_alloc();}
}
struct Ctx{const std::vector<Node>& tree;std::vector<Eval>& log;const std::map<int,Eval>* stub;};
void rethrow_stub(const Eval& e,const Node& n,int id);
Eval eval_node(Ctx& c,int id,bool rethrow);

double child_value(Ctx& c,const Node& n){
    const Node& k=c.tree[n.child];(void)k;
    Eval e;
    if(c.stub){ e=c.stub->at(n.child); if(e.status){ if(n.catches)return 0.5; rethrow_stub(e,c.tree[n.child],n.child);} return fbits(e.value); }
    if(!n.catches){ e=eval_node(c,n.child,true); return fbits(e.value); }
    try{ e=eval_node(c,n.child,true); return fbits(e.value); }catch(...){ return 0.5; }
}
// exception identity as status: type and contents
int classify(uint64_t& contents){
    try{throw;}
    catch(Payload& p){Hash h;h.add(uint64_t(p.node));h.add(bits(p.x));h.add(uint64_t(p.serial));contents=h.h;return 1;}
    catch(int v){contents=uint64_t(v);return 2;}
    catch(MyError& m){Hash h;h.add(uint64_t(m.node));h.add(std::string(m.what()));contents=h.h;return 3;}
    catch(std::bad_alloc&){contents=0;return 4;}
    catch(std::exception& m){contents=0;return 5;}
    catch(...){contents=0;return 6;}
}
struct Stubbed{Eval e;};
void rethrow_stub(const Eval& e,const Node&,int){throw Stubbed{e};}

template<typename G,typename F> double call(const G& g,F& f,double a,double b){return g.integrate(f,a,b);}

Eval eval_node(Ctx& c,int id,bool rethrow){
    const Node& n=c.tree[id]; Eval e; e.node=id; Hash pts; long calls=0; int used=0;
    auto body=[&](double x,double y)->double{
        long k=calls++; pts.add(bits(x)); pts.add(bits(y));
        sched::yield_point();
        if(k==n.thrower)raise(n,id,x,k);
        double v=family(n.fn,x+0.3*y,n.par);
        if(n.child>=0&&k>=n.from&&(k-n.from)%n.every==0&&used<n.limit){used++; v+=0.125*child_value(c,n);}
        if(calls>20000)throw int(-77);
        return v;
    };
    auto f1=[&](double x){return body(x,0);}; auto f2=[&](double x,double y){return body(x,y);};
    static const integrators::GaussLegendreIntegration<3> g3; static const integrators::GaussLegendreIntegration<16> g16; static const integrators::GaussLegendreIntegration2D<8> d8; static const integrators::GaussLegendreIntegration2D<6> d6; static const integrators::GaussLegendreIntegration2DA<8,4> da;
    double v=0; std::exception_ptr ex; 
    try{
        switch(n.how){
            case 0:v=catima::integrator.integrate(f1,n.a,n.b);break;
            case 1:v=catima::integrator_adaptive.integrate(f1,n.a,n.b);break;
            case 2:v=g3.integrate(f1,n.a,n.b);break;
            case 3:v=g16(f1,n.a,n.b);break;
            case 4:v=d8.integrate(f2,n.a,n.b,-1,n.b);break;
            case 5:v=d6(f2,n.a,n.b,0,2);break;
            case 6:v=da.integrate(f2,n.a,n.b,0,1);break;
            case 7:v=integrators::GaussKronrodIntegration<15>::integrate(f1,n.a,n.b,1e-5,1e-9,2);break;
            case 8:{std::vector<std::pair<double,double>> iv{{n.a,0.5*(n.a+n.b)},{0.5*(n.a+n.b),n.b}};v=integrators::GaussKronrodIntegration<21>::integrate_intervals(f1,iv,1e-4,1e-7);break;}
            case 9:{auto r=integrators::GaussKronrodIntegration<31>::integrate_nonadaptive(f1,n.a,n.b);v=r.first+1e3*r.second;break;}
            case 10:v=integrators::GaussKronrodIntegration<61>::integrate_adaptive(f1,n.a,n.b,1e-8,1e-10,6);break;
            case 11:v=integrators::GaussLegendreIntegration<7>().integrate(f1,n.a,n.b);break;
            case 12:v=integrators::GaussKronrodIntegration<7>::integrate(f1,n.a,n.b);break;
            case 13:v=integrators::GaussLegendreIntegration<5>()(f1,n.a,n.b);break;
            case 14:v=integrators::GaussKronrodIntegration<15>::integrate_adaptive(f1,n.a,n.b,1e-7,1e-9,3);break;
            case 15:v=integrators::GaussKronrodIntegration<21>::integrate_adaptive(f1,n.a,n.b,1e-10,1e-12,9);break;
            case 16:v=integrators::GaussLegendreIntegration<8>()(f1,n.a,n.b);break;
        }
        e.value=bits(v);
    }catch(Stubbed& s){ e.status=s.e.status; e.value=s.e.value; }
    catch(...){ e.status=classify(e.value); ex=std::current_exception(); }
    e.points=pts.h; e.calls=(uint64_t)calls;
    c.log.push_back(e);
    if(e.status&&rethrow&&ex)std::rethrow_exception(ex);
    return e;
}
} // anonymous
int n_integrators(){return 17;}
Eval evaluate(const std::vector<Node>& tree,int node,std::vector<Eval>& log,const std::map<int,Eval>* stub){
    Ctx c{tree,log,stub}; return eval_node(c,node,false);
}
} // namespace
