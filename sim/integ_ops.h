// Trees of nested integrations.
#ifndef SIM_INTEG_OPS_H
#define SIM_INTEG_OPS_H
#include "base.h"
namespace sim {
struct Node{
    int how=0;          // which integrator
    int fn=0;           // integrand family
    double a=0,b=1,par=1;
    int child=-1;       // node evaluated inside the integrand
    int every=1,from=0; // ... in calls from, from+every, ...
    int limit=2;        // at most this many times
    int thrower=-1;     // call number that throws
    int what=0;         // exception type
    bool catches=false; // integrand catches exceptions of the child
};
struct Eval{int node=0; int status=0; uint64_t value=0; uint64_t points=0; uint64_t calls=0; bool operator==(const Eval&o)const{return node==o.node&&status==o.status&&value==o.value&&points==o.points&&calls==o.calls;} };
int n_integrators();
// evaluates a node; log receives every finished evaluation. With stub values nested nodes are not integrated but looked up.
Eval evaluate(const std::vector<Node>& tree,int node,std::vector<Eval>& log,const std::map<int,Eval>* stub);
}
#endif
