#include "simsched.h"
#include "base.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <cerrno>

extern "C" char __data_start; extern "C" char _end;

namespace sim { namespace sched {
namespace {
const int MAXT=8;
struct Thread{
    pthread_t id; sem_t wake; bool done=false; const void* waits=nullptr; bool waiting=false;
    struct Exit{void(*f)(void*);void* o;} at_exit[64]; int exits=0;    // destructors of thread-local objects
    char* lo=nullptr; char* hi=nullptr; long spin=0; int prio=0; const std::function<void()>* body=nullptr;
};
Thread th[MAXT]; int nth=0;
volatile bool active=false;
int cur=-1; sem_t all_done;
Policy pol; Report rep; Rng rng(1);
long left=0; size_t seg=0; long seglen=0;
std::vector<long> changes; size_t chg=0;
const char* shared_end=nullptr;              // heap blocks below existed before the threads
bool counting=false; long work=0;
thread_local int me=-1;
thread_local bool inside=false;

bool runnable(int i){return !th[i].done&&!th[i].waiting;}
int pick_other(){
    int c[MAXT],n=0; for(int i=0;i<nth;i++)if(i!=cur&&runnable(i))c[n++]=i;
    if(!n)return -1; return c[rng.below(n)];
}
void close_segment(){ if(seglen>0){rep.executed.push_back({cur,seglen});} seglen=0; }
void hand_to(int i){
    // only the running thread gets here
    close_segment(); int from=cur; cur=i; rep.switches++;
    th[i].spin=0;
    sem_post(&th[i].wake);
    if(from>=0&&!th[from].done){ while(sem_wait(&th[from].wake)!=0&&errno==EINTR){} }
}
// next thread of an explicit schedule; sets left
int next_explicit(){
    while(seg<pol.segments.size()){
        auto&s=pol.segments[seg++];
        if(s.thread>=0&&s.thread<nth&&runnable(s.thread)&&s.n>0){left=s.n;return s.thread;}
    }
    left=-1;                              // run to the end
    if(cur>=0&&runnable(cur))return cur;
    for(int i=0;i<nth;i++)if(runnable(i))return i;
    return -1;
}
int next_any(){       // current cannot go on
    if(pol.mode==0)return next_explicit();
    if(pol.mode==4){for(int i=0;i<nth;i++)if(runnable(i))return i;return -1;}
    return pick_other();
}
enum{SW_STATIC_STORE,SW_STATIC_LOAD,SW_HEAP,SW_ATOMIC,SW_EXPLICIT};
void point(int what){
    rep.points++; seglen++;
    bool sw=false; int to=-1;
    if(what==SW_ATOMIC){ if(++th[cur].spin>20000)sw=true; }      // spinning: let others go on
    else if(what==SW_STATIC_STORE)rep.static_stores++;
    else if(what==SW_STATIC_LOAD)rep.static_loads++;
    else if(what==SW_HEAP)rep.heap_accesses++;
    if(seglen>20000000)sw=true;
    if(!sw)switch(pol.mode){
        case 0: if(left>0&&--left==0){to=next_explicit(); if(to==cur||to<0)return; hand_to(to);return;} break;
        case 1: sw=rng.below(pol.rate)==0; break;
        case 2: if(chg<changes.size()&&rep.points>=changes[chg]){chg++;sw=true;} break;
        case 3: sw=(what==SW_STATIC_STORE||what==SW_ATOMIC||what==SW_EXPLICIT)?rng.below(pol.rate)==0:rng.below(what==SW_STATIC_LOAD?400*pol.rate:2000*pol.rate)==0; break;
    }
    if(sw){ to=pick_other(); th[cur].spin=0; if(to>=0)hand_to(to); else seglen=seglen>20000000?0:seglen; }
}
inline void access(const void* p,bool store){
    if(counting)work++;
    if(!active||me<0||inside)return;
    const char* c=(const char*)p;
    Thread& t=th[me];
    if(c>=t.lo&&c<t.hi)return;                                    // own stack and thread-local storage
    inside=true;
    if(c>=&__data_start&&c<&_end)point(store?SW_STATIC_STORE:SW_STATIC_LOAD);
    else if(c>=(char*)0x200000000000ull)point(store&&c<shared_end?SW_STATIC_STORE:SW_HEAP);
    inside=false;
}
// blocking on a simulated lock
void block_on(const void* what){
    inside=true; rep.blocked++;
    th[cur].waiting=true; th[cur].waits=what;
    int to=next_any();
    if(to<0){rep.deadlock=true; active=false; sem_post(&all_done); while(1)pause();}
    hand_to(to);
    inside=false;
}
void wake_all(const void* what){ for(int i=0;i<nth;i++)if(th[i].waiting&&th[i].waits==what)th[i].waiting=false; }
void atomic_point(){ if(active&&me>=0&&!inside){inside=true;point(SW_ATOMIC);inside=false;} }

void* body(void* a){
    me=(int)(intptr_t)a; Thread& t=th[me];
    while(sem_wait(&t.wake)!=0&&errno==EINTR){}
    (*t.body)();
    while(t.exits>0){auto e=t.at_exit[--t.exits];e.f(e.o);}
    inside=true; t.done=true;
    bool any=false; for(int i=0;i<nth;i++)if(!th[i].done)any=true;
    if(!any){close_segment();active=false;rep.finished=true;sem_post(&all_done);while(1)pause();}
    int to=next_any();
    if(to<0){close_segment();rep.deadlock=true;active=false;sem_post(&all_done);while(1)pause();}
    hand_to(to);
    while(1)pause();                      // real end of a thread would run code outside the schedule
    return nullptr;
}
} // anonymous

bool in_scheduler(){return inside;}
long work_done(bool start){ long w=work; counting=start; if(start)work=0; return w; }
void yield_point(){ if(active&&me>=0&&!inside){inside=true;point(SW_EXPLICIT);inside=false;} }

Report run(const Policy& p,const std::vector<std::function<void()>>& bodies){
    pol=p; rep=Report(); rng=Rng(p.seed); nth=(int)bodies.size(); seg=0; seglen=0; left=0; cur=-1; changes.clear(); chg=0;
    if(p.mode==2){ for(int i=0;i<p.rate;i++)changes.push_back(1+(long)(rng.unit()*p.horizon)); std::map<long,int> m; for(long c:changes)m[c]=1; changes.clear(); for(auto&x:m)changes.push_back(x.first); }
    sem_init(&all_done,0,0); shared_end=(const char*)heap::mark();
    const size_t SZ=size_t(2)<<20;
    for(int i=0;i<nth;i++){
        Thread& t=th[i]; t=Thread(); sem_init(&t.wake,0,0); t.body=&bodies[i];
        char* s=(char*)mmap((void*)(0x300000000000ull+uint64_t(i)*0x10000000ull),SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0);
        if(s==MAP_FAILED){perror("stack");_exit(96);}
        t.lo=s;t.hi=s+SZ;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,s,SZ);
        if(pthread_create(&t.id,&at,body,(void*)(intptr_t)i)!=0){perror("thread");_exit(96);}
        pthread_attr_destroy(&at);
    }
    int first=0; if(p.mode==0){first=next_explicit();} else if(p.mode!=4)first=rng.below(nth);
    active=true; cur=first; sem_post(&th[first].wake);
    while(sem_wait(&all_done)!=0&&errno==EINTR){}
    Hash h; int last=-1; for(auto&s:rep.executed){h.add(uint64_t(s.thread)*1000003ull+uint64_t(s.n));last=s.thread;} (void)last; rep.interleaving=h.h;
    return rep;
}
}} // namespace

using namespace sim::sched;
// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init(){}
void __tsan_func_entry(void*){if(counting)work++;} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void* p){access(p,false);} void __tsan_write##n(void* p){access(p,true);} \
    void __tsan_unaligned_read##n(void* p){access(p,false);} void __tsan_unaligned_write##n(void* p){access(p,true);} \
    void __tsan_volatile_read##n(void* p){access(p,false);} void __tsan_volatile_write##n(void* p){access(p,true);} \
    void __tsan_read##n##_pc(void* p,void*){access(p,false);} void __tsan_write##n##_pc(void* p,void*){access(p,true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,unsigned long){access(p,false);}
void __tsan_write_range(void* p,unsigned long){access(p,true);}
void __tsan_vptr_update(void** p,void*){access(p,true);}
void __tsan_vptr_read(void** p){access(p,false);}
#define AT(bits,T) \
    T __tsan_atomic##bits##_load(const volatile T* p,int){atomic_point();return __atomic_load_n(p,__ATOMIC_SEQ_CST);} \
    void __tsan_atomic##bits##_store(volatile T* p,T v,int){atomic_point();__atomic_store_n(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_exchange(volatile T* p,T v,int){atomic_point();return __atomic_exchange_n(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_fetch_add(volatile T* p,T v,int){atomic_point();return __atomic_fetch_add(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p,T v,int){atomic_point();return __atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_fetch_and(volatile T* p,T v,int){atomic_point();return __atomic_fetch_and(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_fetch_or(volatile T* p,T v,int){atomic_point();return __atomic_fetch_or(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p,T v,int){atomic_point();return __atomic_fetch_xor(p,v,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p,T v,int){atomic_point();return __atomic_fetch_nand(p,v,__ATOMIC_SEQ_CST);} \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p,T* e,T v,int,int){atomic_point();return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p,T* e,T v,int,int){atomic_point();return __atomic_compare_exchange_n(p,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p,T e,T v,int,int){atomic_point();__atomic_compare_exchange_n(p,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);return e;}
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
void __tsan_atomic_thread_fence(int){atomic_point();} void __tsan_atomic_signal_fence(int){}

// ------------------------------------------------------------------ locks
static std::map<const void*,int>& owners(){static std::map<const void*,int> m;return m;}   // exclusive owner, -n: n readers
static bool sim_on(){return active&&me>=0&&!inside;}
#define REAL(name,...) using RealT=__VA_ARGS__; static RealT real=(RealT)dlsym(RTLD_NEXT,name)
static std::map<const void*,int>& depth(){static std::map<const void*,int> m;return m;}    // further locks of a recursive mutex by its owner
static bool recursive(pthread_mutex_t* m){return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE_NP;}
static bool take_ex(const void* m,bool again){ inside=true; auto&o=owners(); auto it=o.find(m); bool ok=it==o.end()||it->second==0; if(ok)o[m]=me+1; else if(again&&it->second==me+1){depth()[m]++;ok=true;} inside=false; return ok; }
static void lock_ex(const void* m,bool again){ atomic_point(); while(!take_ex(m,again))block_on(m); }
static bool try_ex(const void* m,bool again){ atomic_point(); return take_ex(m,again); }
static void lock_sh(const void* m){ atomic_point(); while(true){ inside=true; auto&o=owners(); auto it=o.find(m); bool ok=it==o.end()||it->second<=0; if(ok){o[m]=(it==o.end()?0:it->second)-1;inside=false;return;} inside=false; block_on(m);} }
static bool try_sh(const void* m){ atomic_point(); inside=true; auto&o=owners(); auto it=o.find(m); bool ok=it==o.end()||it->second<=0; if(ok)o[m]=(it==o.end()?0:it->second)-1; inside=false; return ok; }
static bool give_back(const void* m){ inside=true; auto d=depth().find(m); if(d!=depth().end()&&d->second>0){d->second--;inside=false;return false;} auto&o=owners(); auto it=o.find(m); if(it!=o.end()){ if(it->second>0)it->second=0; else if(it->second<0)it->second++; } wake_all(m); inside=false; return true; }
static void unlock_any(const void* m){ if(give_back(m))atomic_point(); }

int pthread_mutex_lock(pthread_mutex_t* m){ if(sim_on()){lock_ex(m,recursive(m));return 0;} REAL("pthread_mutex_lock",int(*)(pthread_mutex_t*)); return real(m);}
int pthread_mutex_trylock(pthread_mutex_t* m){ if(sim_on())return try_ex(m,recursive(m))?0:EBUSY; REAL("pthread_mutex_trylock",int(*)(pthread_mutex_t*)); return real(m);}
int pthread_mutex_unlock(pthread_mutex_t* m){ if(sim_on()){unlock_any(m);return 0;} REAL("pthread_mutex_unlock",int(*)(pthread_mutex_t*)); return real(m);}
int pthread_rwlock_rdlock(pthread_rwlock_t* m){ if(sim_on()){lock_sh(m);return 0;} REAL("pthread_rwlock_rdlock",int(*)(pthread_rwlock_t*)); return real(m);}
int pthread_rwlock_wrlock(pthread_rwlock_t* m){ if(sim_on()){lock_ex(m,false);return 0;} REAL("pthread_rwlock_wrlock",int(*)(pthread_rwlock_t*)); return real(m);}
int pthread_rwlock_unlock(pthread_rwlock_t* m){ if(sim_on()){unlock_any(m);return 0;} REAL("pthread_rwlock_unlock",int(*)(pthread_rwlock_t*)); return real(m);}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m){ if(sim_on())return try_sh(m)?0:EBUSY; REAL("pthread_rwlock_tryrdlock",int(*)(pthread_rwlock_t*)); return real(m);}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m){ if(sim_on())return try_ex(m,false)?0:EBUSY; REAL("pthread_rwlock_trywrlock",int(*)(pthread_rwlock_t*)); return real(m);}
// a signal wakes every waiter, which is allowed; the waiter looks at its condition again
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(sim_on()){give_back(m);block_on(c);lock_ex(m,recursive(m));return 0;} REAL("pthread_cond_wait",int(*)(pthread_cond_t*,pthread_mutex_t*)); return real(c,m);}
int pthread_cond_signal(pthread_cond_t* c){ if(sim_on()){inside=true;wake_all(c);inside=false;atomic_point();return 0;} REAL("pthread_cond_signal",int(*)(pthread_cond_t*)); return real(c);}
int pthread_cond_broadcast(pthread_cond_t* c){ if(sim_on()){inside=true;wake_all(c);inside=false;atomic_point();return 0;} REAL("pthread_cond_broadcast",int(*)(pthread_cond_t*)); return real(c);}
int sched_yield(){ if(sim_on()){inside=true; int to=pick_other(); if(to>=0)hand_to(to); inside=false;} return 0; }
int __cxa_thread_atexit(void(*f)(void*),void* o,void* dso){
    if(active&&me>=0&&th[me].exits<64){th[me].at_exit[th[me].exits++]={f,o};return 0;}
    REAL("__cxa_thread_atexit_impl",int(*)(void(*)(void*),void*,void*)); return real(f,o,dso);
}
int pthread_once(pthread_once_t* o,void(*f)()){
    if(!sim_on()){REAL("pthread_once",int(*)(pthread_once_t*,void(*)())); return real(o,f);}
    while(true){ atomic_point(); inside=true; int v=*(volatile int*)o; if(v==2){inside=false;return 0;} if(v==0){*(volatile int*)o=1;inside=false; try{f();}catch(...){*(volatile int*)o=0;inside=true;wake_all(o);inside=false;throw;} *(volatile int*)o=2; inside=true;wake_all(o);inside=false; return 0;} inside=false; block_on(o); }
}
// static initialisation: first byte done, second byte in progress (Itanium ABI layout as used by this compiler)
int __cxa_guard_acquire(long long* g){
    unsigned char* b=(unsigned char*)g;
    while(true){ atomic_point(); if(b[0])return 0; if(!b[1]){b[1]=1;return 1;} if(!sim_on()){ if(active&&me>=0)return 1; abort(); } block_on(g); }
}
void __cxa_guard_release(long long* g){ unsigned char* b=(unsigned char*)g; b[1]=0; b[0]=1; if(active&&me>=0){bool i=inside;inside=true;wake_all(g);inside=i;atomic_point();} }
void __cxa_guard_abort(long long* g){ unsigned char* b=(unsigned char*)g; b[1]=0; if(active&&me>=0){bool i=inside;inside=true;wake_all(g);inside=i;} }
}
