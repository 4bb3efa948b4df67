// Basic pieces shared by all simulators: seeded random numbers, hashing,
// exact number I/O, the simulated heap and process helpers.
#ifndef SIM_BASE_H
#define SIM_BASE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- random
inline uint64_t mix(uint64_t x){
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b){return mix(a ^ mix(b));}

struct Rng{
    uint64_t s;
    explicit Rng(uint64_t seed):s(mix(seed)){}
    uint64_t u(){ s += 0x9E3779B97F4A7C15ull; uint64_t x=s;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);}
    int below(int n){return n<=0?0:int(u()%uint64_t(n));}
    int range(int a,int b){return a+below(b-a+1);}       // inclusive
    bool chance(int num,int den){return below(den)<num;}
    double unit(){return double(u()>>11)*(1.0/9007199254740992.0);}
    double uniform(double a,double b){return a+(b-a)*unit();}
    template<typename T> const T& pick(const std::vector<T>& v){return v[below((int)v.size())];}
};

// ---------------------------------------------------------------- hashing
struct Hash{
    uint64_t h=1469598103934665603ull;
    void add(uint64_t x){for(int i=0;i<8;i++){h^=(x>>(8*i))&0xff;h*=1099511628211ull;}}
    void add(const std::string& s){for(unsigned char c:s){h^=c;h*=1099511628211ull;} add((uint64_t)s.size());}
};
inline uint64_t bits(double d){uint64_t u;if(d!=d)return 0x7ff8000000000000ull;memcpy(&u,&d,8);return u;}
inline double fbits(uint64_t u){double d;memcpy(&d,&u,8);return d;}

// ---------------------------------------------------------------- text
inline std::string hexd(double d){char b[64];snprintf(b,sizeof b,"%a",d);return b;}
std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
std::vector<std::string> split(const std::string& s,char sep=' ');
std::string jstr(const std::string& s);

// ---------------------------------------------------------------- heap
// All operator new/delete of the process go to one arena at a fixed address.
// Contents, placement and failures of allocations are under seeded control.
namespace heap {
    struct State{
        bool   active=false;      // inside a library call: count, fail, fill
        uint64_t fill_seed=0;     // 0: fresh memory is zero
        int    fill_mode=0;       // 0 zero, 1 random bytes, 2 signalling patterns (NaN), 3 big numbers, 4 0xAA
        bool   poison=false;      // overwrite freed memory
        int    reuse=0;           // 0 last freed first, 1 oldest freed first, 2 never within the run
        long   fail_at=0;         // 1-based allocation to fail (0: none)
        long   fail_count=0;      // how many consecutive ones fail (-1: all following)
        long   count=0;           // allocations since arm()
        long   fired=0;           // injected failures since arm()
        long   total=0;           // allocations in library calls
        long   lib_bytes=0;       // currently live, allocated inside library calls
        long   lib_blocks=0;
        long   bad=0;             // double frees, overruns, foreign pointers
    };
    extern State st;
    void arm(long at,long n);
    void disarm();
    void scatter(int blocks,uint64_t seed);   // shift placement of later blocks
    void fresh_region();                      // start of a child: placement no longer depends on the parent
    const char* bad_what();
    const void* mark();                       // everything allocated so far lies below
    struct Own{long at=0,n=0,count=0,fired=0;};   // failures of one thread, counted in that thread
    extern thread_local Own own; extern bool (*own_allowed)();
    struct Window{ bool old; Window(){old=st.active;st.active=true;} ~Window(){st.active=old;} };
}
void dirty_stack(uint64_t seed,int mode);     // fill unused stack below the caller
uint64_t pattern(uint64_t seed,int mode,uint64_t i);

// ---------------------------------------------------------------- processes
// Shared buffer that a child fills and the parent reads.
struct Shm{
    struct Head{ volatile uint64_t used; volatile uint64_t step; volatile uint64_t done; volatile uint64_t note; };
    Head* head; uint64_t* words; size_t cap;
    explicit Shm(size_t bytes);
    void clear(){head->used=0;head->step=0;head->done=0;head->note=0;}
    bool put(uint64_t w){ if(head->used>=cap)return false; words[head->used]=w; head->used=head->used+1; return true;}
    void put_block(int tag,const std::vector<uint64_t>& v){put(uint64_t(tag));put(v.size());for(auto w:v)put(w);}
    void put_text(int tag,const std::string& s);
};
struct Record{int tag; std::vector<uint64_t> v; std::string text()const;};
std::vector<Record> records(const Shm& s);

struct ChildEnd{ bool ok=false; int sig=0; int code=0; bool timeout=false; std::string what()const; };
// run f in a forked child of this (untouched) process
ChildEnd in_child(const std::function<void()>& f,int cpu_seconds=60);
void deterministic_process(int argc,char** argv);   // no address randomisation; may re-exec
std::string read_file(const std::string& path);
void write_file(const std::string& path,const std::string& s);
double now();
void make_comma_locale(const std::string& dir);     // an LC_NUMERIC file with decimal comma: locale "simloc" with LOCPATH=dir
void remove_comma_locale(const std::string& dir);
std::string scratch_dir(const char* prefix);         // new directory under SIM_TMP

// ---------------------------------------------------------------- engine
struct Trace{ std::vector<std::string> head; std::vector<std::string> steps; std::string text()const; static Trace parse(const std::string&); };
struct Outcome{
    bool violated=false;
    bool inconclusive=false;
    std::string kind;       // short stable class of the failure
    std::string detail;     // human readable
    uint64_t hash=0;        // everything observed
    uint64_t shape=0;       // distinctness measure of the execution
    bool nontrivial=false;
};
struct Stats{
    std::map<std::string,long> n;               // counters
    std::map<std::string,std::map<uint64_t,int>> sets;  // distinct measures
    void add(const std::string& k,long v=1){n[k]+=v;}
    void seen(const std::string& k,uint64_t h){sets[k][h]++;}
};
extern Stats stats;
struct Scenario{
    virtual ~Scenario(){}
    virtual Trace generate(uint64_t seed,long index)=0;
    virtual Outcome run(const Trace&)=0;
    virtual Trace concrete(const Trace& t){return t;}    // the same execution with seeded choices written out
    virtual std::string describe(const Trace& t){return t.text();}
};
extern bool thorough;
extern uint64_t base_seed;
int engine_main(int argc,char** argv,const std::function<Scenario*(const std::string& prop)>& make);

} // namespace
#endif
