// Value pools and the vocabulary of library operations, with exact text form.
#ifndef SIM_OPS_H
#define SIM_OPS_H
#include "base.h"
#include "catima/catima.h"
#include "catima/reactions.h"
#include "catima/nucdata.h"
#include "catima/abundance_database.h"
#include "catima/integrator.h"

namespace sim {

struct PSpec{double A,Z,Q;};
struct El{double A;int Z;double stn;};
struct MSpec{int db=0;int ctor=0;std::vector<El> els;double rho=1,th=0,ipot=0,mass=0;};
struct CSpec{int z=1,corr=0,calc=1,low=0,scat=255;double fac=1.0;};

struct Pool{
    std::vector<PSpec> P; std::vector<MSpec> M; std::vector<CSpec> C; std::vector<std::vector<int>> L;
    std::vector<std::string> lines()const;
    static Pool parse(const std::vector<std::string>&);
};

catima::Projectile make(const PSpec&);
catima::Material   make(const MSpec&);
catima::Config     make(const CSpec&);
CSpec spec(const catima::Config&);
std::string ctext(const CSpec&);

enum Kind{
    K_range,K_dedx_from_range,K_dedx_from_range_v,K_range_straggling,K_range_variance,K_domega2de,
    K_angular_variance,K_angular_straggling,K_angular_straggling_from_E,K_energy_straggling_from_E,
    K_energy_out,K_energy_out_v,K_energy_out_i,K_calculate,K_calculate_T,K_simple,K_layers,K_layers_ps,K_layers_T,
    K_w_magnification,K_nonreaction,K_get_data,
    // without the store
    K_dedx,K_domega2dx,K_da2dx,K_tof_from_E,K_tof_table,K_datapoint,K_physics,K_lookup,K_production,
    // C interface
    K_c_calculate,K_c_Eout,K_c_range,K_c_range_straggling,K_c_angular,K_c_energy_str,K_c_nonreaction,K_c_weight,
    K_COUNT
};
const char* kind_name(int k);
int kind_of(const std::string&);
bool is_c(int k);
bool is_cachefree(int k);
bool is_layers(int k);
bool uses_default_always(int k);   // has no configuration argument

struct Op{
    int kind=0; int p=0,m=0,c=-1,l=0,k=0; double a[4]={0,0,0,0}; std::vector<double> v;
    std::string text()const; static Op parse(const std::vector<std::string>& tok,size_t from);
    bool uses_default()const{return c<0||uses_default_always(kind);}
};

// Real objects built from a pool (inside a child process)
struct World{
    std::vector<catima::Projectile> P; std::vector<catima::Material> M; std::vector<catima::Config> C; std::vector<catima::Layers> L;
    const World* share=nullptr;           // materials, configurations and stacks are those of another world
    World(){}
    explicit World(const Pool&);
    World(const Pool&,const Op& only);    // builds only what the operation needs
};
std::vector<uint64_t> exec(World& w,const Op& o,bool cxx_equivalent=false);
void set_default(const CSpec&);
CSpec get_default();
void set_c_default(int z);
void apply_c_side_effect(CSpec& d,int cz);

std::string show(const std::vector<uint64_t>& v,size_t max=16);
std::string diff(const std::vector<uint64_t>& a,const std::vector<uint64_t>& b);   // a observed, b expected

// generation
struct Gen{
    Rng r; Pool pool;
    explicit Gen(uint64_t s):r(s){}
    PSpec proj(); MSpec mat(); CSpec conf();
    PSpec near(PSpec); MSpec near(MSpec); CSpec near(CSpec);
    double energy(bool special=true); double thickness(); double tiny();
    Op op(int kind,int np,int nm,int nc,bool allow_default);
};
int pick_store_kind(Rng&);
} // namespace
#endif
