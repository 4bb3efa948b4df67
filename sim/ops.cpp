#include "ops.h"
#include "catima/cwrapper.h"
#include "catima/srim.h"
#include <cmath>
using namespace catima;
namespace sim {

static const char* names[K_COUNT]={
 "range","dedx_from_range","dedx_from_range_v","range_straggling","range_variance","domega2de",
 "angular_variance","angular_straggling","angular_straggling_from_E","energy_straggling_from_E",
 "energy_out","energy_out_v","energy_out_i","calculate","calculate_T","simple","layers","layers_ps","layers_T",
 "w_magnification","nonreaction","get_data",
 "dedx","domega2dx","da2dx","tof_from_E","tof_table","datapoint","physics","lookup","production",
 "c_calculate","c_Eout","c_range","c_range_straggling","c_angular","c_energy_str","c_nonreaction","c_weight"};
const char* kind_name(int k){return names[k];}
int kind_of(const std::string& s){for(int i=0;i<K_COUNT;i++)if(s==names[i])return i; fprintf(stderr,"bad op %s\n",s.c_str()); _Exit(97);}
bool is_c(int k){return k>=K_c_calculate;}
bool is_cachefree(int k){return k>=K_dedx&&k<=K_production;}
bool is_layers(int k){return k==K_layers||k==K_layers_ps||k==K_layers_T;}
bool uses_default_always(int k){return k==K_simple||(is_c(k)&&k!=K_c_weight);}

// ---------------------------------------------------------------- pools
std::vector<std::string> Pool::lines()const{
    std::vector<std::string> o;
    for(auto&p:P)o.push_back("P "+hexd(p.A)+" "+hexd(p.Z)+" "+hexd(p.Q));
    for(auto&m:M){ std::string s=fmt("M %d %d ",m.db,m.ctor)+hexd(m.rho)+" "+hexd(m.th)+" "+hexd(m.ipot)+" "+hexd(m.mass)+fmt(" %zu",m.els.size());
        for(auto&e:m.els)s+=" "+hexd(e.A)+fmt(" %d ",e.Z)+hexd(e.stn); o.push_back(s);}
    for(auto&c:C)o.push_back("C "+ctext(c));
    for(auto&l:L){std::string s=fmt("L %zu",l.size());for(int i:l)s+=fmt(" %d",i);o.push_back(s);}
    return o;
}
static double num(const std::string& s){return strtod(s.c_str(),nullptr);}
Pool Pool::parse(const std::vector<std::string>& ls){
    Pool p;
    for(auto&l:ls){ auto t=split(l); if(t.empty())continue;
        if(t[0]=="P")p.P.push_back({num(t[1]),num(t[2]),num(t[3])});
        else if(t[0]=="M"){MSpec m;m.db=atoi(t[1].c_str());m.ctor=atoi(t[2].c_str());m.rho=num(t[3]);m.th=num(t[4]);m.ipot=num(t[5]);m.mass=num(t[6]);
            int n=atoi(t[7].c_str());for(int i=0;i<n;i++)m.els.push_back({num(t[8+3*i]),atoi(t[9+3*i].c_str()),num(t[10+3*i])});p.M.push_back(m);}
        else if(t[0]=="C"){CSpec c;c.z=atoi(t[1].c_str());c.corr=atoi(t[2].c_str());c.calc=atoi(t[3].c_str());c.low=atoi(t[4].c_str());c.scat=atoi(t[5].c_str());c.fac=num(t[6]);p.C.push_back(c);}
        else if(t[0]=="L"){std::vector<int> v;for(size_t i=2;i<t.size();i++)v.push_back(atoi(t[i].c_str()));p.L.push_back(v);}
    }
    return p;
}
std::string ctext(const CSpec& c){return fmt("%d %d %d %d %d ",c.z,c.corr,c.calc,c.low,c.scat)+hexd(c.fac);}
Projectile make(const PSpec& s){Projectile p(s.A,s.Z,s.Q);return p;}
Material make(const MSpec& s){
    Material m;
    if(s.db){m=get_material(s.db);}
    else if(s.ctor==1&&s.els.size()==1){m=Material({{s.els[0].A,(double)s.els[0].Z,s.els[0].stn}});}
    else if(s.ctor==1&&s.els.size()==2){m=Material({{s.els[0].A,(double)s.els[0].Z,s.els[0].stn},{s.els[1].A,(double)s.els[1].Z,s.els[1].stn}});}
    else if(s.ctor==1&&s.els.size()==3){m=Material({{s.els[0].A,(double)s.els[0].Z,s.els[0].stn},{s.els[1].A,(double)s.els[1].Z,s.els[1].stn},{s.els[2].A,(double)s.els[2].Z,s.els[2].stn}});}
    else if(s.ctor==2&&s.els.size()==1&&s.els[0].stn==1.0){m=s.ipot>0?Material(s.els[0].A,s.els[0].Z,s.rho,s.th,s.ipot):Material(s.els[0].A,s.els[0].Z,s.rho,s.th); if(s.mass>0)m.M(s.mass); return m;}
    else if(s.ctor==2&&s.els.size()==2){m=Material({{s.els[0].A,(double)s.els[0].Z,s.els[0].stn},{s.els[1].A,(double)s.els[1].Z,s.els[1].stn}},s.rho,s.ipot,s.mass); if(s.th!=0)m.thickness(s.th); return m;}
    else for(auto&e:s.els)m.add_element(e.A,e.Z,e.stn);
    m.density(s.rho); if(s.th!=0)m.thickness(s.th);
    if(s.ipot>0)m.I(s.ipot);
    if(s.mass>0)m.M(s.mass);
    return m;
}
Config make(const CSpec& s){Config c;c.z_effective=s.z;c.corrections=s.corr;c.calculation=s.calc;c.low_energy=s.low;c.scattering=s.scat;c.scattering_factor=s.fac;return c;}
CSpec spec(const Config& c){CSpec s;s.z=c.z_effective;s.corr=c.corrections;s.calc=c.calculation;s.low=c.low_energy;s.scat=c.scattering;s.fac=c.scattering_factor;return s;}
void set_default(const CSpec& s){default_config=make(s);}
CSpec get_default(){return spec(default_config);}
void set_c_default(int z){catima_defaults.z_effective=(char)z;}
void apply_c_side_effect(CSpec& d,int cz){d.z=cz;d.scat=255;}

// ---------------------------------------------------------------- operations
std::string Op::text()const{
    std::string s=fmt("%s %d %d %d %d %d",names[kind],p,m,c,l,k);
    for(double x:a)s+=" "+hexd(x);
    s+=fmt(" %zu",v.size()); for(double x:v)s+=" "+hexd(x);
    return s;
}
Op Op::parse(const std::vector<std::string>& t,size_t i){
    Op o;o.kind=kind_of(t[i]);o.p=atoi(t[i+1].c_str());o.m=atoi(t[i+2].c_str());o.c=atoi(t[i+3].c_str());o.l=atoi(t[i+4].c_str());o.k=atoi(t[i+5].c_str());
    for(int j=0;j<4;j++)o.a[j]=num(t[i+6+j]);
    size_t n=atoi(t[i+10].c_str());for(size_t j=0;j<n;j++)o.v.push_back(num(t[i+11+j]));
    return o;
}
static Layers make_layers(const Pool& p,int l){Layers x;for(int i:p.L[l])x.add(make(p.M[i]));return x;}
World::World(const Pool& p){
    for(auto&x:p.P)P.push_back(make(x)); for(auto&x:p.M)M.push_back(make(x)); for(auto&x:p.C)C.push_back(make(x));
    for(size_t i=0;i<p.L.size();i++)L.push_back(make_layers(p,(int)i));
}
World::World(const Pool& p,const Op& o){
    P.resize(p.P.size()); M.resize(p.M.size()); C.resize(p.C.size()); L.resize(p.L.size());
    if(o.p<(int)P.size())P[o.p]=make(p.P[o.p]);
    if(o.m<(int)M.size())M[o.m]=make(p.M[o.m]);
    if(o.c>=0)C[o.c]=make(p.C[o.c]);
    if(is_layers(o.kind))L[o.l]=make_layers(p,o.l);
}

typedef std::vector<uint64_t> Out;
static void put(Out& o,double d){o.push_back(bits(d));}
static void put(Out& o,const Result& r){
    put(o,r.Ein);put(o,r.Eout);put(o,r.Eloss);put(o,r.range);put(o,r.dEdxi);put(o,r.dEdxo);put(o,r.sigma_E);put(o,r.sigma_a);put(o,r.sigma_r);put(o,r.sigma_x);put(o,r.cov);put(o,r.tof);
#ifdef REACTIONS
    put(o,r.sp);
#endif
}
static void put(Out& o,const MultiResult& r){put(o,r.total_result);o.push_back(r.results.size());for(auto&x:r.results)put(o,x);}
static void putv(Out& o,const std::vector<double>& v){
    if(v.size()<=220){o.push_back(v.size());for(double d:v)put(o,d);return;}
    Hash h;for(double d:v)h.add(bits(d)); o.push_back(v.size());o.push_back(h.h);for(size_t i=0;i<8;i++)put(o,v[i*(v.size()-1)/7]);
}
static void put(Out& o,const Material& m){
    put(o,m.density());put(o,m.thickness());put(o,m.M());put(o,m.I());o.push_back(m.ncomponents());
    for(int i=0;i<m.ncomponents();i++){auto e=m.get_element(i);put(o,e.A);o.push_back(e.Z);put(o,e.stn);put(o,m.weight_fraction(i));put(o,m.molar_fraction(i));}
}
static void putdp(Out& o,const DataPoint& d){
    put(o,d.p.A);put(o,d.p.Z);put(o,d.p.Q);putv(o,d.range);putv(o,d.range_straggling);putv(o,d.angular_variance);
}
// C argument mapping: the projectile comes from the pool, the target from l (Z or material id) and a[]
static Material c_material(double ta,double tz,double th,double rho){
    Material mat;
    if(tz>200)mat=get_material((int)tz); else mat.add_element(ta,(int)tz,1.0);
    mat.density(rho).thickness(th);
    if(rho<=0)mat.density(get_material((int)tz).density());
    return mat;
}

std::vector<uint64_t> exec(World& w,const Op& o,bool cxx){
    Out r;
    const bool d=o.c<0; const World& s=w.share?*w.share:w;
    w.P[o.p].T=o.a[0];
    switch(o.kind){
    case K_physics:{
        Projectile p=w.P[o.p];p.T=o.a[0];const Material&m=s.M[o.m];const Config& c=d?default_config:s.C[o.c];Target t=m.get_element(0);
        put(r,dedx_n(p,m));put(r,dedx_variance(p,t,c));put(r,bethek_dedx_e(p,m,c));put(r,bethek_barkas(z_effective(p,t,c),beta_from_T(p.T)*gamma_from_T(p.T),t.Z));
        put(r,bethek_density_effect(beta_from_T(p.T),t.Z));put(r,pair_production(p,t));put(r,bremsstrahlung(p,t));put(r,precalculated_lindhard(p));put(r,precalculated_lindhard_X(p));
        put(r,energy_straggling_firsov(p.Z,p.T,t.Z,t.A));put(r,sezi_dedx_e(p,m,c));put(r,angular_scattering_power(p,m));put(r,radiation_length(m));put(r,scattering_length(m));put(r,z_effective(p,t,c));
        put(r,reduced_energy_loss_unit(p,t));put(r,p_from_T(p.T,p.A));
        double be=beta_from_T(p.T); put(r,angular_scattering_power_xs(p,m,p_from_T(p.T,p.A),be));
        for(int i=0;i<m.ncomponents()&&i<3;i++){ Target e=m.get_element(i); double z=p.Z,tz=e.Z;
            for(double q:{z_eff_Pierce_Blann(z,be),z_eff_Anthony_Landford(z,be,tz),z_eff_Hubert(z,p.T,tz),z_eff_Winger(z,be,tz),z_eff_Schiwietz(z,be,tz)})put(r,q);
            if(i)put(r,dedx_variance(p,e,c)); if(z>=1&&z<=92&&e.Z>=1&&e.Z<=92){put(r,srim_dedx_e((int)z,e.Z,p.T,true));put(r,srim_dedx_e((int)z,e.Z,p.T,false));put(r,p_se(e.Z,p.T));} }
        if(p.T>20.0&&p.T<2000.0&&o.k==1){put(r,bethek_lindhard(p));put(r,bethek_lindhard_X(p));}
        return r;}
    case K_lookup:{
        int z=o.k; Material m=get_material(o.l); put(r,m);
        put(r,element_atomic_weight(z));put(r,element_density(z));
        int n=abundance::get_isotopes_num(z); r.push_back(n);
        for(int i=0;i<n;i++){r.push_back(abundance::get_isotope_a(z,i));put(r,abundance::get_abundance(z,i));auto x=abundance::get_isotope(z,i);r.push_back(x.first);put(r,x.second);}
        put(r,SigmaR_Kox((int)lround(w.P[o.p].A),(int)w.P[o.p].Z,40+std::fabs(o.a[0]),std::max(1,abundance::get_isotope_a(z,0)),z));
        return r;}
    case K_production:{
        const Material&m=s.M[o.m]; put(r,production_rate(o.a[1],o.a[2],o.a[3],m)); put(r,reaction_rate(o.a[2],m.number_density_cm2()));put(r,nonreaction_rate(o.a[2],m.number_density_cm2()));
        double b=o.a[3]; auto f=[&](double x){return b*(1+x);}; put(r,reaction_rate(f,o.a[1]*1e-3)); return r;}
    default: break;
    }
    if(is_c(o.kind)){
        double pa=w.P[o.p].A; int pz=(int)w.P[o.p].Z; double T=o.a[0],To=o.a[1],th=o.a[2],rho=o.a[3]; double tz=o.l; double ta=o.k; if(o.l>200)ta=0;
        if(!cxx){
            switch(o.kind){
            case K_c_calculate:{CatimaResult x=catima_calculate(pa,pz,T,ta,tz,th,rho);for(double q:{x.Ein,x.Eout,x.Eloss,x.range,x.dEdxi,x.dEdxo,x.sigma_E,x.sigma_a,x.sigma_r,x.tof})put(r,q);break;}
            case K_c_Eout:put(r,catima_Eout(pa,pz,T,ta,tz,th,rho));break;
            case K_c_range:put(r,catima_range(pa,pz,T,ta,tz));break;
            case K_c_range_straggling:put(r,catima_range_straggling(pa,pz,T,ta,tz));break;
            case K_c_angular:put(r,catima_angular_straggling_from_E(pa,pz,T,To,ta,tz));break;
            case K_c_energy_str:put(r,catima_energy_straggling_from_E(pa,pz,T,To,ta,tz));break;
            case K_c_nonreaction:put(r,catima_nonreaction_rate(pa,pz,T,ta,tz,th));break;
            case K_c_weight:put(r,atomic_weight(o.l<=110?o.l:6));break;
            }
            return r;
        }
        // the same through the C++ interface with an explicit configuration (the caller gives it as default_config)
        Config c=default_config; Projectile p(pa,pz);
        switch(o.kind){
        case K_c_calculate:{Material m=c_material(ta,tz,th,rho);Result x=calculate(p(T),m,c);for(double q:{x.Ein,x.Eout,x.Eloss,x.range,x.dEdxi,x.dEdxo,x.sigma_E,x.sigma_a,x.sigma_r,x.tof})put(r,q);break;}
        case K_c_Eout:{Material m=c_material(ta,tz,th,rho);put(r,energy_out(p(T),m,c));break;}
        case K_c_range:{Material m=c_material(ta,tz,0,-1);put(r,range(p(T),m,c));break;}
        case K_c_range_straggling:{Material m=c_material(ta,tz,0,-1);put(r,range_straggling(p,T,m,c));break;}
        case K_c_angular:{Material m=c_material(ta,tz,0,-1);put(r,angular_straggling_from_E(p(T),To,m,c));break;}
        case K_c_energy_str:{Material m=c_material(ta,tz,0,-1);put(r,energy_straggling_from_E(p,T,To,m,c));break;}
        case K_c_nonreaction:{Material m=c_material(ta,tz,th,-1);p.T=T;put(r,nonreaction_rate(p,m,c));break;}
        case K_c_weight:put(r,element_atomic_weight(o.l<=110?o.l:6));break;
        }
        return r;
    }
    Projectile& P=w.P[o.p]; const Material& M=s.M[o.m]; double T=o.a[0]; P.T=T;
    const Config* c=d?nullptr:&s.C[o.c];
#define CALL(fn,...) (d?fn(__VA_ARGS__):fn(__VA_ARGS__,*c))
    switch(o.kind){
    case K_range: P.T=T; put(r,CALL(range,P,M));break;
    case K_dedx_from_range: P.T=T; put(r,CALL(dedx_from_range,P,M));break;
    case K_dedx_from_range_v: putv(r,CALL(dedx_from_range,P,o.v,M));break;
    case K_range_straggling: put(r,CALL(range_straggling,P,T,M));break;
    case K_range_variance: put(r,CALL(range_variance,P,T,M));break;
    case K_domega2de: put(r,CALL(domega2de,P,T,M));break;
    case K_angular_variance: P.T=T; put(r,d?(o.k?angular_variance(P,M,default_config,o.k):angular_variance(P,M)):angular_variance(P,M,*c,o.k));break;
    case K_angular_straggling: P.T=T; put(r,CALL(angular_straggling,P,M));break;
    case K_angular_straggling_from_E: P.T=T; put(r,CALL(angular_straggling_from_E,P,o.a[1],M));break;
    case K_energy_straggling_from_E: put(r,CALL(energy_straggling_from_E,P,T,o.a[1],M));break;
    case K_energy_out: P.T=T; put(r,CALL(energy_out,P,M));break;
    case K_energy_out_v: putv(r,CALL(energy_out,P,o.v,M));break;
    case K_energy_out_i:{ const DataPoint& dp=CALL(get_data,P,M); const auto& q=get_range_spline(dp); put(r,energy_out(T,M.thickness(),q)); put(r,q(T)); put(r,q.derivative(T)); break;}
    case K_calculate: P.T=T; put(r,CALL(calculate,P,M));break;
    case K_calculate_T: put(r,CALL(calculate,P,M,T));break;
    case K_simple: put(r,calculate(P.A,(int)P.Z,T,M.get_element(0).A,(double)M.get_element(0).Z,M.thickness(),M.density()));break;
    case K_layers: P.T=T; put(r,CALL(calculate,P,s.L[o.l]));break;
    case K_layers_ps:{ P.T=T; Phasespace ps;ps.sigma_x=o.a[1];ps.sigma_a=o.a[2];ps.cov_x=o.a[3]; put(r,CALL(calculate,P,ps,s.L[o.l]));break;}
    case K_layers_T: put(r,CALL(calculate,P,T,s.L[o.l]));break;
    case K_w_magnification:{auto x=CALL(w_magnification,P,T,M);put(r,x.first);put(r,x.second);break;}
    case K_nonreaction: P.T=T; put(r,CALL(nonreaction_rate,P,M));break;
    case K_get_data: putdp(r,CALL(get_data,P,M));break;
    case K_dedx: P.T=T; put(r,CALL(dedx,P,M));break;
    case K_domega2dx: P.T=T; put(r,CALL(domega2dx,P,M));break;
    case K_da2dx: P.T=T; put(r,CALL(da2dx,P,M));break;
    case K_tof_from_E: P.T=T; put(r,CALL(calculate_tof_from_E,P,o.a[1],M));break;
    case K_tof_table: putv(r,CALL(calculate_tof,P,M));break;
    case K_datapoint: putdp(r,CALL(calculate_DataPoint,P,M));break;
    default: fprintf(stderr,"unhandled op\n");_Exit(97);
    }
#undef CALL
    return r;
}

std::string show(const std::vector<uint64_t>& v,size_t max){
    std::string s="[";for(size_t i=0;i<v.size()&&i<max;i++)s+=fmt("%s%.17g",i?", ":"",fbits(v[i]));
    if(v.size()>max)s+=fmt(", ... %zu values",v.size());
    return s+"]";
}
std::string diff(const std::vector<uint64_t>& a,const std::vector<uint64_t>& b){
    if(a.size()!=b.size())return fmt("%zu values instead of %zu",a.size(),b.size());
    for(size_t i=0;i<a.size();i++)if(a[i]!=b[i])return fmt("value %zu is %.17g, expected %.17g",i,fbits(a[i]),fbits(b[i]));
    return "";
}

// ---------------------------------------------------------------- generation
PSpec Gen::proj(){
    static const int zs[]={1,1,2,3,6,8,18,26,36,50,54,79,82,92,92,108};
    int z=zs[r.below(16)]; if(r.chance(1,3))z=r.range(1,92);
    double a=z==1?r.range(1,3):std::round(z*(2.0+0.6*z/92.0))+r.range(-1,1);
    if(r.chance(1,4))a+=r.uniform(-0.1,0.1);
    double q=z; if(r.chance(1,5)&&z>2)q=r.range(1,z-1);
    return {a,(double)z,q};
}
MSpec Gen::mat(){
    MSpec m;
    int k=r.below(10);
    if(k<3){m.db=r.chance(1,2)?r.range(1,92):r.range(201,300);}
    else{
        int n=k<6?1:(k<8?2:r.range(2,4)); bool frac=n>1&&r.chance(1,3);
        for(int i=0;i<n;i++){ El e; e.Z=r.chance(1,2)?r.range(1,20):r.range(1,92); e.A=r.chance(1,4)?0.0:std::round(2.2*e.Z)+(e.Z==1?-1:0); if(e.A<1&&e.A!=0)e.A=1; e.stn=frac?r.uniform(0.05,0.6):r.range(1,6); m.els.push_back(e);}
        m.ctor=r.below(3);
    }
    m.rho=r.chance(1,3)?r.uniform(1e-4,2e-3):r.uniform(0.1,20);
    m.th=thickness();
    if(r.chance(1,4))m.ipot=r.uniform(20,800);
    if(r.chance(1,10))m.mass=r.uniform(2,200);
    return m;
}
CSpec Gen::conf(){
    CSpec c; c.z=r.range(0,5); c.corr=r.chance(1,2)?0:r.below(16); c.calc=r.below(2); c.low=r.below(2);
    static const int sc[]={255,255,0,1,2}; c.scat=sc[r.below(5)];
    static const double f[]={1.0,1.0,1.0,0.5,1.0005,0.9995,2.0,1e-3}; c.fac=f[r.below(8)];
    return c;
}
double Gen::tiny(){ static const double d[]={1e-2,1e-3,1e-4,1e-5,1e-6,1e-7,1e-8,1e-9}; return d[r.below(8)]*r.uniform(0.2,0.9); }
PSpec Gen::near(PSpec p){
    switch(r.below(7)){
        case 0:p.A+=1;break; case 1:p.A*=1+tiny();break; case 2:p.Q=p.Q>1?p.Q-1:p.Z+1;break;
        case 3:p.Z=p.Z<92?p.Z+1:p.Z-1;break; case 4:p.A=std::max(1.0,p.A-1);break; case 5:std::swap(p.A,p.Q);if(p.A<1)p.A=1;break;
        default:p.Q=p.Z-0.5;break;
    }
    if(p.A<0.5)p.A=1; if(p.Q==0)p.Q=p.Z;
    return p;
}
MSpec Gen::near(MSpec m){
    int k=r.below(11);
    if(m.db&&k<6)k=6+r.below(5);
    switch(k){
        case 0:{auto&e=m.els[r.below(m.els.size())];if(e.A<=0)e.A=2*e.Z;if(r.chance(1,2))e.A+=1;else e.A*=1+tiny();break;}
        case 1:{auto&e=m.els[r.below(m.els.size())];e.stn*=r.chance(1,2)?1+tiny():1.5;break;}
        case 2:{auto&e=m.els.back();e.Z=e.Z<92?e.Z+1:e.Z-1;if(e.A<=0)e.A=2.2*e.Z;break;}
        case 3:{auto&e=m.els[r.below(m.els.size())];e.Z=e.Z>1?e.Z-1:2;break;}
        case 4:{El e;e.Z=r.range(1,30);e.A=2.1*e.Z;e.stn=1;m.els.push_back(e);break;}
        case 5:if(m.els.size()>1)std::swap(m.els.front(),m.els.back());else m.els[0].A=m.els[0].A>0?m.els[0].A+0.5:2*m.els[0].Z;break;
        case 6:m.ipot=m.ipot>0?m.ipot*(r.chance(1,2)?1+tiny():1.2):75;break;
        case 7:m.mass=m.mass>0?m.mass*(1+tiny()):r.uniform(10,100);break;
        case 8:m.rho*=r.chance(1,2)?1.5:0.7;break;
        case 9:m.ipot=m.ipot>0?0:r.uniform(50,100);break;
        default:m.th=m.th>0&&r.chance(2,3)?m.th*(r.chance(1,2)?1+tiny():0.5):thickness();break;
    }
    return m;
}
CSpec Gen::near(CSpec c){
    switch(r.below(9)){
        case 0:c.z=(c.z+1+r.below(5))%6;break; case 1:c.corr^=1<<r.below(4);break; case 2:c.corr^=1<<r.below(4);break; case 3:c.calc^=1;break; case 4:c.low^=1;break;
        case 5:{static const int sc[]={255,0,1,2};int n;do n=sc[r.below(4)];while(n==c.scat);c.scat=n;break;}
        case 6:c.fac*=1+tiny();break; case 7:c.fac*=0.5;break; default:c.z=(c.z+1)%6;break;
    }
    return c;
}
double Gen::energy(bool special){
    if(special&&r.chance(1,8)){ static const double s[]={1e-3,1e7,9.999e6,10,30,1.0,1e-4,2e7,0.0011,9.99999e6,1000,100}; return s[r.below(12)]; }
    if(r.chance(1,2))return std::exp(r.uniform(std::log(5.0),std::log(2000.0)));
    return std::exp(r.uniform(std::log(1e-3),std::log(1e7)));
}
double Gen::thickness(){ if(r.chance(1,12))return 0.0; return std::exp(r.uniform(std::log(1e-4),std::log(5.0))); }
Op Gen::op(int kind,int np,int nm,int nc,bool allow_default){
    Op o;o.kind=kind;o.p=r.below(np);o.m=r.below(nm);o.c=(allow_default&&r.chance(1,3))?-1:r.below(nc);
    o.a[0]=energy();
    if(kind==K_angular_straggling_from_E||kind==K_energy_straggling_from_E||kind==K_tof_from_E||kind==K_c_angular||kind==K_c_energy_str)o.a[1]=o.a[0]*r.uniform(0.2,0.99);
    if(kind==K_angular_variance)o.k=r.below(3);
    if(kind==K_dedx_from_range_v||kind==K_energy_out_v){int n=r.range(1,12);for(int i=0;i<n;i++)o.v.push_back(energy());}
    if(kind==K_layers_ps){o.a[1]=r.uniform(0,1);o.a[2]=r.uniform(0,0.01);o.a[3]=r.uniform(0,0.001);}
    if(kind==K_production){o.a[1]=r.uniform(1,100);o.a[2]=r.uniform(100,2000);o.a[3]=r.chance(1,3)?o.a[2]+1:r.uniform(100,2000);}
    if(kind==K_lookup){o.k=r.range(1,92);o.l=r.chance(1,2)?r.range(1,92):r.range(201,349);if(r.chance(1,8)){static const int odd[]={0,-1,93,98,99,110,150,200,350,400};o.l=odd[r.below(10)];if(r.chance(1,3))o.k=r.chance(1,2)?r.range(93,120):0;}}
    if(kind==K_physics){o.k=r.chance(1,12);}
    if(is_c(kind)){ bool comp=r.chance(1,3); o.l=comp?r.range(201,300):r.range(1,92); o.k=r.chance(1,2)?0:(int)std::round(2.1*o.l); if(o.l==1&&o.k)o.k=1; if(comp)o.k=0; o.a[2]=thickness(); o.a[3]=r.chance(1,2)?-1.0:r.uniform(0.1,10); if(r.chance(1,10))o.a[3]=0; o.c=-1; }
    return o;
}
int pick_store_kind(Rng& r){
    static const int w[]={K_range,K_dedx_from_range,K_dedx_from_range_v,K_range_straggling,K_range_variance,K_domega2de,K_angular_variance,K_angular_straggling,K_angular_straggling_from_E,K_energy_straggling_from_E,K_energy_out,K_energy_out_v,K_energy_out_i,K_calculate,K_calculate,K_calculate,K_calculate_T,K_simple,K_layers,K_layers_ps,K_layers_T,K_w_magnification,K_nonreaction,K_get_data,K_get_data};
    return w[r.below(sizeof w/sizeof*w)];
}
} // namespace
