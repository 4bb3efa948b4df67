From a62819de968da28bbc99e62f18e4c73ff08a68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 01/12] fix: use sub- and super-diagonal consistently in the
 spline solver

The tridiagonal solver had the two off-diagonals swapped. It read the
first sub-diagonal and the last super-diagonal element, which are never
set, so the spline coefficients depended on whatever was on the stack.
---
 include/catima/spline.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..8416850 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -84,13 +84,13 @@ std::array<double, N> tridiagonal_matrix<N>::trig_solve(const std::array<double,
     x[0] = b[0]/d[0];
     double bet = d[0];
     for(std::size_t j=1, max=N;j<max;j++){
-        g[j] = c[j-1]/bet;
-        bet = d[j] - (a[j]*g[j]);
+        g[j] = a[j-1]/bet;
+        bet = d[j] - (c[j]*g[j]);
         if(bet == 0.0){
             x.fill(0.0);
             return x;
         }
-        x[j] = (b[j]-a[j]*x[j-1])/bet;
+        x[j] = (b[j]-c[j]*x[j-1])/bet;
     }
     for(int j=N-2;j>=0;j--){
         x[j] -= g[j+1]*x[j+1];
-- 
2.43.0


From e493af71fb0680de473224410db0094369883249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 02/12] fix: keep the calculated energy table index inside the
 table

For energies just below the last table value, including exactly 1e7 MeV/u,
rounding produced an index one past the end of the table.
---
 include/catima/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..78c8747 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -56,7 +56,7 @@ namespace catima{
         
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
-        int i = static_cast<int> (std::floor(lxval/step));
+        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
-- 
2.43.0


From 5d195cce9710f1ed7cbdfd2a0157107bbc4ae698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 03/12] fix: let the spline own its data points

The spline kept a pointer into the vector it was built from. A copied
DataPoint therefore read the vectors of the original after it was
overwritten in the storage.
---
 include/catima/spline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 8416850..d2cd9b9 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -111,7 +111,7 @@ struct cspline_special{
     cspline_special() = default;
 
     const T *table;
-    const double *m_y;
+    std::array<double,N> m_y;
     std::array<double,N> m_a,m_b,m_c;
     double  m_b0, m_c0;
 
@@ -164,9 +164,10 @@ template<typename T>
 cspline_special<T>::cspline_special(const T &x,
                       const std::vector<double>& y,
                       bool boundary_second_deriv
-                      ):table(&x),m_y(y.data())
+                      ):table(&x)
 {
     static_assert (N>2, "N must be > 2");
+    std::copy_n(y.begin(), N, m_y.begin());
     tridiagonal_matrix<N> A{};
     std::array<double, N> rhs;
     for(std::size_t i=1; i<N-1; i++) {
-- 
2.43.0


From 3e110fa7e803dc34706ee845ee449e97b82775f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 04/12] fix: use the requested config for the time of flight

calculate() computed tof with the default config even if another config
was passed.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..72630ca 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From 806c0578d79856abe6e0ddadb62c4fc7fc1e862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 05/12] fix: compare the scattering factor of configs exactly

Configs with scattering factors closer than 1e-3 shared stored data, so a
small factor returned the angular straggling of the previous one.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 72630ca..7176005 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor) return false;
     return true;
     }
 
-- 
2.43.0


From 24026d1b5c6afa2327bf743b9edfc2d7f4ee14d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 06/12] fix: use the projectile energy in catima_range

The energy argument was ignored and the range at zero energy returned.
---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From d0a0875746f30a466baf15bcc3941686ecc804ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 07/12] fix: apply catima_defaults in all C functions

Three functions did not copy the effective charge option, so their result
depended on which other function was called before.
---
 src/cwrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..bf70422 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,8 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
+        catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From fa1771d00d63ea668c38c2f2042ffb52f841a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 08/12] fix: allow appending Layers to itself

Appending to the vector being iterated invalidated the iterators. Space is
now reserved first, so the loop runs over stable elements.
---
 src/structures.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..1ff57c4 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,8 +68,9 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
-      add(m);
+    materials.reserve(materials.size() + l.materials.size());
+    for(std::size_t i=0, n=l.materials.size(); i<n; i++){
+      materials.push_back(l.materials[i]);
     }
 }
 
-- 
2.43.0


From 2b2ddae46b66c1db83e07cfa69430f0f8e717d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 09/12] fix: report failed writes of the mocadi and LS
 coefficient files

A full disk left a truncated file while the caller was told that it was
saved.
---
 include/catima/convert.h | 2 +-
 utils/generator.cpp      | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..bad7111 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -73,7 +73,7 @@ bool save_mocadi(const char* filename, const Projectile p, const Layers &layers,
     }
     fw<<"ERWARTUNGSWERTE\nSAVE\nEND";
     fw.close();
-    return true;
+    return !fw.fail();
 }
 
 #endif
diff --git a/utils/generator.cpp b/utils/generator.cpp
index bfaffea..cde524e 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -131,6 +131,10 @@ int main(){
     file<<"\n}\n"; // end of ls_coefficient namespace
     file<<"\n}\n"; // end of catima namespace
     file.close();
+    if(!file){
+        std::cerr<<"Could not write generated_LS_coeff.h"<<endl;
+        return 1;
+    }
     
     #endif
     
-- 
2.43.0


From f63c6a267f6071a67265e27c146f27fba29f251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:08 +0000
Subject: [PATCH 10/12] Make table and storage sizes adjustable in simulation
 builds

Both sizes can be set at compile time if CATIMA_SIM is defined. The default
build is unchanged.
---
 include/catima/constants.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..c546fdb 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -8,8 +8,20 @@ namespace catima {
 constexpr double Ezero = 1E-3; // lowest E to calculate, below taken as 0
 constexpr double logEmin = -3; // log of minimum energy
 constexpr double logEmax = 7.0;  // log of max energy
+#ifdef CATIMA_SIM
+// reduced sizes for simulation builds
+#ifndef CATIMA_SIM_DATAPOINTS
+#define CATIMA_SIM_DATAPOINTS 600
+#endif
+#ifndef CATIMA_SIM_STORAGE
+#define CATIMA_SIM_STORAGE 60
+#endif
+constexpr int max_datapoints = CATIMA_SIM_DATAPOINTS;
+constexpr int max_storage_data = CATIMA_SIM_STORAGE;
+#else
 constexpr int max_datapoints = 600; // how many datapoints between logEmin and logEmax
 constexpr int max_storage_data = 60; // number of datapoints which can be stored in cache
+#endif
 constexpr double numeric_epsilon = 10*std::numeric_limits<double>::epsilon();
 constexpr double Eout_th_epsilon = 1e-5;  //
 
-- 
2.43.0


From 8143cf6f3e0884122039ef2ca723c16f5b5cb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:39:15 +0000
Subject: [PATCH 11/12] fix: keep a Material unchanged when copying it runs out
 of memory

The assignment copied molar mass, density and thickness before the element
list. If copying the list failed, the target kept its old elements with the
new molar mass. Copying the list first leaves the target as it was.
---
 include/catima/structures.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/structures.h b/include/catima/structures.h
index 3513653..288fea7 100644
--- a/include/catima/structures.h
+++ b/include/catima/structures.h
@@ -69,11 +69,11 @@ namespace catima{
      */
     class Material{
         private:
+            std::vector<Target>atoms; // first: if copying it fails the other members are not yet assigned
             double rho=1e-5;
             double th=0;
             double molar_mass=0;
             double i_potential=0;
-            std::vector<Target>atoms;
 
         public:
             Material(){};
-- 
2.43.0


From a3f07f92c0ca96ceb6ceb6ecdc20fe645f236b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:24 +0000
Subject: [PATCH 12/12] fix: write MOCADI numbers with a decimal point in every
 locale

std::to_string follows the C locale of the program. With a decimal
comma the numbers of the exported file could not be told apart from
the commas between them.
---
 include/catima/convert.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index bad7111..c6daf2d 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -20,6 +20,9 @@
 #include "catima/material_database.h"
 #include <iostream>
 #include <fstream>
+#include <locale>
+#include <sstream>
+#include <string>
 #include <vector>
 #include <algorithm>
 
@@ -46,14 +49,23 @@ int materialdb_id(const Material &m){
     return 0;
 }
 
+// number in the format of std::to_string, but with decimal point in every locale
+inline std::string mocadi_number(double value){
+    std::ostringstream out;
+    out.imbue(std::locale::classic());
+    out.precision(6);
+    out<<std::fixed<<value;
+    return out.str();
+}
+
 bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
     std::ofstream fw;
     fw.open(filename, std::ios::out);
     if (!fw.is_open()) { return false;}
     fw<<"epax 2\natima-1.0\noption listmode root\n";
-    std::string beam = "BEAM\n100000\n" + std::to_string(p.T) + ", 0, " + std::to_string(p.A) + ", " + std::to_string(p.Z) + "\n2\n" +
-                            std::to_string(psx.sigma_x) +  ", " + std::to_string(1000*psx.sigma_a) + ", 0, 0, 0\n2\n" +
-                            std::to_string(psy.sigma_x) + ", " + std::to_string(1000*psy.sigma_a) + ", 0, 0, 0\n1\n0,  0, 0, 0, 0";
+    std::string beam = "BEAM\n100000\n" + mocadi_number(p.T) + ", 0, " + mocadi_number(p.A) + ", " + mocadi_number(p.Z) + "\n2\n" +
+                            mocadi_number(psx.sigma_x) +  ", " + mocadi_number(1000*psx.sigma_a) + ", 0, 0, 0\n2\n" +
+                            mocadi_number(psy.sigma_x) + ", " + mocadi_number(1000*psy.sigma_a) + ", 0, 0, 0\n1\n0,  0, 0, 0, 0";
     fw<<beam;
     int c = 0;
     for (auto& m: layers.get_materials()){
@@ -66,8 +78,8 @@ bool save_mocadi(const char* filename, const Projectile p, const Layers &layers,
         else{
             z = materialdb_id(m);
         }        
-        std::string mstr = "*******\nMATTER\n" + std::to_string(a) + ", " + std::to_string(z) + ", " + std::to_string(m.density()*1000.0) +
-                                    "\n" + "2,"+std::to_string(m.thickness_cm()) + "\n0.\n0.,0.,0.\n1,1,0\n0,0,0,0\n";
+        std::string mstr = "*******\nMATTER\n" + mocadi_number(a) + ", " + std::to_string(z) + ", " + mocadi_number(m.density()*1000.0) +
+                                    "\n" + "2,"+mocadi_number(m.thickness_cm()) + "\n0.\n0.,0.,0.\n1,1,0\n0,0,0,0\n";
         fw<<mstr;        
         c++;
     }
-- 
2.43.0

