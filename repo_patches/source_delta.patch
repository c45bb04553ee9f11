From b4419cc4151a636221038e6d16e559ba19d7ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:38 +0000
Subject: [PATCH 01/29] fix: stop searching the discrete-level index at its
 last entry

A nucleus that is not in the level file made the search read one element
past the end of the index before falling back to its default ground state.
---
 libcgmf/src/ripl2levels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..8e2510f 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -224,7 +224,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
-- 
2.43.0


From eb534f87bafab078fbf98f018a30d6bfe7a332f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:46 +0000
Subject: [PATCH 02/29] fix: do not sample a fission chance whose residue is
 below its barrier

Near the opening of second-chance fission the sampled number of pre-fission
neutrons could leave the residual nucleus below its barrier; the neutron was
then emitted with no energy assigned to it and without being charged against
the excitation energy, so the event gained the neutron separation energy.
---
 libcgmf/src/FissionFragments.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..597b552 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5330,7 +5330,8 @@ int FissionFragments::getNumberPrefissionNeutrons(void) {
    int n;
    do { // Sample a number of pre-fission neutrons to emit
 	n = (int) floor(rng_cgm()*(nemit + 1));
-   } while (emissprob[n] < emissprob_max*rng_cgm());
+	// (a chance whose residual nucleus is left below its fission barrier is closed)
+   } while (emissprob[n] < emissprob_max*rng_cgm() || (n > 0 && ncl[n].excitation[0] < barrier[n]));
 
    return n;
 
-- 
2.43.0


From 4802966145e82ab292f7a4d548c1b84eb2516f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:05 +0000
Subject: [PATCH 03/29] fix: keep the first pre-fission neutron's energy
 positive

When only the lowest bin of the spectrum is open the in-bin perturbation could
make the energy negative and every momentum of the event NaN; apply the trap
that the later pre-fission neutrons already have.
---
 libcgmf/src/FissionFragments.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 597b552..25f335d 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5383,6 +5383,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     } while (sp1[kf] < max_prob*rng_cgm());
 
     cmEnergy_pfn[0] = energy_grid1[kf] + 0.5*ENERGY_BIN*(1-2*rng_cgm()); // Continuum-to-continuum energy transfer
+    if (cmEnergy_pfn[0] <= 0.) cmEnergy_pfn[0] = 1e-10; // lowest bin: same trap as for the later neutrons below
 
     // if the neutron was pre-equilibrium, construct the CDF for the angular sampling
     double Eexc = ncl[1].excitation[kf];
-- 
2.43.0


From 7462dd351959a967770fe92a3e33fd93ac225f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:33 +0000
Subject: [PATCH 04/29] fix: apply each event's own time coincidence window

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..7e00f71 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -388,8 +388,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew>0.0 ? timew : -1.0); // this event's window, not the first event's
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From 2f8b1c44eb0252429fdd832b64bbb1c03e210ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:33 +0000
Subject: [PATCH 05/29] fix: check particle multiplicities before storing the
 particles

---
 libcgmf/src/specmc.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..c8fcf47 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -67,7 +67,7 @@ void set_time_coincidence_window(double timew){
   time_coincidence_window=timew;
 }
 
-double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
+double gammaTimeStamp [ MAX_CASCADE ]; // indexed by position in the decay history, like hs[]
 
 /*!
  *
@@ -909,7 +909,7 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	double cmGammaEnergies    [MAX_NUMBER_GAMMAS];
 	double gammaEnergies      [MAX_NUMBER_GAMMAS];
 	double timeStamp          [MAX_NUMBER_GAMMAS];
-	double icEnergies		      [MAX_NUMBER_PARTICLES];
+	double icEnergies		      [MAX_CASCADE];
 	
 	int neutronMultiplicity=0;
 	int gammaMultiplicity=0;
@@ -933,8 +933,10 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
     mc_curr = hs[i].getMCPoint();
     mc_next = hs[i+1].getMCPoint();
     if (index==1) { // neutrons
+      if (neutronMultiplicity==MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
       cmNeutronEnergies[neutronMultiplicity++] = hs[i].getEnergy();
     } else if (index==0) { // gammas (no IC)
+      if (gammaMultiplicity==MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
       if (mc_curr.ifDiscrete()) {
 	timeStamp[gammaMultiplicity] = gammaTimeStamp[i]; // discrete-to-discrete
       }
@@ -947,9 +949,6 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	fe->nu  = neutronMultiplicity;
 	fe->nug = gammaMultiplicity;
 	
-	if (neutronMultiplicity>MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
-	if (gammaMultiplicity>MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
-	
 	double Vn[MAX_NUMBER_NEUTRONS][3];
 	double Vg[MAX_NUMBER_GAMMAS][3];
 	double cmVn[MAX_NUMBER_NEUTRONS][3];
-- 
2.43.0


From ac38acd9ffeb081aa910bfd75c6c415ef1a16296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:26 +0000
Subject: [PATCH 06/29] fix: fail when a data file cannot be opened

---
 libcgmf/src/FissionFragments.cpp | 3 +++
 libcgmf/src/Yields.cpp           | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 25f335d..368e4d6 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4677,6 +4677,7 @@ void readAnisotropy (void) {
       fp.open(&str[0]);
    }
 
+   if (!fp) cgmTerminateCode("anisotropy data file not found");
 
    while(getline(fp,line)){
       if(line[0] != '#') break;
@@ -4724,6 +4725,8 @@ void readPreEqAngularDistributionParameters (void) {
     str = datadir + str;
     fp.open(&str[0]);
   }
+
+  if (!fp) cgmTerminateCode("pre-equilibrium angular distribution data file not found");
  
   i=0;
   j=0;
diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index fc3d91c..a6a983c 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -129,7 +129,7 @@ void Yields::setYieldParameters(void) {
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
     if (!gaussfit.is_open()) {
-    	cerr << "The file " << GaussData << " was not found" << endl; exit(0);
+    	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
@@ -268,7 +268,7 @@ void Yields::setTKEParameters(void) {
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
     if (!tkefit.is_open()) {
-    	cerr << "The file " << TKEData << " was not found" << endl; exit(0);
+    	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
-- 
2.43.0


From 9a5afb84cdcc9582fde5738ae9670abace36d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:26 +0000
Subject: [PATCH 07/29] fix: check the reaction in yields mode too

---
 libcgmf/include/cgmfEvents.h | 2 +-
 libcgmf/src/cgmfEvents.cpp   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..1cf73f9 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -234,11 +234,11 @@ protected:
 	double* preFissionNeutronAges;
 
 	void allocateMemory();
+	void checkInput (int, double);
 
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 7e00f71..78655ee 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -534,6 +534,8 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
+
+	checkInput (isotope, eng);
 	
 	lf = new fissionFragmentType [nevents];
 	hf = new fissionFragmentType [nevents];
-- 
2.43.0


From 51c83ce4e2b5eb887b003b3fcebe17d0277738b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:42 +0000
Subject: [PATCH 08/29] fix: let several events exist at the same time

---
 libcgmf/src/terminate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/terminate.cpp b/libcgmf/src/terminate.cpp
index 1290704..64f0b91 100644
--- a/libcgmf/src/terminate.cpp
+++ b/libcgmf/src/terminate.cpp
@@ -60,7 +60,8 @@ int cgmTerminateCode(std::string msg, double x)
 void cgmDeleteAllocated()
 {
 	delete [] ncl;
-	for(int i=0 ; i<SPECTRA_OUTPUT ; i++) delete [] spc[i];
+	ncl = NULL;
+	for(int i=0 ; i<SPECTRA_OUTPUT ; i++){ delete [] spc[i]; spc[i] = NULL; }
 }
 
 
@@ -69,6 +70,8 @@ void cgmDeleteAllocated()
 /**********************************************************/
 void cgmAllocateMemory()
 {
+	cgmDeleteAllocated(); // another event may still hold the work space
+
 	try{
 		/*** compound nucleus */
 		ncl = new Nucleus [MAX_COMPOUND];
-- 
2.43.0


From b51fe0e916ee0c3090fd7011fe12bce833807e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:42 +0000
Subject: [PATCH 09/29] fix: allow new events after the library tables were
 released

---
 libcgmf/src/FissionFragments.cpp | 1 +
 libcgmf/src/cgmfEvents.cpp       | 1 +
 libcgmf/src/ripl2levels.cpp      | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 368e4d6..deb9886 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -2006,6 +2006,7 @@ void readRTA (void) {
 void cleanupRTA (void) {
 
     delete [] RTAdata;
+    RTAdata = NULL;
 
     return;
 }
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 78655ee..4c41e78 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -649,5 +649,6 @@ void cgmf_cleanup(void) {
   riplDiscreteLevelsCleanup();
   cleanupRTA();
   specMCcleanup();
+  firstcalc = true; // a later event has to read the data again
 }
 
diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 8e2510f..3665fe1 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -555,6 +555,11 @@ void riplDiscreteLevelsCleanup()
 	delete [] zaidIndex;
 	delete [] numberLevels;
 
+	allLevels = NULL;
+	zaidIndex = NULL;
+	numberLevels = NULL;
+	NUM_NUCLEI = 0;
+
 }
 
 #ifdef DEVUTIL
-- 
2.43.0


From 9b1f79e11da5ba28eb1f3ae314813a163e0e0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:55 +0000
Subject: [PATCH 10/29] fix: make default-constructed events and yields
 destructible

---
 libcgmf/src/cgmfEvents.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 4c41e78..f644dab 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -358,6 +358,9 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 
 
 cgmfEvent::cgmfEvent () {
+  neutronNu = 0; // no particles: the destructor must not release any
+  photonNu  = 0;
+  preFissionNeutronNu = 0;
   initialization();
   cgmAllocateMemory();
   return;
@@ -575,6 +578,10 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	return;
 }
 
+cgmfYields::~cgmfYields () {
+  return;
+}
+
 
 /*! 
 
-- 
2.43.0


From 4acae4bf41027105e186786f3cbfe97d85ded390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:55 +0000
Subject: [PATCH 11/29] fix: forget the event released by cgmf_clean

---
 libcgmf/src/cgmfEvents_capi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index e9de84f..09ded3c 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -164,6 +164,7 @@ double cgmf_getgtme(int i) {
 */
 void cgmf_clean() {
   if (cgmf_fevent != 0) delete cgmf_fevent;
+  cgmf_fevent = 0;
 //  riplDiscreteLevelsCleanup();
 }
 
-- 
2.43.0


From 593ccbbbb6b507f9021b3f8fd821a46389f84f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:23 +0000
Subject: [PATCH 12/29] fix: set the fragment directions

---
 libcgmf/src/cgmfEvents.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index f644dab..cba49fc 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -419,6 +419,13 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventLF.KE = lf[0].KE;
   for (int i=0; i<3; i++) eventLF.preFragmentMomentum[i] = lf[0].preMomentum[i];
 
+  norm = 0.0; // direction of the fragment (before neutron emission)
+  for (int i=0; i<3; i++) norm += eventLF.preFragmentMomentum[i]*eventLF.preFragmentMomentum[i];
+  norm = sqrt(norm);
+  eventLF.fragmentDircosu = eventLF.preFragmentMomentum[0]/norm;
+  eventLF.fragmentDircosv = eventLF.preFragmentMomentum[1]/norm;
+  eventLF.fragmentDircosw = eventLF.preFragmentMomentum[2]/norm;
+
   specMCMainFission (&eventLF);
 
   //-- heavy fragment calc. --------------------------------------------------
@@ -431,6 +438,13 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventHF.KE = hf[0].KE;
   for (int i=0; i<3; i++) eventHF.preFragmentMomentum[i] = hf[0].preMomentum[i];
 
+  norm = 0.0; // direction of the fragment (before neutron emission)
+  for (int i=0; i<3; i++) norm += eventHF.preFragmentMomentum[i]*eventHF.preFragmentMomentum[i];
+  norm = sqrt(norm);
+  eventHF.fragmentDircosu = eventHF.preFragmentMomentum[0]/norm;
+  eventHF.fragmentDircosv = eventHF.preFragmentMomentum[1]/norm;
+  eventHF.fragmentDircosw = eventHF.preFragmentMomentum[2]/norm;
+
   specMCMainFission (&eventHF);
 
   neutronNu = eventLF.nu + eventHF.nu;
-- 
2.43.0


From 3cde7270460288e564385e93babf9319deb5b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:44 +0000
Subject: [PATCH 13/29] fix: define every function the C header declares

---
 libcgmf/include/cgmfEvents_capi.h |  2 +-
 libcgmf/src/cgmfEvents_capi.cpp   | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/libcgmf/include/cgmfEvents_capi.h b/libcgmf/include/cgmfEvents_capi.h
index 4ec7007..040a03c 100644
--- a/libcgmf/include/cgmfEvents_capi.h
+++ b/libcgmf/include/cgmfEvents_capi.h
@@ -24,7 +24,7 @@ void setdatapath (const char*);
 
 void   cgm(int, double, int*, double [], int*, double []);
 void   cgmf_genfissevent(int, double, double, double);
-void   cgmf_genfissyields(int, double, int);
+void   cgmf_genfissyields(int, double, int, const char*);
 
 int    cgmf_getnnu();
 double cgmf_getnerg(int);
diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index 09ded3c..e369bfc 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -11,6 +11,7 @@
  */
 
 #include <string>
+#include <cmath>
 
 #include "cgmfEvents_capi.h"
 #include "cgmfEvents.h"
@@ -73,10 +74,11 @@ spin and parity.
 \param za: ZAID of target nucleus
 \param erg: energy of the incident particle in the laboratory frame, in MeV
 \param nevents: number of fission events to generate
+\param outfilename: name of the file the yields are written to
 
 */
-void cgmf_genfissyields (int za, double erg, int nevents, string outfilename) {
-  cgmf_yields = new cgmfYields (za, erg, nevents, outfilename);
+void cgmf_genfissyields (int za, double erg, int nevents, const char* outfilename) {
+  cgmf_yields = new cgmfYields (za, erg, nevents, string(outfilename));
 }
 
 /*!
@@ -230,3 +232,14 @@ double cgmf_gethfpostmomentum_y () { return cgmf_fevent->getHeavyFragmentPostMom
 double cgmf_getlfpostmomentum_z () { return cgmf_fevent->getLightFragmentPostMomentumZ (); }
 double cgmf_gethfpostmomentum_z () { return cgmf_fevent->getHeavyFragmentPostMomentumZ (); }
 
+
+// directional cosines of the fragments after neutron emission
+static double dircos (double p, double px, double py, double pz) { return p/sqrt(px*px+py*py+pz*pz); }
+
+double cgmf_getpostlfdircosu() { return dircos(cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z()); }
+double cgmf_getpostlfdircosv() { return dircos(cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z()); }
+double cgmf_getpostlfdircosw() { return dircos(cgmf_getlfpostmomentum_z(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z()); }
+
+double cgmf_getposthfdircosu() { return dircos(cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z()); }
+double cgmf_getposthfdircosv() { return dircos(cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z()); }
+double cgmf_getposthfdircosw() { return dircos(cgmf_gethfpostmomentum_z(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z()); }
-- 
2.43.0


From e8ead1b078835ed27f877e8db348a325ffbe3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:44 +0000
Subject: [PATCH 14/29] fix: handle zero events and an output file that cannot
 be opened

---
 utils/cgmf/cgmf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..241ab76 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -86,6 +86,7 @@ int main(int argc, char *argv[]) {
     }
   } else {
     FILE *fp = fopen(&outfilename[0],"w");
+    if (fp == NULL) { cerr << "ERROR: cannot open the output file " << outfilename << endl; exit(-1); }
     if(ip==0) fprintf(fp, "# %5i %g %g\n", ZAIDt, incidentEnergy,timeCoincidenceWindow);
     for (int i=0; i<nevents; i++) {
       rng.set_seed(i+ip*nevents+startingEvent);
@@ -97,7 +98,7 @@ int main(int argc, char *argv[]) {
       printEventToFile (fp, event, timeCoincidenceWindow);
     }
     fclose(fp);
-    printSummaryEvents (event);
+    if (event != 0) printSummaryEvents (event); // no events, no averages
   }
 
   cgmf_cleanup();
-- 
2.43.0


From 9af307d3a9054f0c906a721f5e684b78e0372307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 15/29] fix: fail when the yields file cannot be opened

---
 libcgmf/src/cgmfEvents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index cba49fc..3b231ab 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -563,6 +563,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	// save fission yields
 	ofstream of;
 	of.open (&outfilename[0]);
+	if (!of) { cerr << "ERROR: cannot open the yields file " << outfilename << endl; exit(-1); }
 	//for (int i=0; i<nevents; i++) {
 	//	of << lf[i].Z << " " << lf[i].A << " " << lf[i].KE << " " << lf[i].U << " " << lf[i].spin << " " << lf[i].parity << endl;
 	//	of << hf[i].Z << " " << hf[i].A << " " << hf[i].KE << " " << hf[i].U << " " << hf[i].spin << " " << hf[i].parity << endl;
-- 
2.43.0


From 7384145c2180a81d4ff2e8306b535b9a6c1bb58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 16/29] fix: CGMFtk reads histories whose fragments all emit
 the same number of particles

---
 tools/CGMFtk/histories.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..902cfe6 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -153,6 +153,13 @@ class Histories:
 		self.KEh = self.KEpre[1::2]
 
 
+	def _listOfLists (self,lists):
+		""" Returns a one-dimensional array whose elements are the given lists, whatever their lengths """
+		a = np.empty(len(lists),dtype=object)
+		for i in range(len(lists)):
+			a[i] = lists[i]
+		return (a)
+
 	def _readHistoryFileFromCGMF (self,filename,nevents):
 		""" Reads CGMF history file (filename) and returns a list of simulations """
 
@@ -362,15 +369,15 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		cmNeutronEnergies=self._listOfLists(cmNeutronEnergies)
+		labNeutronEnergies=self._listOfLists(labNeutronEnergies)
+		cmGammaEnergies=self._listOfLists(cmGammaEnergies)
+		labGammaEnergies=self._listOfLists(labGammaEnergies)
+		photonAges=self._listOfLists(photonAges)
+		cmNeutronDircos=self._listOfLists(cmNeutronDircos)
+		labNeutronDircos=self._listOfLists(labNeutronDircos)
+		labPreFissionNeutronEnergies=self._listOfLists(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=self._listOfLists(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
-- 
2.43.0


From 3a3fd8c07191314f8c2dc4d5025e7d4612120100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 17/29] fix: CGMFtk P(nu) with an energy threshold

---
 tools/CGMFtk/histories.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 902cfe6..d8534ba 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -338,9 +338,6 @@ class Histories:
 					for i in range(npn):
 						labDpren.append(np.array([float(data[0+i*4]),float(data[1+i*4]),float(data[2+i*4])]))
 						labEpren.append(float(data[3+i*4]))
-				else:
-					labDpren.append(np.array([0.0,0.0,0.0]))
-					labEpren.append(0.0)
 
 			#-- store in final list for output
 			
@@ -833,8 +830,7 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
+			nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
 			for x in nE:
 				x = np.array(x)
 				nutot.append(len(x[x>=Eth]))
-- 
2.43.0


From d9e4376871e8603196f41c5de408ddb30bf9f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 18/29] fix: CGMFtk accepts an array of times for the gamma
 multiplicity

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index d8534ba..4ec94fb 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -632,7 +632,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -686,7 +686,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From b530bac982c840b4b7d2a37657ea4cd23fe048bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 19/29] fix: CGMFtk keeps the last mass and the last TKE bin

---
 tools/CGMFtk/histories.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 4ec94fb..8b86b07 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -890,7 +890,7 @@ class Histories:
 		spinA -- spin
 		TKEA -- total kinetic energy
 		"""
-		xA = np.arange(np.min(self.A),np.max(self.A))
+		xA = np.arange(np.min(self.A),np.max(self.A)+1)
 		nA = np.size(xA)
 		yA = np.zeros(nA)
 		if (quantity=='nuA'):
@@ -966,7 +966,7 @@ class Histories:
 		UTKE -- excitation energy
 		spinTKE -- spin (J)
 		"""
-		xTKE = np.arange(np.min(self.TKEpre),np.max(self.TKEpre))
+		xTKE = np.arange(np.min(self.TKEpre),np.max(self.TKEpre)+1.0)
 		nTKE = np.size(xTKE)
 		yTKE = np.zeros(nTKE)
 		if (quantity=='nuTKE'):
@@ -991,8 +991,8 @@ class Histories:
 				TKE.append(x)
 				TKE.append(x)
 			TKE = np.array(TKE)
-		for i in range(nTKE-1):
-			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i+1])]
+		for i in range(nTKE):
+			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i]+1.0)]
 			if (r.size):
 				yTKE[i]=np.mean(r)
 			else:
-- 
2.43.0


From 41ef017eed363e5dc1a0d5bf44cab0b350a3fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 20/29] fix: CGMFtk U(TKE) and spin(TKE)

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 8b86b07..4a6b333 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -977,7 +977,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -985,7 +985,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From 4778304a1f80376a5d812cf75dfd33cdf01dabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 21/29] fix: CGMFtk does not pair a neutron with itself

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 4a6b333..1896480 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1323,13 +1323,13 @@ class Histories:
 		c = 0
 		for i in range(len(nLF)):
 			for j in range(nLF[i]):
-				for k in range(j,nLF[i]):
+				for k in range(j+1,nLF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosLF.append(tempcos)
 					nncosAll.append(tempcos)
 			c=c+1
 			for j in range(nHF[i]):
-				for k in range(j,nHF[i]):
+				for k in range(j+1,nHF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosHF.append(tempcos)
 					nncosAll.append(tempcos)
-- 
2.43.0


From 059dbfc6d199079699f67290443653b2e9ca5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 22/29] fix: CGMFtk neutron angles when a fragment class emits
 no neutrons

---
 tools/CGMFtk/histories.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 1896480..2dcdd95 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1182,9 +1182,9 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
+		ncosLight = np.array(ncosLight).reshape((-1,3))
+		ncosHeavy = np.array(ncosHeavy).reshape((-1,3))
+		ncosAll = np.array(ncosAll).reshape((-1,3))
 
 		ncosAll = ncosAll[nEAll>=Eth][:,2]
 		ncosLight = ncosLight[nELight>=Eth][:,2]
@@ -1279,12 +1279,12 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
-		FcosLight = np.array(FcosLight)
-		FcosHeavy = np.array(FcosHeavy)
-		FcosAll = np.array(FcosAll)
+		ncosLight = np.array(ncosLight).reshape((-1,3))
+		ncosHeavy = np.array(ncosHeavy).reshape((-1,3))
+		ncosAll = np.array(ncosAll).reshape((-1,3))
+		FcosLight = np.array(FcosLight).reshape((-1,3))
+		FcosHeavy = np.array(FcosHeavy).reshape((-1,3))
+		FcosAll = np.array(FcosAll).reshape((-1,3))
 
 		nFcosAll = ncosAll[nEAll>=Eth]*FcosAll[nEAll>=Eth]
 		nFcosAll = np.sum(nFcosAll,axis=1)
-- 
2.43.0


From 164d5950797b4079b6b378471009160edfa37e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:00 +0000
Subject: [PATCH 23/29] fix: CGMFtk gammaSpec accepts lists of resolutions

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 2dcdd95..24e08fd 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1365,7 +1365,7 @@ class Histories:
 		eglist = np.array(Egamma)
 		deglist = np.array(dEgamma)
 
-		if np.any(eglist<0.) or np.any(dEgamma<0.):
+		if np.any(eglist<0.) or np.any(deglist<0.):
 			print("Gamma-ray energies and/or resolutions should be positive...")
 			return
 
-- 
2.43.0


From 3837db970e0eaa9f20523e9a3cec006775d2c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:52 +0000
Subject: [PATCH 24/29] fix: CGMFtk reads a history without events

---
 tools/CGMFtk/histories.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 24e08fd..a71e9a5 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -71,8 +71,6 @@ class Histories:
 		self.KEpre = self.histories[:,5].astype(np.float64)
 		self.KEpost = self.histories[:,24].astype(np.float64)
 
-		numDataOut = len(self.histories[0,:])
-
 		# neutron multiplicities
 		self.nu    = self.histories[:,6].astype(int)
 		self.nuLF  = self.nu[::2]
-- 
2.43.0


From 1de72c334983165d79d0d2ad0297dc4292327a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:07 +0000
Subject: [PATCH 25/29] fix: refuse a window or an energy that is not a number

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 utils/cgmf/cgmf.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 3b231ab..a5bb843 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -613,7 +613,7 @@ void cgmfEvent::checkInput (int isotope, double einc) {
 
   if (not found) { cerr << "ERROR: Isotope not handled by CGMF or wrong incident energy\n"; exit(-1); }
   if (isotope<0 and einc!=0.0) { cerr << "ERROR: Only spontaneous fission is handled for this isotope\n"; exit(-1); }
-  if (isotope>0 and (einc>20.0 or einc<=0.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
+  if (isotope>0 and not (einc>0.0 and einc<=20.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
 
   return;
 
diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index 241ab76..8273054 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -412,7 +412,7 @@ void readUserInput (int argc, char *argv[], int ip) {
   }
   outfilename += "."+sip.str();
 
-  if(timeCoincidenceWindow<0.){
+  if(!(timeCoincidenceWindow>=0.)){
     if(timeCoincidenceWindow!=-1.){
       cerr << "The time coincidence window can only be -1 (infinite time coincidence window) or positive" << endl;
       cerr << "Execution terminated" << endl;
-- 
2.43.0


From 2d726a5df949bb367a0c0c6c9dd9ebe2a3682d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:00 +0000
Subject: [PATCH 26/29] fix: refuse negative target numbers

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index a5bb843..9a947ed 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -603,7 +603,7 @@ cgmfYields::~cgmfYields () {
 */
 void cgmfEvent::checkInput (int isotope, double einc) {
 
-  if (einc==0.0) isotope=-abs(isotope); // to ensure negative value
+  if (einc==0.0) isotope=-isotope; // spontaneous fission is listed with a negative value
 
   int allowedIsotopes[] = {-94238,-94240,-94242,-94244,-98252,-98254,92233,92234,92235,92238,93237,94239,94241};
   int numIsotopes = sizeof(allowedIsotopes)/sizeof(int);
-- 
2.43.0


From 1a76ee8e8d9a76c5b373f828c334c2c1b1ec6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 27/29] fix: later pre-fission neutrons could get a negative
 energy

A neutron of the lowest energy bin of the evaporation spectrum (second and later pre-fission neutron) got the
bin's smearing subtracted and a negative energy, hence NaN velocities. Use the same trap as for the first one.
---
 libcgmf/src/FissionFragments.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index deb9886..faf7592 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5466,6 +5466,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
 	if (kf<0) cout << i << " nemit_now=" << n << " kstart=" << kstart << " kf=" << kf << endl;
 
 	cmEnergy_pfn[i-1] = tc[kf].ecms + 0.5*ENERGY_BIN*(1-2*rng_cgm());
+	if (cmEnergy_pfn[i-1] <= 0.) cmEnergy_pfn[i-1] = 1e-10; // lowest bin, as for the first neutron
 	kstart = kf;
 
     }
-- 
2.43.0


From 5712b64755d313cdc7663e90aedf436f50e443d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:21 +0000
Subject: [PATCH 28/29] fix: level files with more nuclei than the table
 overran it

readDiscreteLevelData() did not check the number of nuclei against MAX_NUCLEI.
---
 libcgmf/src/ripl2levels.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 3665fe1..6f29b38 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -117,6 +117,8 @@ void readDiscreteLevelData () {
 			cgmTerminateCode(os.str());
 		}
 
+		if(c >= MAX_NUCLEI) cgmTerminateCode("too many nuclei in the CGMF discrete level database");
+
 		zaidIndex[c] = zaid;
 		numberLevels[c] = nol;
 		allLevels[c] = new Level [nol];
-- 
2.43.0


From 274f35d94fa039ab48f574901eccd59b0a4e1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:03 +0000
Subject: [PATCH 29/29] fix: fragment anisotropy was ignored at incident
 energies that are not multiples of 0.5 MeV

The energy rounded to a tenth in single precision was compared for equality
with the double-precision grid point, which holds only for values that are
exact in binary. Compare the grid indices instead.
---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index faf7592..2615dbc 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4792,7 +4792,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (roundf(incidentEnergy0*10) == roundf(anisotropy[0][j]*10)) { // nearest grid point, compared in whole steps
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0

