/* Reports the current event through every function of the C header; compiled as C. */
#include <stdio.h>
#include <string.h>
#include "cgmfEvents_capi.h"

static void I(FILE *f, const char *n, int v) { fprintf(f, "%s %d\n", n, v); }
static void D(FILE *f, const char *n, double v) { fprintf(f, "%s %.17g\n", n, v); }
static void V(FILE *f, const char *n, int k, double (*g)(int)) {
  int i;
  for (i = -2; i < k + 3; i++) fprintf(f, "%s[%d] %.17g\n", n, i, g(i));
}
void capi_dump(FILE *f) {
  int n = cgmf_getnnu(), g = cgmf_getgnu(), p = cgmf_getprennu();
  I(f, "nu", n); I(f, "nug", g); I(f, "npre", p);
  V(f, "nE", n, cgmf_getnerg); V(f, "nu", n, cgmf_getndircosu); V(f, "nv", n, cgmf_getndircosv); V(f, "nw", n, cgmf_getndircosw); V(f, "nt", n, cgmf_getntme);
  V(f, "cE", n, cgmf_getcmnerg); V(f, "cu", n, cgmf_getcmndircosu); V(f, "cv", n, cgmf_getcmndircosv); V(f, "cw", n, cgmf_getcmndircosw);
  V(f, "gE", g, cgmf_getgerg); V(f, "gu", g, cgmf_getgdircosu); V(f, "gv", g, cgmf_getgdircosv); V(f, "gw", g, cgmf_getgdircosw); V(f, "gt", g, cgmf_getgtme);
  V(f, "pE", p, cgmf_getprenerg); V(f, "pu", p, cgmf_getprendircosu); V(f, "pv", p, cgmf_getprendircosv); V(f, "pw", p, cgmf_getprendircosw);
  I(f, "lA", cgmf_getlfmass()); I(f, "lZ", cgmf_getlfcharge()); D(f, "lKE", cgmf_getlfke()); D(f, "lKEp", cgmf_getlfkepost()); D(f, "lU", cgmf_getlfu()); D(f, "lJ", cgmf_getlfspin());
  I(f, "lP", cgmf_getlfparity()); I(f, "lnu", cgmf_getlfnnu()); I(f, "lnug", cgmf_getlfgnu());
  D(f, "lu", cgmf_getlfdircosu()); D(f, "lv", cgmf_getlfdircosv()); D(f, "lw", cgmf_getlfdircosw());
  D(f, "lpx", cgmf_getlfpremomentum_x()); D(f, "lpy", cgmf_getlfpremomentum_y()); D(f, "lpz", cgmf_getlfpremomentum_z());
  D(f, "lqx", cgmf_getlfpostmomentum_x()); D(f, "lqy", cgmf_getlfpostmomentum_y()); D(f, "lqz", cgmf_getlfpostmomentum_z());
  I(f, "hA", cgmf_gethfmass()); I(f, "hZ", cgmf_gethfcharge()); D(f, "hKE", cgmf_gethfke()); D(f, "hKEp", cgmf_gethfkepost()); D(f, "hU", cgmf_gethfu()); D(f, "hJ", cgmf_gethfspin());
  I(f, "hP", cgmf_gethfparity()); I(f, "hnu", cgmf_gethfnnu()); I(f, "hnug", cgmf_gethfgnu());
  D(f, "hu", cgmf_gethfdircosu()); D(f, "hv", cgmf_gethfdircosv()); D(f, "hw", cgmf_gethfdircosw());
  D(f, "hpx", cgmf_gethfpremomentum_x()); D(f, "hpy", cgmf_gethfpremomentum_y()); D(f, "hpz", cgmf_gethfpremomentum_z());
  D(f, "hqx", cgmf_gethfpostmomentum_x()); D(f, "hqy", cgmf_gethfpostmomentum_y()); D(f, "hqz", cgmf_gethfpostmomentum_z());
}
/* directions after emission have no C++ accessor; judged against the momenta */
void capi_post(double d[2][3]) {
  d[0][0] = cgmf_getpostlfdircosu(); d[0][1] = cgmf_getpostlfdircosv(); d[0][2] = cgmf_getpostlfdircosw();
  d[1][0] = cgmf_getposthfdircosu(); d[1][1] = cgmf_getposthfdircosv(); d[1][2] = cgmf_getposthfdircosw();
}
void capi_gen(int z, double e, double t, double w) { cgmf_genfissevent(z, e, t, w); }
void capi_yields(int z, double e, int n, const char *f) { cgmf_genfissyields(z, e, n, f); }
void capi_clean(void) { cgmf_clean(); }
void capi_rng(double (*g)(void)) { setrngdptr(g); }
int capi_path(const char *p) { setdatapath(p); return checkdatapath(p); }
void capi_cgm(int z, double e, int *ng, double *g, int *nn, double *n) { cgm(z, e, ng, g, nn, n); }
