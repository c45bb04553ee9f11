/* A stand-in for the library's event generator, with the public interface of cgmfEvents.h: events of prescribed shape with
   known contents.  The real driver (utils/cgmf/cgmf.cpp) is compiled against it, so that every shape of event can be put
   through its bookkeeping and output.  Every event is logged as one JSON line.
   FAKE_SHAPES: file with one line "nl nh gl gh npre" per event, taken in turn; without it, the shape and the contents are
   functions of the random number generator the driver has set.  FAKE_LOG: the log. */
#ifndef FAKE_CGMFEVENTS_H
#define FAKE_CGMFEVENTS_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
#include "config-ff.h"

extern std::function<double(void)> rng_cgm;
std::function<double(void)> rng_cgm __attribute__((weak));

inline int checkdatapath(std::string) { return 0; }
inline void setdatapath(std::string) {}
inline void cgmf_cleanup(void) {}
inline void set_rng(std::function<double(void)> f) { rng_cgm = f; }
inline void set_rng(double (*f)(void)) { rng_cgm = f; }

struct FakeEvent {
  struct P { double e, u, v, w, age; };
  struct F { int A, Z, par, nu, nug; double U, KE, KEp, pre[3], post[3], d[3]; float J; } f[2];
  std::vector<P> n, c, g, p;
  uint64_t s;
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11; }
  double uni(double a, double b) { return a + (b - a) * (double(next()) / 9007199254740992.0); }
  int in(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
  P part(double emax, bool aged) {
    P x;
    int k = in(0, 9);
    x.e = k == 0 ? uni(0, 1e-6) : (k == 1 ? uni(emax, 12 * emax) : uni(0, emax));
    x.u = uni(-1, 1); x.v = uni(-1, 1); x.w = uni(-1, 1);
    k = in(0, 4);
    x.age = !aged || k == 0 ? 0. : (k == 1 ? uni(0, 1e-14) : (k == 2 ? uni(0, 3e5) : uni(0, 1e-7)));
    return x;
  }
  FakeEvent() {}
  void make(int zaid, double e, double t, double w) {
    static int index = 0;
    int sh[5];
    double first = rng_cgm ? rng_cgm() : 0.;
    const char *fn = getenv("FAKE_SHAPES");
    s = fn ? 88172645463325252ULL + 7919ULL * index : uint64_t(first * 9007199254740992.0) | 1;
    for (int i = 0; i < 20; i++) next();
    if (fn) {
      static std::vector<std::vector<int> > all;
      if (all.empty()) {
        FILE *fp = fopen(fn, "r");
        std::vector<int> v(5);
        while (fp && fscanf(fp, "%d %d %d %d %d", &v[0], &v[1], &v[2], &v[3], &v[4]) == 5) all.push_back(v);
        if (fp) fclose(fp);
      }
      for (int i = 0; i < 5; i++) sh[i] = all[index % all.size()][i];
    } else {
      for (int i = 0; i < 5; i++) sh[i] = in(0, i < 2 ? 3 : (i < 4 ? 6 : 2));
    }
    for (int i = 0; i < 2; i++) {
      f[i].A = in(i ? 120 : 70, i ? 170 : 120); f[i].Z = in(i ? 46 : 28, i ? 66 : 46); f[i].par = in(0, 1) ? 1 : -1;
      f[i].nu = sh[i]; f[i].nug = sh[2 + i];
      f[i].U = uni(0, in(0, 5) ? 40 : 1e-3); f[i].KE = uni(20, 120); f[i].KEp = uni(20, 120); f[i].J = in(0, 98) / 2.f;
      for (int k = 0; k < 3; k++) { f[i].pre[k] = uni(-5000, 5000); f[i].post[k] = uni(-5000, 5000); f[i].d[k] = uni(-1, 1); }
    }
    for (int i = 0; i < sh[0] + sh[1]; i++) { n.push_back(part(4, false)); c.push_back(part(3, false)); }
    for (int i = 0; i < sh[2] + sh[3]; i++) g.push_back(part(2, true));
    for (int i = 0; i < sh[4]; i++) p.push_back(part(9, false));
    index++;
    const char *lg = getenv("FAKE_LOG");
    FILE *fp = lg ? fopen(lg, "a") : NULL;
    if (!fp) return;
    fprintf(fp, "{\"fate\":\"ok\",\"args\":[%d,%.17g,%.17g,%.17g],\"draw\":%.17g", zaid, e, t, w, first);
#define TWO(key, fmt, x) fprintf(fp, ",\"" key "\":[" fmt "," fmt "]", f[0].x, f[1].x)
    TWO("A", "%d", A); TWO("Z", "%d", Z); TWO("par", "%d", par); TWO("U", "%.17g", U); TWO("J", "%.9g", J); TWO("KE", "%.17g", KE); TWO("KEp", "%.17g", KEp);
    TWO("nuf", "%d", nu); TWO("nugf", "%d", nug);
#undef TWO
    fprintf(fp, ",\"nu\":%d,\"nug\":%d,\"npre\":%d", sh[0] + sh[1], sh[2] + sh[3], sh[4]);
    for (int h = 0; h < 2; h++) {
      fprintf(fp, ",\"%s\":[", h ? "post" : "pre");
      for (int i = 0; i < 2; i++) { double *q = h ? f[i].post : f[i].pre; fprintf(fp, "%s[%.17g,%.17g,%.17g]", i ? "," : "", q[0], q[1], q[2]); }
      fprintf(fp, "]");
    }
    dump(fp, n, "nE", "nu_", "nv", "nw", NULL); dump(fp, c, "cE", "cu", "cv", "cw", NULL);
    dump(fp, g, "gE", "gu", "gv", "gw", "gage"); dump(fp, p, "pE", "pu", "pv", "pw", NULL);
    fprintf(fp, "}\n");
    fclose(fp);
  }
  static void dump(FILE *fp, const std::vector<P> &x, const char *e, const char *u, const char *v, const char *w, const char *a) {
    const char *k[5] = {e, u, v, w, a};
    for (int j = 0; j < 5; j++) if (k[j]) {
      fprintf(fp, ",\"%s\":[", k[j]);
      for (size_t i = 0; i < x.size(); i++) fprintf(fp, "%s%.17g", i ? "," : "", j == 0 ? x[i].e : j == 1 ? x[i].u : j == 2 ? x[i].v : j == 3 ? x[i].w : x[i].age);
      fprintf(fp, "]");
    }
  }
};

class cgmEvent {
public:
  cgmEvent() {}
  ~cgmEvent() { x.n.assign(x.n.size(), FakeEvent::P()); }
#define GET(name, list, member) double get##name(int i) { return i >= 0 && i < int(x.list.size()) ? x.list[i].member : -1; }
  int getNeutronNu() { return x.n.size(); }
  int getPhotonNu() { return x.g.size(); }
  GET(NeutronEnergy, n, e) GET(NeutronDircosu, n, u) GET(NeutronDircosv, n, v) GET(NeutronDircosw, n, w) GET(NeutronAge, n, age)
  GET(CmNeutronEnergy, c, e) GET(CmNeutronDircosu, c, u) GET(CmNeutronDircosv, c, v) GET(CmNeutronDircosw, c, w)
  GET(PhotonEnergy, g, e) GET(PhotonDircosu, g, u) GET(PhotonDircosv, g, v) GET(PhotonDircosw, g, w) GET(PhotonAge, g, age)
protected:
  FakeEvent x;
};

class cgmfEvent : public cgmEvent {
public:
  cgmfEvent() {}
  cgmfEvent(int zaid, double e, double t, double w = -1.0) : z(zaid), en(e) { x.make(zaid, e, t, w); }
  int getTargetNucleus() { return z; }
  double getIncidentEnergy() { return en; }
#define FRAG(side, i) \
  int get##side##FragmentMass() { return x.f[i].A; } int get##side##FragmentCharge() { return x.f[i].Z; } \
  double get##side##FragmentKineticEnergy() { return x.f[i].KE; } double get##side##FragmentKineticEnergyPost() { return x.f[i].KEp; } \
  double get##side##FragmentExcitationEnergy() { return x.f[i].U; } float get##side##FragmentSpin() { return x.f[i].J; } \
  int get##side##FragmentParity() { return x.f[i].par; } int get##side##FragmentNeutronNu() { return x.f[i].nu; } int get##side##FragmentPhotonNu() { return x.f[i].nug; } \
  double get##side##FragmentPreMomentumX() { return x.f[i].pre[0]; } double get##side##FragmentPreMomentumY() { return x.f[i].pre[1]; } double get##side##FragmentPreMomentumZ() { return x.f[i].pre[2]; } \
  double get##side##FragmentDircosu() { return x.f[i].d[0]; } double get##side##FragmentDircosv() { return x.f[i].d[1]; } double get##side##FragmentDircosw() { return x.f[i].d[2]; } \
  double get##side##FragmentPostMomentumX() { return x.f[i].post[0]; } double get##side##FragmentPostMomentumY() { return x.f[i].post[1]; } double get##side##FragmentPostMomentumZ() { return x.f[i].post[2]; }
  FRAG(Light, 0) FRAG(Heavy, 1)
  int getPreFissionNeutronNu() { return x.p.size(); }
  GET(PreFissionNeutronEnergy, p, e) GET(PreFissionNeutronDircosu, p, u) GET(PreFissionNeutronDircosv, p, v) GET(PreFissionNeutronDircosw, p, w)
protected:
  int z;
  double en;
};

class cgmfYields : public cgmfEvent {
public:
  cgmfYields(int, double, int, std::string) {}
};
#endif
