// Shared by the harnesses: scripted random streams and the report of one event through every public getter.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <vector>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <malloc.h>
#include "cgmfEvents.h"

static std::string cur = "-";
static FILE *out;
static long ndraw = 0;
static long maxdraw = 4000000;
static double cpulimit = 60;

static void say_raw(const char *tag) {
  char b[256];
  int n = snprintf(b, sizeof b, "{\"id\":\"%s\",\"fate\":\"%s\"}\n", cur.c_str(), tag);
  fflush(out);
  if (write(fileno(out), b, n) < 0) {}
}
static void onalarm(int) { say_raw("hang"); _exit(97); }
static bool inlib = false;
static void onexit_() { if (inlib) say_raw("exit"); }

struct Script {
  std::mt19937 g;
  std::uniform_real_distribution<double> d;
  bool constant = false;
  double cv = 0;
  std::map<long, double> dev;
  std::vector<double> seq; // explicit values, then the base stream
  double operator()() {
    long i = ndraw++;
    if (ndraw > maxdraw) { say_raw("draws"); _exit(96); }
    double v = i < (long)seq.size() ? seq[i] : constant ? cv : d(g);
    if (!dev.empty()) { auto it = dev.find(i); if (it != dev.end()) v = it->second; }
    return v;
  }
};
static Script script;

static void setstream(const std::string &s) {
  script = Script();
  std::stringstream ss(s);
  std::string tok;
  std::getline(ss, tok, ';');
  if (tok[0] == 's') {
    script.g.seed(atoi(tok.c_str() + 1));
    size_t at = tok.find('@');
    if (at != std::string::npos) for (long k = atol(tok.c_str() + at + 1); k > 0; k--) script.d(script.g);
  }
  else if (tok[0] == 'f') {
    script.g.seed(1);
    FILE *f = fopen(tok.c_str() + 1, "r");
    double x;
    while (f && fscanf(f, "%lf", &x) == 1) script.seq.push_back(x);
    if (f) fclose(f);
  }
  else { script.constant = true; script.cv = strtod(tok.c_str() + 1, 0); }
  while (std::getline(ss, tok, ';')) {
    size_t e = tok.find('=');
    script.dev[atol(tok.c_str())] = strtod(tok.c_str() + e + 1, 0);
  }
  ndraw = 0;
  set_rng(std::function<double(void)>([]() { return script(); }));
}

static void num(std::ostringstream &o, double x) {
  char b[40];
  if (x != x) o << "\"nan\"";
  else if (x > 1e300) o << "\"inf\"";
  else if (x < -1e300) o << "\"-inf\"";
  else { snprintf(b, sizeof b, "%.17g", x); o << b; }
}
template <class F> static void arr(std::ostringstream &o, const char *name, int n, F f) {
  o << ",\"" << name << "\":[";
  for (int i = 0; i < n; i++) { if (i) o << ","; num(o, f(i)); }
  o << "]";
}
static std::string describe(cgmfEvent &e) {
  std::ostringstream o;
  o << "\"zaid\":" << e.getTargetNucleus() << ",\"einc\":";
  num(o, e.getIncidentEnergy());
  o << ",\"A\":[" << e.getLightFragmentMass() << "," << e.getHeavyFragmentMass() << "]";
  o << ",\"Z\":[" << e.getLightFragmentCharge() << "," << e.getHeavyFragmentCharge() << "]";
  o << ",\"nuf\":[" << e.getLightFragmentNeutronNu() << "," << e.getHeavyFragmentNeutronNu() << "]";
  o << ",\"nugf\":[" << e.getLightFragmentPhotonNu() << "," << e.getHeavyFragmentPhotonNu() << "]";
  o << ",\"par\":[" << e.getLightFragmentParity() << "," << e.getHeavyFragmentParity() << "]";
  auto pair = [&](const char *n, double a, double b) { o << ",\"" << n << "\":["; num(o, a); o << ","; num(o, b); o << "]"; };
  pair("KE", e.getLightFragmentKineticEnergy(), e.getHeavyFragmentKineticEnergy());
  pair("KEp", e.getLightFragmentKineticEnergyPost(), e.getHeavyFragmentKineticEnergyPost());
  pair("U", e.getLightFragmentExcitationEnergy(), e.getHeavyFragmentExcitationEnergy());
  pair("J", e.getLightFragmentSpin(), e.getHeavyFragmentSpin());
  o << ",\"pre\":[["; num(o, e.getLightFragmentPreMomentumX()); o << ","; num(o, e.getLightFragmentPreMomentumY()); o << ","; num(o, e.getLightFragmentPreMomentumZ());
  o << "],["; num(o, e.getHeavyFragmentPreMomentumX()); o << ","; num(o, e.getHeavyFragmentPreMomentumY()); o << ","; num(o, e.getHeavyFragmentPreMomentumZ()); o << "]]";
  o << ",\"post\":[["; num(o, e.getLightFragmentPostMomentumX()); o << ","; num(o, e.getLightFragmentPostMomentumY()); o << ","; num(o, e.getLightFragmentPostMomentumZ());
  o << "],["; num(o, e.getHeavyFragmentPostMomentumX()); o << ","; num(o, e.getHeavyFragmentPostMomentumY()); o << ","; num(o, e.getHeavyFragmentPostMomentumZ()); o << "]]";
  o << ",\"fd\":[["; num(o, e.getLightFragmentDircosu()); o << ","; num(o, e.getLightFragmentDircosv()); o << ","; num(o, e.getLightFragmentDircosw());
  o << "],["; num(o, e.getHeavyFragmentDircosu()); o << ","; num(o, e.getHeavyFragmentDircosv()); o << ","; num(o, e.getHeavyFragmentDircosw()); o << "]]";
  int nu = e.getNeutronNu(), ng = e.getPhotonNu(), np = e.getPreFissionNeutronNu();
  o << ",\"nu\":" << nu << ",\"nug\":" << ng << ",\"npre\":" << np;
  arr(o, "nE", nu, [&](int i) { return e.getNeutronEnergy(i); });
  arr(o, "nu_", nu, [&](int i) { return e.getNeutronDircosu(i); });
  arr(o, "nv", nu, [&](int i) { return e.getNeutronDircosv(i); });
  arr(o, "nw", nu, [&](int i) { return e.getNeutronDircosw(i); });
  arr(o, "nage", nu, [&](int i) { return e.getNeutronAge(i); });
  arr(o, "cE", nu, [&](int i) { return e.getCmNeutronEnergy(i); });
  arr(o, "cu", nu, [&](int i) { return e.getCmNeutronDircosu(i); });
  arr(o, "cv", nu, [&](int i) { return e.getCmNeutronDircosv(i); });
  arr(o, "cw", nu, [&](int i) { return e.getCmNeutronDircosw(i); });
  arr(o, "gE", ng, [&](int i) { return e.getPhotonEnergy(i); });
  arr(o, "gu", ng, [&](int i) { return e.getPhotonDircosu(i); });
  arr(o, "gv", ng, [&](int i) { return e.getPhotonDircosv(i); });
  arr(o, "gw", ng, [&](int i) { return e.getPhotonDircosw(i); });
  arr(o, "gage", ng, [&](int i) { return e.getPhotonAge(i); });
  arr(o, "pE", np, [&](int i) { return e.getPreFissionNeutronEnergy(i); });
  arr(o, "pu", np, [&](int i) { return e.getPreFissionNeutronDircosu(i); });
  arr(o, "pv", np, [&](int i) { return e.getPreFissionNeutronDircosv(i); });
  arr(o, "pw", np, [&](int i) { return e.getPreFissionNeutronDircosw(i); });
  // indices just outside the valid ranges must answer the documented -1
  bool oob = true;
  int bad[] = {-1, 1 << 20};
  for (int b : bad)
    oob = oob && e.getNeutronEnergy(b) == -1 && e.getNeutronDircosu(b) == -1 && e.getNeutronDircosv(b) == -1 && e.getNeutronDircosw(b) == -1 && e.getNeutronAge(b) == -1 &&
          e.getCmNeutronEnergy(b) == -1 && e.getCmNeutronDircosu(b) == -1 && e.getCmNeutronDircosv(b) == -1 && e.getCmNeutronDircosw(b) == -1 &&
          e.getPhotonEnergy(b) == -1 && e.getPhotonDircosu(b) == -1 && e.getPhotonDircosv(b) == -1 && e.getPhotonDircosw(b) == -1 && e.getPhotonAge(b) == -1 &&
          e.getPreFissionNeutronEnergy(b) == -1 && e.getPreFissionNeutronDircosu(b) == -1 && e.getPreFissionNeutronDircosv(b) == -1 && e.getPreFissionNeutronDircosw(b) == -1;
  oob = oob && e.getNeutronEnergy(nu) == -1 && e.getNeutronDircosu(nu) == -1 && e.getNeutronDircosv(nu) == -1 && e.getNeutronDircosw(nu) == -1 && e.getNeutronAge(nu) == -1 &&
        e.getCmNeutronEnergy(nu) == -1 && e.getCmNeutronDircosu(nu) == -1 && e.getCmNeutronDircosv(nu) == -1 && e.getCmNeutronDircosw(nu) == -1 &&
        e.getPhotonEnergy(ng) == -1 && e.getPhotonDircosu(ng) == -1 && e.getPhotonDircosv(ng) == -1 && e.getPhotonDircosw(ng) == -1 && e.getPhotonAge(ng) == -1 &&
        e.getPreFissionNeutronEnergy(np) == -1 && e.getPreFissionNeutronDircosu(np) == -1 && e.getPreFissionNeutronDircosv(np) == -1 && e.getPreFissionNeutronDircosw(np) == -1;
  o << ",\"oob\":" << (oob ? 1 : 0) << "}\n";
  return o.str();
}
static void report(cgmfEvent &e) {
  std::ostringstream o;
  o << "{\"id\":\"" << cur << "\",\"fate\":\"ok\",\"nd\":" << ndraw << ",";
  std::string s = o.str() + describe(e);
  fwrite(s.data(), 1, s.size(), out);
  fflush(out);
}

static void arm(double s) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = (long)s;
  t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &t, 0);
}

