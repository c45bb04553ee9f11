// C interface against C++ interface.
//   capih <depth> <alphabet file> <scratch> <datapath> <prefix|->        every sequence of operations (a process per node)
//   capih 0 <job file> <scratch> <datapath> -                            one line per event: id zaid einc time window stream
// alphabet: g<k> zaid einc time window stream | n<k> (same, through C++) | y<k> zaid einc n - stream | c (clear) | x (release tables)
#include "engine.h"
#include <cmath>
#include <fstream>
#include <sys/wait.h>
#include <vector>
extern "C" {
void capi_dump(FILE *);
void capi_post(double d[2][3]);
void capi_gen(int, double, double, double);
void capi_yields(int, double, int, const char *);
void capi_clean(void);
void capi_rng(double (*)(void));
int capi_path(const char *);
}
static double drawc() { return script(); }

static std::string cppdump(cgmfEvent &e) {
  std::string r;
  char b[200];
  auto I = [&](const char *n, int v) { snprintf(b, sizeof b, "%s %d\n", n, v); r += b; };
  auto D = [&](const char *n, double v) { snprintf(b, sizeof b, "%s %.17g\n", n, v); r += b; };
  int n = e.getNeutronNu(), g = e.getPhotonNu(), p = e.getPreFissionNeutronNu();
  I("nu", n); I("nug", g); I("npre", p);
#define V(name, k, get) for (int i = -2; i < k + 3; i++) { snprintf(b, sizeof b, "%s[%d] %.17g\n", name, i, (double)e.get(i)); r += b; }
  V("nE", n, getNeutronEnergy) V("nu", n, getNeutronDircosu) V("nv", n, getNeutronDircosv) V("nw", n, getNeutronDircosw) V("nt", n, getNeutronAge)
  V("cE", n, getCmNeutronEnergy) V("cu", n, getCmNeutronDircosu) V("cv", n, getCmNeutronDircosv) V("cw", n, getCmNeutronDircosw)
  V("gE", g, getPhotonEnergy) V("gu", g, getPhotonDircosu) V("gv", g, getPhotonDircosv) V("gw", g, getPhotonDircosw) V("gt", g, getPhotonAge)
  V("pE", p, getPreFissionNeutronEnergy) V("pu", p, getPreFissionNeutronDircosu) V("pv", p, getPreFissionNeutronDircosv) V("pw", p, getPreFissionNeutronDircosw)
  I("lA", e.getLightFragmentMass()); I("lZ", e.getLightFragmentCharge()); D("lKE", e.getLightFragmentKineticEnergy()); D("lKEp", e.getLightFragmentKineticEnergyPost()); D("lU", e.getLightFragmentExcitationEnergy()); D("lJ", (float)e.getLightFragmentSpin());
  I("lP", e.getLightFragmentParity()); I("lnu", e.getLightFragmentNeutronNu()); I("lnug", e.getLightFragmentPhotonNu());
  D("lu", e.getLightFragmentDircosu()); D("lv", e.getLightFragmentDircosv()); D("lw", e.getLightFragmentDircosw());
  D("lpx", e.getLightFragmentPreMomentumX()); D("lpy", e.getLightFragmentPreMomentumY()); D("lpz", e.getLightFragmentPreMomentumZ());
  D("lqx", e.getLightFragmentPostMomentumX()); D("lqy", e.getLightFragmentPostMomentumY()); D("lqz", e.getLightFragmentPostMomentumZ());
  I("hA", e.getHeavyFragmentMass()); I("hZ", e.getHeavyFragmentCharge()); D("hKE", e.getHeavyFragmentKineticEnergy()); D("hKEp", e.getHeavyFragmentKineticEnergyPost()); D("hU", e.getHeavyFragmentExcitationEnergy()); D("hJ", (float)e.getHeavyFragmentSpin());
  I("hP", e.getHeavyFragmentParity()); I("hnu", e.getHeavyFragmentNeutronNu()); I("hnug", e.getHeavyFragmentPhotonNu());
  D("hu", e.getHeavyFragmentDircosu()); D("hv", e.getHeavyFragmentDircosv()); D("hw", e.getHeavyFragmentDircosw());
  D("hpx", e.getHeavyFragmentPreMomentumX()); D("hpy", e.getHeavyFragmentPreMomentumY()); D("hpz", e.getHeavyFragmentPreMomentumZ());
  D("hqx", e.getHeavyFragmentPostMomentumX()); D("hqy", e.getHeavyFragmentPostMomentumY()); D("hqz", e.getHeavyFragmentPostMomentumZ());
  return r;
}
static std::string cdump() {
  char *buf = 0;
  size_t len = 0;
  FILE *f = open_memstream(&buf, &len);
  capi_dump(f);
  fclose(f);
  std::string r(buf, len);
  free(buf);
  return r;
}
// first line on which the two reports differ, "" if none
static std::string differ(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b);
  std::string p, q;
  while (true) {
    bool u = (bool)std::getline(x, p), v = (bool)std::getline(y, q);
    if (!u && !v) return "";
    if (u != v || p != q) return "C++ " + (u ? p : std::string("(end)")) + " / C " + (v ? q : std::string("(end)"));
  }
}
static std::string postcheck(cgmfEvent &e) {
  double d[2][3], q[2][3] = {{e.getLightFragmentPostMomentumX(), e.getLightFragmentPostMomentumY(), e.getLightFragmentPostMomentumZ()},
                             {e.getHeavyFragmentPostMomentumX(), e.getHeavyFragmentPostMomentumY(), e.getHeavyFragmentPostMomentumZ()}};
  capi_post(d);
  for (int f = 0; f < 2; f++) {
    double n = std::sqrt(q[f][0] * q[f][0] + q[f][1] * q[f][1] + q[f][2] * q[f][2]);
    for (int k = 0; k < 3; k++)
      if (!(std::fabs(d[f][k] - q[f][k] / n) < 1e-9)) return "direction after emission of fragment " + std::to_string(f) + " component " + std::to_string(k);
  }
  return "";
}
struct Op { std::string name; char kind; int z; double e, t, w; std::string s; };
static std::vector<Op> ops;
static int depth;
static std::string sdir, held, heldName;
static bool live = false;
static std::vector<std::string> path, prefix;
static void emit(const std::string &s) { std::string l = s + "\n"; if (write(fileno(out), l.data(), l.size()) < 0) {} }
static std::string pathstr() { std::string r; for (auto &p : path) r += (r.empty() ? "" : " ") + p; return r; }
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c >= 32) r += c; } return r; }
static std::string slurp(const std::string &f) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); unlink(f.c_str()); return ss.str(); }

static std::map<std::string, std::string> ref;   // C++ report of each operation in a fresh process
static std::string cstream(const std::string &s) { setstream(s); capi_rng(drawc); return s; }

static std::string perform(const Op &o) {
  std::string bad;
  cur = pathstr();
  inlib = true;
  arm(cpulimit);
  if (o.kind == 'g') {
    cstream(o.s);
    capi_gen(o.z, o.e, o.t, o.w);
    live = true;
    heldName = "n" + o.name.substr(1);
  } else if (o.kind == 'n') {
    setstream(o.s);
    cgmfEvent e(o.z, o.e, o.t, o.w);
    if (ref.count(o.name)) bad = differ(ref[o.name], cppdump(e));
  } else if (o.kind == 'y') {
    cstream(o.s);
    std::string f = sdir + "/cy" + std::to_string(getpid());
    capi_yields(o.z, o.e, (int)o.t, f.c_str());
    std::string got = slurp(f);
    if (ref.count(o.name) && ref[o.name] != got) bad = "yields file differs";
  } else if (o.kind == 'c') {
    capi_clean();
    live = false;
  } else if (o.kind == 'x') {
    cgmf_cleanup();
  }
  arm(0);
  inlib = false;
  if (live && bad.empty() && ref.count(heldName)) bad = differ(ref[heldName], cdump());
  return bad;
}
static void explore() {
  if ((int)path.size() == depth) return;
  for (auto &o : ops) {
    if (path.size() < prefix.size() && prefix[path.size()] != o.name) continue;
    pid_t p = fork();
    if (p == 0) {
      path.push_back(o.name);
      std::string bad = perform(o);
      emit("{\"path\":\"" + pathstr() + "\",\"live\":" + (live ? "1" : "0") + ",\"bad\":\"" + esc(bad) + "\"}");
      explore();
      if ((int)path.size() == depth) exit(0);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      path.push_back(o.name);
      emit("{\"path\":\"" + pathstr() + "\",\"died\":\"" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))) + "\"}");
      path.pop_back();
    }
  }
}
int main(int argc, char **argv) {
  out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  if (getenv("EVH_CPU")) cpulimit = atof(getenv("EVH_CPU"));
  if (!getenv("EVH_PLAINMALLOC")) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000); }
  signal(SIGPROF, onalarm);
  atexit(onexit_);
  depth = atoi(argv[1]);
  std::ifstream in(argv[2]);
  sdir = argv[3];
  capi_path(argv[4]);
  std::string line;
  if (depth == 0) {
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string e, t, w, s;
      int z;
      is >> cur >> z >> e >> t >> w >> s;
      arm(cpulimit);
      inlib = true;
      cstream(s);
      capi_gen(z, strtod(e.c_str(), 0), strtod(t.c_str(), 0), strtod(w.c_str(), 0));
      long n1 = ndraw;
      std::string c = cdump();
      setstream(s);
      std::string bad, cpp;
      {
        cgmfEvent ev(z, strtod(e.c_str(), 0), strtod(t.c_str(), 0), strtod(w.c_str(), 0));
        cpp = cppdump(ev);
        bad = differ(cpp, c);
        if (bad.empty() && n1 != ndraw) bad = "different number of draws";
        if (bad.empty()) bad = postcheck(ev);
        if (bad.empty()) bad = differ(c, cdump());
      }
      if (bad.empty()) bad = differ(c, cdump());
      inlib = false;
      arm(0);
      long vals = 0;
      for (char ch : c) vals += ch == '\n';
      emit("{\"id\":\"" + cur + "\",\"fate\":\"ok\",\"values\":" + std::to_string(vals) + ",\"bad\":\"" + esc(bad) + "\"}");
    }
    return 0;
  }
  while (std::getline(in, line)) {
    std::istringstream is(line);
    Op o;
    o.z = 0; o.e = o.t = o.w = 0;
    is >> o.name;
    o.kind = o.name[0];
    if (o.kind == 'g' || o.kind == 'n' || o.kind == 'y') {
      std::string e, t, w;
      is >> o.z >> e >> t >> w >> o.s;
      o.e = strtod(e.c_str(), 0); o.t = strtod(t.c_str(), 0); o.w = strtod(w.c_str(), 0);
      // reference through C++ in a process of its own
      int fd[2];
      if (pipe(fd)) return 3;
      pid_t p = fork();
      if (p == 0) {
        setstream(o.s);
        std::string r;
        if (o.kind == 'y') {
          std::string f = sdir + "/cr" + std::to_string(getpid());
          { cgmfYields y(o.z, o.e, (int)o.t, f); }
          r = slurp(f);
        } else { cgmfEvent e(o.z, o.e, o.t, o.w); r = cppdump(e); }
        for (size_t k = 0; k < r.size();) { ssize_t m = write(fd[1], r.data() + k, r.size() - k); if (m <= 0) break; k += m; }
        _exit(0);
      }
      close(fd[1]);
      std::string r;
      char b[4096];
      ssize_t m;
      while ((m = read(fd[0], b, sizeof b)) > 0) r.append(b, m);
      close(fd[0]);
      waitpid(p, 0, 0);
      ref[o.kind == 'y' ? o.name : "n" + o.name.substr(1)] = r;
      if (r.empty()) emit("{\"path\":\"" + o.name + "\",\"died\":\"no C++ reference\"}");
    }
    ops.push_back(o);
  }
  if (strcmp(argv[5], "-")) {
    std::stringstream ss(argv[5]);
    std::string t;
    while (std::getline(ss, t, ',')) prefix.push_back(t);
  }
  explore();
  return 0;
}
