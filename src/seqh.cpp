// Explores every sequence of library operations up to a depth. A node of the tree is a process: fork() copies the whole
// library state, the child performs one operation, reports what is observable, and explores on from there.
//   seqh <depth> <slots> <alphabet file> <scratch dir> <datapath> <prefix: operations separated by commas | ->
// alphabet file, one operation per line:
//   g<k> zaid einc time window stream      generate event and destroy it
//   c<k> zaid einc time window stream      create event in a free slot and keep it
//   y<k> zaid einc n - stream              yields run
//   d                                      destroy a live event (one operation per live slot)
//   x                                      release the library tables
//   v                                      construct and destroy an event without a reaction
#include "engine.h"
#include <fstream>
#include <sys/wait.h>
#include <vector>

struct Op { std::string name; char kind; int z; double e, t, w; std::string s; };
static std::vector<Op> ops;
static int depth, nslots;
static std::string sdir;
static std::vector<std::string> path;
static std::vector<cgmfEvent *> live;
static std::vector<std::string> liveName;

static uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
static void emit(const std::string &s) {
  std::string l = s + "\n";
  if (write(fileno(out), l.data(), l.size()) < 0) {}
}
static std::string pathstr() {
  std::string r;
  for (auto &p : path) r += (r.empty() ? "" : " ") + p;
  return r;
}
static std::string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

static void perform(const Op &o, int slot, std::string &obs) {
  cur = pathstr();
  inlib = true;
  arm(cpulimit);
  if (o.kind == 'g') {
    setstream(o.s);
    cgmfEvent e(o.z, o.e, o.t, o.w);
    inlib = false;
    obs += o.name + ":" + hex(fnv(describe(e))) + " ";
    inlib = true;
  } else if (o.kind == 'c') {
    setstream(o.s);
    live[slot] = new cgmfEvent(o.z, o.e, o.t, o.w);
    liveName[slot] = o.name;
  } else if (o.kind == 'd') {
    delete live[slot];
    live[slot] = 0;
  } else if (o.kind == 'x') {
    cgmf_cleanup();
  } else if (o.kind == 'v') {
    cgmfEvent e;
  } else if (o.kind == 'y') {
    setstream(o.s);
    std::string f = sdir + "/y" + std::to_string(getpid());
    { cgmfYields y(o.z, o.e, (int)o.t, f); }
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    unlink(f.c_str());
    obs += o.name + ":" + hex(fnv(ss.str())) + " ";
  }
  arm(0);
  for (int i = 0; i < nslots; i++)
    if (live[i]) obs += liveName[i] + ":" + hex(fnv(describe(*live[i]))) + " ";
  inlib = false;
}

static std::vector<std::string> prefix;
static bool explore() {
  bool any = false;
  if ((int)path.size() == depth) return any;
  for (auto &o : ops) {
    for (int s = 0; s < nslots; s++) {
      std::string nm = o.name;
      if (o.kind == 'c') {
        int free_ = -1;
        for (int i = nslots - 1; i >= 0; i--) if (!live[i]) free_ = i;
        if (free_ != s) continue;      // free slots are interchangeable
      } else if (o.kind == 'd') {
        if (!live[s]) continue;
        nm += std::to_string(s);
      } else if (s) continue;
      if (path.size() < prefix.size() && prefix[path.size()] != nm) continue;
      any = true;
      pid_t p = fork();
      if (p == 0) {
        path.push_back(nm);
        std::string obs;
        perform(o, s, obs);
        emit("{\"path\":\"" + pathstr() + "\",\"obs\":\"" + obs + "\"}");
        explore();
        // a normal end runs the exit-time code of the library too, on the leaves
        if ((int)path.size() == depth) exit(0);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        path.push_back(nm);
        emit("{\"path\":\"" + pathstr() + "\",\"died\":\"" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))) + "\"}");
        path.pop_back();
      }
    }
  }
  return any;
}

int main(int argc, char **argv) {
  out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  if (getenv("EVH_CPU")) cpulimit = atof(getenv("EVH_CPU"));
  if (!getenv("EVH_PLAINMALLOC")) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000); }
  signal(SIGPROF, onalarm);
  atexit(onexit_);
  depth = atoi(argv[1]);
  nslots = atoi(argv[2]);
  std::ifstream in(argv[3]);
  sdir = argv[4];
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    Op o;
    std::string w;
    o.z = 0; o.e = o.t = o.w = 0;
    is >> o.name;
    o.kind = o.name[0];
    if (o.kind == 'g' || o.kind == 'c' || o.kind == 'y') {
      std::string e, t;
      is >> o.z >> e >> t >> w >> o.s;
      o.e = strtod(e.c_str(), 0); o.t = strtod(t.c_str(), 0); o.w = strtod(w.c_str(), 0);
    }
    ops.push_back(o);
  }
  live.assign(nslots, (cgmfEvent *)0);
  liveName.assign(nslots, "");
  setdatapath(argv[5]);
  if (strcmp(argv[6], "-")) {
    std::stringstream ss(argv[6]);
    std::string t;
    while (std::getline(ss, t, ',')) prefix.push_back(t);
  }
  explore();
  return 0;
}
