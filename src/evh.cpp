// Execution engine for the model-checking harness: drives the public CGMF API under a scripted
// random-number generator, one command per line on stdin, one JSON line per command on stdout.
//
//   D <path>                                     setdatapath
//   E <id> <zaid> <einc> <time> <timew> <stream> create one event, report every public getter
//   Y <id> <zaid> <einc> <n> <file> <stream>     yields mode
//   X                                            cgmf_cleanup()
//   Q                                            quit
//
// <stream>: base[;i=v]*  with base = s<seed>[@<skipped draws>] (mt19937 uniform) | c<value> (constant)
//           or f<file> (the values listed in the file, then mt19937 seed 1);
//           i=v forces the i-th draw (0-based) to v without shifting the other draws.
#include "engine.h"

int main(int argc, char **argv) {
  // library chatter on stdout must not mix with the protocol
  out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  if (getenv("EVH_CPU")) cpulimit = atof(getenv("EVH_CPU"));
  if (!getenv("EVH_PLAINMALLOC")) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000); }
  signal(SIGPROF, onalarm);
  atexit(onexit_);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    char c;
    in >> c;
    if (c == 'Q') break;
    if (c == 'D') { std::string p; in >> p; setdatapath(p); continue; }
    if (c == 'X') { cur = "X"; inlib = true; cgmf_cleanup(); inlib = false; fprintf(out, "{\"id\":\"X\",\"fate\":\"ok\"}\n"); fflush(out); continue; }
    if (c == 'E') {
      int z; std::string e, t, w, s;
      in >> cur >> z >> e >> t >> w >> s;
      setstream(s);
      arm(cpulimit);
      inlib = true;
      {
        cgmfEvent ev(z, strtod(e.c_str(), 0), strtod(t.c_str(), 0), strtod(w.c_str(), 0));
        inlib = false;
        arm(0);
        report(ev);
        inlib = true;
      }
      inlib = false;
    }
    if (c == 'Y') {
      int z, n; std::string e, f, s;
      in >> cur >> z >> e >> n >> f >> s;
      setstream(s);
      arm(cpulimit * 10);
      inlib = true;
      new cgmfYields(z, strtod(e.c_str(), 0), n, f);
      inlib = false;
      arm(0);
      fprintf(out, "{\"id\":\"%s\",\"fate\":\"ok\",\"nd\":%ld}\n", cur.c_str(), ndraw);
      fflush(out);
    }
  }
  return 0;
}
