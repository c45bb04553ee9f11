// Stand-in for MPI: ranks are ordinary processes (FAKEMPI_RANK, FAKEMPI_SIZE) that exchange messages through files in
// FAKEMPI_DIR. Every collective is numbered; a rank that leaves a different number or kind of collectives than the
// others is detected by the harness (time-out).
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Status; typedef int MPI_Request;
enum { MPI_COMM_WORLD = 1, MPI_SUCCESS = 0 };
enum { MPI_INT = 1, MPI_DOUBLE, MPI_LONG, MPI_FLOAT, MPI_CHAR, MPI_LONG_LONG, MPI_UNSIGNED };
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_PROD };
#define MPI_IN_PLACE ((void *)-1)
namespace fakempi {
inline int rank() { const char *e = getenv("FAKEMPI_RANK"); return e ? atoi(e) : 0; }
inline int size() { const char *e = getenv("FAKEMPI_SIZE"); return e ? atoi(e) : 1; }
inline std::string dir() { const char *e = getenv("FAKEMPI_DIR"); return e ? e : "."; }
inline int &seq() { static int s = 0; return s; }
inline size_t width(MPI_Datatype t) {
  switch (t) { case MPI_INT: case MPI_UNSIGNED: return sizeof(int); case MPI_DOUBLE: return sizeof(double); case MPI_LONG: return sizeof(long);
    case MPI_LONG_LONG: return sizeof(long long); case MPI_FLOAT: return sizeof(float); default: return 1; }
}
inline std::string name(int s, int r) { return dir() + "/m" + std::to_string(s) + "." + std::to_string(r); }
inline void put(int s, const void *p, size_t n) {
  std::string f = name(s, rank());
  FILE *o = fopen((f + ".t").c_str(), "wb"); fwrite(p, 1, n, o); fclose(o);
  rename((f + ".t").c_str(), f.c_str());
}
inline void get(int s, int r, void *p, size_t n) {
  std::string f = name(s, r);
  FILE *i;
  while (!(i = fopen(f.c_str(), "rb"))) usleep(500);
  size_t k = fread(p, 1, n, i); fclose(i);
  if (k != n) { fprintf(stderr, "fakempi: message size mismatch\n"); _exit(77); }
}
template <class T> void comb(T *a, const T *b, int n, MPI_Op op) {
  for (int i = 0; i < n; i++) switch (op) { case MPI_SUM: a[i] += b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_PROD: a[i] *= b[i]; }
}
inline void combine(void *a, const void *b, int n, MPI_Datatype t, MPI_Op op) {
  switch (t) { case MPI_INT: comb((int *)a, (const int *)b, n, op); break; case MPI_UNSIGNED: comb((unsigned *)a, (const unsigned *)b, n, op); break;
    case MPI_DOUBLE: comb((double *)a, (const double *)b, n, op); break; case MPI_LONG: comb((long *)a, (const long *)b, n, op); break;
    case MPI_LONG_LONG: comb((long long *)a, (const long long *)b, n, op); break; case MPI_FLOAT: comb((float *)a, (const float *)b, n, op); break; }
}
}
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Abort(MPI_Comm, int c) { exit(c); }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = fakempi::rank(); return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = fakempi::size(); return 0; }
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm) {
  int s = fakempi::seq()++; size_t w = n * fakempi::width(t);
  if (fakempi::rank() == root) fakempi::put(s, b, w); else fakempi::get(s, root, b, w);
  return 0;
}
inline int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
  int s = fakempi::seq()++; size_t w = n * fakempi::width(t);
  std::string mine((const char *)(in == MPI_IN_PLACE ? out : in), w);
  fakempi::put(s, mine.data(), w);
  if (fakempi::rank() == root) {
    std::string acc(w, 0), x(w, 0);
    for (int r = 0; r < fakempi::size(); r++) {
      fakempi::get(s, r, &x[0], w);
      if (r == 0) acc = x; else fakempi::combine(&acc[0], x.data(), n, t, op);
    }
    memcpy(out, acc.data(), w);
  }
  return 0;
}
inline int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  MPI_Reduce(in, out, n, t, op, 0, c);
  return MPI_Bcast(out, n, t, 0, c);
}
inline int MPI_Barrier(MPI_Comm c) { int a = 0, b; return MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_SUM, c); }
#endif
