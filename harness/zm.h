// zm.h - glue to the code under test: configuration, construction of solvers,
// interposition of the process's randomness and clock.
#ifndef ZM_H_
#define ZM_H_
#include <assert.h>
#include "mc.h"
#include "models.h"
#include <math.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "MatrixUtils.h"
#include "solverUtils.h"
#include "zmdpCommonTime.h"
#include "embedFiles.h"
#include "zmdpMainConfig.cc"

void usage(const char *) { exit(1); }

namespace mc {
using namespace zmdp;
// --- randomness: every rand() of the code under test is a choice point
static Chooser *gChooser = NULL;
// choice 0 is the fixed pseudo-random stream, so that an execution without deviations
// still makes progress; the other choices are grid values .0625, .5, .977
static vector<int> gRandGrid = {-1, 0x08000000, 0x40000000, 0x7d000000};
static long gRandCalls = 0;
// --- clock
static double gClock = 1000.0, gClockStep = 0.0;
static bool gVirtualClock = false;
}  // namespace mc

extern "C" int rand(void) throw() {
  mc::gRandCalls++;
  if (mc::gChooser) {
    int v = mc::gRandGrid[mc::gChooser->choose(mc::gRandGrid.size())];
    if (v >= 0) return v;
  }
  mc::gLcg = mc::gLcg * 1103515245u + 12345u;
  return (int)((mc::gLcg >> 1) & 0x7fffffff);
}
extern "C" void srand(unsigned) throw() {}
extern "C" int gettimeofday(struct timeval *tv, void *) throw() {
  if (mc::gVirtualClock) {
    tv->tv_sec = (time_t)floor(mc::gClock);
    tv->tv_usec = (suseconds_t)llround((mc::gClock - floor(mc::gClock)) * 1e6) % 1000000;
    mc::gClock += mc::gClockStep;
    return 0;
  }
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}

namespace mc {
typedef std::map<string, string> Opts;
inline string optStr(const Opts &o) {
  string s;
  for (auto &p : o) s += "--" + p.first + " " + p.second + " ";
  return s;
}
inline ZMDPConfig *makeConfig(const Opts &o) {
  static ZMDPConfig *base = NULL;
  if (!base) {
    base = new ZMDPConfig();
    base->setString("binaryName", "zmdp");
    base->readFromString("<defaultConfig>", defaultConfig.data);
  }
  ZMDPConfig *c = new ZMDPConfig(*base);
  for (auto &p : o) c->setString(p.first, p.second);
  return c;
}
inline cvector toC(const Vec &b) {
  cvector r;
  r.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) if (b[i] != 0) r.push_back(i, b[i]);
  return r;
}
inline Vec toV(const cvector &c) {
  Vec r(c.size(), 0.0);
  for (auto &e : c.data) r[e.index] += e.value;
  return r;
}
inline string vstr(const Vec &b) {
  string s = "(";
  for (size_t i = 0; i < b.size(); i++) s += fmt("%s%.6g", i ? "," : "", b[i]);
  return s + ")";
}
struct Sys {
  ZMDPConfig *cfg;
  SolverParams p;
  SolverObjects so;
  Opts opts;
};
inline Sys *makeSys(const string &fn, const Opts &o, bool init = true) {
  Sys *y = new Sys;
  y->opts = o;
  Opts oo = o;
  oo["simulatorModel"] = fn;
  if (!oo.count("policyOutputFile")) oo["policyOutputFile"] = "none";
  y->cfg = makeConfig(oo);
  y->p.setValues(*y->cfg);
  constructSolverObjects(y->so, y->p, *y->cfg);
  if (init) y->so.solver->planInit(y->so.problem, y->cfg);
  return y;
}
// frees what is needed to keep a long exploration within memory; destructors in the
// code under test do not cover everything, the supervisor recycles the worker too
}  // namespace mc
#endif
