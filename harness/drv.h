/* Driver shared by every harness: owns the worker processes, the statistics,
   the violation log and (for simulator harnesses) the in-process simulator. */
#ifndef MC_DRV_H
#define MC_DRV_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

typedef unsigned long long u64;
typedef std::vector<long> Case;

enum { MAXCASE= 64, MAXVIOL= 96, MAXCNT= 64, MAXSAMPLE= 6 };

struct Viol {
  char sig[160];
  char msg[900];
  int n;
  long v[MAXCASE];
};

struct Shm {
  volatile u64 beat;                 // progress, watched by the parent
  u64 evaluations, distinct, states, transitions, traces;
  volatile int curn;
  volatile long cur[MAXCASE];        // the case being run now (crash attribution)
  int nviol; u64 viol_total;
  Viol viol[MAXVIOL];
  int ncnt;
  struct { char name[48]; u64 val; } cnt[MAXCNT];
  int nsample;
  char sample[MAXSAMPLE][400];
  int done;
};

extern Shm *shm;
extern int shard, nshards;           // this worker, number of workers
extern bool thorough, replaying, verbose;
extern long seed;

// statistics
u64 &counter(const char *name);      // keep the reference, the lookup is linear
void sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
inline void beat() { shm->beat++; }

// current case
inline void setcase(std::initializer_list<long> l)
{ int i= 0; for (long x: l) shm->cur[i++]= x; shm->curn= i; shm->beat++; }
inline void setcase(const long *v, int n)
{ for (int i= 0; i < n; i++) shm->cur[i]= v[i]; shm->curn= n; shm->beat++; }
inline void setcase(const Case &c) { setcase(c.data(), c.size()); }

// a property violation in the current case; sig identifies the kind of failure
void fail(const std::string &sig, const char *fmt, ...) __attribute__((format(printf,2,3)));
bool failed_already(const std::string &sig);
std::string strf(const char *fmt, ...) __attribute__((format(printf,1,2)));

// what a harness provides
void harness_run();                  // explore this worker's share, calling setcase/fail
void harness_replay(const Case &c);  // run exactly one case, calling fail if it is bad
extern int harness_default_shards;   // 0: one per core

}
#endif
