/* Lock-step comparison of the real simulator with an independent model of an
   instruction set: one case = a completely specified machine state, one or more
   instructions executed by cl_uc::do_inst(), then a comparison of every
   register, every byte of every memory, the program counter and the clock. */
#ifndef MC_ISA_H
#define MC_ISA_H
#include "simdrv.h"

namespace mc {

// Memories over 1 KB are compared completely after every 16th case, in between
// only where the case or the model touched them; when anything differs, the
// cases since the last complete comparison are run again one by one with
// complete comparison, so the report names the case that did it.
inline bool full_compare= true;
// set when the model changed anything besides stepping the program counter
inline bool nontrivial= false;
// exploration ends after this many violations in one worker
inline u64 viol_cap= getenv("MC_NOCAP") ? ~0ull : 3000;

// counts distinct cases: one bit per hash value, so a collision can only
// make the count smaller
struct Distinct
{
  std::vector<u64> bits;
  bool add(const long *c, int n)
  {
    if (bits.empty()) bits.resize(1u<<22);   // 2^28 bits
    u64 h= 0x243f6a8885a308d3ull;
    for (int i= 0; i < n; i++) { h^= (u64)c[i]; h*= 0x9E3779B97F4A7C15ull; h^= h >> 29; }
    u64 &w= bits[(h >> 6) & 0x3fffff], m= 1ull << (h & 63);
    bool isnew= !(w & m);
    w|= m;
    return isnew;
  }
};

struct Space
{
  const char *name;
  uint8_t *real;            // storage of the simulator's chip
  uint32_t size;
  std::vector<uint8_t> ref; // what the model says
  std::vector<uint8_t> init;
  std::vector<uint32_t> log;  // changed places
  std::vector<uint8_t> logged;
  bool dirtyall;
  // poke both sides (preparing a case)
  void poke(uint32_t a, uint8_t v)
  { a%= size; note(a); real[a]= v; ref[a]= v; }
  // the model's accesses
  uint8_t rd(uint32_t a) { return ref[a%size]; }
  void wr(uint32_t a, uint8_t v) { a%= size; note(a); if (ref[a] != v) nontrivial= true; ref[a]= v; }
  void note(uint32_t a) { if (!logged[a]) { logged[a]= 1; log.push_back(a); } }
  void restore()
  {
    if (dirtyall)
      { memcpy(real, init.data(), size); dirtyall= false; }
    for (uint32_t a: log) { real[a]= ref[a]= init[a]; logged[a]= 0; }
    log.clear();
  }
  // the places the case itself touched
  bool same_log(uint32_t *at)
  {
    for (uint32_t a: log) if (real[a] != ref[a]) { *at= a; return false; }
    return true;
  }
  // false: differs, *at is the first place
  bool same(uint32_t *at)
  {
    if (size > 1024 && !full_compare) return same_log(at);
    if (memcmp(real, ref.data(), size) == 0) return true;
    uint32_t i= 0; while (real[i] == ref[i]) i++;
    *at= i; dirtyall= true;
    return false;
  }
};

inline uint8_t noise(uint32_t a, uint32_t salt)
{
  uint32_t h= a*2654435761u + salt*40503u + 0x9e3779b9u;
  h^= h >> 15; h*= 2246822519u; h^= h >> 13;
  return h & 0xff;
}

inline Space *mkspace(const char *chip, uint32_t size, uint32_t salt)
{
  Space *s= new Space;
  s->name= chip; s->real= chip8(chip); s->size= size;
  s->ref.resize(size); s->init.resize(size); s->logged.assign(size, 0);
  s->dirtyall= false;
  for (uint32_t i= 0; i < size; i++) s->init[i]= noise(i, salt);
  memcpy(s->real, s->init.data(), size);
  s->ref= s->init;
  return s;
}

class Lockstep
{
public:
  int n;                                // longs in a case
  std::vector<Space*> spaces;
  // runs one case, calls fail() when it is bad (with full_compare set or not)
  std::function<void(const long*)> one;
  std::vector<long> ring; int rn= 0;
  Distinct seen;
  void resync() { for (Space *s: spaces) { s->dirtyall= true; s->restore(); } }
  void run(const long *c)
  {
    // a tree this broken has been reported well enough
    if (shm->viol_total > viol_cap && !replaying) { counter("cases not run after 3000 violations")++; return; }
    shm->evaluations++;
    if (replaying) { full_compare= true; setcase(c, n); one(c); return; }
    ring.resize(16*n);
    memcpy(&ring[rn*n], c, n*sizeof(long)); rn++;
    full_compare= rn >= 16;
    u64 v0= shm->viol_total; int nv0= shm->nviol;
    setcase(c, n);
    nontrivial= false;
    if (shm->evaluations == 1 || shm->evaluations == 100001)
      {
	std::string t= strf("%s case", MC_SIM_NAME);
	for (int i= 0; i < n; i++) t+= strf(" %ld", c[i]);
	sample("%s", t.c_str());
      }
    one(c);
    if (nontrivial && seen.add(c, n)) shm->distinct++;
    if (shm->viol_total != v0)
      {
	// find the guilty one
	Viol keep= shm->viol[nv0];
	bool isnew= shm->nviol > nv0;
	shm->nviol= nv0; shm->viol_total= v0;
	full_compare= true;
	resync();
	for (int i= 0; i < rn; i++) { setcase(&ring[i*n], n); one(&ring[i*n]); }
	if (shm->viol_total == v0)
	  { shm->viol_total++; if (isnew) { shm->viol[nv0]= keep; shm->nviol= nv0+1; } }
	resync();
	rn= 0;
      }
    else if (full_compare) rn= 0;
  }
};

// true when this worker has to run item number n of an enumeration
struct Split
{
  u64 n= 0;
  bool mine() { return ((n++ * 0x9E3779B97F4A7C15ull) >> 33) % nshards == (u64)shard; }
};

}
#endif
