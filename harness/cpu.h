/* Things common to harnesses that run over every CPU type of a simulator. */
#ifndef MC_CPU_H
#define MC_CPU_H
#include "simdrv.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

#ifdef MC_SIM_CPUS
#include "globals.h"
extern struct cpu_entry MC_SIM_CPUS[];
#endif

namespace mc {

/* type strings, one per (type,subtype) */
static inline std::vector<std::string> cpu_types()
{
  std::vector<std::string> v;
#ifdef MC_SIM_CPUS
  std::vector<std::pair<long,long>> have;
  for (int i= 0; MC_SIM_CPUS[i].type_str; i++) {
    std::pair<long,long> k(MC_SIM_CPUS[i].type, MC_SIM_CPUS[i].subtype);
    bool f= false; for (auto &h: have) if (h == k) f= true;
    if (f) continue;
    have.push_back(k);
    v.push_back(MC_SIM_CPUS[i].type_str);
  }
#endif
  if (v.empty()) v.push_back("");
  return v;
}
static inline void cpu_start(const std::string &type)
{
  if (type.empty()) sim_start(std::vector<std::string>());
  else sim_start(std::vector<std::string>{ "-t", type });
}

/* some of the types are known to be unimplemented: the simulator refuses them */
static inline bool cpu_refused(const std::string &type)
{
  pid_t p= fork();
  if (!p) { cpu_start(type); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) ;
  return WIFEXITED(st) && WEXITSTATUS(st) == 3;
}

/* run f in a child of the current process state, get its text */
enum { CHILD_TEXT= 400000 };
static inline std::string in_child(std::function<std::string()> f, int seconds= 20)
{
  static int nth= 0; nth++;
  if (getenv("MC_INLINE") && atoi(getenv("MC_INLINE")) == nth) return f(); // debugging aid
  static char *buf= 0;
  if (!buf) buf= (char*)mmap(0, CHILD_TEXT+16, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  int *len= (int*)buf; *len= -1;
  pid_t p= fork();
  if (p < 0) { fprintf(stderr, "fork\n"); _exit(3); }
  if (!p) {
    alarm(seconds);
    std::string s= f();
    if (s.size() > CHILD_TEXT-1) s.resize(CHILD_TEXT-1);
    memcpy(buf+8, s.data(), s.size()); *len= s.size();
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0) ;
  shm->beat++;
  if (*len < 0 || !WIFEXITED(st))
    return WIFSIGNALED(st) ? strf("DIED signal %d", WTERMSIG(st)) : strf("DIED exit %d", WEXITSTATUS(st));
  return std::string(buf+8, *len);
}

static inline u64 hash_bytes(const void *p, size_t n)
{
  const uint8_t *b= (const uint8_t*)p; u64 h= 0x9e3779b97f4a7c15ull ^ n;
  while (n >= 8) { u64 x; memcpy(&x, b, 8); h= (h ^ x) * 0xff51afd7ed558ccdull; h^= h >> 29; b+= 8; n-= 8; }
  while (n--) h= (h ^ *b++) * 0x100000001b3ull;
  return h ^ (h >> 32);
}
static inline int chip_bytes(cl_memory *m)
{ int b= 1; if (m->width > 8) b= 2; if (m->width > 16) b= 4; return b; }

/* everything that can be observed of the machine, as lines */
static inline std::string digest(bool hw= true)
{
  std::string s;
  s+= strf("PC %lx state %d ticks %llu\n", (long)uc->PC, uc->state, (u64)uc->ticks->get_ticks());
  for (int i= 0; i < uc->memchips->count; i++) {
    cl_memory_chip *c= (cl_memory_chip*)uc->memchips->at(i);
    if (c->is_named("variable_storage")) continue; // configuration cells of peripherals
    s+= strf("chip %s %llx\n", c->get_name("?"), hash_bytes(c->get_slot(0), (size_t)c->get_size()*chip_bytes(c)));
  }
  s+= cmd("info registers");
  for (int i= 0; i < uc->vars->by_name.count; i++) {
    cl_cvar *v= uc->vars->by_name.at(i);
    cl_memory_cell *c= v->get_cell();
    if (c && !c->nuof_ops()) s+= strf("var %s=%llx\n", v->get_name("?"), (u64)c->get());
  }
  if (hw)
    for (int i= 0; i < uc->hws->count; i++) {
      cl_hw *h= (cl_hw*)uc->hws->at(i);
      if (strcmp(h->id_string, "simif")) s+= cmd(strf("info hardware %s[%d]", h->id_string, h->id));
    }
  return s;
}
static inline std::string first_diff(const std::string &a, const std::string &b)
{
  size_t i= 0, l= 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') l= i+1; i++; }
  auto ln= [&](const std::string &x) { size_t e= x.find('\n', l); return x.substr(std::min(l, x.size()), e == std::string::npos ? e : e-l); };
  return "'" + ln(a).substr(0, 150) + "' versus '" + ln(b).substr(0, 150) + "'";
}

struct Lcg { uint32_t s; Lcg(uint32_t x): s(x*2654435761u+12345) {} uint32_t next() { s= s*1664525u + 1013904223u; return s >> 8; } };

/* cells with an operator attached (hardware, switchers) */
static inline bool is_cfg(cl_memory *m)
{
  std::string n= m->get_name("");
  return n == "variables" || (n.size() > 4 && n.substr(n.size()-4) == "_cfg");
}
struct HwCell { cl_address_space *as; t_addr a; };
static inline std::vector<HwCell> hw_cells()
{
  std::vector<HwCell> v;
  for (int i= 0; i < uc->address_spaces->count; i++) {
    cl_address_space *as= (cl_address_space*)uc->address_spaces->at(i);
    if (as->get_size() > 0x40000) continue;
    for (t_addr a= as->lowest_valid_address(); a <= as->highest_valid_address(); a++) {
      cl_memory_cell *c= as->get_cell(a);
      if (c && c->nuof_ops() > 0) v.push_back(HwCell{ as, a });
    }
  }
  return v;
}
static inline void fill_rom(uint32_t seed)
{
  Lcg r(seed);
  t_addr lo= uc->rom->lowest_valid_address(), hi= uc->rom->highest_valid_address();
  if (hi - lo > 0x1ffff) hi= lo + 0x1ffff;
  for (int i= 0; i < uc->memchips->count; i++) ;
  for (t_addr a= lo; a <= hi; a++) {
    u64 v= r.next();
    if (uc->rom->width > 16) v= (v << 16) ^ r.next();
    uc->rom->download(a, v);
  }
}
}
#endif
