/* However an execution is divided and watched, it is the same execution. */
#include "cpu.h"
#include <set>
using namespace mc;
int mc::harness_default_shards= 32;

static std::vector<HwCell> hwc;
/* a command that only looks, and the memory it shows */
struct Look { std::string cmd; cl_address_space *as; t_addr lo, hi; };
static std::vector<Look> looks;
static std::string type; static t_addr start; static int sub16= 0;

static void prepare(int op, int scen);
static void setup(const std::string &t)
{
  cpu_start(t); type= t.empty() ? "default" : t;
  fill_rom(7);
  cmd("reset");
  start= uc->rom->lowest_valid_address() + 0x120;
  if (!uc->rom->valid_address(start+0x40)) start= uc->rom->lowest_valid_address();
  start&= ~(t_addr)7;
  hwc= hw_cells();
  looks.clear();
  auto look= [](const std::string &c, cl_address_space *as= 0, t_addr lo= 0, t_addr hi= 0) { looks.push_back(Look{ c, as, lo, hi }); };
  for (const char *c: { "state", "pc", "where", "info breakpoints", "info registers", "info stack", "info memory", "info history", "history",
    "info hardware", "memory", "timer list", "help", "help info", "conf", "conf objects", "get option", "info commands", "display", "file", "help step",
    "disassemble", "set option", "set hardware", "statistic", "expression 1+2", "dc 0" }) look(c);
  look("dch 0", uc->rom, 0, 0x60);
  look(strf("disassemble 0x%lx 0x%lx", (long)start-8, (long)start+16));
  for (int i= 0; i < uc->address_spaces->count; i++) {
    cl_address_space *as= (cl_address_space*)uc->address_spaces->at(i);
    t_addr lo= as->lowest_valid_address(), end= as->highest_valid_address(), hi= std::min(end, lo+0x300);
    const char *n= as->get_name();
    look(strf("dump %s 0x%lx 0x%lx", n, (long)lo, (long)hi), as, lo, hi);
    look(strf("dump %s", n), as, lo, end);
    look(strf("memory cell %s[0x%lx]", n, (long)lo), as, lo, lo);
    look(strf("expression %s[0x%lx]", n, (long)lo), as, lo, lo);
    look(strf("break %s r 0x%lx 90000", n, (long)lo));
    look(strf("where %s 0x55", n), as, lo, end);                // shows the cells it finds
    look(strf("where %s 0x55 0xa9 0x3e 0xc4 0x71", n));
    look(strf("hole %s 0 20", n));
  }
  for (int i= 0; i < uc->memchips->count; i++) look(strf("dump %s 0 20", ((cl_memory*)uc->memchips->at(i))->get_name()));
  for (int i= 0; i < uc->hws->count; i++) {
    cl_hw *h= (cl_hw*)uc->hws->at(i);
    look(strf("info hardware %s[%d]", h->id_string, h->id));
    look(strf("set hardware %s[%d]", h->id_string, h->id));
  }
  for (HwCell &c: hwc) {
    look(strf("dump %s 0x%lx 0x%lx", c.as->get_name(), (long)c.a, (long)c.a), c.as, c.a, c.a);
    if (c.as == uc->rom) look(strf("dc 0x%lx 0x%lx", (long)c.a, (long)c.a));
    look(strf("break %s r 0x%lx 90000", c.as->get_name(), (long)c.a));
    look(strf("break %s w 0x%lx 90000", c.as->get_name(), (long)c.a));
  }
  // Hardware that reacts to being read: showing it is no mere look
  std::string react= in_child([] {
    std::string r;
    for (int scen= 0; scen < 3; scen++) {
      prepare(0, scen);
      std::string d= digest();
      for (int pass= 0; pass < 2; pass++)
        for (size_t i= 0; i < hwc.size(); i++) {
          hwc[i].as->read(hwc[i].a);
          std::string e= digest();
          if (d != e) { r+= strf("%d ", (int)i); d= e; }
        }
    }
    return r;
  }, 600);
  if (react.substr(0, 4) == "DIED") { fprintf(stderr, "reading hardware: %s\n", react.c_str()); _exit(3); }
  bool any= false; std::set<int> rs;
  for (const char *q= react.c_str(); *q; ) { char *e; long v= strtol(q, &e, 10); if (e == q) break; q= e; rs.insert(v); if (!is_cfg(hwc[v].as)) any= true; }
  if (getenv("MC_TRACE")) for (int r: rs) fprintf(stderr, "reacts: %s[%lx]\n", hwc[r].as->get_name(), (long)hwc[r].a);
  std::vector<Look> keep;
  for (Look &l: looks) {
    bool bad= false;
    for (int r: rs) if (hwc[r].as == l.as && hwc[r].a >= l.lo && hwc[r].a <= l.hi) bad= true;
    if (!bad) keep.push_back(l);
  }
  looks= keep;
  if (!any) looks.push_back(Look{ "info variables", 0, 0, 0 }), looks.push_back(Look{ "var", 0, 0, 0 });
}

static void prepare(int op, int scen)
{
  int w= uc->rom->width;
  Lcg r(op*31+scen*7+1);
  t_mem v= op;
  if (w > 8) v= ((t_mem)op << (w-8)) | (((t_mem)r.next() ^ (t_mem)r.next() << 16) & (((t_mem)1 << (w-8)) - 1));
  for (int i= 0; i < 24; i++) uc->rom->download(start+i, r.next());
  uc->rom->download(start, v);
  // peripherals and interrupt controllers in some arbitrary but defined mode
  if (scen)
    for (HwCell &c: hwc) if (!is_cfg(c.as) && (c.as != uc->rom || scen > 1)) c.as->write(c.a, r.next());
  uc->set_PC(start); uc->PC= start;
}

enum { N= 6 };
/* run the commands; a look command is executed, others start the simulation,
   which is stopped after N main loop turns that executed something */
static std::string run_plan(int op, int scen, const std::vector<std::string> &plan, bool rest= true)
{
  prepare(op, scen);
  int done= 0;
  take_output();
  auto turn= [&]() {
    while ((sim->state & SIM_GO) && done < N) {
      u64 t= uc->ticks->get_ticks(); t_addr pc= uc->PC;
      sim->step(); done++;
      if (getenv("MC_TRACE")) fprintf(stderr, "%d PC=%lx go=%d ticks=%llu\n", done, (long)uc->PC, sim->state & SIM_GO, (u64)uc->ticks->get_ticks());
      if (!(sim->state & SIM_GO)) {
        std::string o= take_output();
        if (getenv("MC_TRACE")) fprintf(stderr, "[%s]\n", o.c_str());
        if (uc->ticks->get_ticks() == t && uc->PC == pc && uc->fbrk->bp_at(pc) && o.find(": (106) ") == std::string::npos) done--; // stopped before it
      }
    }
    if (sim->state & SIM_GO) cmd("stop");
    take_output();
  };
  for (auto &c: plan) { cmd(c); if (sim->state & SIM_GO) turn(); }
  int guard= 0;
  while (done < N && guard++ < 50) { cmd("run"); turn(); }
  cmd("delete");
  return digest();
}
static std::vector<std::string> pcs(int op, int scen)
{
  prepare(op, scen);
  std::vector<std::string> v;
  for (int i= 0; i < N; i++) { v.push_back(strf("%ld", (long)uc->PC)); uc->do_inst(); }
  return v;
}

static void one(int op, int scen, int only= -1)
{
  setcase({ shard, op, scen });
  std::string ref= in_child([&] { return run_plan(op, scen, {}); });
  if (ref.substr(0, 4) == "DIED") { fail(type+":died", "%s: opcode %02x scenario %d: %s", type.c_str(), op, scen, ref.c_str()); return; }
  shm->evaluations++;
  static std::vector<bool> seen(1<<22);
  size_t h= hash_bytes(ref.data(), ref.size()) & ((1<<22)-1);
  if (!seen[h]) seen[h]= true, shm->states++, shm->distinct++;
  std::vector<std::pair<std::string,std::vector<std::string>>> plans;
  plans.push_back({ "single", { "step", "step", "step", "step", "step", "step" } });
  plans.push_back({ "steps", { "step 6" } });
  plans.push_back({ "split", { "step 2", "step 3" } });
  { std::vector<std::string> p; for (int i= 0; i < N; i++) { for (auto &l: looks) p.push_back(l.cmd); p.push_back("step"); } if (op % 16 == sub16) plans.push_back({ "look", p }); }
  { std::string t= in_child([&] { std::string s; for (auto &x: pcs(op, scen)) s+= x + " "; return s; });
    std::vector<std::string> p; const char *q= t.c_str(); int i= 0;
    while (*q) { char *e; long v= strtol(q, &e, 10); if (e == q) break; q= e; if (i++ && v != (long)start) p.push_back(strf("break %ld", v)); }
    for (int i= 0; i < 10; i++) p.push_back("run");
    plans.push_back({ "break", p }); }
  for (size_t i= 0; i < plans.size(); i++) {
    std::string t= in_child([&] { return run_plan(op, scen, plans[i].second); });
    shm->transitions+= N; shm->traces++;
    if (t == ref) continue;
    std::string who= plans[i].first;
    if (who == "look" && !failed_already(type+":look")) {
      // which one
      for (auto &l: looks) {
        std::vector<std::string> p; for (int j= 0; j < N; j++) { p.push_back(l.cmd); p.push_back("step"); }
        std::string t1= in_child([&] { return run_plan(op, scen, p); });
        if (t1 != ref) { who+= " by "+l.cmd; t= t1; break; }
      }
    }
    std::string sig= type+":"+plans[i].first;
    fail(sig, "%s: opcode %02x scenario %d, %s: %s", type.c_str(), op, scen, who.c_str(), first_diff(ref, t).c_str());
  }
}

/* every look alone, before each instruction */
static void alone(int scen)
{
  setcase({ shard, -1, scen });
  std::string ref= in_child([&] { return run_plan(0, scen, {}); });
  shm->evaluations++; shm->distinct++;
  for (auto &l: looks) {
    std::vector<std::string> p; for (int j= 0; j < 3; j++) { p.push_back(l.cmd); p.push_back("step"); }
    std::string t= in_child([&] { return run_plan(0, scen, p); });
    shm->transitions+= N; shm->traces++;
    if (t != ref) fail(type+":alone", "%s: scenario %d, look by %s: %s", type.c_str(), scen, l.cmd.c_str(), first_diff(ref, t).c_str());
  }
}

void mc::harness_run()
{
  std::vector<std::string> types= cpu_types();
  int nt= types.size(), t= shard % nt, sub= shard / nt, nsub= nshards / nt + (shard % nt < nshards % nt ? 1 : 0);
  if (nshards < nt) { fprintf(stderr, "too few shards\n"); _exit(3); }
  if (cpu_refused(types[t])) return;
  setup(types[t]);
  for (int scen= 0; scen < (thorough ? 8 : 2); scen++)
    if ((scen + 7) % nsub == sub && (thorough || nt <= 6 || t % ((nt+5)/6) == 0 || scen == 1)) alone(scen);
  for (int op= 0; op < 256; op++)
    for (int scen= 0; scen < (thorough ? 8 : 3); scen++) {
      // quick: every opcode and scenario on every sixth type (of a family), but all types see some
      if (!thorough && nt > 6 && (op + scen + t) % ((nt+5)/6)) continue;
      if ((op*3+scen) % nsub == sub) one(op, scen);
    }
}
void mc::harness_replay(const Case &c)
{
  std::vector<std::string> types= cpu_types();
  setup(types[c[0] % types.size()]);
  shard= c[0];
  if (c[1] < 0) alone(c[2]); else one(c[1], c[2]);
}
