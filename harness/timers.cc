/* Virtual timers and clock accounting: every short history of timer commands, executed instructions,
   interrupts, idle and power down cycles on the real 8052 and the real command interpreter, compared
   after each step with an independent model. */
#include <memory>
#include <map>
#include "simdrv.h"
#include "cpu.h"
using namespace mc;
using std::string; using std::vector;
int mc::harness_default_shards= 0;
enum { ANY, ISR, IDLE, HALT };
struct T { string name; int dir, type; bool run; uint64_t ticks; double t; bool user; };
static std::map<int,T> tm; static double xtal; static uint64_t inst;
static bool inisr, idle, pd, ie, pdbit, idbit; static int tf;     // model of the processor
static cl_address_space *sfr; static uint8_t *rom; static int nbuiltin;
static string txt; static bool stop;
static void bad(const char *sig, const string &s) { fail(sig, "%s after%s", s.c_str(), txt.c_str()); stop= true; }
static string line(int nr, const T &t) { static const char *N[]= { "", ",ISR", ",IDLE", ",HALT" }; return strf("timer #%d(\"%s\") %s%s", nr, t.name.empty() ? "unnamed" : t.name.c_str(), t.run ? "ON" : "OFF", N[t.type]); }
static bool near(double a, double b) { double d= a - b, m= std::max(a < 0 ? -a : a, b < 0 ? -b : b); if (d < 0) d= -d; return d <= 2e-15 + m * 1e-9; }
// compare a listing with the given timers
static void compare(const string &out, const vector<int> &which, const char *what)
{
  size_t p= 0; size_t i= 0;
  while (p < out.size())
    {
      size_t e= out.find('\n', p); if (e == string::npos) e= out.size();
      string l= out.substr(p, e - p); p= e + 1;
      if (l.compare(0, 7, "timer #")) continue;
      if (i >= which.size()) { bad("list:extra", strf("%s shows %s", what, l.c_str())); return; }
      T &t= tm[which[i]]; string w= line(which[i], t); i++;
      if (l.compare(0, w.size() + 1, w + " ")) { bad("list", strf("%s shows %s, should be %s", what, l.c_str(), w.c_str())); return; }
      double s; unsigned long c;
      if (sscanf(l.c_str() + w.size(), "%lf sec (%lu clks)", &s, &c) != 2) { bad("list:format", l); return; }
      if (c != t.ticks) { bad("ticks", strf("%s shows %s, should be %lu clks", what, l.c_str(), (unsigned long)t.ticks)); return; }
      if (!near(s, t.t)) { bad("time", strf("%s shows %s, should be %.15f sec", what, l.c_str(), t.t)); return; }
    }
  if (i != which.size()) bad("list:missing", strf("%s shows %d timers instead of %d", what, (int)i, (int)which.size()));
}
static string ask(const string &c) { return cmd(c.c_str()); }
static void checkall()
{
  vector<int> w; for (auto &t: tm) w.push_back(t.first);
  compare(ask("timer list"), w, "timer list");
  if (stop) return;
  unsigned long v= 0; string o= ask("state"); size_t p= o.find("Inst= ");
  if (p != string::npos) v= strtoul(o.c_str() + p + 6, 0, 10);
  if (p == string::npos || v != inst) bad("inst", strf("state shows %lu instructions, should be %lu", v, (unsigned long)inst));
}
static int find(const string &id) { if (isdigit(id[0])) { int n= atoi(id.c_str()); return tm.count(n) ? n : 0; } for (auto &t: tm) if (t.second.name == id) return t.first; return 0; }
// ------------------------------------------------------------ executing
static void pass(long clk, long di, long dl, long dh)
{
  double q= 1 / xtal;
  for (auto &k: tm)
    {
      T &t= k.second; if (!t.run) continue;
      long d= t.type == ANY ? clk : t.type == ISR ? di : t.type == IDLE ? dl : dh;
      if (t.dir >= 0) t.ticks+= d, t.t+= d * q; else t.ticks-= d, t.t-= d * q;
    }
}
static void range(const char *n, long v, long lo, long hi) { if (v < lo || v > hi) bad(n, strf("%ld clocks are counted by the %s timer, expected %ld..%ld", v, n, lo, hi)); }
static void step(const char *name, std::initializer_list<int> b, int cyc)
{
  bool go= !idle && !pd;
  if (go) { int a= uc->PC; for (int v: b) rom[a++]= v; }
  else cyc= 1;
  uint64_t t0= uc->ticks->get_ticks(), i0= uc->isr_ticks->get_ticks(), l0= uc->idle_ticks->get_ticks(), h0= uc->halt_ticks->get_ticks();
  int op= go ? *b.begin() : -1;
  uc->do_inst();
  shm->transitions++;
  long dt= uc->ticks->get_ticks() - t0, di= uc->isr_ticks->get_ticks() - i0, dl= uc->idle_ticks->get_ticks() - l0, dh= uc->halt_ticks->get_ticks() - h0;
  bool was= inisr, widle= idle, wpd= pd;
  if (go) inst++;
  if (op == 0xd2) tf= 1;
  if (op == 0x32) inisr= false;
  if (op == 0x75) idbit= *(b.begin() + 2) == 1, pdbit= !idbit;
  bool acc= false;
  if (!pd && ie && tf && !inisr && op != 0x32) acc= true, tf= 0, inisr= true, idle= idbit= false;
  else { if (idbit) idle= true; if (pdbit) pd= true, idle= false; }
  long c= cyc * 12;
  (void)name;
  if (acc) range("total", dt, c + 12, c + 8 * 12); else range("total", dt, c, c);
  if (stop) return;
  long e= dt - c;
  if (op == 0x32 && was) range("isr", di, 0, c); else range("isr", di, was ? c : 0, (was ? c : 0) + e);
  range("idle", dl, widle ? c : 0, widle ? c + e : 0);
  range("halt", dh, wpd ? c : 0, wpd ? c : 0);
  pass(dt, di, dl, dh);
  counter("clocks")+= dt;
}
// ------------------------------------------------------------ the alphabet
struct Op { string text; int kind; string id; int a; long n; double x; };
enum { EXEC, ADD, DEL, RUN, STOP, VAL, VALT, VALNT, SHOW, GET, TICK, XTAL };
static vector<Op> ops; static vector<int> small;
static void mkops()
{
  auto add= [&](const Op &o, bool s= false) { if (s) small.push_back(ops.size()); ops.push_back(o); };
  static const char *E[]= { "NOP", "MUL AB", "SETB TF0", "RETI", "MOV PCON,#1 (idle)", "MOV PCON,#2 (power down)" };
  for (int i= 0; i < 6; i++) add({ E[i], EXEC, "", i, 0, 0 }, true);
  static const char *ID[]= { "6", "8", "foo", "bar" };
  static const struct { const char *t; int dir, type; } SP[]= { { "", 1, ANY }, { " -1", -1, ANY }, { " 1 \"isr\"", 1, ISR }, { " -1 \"idle\"", -1, IDLE }, { " 1 \"halt\"", 1, HALT }, { " -1 1", -1, ISR }, { " 5", 5, ANY }, { " 1 0", 1, ANY } };
  for (auto id: ID) for (int k= 0; k < 8; k++) add({ strf("timer add %s%s", id, SP[k].t), ADD, id, SP[k].dir, SP[k].type, 0 }, (*id == '6' && (k == 1 || k == 2)) || (*id == 'f' && (k == 0 || k == 3)));
  static const char *ID2[]= { "6", "8", "foo", "bar", "1", "5", "isr", "99" };
  for (auto id: ID2) {
    bool s= *id == '6' || *id == 'f', bi= *id == '1' || *id == 'i';
    add({ strf("timer delete %s", id), DEL, id, 0, 0, 0 }, s);
    add({ strf("timer value %s", id), SHOW, id, 0, 0, 0 });
    add({ strf("timer get %s", id), GET, id, 0, 0, 0 });
    if (bi) continue;
    add({ strf("timer start %s", id), RUN, id, 0, 0, 0 }, s);
    add({ strf("timer stop %s", id), STOP, id, 0, 0, 0 }, s);
    for (long n: { 0L, 7L, 5000000000L }) add({ strf("timer value %s %ld", id, n), VAL, id, 0, n, 0 }, s && n == 7);
    add({ strf("timer value %s 1000 \"us\"", id), VALT, id, 0, 0, 1e-3 });
    add({ strf("timer value %s 5000 \"s\"", id), VALT, id, 0, 0, 5000 });
    add({ strf("timer value %s 77 3 \"ms\"", id), VALNT, id, 0, 77, 3e-3 });
  }
  add({ "tick 5", TICK, "", 5, 0, 0 }); add({ "tick 1", TICK, "", 1, 0, 0 }, true);
  add({ "set option \"xtal\" 1000000", XTAL, "", 0, 0, 1e6 }, true); add({ "set option \"xtal\" 24000000", XTAL, "", 0, 0, 24e6 });
}
static void apply(const Op &o)
{
  txt+= " " + o.text + ";";
  static const std::initializer_list<int> B[]= { { 0 }, { 0xa4 }, { 0xd2, 0x8d }, { 0x32 }, { 0x75, 0x87, 1 }, { 0x75, 0x87, 2 } };
  static const int CY[]= { 1, 4, 1, 2, 2, 2 };
  int nr= o.id.empty() ? 0 : find(o.id); string out;
  switch (o.kind) {
  case EXEC: step(o.text.c_str(), B[o.a], CY[o.a]); break;
  case ADD:
    out= ask(o.text);
    if (nr) { if (out.find("rror") == string::npos) bad("add", "a second timer of the same name is not refused: " + out); break; }
    if (isdigit(o.id[0])) nr= atoi(o.id.c_str()); else { nr= 1; while (tm.count(nr)) nr++; }
    tm[nr]= { isdigit(o.id[0]) ? "" : o.id, o.a, (int)o.n, true, 0, 0, true };
    break;
  case DEL: ask(o.text); if (nr && tm[nr].user) tm.erase(nr); break;
  case SHOW: case GET: out= ask(o.text); { vector<int> w; if (nr) w.push_back(nr); compare(out, w, o.text.c_str()); } break;
  case RUN: ask(o.text); if (nr) tm[nr].run= true; break;
  case STOP: ask(o.text); if (nr) tm[nr].run= false; break;
  case VAL: ask(o.text); if (nr) tm[nr].ticks= o.n, tm[nr].t= o.n / xtal; break;
  case VALNT: ask(o.text); if (nr) tm[nr].ticks= o.n, tm[nr].t= o.x; break;
  case VALT: ask(o.text); if (nr) { T &t= tm[nr]; t.t= o.x; t.ticks= o.x * xtal; cl_ticker *k= uc->get_counter(nr); if (k && k->get_ticks() - t.ticks + 1 <= 2) t.ticks= k->get_ticks(); } break;
  case TICK: ask(o.text); { long c= o.a * 12; pass(c, inisr ? c : 0, idle ? c : 0, pd ? c : 0); } break;
  case XTAL: ask(o.text); xtal= o.x; break;
  }
  if (!stop) checkall();
}
static const int PRE[][5]= { { -1 }, { 0 }, { 1 }, { 2 } };
static void begin(int pre)
{
  while (uc->counters->count > nbuiltin) { void *p= uc->counters->at(uc->counters->count - 1); uc->counters->disconn_at(uc->counters->count - 1); delete (cl_ticker*)p; }
  uc->reset();
  sfr->write(0xa8, 0x82);
  tm.clear(); txt.clear(); stop= false; inisr= idle= pd= pdbit= idbit= false; ie= true; tf= 0; inst= 0; xtal= 11059200;
  ask("set option \"xtal\" 11059200");
  static const char *B[]= { "", "time", "isr", "idle", "halt" };
  for (int i= 1; i < 5; i++) tm[i]= { B[i], 1, i - 1, true, 0, 0, false };
  uc->PC= 0x100;
  auto doit= [&](const char *t) { for (auto &o: ops) if (o.text == t) { apply(o); return; } fprintf(stderr, "no %s\n", t); exit(2); };
  if (pre & 1) { doit("timer add 6 -1 1"); doit("timer add foo"); doit("timer add bar 1 \"halt\""); doit("timer add 8 -1 \"idle\""); }
  if (pre & 2) { doit("SETB TF0"); doit("MUL AB"); }
  if (pre & 4) { doit("MOV PCON,#1 (idle)"); doit("NOP"); }
}
static void run(const Case &c)
{
  setcase(c);
  begin(c[0]);
  for (size_t i= 1; i < c.size() && !stop; i++) apply(ops[c[i]]);
  if (!stop) { apply(ops[1]); }
  shm->evaluations++; shm->traces++; shm->distinct++; beat();
}
static void setup()
{
  sim_start({ "-t", "C52" });
  attach_console(); mkops();
  sfr= as("sfr"); rom= chip8("rom_chip"); nbuiltin= uc->counters->count;
}
static u64 idx;
static void all(int pre, const vector<int> &al, int d)
{
  long tot= 1; for (int i= 0; i < d; i++) tot*= al.size();
  for (long k= 0; k < tot; k++)
    {
      if ((int)(idx++ % nshards) != shard) continue;
      Case c= { pre }; long x= k; for (int i= 0; i < d; i++) c.push_back(al[x % al.size()]), x/= al.size();
      run(c);
    }
}
void mc::harness_run()
{
  setup();
  vector<int> full; for (size_t i= 0; i < ops.size(); i++) full.push_back(i);
  for (int pre= 0; pre < 8; pre++) { all(pre, full, 1); all(pre, full, 2); shm->states++; }
  for (int pre= 0; pre < 8; pre++) { all(pre, small, 3); all(pre, small, 4); }
  all(thorough ? 7 : 1, full, 3);
  if (thorough) { all(0, full, 3); all(1, full, 3); all(3, full, 3); all(5, full, 3); all(1, small, 5); }
  if (!shard) sample("timer add 6 -1; SETB TF0; RETI");
}
void mc::harness_replay(const Case &c) { setup(); run(c); }
