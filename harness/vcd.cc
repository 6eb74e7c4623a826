/* Value change dumps: every history of writes, clocks, pauses and deletions is
   recorded by the real vcd unit, the file is read back by an independent
   parser, and replayed by a second unit. */
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <unistd.h>
#include "simdrv.h"
#define protected public
#define private public
#include "vcdcl.h"
#undef private
#undef protected
using namespace mc;
using std::string; using std::vector;
int mc::harness_default_shards= 0;
static string dir, fn;
static cl_vcd *vo, *vi;
static long kClk;                                   // clocks since the beginning of the case
// ---------------------------------------------------------------- the cells
struct Cell { const char *as; long a; int w; };
static const Cell cells[]= { { "qa", 1, 8 }, { "qa", 2, 8 }, { "qb", 0x10, 16 }, { "qc", 3, 32 } };
struct Var { const char *add; int cell, hi, lo; const char *name; };
static const Var vars[]= {
  { "va", 0, 7, 0, "va" }, { "vb", 0, 3, 3, "vb" }, { "qa 1 6 2", 0, 6, 2, "vc" }, { "vd", 2, 15, 0, "vd" }, { "ve", 3, 31, 0, "ve" },
  { "qa[2]", 1, 7, 0, "qa_0x2" }, { "qa 2 0", 1, 0, 0, "qa_0x2.0" }, { "qc 3 31", 3, 31, 31, "ve.31" }, { "qb 16 15 8", 2, 15, 8, "vd[15:8]" },
  { "qa 2 7", 1, 7, 7, "qa_0x2.7" }, { "qa[2].4", 1, 4, 4, "qa_0x2.4" }, { "qa 2 5 1", 1, 5, 1, "qa_0x2[5:1]" },
  { "qc 3 0", 3, 0, 0, "ve.0" }, { "qc 3 8 1", 3, 8, 1, "ve[8:1]" }, { "qb 16 14", 2, 14, 14, "vd.14" }, { "qa 1 0", 0, 0, 0, "va.0" }, { "qc 3 30 9", 3, 30, 9, "ve[30:9]" }, { "qb[16].3", 2, 3, 3, "vd.3" }, { "qa 1 4", 0, 4, 4, "va.4" }, { "qa 1 5", 0, 5, 5, "va.5" }, { "qb 0x10 7 4", 2, 7, 4, "vd[7:4]" }, { "qc 3 9 8", 3, 9, 8, "ve[9:8]" },
};
enum { NV= 12 };
static cl_memory_cell *cc[4];
static uint32_t field(int v, uint32_t x) { int w= vars[v].hi - vars[v].lo + 1; return (x >> vars[v].lo) & (w >= 32 ? 0xffffffffu : (1u << w) - 1); }
struct Ev { long long t; long long v; bool operator==(const Ev &o) const { return t == o.t && v == o.v; } };   // v -1: unknown
typedef vector<Ev> Wave;
static void squeeze(Wave &w)
{
  Wave r;
  for (auto &e: w) { if (!r.empty() && r.back().t == e.t) r.back()= e; else r.push_back(e); }
  w.clear();
  for (auto &e: r) if (w.empty() || w.back().v != e.v) w.push_back(e);
}
// ---------------------------------------------------------- reading the file
struct File { bool ok= true; string err, unit; double sec= 0; vector<string> names, ids; vector<int> widths; vector<Wave> w; long long last= -1, first= -1; };
static File parse(const char *f)
{
  File r; FILE *p= fopen(f, "r");
  auto bad= [&](const string &e) { if (r.ok) r.err= e; r.ok= false; };
  if (!p) { bad("no file"); return r; }
  vector<string> tk; char b[300]; while (fscanf(p, "%299s", b) == 1) tk.push_back(b);
  fclose(p);
  size_t i= 0; long long t= -1; bool head= true; string mod;
  std::map<string, int> id;
  while (i < tk.size())
    {
      string s= tk[i++];
      auto body= [&]() { vector<string> v; while (i < tk.size() && tk[i] != "$end") v.push_back(tk[i++]); if (i >= tk.size()) bad("no $end"); i++; return v; };
      if (s == "$date" || s == "$version" || s == "$comment" || s == "$upscope" || s == "$scope") body();
      else if (s == "$timescale")
	{ vector<string> v= body(); string u; for (auto &x: v) u+= x; r.unit= u; char q[20]= ""; double n= 0; if (sscanf(u.c_str(), "%lf%19s", &n, q) < 1) bad("timescale");
	  string k= q; r.sec= n * (k == "s" ? 1 : k == "ms" ? 1e-3 : k == "us" ? 1e-6 : k == "ns" ? 1e-9 : k == "ps" ? 1e-12 : k == "fs" ? 1e-15 : 0); if (r.sec == 0) bad("timescale " + u); }
      else if (s == "$var")
	{ vector<string> v= body(); if (v.size() != 4 || v[0] != "wire") { bad("var"); continue; }
	  if (id.count(v[2])) bad("identifier twice"); id[v[2]]= r.names.size(); r.names.push_back(v[3]); r.ids.push_back(v[2]); r.widths.push_back(atoi(v[1].c_str())); r.w.push_back(Wave()); }
      else if (s == "$enddefinitions") { body(); head= false; }
      else if (s == "$dumpvars" || s == "$dumpon" || s == "$dumpoff" || s == "$end") ;
      else if (head) bad("header: " + s);
      else if (s[0] == '#') { long long n= atoll(s.c_str() + 1); if (n < t) bad("time goes back"); t= n; if (r.first < 0) r.first= n; r.last= n; }
      else
	{
	  string v, k;
	  if (s[0] == 'b') { v= s.substr(1); if (i >= tk.size()) { bad("end"); break; } k= tk[i++]; }
	  else if (s[0] == '0' || s[0] == '1' || s[0] == 'x') { v= s.substr(0, 1); k= s.substr(1); }
	  else { bad("token " + s); continue; }
	  if (!id.count(k)) { bad("identifier " + k); continue; }
	  if (t < 0) bad("value before time");
	  int n= id[k]; if ((int)v.size() != r.widths[n]) bad("digits of " + k);
	  long long x= 0; for (char c: v) { if (c == 'x') { x= -1; break; } if (c != '0' && c != '1') bad("digit"); x= x * 2 + (c == '1'); }
	  r.w[n].push_back({ t, x });
	}
    }
  if (head) bad("no definitions");
  return r;
}
// ------------------------------------------------------------------ histories
enum { W0, W1, W2, W3, W4, W5, W6, T1, T9, TK, PAUSE, RESTART, DEL0, DELL, NOPS };
static const struct { int cell; uint32_t v; } wr[]= { { 0, 0x5a }, { 0, 0xa5 }, { 1, 0x81 }, { 2, 0xc33c }, { 3, 0x80000001 }, { 3, 0x7ffffff0 }, { 0, 0x5b } };
static const struct { const char *xtal; double hz; } xt[]= { { "1000000", 1e6 }, { "11059200", 11059200 }, { "3125000", 3125000 } };
static const struct { const char *cmd; double sec; } ts[]= { { 0, 0 }, { "1 ns", 1e-9 }, { "10 ps", 1e-11 }, { "1 us", 1e-6 }, { "100 ns", 1e-7 }, { "1 ms", 1e-3 }, { "1000 fs", 1e-12 } };
static const vector<vector<int>> sets= { { 0 }, { 1, 2 }, { 0, 1, 3, 4 }, { 3, 8, 4, 7 }, { 5, 6, 11, 9, 10 }, { 4, 2, 6, 5, 0, 1, 3, 7, 8 }, {}, { 0, 1, 2, 7, 8, 12, 13, 14, 15, 16, 17, 11, 9, 10, 6, 3, 4 }, { 0, 1, 2, 7, 8, 12, 13, 14, 15, 17, 18, 19, 20, 3, 16, 21, 4 } };
static const long pauses[]= { -1, 0, 5, 1000 };        // pause limits in us
static void tick(long n) { cmd(strf("tick %ld", n)); kClk+= n; }
static void hw(const string &s) { cmd("set hw vcd[0] " + s); }
static void fresh(double hz)
{
  for (cl_vcd *v: { vo, vi })
    {
      if (v->started && v->fd) { fclose(v->fd); }
      v->fd= NULL; v->started= v->paused= v->dobreak= false; v->on= false; v->clear_vars(); v->reset_next_var_id();
      v->starttime= v->event= v->timescale= 0; v->pausetime= -1; v->state= -1;
      if (v->filename) free(v->filename);
      v->filename= NULL;
    }
  uc->vcd_break= false;
  uc->ticks->set(0, 0.0); kClk= 0;
  uc->set_xtal(hz);
  for (int i= 0; i < 4; i++) cc[i]->write(0x11111111u * (i + 1));
}
struct Rec { vector<int> vs; vector<Wave> w; vector<bool> dead; double hz; bool started= false; long long endclk; double t0; };
// record: runs the operations, returns what has to be in the file
static void record(const Case &c, Rec &r, const vector<int> &vs, const vector<int> &ops, double hz, double sec, long plimit)
{
  r.vs= vs; r.hz= hz; r.w.assign(vs.size(), Wave()); r.dead.assign(vs.size(), false);
  uint32_t val[4]; for (int i= 0; i < 4; i++) val[i]= (uint32_t)cc[i]->get();
  double base= 0, shift= 0, pt= 0; bool paused= false, fresh_pause= false;
  base= kClk / hz;
  auto now= [&]() { return kClk / hz - base - shift; };
  auto ts= [&](double t) { return (long long)llround(t / sec); };
  auto rep= [&](int k, long long v) { if (!r.dead[k]) r.w[k].push_back({ ts(now()), v }); };
  auto all= [&](bool x) { for (size_t k= 0; k < vs.size(); k++) rep(k, x ? -1 : (long long)field(vs[k], val[vars[vs[k]].cell])); };
  hw("start"); all(false);
  for (int o: ops)
    {
      shm->transitions++;
      if (o <= W6)
	{
	  uint32_t m= cells[wr[o].cell].w == 32 ? 0xffffffffu : (1u << cells[wr[o].cell].w) - 1;
	  cc[wr[o].cell]->write(wr[o].v); val[wr[o].cell]= wr[o].v & m;
	  if (!paused) for (size_t k= 0; k < vs.size(); k++) if (vars[vs[k]].cell == wr[o].cell) rep(k, field(vs[k], val[wr[o].cell]));
	}
      else if (o == T1) tick(1);
      else if (o == T9) tick(9);
      else if (o == TK) tick(1234);
      else if (o == PAUSE) { hw("pause"); if (!paused) { all(true); paused= fresh_pause= true; pt= kClk / hz; } }
      else if (o == RESTART) { hw("restart"); }
      else if (o == DEL0 || o == DELL)
	{
	  size_t k= 0, n= vs.size(); int hit= -1;
	  for (k= 0; k < n; k++) if (!r.dead[k]) { hit= k; if (o == DEL0) break; }
	  if (hit >= 0) { hw(string("del ") + vars[vs[hit]].add); r.dead[hit]= true; }
	}
      if (paused && (o == RESTART || (o == PAUSE && !fresh_pause)))
	{
	  double gap= kClk / hz - pt; if (plimit >= 0 && gap > plimit * 1e-6) shift+= gap - plimit * 1e-6;
	  paused= false; all(false);
	}
      fresh_pause= false;
    }
  r.endclk= kClk; r.t0= base;
  hw("stop");
}
static bool compare(const Case &, Rec &r, const vector<int> &vs, double sec, File &f)
{
  if (!f.ok) { fail("file", "the file is not a valid dump: %s", f.err.c_str()); return false; }
  if (fabs(f.sec / sec - 1) > 1e-6) { fail("scale", "time unit is %s, should be %g s", f.unit.c_str(), sec); return false; }
  if (f.names.size() != vs.size()) { fail("vars", "%d variables in the file, should be %d", (int)f.names.size(), (int)vs.size()); return false; }
  for (size_t k= 0; k < vs.size(); k++)
    {
      const Var &v= vars[vs[k]];
      if (f.names[k] != v.name) { fail("name", "variable is called %s, should be %s", f.names[k].c_str(), v.name); return false; }
      if (f.widths[k] != v.hi - v.lo + 1) { fail("width", "%s is %d bits wide, should be %d", v.name, f.widths[k], v.hi - v.lo + 1); return false; }
      Wave a= f.w[k], b= r.w[k]; squeeze(a); squeeze(b);
      bool ok= a.size() == b.size();
      for (size_t i= 0; ok && i < a.size(); i++) if (a[i].v != b[i].v || llabs(a[i].t - b[i].t) > 1) ok= false;
      if (!ok)
	{
	  string s, t; for (auto &e: a) s+= strf(" %lld:%llx", e.t, e.v); for (auto &e: b) t+= strf(" %lld:%llx", e.t, e.v);
	  fail("wave", "recorded values of %s are%s, should be%s", v.name, s.c_str(), t.c_str()); return false;
	}
    }
  return true;
}
// KREC, xtal, timescale, pause limit, set, ops...
enum { KREC= 1, KSETUP, KPLAY };
static double autoscale(double hz) { double t= 1e3; while (t / hz < 1) t*= 1000; if (fmod(t / hz, 1.0) > 0) t*= 1000; return 1 / t; }
static bool rec(const Case &c, Rec &r, File &f, bool again= false)
{
  double hz= xt[c[1]].hz; fresh(hz);
  tick(c[1] * 7 + 3);
  hw("output \"" + fn + "\"");
  if (ts[c[2]].cmd) hw(string("timescale ") + ts[c[2]].cmd);
  if (pauses[c[3]] >= 0) hw(strf("pausetime %ld us", pauses[c[3]]));
  vector<int> vs= sets[c[4]], ops;
  for (int v: vs) hw(string("add ") + vars[v].add);
  for (size_t i= 5; i < c.size() && c[i] >= 0; i++) ops.push_back(c[i]);
  double sec= ts[c[2]].cmd ? ts[c[2]].sec : autoscale(hz);
  record(c, r, vs, ops, hz, sec, pauses[c[3]]);
  f= parse(fn.c_str());
  if (!compare(c, r, vs, sec, f)) return false;
  long long want= 0; { double gap= r.endclk / hz - r.t0; want= llround(gap / sec); }
  if (pauses[c[3]] < 0 && llabs(f.last - want) > 1) { fail("end", "the file ends at %lld, should be %lld", f.last, want); return false; }
  if (f.first != 0) { fail("begin", "the file begins at %lld", f.first); return false; }
  if (!again) return true;
  // another recording of what is left, with the same steps
  vector<int> left; for (size_t k= 0; k < vs.size(); k++) if (!r.dead[k]) left.push_back(vs[k]);
  Rec q; File g; tick(5);
  record(c, q, left, ops, hz, sec, pauses[c[3]]);
  g= parse(fn.c_str());
  if (!compare(c, q, left, sec, g)) return false;
  if (g.first != 0) { fail("begin", "the second file begins at %lld", g.first); return false; }
  return true;
}
static void run_rec(const Case &c)
{
  setcase(c.data(), c.size()); shm->evaluations++; shm->distinct++; shm->traces++; shm->states+= c.size() - 5;
  Rec r; File f; rec(c, r, f, true);
}
// KSETUP, ops: add v / delete v in any order, then a fixed history
static void run_setup(const Case &c)
{
  setcase(c.data(), c.size()); shm->evaluations++; shm->distinct++; shm->traces++;
  fresh(1e6); hw("output \"" + fn + "\"");
  vector<int> vs;
  for (size_t i= 1; i < c.size() && c[i] >= 0; i++)
    {
      int v= c[i] % NV; bool in= false; for (int x: vs) in|= x == v;
      shm->transitions++;
      if (c[i] < NV) { hw(string("add ") + vars[v].add); if (!in) vs.push_back(v); }
      else { hw(string("delete ") + vars[v].add); for (size_t k= 0; k < vs.size(); k++) if (vs[k] == v) { vs.erase(vs.begin() + k); break; } }
    }
  Rec r; vector<int> ops= { W1, T1, W2, W3, T9, W4, W5, TK, W0, T1 };
  record(c, r, vs, ops, 1e6, autoscale(1e6), -1);
  File f= parse(fn.c_str());
  compare(c, r, vs, autoscale(1e6), f);
}
// KPLAY, xtal, timescale, start shift, step pattern, pause step, set, ops...
static const int shifts[]= { 0, 3, 1000 };            // us
static const vector<vector<long>> steps= { { 1 }, { 2, 5 }, { 4000 }, { 7, 1, 1, 900 } };
static void run_play(const Case &c)
{
  setcase(c.data(), c.size()); shm->evaluations++; shm->distinct++; shm->traces++;
  Case rc= { KREC, c[1], c[2], 0, c[6] }; for (size_t i= 7; i < c.size(); i++) rc.push_back(c[i]);
  Rec r; File f;
  setcase(c.data(), c.size());
  if (!rec(rc, r, f)) return;
  double hz= xt[c[1]].hz, sec= f.sec;
  // change everything, another start
  uint32_t bg[4]= { 0x3c, 0x6d, 0x9669, 0x2468ace0u }, cur[4];
  for (int i= 0; i < 4; i++) { cc[i]->write(bg[i]); cur[i]= bg[i]; }
  tick(17);
  auto in= [&](const string &s) { cmd("set hw vcd[1] " + s); };
  in("input \"" + fn + "\"");
  for (int pass= 0; pass < 2; pass++) {
  int early= c[3] % 3, later= c[3] / 3;     // shift before and after start
  if (shifts[early]) in(strf("starttime %d us", shifts[early]));
  in("start");
  double t0= kClk / hz + (shifts[early] + shifts[later]) * 1e-6, hold= 0;
  if (shifts[later]) in(strf("starttime %d us", shifts[later]));
  // all events in order
  struct E { long long t; int v; long long x; }; vector<E> ev;
  { vector<size_t> at(f.w.size(), 0);
    while (1) { int b= -1; for (size_t k= 0; k < f.w.size(); k++) if (at[k] < f.w[k].size() && (b < 0 || f.w[k][at[k]].t < f.w[b][at[b]].t)) b= k;
      if (b < 0) break; ev.push_back({ f.w[b][at[b]].t, r.vs[b], f.w[b][at[b]].v }); at[b]++; } }
  size_t at= 0; const vector<long> &st= steps[c[4]];
  for (int k= 0; k < 14; k++)
    {
      if (k == c[5]) { in("pause"); long a= kClk; t_mem was[4]; for (int i= 0; i < 4; i++) was[i]= cc[i]->get(); tick(700); hold+= (kClk - a) / hz;
	for (int i= 0; i < 4; i++) if (cc[i]->get() != was[i]) { fail("paused", "cell %d changed while replay was paused", i); return; }
	in("restart"); }
      tick(k == 13 ? 40000 : st[k % st.size()]);
      shm->transitions++; shm->states++;
      double now= kClk / hz - t0 - hold; bool edge= false;
      while (at < ev.size())
	{
	  double t= ev[at].t * sec;
	  if (fabs(now - t) < 1e-9 + sec * 0.01) { edge= true; break; }
	  if (t > now) break;
	  const Var &v= vars[ev[at].v]; uint32_t m= field(ev[at].v, 0xffffffffu) << v.lo;
	  if (ev[at].x >= 0) cur[v.cell]= (cur[v.cell] & ~m) | ((uint32_t)ev[at].x << v.lo & m);
	  at++;
	}
      if (edge)
	{ // just at an event: it may or may not have happened
	  continue;
	}
      for (int i= 0; i < 4; i++)
	if (cc[i]->get() != (t_mem)cur[i])
	  { fail("play", "%s[%lx] is %x, should be %x %.9f s after the start of the replay (file time %.0f)", cells[i].as, cells[i].a, (unsigned)cc[i]->get(), cur[i], now, now / sec); in("stop"); return; }
    }
  in("stop"); tick(3);
  }
}
static void setup()
{
  static bool done= false; if (done) return; done= true;
  char t[]= "/dev/shm/mcvcdXXXXXX", u[]= "/tmp/mcvcdXXXXXX"; const char *d= mkdtemp(t); dir= d ? d : mkdtemp(u); fn= dir + "/a.vcd";
  sim_start({});
  for (auto &s: { "memory create chip ca 16 8", "memory create chip cb 16 16", "memory create chip cd 16 32", "memory create addressspace qa 0 16 8", "memory create addressspace qb 0x10 16 16", "memory create addressspace qc 0 16 32",
      "memory create addressdecoder qa 0 15 ca 0", "memory create addressdecoder qb 0x10 0x1f cb 0", "memory create addressdecoder qc 0 15 cd 0",
      "var va qa[1]", "var vb qa[1].3", "var vc qa 1 6 2", "var vd qb[0x10]", "var ve qc[3]", "set hw vcd[0] new 1" }) cmd(s);
  for (int i= 0; i < 4; i++) cc[i]= as(cells[i].as)->get_cell(cells[i].a);
  vo= (cl_vcd*)uc->get_hw("vcd", 0, NULL); vi= (cl_vcd*)uc->get_hw("vcd", 1, NULL);
}
static void clean() { unlink(fn.c_str()); rmdir(dir.c_str()); }
void mc::harness_run()
{
  setup();
  long job= 0; auto mine= [&]() { if (job++ % nshards != shard) return false; beat(); return true; };
  // what is watched
  for (int a= 0; a < 2 * NV; a++) for (int b= -1; b < 2 * NV; b++) if (mine())
    {
      if (b < 0) { run_setup({ KSETUP, a }); continue; }
      run_setup({ KSETUP, a, b });
      for (int d= 0; d < 2 * NV; d++) run_setup({ KSETUP, a, b, d });
      if (thorough) for (int d= 0; d < 2 * NV; d++) for (int e= 0; e < 2 * NV; e++) run_setup({ KSETUP, a, b, d, e });
    }
  // recording
  int depth= thorough ? 5 : 4;
  for (int s= 0; s < (int)sets.size(); s++)
    for (int x= 0; x < 3; x++) for (int p= 0; p < 4; p++)
      {
	if (!thorough && x && p) continue;
	int d= s == 2 && x == 0 ? depth : depth - 1;
	vector<int> dig(d, 0);
	long n= 1; for (int i= 0; i < d; i++) n*= NOPS;
	for (long q= 0; q < n; q++)
	  {
	    if (q % 64 == 0) job++;
	    if (job % nshards != shard) continue;
	    if (q % 64 == 0) beat();
	    Case c= { KREC, x, 0, p, s }; long k= q; for (int i= 0; i < d; i++) { c.push_back(k % NOPS); k/= NOPS; }
	    run_rec(c);
	  }
      }
  for (int t= 1; t < 7; t++) for (int x= 0; x < 3; x++) for (int p= 0; p < 4; p+= 2)
    for (int a= 0; a < NOPS; a++) if (mine()) for (int b= 0; b < NOPS; b++) run_rec({ KREC, x, t, p, 2, T9, a, b, W0 });
  // replay
  for (int x= 0; x < 3; x++) for (int t: { 0, 2 }) for (int h= 0; h < 9; h++) for (int st= 0; st < 4; st++) for (int pa: { -1, 1, 6 })
    for (int s: { 2, 1, 8 }) for (int a= 0; a < NOPS; a++)
      {
	if (!mine()) continue;
	if (!thorough && h > 2 && h % 3 && pa > 0) continue;
	for (int b= 0; b < NOPS; b++) { run_play({ KPLAY, x, t, h, st, pa, s, T1, a, b, T9, W1, W5 });
	  if (thorough) for (int e= 0; e < NOPS; e++) run_play({ KPLAY, x, t, h, st, pa, s, a, b, e, T9, W4 }); }
      }
  clean();
}
void mc::harness_replay(const Case &c)
{
  setup();
  if (c[0] == KREC) run_rec(c); else if (c[0] == KSETUP) run_setup(c); else run_play(c);
  clean();
}
