/* Whatever ran before, a reset machine is the machine as started. */
#include "cpu.h"
#include <set>
#include <map>
using namespace mc;
#ifndef MC_PER
#define MC_PER 2
#endif
int mc::harness_default_shards= (int)cpu_types().size() * MC_PER;
static std::vector<HwCell> hwc; static std::string type;
static std::set<std::string> MUST;            // spaces whose every cell has a reset value
struct Saved { cl_memory_chip *c; std::vector<char> d; };
static std::vector<Saved> saved; static std::vector<std::pair<cl_memory_cell*, t_mem>> vsaved;
static std::set<void*> hwdata;                // storage of the peripherals' registers

// what is read where there is no memory is not defined
static std::vector<cl_memory_cell*> nowhere;
static std::string look()
{
  std::string s= strf("PC %lx state %d ticks %llu isr %llu idle %llu halt %llu levels %d stack_ops %d irq %d inst %llu\n", (long)uc->PC, uc->state, (u64)uc->ticks->get_ticks(), (u64)uc->isr_ticks->get_ticks(),
    (u64)uc->idle_ticks->get_ticks(), (u64)uc->halt_ticks->get_ticks(), uc->it_levels->count, uc->stack_ops->count, uc->irq, (u64)uc->vc.inst);
  for (HwCell &c: hwc) if (!is_cfg(c.as)) s+= strf("%s[%lx] %llx\n", c.as->get_name(), (long)c.a, (u64)c.as->get(c.a));
  for (int i= 0; i < uc->address_spaces->count; i++) {
    cl_address_space *as= (cl_address_space*)uc->address_spaces->at(i);
    if (MUST.count(as->get_name())) for (t_addr a= as->lowest_valid_address(); a <= as->highest_valid_address(); a++) s+= strf("%s[%lx] %llx\n", as->get_name(), (long)a, (u64)as->get(a));
  }
  for (int i= 0; i < uc->hws->count; i++) {
    cl_hw *h= (cl_hw*)uc->hws->at(i);
    if (strcmp(h->id_string, "simif")) { std::string t= cmd(strf("info hardware %s[%d]", h->id_string, h->id)); s+= t.substr(0, t.find("Configuration memory")); }
  }
  return s;
}
static void save()
{
  nowhere.clear();
  for (int i= 0; i < uc->address_spaces->count; i++) { cl_address_space *as= (cl_address_space*)uc->address_spaces->at(i); cl_memory_cell *c= as->get_cell(as->highest_valid_address() + 1); if (c) nowhere.push_back(c); }
  saved.clear(); vsaved.clear(); hwdata.clear();
  for (HwCell &c: hwc) hwdata.insert(c.as->get_cell(c.a)->get_data());
  for (int i= 0; i < uc->address_spaces->count; i++) {
    cl_address_space *as= (cl_address_space*)uc->address_spaces->at(i);
    if (MUST.count(as->get_name())) for (t_addr a= as->lowest_valid_address(); a <= as->highest_valid_address(); a++) { cl_memory_cell *c= as->get_cell(a); if (c) hwdata.insert(c->get_data()); }
  }
  for (int i= 0; i < uc->memchips->count; i++) {
    cl_memory_chip *c= (cl_memory_chip*)uc->memchips->at(i);
    if (c->is_named("variable_storage")) continue;
    size_t n= (size_t)c->get_size() * chip_bytes(c);
    Saved s; s.c= c; s.d.assign((char*)c->get_slot(0), (char*)c->get_slot(0) + n); saved.push_back(s);
  }
  for (int i= 0; i < uc->vars->by_name.count; i++) {
    cl_memory_cell *c= uc->vars->by_name.at(i)->get_cell();
    if (c && !c->nuof_ops() && !hwdata.count(c->get_data())) vsaved.push_back({ c, c->get() });
  }
}
// memory and registers which a reset leaves alone
static void restore()
{
  for (Saved &s: saved) {
    char *p= (char*)s.c->get_slot(0); int w= chip_bytes(s.c);
    if (!memcmp(p, s.d.data(), s.d.size())) continue;
    for (size_t i= 0; i < s.d.size(); i+= w) if (memcmp(p + i, &s.d[i], w) && !hwdata.count(p + i)) memcpy(p + i, &s.d[i], w);
  }
  for (auto &v: vsaved) v.first->set(v.second);
}
static t_addr lo() { return uc->rom->lowest_valid_address(); }
static void steps(int n)
{
  for (int i= 0; i < n; i++) {
    for (cl_memory_cell *c: nowhere) if (c->get_data()) *(u32_t*)c->get_data()= 0;
    uc->do_inst();
    if (uc->errors) uc->errors->free_all();
  }
  for (cl_memory_cell *c: nowhere) if (c->get_data()) *(u32_t*)c->get_data()= 0;
  take_output();   // reports of errors
}
#ifdef MC_S51
#include "serialcl.h"
#endif
// what comes from outside: a received character, levels of pins
static void outside(int v)
{
#ifdef MC_S51
  for (int i= 0; i < uc->hws->count; i++) {
    cl_hw *h= (cl_hw*)uc->hws->at(i);
    if (!strcmp(h->id_string, "uart")) { cl_serial *s= (cl_serial*)h; s->input= 'a' + v % 8; s->input_avail= v & 1; }
  }
  for (int p: { 1, 3 }) cmd(strf("set hardware port[%d] 0x%x", p, v < 0 ? 0xff : (v * 0x35 + p) & 0xff));
#endif
}
// everything set somehow, but not switched off
static void scramble(int seed, bool all= true)
{
  Lcg r(seed);
  for (HwCell &c: hwc) {
    t_mem v= r.next();
    if (!all && c.as == uc->rom) continue;
#ifdef MC_MASK
    MC_MASK
#endif
    c.as->write(c.a, v);
  }
}
static std::string probe(int p)
{
  if (p) scramble(p * 77 + 3, p > 2);
  std::string s;
  for (int i= 0; i < 3; i++) { if (p & 1) outside(p + i); steps(8); s+= look(); }
  return s;
}
static const int PROBES= 8;
// what one peripheral was doing: groups of register settings (register, value), then instructions of a fixed program
struct Scen { const char *group; std::vector<std::pair<int, int>> w; int in; int prog; };
static std::vector<Scen> scens;
#ifdef MC_S51
static void make_scens()
{
  for (int scon: { 0x10, 0x50, 0x40, 0x90, 0xd0, 0xd8 }) for (int src: { 0, 1, 2 }) for (int pcon: { 0, 0x80 }) for (int in: { -1, 1 }) {
    Scen s{ "uart", {}, in, 0 };
    if (src == 0) s.w= { { 0x89, 0x20 }, { 0x8d, 0xff }, { 0x8b, 0xff }, { 0x88, 0x40 } };
    else if (src == 1) s.w= { { 0xcb, 0xff }, { 0xca, 0xff }, { 0xcd, 0xff }, { 0xcc, 0xff }, { 0xc8, 0x34 } };
    s.w.push_back({ 0x87, pcon }); s.w.push_back({ 0x98, scon }); s.w.push_back({ 0x99, 0x41 });
    scens.push_back(s);
  }
  scens.push_back({ "wdt", { { 0xa6, 0x1e }, { 0xa6, 0xe1 } }, -1, 0 });
  scens.push_back({ "wdt", { { 0xa6, 0x1e } }, -1, 0 });
  scens.push_back({ "wdt", { { 0xa6, 0xe1 } }, -1, 0 });
  for (int t2: { 0x04, 0x0c, 0x05, 0x0d, 0x0e, 0x0f, 0x3c, 0x08, 0x09 }) for (int pin: { -1, 0xfd, 0xfe, 0xfc }) scens.push_back({ "timer2", { { 0xcb, 0x12 }, { 0xca, 0x34 }, { 0xcd, 0x80 }, { 0xcc, 0xfe }, { 0xc8, t2 } }, pin == -1 ? -1 : 0x100 | pin, 0 });
  for (int m: { 0x00, 0x11, 0x22, 0x33, 0x55, 0x66, 0x99, 0xdd }) for (int pin: { -1, 0xcf, 0xc3, 0xef }) scens.push_back({ "timer01", { { 0x89, m }, { 0x8a, 0xfe }, { 0x8c, 0xff }, { 0x8b, 0xfe }, { 0x8d, 0xff }, { 0x88, 0x50 } }, pin == -1 ? -1 : 0x300 | pin, 0 });
  for (int ie: { 0x81, 0x84, 0x82, 0x90 }) for (int prog: { 0, 1, 2 }) scens.push_back({ "int", { { 0x81, 0x30 }, { 0x98, 0x01 }, { 0xb8, 0x04 }, { 0xa8, ie }, { 0x88, 0x2f } }, -1, prog });
  for (int tcon: { 0x05, 0x00 }) for (int pin: { 0xf3, 0xfb, 0xf7 }) scens.push_back({ "int", { { 0x88, tcon }, { 0xa8, 0x85 } }, 0x300 | pin, 1 });
  for (int m: { 0x21, 0x11, 0x31, 0x43, 0x49, 0x4d, 0x42 }) for (int c: { 0x01, 0x03, 0x05, 0x07, 0x81 }) scens.push_back({ "pca", { { 0xd9, c }, { 0xda, m }, { 0xdb, m }, { 0xde, m }, { 0xea, 4 }, { 0xfa, 0 }, { 0x88, 0x50 }, { 0x89, 0x22 }, { 0x8c, 0xfe }, { 0x8a, 0xff }, { 0xd8, 0x40 } }, -1, 0 });
  for (int a: { 0xaa, 0x55, 0 }) for (int b: { 0x55, 0xaa }) for (int r: { 0x9d, 0xce, 0xd8, 0xc6, 0xc4, 0x92 }) scens.push_back({ "timed", { { 0xc7, a }, { 0xc7, b }, { r, 0xff }, { r, 0x19 } }, -1, 0 });
  for (int a: { 0xaa, 0x55 }) for (int r: { 0x9d, 0xce, 0xd8, 0xc6, 0xc4 }) scens.push_back({ "timed", { { 0xc7, a }, { r, 0xff } }, -1, 0 });
  for (int a: { 0, 1, 2, 3, 7, 8 }) for (int b: { 0, 1 }) scens.push_back({ "dptr", { { 0x82, 0x11 * a }, { 0x83, 0x22 }, { 0x86, a }, { 0x92, a }, { 0xa2, b }, { 0x84, 0x44 }, { 0x85, 0x66 }, { 0x82, 0x99 } }, -1, 3 });
  for (int p: { 0x02, 0x01, 0x03 }) scens.push_back({ "power", { { 0x87, p } }, -1, 0 });
}
static void act(const Scen &s)
{
  static const u8_t P[4][6]= { { 0, 0, 0x80, 0xfc }, { 0x32, 0, 0x80, 0xfd }, { 0xc2, 0xa8, 0xd2, 0xaf, 0x80, 0xfe }, { 0xe0, 0xa3, 0xf0, 0x05, 0x86, 0xa3 } };
  class cl_address_space *sfr= uc->address_space("sfr"), *ir= uc->address_space("iram");
  if (!sfr || !ir) return;
  for (int i= 0; i < 6; i++) uc->rom->download(0x600 + 0x40 * s.prog + i, P[s.prog][i]);
  for (int i= 0x29; i < 0x33; i++) ir->write(i, i & 1 ? 0x06 : 0);
  uc->PC= 0x600 + 0x40 * s.prog;
  for (auto &x: s.w) sfr->write(x.first, x.second);
  if (s.prog == 1) sfr->write(0x81, 0x30);
  if (s.in == 1) outside(1);
}
static void pins(const Scen &s) { if (s.in >= 0x100) cmd(strf("set hardware port[%d] 0x%x", s.in >> 8, s.in & 0xff)); }
#else
static void make_scens() {}
static void act(const Scen &) {}
static void pins(const Scen &) {}
#endif
// a setting again, looked at closely
static std::string again(int i)
{
  std::string s; act(scens[i]);
  for (int k= 0; k < 3; k++) { steps(1); s+= look(); }
  pins(scens[i]);
  for (int k: { 2, 7, 18, 29 }) { steps(k); s+= look(); }
  return s;
}
static std::string result(int p) { outside(-2); cmd("reset"); restore(); std::string a= look(); return a + "----\n" + (p < PROBES ? probe(p) : again(p - PROBES)); }
static std::vector<std::string> ref;

static const int V[]= { 0xff, 0x00, 0x55, 0xaa, 0x01, 0x80, 0x30, 0x0f };
static void one(const Case &c)   // type, cell, value, steps, code seed, probe, second cell, value
{
  setcase(c);
  std::string t= in_child([&] {
    uc->PC= lo() + 0x80 * c[4]; uc->set_PC(uc->PC);
    if (c[1] >= 0) hwc[c[1]].as->write(hwc[c[1]].a, c[2]);
    if (c.size() > 6) hwc[c[6]].as->write(hwc[c[6]].a, c[7]);
    if (c[1] <= -10) { const Scen &s= scens[-10 - c[1]]; act(s); steps(c[3] / 2); pins(s); }
    if (c[1] == -2) { scramble(1000 + c[2]); if (c[2] & 1) outside(c[2]); }
    steps(c[1] <= -10 ? c[3] - c[3] / 2 : c[3]);
    if (c[1] == -2 && c[2] & 2) { outside(c[2] >> 1); steps(c[2] & 4 ? 1 : 0); }
    std::string b= look();
    return strf("%016llx", hash_bytes(b.data(), b.size())) + result(c[5]);
  });
  shm->evaluations++; shm->traces++; shm->transitions+= c[3] + 25;
  if (t.substr(0, 4) != "DIED") {
    static std::set<std::string> seen; if (seen.insert(t.substr(0, 16)).second) shm->states++, shm->distinct++;
    t= t.substr(16);
  }
  const std::string &r= ref[c[5]];
  if (t == r) return;
  std::string d= first_diff(t, r);
  if (getenv("MC_DUMP")) { FILE *f= fopen("/tmp/got.txt", "w"); fputs(t.c_str(), f); fclose(f); f= fopen("/tmp/want.txt", "w"); fputs(r.c_str(), f); fclose(f); }
  std::string nm= c[1] <= -10 ? strf("%s setting %ld", scens[-10 - c[1]].group, -10 - c[1]) : c[1] == -2 ? std::string("everything") : c[1] >= 0 ? strf("%s[%lx]", hwc[c[1]].as->get_name(), (long)hwc[c[1]].a) : std::string("-");
  size_t k= 0, dashes= r.find("----"); while (k < t.size() && k < r.size() && t[k] == r[k]) k++;
  fail(type + ":" + d.substr(0, d.find_first_of(" =", 2)) + (k > dashes ? ":later" : ""), "%s: after writing 0x%lx to %s and %ld instructions (code %ld) and reset%s: %s", type.c_str(), c[2], nm.c_str(), c[3], c[4], k > dashes ? ", running on" : "", d.c_str());
}
static void setup(const std::string &t)
{
  type= t.empty() ? "default" : t; cpu_start(t);
#ifdef MC_MUST
  for (const char *m: { MC_MUST }) MUST.insert(m);
#endif
#ifdef MC_PRE
  for (const char *m: { MC_PRE }) cmd(m);
#endif
  hwc.clear(); for (HwCell &c: hw_cells()) if (!is_cfg(c.as)) hwc.push_back(c);
  {
    Lcg r(11); std::set<t_addr> no; for (HwCell &c: hwc) if (c.as == uc->rom) no.insert(c.a);
    t_addr lo= uc->rom->lowest_valid_address(), hi= std::min(uc->rom->highest_valid_address(), (t_addr)(lo + 0x1ffff));
    for (t_addr a= lo; a <= hi; a++) { u64 v= r.next(); if (uc->rom->width > 16) v= (v << 16) ^ r.next(); if (!no.count(a)) uc->rom->download(a, v); }
  }
  uc->reset();
  save();
  ref.clear(); make_scens();
  for (int p= 0; p < PROBES + (int)scens.size(); p++) ref.push_back(in_child([&] { return result(p); }));
  for (auto &r: ref) if (r.substr(0, 4) == "DIED") { fprintf(stderr, "%s: reference: %s\n", type.c_str(), r.c_str()); _exit(3); }
  if (getenv("MC_TRACE")) fprintf(stderr, "%s: %d cells\n", type.c_str(), (int)hwc.size());
}
void mc::harness_run()
{
  auto ts= cpu_types(); long n= 0; size_t t= shard / MC_PER; int part= shard % MC_PER;
  if (t >= ts.size() || cpu_refused(ts[t])) return;
  setup(ts[t]);
  for (int k: { 0, 1, 7, 60, 400 }) for (long code= 0; code < 8; code++) for (int p= 0; p < PROBES; p++) if (n++ % MC_PER == part) one({ (long)t, -1, 0, k, code, p });
  for (long s= 0; s < (thorough ? 400 : 24); s++) for (int k: { 1, 5, 20, 100 }) for (int p= 0; p < PROBES; p++) if (n++ % MC_PER == part) one({ (long)t, -2, s, k, s % 8, p });
  for (size_t i= 0; i < scens.size(); i++) for (size_t j= 0; j < scens.size(); j++) {
    if (strcmp(scens[i].group, scens[j].group)) continue;
    if (!thorough && i != j && (i * 31 + j * 7) % (scens[i].group[0] == 'u' ? 16 : 8)) continue;
    for (int k: { 0, 1, 2, 5, 13, 40 }) if ((thorough || i == j || (i + j + k) % 2 == 0) && n++ % MC_PER == part) one({ (long)t, -10 - (long)i, 0, k, 0, PROBES + (long)j });
  }
  for (size_t i= 0; i < scens.size(); i++) for (int k: { 3, 300 }) for (int p= 0; p < PROBES; p++) if ((thorough || (i + p + k) % 4 == 0) && n++ % MC_PER == part) one({ (long)t, -10 - (long)i, 0, k, 0, p });
  if (thorough || ts[t] == "89C51R")
    for (size_t i= 0; i < hwc.size(); i++) for (size_t j= 0; j < hwc.size(); j++) {
      if (i == j || (!thorough && (hwc[i].as != hwc[0].as || hwc[j].as != hwc[0].as))) continue;
      for (int v: { 0xff, 0x55 }) for (int w: { 0xff, 0x55 }) if (n++ % MC_PER == part) one({ (long)t, (long)i, v, 12, (long)((i + j) % 8), (long)((i + j + v + w + n) % PROBES), (long)j, w });
    }
  for (size_t i= 0; i < hwc.size(); i++)
    for (int v: V) for (int k: { 0, 9 }) if (n++ % MC_PER == part) one({ (long)t, (long)i, v, k, (long)(i % 8), (long)((i + v + n) % PROBES) });
}
void mc::harness_replay(const Case &c) { setup(cpu_types()[c[0]]); one(c); }
