/* MCS-48: every documented opcode against a model written from the Intel
   manual. MC_TYPE: CPU type, MC_41: 1 for the UPI-41 members. */
#include "isa.h"
#define protected public
#include "i8048cl.h"
#include "i8041cl.h"
#undef protected
#undef A
#undef ACC
#undef acc
#undef RD
#undef WR
#undef rF
#undef cF
#undef A11
#undef DBF
using namespace mc;
#ifndef MC_TYPE
#define MC_TYPE 8050
#endif
#define MC_STR1(x) #x
#define MC_STR(x) MC_STR1(x)
#ifndef MC_41
#define MC_41 0
#endif
int mc::harness_default_shards= 0;
static Space *rom, *ram, *xram; static cl_i8048 *u; static Lockstep ls; static int ramsz; static u64 cyc;
enum { kPC, kA, kPSW, kMB, kF1, kIN, kBUS, kPIN1, kPIN2, kP1, kP2, kX4, kPX, kT, kTF, kNI, kXA, kXV, kR0, kRA= kR0 + 8, kRV, kMA, kMV, kSV, kSW, kI0, NC= kI0 + 6 };
enum { C= 0x80, AC= 0x40, F0= 0x20, BS= 0x10 };
struct M48
{
  int pc, A, psw, mb, f1, in, bus, busin, p[3], pin[3], ex[4], exin[4], t, tf, tmode, t16, t32, eni, ent, cy;
  bool skip, busx, p2x;
  int f() { int v= rom->rd(pc); pc= (pc & 0x800) | ((pc + 1) & 0x7ff); return v; }
  int ra(int i) { return (psw & BS ? 24 : 0) + i; }
  int g(int i) { return ram->rd(ra(i)); }
  void s(int i, int v) { ram->wr(ra(i), v & 255); }
  int ir(int o) { int a= g(o & 1); if (a >= ramsz) skip= true; return a; }
  void jc(bool c) { int v= f(); if ((pc & 0xff) == 0) skip= true; if (c) pc= (pc & 0xf00) | v; }
  void push() { int i= 8 + 2 * (psw & 7); ram->wr(i, pc & 255); ram->wr(i + 1, (pc >> 8 & 15) | (psw & 0xf0)); psw= (psw & ~7) | ((psw + 1) & 7); }
  void pop(bool r) { psw= (psw & ~7) | ((psw - 1) & 7); int i= 8 + 2 * (psw & 7); pc= ram->rd(i) | (ram->rd(i + 1) & 15) << 8; if (r) psw= (psw & 15) | (ram->rd(i + 1) & 0xf0); }
  void add(int v, int c) { int r= A + v + c; psw= (psw & ~(C | AC)) | (r > 255 ? C : 0) | ((A & 15) + (v & 15) + c > 15 ? AC : 0); A= r & 255; }
  void step()
  {
    skip= busx= p2x= false; cy= 1;
    int o= f(), r= o & 7, v, x;
    bool reg= o & 8, ind= (o & 0xe) == 0;
    // accumulator with register or indirect memory
    if ((reg || ind) && (o >> 4) != 0 && (o >> 4) != 3 && (o >> 4) != 8 && (o >> 4) != 9 && (o >> 4) != 0xb && (o >> 4) != 0xe && !(ind && (o >> 4) == 0xc))
      {
	int a= reg ? ra(r) : ir(o);
	if (skip) return;
	v= ram->rd(a);
	switch (o >> 4)
	  {
	  case 1: ram->wr(a, (v + 1) & 255); return;
	  case 2: ram->wr(a, A); A= v; return;
	  case 4: A|= v; return;
	  case 5: A&= v; return;
	  case 6: add(v, 0); return;
	  case 7: add(v, psw & C ? 1 : 0); return;
	  case 0xa: ram->wr(a, A); return;
	  case 0xc: ram->wr(a, (v - 1) & 255); return;
	  case 0xd: A^= v; return;
	  case 0xf: A= v; return;
	  }
      }
    if (MC_41 && (o & 0x8f) == 0x84) { skip= true; return; }
    if ((o & 0x1f) == 4) { cy= 2; v= f(); pc= mb << 11 | (o & 0xe0) << 3 | v; return; }
    if ((o & 0x1f) == 0x14) { cy= 2; v= f(); push(); pc= mb << 11 | (o & 0xe0) << 3 | v; return; }
    if ((o & 0x1f) == 0x12) { cy= 2; jc(A >> (o >> 5) & 1); return; }
    if (o >= 0xe8 && o <= 0xef) { cy= 2; s(r, g(r) - 1); jc(g(r)); return; }
    if (o >= 0xb8 && o <= 0xbf) { cy= 2; s(r, f()); return; }
    if ((o & 0xfc) == 0x0c) { cy= 2; A= exin[o & 3]; p2x= true; return; }
    if ((o & 0xfc) == 0x3c) { cy= 2; ex[o & 3]= A & 15; p2x= true; return; }
    if ((o & 0xfc) == 0x8c) { cy= 2; ex[o & 3]|= A & 15; p2x= true; return; }
    if ((o & 0xfc) == 0x9c) { cy= 2; ex[o & 3]&= A & 15; p2x= true; return; }
    switch (o)
      {
      case 0x00: return;
      case 0x03: cy= 2; add(f(), 0); return;
      case 0x13: cy= 2; add(f(), psw & C ? 1 : 0); return;
      case 0x05: if (!MC_41 && !(in & 4)) skip= true; if (MC_41) skip= true; eni= 1; return;
      case 0x15: eni= 0; return;
      case 0x25: ent= 1; return;
      case 0x35: ent= 0; return;
      case 0x07: A= (A - 1) & 255; return;
      case 0x17: A= (A + 1) & 255; return;
      case 0x27: A= 0; return;
      case 0x37: A^= 255; return;
      case 0x47: A= (A >> 4) | (A & 15) << 4; return;
      case 0x57: v= A; x= psw & C;
	if ((v & 15) > 9 || psw & AC) v+= 6;
	if (v > 255) x= C;
	v&= 255;
	if ((v >> 4) > 9 || x) { v+= 0x60; x= C; }
	A= v & 255; psw= (psw & ~C) | x; return;
      case 0x67: v= A & 1; A= A >> 1 | (psw & C); psw= (psw & ~C) | (v ? C : 0); return;
      case 0x77: A= A >> 1 | (A & 1) << 7; return;
      case 0xe7: A= (A << 1 | A >> 7) & 255; return;
      case 0xf7: v= A & 0x80; A= (A << 1 | (psw & C ? 1 : 0)) & 255; psw= (psw & ~C) | v; return;
      case 0x97: psw&= ~C; return;
      case 0xa7: psw^= C; return;
      case 0x85: psw&= ~F0; return;
      case 0x95: psw^= F0; return;
      case 0xa5: f1= 0; return;
      case 0xb5: f1^= 1; return;
      case 0x08: if (MC_41) break; cy= 2; A= busin; return;
      case 0x09: cy= 2; A= p[1] & pin[1]; return;
      case 0x0a: cy= 2; A= p[2] & pin[2]; return;
      case 0x02: if (MC_41) break; cy= 2; bus= A; return;
      case 0x39: cy= 2; p[1]= A; return;
      case 0x3a: cy= 2; p[2]= A; return;
      case 0x88: if (MC_41) break; cy= 2; bus|= f(); return;
      case 0x98: if (MC_41) break; cy= 2; bus&= f(); return;
      case 0x89: cy= 2; p[1]|= f(); return;
      case 0x99: cy= 2; p[1]&= f(); return;
      case 0x8a: cy= 2; p[2]|= f(); return;
      case 0x9a: cy= 2; p[2]&= f(); return;
      case 0x80: case 0x81: if (MC_41) break; cy= 2; A= xram->rd(g(o & 1)); busx= true; return;
      case 0x90: case 0x91: if (MC_41) break; cy= 2; xram->wr(g(o & 1), A); busx= true; return;
      case 0xb0: case 0xb1: cy= 2; v= ir(o); if (skip) return; ram->wr(v, f()); return;
      case 0x30: case 0x31: v= ir(o); if (skip) return; x= ram->rd(v); ram->wr(v, (x & 0xf0) | (A & 15)); A= (A & 0xf0) | (x & 15); return;
      case 0x23: cy= 2; A= f(); return;
      case 0x43: cy= 2; A|= f(); return;
      case 0x53: cy= 2; A&= f(); return;
      case 0xd3: cy= 2; A^= f(); return;
      case 0xa3: cy= 2; A= rom->rd((pc & 0xf00) | A); busx= true; return;
      case 0xe3: cy= 2; if (pc & 0x800) { skip= true; return; } A= rom->rd(0x300 | A); busx= true; return;
      case 0xb3: cy= 2; pc= (pc & 0xf00) | rom->rd((pc & 0xf00) | A); return;
      case 0x42: A= t; return;
      case 0x62: t= A; return;
      case 0x45: tmode= 1; return;
      case 0x55: tmode= 2; return;
      case 0x65: tmode= 0; return;
      case 0x16: cy= 2; jc(tf); tf= 0; return;
      case 0x26: cy= 2; jc(!(in & 1)); return;
      case 0x36: cy= 2; jc(in & 1); return;
      case 0x46: cy= 2; jc(!(in & 2)); return;
      case 0x56: cy= 2; jc(in & 2); return;
      case 0x76: cy= 2; jc(f1); return;
      case 0xb6: cy= 2; jc(psw & F0); return;
      case 0x86: if (MC_41) break; cy= 2; jc(!(in & 4)); return;
      case 0x96: cy= 2; jc(A); return;
      case 0xc6: cy= 2; jc(!A); return;
      case 0xe6: cy= 2; jc(!(psw & C)); return;
      case 0xf6: cy= 2; jc(psw & C); return;
      case 0x83: cy= 2; pop(false); return;
      case 0x93: cy= 2; pop(true); return;
      case 0xc5: psw&= ~BS; return;
      case 0xd5: psw|= BS; return;
      case 0xe5: if (MC_41) break; mb= 0; return;
      case 0xf5: if (MC_41) break; mb= 1; return;
      case 0xc7: A= psw | 8; return;
      case 0xd7: psw= A; return;
      case 0x75: if (MC_41) break; return;
      }
    skip= true;
  }
};
static M48 m;
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  memset((void*)&m, 0, sizeof m);
  m.pc= c[kPC]; m.A= c[kA]; m.psw= c[kPSW] & 0xf7; m.mb= MC_41 ? 0 : c[kMB]; m.f1= c[kF1]; m.in= c[kIN]; m.bus= m.busin= 0;
  m.busin= c[kBUS]; m.bus= c[kBUS] ^ 0x5a; m.p[1]= c[kP1]; m.p[2]= c[kP2]; m.pin[1]= c[kPIN1]; m.pin[2]= c[kPIN2];
  m.t= c[kT]; m.tf= c[kTF];
  for (int i= 0; i < 4; i++) { m.ex[i]= (c[kX4] >> (i * 4)) & 15; m.exin[i]= (c[kPX] >> (i * 4)) & 15; }
  { int a= m.pc; for (int i= 0; i < NC - kI0; i++) { if (c[kI0 + i] >= 0) rom->poke(a, c[kI0 + i]); a= (a & 0x800) | ((a + 1) & 0x7ff); } }
  if (c[kRA] >= 0) rom->poke(c[kRA] & 0xfff, c[kRV]);
  for (int i= 0; i < 8; i++) if (c[kR0 + i] >= 0) ram->poke(m.ra(i), c[kR0 + i]);
  if (c[kMA] >= 0 && c[kMA] < ramsz) ram->poke(c[kMA], c[kMV]);
  if (c[kXA] >= 0) xram->poke(c[kXA] & 255, c[kXV]);
  if (c[kSV] >= 0) { int i= 8 + 2 * ((m.psw - 1) & 7); ram->poke(i, c[kSV] & 255); ram->poke(i + 1, c[kSW]); }
  u->cA.W(m.A); u->mb= m.mb; u->flagF1= m.f1;
  u->psw= 0xff; u->cpsw->write(m.psw);
  cl_i8020_cpu *cp= (cl_i8020_cpu*)u->cpu;
  cp->ipins= m.in | 8;
  u->ports->get_cell(1)->set(m.p[1]); u->ports->get_cell(2)->set(m.p[2]);
  u->p1->cfg_set(port_odr, m.p[1]); u->p2->cfg_set(port_odr, m.p[2]);
  u->p1->cfg_set(port_pin, m.pin[1]); u->p2->cfg_set(port_pin, m.pin[2]);
  if (u->bus) { u->bus->cfg_set(tbus_in, m.busin); u->bus->cfg_set(tbus_out, m.bus); }
  for (int i= 0; i < 4; i++)
    { u->pext->cfg_set(pext_odr4 + i, m.ex[i]); u->pext->cfg_set(pext_pin4 + i, m.exin[i]); u->ports->get_cell(4 + i)->set(m.ex[i]); }
  cl_timer *t= u->timer;
  t->tmr= m.t; t->timer_flag= m.tf; t->mode= tm_stop; t->pre= t->pre16= 0; t->int_enabled= t->int_request= 0; t->overflow_flag= 0;
  t->cfg_set(tcfg_tmr, m.t);
  if (u->ints) u->ints->ene= 0;
  u->in_isr= false;
  u->state= stGO; u->PC= m.pc;
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int o= rom->rd(m.pc), p0= m.pc, a0= m.A, s0= m.psw;
      m.step();
      if (m.skip) return;
      u64 t0= u->ticks->get_ticks();
      u->do_inst();
      shm->transitions++;
      u64 dt= u->ticks->get_ticks() - t0;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x at %03x, A=%02x PSW=%02x): PC=%03lx A=%02lx PSW=%02lx MB=%ld F1=%ld T0/T1/INT=%lx R0=%02lx R1=%02lx irq 0", what, got, want, k + 1, o, p0, a0, s0,
	     c[kPC], c[kA], c[kPSW], c[kMB], c[kF1], c[kIN], c[kR0], c[kR0 + 1]);
      };
      if (u->cA.get() != (t_mem)m.A) bad("A", u->cA.get(), m.A);
      if ((u->psw ^ m.psw) & 0xf7) bad("PSW", u->psw & 0xf7, m.psw & 0xf7);
      if ((int)u->PC != m.pc) bad("PC", u->PC, m.pc);
      if (!MC_41 && u->mb != m.mb) bad("MB", u->mb, m.mb);
      if (u->flagF1 != m.f1) bad("F1", u->flagF1, m.f1);
      for (int i= 0; i < 8; i++) if ((int)u->regs->get(i) != m.g(i)) bad("bank", i << 8 | u->regs->get(i), m.g(i));
      if ((int)u->ports->get_cell(1)->get() != m.p[1]) bad("P1", u->ports->get_cell(1)->get(), m.p[1]);
      int pm= m.p2x ? 0xf0 : 0xff, p2= u->ports->get_cell(2)->get();
      if ((p2 ^ m.p[2]) & pm) bad("P2", p2, m.p[2]);
      m.p[2]= p2;
      if (u->bus && !MC_41) { int b= u->bus->cfg_get(tbus_out); if (!m.busx && b != m.bus) bad("BUS", b, m.bus); m.bus= b; }
      for (int i= 0; i < 4; i++) if ((int)(u->pext->cfg_get(pext_odr4 + i) & 15) != m.ex[i]) bad("expander", i << 8 | u->pext->cfg_get(pext_odr4 + i), m.ex[i]);
      if ((int)t->tmr != m.t) bad("timer", t->tmr, m.t);
      if (t->timer_flag != (m.tf != 0)) bad("TF", t->timer_flag, m.tf);
      if ((int)t->mode != m.tmode) bad("mode", t->mode, m.tmode);
      if (t->int_enabled != m.ent) bad("tcnti", t->int_enabled, m.ent);
      if (u->ints && u->ints->ene != m.eni) bad("eni", u->ints->ene, m.eni);
      if (dt != cyc * m.cy) bad("cycles", dt / cyc, m.cy);
      uint32_t at;
      for (Space *s: ls.spaces) if (!s->same(&at)) bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
      if (!pre.empty()) break;
    }
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", MC_STR(MC_TYPE) });
  u= (cl_i8048*)uc;
  cmd("reset");
  ramsz= u->ram_size;
  rom= mkspace("rom_chip", u->rom_size, 1);
  ram= mkspace("iram_chip", ramsz, 2);
  xram= mkspace("xram_chip", 0x100, 3);
  u->rom->write(0, 0); u->PC= 0;
  u64 t0= u->ticks->get_ticks(); u->do_inst(); cyc= u->ticks->get_ticks() - t0;
  ls.n= NC; ls.one= one; ls.spaces= { rom, ram, xram };
  ls.resync();
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x234; c[kA]= 0x5a; c[kPSW]= 0x02; c[kMB]= 0; c[kF1]= 0; c[kIN]= 7; c[kBUS]= 0x3c; c[kPIN1]= 0xf5; c[kPIN2]= 0xaf; c[kP1]= 0x6d; c[kP2]= 0xb6;
  c[kX4]= 0x35ac; c[kPX]= 0xc69a; c[kT]= 0x42; c[kTF]= 0; c[kNI]= 1;
  for (int i= 0; i < 8; i++) c[kR0 + i]= 0x20 + i * 3;
}
static std::vector<int> ops;
static void mkops()
{
  long c[NC];
  for (int o= 0; o < 256; o++)
    {
      for (Space *s: ls.spaces) s->restore();
      std_case(c); memset((void*)&m, 0, sizeof m); m.pc= 0x234; m.in= 7; rom->poke(0x234, o); ram->poke(0, 0x20); ram->poke(1, 0x20);
      m.step();
      if (!m.skip) ops.push_back(o);
    }
  for (Space *s: ls.spaces) s->restore();
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC];
  // 1. A x operand x flags
  for (int o: ops) for (int f= 0; f < 16; f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++)
	{
	  if (!thorough && (f & 3) && (a + v * 3 + f) % 5) continue;
	  std_case(c); c[kA]= a; c[kPSW]= f << 4 | (v & 7); c[kI0]= o; c[kI0 + 1]= v; c[kI0 + 2]= a;
	  c[kF1]= v & 1; c[kIN]= a & 7; c[kTF]= a >> 3 & 1; c[kMB]= v >> 1 & 1; c[kBUS]= v; c[kPIN1]= v; c[kPIN2]= v; c[kP1]= a; c[kP2]= a ^ 0x3c; c[kT]= v; c[kX4]= v * 0x101; c[kPX]= v * 0x4101 & 0xffff;
	  if (o & 8) c[kR0 + (o & 7)]= v;
	  else if (o < 0x80 || o >= 0xa0) { c[kR0 + (o & 1)]= 0x2c; c[kMA]= 0x2c; c[kMV]= v; }
	  else { c[kR0 + (o & 1)]= a; c[kXA]= a; c[kXV]= v; }
	  if (o == 0xa3 || o == 0xb3) { c[kRA]= 0x200 | a; c[kRV]= v; }
	  if (o == 0xe3) { c[kRA]= 0x300 | a; c[kRV]= v; }
	  if (o == 0x83 || o == 0x93) { c[kSV]= a; c[kSW]= v; }
	  if ((o == 0xa3 || o == 0xb3) && (a == 0x34 || a == 0x35 || a == 0x36)) continue;
	  if (c[kR0 + (o & 1)] < 0) continue;
	  ls.run(c);
	}
    }
  // 2. every address of the internal memory by both pointers and banks
  for (int o: ops) for (int bs= 0; bs < 2; bs++)
    {
      if (!sp.mine()) continue;
      for (int p= 0; p < 256; p++) for (int v= 0; v < 256; v+= thorough ? 1 : 5)
	{
	  std_case(c); c[kPSW]= bs << 4 | (v & 0xc7); c[kI0]= o; c[kI0 + 1]= v; c[kA]= v ^ 0x77; c[kR0 + (o & 1)]= p; c[kMA]= p; c[kMV]= v; c[kXA]= p; c[kXV]= v;
	  c[kMB]= v >> 3 & 1;
	  ls.run(c);
	}
    }
  // 3. program counter: pages, banks, wrap-around
  static const int PCS[]= { 0, 0x0fc, 0x0fd, 0x0fe, 0x0ff, 0x100, 0x3ff, 0x5fe, 0x7fd, 0x7fe, 0x7ff, 0x800, 0x8fe, 0x8ff, 0xa80, 0xffd, 0xffe, 0xfff };
  for (int o: ops) for (int pc: PCS)
    {
      if (MC_41 && pc >= 0x7fd) continue;
      if (!sp.mine()) continue;
      for (int f= 0; f < 256; f++) for (int d= 0; d < (thorough ? 256 : 16); d++)
	{
	  std_case(c); c[kPC]= pc; c[kPSW]= f; c[kI0]= o; c[kI0 + 1]= d * 17; c[kA]= d * 31 & 255; c[kMB]= d & 1; c[kF1]= d >> 1 & 1; c[kIN]= (d ^ f) & 7; c[kTF]= d >> 2 & 1;
	  if (d & 8) c[kR0 + (o & 7)]= 1;
	  ls.run(c);
	}
    }
  // 4. ordered pairs
  for (int o: ops)
    {
      if (!sp.mine()) continue;
      for (int o2: ops) for (int k= 0; k < (thorough ? 96 : 24); k++)
	{
	  std_case(c); c[kNI]= 2; int at= 0, seed= o * 256 + o2;
	  c[kA]= noise(seed, k); c[kPSW]= noise(seed, k + 20); c[kMB]= (k & 3) == 3; c[kIN]= noise(seed, k + 30) & 7; c[kF1]= k & 1; c[kTF]= k >> 1 & 1; c[kT]= noise(seed, k + 77);
	  for (int i= 0; i < 8; i++) c[kR0 + i]= noise(seed, k + 100 + i) & (ramsz - 1);
	  if (k & 4) c[kR0 + (o & 7)]= 1;
	  bool two= (o & 0x1f) == 4 || (o & 0x1f) == 0x14 || (o & 0x1f) == 0x12 || (o & 0xf) == 6 || (o & 0xf8) == 0xe8 || (o & 0xf8) == 0xb8 || (o & 0xfe) == 0xb0 ||
	    o == 3 || o == 0x13 || o == 0x23 || o == 0x43 || o == 0x53 || o == 0xd3 || o == 0x88 || o == 0x89 || o == 0x8a || o == 0x98 || o == 0x99 || o == 0x9a;
	  c[kI0 + at++]= o;
	  if (two) c[kI0 + at++]= (o & 0x0f) == 4 || (o & 0x1f) == 0x12 || (o & 0xf) == 6 || (o & 0xf8) == 0xe8 ? 0x36 : noise(seed, k + 40);
	  if ((o & 0xf) == 4) { if ((o >> 5) != 2) c[kPC]= 0x34 | (o >> 5) << 8; c[kMB]= 0; }
	  c[kI0 + at]= o2; c[kI0 + at + 1]= noise(seed, k + 60);
	  if (o == 0x83 || o == 0x93) { c[kSV]= 0x35; c[kSW]= (k & 0xf) << 4 | 2; c[kI0 + 1]= o2; }
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
