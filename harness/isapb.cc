/* PicoBlaze: every instruction of KCPSM3 and KCPSM6 against a model written
   from the Xilinx user guides, with interrupts and the call stack.
   MC_K: 3 or 6. */
#include "isa.h"
#include <cstdio>
#define protected public
#include "pblazecl.h"
#undef protected
#undef FLAGS
#undef SP
#undef SC
using namespace mc;
using std::vector;
#ifndef MC_K
#define MC_K 3
#endif
int mc::harness_default_shards= 0;
enum { kROM= 1024, kRAM= 64, kDEPTH= MC_K == 3 ? 31 : 30, kVEC= 0x3ff, kFL= 0x20, kSP= 0x21 };
enum { kPC, kF, kBANK, kSPV, kRX, kRY, kBX, kBY, kMA, kMV, kTOP, kIN, kIRQ, kI0, kI1, kI2, NC };
static cl_pblaze *u; static cl_address_space *rom, *ram, *stk, *sfr;
struct P
{
  int pc, c, z, i, bank, sp, reg[2][16], mem[256], st[32], in, port, out, pcs, pzs, pbs; bool skip, wrport, rdport, rst;
  int mask(int a) { if (a >= kROM) { if (MC_K == 3) a&= kROM - 1; else skip= true; } return a; }
  void reset() { rst= true; pc= 0; c= z= i= 0; bank= 0; sp= 0; }
  void call(int ret, int to)
  {
    if (MC_K == 6 && sp >= kDEPTH) { reset(); return; }
    st[sp]= ret & (kROM - 1); sp++;
    if (MC_K == 3) sp%= kDEPTH;
    pc= mask(to);
  }
  bool ret()
  {
    if (MC_K == 6 && sp == 0) { reset(); return false; }
    sp= sp == 0 ? kDEPTH - 1 : sp - 1;
    pc= (st[sp] + 1) & (kROM - 1);
    return true;
  }
  bool cond(int k) { return k == 0 ? z : k == 1 ? !z : k == 2 ? c : !c; }
  void shift(int *r, int k)
  {
    int v= *r, n, in;
    switch (k)
      {
      case 0: in= c; break; case 2: in= v >> 7; break; case 4: in= v & 1; break; case 6: in= 0; break; case 7: in= 1; break;
      case 8: in= c; break; case 0xa: in= v >> 7; break; case 0xc: in= v & 1; break; case 0xe: in= 0; break; case 0xf: in= 1; break;
      default: skip= true; return;
      }
    if (k < 8) { n= (v << 1 | in) & 255; c= v >> 7; } else { n= v >> 1 | in << 7; c= v & 1; }
    z= n == 0; *r= n;
  }
  int par(int v) { int p= 0; for (; v; v>>= 1) p^= v & 1; return p; }
  void step(int o)
  {
    int at= pc; pc= mask(pc + 1);
    int op= o >> 12, x= o >> 8 & 15, y= o >> 4 & 15, k= o & 255, *r= &reg[bank][x];
    enum { NO, LD, AN, OR, XO, TE, TC, AD, AC, SU, SC, CO, CC, IN_, OU, FE, ST } a= NO; bool reg_y= false;
    if (MC_K == 3)
      {
	static const struct { int op, a; } t[]= { { 0, LD }, { 4, IN_ }, { 6, FE }, { 0xa, AN }, { 0xc, OR }, { 0xe, XO }, { 0x12, TE }, { 0x14, CO }, { 0x18, AD }, { 0x1a, AC }, { 0x1c, SU }, { 0x1e, SC }, { 0x2c, OU }, { 0x2e, ST } };
	for (auto &e: t) if ((op & ~1) == e.op) a= (decltype(a))e.a;
	reg_y= op & 1;
      }
    else
      {
	static const struct { int op, a; } t[]= { { 0, LD }, { 2, AN }, { 4, OR }, { 6, XO }, { 8, IN_ }, { 0xa, FE }, { 0xc, TE }, { 0xe, TC }, { 0x10, AD }, { 0x12, AC }, { 0x18, SU }, { 0x1a, SC }, { 0x1c, CO }, { 0x1e, CC }, { 0x2c, OU }, { 0x2e, ST } };
	for (auto &e: t) if ((op & ~1) == e.op) a= (decltype(a))e.a;
	reg_y= !(op & 1);
      }
    if (a != NO)
      {
	if (reg_y && (o & 15)) { skip= true; return; }
	int v= reg_y ? reg[bank][y] : k, n;
	switch (a)
	  {
	  case LD: *r= v; break;
	  case AN: *r&= v; c= 0; z= !*r; break;
	  case OR: *r|= v; c= 0; z= !*r; break;
	  case XO: *r^= v; c= 0; z= !*r; break;
	  case TE: n= *r & v; z= !n; c= par(n); break;
	  case TC: n= *r & v; z= z && !n; c^= par(n); break;
	  case AD: n= *r + v; c= n >> 8; *r= n & 255; z= !*r; break;
	  case AC: n= *r + v + c; c= n >> 8; *r= n & 255; z= !*r && (MC_K == 3 || z); break;
	  case SU: n= *r - v; c= n < 0; *r= n & 255; z= !*r; break;
	  case SC: n= *r - v - c; c= n < 0; *r= n & 255; z= !*r && (MC_K == 3 || z); break;
	  case CO: z= *r == v; c= *r < v; break;
	  case CC: n= *r - v - c; c= n < 0; z= z && (n & 255) == 0; break;
	  case IN_: *r= in; port= v; rdport= true; break;
	  case OU: out= *r; port= v; wrport= true; break;
	  case FE: if (!reg_y && v >= kRAM) { skip= true; return; } *r= mem[v & (kRAM - 1)]; break;
	  case ST: if (!reg_y && v >= kRAM) { skip= true; return; } mem[v & (kRAM - 1)]= *r; break;
	  default: break;
	  }
	return;
      }
    if (MC_K == 3)
      switch (op)
	{
	case 0x20: if (o & 0xf0) skip= true; else shift(r, o & 15); break;
	case 0x30: if (o & 0xc00) skip= true; else call(at, o & 0x3ff); break;
	case 0x31: if (cond(o >> 10 & 3)) call(at, o & 0x3ff); break;
	case 0x34: if (o & 0xc00) skip= true; else pc= o & 0x3ff; break;
	case 0x35: if (cond(o >> 10 & 3)) pc= o & 0x3ff; break;
	case 0x2a: if (o & 0xfff) skip= true; else ret(); break;
	case 0x2b: if (o & 0x3ff) skip= true; else if (cond(o >> 10 & 3)) ret(); break;
	case 0x38: if (pcs < 0 || (o & 0xffe)) skip= true; else { ret(); c= pcs; z= pzs; i= o & 1; } break;
	case 0x3c: if (o & 0xffe) skip= true; else i= o & 1; break;
	default: skip= true;
	}
    else
      switch (op)
	{
	case 0x14: if (k == 0x80) { *r= 0; c= 1; z= 1; } else if (o & 0xf0) skip= true; else shift(r, o & 15); break;
	case 0x16: if (o & 15) skip= true; else reg[!bank][x]= reg[bank][y]; break;
	case 0x20: call(at, o & 0xfff); break;
	case 0x21: *r= k; ret(); break;
	case 0x22: pc= mask(o & 0xfff); break;
	case 0x24: if (o & 15) skip= true; else call(at, (*r & 15) << 8 | reg[bank][y]); break;
	case 0x26: if (o & 15) skip= true; else pc= mask((*r & 15) << 8 | reg[bank][y]); break;
	case 0x25: if (o & 0xfff) skip= true; else ret(); break;
	case 0x28: if (o & 0xffe) skip= true; else i= o & 1; break;
	case 0x29: if (pcs < 0 || (o & 0xffe)) skip= true; else if (ret()) { c= pcs; z= pzs; bank= pbs; i= o & 1; } break;
	case 0x2b: out= o >> 4 & 255; port= o & 15; wrport= true; break;
	case 0x30: case 0x34: case 0x38: case 0x3c: if (cond(op >> 2 & 3)) call(at, o & 0xfff); break;
	case 0x32: case 0x36: case 0x3a: case 0x3e: if (cond(op >> 2 & 3)) pc= mask(o & 0xfff); break;
	case 0x31: case 0x35: case 0x39: case 0x3d: if (o & 0xfff) skip= true; else if (cond(op >> 2 & 3)) ret(); break;
	case 0x37: if (o & 0xffe) skip= true; else bank= o & 1; break;
	default: skip= true;
	}
  }
  void irq()
  {
    int f= c, g= z, b= bank;
    if (MC_K == 6 && sp >= kDEPTH) { reset(); return; }
    call(pc - 1, kVEC);
    pcs= f; pzs= g; pbs= b; i= 0;
    if (MC_K == 6) bank= 0;
  }
};
static Lockstep ls;
static void one(const long *c)
{
  static P p; p.pc= c[kPC]; p.c= c[kF] & 1; p.z= c[kF] >> 1 & 1; p.i= c[kF] >> 2 & 1; p.bank= c[kBANK]; p.sp= c[kSPV]; p.in= c[kIN]; p.port= -1; p.out= -1; p.pcs= -1; p.rst= p.skip= p.wrport= p.rdport= false;
  for (int b= 0; b < 2; b++) for (int i= 0; i < 16; i++) p.reg[b][i]= noise(b * 16 + i, 3);
  for (int i= 0; i < kRAM; i++) p.mem[i]= noise(i, 5);
  for (int i= 0; i < kDEPTH; i++) p.st[i]= (noise(i, 7) << 2 | (i & 3)) & (kROM - 1);
  int x= c[kI0] >> 8 & 15, y= c[kI0] >> 4 & 15;
  p.reg[p.bank][y]= c[kRY]; p.reg[p.bank][x]= c[kRX];
  p.reg[!p.bank][y]= c[kBY]; p.reg[!p.bank][x]= c[kBX];
  p.mem[c[kMA] & (kRAM - 1)]= c[kMV];
  p.st[(p.sp + kDEPTH - 1) % kDEPTH]= c[kTOP] & (kROM - 1);
  // the real one
  static int rsv[3]= { -1, -1, -1 };
  for (int &a: rsv) if (a >= 0) { rom->set(a, 0); a= -1; }
  static bool first= true; if (first) { first= false; for (int i= 0; i < kROM; i++) rom->set(i, 0); }
  for (int b= 0; b < 2; b++) for (int i= 0; i < 16; i++) sfr->set(b * 16 + i, p.reg[b][i]);
  sfr->set(kFL, c[kF]); sfr->set(kSP, p.sp);
  for (int i= 0; i < kRAM; i++) ram->set(i, p.mem[i]);
  for (int i= 0; i < kDEPTH; i++) stk->set(i, p.st[i]);
  u->active_regbank= p.bank ? REGISTER_BANK_B : REGISTER_BANK_A;
  u->PC= p.pc; u->ticks->set(0, 0.0);
  u->input_port->value= p.in; u->input_port->value_set= true; u->output_port->value= 0x155 & 255; u->port_id->value= 0;
  u->interrupt->interrupt_request= false;
  int n= c[kI2] >= 0 ? 3 : c[kI1] >= 0 ? 2 : 1; long want= 0;
  for (int s= 0; s < n; s++)
    {
      int o= c[kI0 + s];
      if (p.pc >= kROM) return;
      for (int k= 0; k < s; k++) if (rsv[k] == p.pc && c[kI0 + k] != o) return;
      rom->set(p.pc, o); rsv[s]= p.pc;
      p.step(o); want+= 2;
      if (p.skip) return;
      int res= u->exec_inst();
      if (res != resGO) { fail("result", "instruction %05x returned %d", o, res); return; }
      shm->transitions++;
      if (c[kIRQ] == s)
	{
	  u->interrupt->interrupt_request= true;
	  u->do_interrupt();
	  bool en= p.i;
	  if (en) { p.irq(); want+= 2; }
	  if (p.skip) return;
	  if (!en) u->interrupt->interrupt_request= false;
	}
      if (p.rdport) { u->input_port->value= p.in; u->input_port->value_set= true; }
    }
  nontrivial= true;
  unsigned o= c[kI0 + n - 1];
  if ((int)u->PC != p.pc) fail("pc", "PC is %x, should be %x after %05x", (int)u->PC, p.pc, o);
  int f= p.c | p.z << 1 | p.i << 2, rf= sfr->get(kFL) & 7;
  if (rf != f) fail("flags", "flags (I Z C) are %d, should be %d after %05x", rf, f, o);
  if (u->active_regbank != (p.bank ? REGISTER_BANK_B : REGISTER_BANK_A)) fail("bank", "active bank is wrong after %05x", o);
  for (int b= 0; b < 2; b++) for (int i= 0; i < 16; i++) if ((int)sfr->get(b * 16 + i) != p.reg[b][i]) { fail("reg", "register %x of bank %c is %02x, should be %02x after %05x", i, 'A' + b, (int)sfr->get(b * 16 + i), p.reg[b][i], o); b= 2; break; }
  for (int i= 0; i < kRAM; i++) if ((int)ram->get(i) != p.mem[i]) { fail("ram", "RAM %02x is %02x, should be %02x after %05x", i, (int)ram->get(i), p.mem[i], o); break; }
  if ((int)sfr->get(kSP) != p.sp) fail("sp", "stack pointer is %d, should be %d after %05x", (int)sfr->get(kSP), p.sp, o);
  for (int i= 0; i < kDEPTH; i++) if ((int)stk->get(i) != p.st[i]) { fail("stack", "stack %d is %03x, should be %03x after %05x", i, (int)stk->get(i), p.st[i], o); break; }
  if (p.wrport && ((int)u->output_port->value != p.out)) fail("out", "output is %02x, should be %02x after %05x", (int)u->output_port->value, p.out, o);
  if ((p.wrport || p.rdport) && (int)u->port_id->value != p.port) fail("port", "port is %02x, should be %02x after %05x", (int)u->port_id->value, p.port, o);
  if ((long)u->ticks->get_ticks() != want && !p.rst) fail("clock", "%ld clocks, should be %ld after %05x", (long)u->ticks->get_ticks(), want, o);
  if (u->output_port->outputs.size()) u->output_port->outputs.clear();
  static int fl; if ((++fl & 255) == 0) { take_output(); }
}
static void setup()
{
  static bool done; if (done) return; done= true;
  sim_start({ "-t", MC_K == 3 ? "KCPSM3" : "KCPSM6" });
  u= (cl_pblaze*)uc; rom= u->rom; ram= u->ram; stk= u->stack; sfr= u->sfr;
  ls.n= NC; ls.one= one;
}
static void std_case(long *c)
{
  c[kPC]= 0x123; c[kF]= 0; c[kBANK]= 0; c[kSPV]= 5; c[kRX]= 0x6b; c[kRY]= 0x35; c[kBX]= 0x1d; c[kBY]= 0x4e; c[kMA]= 0x17; c[kMV]= 0x99; c[kTOP]= 0x2a4; c[kIN]= 0xc6; c[kIRQ]= -1; c[kI0]= 0; c[kI1]= c[kI2]= -1;
}
// one instruction word for every decoded form
static vector<int> forms()
{
  vector<int> r;
  for (int op= 0; op < 64; op++) for (int lo: { 0, 1, 2, 4, 6, 7, 8, 10, 12, 14, 15, 0x80, 0x400, 0x800, 0xc00 }) r.push_back(op << 12 | lo);
  return r;
}
void mc::harness_run()
{
  setup(); if (!freopen("/dev/null", "w", stdout)) return;
  Split sp; long c[NC]; vector<int> fm= forms(); const int R= 0x350;
  // 1. every operation with both operands
  for (int op= 0; op < 64; op++) for (int f= 0; f < 4; f++) for (int bank= 0; bank < (MC_K == 6 ? 2 : 1); bank++)
    {
      if (!sp.mine()) continue;
      beat();
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++) for (int form= 0; form < 2; form++)
	{
	  if (!thorough && bank && (a + v) % 7) continue;
	  std_case(c); c[kF]= f; c[kBANK]= bank; c[kRX]= a; c[kMA]= v; c[kMV]= a ^ 0xff; c[kIN]= a ^ 0x5a;
	  if (form) { c[kRY]= v; c[kI0]= op << 12 | R; }
	  else { if (!(MC_K == 3 ? (op & 1) == 0 : (op & 1))) continue; c[kRY]= 0x35; c[kI0]= op << 12 | (R & 0xf00) | v; }
	  ls.run(c);
	}
    }
  // 2. every instruction word (from several states)
  for (long w= 0; w < (1 << 18); w+= 256)
    {
      if (!sp.mine()) continue;
      beat();
      for (int k= 0; k < 256; k++) for (int f= 0; f < (thorough ? 64 : 8); f++)
	{
	  std_case(c); c[kI0]= w + k; c[kF]= f & 7; c[kBANK]= MC_K == 6 ? (f ^ k) & 1 : 0; c[kRX]= noise(w + k, f); c[kRY]= noise(w + k, f + 99); c[kBX]= noise(w, f + 3); c[kMA]= f & 1 ? k : c[kRY]; c[kTOP]= noise(w + k, f + 7) * 4 + (k & 3);
	  ls.run(c);
	}
    }
  // 3. program counter and stack pointer, every value
  for (int o: fm)
    {
      if (!sp.mine()) continue;
      beat();
      for (int pc= 0; pc < kROM; pc+= thorough ? 1 : 3)
	{ std_case(c); c[kI0]= o | R; if ((o >> 12) >= 0x14 && (o >> 12) != 0x16 && !(MC_K == 3 && ((o >> 12) == 0x20 || (o >> 12) < 0x20 || (o >> 12) == 0x2f || (o >> 12) == 0x2d))) c[kI0]= o; c[kPC]= pc; c[kF]= pc & 7; c[kTOP]= pc ^ 0x2cc; c[kSPV]= pc % kDEPTH; ls.run(c); }
      for (int s= 0; s < kDEPTH + (MC_K == 6); s++) for (int f= 0; f < 8; f++) for (int t: { 0, 1, 0xff, 0x100, 0x1ff, 0x3fe, 0x3ff, 0xffe, 0xfff }) for (int pc: { 0, 1, 0xff, 0x100, 0x3ff })
	{ std_case(c); c[kI0]= o; c[kPC]= pc; c[kF]= f; c[kSPV]= s; c[kTOP]= t; ls.run(c); c[kIRQ]= 0; ls.run(c); }
    }
  // 4. pairs, with and without an interrupt between; and handlers which return
  for (int o: fm)
    {
      if (!sp.mine()) continue;
      beat();
      for (int o2: fm) for (int k= 0; k < (thorough ? 32 : 8); k++)
	{
	  std_case(c); int s= o * 64 + o2; c[kI0]= o | (noise(s, k) & 0xf) << 8; c[kI1]= o2 | (k & 1 ? c[kI0] & 0xf00 : 0);
	  c[kF]= noise(s, k + 1) & 7; c[kBANK]= MC_K == 6 ? k >> 1 & 1 : 0; c[kRX]= noise(s, k + 2); c[kRY]= noise(s, k + 3); c[kMA]= noise(s, k + 4); c[kTOP]= noise(s, k + 5) * 4; c[kSPV]= noise(s, k + 6) % kDEPTH;
	  ls.run(c); c[kIRQ]= 0; c[kF]|= 4; ls.run(c);
	  c[kI1]= o2; c[kI2]= (MC_K == 3 ? 0x38000 : 0x29000) | (k & 1);
	  ls.run(c); c[kI0]= (MC_K == 3 ? 0x3c001 : 0x28001); ls.run(c);
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
