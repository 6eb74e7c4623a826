/* 8080 and 8085: every documented opcode against a model written from the Intel manuals
   (MC_85: 0 for the 8080, 1 for the 8085). */
#include "isa.h"
#include "i8085cl.h"
using namespace mc;
#ifndef MC_85
#define MC_85 0
#endif
int mc::harness_default_shards= 0;
static Space *ram; static cl_i8080 *u; static Lockstep ls;
enum { kPC, kA, kF, kB, kC, kD, kE, kH, kL, kSP, kNI, kXA, kXV, kYA, kYV, kI0, NC= kI0 + 8 };
enum { C= 1, P= 4, AC= 0x10, Z= 0x40, S= 0x80, DOC= C|P|AC|Z|S };
struct M80
{
  int pc, A, F, r[8], SP, t, pc0, pushed; bool skip, self, halt;
  int rd(int a) { return ram->rd(a & 0xffff); }
  void wr(int a, int v) { a&= 0xffff; if (((a - pc0) & 0xffff) < 3) self= true; ram->wr(a, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int l= f(); return l | f() << 8; }
  int rp(int i) { return i == 3 ? SP : r[i * 2] << 8 | r[i * 2 + 1]; }
  void rp(int i, int v) { v&= 0xffff; if (i == 3) SP= v; else { r[i * 2]= v >> 8; r[i * 2 + 1]= v & 255; } }
  int HL() { return rp(2); }
  int g(int i) { return i == 6 ? rd(HL()) : i == 7 ? A : r[i]; }
  void s(int i, int v) { v&= 255; if (i == 6) wr(HL(), v); else if (i == 7) A= v; else r[i]= v; }
  void push(int v) { SP= (SP - 1) & 0xffff; wr(SP, v >> 8); SP= (SP - 1) & 0xffff; wr(SP, v); }
  int pop() { int v= rd(SP) | rd(SP + 1) << 8; SP= (SP + 2) & 0xffff; return v; }
  int szp(int v) { int p= 1; for (int x= v & 255; x; x>>= 1) p^= x & 1; return (v & 0x80 ? S : 0) | (v & 255 ? 0 : Z) | (p ? P : 0); }
  void alu(int k, int b)
  {
    int c= (k == 1 || k == 3) ? F & C : 0, x;
    switch (k)
      {
      case 0: case 1: x= A + b + c; F= szp(x) | ((A & 15) + (b & 15) + c > 15 ? AC : 0) | (x > 255 ? C : 0); A= x & 255; return;
      case 2: case 3: case 7: x= A - b - c; F= szp(x) | ((A & 15) + (~b & 15) + !c > 15 ? AC : 0) | (x < 0 ? C : 0); if (k != 7) A= x & 255; return;
      case 4: x= A & b; F= szp(x) | (MC_85 || ((A | b) & 8) ? AC : 0); A= x; return;
      case 5: A^= b; F= szp(A); return;
      case 6: A|= b; F= szp(A); return;
      }
  }
  bool cond(int k) { static const int M[4]= { Z, C, P, S }; return ((F & M[k >> 1]) != 0) == (k & 1); }
  void step()
  {
    pc0= pc; skip= self= halt= false; pushed= -1;
    int o= f(), y= o >> 3 & 7, z= o & 7, p= y >> 1, v;
    const bool n= MC_85;
    t= 4;
    if (o == 0x76) { halt= true; t= n ? 5 : 7; return; }
    if (o >= 0x40 && o < 0x80) { s(y, g(z)); t= y == 6 || z == 6 ? 7 : n ? 4 : 5; return; }
    if (o >= 0x80 && o < 0xc0) { alu(y, g(z)); t= z == 6 ? 7 : 4; return; }
    if (o < 0x40)
      switch (z)
	{
	case 0: if (y) skip= true; return;
	case 1: if (o & 8) { v= HL() + rp(p); rp(2, v); F= (F & ~C) | (v > 0xffff ? C : 0); t= 10; } else { v= f16(); rp(p, v); t= 10; } return;
	case 2:
	  switch (y)
	    {
	    case 0: case 2: wr(rp(p), A); t= 7; return;
	    case 1: case 3: A= rd(rp(p)); t= 7; return;
	    case 4: v= f16(); wr(v, r[5]); wr(v + 1, r[4]); t= 16; return;
	    case 5: v= f16(); r[5]= rd(v); r[4]= rd(v + 1); t= 16; return;
	    case 6: wr(f16(), A); t= 13; return;
	    default: A= rd(f16()); t= 13; return;
	    }
	case 3: rp(p, rp(p) + (o & 8 ? -1 : 1)); t= n ? 6 : 5; return;
	case 4: v= g(y) + 1; s(y, v); F= (F & C) | szp(v) | ((v & 15) == 0 ? AC : 0); t= y == 6 ? 10 : n ? 4 : 5; return;
	case 5: v= g(y) - 1; s(y, v); F= (F & C) | szp(v) | ((v & 15) == 15 ? 0 : AC); t= y == 6 ? 10 : n ? 4 : 5; return;
	case 6: s(y, f()); t= y == 6 ? 10 : 7; return;
	case 7:
	  switch (y)
	    {
	    case 0: v= A >> 7; A= (A << 1 | v) & 255; break;
	    case 1: v= A & 1; A= A >> 1 | v << 7; break;
	    case 2: v= A >> 7; A= (A << 1 | (F & C)) & 255; break;
	    case 3: v= A & 1; A= A >> 1 | (F & C) << 7; break;
	    case 4:
	      {
		int lo= A & 15, hi= A >> 4, cor= 0, c= F & C;
		if (lo > 9 || (F & AC)) cor= 6;
		if (hi > 9 || c || (hi == 9 && lo > 9)) { cor|= 0x60; c= C; }
		F= (lo + (cor & 15) > 15 ? AC : 0) | c; A= (A + cor) & 255; F|= szp(A);
		return;
	      }
	    case 5: A^= 255; return;
	    case 6: v= 1; break;
	    default: v= !(F & C);
	    }
	  F= (F & ~C) | v; return;
	}
    switch (z)
      {
      case 0: if (cond(y)) { pc= pop(); t= n ? 12 : 11; } else t= n ? 6 : 5; return;
      case 1:
	if (!(o & 8)) { v= pop(); if (p == 3) { A= v >> 8; F= v & DOC; } else rp(p, v); t= 10; return; }
	switch (p)
	  {
	  case 0: pc= pop(); t= 10; return;
	  case 2: pc= HL(); t= n ? 6 : 5; return;
	  case 3: SP= HL(); t= n ? 6 : 5; return;
	  }
	skip= true; return;
      case 2: v= f16(); if (cond(y)) { pc= v; t= 10; } else t= n ? 7 : 10; return;
      case 3:
	switch (y)
	  {
	  case 0: pc= f16(); t= 10; return;
	  case 4: v= rd(SP) | rd(SP + 1) << 8; wr(SP, r[5]); wr(SP + 1, r[4]); rp(2, v); t= n ? 16 : 18; return;
	  case 5: v= rp(1); rp(1, HL()); rp(2, v); return;
	  case 6: case 7: return;
	  }
	skip= true; return;
      case 4: v= f16(); if (cond(y)) { push(pc); pc= v; t= n ? 18 : 17; } else t= n ? 9 : 11; return;
      case 5:
	if (!(o & 8)) { push(p == 3 ? A << 8 | F : rp(p)); if (p == 3) pushed= SP; t= n ? 12 : 11; return; }
	if (p == 0) { v= f16(); push(pc); pc= v; t= n ? 18 : 17; return; }
	skip= true; return;
      case 6: alu(y, f()); t= 7; return;
      default: push(pc); pc= o & 0x38; t= n ? 12 : 11; return;
      }
  }
};
static M80 m;
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  if (c[kXA] >= 0) ram->poke(c[kXA] & 0xffff, c[kXV]);
  if (c[kYA] >= 0) ram->poke(c[kYA] & 0xffff, c[kYV]);
  m.pc= c[kPC]; m.A= c[kA]; m.F= c[kF] & DOC; for (int i= 0; i < 6; i++) m.r[i]= c[kB + i]; m.SP= c[kSP];
  u->cA.W(m.A); u->cF.W(m.F); u->rpBC.BC= m.rp(0); u->rpDE.DE= m.rp(1); u->rpHL.HL= m.rp(2); u->rSP= m.SP; u->state= stGO; u->PC= m.pc;
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int o= ram->rd(m.pc), p0= m.pc;
      m.step();
      if (m.skip || m.self) return;
      u64 t0= u->ticks->get_ticks();
      int res= u->do_inst();
      shm->transitions++;
      u64 dt= u->ticks->get_ticks() - t0;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x at %04x) of PC=%04lx A=%02lx F=%02lx B=%02lx C=%02lx D=%02lx E=%02lx H=%02lx L=%02lx SP=%04lx, [%lx]=%lx irq 0", what, got, want, k + 1, o, p0,
	     c[kPC], c[kA], c[kF], c[kB], c[kC], c[kD], c[kE], c[kH], c[kL], c[kSP], c[kXA], c[kXV]);
      };
      int A= u->cA.get(), F= u->cF.get();
      if (A != m.A) bad("A", A, m.A);
      if ((F ^ m.F) & DOC) bad("F", F & DOC, m.F & DOC);
      if (u->rpBC.BC != m.rp(0)) bad("BC", u->rpBC.BC, m.rp(0));
      if (u->rpDE.DE != m.rp(1)) bad("DE", u->rpDE.DE, m.rp(1));
      if (u->rpHL.HL != m.rp(2)) bad("HL", u->rpHL.HL, m.rp(2));
      if (u->rSP != m.SP) bad("SP", u->rSP, m.SP);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (dt != (u64)m.t) bad("T", dt, m.t);
      if (m.halt != (res == resHALT)) bad("halt", res, m.halt);
      if (m.pushed >= 0 && !((ram->real[m.pushed] ^ ram->ref[m.pushed]) & DOC)) ram->real[m.pushed]= ram->ref[m.pushed];
      uint32_t at;
      for (Space *s: ls.spaces) if (!s->same(&at)) bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
      if (m.halt || !pre.empty()) break;
    }
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", MC_85 ? "8085" : "8080" });
  u= (cl_i8080*)uc;
  if (var_opt("sp_limit")) var("sp_limit")->write(0);
  ram= mkspace("rom_chip", 0x10000, 1);
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x1234; c[kA]= 0x5a; c[kF]= 0; c[kB]= 0x81; c[kC]= 0x92; c[kD]= 0xa3; c[kE]= 0xb4; c[kH]= 0xc5; c[kL]= 0xd6; c[kSP]= 0x9abc; c[kNI]= 1;
}
static std::vector<int> ops;
static void mkops()
{
  for (int o= 0; o < 256; o++)
    {
      ram->poke(0x1000, o); memset((void*)&m, 0, sizeof m); m.pc= 0x1000; m.SP= m.r[4]= 0x70; m.SP= 0x7000; m.step();
      if (!m.skip) ops.push_back(o);
      ls.spaces[0]->restore();
    }
}
static int fl(int i) { return (i & 1 ? C : 0) | (i & 2 ? AC : 0) | (i & 4 ? Z|P : 0) | (i & 8 ? S : 0); }
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC];
  // 1. A x operand x flags
  for (int o: ops) for (int f= 0; f < 16; f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++)
	{
	  if (!thorough && f > 3 && (a + v * 3 + f) % 7) continue;
	  std_case(c); c[kA]= a; c[kF]= fl(f); c[kI0]= o; c[kI0 + 1]= v; c[kI0 + 2]= a;
	  int z= o >= 0x40 ? o & 7 : o >> 3 & 7;
	  if (z < 6) c[kB + z]= v;
	  if (z == 6) { c[kXA]= c[kH] << 8 | c[kL]; c[kXV]= v; }
	  if ((o & 0xcf) == 0x09) { c[kH]= a; c[kL]= v & 1 ? 0xff : 1; c[kB]= c[kD]= v; c[kC]= c[kE]= v & 2 ? 0xff : 0; c[kSP]= v << 8 | (v & 3 ? 0xff : 0); }
	  if ((o & 0xc7) == 0x03) { c[kB]= c[kD]= c[kH]= a; c[kC]= c[kE]= c[kL]= v; c[kSP]= a << 8 | v; }
	  if ((o & 0xcf) == 0xc1) { c[kXA]= c[kSP]; c[kXV]= v; c[kYA]= c[kSP] + 1; c[kYV]= a; }
	  ls.run(c);
	}
    }
  // 2. address and stack wrap-around
  static const int PCS[]= { 0, 0x00fe, 0x7ffe, 0x7fff, 0xff80, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x1000 };
  static const int W[]= { 0, 1, 2, 0x00ff, 0x0100, 0x7fff, 0x8000, 0xff00, 0xfffd, 0xfffe, 0xffff, 0x4321 };
  for (int o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int wi= 0; wi < 12; wi++) for (int d= 0; d < 256; d+= thorough ? 1 : 3)
	{
	  std_case(c); c[kPC]= pc; int w= W[wi], x= W[(wi + d) % 12], y= W[(wi * 5 + d) % 12];
	  c[kI0]= o; c[kI0 + 1]= d & 1 ? x & 255 : d; c[kI0 + 2]= d & 1 ? x >> 8 : wi * 23;
	  c[kH]= w >> 8; c[kL]= w & 255; c[kSP]= y; c[kB]= x >> 8; c[kC]= x & 255; c[kD]= W[(wi + 3) % 12] >> 8; c[kE]= W[(wi + 3) % 12] & 255;
	  c[kF]= noise(d, wi) & DOC; c[kA]= noise(d, wi + 55);
	  ls.run(c);
	}
    }
  // 3. ordered pairs
  for (int o: ops)
    {
      if (!sp.mine()) continue;
      for (int o2: ops) for (int k= 0; k < (thorough ? 64 : 12); k++)
	{
	  std_case(c); c[kNI]= 2; int at= 0, seed= o * 256 + o2;
	  bool j= (o & 0xc7) == 0xc2 || (o & 0xc7) == 0xc4 || o == 0xc3 || o == 0xcd, i16= (o & 0xcf) == 1 || (o & 0xe7) == 0x22, i8= (o & 0xc7) == 6 || (o & 0xc7) == 0xc6;
	  c[kI0 + at++]= o;
	  if (j) { c[kI0 + at++]= (c[kPC] + 3) & 255; c[kI0 + at++]= c[kPC] >> 8; }
	  else if (i16) { c[kI0 + at++]= 0x45 + k; c[kI0 + at++]= 0x67; }
	  else if (i8) c[kI0 + at++]= noise(seed, k + 90);
	  if (o == 0xc9 || (o & 0xc7) == 0xc0) { c[kXA]= c[kSP]; c[kXV]= (c[kPC] + 1) & 255; c[kYA]= c[kSP] + 1; c[kYV]= c[kPC] >> 8; }
	  c[kI0 + at]= o2;
	  if (o == 0xe9) { c[kH]= c[kPC] >> 8; c[kL]= (c[kPC] & 255) + 1; }
	  c[kA]= noise(seed, k); c[kF]= noise(seed, k + 20) & DOC; c[kB]= noise(seed, k + 40); c[kC]= noise(seed, k + 60); c[kE]= noise(seed, k + 80);
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
