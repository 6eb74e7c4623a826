/* M68HC08 and HCS08: every documented opcode, against a model written from the CPU08 reference
   manual. Clock counts, STOP, WAIT, BGND and the 9S08 extensions are not compared. */
#include "isa.h"
#include "m68hc08cl.h"
#undef store1
#undef store2
#undef get1
#undef get2
#undef fetch1
#undef push1
#undef push2
#undef pop1
#undef pop2
using namespace mc;
int mc::harness_default_shards= 0;
static Space *ram; static cl_hc08 *u; static Lockstep ls;
#ifndef HCS
#define HCS 0
#endif
enum { kPC, kA, kH, kX, kSP, kCC, kNI, kXA, kXV, kYA, kYV, kZA, kZV, kI0, NC= kI0 + 8 };
enum { C= 1, Z= 2, N= 4, I= 8, H= 16, V= 128 };
struct HC
{
  int pc, A, H_, X, S, P, pc0, dat, undef; bool skip, self;
  int rd(int a) { return ram->rd(a & 0xffff); }
  int rdd(int a) { if (dat < 0) dat= a & 0xffff; return rd(a); }
  void wr(int a, int v) { a&= 0xffff; if (dat < 0) dat= a; if (((a - pc0) & 0xffff) < 6) self= true; ram->wr(a, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int h= f(); return h << 8 | f(); }
  void rel(bool t) { int d= (signed char)f(); if (t) pc= (pc + d) & 0xffff; }
  int HX() { return H_ << 8 | X; }
  void sHX(int v) { H_= v >> 8 & 255; X= v & 255; }
  void push(int v) { wr(S, v); S= (S - 1) & 0xffff; }
  int pop() { S= (S + 1) & 0xffff; return rd(S); }
  void sets(int k, int v) { P= (P & ~k) | (v & k); }
  void nzv(int r) { sets(N|Z|V, (r & 0x80 ? N : 0) | (r & 255 ? 0 : Z)); }
  void nzv16(int r) { sets(N|Z|V, (r & 0x8000 ? N : 0) | (r & 0xffff ? 0 : Z)); }
  int add(int a, int b, int c)
  {
    int r= a + b + c, s= (signed char)a + (signed char)b + c;
    nzv(r); sets(V|C|H, (s != (signed char)s ? V : 0) | (r > 255 ? C : 0) | ((a & 15) + (b & 15) + c > 15 ? H : 0)); return r & 255;
  }
  int sub(int a, int b, int c)
  {
    int r= a - b - c, s= (signed char)a - (signed char)b - c;
    nzv(r); sets(V|C, (s != (signed char)s ? V : 0) | (r < 0 ? C : 0)); return r & 255;
  }
  void cmp16(int b)
  {
    int a= HX(), r= a - b, s= (short)a - (short)b;
    nzv16(r); sets(V|C, (s != (short)s ? V : 0) | (r < 0 ? C : 0));
  }
  int shift(int r, int out) { r&= 255; nzv(r); sets(C|V, (out ? C : 0) | (!out != !(r & 0x80) ? V : 0)); return r; }
  int ld16(int a) { int h= rdd(a); return h << 8 | rd(a + 1); }
  void ldhx(int v) { sHX(v); nzv16(v); }
  void sthx(int a) { wr(a, H_); wr(a + 1, X); nzv16(HX()); }
  // read-modify-write group
  bool rmw(int x, int o, bool sp)
  {
    if (o == 2 || o == 5 || o == 14) return false;
    int a= -1, v;
    if (o == 1 && x == 4) { v= f(); rel(A == v); return true; }
    if (o == 1 && x == 5) { v= f(); rel(X == v); return true; }
    switch (x)
      {
      case 3: a= f(); break;
      case 6: a= f() + (sp ? S : HX()); break;
      case 7: a= HX(); break;
      }
    a= a < 0 ? -1 : a & 0xffff;
    v= x == 4 ? A : x == 5 ? X : rdd(a);
    int c= P & C;
    switch (o)
      {
      case 0: v= sub(0, v, 0); break;
      case 1: rel(v == A); if (x == 7 || (x == 6 && !sp)) sHX(HX() + 1); return true;
      case 3: v^= 255; nzv(v); sets(C, C); break;
      case 4: v= shift(v >> 1, v & 1); break;
      case 6: v= shift(v >> 1 | c << 7, v & 1); break;
      case 7: v= shift(v >> 1 | (v & 0x80), v & 1); break;
      case 8: v= shift(v << 1, v & 0x80); break;
      case 9: v= shift(v << 1 | c, v & 0x80); break;
      case 10: v= (v - 1) & 255; nzv(v); if (v == 0x7f) sets(V, V); break;
      case 11: v= (v - 1) & 255; break;
      case 12: v= (v + 1) & 255; nzv(v); if (v == 0x80) sets(V, V); break;
      case 13: nzv(v); return true;
      case 15: v= 0; nzv(0); break;
      }
    if (x == 4) A= v; else if (x == 5) X= v; else wr(a, v);
    if (o == 11) rel(v);
    return true;
  }
  // accumulator group, y the addressing mode
  bool acc(int y, int o, bool sp)
  {
    int a= -1;
    if (sp && o > 11 && o < 14) return false;
    switch (y)
      {
      case 10:
	if (o == 7) { S= (S + (signed char)f()) & 0xffff; return true; }
	if (o == 15) { sHX(HX() + (signed char)f()); return true; }
	if (o == 13) { int d= (signed char)f(); int p= pc; push(p); push(p >> 8); pc= (p + d) & 0xffff; return true; }
	if (o == 12) return false;
	a= pc; pc= (pc + 1) & 0xffff; break;
      case 11: a= f(); break;
      case 12: a= f16(); break;
      case 13: a= f16() + (sp ? S : HX()); break;
      case 14: a= f() + (sp ? S : HX()); break;
      case 15: a= HX(); break;
      }
    a&= 0xffff;
    if (o == 12) { pc= a; return true; }
    if (o == 13) { push(pc); push(pc >> 8); pc= a; return true; }
    if (o == 7) { wr(a, A); nzv(A); return true; }
    if (o == 15) { wr(a, X); nzv(X); return true; }
    int v= y == 10 ? rd(a) : rdd(a), c= P & C;
    switch (o)
      {
      case 0: A= sub(A, v, 0); break;
      case 1: sub(A, v, 0); break;
      case 2: A= sub(A, v, c); break;
      case 3: sub(X, v, 0); break;
      case 4: A&= v; nzv(A); break;
      case 5: nzv(A & v); break;
      case 6: A= v; nzv(A); break;
      case 8: A^= v; nzv(A); break;
      case 9: A= add(A, v, c); break;
      case 10: A|= v; nzv(A); break;
      case 11: A= add(A, v, 0); break;
      case 14: X= v; nzv(X); break;
      }
    return true;
  }
  void step()
  {
    pc0= pc; dat= -1; undef= 0; skip= self= false;
    int o= f(), x= o >> 4, y= o & 15, a, v;
    if (x == 0) { a= f(); v= rdd(a); bool b= v >> (y >> 1) & 1; sets(C, b ? C : 0); rel(b != (y & 1)); return; }
    if (x == 1) { a= f(); v= rdd(a); int b= 1 << (y >> 1); wr(a, y & 1 ? v & ~b : v | b); return; }
    if (x == 2 || (x == 9 && y < 4))
      {
	bool n= P & N, z= P & Z, c= P & C, vv= P & V, t= true;
	if (x == 9) t= y < 2 ? n == vv : !z && n == vv;
	else switch (y >> 1)
	  {
	  case 1: t= !c && !z; break;
	  case 2: t= !c; break;
	  case 3: t= !z; break;
	  case 4: t= !(P & H); break;
	  case 5: t= !n; break;
	  case 6: t= !(P & I); break;
	  case 7: t= false; break;                // the IRQ pin is high
	  }
	rel(t != (y & 1)); return;
      }
    if (o == 0x9e)
      {
	o= f(); x= o >> 4; y= o & 15;
	if (x == 6 && rmw(6, y, true)) return;
	if ((x == 13 || x == 14) && acc(x, y, true)) return;
	if (HCS) switch (o)
	  {
	  case 0xae: ldhx(ld16(HX())); return;
	  case 0xbe: a= f16(); ldhx(ld16(a + HX())); return;
	  case 0xce: a= f(); ldhx(ld16(a + HX())); return;
	  case 0xfe: a= f(); ldhx(ld16(a + S)); return;
	  case 0xf3: a= f(); cmp16(ld16(a + S)); return;
	  case 0xff: a= f(); sthx(a + S); return;
	  }
	skip= true; return;
      }
    if (x > 2 && x < 8 && rmw(x, y, false)) return;
    if (x > 9 && acc(x, y, false)) return;
    switch (o)
      {
      case 0x32: if (!HCS) skip= true; ldhx(ld16(f16())); return;
      case 0x3e: if (!HCS) skip= true; cmp16(ld16(f16())); return;
      case 0x96: if (!HCS) skip= true; sthx(f16()); return;
      case 0x35: sthx(f()); return;
      case 0x42: v= A * X; A= v & 255; X= v >> 8; sets(C|H, 0); return;
      case 0x45: ldhx(f16()); return;
      case 0x55: ldhx(ld16(f())); return;
      case 0x65: cmp16(f16()); return;
      case 0x75: cmp16(ld16(f())); return;
      case 0x52:
	v= H_ << 8 | A;
	if (!X || v / X > 255) { sets(C, C); undef= Z; return; }
	A= v / X; H_= v % X; sets(C|Z, A ? 0 : Z); return;
      case 0x62: A= (A << 4 | A >> 4) & 255; return;
      case 0x72:
	{
	  // the table of the manual; every other combination is not defined
	  int h= A >> 4, l= A & 15, k= (P & C ? 2 : 0) | (P & H ? 1 : 0), t= -1;
	  if (k == 0) t= h <= 9 && l <= 9 ? 0 : h <= 8 && l > 9 ? 6 : h > 9 && l <= 9 ? 0x160 : h >= 9 && l > 9 ? 0x166 : -1;
	  if (k == 1) t= h <= 9 && l <= 3 ? 6 : h > 9 && l <= 3 ? 0x166 : -1;
	  if (k == 2) t= h <= 2 ? (l <= 9 ? 0x160 : 0x166) : -1;
	  if (k == 3) t= h <= 3 && l <= 3 ? 0x166 : -1;
	  if (t < 0) { skip= true; return; }
	  A= (A + t) & 255; nzv(A); undef= V; sets(C, t >> 8); return;
	}
      case 0x4e: v= rdd(f()); a= f(); wr(a, v); nzv(v); return;
      case 0x5e: v= rdd(f()); wr(HX(), v); sHX(HX() + 1); nzv(v); return;
      case 0x6e: v= f(); a= f(); wr(a, v); nzv(v); return;
      case 0x7e: v= rdd(HX()); a= f(); wr(a, v); sHX(HX() + 1); nzv(v); return;
      case 0x80: P= pop() | 0x60; A= pop(); X= pop(); v= pop(); pc= v << 8 | pop(); return;
      case 0x81: v= pop(); pc= v << 8 | pop(); return;
      case 0x83: push(pc); push(pc >> 8); push(X); push(A); push(P); sets(I, I); pc= rd(0xfffc) << 8 | rd(0xfffd); return;
      case 0x84: P= A | 0x60; return;
      case 0x85: A= P | 0x60; return;
      case 0x86: A= pop(); return;
      case 0x87: push(A); return;
      case 0x88: X= pop(); return;
      case 0x89: push(X); return;
      case 0x8a: H_= pop(); return;
      case 0x8b: push(H_); return;
      case 0x8c: H_= 0; nzv(0); return;
      case 0x94: S= (HX() - 1) & 0xffff; return;
      case 0x95: sHX(S + 1); return;
      case 0x97: X= A; return;
      case 0x98: sets(C, 0); return;
      case 0x99: sets(C, C); return;
      case 0x9a: sets(I, 0); return;
      case 0x9b: sets(I, I); return;
      case 0x9c: S|= 0xff; return;
      case 0x9d: return;
      case 0x9f: A= X; return;
      }
    skip= true;
  }
} static m;
static void load(const long *c)
{
  for (int k: { kXA, kYA, kZA }) if (c[k] >= 0) ram->poke(c[k] & 0xffff, c[k + 1]);
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  m.pc= c[kPC]; m.A= c[kA]; m.H_= c[kH]; m.X= c[kX]; m.S= c[kSP]; m.P= c[kCC] | 0x60;
}
static void one(const long *c)
{
  ram->restore();
  load(c);
  u->regs.A= m.A; u->regs.H= m.H_; u->regs.X= m.X; u->regs.SP= m.S; u->regs.P= m.P; u->regs.VECTOR= 0; u->state= stGO; u->PC= m.pc;
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int p0= m.pc, o= m.rd(p0), o1= m.rd(p0 + 1);
      m.step();
      if (m.skip || m.self) return;
      u->do_inst();
      shm->transitions++;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= o == 0x9e ? strf("%02x%02x:%s", o, o1, what) : strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x at %04x) of PC=%04lx A=%02lx HX=%02lx%02lx SP=%04lx CCR=%02lx [%lx]=%lx [%lx]=%lx", what, got, want, k + 1, o, o1, p0,
	     c[kPC], c[kA], c[kH], c[kX], c[kSP], c[kCC], c[kXA], c[kXV], c[kYA], c[kYV]);
      };
      if (o == 0x52 && (m.P & C)) { m.A= u->regs.A; m.H_= u->regs.H; }
      if (u->regs.A != m.A) bad("A", u->regs.A, m.A);
      if (u->regs.H != m.H_) bad("H", u->regs.H, m.H_);
      if (u->regs.X != m.X) bad("X", u->regs.X, m.X);
      if (u->regs.SP != m.S) bad("SP", u->regs.SP, m.S);
      int mask= 0x9f & ~m.undef, P= u->regs.P;
      if ((P ^ m.P) & mask) bad("CCR", P, m.P);
      m.P= (m.P & mask) | (P & ~mask);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (u->state != stGO) bad("state", u->state, stGO);
      uint32_t at;
      if (!ram->same(&at)) bad("memory", at * 256 + ram->real[at], at * 256 + ram->ref[at]);
      if (!pre.empty()) break;
    }
  u->state= stGO;
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", HCS ? "HCS08" : "HC08" });
  u= (cl_hc08*)uc;
  ram= mkspace("rom_chip", 0x10000, 1);
  u->sp_limit= 0;
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x9234; c[kA]= 0x5a; c[kH]= 4; c[kX]= 0x56; c[kSP]= 0x05bc; c[kCC]= 0; c[kNI]= 1;
}
struct Op { int p, o; };
static std::vector<Op> ops;
static bool where(const long *c, int &w, int &len)
{
  load(c); m.step(); w= m.dat; len= m.pc - c[kPC]; ram->restore();
  return !m.skip && !m.self;
}
static int put(long *c, const Op &o, int a1= -1, int a2= -1, int a3= -1)
{
  int n= kI0; if (o.p) c[n++]= o.p; c[n++]= o.o;
  c[n]= a1; c[n + 1]= a2; c[n + 2]= a3; return n;
}
static void mkops()
{
  for (int p: { 0, 0x9e }) for (int o= 0; o < 256; o++)
    {
      if (!p && o == 0x9e) continue;
      Op x= { p, o }; long c[NC]; int w, l;
      std_case(c); put(c, x, 0x40, 0x50, 6); c[kA]= 0x11;
      if (where(c, w, l)) ops.push_back(x);
    }
  counter("opcodes")= shard ? 0 : ops.size();
}
static void operand(long *c, int v)
{
  int w, len;
  if (!where(c, w, len)) return;
  if (w >= 0 && c[kXA] < 0)
    {
      c[kXA]= w; c[kXV]= v >> 8 & 255; c[kYA]= (w + 1) & 0xffff; c[kYV]= v & 255;
      if (!where(c, w, len)) return;
    }
  ls.run(c);
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC]; int w, len;
  static const int FL[]= { 0, C, H, C|H, V|N, Z|I, 0x9f, C|N|Z };
  // 1. accumulator x operand x flags; memory, immediate and index operands
  for (const Op &o: ops) for (int f= 0; f < 8; f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++) for (int k= 0; k < 2; k++)
	{
	  std_case(c); c[kA]= a; c[kCC]= FL[f];
	  bool idx= o.p || (o.o >> 4) == 6 || (o.o >> 4) == 7 || (o.o >> 4) > 12;
	  if (k) { c[kX]= a; if (idx) c[kA]= v; }
	  if (!idx && !k) { c[kX]= v; c[kH]= f * 0x24; }
	  if (k && (o.o & 0xcf) == 0x45) c[kH]= v;
	  if (o.o == 0x52) c[kH]= f * 31;
	  put(c, o, k ? v : 0x40 + f, k ? a ^ f : v, 6); if (o.o < 0x20) { c[kI0 + 1]= v; c[kI0 + 2]= a; }
	  operand(c, k ? v << 8 | (a ^ f) : v << 8 | a);
	}
    }
  // 2. 16 bit values and addresses
  static const int W[]= { 0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x0fff, 0x1000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xa000, 0xff00, 0xff7f, 0xff80, 0xfffd, 0xfffe, 0xffff };
  const int NW= sizeof W / sizeof *W;
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (int x: W) for (int v: W) for (int d= 0; d < NW; d++) for (int k= 0; k < (thorough ? 24 : 3); k++)
	{
	  int s= o.o * 31 + o.p + x + v * 3 + d * 7;
	  std_case(c); c[kH]= x >> 8; c[kX]= x & 255; c[kA]= noise(s, k); c[kCC]= noise(s, k + 9) & 0x9f;
	  c[kSP]= k & 1 ? W[(d + v + 5) % NW] : v;
	  put(c, o, W[d] >> 8, W[d] & 255, noise(s, k + 21)); if (k & 1) put(c, o, W[d] & 255, noise(s, k + 3), noise(s, k + 4));
	  operand(c, v);
	}
    }
  // 3. places of the program, displacements, bits
  static const int PCS[]= { 0, 0x40, 0x7e, 0x100, 0x8000, 0x80fe, 0xff80, 0xfff0, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff };
  for (const Op &o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int d= 0; d < 256; d++) for (int h: { 0, 2, 0x90, 0xff }) for (int k= 0; k < (thorough ? 12 : 2); k++)
	{
	  int s= o.o * 31 + o.p + d * 5 + h + pc;
	  std_case(c); c[kPC]= pc; c[kX]= noise(s, k); c[kH]= noise(s, k + 1); c[kA]= noise(s, k + 2); c[kCC]= noise(s, k + 3) & 0x9f; c[kSP]= noise(s, k + 4) << 8 | noise(s, k + 5);
	  put(c, o, h, d, d ^ 0x5a); if (k & 1) put(c, o, d, h, d);
	  operand(c, noise(s, k + 8) << 8 | noise(s, k + 9));
	}
    }
  // 4. stack pointer: every value
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      bool st= (o.o >> 4) == 8 || (o.o & 15) == 13 || o.p || (o.o & 0xfe) == 0x94 || o.o == 0xa7;
      if (st) for (int s= 0; s < 0x10000; s+= thorough || s < 0x200 || s > 0xfe00 ? 1 : 3)
	{
	  std_case(c); c[kSP]= s; c[kPC]= (s ^ 0x8000) & 0xffff; put(c, o, noise(s, 1), noise(s, 2), noise(s, 3)); c[kX]= noise(s, 4); c[kH]= noise(s, 5);
	  if (where(c, w, len)) ls.run(c);
	}
    }
  // 5. DIV: every dividend and divisor
  for (int h= 0; h < 256; h++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int x= 0; x < 256; x++)
	{ std_case(c); c[kH]= h; c[kA]= a; c[kX]= x; c[kCC]= (h ^ a) & 0x9f; c[kI0]= 0x52; ls.run(c); }
    }
  // 6. ordered pairs
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (const Op &o2: ops) for (int k= 0; k < (thorough ? 96 : 12); k++)
	{
	  std_case(c); c[kNI]= 2; int s= (o.o * 2 + !o.p) * 512 + o2.o * 2 + !o2.p;
	  put(c, o, k & 1 ? 2 : 0x50, 0x40, 2); if (k & 2) { c[kX]= noise(s, k + 4); c[kH]= noise(s, k + 5); }
	  if (!where(c, w, len)) continue;
	  int n= kI0 + len; if (len < 1 || len > 4) continue;
	  if (o2.p) c[n++]= o2.p; c[n++]= o2.o; for (int i= 0; n < NC; n++, i++) c[n]= i == 0 ? (k & 1 ? 2 : 0) : 0x60 + i;
	  c[kA]= noise(s, k); c[kCC]= noise(s, k + 40) & 0x9f;
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
