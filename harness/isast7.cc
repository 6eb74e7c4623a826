/* ST7: every documented opcode with every prefix it takes, against a model written from the ST7
   programming manual. Clock counts, TRAP, HALT, WFI, JRIL, JRIH and the wrap of the stack pointer
   within its page are not compared, nor N and Z after register to register loads. */
#include "isa.h"
#include "st7cl.h"
using namespace mc;
int mc::harness_default_shards= 0;
static Space *ram; static cl_st7 *u; static Lockstep ls;
enum { kPC, kA, kX, kY, kSP, kCC, kNI, kXA, kXV, kYA, kYV, kZA, kZV, kI0, NC= kI0 + 9 };
enum { C= 1, Z= 2, N= 4, I= 8, H= 16 };
struct HC
{
  int pc, A, X, Y, S, P, pc0, dat, undef, len; bool skip, self;
  int rd(int a) { return ram->rd(a & 0xffff); }
  int rdd(int a) { a&= 0xffff; if (dat < 0) dat= a; return rd(a); }
  void wr(int a, int v) { a&= 0xffff; if (dat < 0) dat= a; if (((a - pc0) & 0xffff) < 6) self= true; ram->wr(a, v & 255); }
  int f() { len++; int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int h= f(); return h << 8 | f(); }
  int p16(int a) { if (a == 0xff) skip= true; int h= rd(a); return h << 8 | rd(a + 1); }
  void jr(bool t, int d) { if (t) pc= (pc + (signed char)d) & 0xffff; }
  void push(int v) { if ((S & 255) < 1) skip= true; wr(S, v); S= (S - 1) & 0xffff; }
  int pop() { if ((S & 255) > 254) skip= true; S= (S + 1) & 0xffff; return rd(S); }
  int pop16() { int h= pop(); return h << 8 | pop(); }
  void sets(int k, int v) { P= (P & ~k) | (v & k); }
  void nz(int r) { sets(N|Z, (r & 0x80 ? N : 0) | (r & 255 ? 0 : Z)); }
  int add(int a, int b, int c)
  { int r= a + b + c; nz(r); sets(C|H, (r > 255 ? C : 0) | ((a & 15) + (b & 15) + c > 15 ? H : 0)); return r & 255; }
  int sub(int a, int b, int c) { int r= a - b - c; nz(r); sets(C, r < 0 ? C : 0); return r & 255; }
  int shift(int r, int out) { r&= 255; nz(r); sets(C, out ? C : 0); return r; }
  bool rmw(int x, int o, int p)
  {
    static const int ok[8]= { 0, 0, 0, 5, 1, 3, 15, 3 };	// prefixes: 1 none, 2 90, 4 92, 8 91
    int pb= !p ? 1 : p == 0x90 ? 2 : p == 0x92 ? 4 : 8;
    if (o == 2 && (x == 4))
      {
	if (p && p != 0x90) return false;
	int &r= p ? Y : X, v= r * A; A= v & 255; r= v >> 8; sets(H|C, 0); return true;
      }
    if (o == 1 || o == 2 || o == 5 || o == 11 || !(ok[x] & pb)) return false;
    int a= -1, v, ix= p == 0x90 || p == 0x91 ? Y : X;
    switch (x)
      {
      case 3: a= f(); if (p) a= rd(a); break;
      case 6: a= f(); if (pb > 2) a= rd(a); a+= ix; break;
      case 7: a= ix; break;
      }
    int &r= p ? Y : X;
    v= x == 4 ? A : x == 5 ? r : rdd(a);
    int c= P & C;
    switch (o)
      {
      case 0: v= sub(0, v, 0); break;
      case 3: v^= 255; nz(v); sets(C, C); break;
      case 4: v= shift(v >> 1, v & 1); break;
      case 6: v= shift(v >> 1 | c << 7, v & 1); break;
      case 7: v= shift(v >> 1 | (v & 0x80), v & 1); break;
      case 8: v= shift(v << 1, v & 0x80); break;
      case 9: v= shift(v << 1 | c, v & 0x80); break;
      case 10: v= (v - 1) & 255; nz(v); break;
      case 12: v= (v + 1) & 255; nz(v); break;
      case 13: nz(v); return true;
      case 14: v= (v << 4 | v >> 4) & 255; nz(v); break;
      case 15: v= 0; nz(0); break;
      }
    if (x == 4) A= v; else if (x == 5) r= v; else wr(a, v);
    return true;
  }
  bool acc(int y, int o, int p)
  {
    int a= -1; bool xy= o == 3 || o > 13, usey= p == 0x90 || p == 0x91, ind= p > 0x90;
    int ix= usey ? Y : X;
    switch (y)
      {
      case 10:
	if (o == 13)
	  {
	    if (usey) return false;
	    int d= f(); if (p) d= rd(d);
	    int q= pc; push(q); push(q >> 8); jr(true, d); return true;
	  }
	if (o == 7 || o == 15 || o == 12 || ind || (p && !xy)) return false;
	a= pc; f(); break;
      case 11: if (usey && !xy) return false; a= f(); if (ind) a= rd(a); break;
      case 12: if (usey && !xy) return false; if (ind) a= p16(f()); else a= f16(); break;
      case 13: a= (ind ? p16(f()) : f16()) + ix; break;
      case 14: a= f(); if (ind) a= rd(a); a+= ix; break;
      case 15: if (ind) return false; a= ix; break;
      }
    a&= 0xffff;
    int &r= usey ? Y : X;
    if (o == 12) { pc= a; return true; }
    if (o == 13) { push(pc); push(pc >> 8); pc= a; return true; }
    if (o == 7) { wr(a, A); nz(A); return true; }
    if (o == 15) { wr(a, r); nz(r); return true; }
    int v= y == 10 ? rd(a) : rdd(a), c= P & C;
    switch (o)
      {
      case 0: A= sub(A, v, 0); break;
      case 1: sub(A, v, 0); break;
      case 2: A= sub(A, v, c); break;
      case 3: sub(r, v, 0); break;
      case 4: A&= v; nz(A); break;
      case 5: nz(A & v); break;
      case 6: A= v; nz(A); break;
      case 8: A^= v; nz(A); break;
      case 9: A= add(A, v, c); break;
      case 10: A|= v; nz(A); break;
      case 11: A= add(A, v, 0); break;
      case 14: r= v; nz(r); break;
      }
    return true;
  }
  void step()
  {
    pc0= pc; dat= -1; undef= len= 0; skip= self= false;
    int p= 0, o= f(), x, y, a, v;
    if (o >= 0x90 && o <= 0x92) { p= o; o= f(); }
    x= o >> 4; y= o & 15;
    if (x < 3 && p && p != 0x92) { skip= true; return; }
    if (x == 0) { a= f(); if (p) a= rd(a); v= rdd(a); int d= f(); bool b= v >> (y >> 1) & 1; sets(C, b ? C : 0); jr(b != (y & 1), d); return; }
    if (x == 1) { a= f(); if (p) a= rd(a); v= rdd(a); int b= 1 << (y >> 1); wr(a, y & 1 ? v & ~b : v | b); return; }
    if (x == 2)
      {
	bool t= true;
	switch (y >> 1)
	  {
	  case 1: t= !(P & (C|Z)); break;
	  case 2: t= !(P & C); break;
	  case 3: t= !(P & Z); break;
	  case 4: t= !(P & H); break;
	  case 5: t= !(P & N); break;
	  case 6: t= !(P & I); break;
	  case 7: skip= true; return;
	  }
	a= f(); if (p) a= rd(a);
	jr(t != (y & 1), a); return;
      }
    if (x < 8) { if (!rmw(x, y, p)) skip= true; return; }
    if (x > 9) { if (!acc(x, y, p)) skip= true; return; }
    int &r= p ? Y : X;
    if (p > 0x90) { skip= true; return; }
    switch (o)
      {
      case 0x85: r= pop(); return;
      case 0x89: push(r); return;
      case 0x93: if (p) Y= X; else X= Y; undef= N|Z; return;
      case 0x94: S= (S & 0xff00) | r; undef= N|Z; return;
      case 0x96: r= S & 255; undef= N|Z; return;
      case 0x97: r= A; undef= N|Z; return;
      case 0x9f: A= r; undef= N|Z; return;
      }
    if (p) { skip= true; return; }
    switch (o)
      {
      case 0x80: P= pop() | 0xe0; A= pop(); X= pop(); pc= pop16(); return;
      case 0x81: pc= pop16(); return;
      case 0x84: A= pop(); return;
      case 0x86: P= pop() | 0xe0; return;
      case 0x88: push(A); return;
      case 0x8a: push(P); return;
      case 0x95: S= (S & 0xff00) | A; undef= N|Z; return;
      case 0x98: sets(C, 0); return;
      case 0x99: sets(C, C); return;
      case 0x9a: sets(I, 0); return;
      case 0x9b: sets(I, I); return;
      case 0x9c: S= 0x17f; return;
      case 0x9d: return;
      case 0x9e: A= S & 255; undef= N|Z; return;
      }
    skip= true;
  }
} static m;
static void load(const long *c)
{
  for (int k: { kXA, kYA, kZA }) if (c[k] >= 0) ram->poke(c[k] & 0xffff, c[k + 1]);
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  m.pc= c[kPC]; m.A= c[kA]; m.X= c[kX]; m.Y= c[kY]; m.S= c[kSP]; m.P= c[kCC] | 0xe0;
}
static void one(const long *c)
{
  ram->restore();
  load(c);
  u->regs.A= m.A; u->regs.X= m.X; u->regs.Y= m.Y; u->regs.SP= m.S; u->regs.CC= m.P; u->regs.VECTOR= 0; u->state= stGO; u->PC= m.pc;
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int p0= m.pc, o= m.rd(p0), o1= m.rd(p0 + 1);
      m.step();
      if (m.skip || m.self) return;
      int l= u->inst_length(p0);
      u->do_inst();
      shm->transitions++;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= o >= 0x90 && o <= 0x92 ? strf("%02x%02x:%s", o, o1, what) : strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x at %04x) of PC=%04lx A=%02lx X=%02lx Y=%02lx SP=%04lx CC=%02lx [%lx]=%lx [%lx]=%lx", what, got, want, k + 1, o, o1, p0,
	     c[kPC], c[kA], c[kX], c[kY], c[kSP], c[kCC], c[kXA], c[kXV], c[kYA], c[kYV]);
      };
      if (u->regs.A != m.A) bad("A", u->regs.A, m.A);
      if (u->regs.X != m.X) bad("X", u->regs.X, m.X);
      if (u->regs.Y != m.Y) bad("Y", u->regs.Y, m.Y);
      if (u->regs.SP != m.S) bad("SP", u->regs.SP, m.S);
      int mask= 0x1f & ~m.undef, P= u->regs.CC;
      if ((P ^ m.P) & mask) bad("CC", P, m.P);
      m.P= (m.P & mask) | (P & ~mask);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (l != m.len && p0 < 0xfff8) bad("length", l, m.len);
      if (u->state != stGO) bad("state", u->state, stGO);
      uint32_t at;
      if (!ram->same(&at)) bad("memory", at * 256 + ram->real[at], at * 256 + ram->ref[at]);
      if (!pre.empty()) break;
    }
  u->state= stGO;
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", "ST7" });
  u= (cl_st7*)uc;
  ram= mkspace("rom_chip", 0x10000, 1);
  u->sp_limit= 0;
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x9234; c[kA]= 0x5a; c[kX]= 0x56; c[kY]= 0x39; c[kSP]= 0x015c; c[kCC]= 0; c[kNI]= 1;
}
struct Op { int p, o; };
static std::vector<Op> ops;
static bool where(const long *c, int &w, int &len)
{
  load(c); m.step(); w= m.dat; len= m.pc - c[kPC]; ram->restore();
  return !m.skip && !m.self;
}
static int put(long *c, const Op &o, int a1= -1, int a2= -1, int a3= -1)
{
  int n= kI0; if (o.p) c[n++]= o.p; c[n++]= o.o;
  c[n]= a1; c[n + 1]= a2; c[n + 2]= a3; return n;
}
static void mkops()
{
  for (int p: { 0, 0x90, 0x91, 0x92 }) for (int o= 0; o < 256; o++)
    {
      if (o >= 0x90 && o <= 0x92) continue;
      Op x= { p, o }; long c[NC]; int w, l;
      std_case(c); put(c, x, 0x40, 0x50, 6); c[kA]= 0x11;
      if (where(c, w, l)) ops.push_back(x);
    }
  counter("opcodes with prefix")= shard ? 0 : ops.size();
}
static void operand(long *c, int v)
{
  int w, len;
  if (!where(c, w, len)) return;
  if (w >= 0 && c[kXA] < 0)
    {
      c[kXA]= w; c[kXV]= v >> 8 & 255; c[kYA]= (w + 1) & 0xffff; c[kYV]= v & 255;
      if (!where(c, w, len)) return;
    }
  ls.run(c);
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC]; int w, len;
  static const int FL[]= { 0, C, H, C|H, N, Z|I, 0x1f, C|N|Z };
  // 1. accumulator x operand x flags; memory, immediate and index operands
  for (const Op &o: ops) for (int f= 0; f < 8; f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++) for (int k= 0; k < 2; k++)
	{
	  std_case(c); c[kA]= a; c[kCC]= FL[f];
	  if (k) { c[kX]= o.p == 0x92 ? v : a; c[kY]= o.p ? a : v; c[kA]= (o.o & 0xf0) == 0x40 ? a : v; }
	  else { c[kX]= v; c[kY]= a ^ f; }
	  put(c, o, k ? v : 0x40 + f, k ? a ^ f : v, 6); if (o.o < 0x20) { c[kI0 + 1 + !!o.p]= v; c[kI0 + 2 + !!o.p]= a; }
	  operand(c, k ? v << 8 | (a ^ f) : (o.o & 0xf0) == 0xa0 ? a : v << 8 | a);
	}
    }
  // 2. addresses: direct, pointers and what they hold, index
  static const int W[]= { 0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x0fff, 0x1000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xa000, 0xff00, 0xff7f, 0xff80, 0xfffd, 0xfffe, 0xffff };
  const int NW= sizeof W / sizeof *W;
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (int x= 0; x < NW; x++) for (int v= 0; v < NW; v++) for (int d= 0; d < NW; d++) for (int k= 0; k < (thorough ? 24 : 3); k++)
	{
	  int s= o.o * 31 + o.p + x + v * 3 + d * 7;
	  std_case(c); c[kX]= W[x] & 255; c[kY]= W[(x + 5) % NW] & 255; c[kA]= noise(s, k); c[kCC]= noise(s, k + 9) & 0x1f;
	  c[kSP]= 0x100 | (W[(d + v + 5) % NW] & 255);
	  put(c, o, W[d] >> 8, W[d] & 255, noise(s, k + 21)); if (k & 1) put(c, o, W[d] & 255, noise(s, k + 3), noise(s, k + 4));
	  if (o.p > 0x90) { int p= c[kI0 + 2]; c[kZA]= p; c[kZV]= W[v] >> 8; if (p + 1 < 0x100) { c[kYA]= p + 1; c[kYV]= W[v] & 255; } if (k == 2) c[kZV]= W[v] & 255; }
	  operand(c, W[v]);
	}
    }
  // 3. places of the program, displacements, bits
  static const int PCS[]= { 0, 0x40, 0x7e, 0x100, 0x8000, 0x80fe, 0xff80, 0xfff0, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff };
  for (const Op &o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int d= 0; d < 256; d++) for (int h: { 0, 2, 0x90, 0xff }) for (int k= 0; k < (thorough ? 12 : 2); k++)
	{
	  int s= o.o * 31 + o.p + d * 5 + h + pc;
	  std_case(c); c[kPC]= pc; c[kX]= noise(s, k); c[kY]= noise(s, k + 1); c[kA]= noise(s, k + 2); c[kCC]= noise(s, k + 3) & 0x1f; c[kSP]= 0x100 | noise(s, k + 5);
	  put(c, o, h, d, d ^ 0x5a); if (k & 1) put(c, o, d, h, d);
	  operand(c, noise(s, k + 8) << 8 | noise(s, k + 9));
	}
    }
  // 4. stack pointer: every value within its page
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      bool st= (o.o >> 4) == 8 || (o.o >> 4) == 9 || (o.o & 15) == 13;
      if (st) for (int s= 0; s < 256; s++) for (int k= 0; k < (thorough ? 256 : 32); k++)
	{
	  std_case(c); c[kSP]= 0x100 | s; c[kPC]= noise(s, k + 7) << 8 | noise(s, k + 6); put(c, o, noise(s, 1), noise(s, 2), noise(s, 3)); c[kX]= noise(s, k + 4); c[kY]= noise(s, k + 5); c[kA]= noise(s, k + 8);
	  if (where(c, w, len)) ls.run(c);
	}
    }
  // 5. MUL: every pair
  for (int p: { 0, 0x90 }) for (int a= 0; a < 256; a++)
    {
      if (!sp.mine()) continue;
      for (int x= 0; x < 256; x++) for (int f= 0; f < 32; f++)
	{ std_case(c); c[kA]= a; c[kX]= x; c[kY]= p ? x : x ^ 0x5a; if (p) c[kX]= x ^ 0x33; c[kCC]= f; put(c, { p, 0x42 }); ls.run(c); }
    }
  // 6. ordered pairs
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (const Op &o2: ops) for (int k= 0; k < (thorough ? 96 : 8); k++)
	{
	  std_case(c); c[kNI]= 2; int s= (o.o * 4 + (o.p & 3)) * 1024 + o2.o * 4 + (o2.p & 3);
	  put(c, o, k & 1 ? 2 : 0x50, 0x40, 2); if (k & 2) { c[kX]= noise(s, k + 4); c[kY]= noise(s, k + 5); }
	  if (!where(c, w, len)) continue;
	  int n= kI0 + len; if (len < 1 || len > 5) continue;
	  if (o2.p) c[n++]= o2.p; c[n++]= o2.o; for (int i= 0; n < NC; n++, i++) c[n]= i == 0 ? (k & 1 ? 2 : 0) : 0x60 + i;
	  c[kA]= noise(s, k); c[kCC]= noise(s, k + 40) & 0x1f;
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
