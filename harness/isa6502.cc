/* 6502 family: every documented opcode against a model written from the
   manufacturers' data sheets (MC_CMOS: 0 NMOS 6502, 1 65C02, 2 65C02 with bit
   instructions). */
#include "isa.h"
#include "mos6502cl.h"
#include "irqcl.h"
using namespace mc;
#ifndef MC_CMOS
#define MC_CMOS 0
#endif
int mc::harness_default_shards= 0;
static Space *ram; static cl_mos6502 *u; static Lockstep ls;
enum { kPC, kA, kX, kY, kS, kP, kNI, cXA, cXV, cYA, cYV, cIRQ, kI0, NC= kI0 + 8 };
enum { C= 1, Z= 2, I= 4, D= 8, B= 16, V= 64, N= 128 };

struct M65
{
  int pc, A, X, Y, S, P, t, undef; bool skip, self; int pc0;
  int rd(int a) { return ram->rd(a & 0xffff); }
  void wr(int a, int v) { a&= 0xffff; if (((a - pc0) & 0xffff) < 3) self= true; ram->wr(a, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int l= f(); return l | f() << 8; }
  int zp16(int a) { return rd(a & 255) | rd((a + 1) & 255) << 8; }
  void push(int v) { wr(0x100 + S, v); S= (S - 1) & 255; }
  int pop() { S= (S + 1) & 255; return rd(0x100 + S); }
  void nz(int v) { P= (P & ~(N|Z)) | (v & 0x80) | (v & 255 ? 0 : Z); }
  void set(int m, bool on) { P= on ? P | m : P & ~m; }
  bool cross;
  enum Mode { IMM, ZP, ZPX, ZPY, ABS, ABX, ABY, IX, IY, ZI };
  int ea(Mode m)
  {
    int a, e; cross= false;
    switch (m)
      {
      case IMM: a= pc; pc= (pc + 1) & 0xffff; t= 2; return a;
      case ZP: t= 3; return f();
      case ZPX: t= 4; return (f() + X) & 255;
      case ZPY: t= 4; return (f() + Y) & 255;
      case ABS: t= 4; return f16();
      case ABX: case ABY: a= f16(); e= (a + (m == ABX ? X : Y)) & 0xffff; t= 4; break;
      case IX: t= 6; return zp16(f() + X);
      case IY: a= zp16(f()); e= (a + Y) & 0xffff; t= 5; break;
      default: t= 5; return zp16(f());
      }
    cross= (a ^ e) & 0xff00;
    return e;
  }
  int src(Mode m) { int a= ea(m); if (cross) t++; return rd(a); }
  void store(Mode m, int v) { int a= ea(m); if (m == ABX || m == ABY || m == IY) t++; wr(a, v); }
  void rmw(Mode m, int k)
  {
    int a= ea(m); t+= 2;
    if (m == ABX) { if (!MC_CMOS || k >= 6) t++; else if (cross) t++; }
    wr(a, op(k, rd(a)));
  }
  int op(int k, int v)
  {
    int r;
    switch (k)
      {
      case 0: r= v << 1 & 255; set(C, v & 0x80); break;
      case 1: r= (v << 1 | (P & C)) & 255; set(C, v & 0x80); break;
      case 2: r= v >> 1; set(C, v & 1); break;
      case 3: r= v >> 1 | (P & C) << 7; set(C, v & 1); break;
      case 6: r= (v - 1) & 255; break;
      default: r= (v + 1) & 255;
      }
    nz(r); return r;
  }
  static bool bcd(int v) { return (v & 15) < 10 && v >> 4 < 10; }
  void alu(int k, int v)
  {
    int r, c= P & C;
    switch (k)
      {
      case 0: A|= v; nz(A); return;
      case 1: A&= v; nz(A); return;
      case 2: A^= v; nz(A); return;
      case 5: A= v; nz(A); return;
      case 6: r= A - v; set(C, r >= 0); nz(r & 255); return;
      }
    bool sub= k == 7;
    if (!(P & D))
      {
	if (sub) v^= 255;
	r= A + v + c; set(C, r > 255); set(V, ~(A ^ v) & (A ^ r) & 0x80); A= r & 255; nz(A); return;
      }
    if (!bcd(A) || !bcd(v)) { skip= true; return; }
    int a= (A >> 4) * 10 + (A & 15), b= (v >> 4) * 10 + (v & 15);
    if (sub) { r= a - b - !c; set(C, r >= 0); if (r < 0) r+= 100; }
    else { r= a + b + c; set(C, r > 99); r%= 100; }
    A= (r / 10) << 4 | r % 10;
    undef|= V; if (MC_CMOS) { t++; nz(A); } else undef|= N|Z;
  }
  void branch(bool c)
  {
    int o= (int8_t)f(); t= 2;
    if (c) { int d= (pc + o) & 0xffff; t++; if ((d ^ pc) & 0xff00) t++; pc= d; }
  }
  void intr(int vec, bool brk)
  {
    push(pc >> 8); push(pc & 255); push((P & ~B) | 0x20 | (brk ? B : 0)); P|= I; if (MC_CMOS) P&= ~D;
    pc= rd(vec) | rd(vec + 1) << 8; t+= 7;
  }
  void step()
  {
    pc0= pc; undef= 0; skip= self= false; t= 2;
    int o= f();
    static const Mode M1[8]= { IX, ZP, IMM, ABS, IY, ZPX, ABY, ABX };
    if ((o & 3) == 1 && o != 0x89)
      {
	Mode m= M1[o >> 2 & 7]; int k= o >> 5;
	if (k == 4) store(m, A); else alu(k, src(m));
	return;
      }
    if (MC_CMOS && (o & 0x1f) == 0x12)
      {
	int k= o >> 5;
	if (k == 4) store(ZI, A); else alu(k, src(ZI));
	return;
      }
    if ((o & 0x07) == 6 && (o & 0xc0) != 0x80)
      { rmw((o & 0x18) == 0 ? ZP : (o & 0x18) == 8 ? ABS : (o & 0x18) == 0x10 ? ZPX : ABX, o >> 5); return; }
    if ((o & 0x1f) == 0x10)
      { static const int F[4]= { N, V, C, Z }; branch(((P & F[o >> 6]) != 0) == ((o & 0x20) != 0)); return; }
    switch (o)
      {
      case 0x0a: case 0x2a: case 0x4a: case 0x6a: A= op(o >> 5, A); return;
      case 0x18: P&= ~C; return; case 0x38: P|= C; return;
      case 0x58: P&= ~I; return; case 0x78: P|= I; return;
      case 0xb8: P&= ~V; return; case 0xd8: P&= ~D; return; case 0xf8: P|= D; return;
      case 0x88: Y= (Y - 1) & 255; nz(Y); return; case 0xc8: Y= (Y + 1) & 255; nz(Y); return;
      case 0xca: X= (X - 1) & 255; nz(X); return; case 0xe8: X= (X + 1) & 255; nz(X); return;
      case 0x8a: A= X; nz(A); return; case 0x98: A= Y; nz(A); return; case 0xa8: Y= A; nz(A); return;
      case 0xaa: X= A; nz(A); return; case 0xba: X= S; nz(X); return; case 0x9a: S= X; return;
      case 0xea: return;
      case 0x08: push(P | 0x30); t= 3; return; case 0x28: P= pop(); t= 4; return;
      case 0x48: push(A); t= 3; return; case 0x68: A= pop(); nz(A); t= 4; return;
      case 0x00: pc= (pc + 1) & 0xffff; t= 0; intr(0xfffe, true); return;
      case 0x40: P= pop(); pc= pop(); pc|= pop() << 8; t= 6; return;
      case 0x60: pc= pop(); pc|= pop() << 8; pc= (pc + 1) & 0xffff; t= 6; return;
      case 0x20: { int l= f(); push(pc >> 8); push(pc & 255); pc= l | rd(pc) << 8; t= 6; return; }
      case 0x4c: pc= f16(); t= 3; return;
      case 0x6c: { int a= f16(); pc= rd(a) | rd(MC_CMOS ? a + 1 : (a & 0xff00) | ((a + 1) & 255)) << 8; t= MC_CMOS ? 6 : 5; return; }
      case 0x24: case 0x2c: { int v= src(o == 0x24 ? ZP : ABS); P= (P & ~(N|V|Z)) | (v & (N|V)) | (v & A ? 0 : Z); return; }
      case 0x84: store(ZP, Y); return; case 0x94: store(ZPX, Y); return; case 0x8c: store(ABS, Y); return;
      case 0x86: store(ZP, X); return; case 0x96: store(ZPY, X); return; case 0x8e: store(ABS, X); return;
      case 0xa0: Y= src(IMM); nz(Y); return; case 0xa4: Y= src(ZP); nz(Y); return; case 0xb4: Y= src(ZPX); nz(Y); return;
      case 0xac: Y= src(ABS); nz(Y); return; case 0xbc: Y= src(ABX); nz(Y); return;
      case 0xa2: X= src(IMM); nz(X); return; case 0xa6: X= src(ZP); nz(X); return; case 0xb6: X= src(ZPY); nz(X); return;
      case 0xae: X= src(ABS); nz(X); return; case 0xbe: X= src(ABY); nz(X); return;
      case 0xc0: case 0xc4: case 0xcc: case 0xe0: case 0xe4: case 0xec:
	{ int r= o & 0x20 ? X : Y; int v= src((o & 15) == 0 ? IMM : (o & 15) == 4 ? ZP : ABS); r-= v; set(C, r >= 0); nz(r & 255); return; }
      }
#if MC_CMOS
    switch (o)
      {
      case 0x80: branch(true); return;
      case 0x89: { int v= src(IMM); set(Z, !(v & A)); return; }
      case 0x34: case 0x3c: { int v= src(o == 0x34 ? ZPX : ABX); P= (P & ~(N|V|Z)) | (v & (N|V)) | (v & A ? 0 : Z); return; }
      case 0x64: store(ZP, 0); return; case 0x74: store(ZPX, 0); return; case 0x9c: store(ABS, 0); return; case 0x9e: store(ABX, 0); return;
      case 0x04: case 0x0c: case 0x14: case 0x1c:
	{ int a= ea(o & 8 ? ABS : ZP), v= rd(a); t+= 2; set(Z, !(v & A)); wr(a, o & 0x10 ? v & ~A : v | A); return; }
      case 0x1a: A= op(7, A); return; case 0x3a: A= op(6, A); return;
      case 0xda: push(X); t= 3; return; case 0xfa: X= pop(); nz(X); t= 4; return;
      case 0x5a: push(Y); t= 3; return; case 0x7a: Y= pop(); nz(Y); t= 4; return;
      case 0x7c: { int a= (f16() + X) & 0xffff; pc= rd(a) | rd(a + 1) << 8; t= 6; return; }
      case 0x02: case 0x22: case 0x42: case 0x62: case 0x82: case 0xc2: case 0xe2: f(); return;
      case 0x44: f(); t= 3; return; case 0x54: case 0xd4: case 0xf4: f(); t= 4; return;
      case 0x5c: f16(); t= 8; return; case 0xdc: case 0xfc: f16(); t= 4; return;
      }
    if ((o & 7) == 3 && o != 0xcb && o != 0xdb) { t= 1; return; }
#if MC_CMOS > 1
    if ((o & 15) == 7) { int a= ea(ZP), b= 1 << (o >> 4 & 7); t= 5; wr(a, o & 0x80 ? rd(a) | b : rd(a) & ~b); return; }
    if ((o & 15) == 15) { int v= rd(f()), b= v >> (o >> 4 & 7) & 1; branch(b == (o >> 7)); t+= 3; return; }
#else
    if ((o & 7) == 7) { t= 1; return; }
#endif
#endif
    skip= true;
  }
};
static M65 m; static cl_memory_cell *c_irq, *c_nmi, *c_brk;

static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  if (c[cXA] >= 0) ram->poke(c[cXA] & 0xffff, c[cXV]);
  if (c[cYA] >= 0) ram->poke(c[cYA] & 0xffff, c[cYV]);
  m.pc= c[kPC]; m.A= c[kA]; m.X= c[kX]; m.Y= c[kY]; m.S= c[kS]; m.P= c[kP];
  u->A= m.A; u->X= m.X; u->Y= m.Y; u->SP= m.S; u->CC= m.P; u->state= stGO; u->PC= m.pc;
  bool i1= false, i2= false;
  c_irq->write(0); c_nmi->write(0); c_brk->write(0);
  while (u->it_levels->count > 1) { class it_level *il= (class it_level *)u->it_levels->pop(); delete il; }
  if (c[cIRQ] & 1) { c_irq->write(1); i1= true; }
  if (c[cIRQ] & 2) { c_nmi->write(1); i2= true; }
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int o= ram->rd(m.pc), o1= ram->rd(m.pc + 1);
      int p0= m.pc;
      m.step();
      if (m.skip || m.self) return;
      bool brk= o == 0;
      if (i1 || i2)
	{
	  if (brk && (i2 || true)) return;
	  if (i2) { i2= false; m.intr(0xfffa, false); }
	  else if (!(m.P & I)) m.intr(0xfffe, false);
	}
      u64 t0= u->ticks->get_ticks();
      u->do_inst();
      shm->transitions++;
      u64 dt= u->ticks->get_ticks() - t0;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x at %04x) of PC=%04lx A=%02lx X=%02lx Y=%02lx S=%02lx P=%02lx irq %ld, [%lx]=%lx [%lx]=%lx", what, got, want, k + 1, o, o1, p0,
	     c[kPC], c[kA], c[kX], c[kY], c[kS], c[kP], c[cIRQ], c[cXA], c[cXV], c[cYA], c[cYV]);
      };
      if (u->A != m.A) bad("A", u->A, m.A);
      if (u->X != m.X) bad("X", u->X, m.X);
      if (u->Y != m.Y) bad("Y", u->Y, m.Y);
      if (u->SP != m.S) bad("S", u->SP, m.S);
      int mask= (N|V|D|I|Z|C) & ~m.undef;
      if ((u->CC ^ m.P) & mask) bad("P", u->CC & mask, m.P & mask);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (dt != (u64)m.t) bad("T", dt, m.t);
      uint32_t at;
      for (Space *s: ls.spaces)
	if (!s->same(&at))
	  {
	    // bits of a pushed status which are not defined
	    int x= s->real[at] ^ s->ref[at];
	    if (m.undef && !(x & ~m.undef)) { s->real[at]= s->ref[at]; continue; }
	    bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
	  }
      if (!pre.empty()) break;
      m.P= (m.P & mask) | (u->CC & ~mask);
    }
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}

static void setup()
{
  sim_start({ "-t", MC_CMOS == 0 ? "6502" : MC_CMOS == 1 ? "65C02" : "65C02S" });
  u= (cl_mos6502*)uc;
  for (int i= 0; i < uc->hws->count; i++)
    {
      cl_hw *h= (cl_hw*)uc->hws->at(i);
      if (!strcmp(h->id_string, "irq")) { c_irq= h->cfg_cell(m65_irq); c_nmi= h->cfg_cell(m65_nmi); c_brk= h->cfg_cell(m65_brk); }
    }
  ram= mkspace("rom_chip", 0x10000, 1);
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x1234; c[kA]= 0x5a; c[kX]= 0x13; c[kY]= 0x27; c[kS]= 0xe0; c[kP]= 0; c[kNI]= 1; c[cIRQ]= 0;
}
static std::vector<int> ops;
static void mkops()
{
  for (int o= 0; o < 256; o++)
    {
      ram->poke(0x1000, o); memset((void*)&m, 0, sizeof m); m.pc= 0x1000; m.S= 0xe0; m.step();
      if (!m.skip) ops.push_back(o);
      ls.spaces[0]->restore();
    }
}
// where the operand of the opcode is, for the registers of c and the operand bytes 0x40 0x30
static int where(const long *c)
{
  int o= c[kI0];
  if ((o & 0x1f) == 0x01) return -2;   // through a pointer
  if ((o & 0x1f) == 0x11 || (o & 0x1f) == 0x12) return -3;
  switch (o & 0x1f)
    {
    case 0x04: case 0x05: case 0x06: case 0x07: case 0x0f: case 0x17: case 0x1f: return 0x40;
    case 0x14: case 0x15: return (0x40 + c[kX]) & 255;
    case 0x16: return (0x40 + ((o & 0xc0) == 0x80 ? c[kY] : c[kX])) & 255;
    case 0x0c: case 0x0d: case 0x0e: return 0x3040;
    case 0x19: return (0x3040 + c[kY]) & 0xffff;
    case 0x1c: case 0x1d: case 0x1e: return (0x3040 + (o == 0xbe ? c[kY] : c[kX])) & 0xffff;
    }
  return -1;
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC];
  // 1. A x operand x flags
  static const int FL[]= { 0, C, D, D|C, Z|N|V, I|C, V, Z|C|I|N };
  for (int o: ops)
    for (int fl= 0; fl < 8; fl++)
      {
	if (!sp.mine()) continue;
	for (int a= 0; a < 256; a++)
	  for (int v= 0; v < 256; v++)
	    {
	      if (!thorough && fl > 3 && (a + v * 3 + fl) % 5) continue;
	      std_case(c);
	      c[kA]= a; c[kP]= FL[fl]; c[kI0]= o; c[kX]= v ^ 0x80; c[kY]= (v + 1) & 255; 
	      if (o == 0xe0 || o == 0xe4 || o == 0xec) c[kX]= a;
	      if (o == 0xc0 || o == 0xc4 || o == 0xcc) c[kY]= a;
	      c[kS]= a ^ v;
	      int w= where(c);
	      if (w == -1) { c[kI0 + 1]= v; c[kI0 + 2]= 0x30; c[cXA]= 0x100 + ((c[kS] + 1) & 255); c[cXV]= v; }
	      else if (w >= 0) { c[kI0 + 1]= 0x40; c[kI0 + 2]= (o & 15) == 15 ? 0x11 : 0x30; c[cXA]= w; c[cXV]= v; }
	      else
		{
		  c[kI0 + 1]= 0x40; int p= w == -2 ? (0x40 + c[kX]) & 255 : 0x40;
		  // the pointer is what the memory holds there
		  int t= ram->init[p] | ram->init[(p + 1) & 255] << 8;
		  if ((o & 0x1f) == 0x11) t+= c[kY];
		  c[cXA]= t & 0xffff; c[cXV]= v;
		}
	      ls.run(c);
	    }
      }
  // 2. addresses: page crossing, zero page and 64K wrap-around, stack wrap-around, varied PC
  static const int PCS[]= { 0x0200, 0x10fc, 0x10fd, 0x10fe, 0x10ff, 0x7ffe, 0x7f80, 0xfffd, 0xfffe, 0xffff, 0xff00, 0x0000, 0x8000, 0x00f0 };
  static const int R[]= { 0, 1, 0x0f, 0x7f, 0x80, 0xfe, 0xff, 0x40 };
  for (int o: ops)
    for (int pc: PCS)
      {
	if (!sp.mine()) continue;
	for (int d= 0; d < 256; d++)
	  for (int x= 0; x < 8; x++)
	    for (int h: { 0x00, 0x01, 0x30, 0x7f, 0xff })
	      {
		if (!thorough && (d + x + h) % 4 && d > 2 && d < 0xfd) continue;
		std_case(c);
		c[kPC]= pc; c[kI0]= o; c[kI0 + 1]= d; c[kI0 + 2]= h; c[kX]= R[x]; c[kY]= R[(x * 3 + d) % 8]; c[kS]= R[(x + h) % 8];
		c[kP]= noise(d, x * 3 + h) & (N|V|D|I|Z|C); c[kA]= noise(d, x + 77 + h);
		// pointers and vectors
		c[cXA]= (h & 1) ? (d + R[x]) & 255 : d; c[cXV]= (h & 2) ? 0xff : 0x90; c[cYA]= (c[cXA] + 1) & 255; c[cYV]= (h & 4) ? 0xff : 0x00;
		if (o == 0x6c || o == 0x7c) { c[cXA]= (d | h << 8) + (o == 0x7c ? c[kX] : 0); c[cXV]= 0x12; c[cYA]= -1; }
		if (((c[cXA] - pc) & 0xffff) < 4) c[cXA]= -1;
		if (((c[cYA] - pc) & 0xffff) < 4) c[cYA]= -1;
		ls.run(c);
	      }
      }
  // 3. interrupts requested before an instruction
  for (int o: ops)
    for (int irq: { 1, 2, 3 })
      {
	if (!sp.mine()) continue;
	for (int p= 0; p < 256; p++)
	  for (int s: { 0, 1, 2, 3, 0x80, 0xff })
	    {
	      std_case(c); c[kI0]= o; c[kI0 + 1]= 0x40; c[kI0 + 2]= 0x30; c[kP]= p & (N|V|D|I|Z|C); c[kS]= s; c[cIRQ]= irq; 
	      c[cXA]= 0xfffe ^ ((p >> 4 & 1) * 4); c[cXV]= p; if (o == 0x28 || o == 0x40) { c[cYA]= 0x100 + ((s + 1) & 255); c[cYV]= p ^ 0x5a; }
	      ls.run(c);
	    }
      }
  // interrupts and BRK in the handler of another
  for (int o: { 0x00, 0x58, 0x40, 0xea, 0x28, 0x78 })
    for (int irq= 0; irq < 2; irq++)
      {
	if (!sp.mine()) continue;
	for (int o2: { 0x00, 0x58, 0x40, 0xea, 0x28, 0xf8, 0x48 }) for (int n= 1; n < 5; n++) for (int s: { 0, 3, 0x40, 0xff }) for (int p: { 0, 4, 8, 12 })
	  {
	    std_case(c); c[kPC]= 0x0700 - 2; c[kI0]= o; c[kI0 + 1]= 0xea;
	    for (int i= 2; i < 8; i++) c[kI0 + i]= i & 1 ? o2 : o;
	    c[cXA]= 0xfffe; c[cXV]= 0; c[cYA]= 0xffff; c[cYV]= 7; c[kS]= s; c[kP]= p; c[cIRQ]= irq; c[kNI]= n;
	    ls.run(c);
	  }
      }
  // 4. ordered pairs
  for (int o: ops)
    {
      if (!sp.mine()) continue;
      for (int o2: ops)
	for (int k= 0; k < (thorough ? 64 : 8); k++)
	  {
	    std_case(c); c[kNI]= 2; c[kI0]= o;
	    int at= 1; bool br= (o & 0x1f) == 0x10 || o == 0x80;
	    int seed= o * 256 + o2;
	    int len= 1; { ram->poke(0x1000, o); ram->poke(0x1001, 0); ram->poke(0x1002, 0x20); M65 t; memset((void*)&t, 0, sizeof t); t.pc= 0x1000; t.S= 0x80; t.step(); if (!br && t.pc > 0x1000 && t.pc < 0x1004) len= t.pc - 0x1000; else if (br) len= 2; ram->restore(); }
	    for (; at < len; at++) c[kI0 + at]= br ? 0 : at == 1 ? 0x40 + k : 0x30;
	    if (o == 0x4c || o == 0x20) { c[kI0 + 1]= (c[kPC] + 3) & 255; c[kI0 + 2]= c[kPC] >> 8; at= 3; }
	    c[kI0 + at]= o2;
	    c[kA]= noise(seed, k); c[kX]= noise(seed, k + 9); c[kY]= noise(seed, k + 18); c[kS]= noise(seed, k + 27); c[kP]= noise(seed, k + 36) & (N|V|D|I|Z|C);
	    ls.run(c);
	    counter("instruction pairs")++;
	  }
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
