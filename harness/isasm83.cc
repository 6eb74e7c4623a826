/* SM83 (LR35902): every opcode against a model written from the processor's
   documentation. */
#include "isa.h"
#define protected public
#include "gb80cl.h"
#undef protected
using namespace mc;
int mc::harness_default_shards= 0;
static Space *ram; static cl_gb80 *z; static Lockstep ls;
enum { kPC, kA, kF, kB, kC, kD, kE, kH, kL, kSP, kIFF, kXA, kXV, kYA, kYV, kNI, kI0, NC= kI0 + 8 };
enum { FZ= 0x80, FN= 0x40, FH= 0x20, FC= 0x10 };
struct SM
{
  int pc, F, SP, r[8], iff, cy, pc0; bool halt, skip;      // r: B C D E H L - A
  int rd(int a) { return ram->rd(a & 0xffff); }
  void wr(int a, int v) { if (((a - pc0) & 0xffff) < 3) skip= true; ram->wr(a & 0xffff, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int l= f(); return l | f() << 8; }
  int rr(int i) { return r[i] << 8 | r[i + 1]; }
  void rr(int i, int v) { r[i]= v >> 8 & 255; r[i + 1]= v & 255; }
  int HL() { return rr(4); }
  int g(int i) { return i == 6 ? rd(HL()) : r[i]; }
  void s(int i, int v) { if (i == 6) wr(HL(), v); else r[i]= v & 255; }
  void push(int v) { SP= (SP - 1) & 0xffff; wr(SP, v >> 8); SP= (SP - 1) & 0xffff; wr(SP, v); }
  int pop() { int v= rd(SP) | rd(SP + 1) << 8; SP= (SP + 2) & 0xffff; return v; }
  int dreg(int k) { return k == 3 ? SP : rr(k * 2); }
  void dreg(int k, int v) { v&= 0xffff; if (k == 3) SP= v; else rr(k * 2, v); }
  bool cc(int k) { bool t= k & 2 ? F & FC : F & FZ; return k & 1 ? t : !t; }
  void alu(int k, int b)
  {
    int &A= r[7], c= (k == 1 || k == 3) && (F & FC) ? 1 : 0, v;
    switch (k)
      {
      case 0: case 1: v= A + b + c; F= (v & 255 ? 0 : FZ) | ((A & 15) + (b & 15) + c > 15 ? FH : 0) | (v > 255 ? FC : 0); A= v & 255; return;
      case 2: case 3: case 7: v= A - b - c; F= (v & 255 ? 0 : FZ) | FN | ((A & 15) - (b & 15) - c < 0 ? FH : 0) | (v < 0 ? FC : 0); if (k != 7) A= v & 255; return;
      case 4: A&= b; F= (A ? 0 : FZ) | FH; return;
      case 5: A^= b; F= A ? 0 : FZ; return;
      case 6: A|= b; F= A ? 0 : FZ; return;
      }
  }
  int rot(int k, int v)
  {
    int o= F & FC ? 1 : 0, c= k & 1 ? v & 1 : v >> 7, n= 0;
    switch (k)
      {
      case 0: n= v << 1 | c; break;
      case 1: n= v >> 1 | c << 7; break;
      case 2: n= v << 1 | o; break;
      case 3: n= v >> 1 | o << 7; break;
      case 4: n= v << 1; break;
      case 5: n= v >> 1 | (v & 0x80); break;
      case 6: n= v << 4 | v >> 4; c= 0; break;
      case 7: n= v >> 1; break;
      }
    n&= 255; F= (n ? 0 : FZ) | (c ? FC : 0); return n;
  }
  int spd() { int d= f(); F= ((SP & 15) + (d & 15) > 15 ? FH : 0) | ((SP & 255) + d > 255 ? FC : 0); return (SP + (int8_t)d) & 0xffff; }
  void step()
  {
    halt= skip= false; pc0= pc; cy= 1;
    int o= f(), x= o >> 6, y= o >> 3 & 7, w= o & 7, v, c;
    int &A= r[7];
    switch (x)
      {
      case 1:
	if (o == 0x76) { halt= true; return; }
	if (y == 6 || w == 6) cy= 2;
	s(y, g(w)); return;
      case 2: if (w == 6) cy= 2; alu(y, g(w)); return;
      case 0:
	switch (w)
	  {
	  case 0:
	    if (y == 0) return;
	    if (y == 1) { cy= 5; v= f16(); wr(v, SP); wr(v + 1, SP >> 8); return; }
	    if (y == 2) { skip= true; return; }
	    v= (int8_t)f(); cy= 2;
	    if (y == 3 || cc(y & 3)) { pc= (pc + v) & 0xffff; cy= 3; }
	    return;
	  case 1:
	    if (!(y & 1)) { cy= 3; dreg(y >> 1, f16()); return; }
	    cy= 2; v= dreg(y >> 1); F= (F & FZ) | ((HL() & 0xfff) + (v & 0xfff) > 0xfff ? FH : 0) | (HL() + v > 0xffff ? FC : 0); rr(4, (HL() + v) & 0xffff); return;
	  case 2:
	    cy= 2; v= y < 4 ? rr(y >> 1 << 1) : HL();
	    if (y & 1) A= rd(v); else wr(v, A);
	    if (y >= 4) rr(4, (v + (y >= 6 ? -1 : 1)) & 0xffff);
	    return;
	  case 3: cy= 2; dreg(y >> 1, dreg(y >> 1) + (y & 1 ? -1 : 1)); return;
	  case 4: if (y == 6) cy= 3; v= (g(y) + 1) & 255; F= (F & FC) | (v ? 0 : FZ) | (v & 15 ? 0 : FH); s(y, v); return;
	  case 5: if (y == 6) cy= 3; v= (g(y) - 1) & 255; F= (F & FC) | FN | (v ? 0 : FZ) | ((v & 15) == 15 ? FH : 0); s(y, v); return;
	  case 6: cy= y == 6 ? 3 : 2; s(y, f()); return;
	  case 7:
	    switch (y)
	      {
	      case 0: case 1: case 2: case 3: A= rot(y, A); F&= FC; return;
	      case 4:
		c= F & FC; v= A;
		if (F & FN) { if (F & FH) v-= 6; if (c) v-= 0x60; }
		else { int d= 0; if ((F & FH) || (A & 15) > 9) d|= 6; if (c || A > 0x99) { d|= 0x60; c= FC; } v+= d; }
		A= v & 255; F= (F & FN) | (A ? 0 : FZ) | c; return;
	      case 5: A^= 255; F|= FN | FH; return;
	      case 6: F= (F & FZ) | FC; return;
	      case 7: F= (F & FZ) | (~F & FC); return;
	      }
	  }
	return;
      }
    switch (o)
      {
      case 0xc0: case 0xc8: case 0xd0: case 0xd8: cy= 2; if (cc(y)) { cy= 5; pc= pop(); } return;
      case 0xc1: case 0xd1: case 0xe1: cy= 3; rr((y >> 1) * 2, pop()); return;
      case 0xf1: cy= 3; v= pop(); A= v >> 8; F= v & 0xf0; return;
      case 0xc2: case 0xca: case 0xd2: case 0xda: cy= 3; v= f16(); if (cc(y)) { cy= 4; pc= v; } return;
      case 0xc3: cy= 4; pc= f16(); return;
      case 0xc4: case 0xcc: case 0xd4: case 0xdc: cy= 3; v= f16(); if (cc(y)) { cy= 6; push(pc); pc= v; } return;
      case 0xc5: case 0xd5: case 0xe5: cy= 4; push(rr((y >> 1) * 2)); return;
      case 0xf5: cy= 4; push(A << 8 | F); return;
      case 0xc9: cy= 4; pc= pop(); return;
      case 0xd9: cy= 4; pc= pop(); iff= 1; return;
      case 0xcd: cy= 6; v= f16(); push(pc); pc= v; return;
      case 0xe0: cy= 3; wr(0xff00 | f(), A); return;
      case 0xf0: cy= 3; A= rd(0xff00 | f()); return;
      case 0xe2: cy= 2; wr(0xff00 | r[1], A); return;
      case 0xf2: cy= 2; A= rd(0xff00 | r[1]); return;
      case 0xea: cy= 4; wr(f16(), A); return;
      case 0xfa: cy= 4; A= rd(f16()); return;
      case 0xe8: cy= 4; SP= spd(); return;
      case 0xf8: cy= 3; v= spd(); rr(4, v); return;
      case 0xe9: pc= HL(); return;
      case 0xf9: cy= 2; SP= HL(); return;
      case 0xf3: iff= 0; return;
      case 0xfb: iff= 1; return;
      case 0xcb:
	v= f(); cy= 2; y= v >> 3 & 7; w= v & 7; x= v >> 6;
	if (w == 6) cy= x == 1 ? 3 : 4;
	if (x == 0) s(w, rot(y, g(w)));
	else if (x == 1) F= (F & FC) | FH | (g(w) >> y & 1 ? 0 : FZ);
	else if (x == 2) s(w, g(w) & ~(1 << y));
	else s(w, g(w) | 1 << y);
	return;
      }
    if (w == 6) { cy= 2; alu(y, f()); return; }
    if (w == 7) { cy= 4; push(pc); pc= y * 8; return; }
    skip= true;
  }
};
static SM m;
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  m.pc= c[kPC]; m.F= c[kF] & 0xf0; m.SP= c[kSP]; m.iff= c[kIFF];
  for (int i= 0; i < 6; i++) m.r[i]= c[kB + i];
  m.r[6]= 0; m.r[7]= c[kA];
  if (c[kXA] >= 0) ram->poke(c[kXA] & 0xffff, c[kXV]);
  if (c[kYA] >= 0) ram->poke(c[kYA] & 0xffff, c[kYV]);
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((m.pc + i) & 0xffff, c[kI0 + i]);
  t_regs &r= z->regs;
  r.raf.A= m.r[7]; r.raf.F= m.F; r.BC= m.rr(0); r.DE= m.rr(2); r.HL= m.rr(4); r.SP= m.SP; z->IFF1= z->IFF2= m.iff;
  z->state= stGO; z->PC= m.pc;
  for (int k= 0; k < c[kNI]; k++)
    {
      int o= ram->rd(m.pc), o1= ram->rd((m.pc + 1) & 0xffff);
      m.step();
      if (m.skip) { for (Space *s: ls.spaces) s->dirtyall= true; return; }
      nontrivial= true;
      u64 t0= z->ticks->get_ticks();
      int res= z->do_inst();
      shm->transitions++;
      u64 dt= z->ticks->get_ticks() - t0;
      std::string pre;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x): PC=%04lx A=%02lx F=%02lx BC=%02lx%02lx DE=%02lx%02lx HL=%02lx%02lx SP=%04lx", what, got, want, k + 1, o, o1,
	     c[kPC], c[kA], c[kF], c[kB], c[kC], c[kD], c[kE], c[kH], c[kL], c[kSP]);
      };
      if (r.raf.A != m.r[7]) bad("A", r.raf.A, m.r[7]);
      if (r.raf.F != m.F) bad("F", r.raf.F, m.F);
      if (r.BC != m.rr(0)) bad("BC", r.BC, m.rr(0));
      if (r.DE != m.rr(2)) bad("DE", r.DE, m.rr(2));
      if (r.HL != m.rr(4)) bad("HL", r.HL, m.rr(4));
      if (r.SP != m.SP) bad("SP", r.SP, m.SP);
      if (z->IFF1 != m.iff) bad("IFF", z->IFF1, m.iff);
      if ((int)z->PC != m.pc) bad("PC", z->PC, m.pc);
      if (dt != (u64)m.cy * 4) bad("T", dt, m.cy * 4);
      if (m.halt != (res == resHALT)) bad("halt", res, m.halt);
      uint32_t at;
      for (Space *s: ls.spaces) if (!s->same(&at)) bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
      if (!pre.empty() || m.halt) break;
    }
}
static void setup()
{
  sim_start({ "-t", "LR35902" });
  z= (cl_gb80*)uc;
  var("sp_limit")->write(0);
  ram= mkspace("rom_chip", 0x10000, 1);
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x1234; c[kA]= 0x5a; c[kF]= 0; c[kB]= 0x81; c[kC]= 0x92; c[kD]= 0xa3; c[kE]= 0xb4; c[kH]= 0xc5; c[kL]= 0xd6; c[kSP]= 0x9abc; c[kIFF]= 0; c[kNI]= 1;
}
struct Op { int b0, b1; int len; };
static std::vector<Op> ops;
static void mkops()
{
  static const int bad[]= { 0x10, 0xd3, 0xdb, 0xdd, 0xe3, 0xe4, 0xeb, 0xec, 0xed, 0xf4, 0xfc, 0xfd };
  for (int o= 0; o < 256; o++)
    {
      bool b= o == 0xcb; for (int x: bad) if (x == o) b= true;
      if (b) continue;
      int n= 1, w= o & 7, x= o >> 6;
      if (x == 0 && (w == 6 || (w == 0 && o >= 0x18))) n= 2;
      if (x == 3 && (w == 6 || o == 0xe0 || o == 0xf0 || o == 0xe8 || o == 0xf8)) n= 2;
      if ((x == 0 && (w == 1) && !(o & 8)) || o == 8 || o == 0xc2 || o == 0xca || o == 0xd2 || o == 0xda || o == 0xc3 || o == 0xc4 || o == 0xcc || o == 0xd4 || o == 0xdc || o == 0xcd || o == 0xea || o == 0xfa) n= 3;
      ops.push_back({ o, -1, n });
    }
  for (int o= 0; o < 256; o++) ops.push_back({ 0xcb, o, 2 });
}
static void setreg(long *c, int i, int v) { if (i == 7) c[kA]= v; else if (i != 6) c[kB + i]= v; else { c[kXA]= c[kH] << 8 | c[kL]; c[kXV]= v; } }
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC];
  // 1. A x operand x flags
  for (Op &o: ops) for (int f= 0; f < 16; f++)
    {
      if (!sp.mine()) continue;
      int st= thorough ? 1 : o.b1 >= 0 || o.b0 >> 6 == 1 ? 51 : o.b0 >= 0xc0 && (o.b0 & 7) != 6 ? 17 : 1;
      for (int a= 0; a < 256; a+= st) for (int v= 0; v < 256; v++)
	{
	  std_case(c); c[kF]= f << 4; c[kA]= a; c[kI0]= o.b0; c[kIFF]= v & 1;
	  if (o.b1 >= 0) c[kI0 + 1]= o.b1;
	  int w= o.b1 >= 0 ? o.b1 & 7 : o.b0 >> 6 == 0 ? o.b0 >> 3 & 7 : o.b0 & 7;
	  if (o.len > 1 && o.b1 < 0) { c[kI0 + 1]= v; c[kI0 + 2]= (v * 7 + 0x40) & 255; c[kXA]= v | ((v * 7 + 0x40) & 255) << 8; c[kXV]= a ^ 0x33; c[kYA]= 0xff00 | v; c[kYV]= a ^ 0x5c; }
	  setreg(c, w, v);
	  if (o.b0 >= 0xc0 && o.b1 < 0 && (o.b0 & 7) < 2) { c[kXA]= c[kSP]; c[kXV]= v; }
	  if ((o.b0 & 0xe7) == 2 || (o.b0 & 0xe7) == 0x22) { c[kXA]= o.b0 < 0x10 ? c[kB] << 8 | c[kC] : o.b0 < 0x20 ? c[kD] << 8 | c[kE] : c[kH] << 8 | c[kL]; c[kXV]= v; }
	  ls.run(c);
	}
    }
  // 2. 16 bit arithmetic and pointers: both operands at edges
  static const int W[]= { 0, 1, 2, 0xf, 0x10, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0x1001, 0x1232, 0x1236, 0x7fff, 0x8000, 0x80ff, 0xf000, 0xf00f, 0xfeff, 0xff00, 0xff80, 0xfffe, 0xffff };
  for (Op &o: ops) for (int h: W)
    {
      if (!sp.mine()) continue;
      for (int w: W) for (int k= 0; k < (thorough ? 256 : 32); k++)
	{
	  std_case(c); c[kI0]= o.b0; c[kI0 + 1]= o.b1 >= 0 ? o.b1 : k * (thorough ? 1 : 8) ^ (h & 7); c[kI0 + 2]= w >> 8; c[kF]= (k & 15) << 4; c[kA]= (k * 37 + 3) & 255;
	  c[kH]= h >> 8; c[kL]= h & 255; c[kB]= w >> 8; c[kC]= w & 255; c[kD]= (w >> 8) ^ 0x11; c[kE]= w & 255; c[kSP]= k & 16 ? h : w; c[kXA]= h; c[kXV]= k * 29 & 255; c[kYA]= w; c[kYV]= k * 31 & 255;
	  if (((h - 0x1234) & 0xffff) < 3 || ((w - 0x1234) & 0xffff) < 3) c[kXA]= c[kYA]= -1;
	  ls.run(c);
	}
    }
  // ADD SP,d and LD HL,SP+d: every offset x every low byte x 5 pages
  for (int o: { 0xe8, 0xf8 }) for (int p: { 0, 0x0f, 0x7f, 0x80, 0xff })
    {
      if (!sp.mine()) continue;
      for (int s= 0; s < 256; s++) for (int d= 0; d < 256; d++)
	{ std_case(c); c[kI0]= o; c[kI0 + 1]= d; c[kSP]= p << 8 | s; c[kF]= (s & 15) << 4; ls.run(c); }
    }
  // 3. program counter at the ends
  static const int PCS[]= { 0, 0x7e, 0x7f, 0x80, 0xfd, 0xfe, 0xff, 0x7ffe, 0x8000, 0xff7f, 0xfffd, 0xfffe, 0xffff };
  for (Op &o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int f= 0; f < 16; f++) for (int d= 0; d < 256; d++)
	{
	  std_case(c); c[kPC]= pc; c[kF]= f << 4; c[kI0]= o.b0; c[kI0 + 1]= o.b1 >= 0 ? o.b1 : d; c[kI0 + 2]= d ^ 0x5a; c[kA]= d;
	  if (o.b1 >= 0 && d > 15) break;
	  ls.run(c);
	}
    }
  // 4. ordered pairs
  for (Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (Op &o2: ops) for (int k= 0; k < (thorough ? 64 : 12); k++)
	{
	  std_case(c); c[kNI]= 2; int seed= (o.b0 + (o.b1 + 1) * 3) * 521 + o2.b0 + (o2.b1 + 1) * 5, at= 0;
	  c[kA]= noise(seed, k) & 255; c[kF]= (noise(seed, k + 20) & 15) << 4;
	  for (int i= 0; i < 6; i++) c[kB + i]= noise(seed, k + 40 + i) & 255;
	  c[kSP]= noise(seed, k + 60) | (noise(seed, k + 80) & 255) << 8; c[kSP]&= 0xffff;
	  c[kI0 + at++]= o.b0; if (o.b1 >= 0) c[kI0 + at++]= o.b1;
	  for (; at < o.len; at++) c[kI0 + at]= at == 2 ? 0x12 : 0x34 + o.len;
	  if (o.len == 2 && o.b0 < 0x40 && (o.b0 & 7) == 0) c[kI0 + 1]= 0;
	  c[kI0 + at++]= o2.b0; c[kI0 + at++]= o2.b1 >= 0 ? o2.b1 : noise(seed, k + 100) & 255; c[kI0 + at]= noise(seed, k + 120) & 255;
	  if (o.b0 == 0xe9) { c[kH]= 0x12; c[kL]= 0x35; }
	  if (o.b0 >= 0xc0 && o.b1 < 0 && ((o.b0 & 7) == 0 || o.b0 == 0xc9 || o.b0 == 0xd9)) { c[kSP]= 0xc000; c[kXA]= 0xc000; c[kXV]= 0x35; c[kYA]= 0xc001; c[kYV]= 0x12; }
	  ls.run(c); counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); mkops(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
