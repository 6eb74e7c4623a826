/* M6800, M6801 and M68HC11: every documented opcode against a model written from
   Motorola's programming references (MC_K: 0 6800, 1 6801, 2 68HC11). */
#include "isa.h"
#include "m6801cl.h"
#include "m68hc11cl.h"
#undef A
#undef B
#undef D
#include "irq68cl.h"
using namespace mc;
#ifndef MC_K
#define MC_K 0
#endif
int mc::harness_default_shards= 0;
static Space *ram; static cl_m6800 *u; static Lockstep ls;
static cl_memory_cell *c_irq, *c_nmi, *c_swi;
enum { kPC, kA, kB, kX, kY, kSP, kCC, kNI, kIRQ, kXA, kXV, kYA, kYV, kI0, NC= kI0 + 8 };
enum { C= 1, V= 2, Z= 4, N= 8, I= 16, H= 32, XB= 64, SB= 128 };
enum { vIRQ= MC_K == 2 ? 0xfff2 : 0xfff8, vSWI= MC_K == 2 ? 0xfff6 : 0xfffa, vNMI= MC_K == 2 ? 0xfff4 : 0xfffc };
struct M68
{
  int pc, A, B, X, Y, SP, P, t, pc0, undef, dat; bool skip, self, stop, wait, swi, yidx, enabling;
  int rd(int a) { a&= 0xffff; return ram->rd(a); }
  int rdd(int a) { a&= 0xffff; if (dat < 0) dat= a; return ram->rd(a); }
  void wr(int a, int v) { a&= 0xffff; if (dat < 0) dat= a; if (((a - pc0) & 0xffff) < 6) self= true; ram->wr(a, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int h= f(); return h << 8 | f(); }
  int rd16(int a) { int h= rdd(a); return h << 8 | rdd(a + 1); }
  void wr16(int a, int v) { wr(a, v >> 8); wr(a + 1, v); }
  void push(int v) { wr(SP, v); SP= (SP - 1) & 0xffff; }
  void push16(int v) { push(v); push(v >> 8); }
  int pop() { SP= (SP + 1) & 0xffff; return rdd(SP); }
  int pop16() { int h= pop(); return h << 8 | pop(); }
  int &ix() { return yidx ? Y : X; }
  int D() { return A << 8 | B; }
  void D(int v) { A= v >> 8 & 255; B= v & 255; }
  void fl(int m, int v) { P= (P & ~m) | (v & m); }
  int nz8(int r) { return (r & 0x80 ? N : 0) | (r & 255 ? 0 : Z); }
  int nz16(int r) { return (r & 0x8000 ? N : 0) | (r & 0xffff ? 0 : Z); }
  void logic8(int r) { fl(N|Z|V, nz8(r)); }
  void logic16(int r) { fl(N|Z|V, nz16(r)); }
  int add8(int a, int b, int c)
  {
    int r= a + b + c;
    fl(H|N|Z|V|C, nz8(r) | ((a & 15) + (b & 15) + c > 15 ? H : 0) | (~(a ^ b) & (a ^ r) & 0x80 ? V : 0) | (r > 255 ? C : 0));
    return r & 255;
  }
  int sub8(int a, int b, int c)
  {
    int r= a - b - c;
    fl(N|Z|V|C, nz8(r) | ((a ^ b) & (a ^ r) & 0x80 ? V : 0) | (r < 0 ? C : 0));
    return r & 255;
  }
  int add16(int a, int b) { int r= a + b; fl(N|Z|V|C, nz16(r) | (~(a ^ b) & (a ^ r) & 0x8000 ? V : 0) | (r > 0xffff ? C : 0)); return r & 0xffff; }
  int sub16(int a, int b) { int r= a - b; fl(N|Z|V|C, nz16(r) | ((a ^ b) & (a ^ r) & 0x8000 ? V : 0) | (r < 0 ? C : 0)); return r & 0xffff; }
  void shift(int r, int c, int n, int z) { int f= (n ? N : 0) | (z ? Z : 0) | (c ? C : 0); if (!n != !c) f|= V; (void)r; fl(N|Z|V|C, f); }
  bool cond(int k)
  {
    bool n= P & N, v= P & V, z= P & Z, c= P & C, r= true;
    switch (k >> 1)
      {
      case 0: r= true; break;
      case 1: r= !(c || z); break;
      case 2: r= !c; break;
      case 3: r= !z; break;
      case 4: r= !v; break;
      case 5: r= !n; break;
      case 6: r= n == v; break;
      case 7: r= !z && n == v; break;
      }
    return r != (k & 1);
  }
  // 0 direct 1 indexed 2 extended
  int ea(int m) { int a; switch (m) { case 0: return f(); case 1: a= f(); return (ix() + a) & 0xffff; default: return f16(); } }
  int rmw(int k, int v)
  {
    int r, c;
    switch (k)
      {
      case 0: r= -v & 255; fl(N|Z|V|C, nz8(r) | (r == 0x80 ? V : 0) | (r ? C : 0)); return r;
      case 3: r= ~v & 255; fl(N|Z|V|C, nz8(r) | C); return r;
      case 4: r= v >> 1; shift(r, v & 1, 0, !r); return r;
      case 6: r= v >> 1 | (P & C) << 7; shift(r, v & 1, r & 0x80, !r); return r;
      case 7: r= v >> 1 | (v & 0x80); shift(r, v & 1, r & 0x80, !r); return r;
      case 8: r= v << 1 & 255; shift(r, v & 0x80, r & 0x80, !r); return r;
      case 9: c= P & C; r= (v << 1 | c) & 255; shift(r, v & 0x80, r & 0x80, !r); return r;
      case 10: r= (v - 1) & 255; fl(N|Z|V, nz8(r) | (r == 0x7f ? V : 0)); return r;
      case 12: r= (v + 1) & 255; fl(N|Z|V, nz8(r) | (r == 0x80 ? V : 0)); return r;
      case 13: fl(N|Z|V|C, nz8(v)); return v;
      default: fl(N|Z|V|C, Z); return 0;
      }
  }
  void pushall() { push16(pc); if (MC_K == 2) push16(Y); push16(X); push(A); push(B); push(P); }
  void vector(int a) { P|= I; pc= rd(a) << 8 | rd(a + 1); }
  void ccr(int v)
  {
    if ((P & I) && !(v & I)) enabling= true;
    if (MC_K == 2) { if (!(P & XB)) v&= ~XB; } else v|= 0xc0;
    P= v & 255;
  }
  void step()
  {
    pc0= pc; skip= self= stop= wait= swi= yidx= enabling= false; undef= 0; dat= -1;
    const int K= MC_K; const bool k0= K == 0;
    int o= f(), page= 0, x= 0;
    if (K == 2 && (o == 0x18 || o == 0x1a || o == 0xcd)) { page= o; o= f(); x= 1; yidx= o != 0 && page != 0x1a; }
    if (page)
      {
	bool ok= false;
	int mode= o >> 4 & 3;
	if (page == 0x18)
	  ok= o == 8 || o == 9 || (o >= 0x1c && o <= 0x1f) || o == 0x30 || o == 0x35 || o == 0x38 || o == 0x3a || o == 0x3c || o == 0x8f || ((o >> 4) == 6 && (0xf7d9 >> (o & 15) & 1)) ||
	    ((o >= 0x80) && mode == 2) || o == 0x8c || o == 0x9c || o == 0xbc || o == 0xce || o == 0xde || o == 0xdf || o == 0xfe || o == 0xff;
	else if (page == 0x1a) ok= o == 0x83 || o == 0x93 || o == 0xa3 || o == 0xb3 || o == 0xac || o == 0xee || o == 0xef;
	else ok= o == 0xa3 || o == 0xac || o == 0xee || o == 0xef;
	if (!ok) { skip= true; return; }
      }
    int y= o >> 4, z= o & 15, a, v, c;
    if (o < 0x20 || y == 3) { inherent(o, x, page); return; }
    if (y == 2)
      {
	if (o == 0x21 && k0) { skip= true; return; }
	a= (signed char)f(); if (cond(z)) pc= (pc + a) & 0xffff; t= k0 ? 4 : 3; return;
      }
    if (o < 0x80)
      {
	if (z == 1 || z == 2 || z == 5 || z == 11 || (y < 6 && z == 14)) { skip= true; return; }
	if (z == 14) { a= ea(y - 5); pc= a; t= (k0 && y == 6 ? 4 : 3) + x; return; }
	if (y == 4) { A= rmw(z, A); t= 2; return; }
	if (y == 5) { B= rmw(z, B); t= 2; return; }
	a= ea(y - 5); v= z == 15 ? 0 : rdd(a); v= rmw(z, v); if (z != 13) wr(a, v);
	t= (k0 && y == 6 ? 7 : 6) + x;
	return;
      }
    int m= (y & 3) - 1;                       // -1 immediate
    bool b= o & 0x40; int &acc= b ? B : A;
    static const int T8[4]= { 2, 3, k0 ? 5 : 4, 4 }, TS8[4]= { 0, k0 ? 4 : 3, k0 ? 6 : 4, k0 ? 5 : 4 }, TX[4]= { 3, 4, k0 ? 6 : 5, 5 }, TSX[4]= { 0, k0 ? 5 : 4, k0 ? 7 : 5, k0 ? 6 : 5 }, TD[4]= { 4, 5, 6, 6 },
      TCX[4]= { k0 ? 3 : 4, k0 ? 4 : 5, 6, k0 ? 5 : 6 };
    switch (z)
      {
      case 3: case 12: case 14:
	if (k0 && (z == 3 || (z == 12 && b))) { skip= true; return; }
	v= m < 0 ? f16() : rd16(ea(m));
	if (z == 3 && page && page != 0x18) { sub16(D(), v); t= TD[m + 1] + x; return; }   // CPD
	if (z == 3) { D(b ? add16(D(), v) : sub16(D(), v)); t= TD[m + 1] + x; return; }
	if (z == 12 && !b)
	  {
	    int &r= page == 0x18 || page == 0x1a ? Y : X;
	    if (page == 0x1a && o != 0xac) { skip= true; return; }
	    c= P & C;
	    int p0= P; sub16(r, v);
	    if (k0)
	      {
		P= (P & ~C) | c;
		// whether the borrow of the low bytes counts is told differently
		int q= P; P= p0; sub8(r >> 8, v >> 8, 0); undef|= (P ^ q) & (N|V); P= q;
	      }
	    t= TCX[m + 1] + x; return;
	  }
	if (z == 12) { D(v); logic16(v); t= TX[m + 1] + x; return; }
	logic16(v); t= TX[m + 1] + x;
	if (!b) SP= v; else if (page == 0x18 || page == 0x1a) Y= v; else X= v;
	return;
      case 13:
	if (!b)
	  {
	    if (m < 0) { a= (signed char)f(); a= (pc + a) & 0xffff; t= k0 ? 8 : 6; }
	    else { if (k0 && m == 0) { skip= true; return; } a= ea(m); t= (k0 ? (m == 1 ? 8 : 9) : m == 0 ? 5 : 6) + x; }
	    push16(pc); pc= a; return;
	  }
	if (k0 || m < 0) { skip= true; return; }
	a= ea(m); v= D(); wr16(a, v); logic16(v); t= TSX[m + 1] + x; return;
      case 15:
	if (m < 0)
	  {
	    if (K != 2) { skip= true; return; }
	    if (b) { t= 2; if (!(P & SB)) stop= true; if (page) skip= true; return; }
	    v= D(); D(ix()); ix()= v; t= 3 + x; return;
	  }
	a= ea(m); v= !b ? SP : page == 0x18 || page == 0x1a ? Y : X; wr16(a, v); logic16(v); t= TSX[m + 1] + x; return;
      case 7:
	if (m < 0) { skip= true; return; }
	a= ea(m); wr(a, acc); logic8(acc); t= TS8[m + 1] + x; return;
      }
    v= m < 0 ? f() : rdd(ea(m)); t= T8[m + 1] + x;
    switch (z)
      {
      case 0: acc= sub8(acc, v, 0); return;
      case 1: sub8(acc, v, 0); return;
      case 2: acc= sub8(acc, v, P & C); return;
      case 4: acc&= v; logic8(acc); return;
      case 5: logic8(acc & v); return;
      case 6: acc= v; logic8(acc); return;
      case 8: acc^= v; logic8(acc); return;
      case 9: acc= add8(acc, v, P & C); return;
      case 10: acc|= v; logic8(acc); return;
      default: acc= add8(acc, v, 0); return;
      }
  }
  void inherent(int o, int x, int page)
  {
    const int K= MC_K; const bool k0= K == 0;
    int v, r, a, k;
    t= 2;
    switch (o)
      {
      case 0x01: return;
      case 0x02: case 0x03:
	if (K != 2) break;
	t= 41; v= P & ~(Z|V|C);
	if (o == 2) { if (!X) { v|= C; X= 0xffff; D(-1); dindef= true; } else { r= D() % X; X= D() / X; D(r); } }
	else
	  {
	    if (X <= D()) v|= V;
	    if (!X) v|= C;
	    if (X <= D()) { X= 0xffff; dindef= true; } else { r= (long)D() * 65536L % X; X= (long)D() * 65536L / X; D(r); }
	  }
	if (!X) v|= Z;
	P= v; return;
      case 0x04: if (k0) break; v= D(); r= v >> 1; D(r); shift(r, v & 1, 0, !r); t= 3; return;
      case 0x05: if (k0) break; v= D(); r= v << 1 & 0xffff; D(r); shift(r, v & 0x8000, r & 0x8000, !r); t= 3; return;
      case 0x06: ccr(A); return;
      case 0x07: A= P; return;
      case 0x08: ix()= (ix() + 1) & 0xffff; fl(Z, ix() ? 0 : Z); t= (k0 ? 4 : 3) + x; return;
      case 0x09: ix()= (ix() - 1) & 0xffff; fl(Z, ix() ? 0 : Z); t= (k0 ? 4 : 3) + x; return;
      case 0x0a: P&= ~V; return;
      case 0x0b: P|= V; return;
      case 0x0c: P&= ~C; return;
      case 0x0d: P|= C; return;
      case 0x0e: if (P & I) enabling= true; P&= ~I; return;
      case 0x0f: P|= I; return;
      case 0x10: A= sub8(A, B, 0); return;
      case 0x11: sub8(A, B, 0); return;
      case 0x12: case 0x13: case 0x14: case 0x15: case 0x1c: case 0x1d: case 0x1e: case 0x1f:
	if (K != 2) break;
	a= ea(o < 0x1c ? 0 : 1); k= f(); v= rdd(a); t= (o < 0x1c ? 6 : 7) + x;
	if (o == 0x14 || o == 0x1c) { v|= k; wr(a, v); logic8(v); return; }
	if (o == 0x15 || o == 0x1d) { v&= ~k; wr(a, v); logic8(v); return; }
	r= (signed char)f();
	if (o == 0x12 || o == 0x1e ? !(~v & k) : !(v & k)) pc= (pc + r) & 0xffff;
	return;
      case 0x16: B= A; logic8(B); return;
      case 0x17: A= B; logic8(A); return;
      case 0x19:
	{
	  int lo= A & 15, hi= A >> 4, cor= 0, c= P & C;
	  if (lo > 9 || (P & H)) cor= 6;
	  if (hi > 9 || c || (hi == 9 && lo > 9)) { cor|= 0x60; c= C; }
	  A= (A + cor) & 255; fl(N|Z|C, nz8(A) | c); undef|= V;
	  return;
	}
      case 0x1b: A= add8(A, B, 0); return;
      case 0x30: ix()= (SP + 1) & 0xffff; t= (k0 ? 4 : 3) + x; return;
      case 0x31: SP= (SP + 1) & 0xffff; t= k0 ? 4 : 3; return;
      case 0x32: A= pop(); t= 4; return;
      case 0x33: B= pop(); t= 4; return;
      case 0x34: SP= (SP - 1) & 0xffff; t= k0 ? 4 : 3; return;
      case 0x35: SP= (ix() - 1) & 0xffff; t= (k0 ? 4 : 3) + x; return;
      case 0x36: push(A); t= k0 ? 4 : 3; return;
      case 0x37: push(B); t= k0 ? 4 : 3; return;
      case 0x38: if (k0) break; ix()= pop16(); t= 5 + x; return;
      case 0x39: pc= pop16(); t= 5; return;
      case 0x3a: if (k0) break; ix()= (ix() + B) & 0xffff; t= 3 + x; return;
      case 0x3b: ccr(pop()); B= pop(); A= pop(); X= pop16(); if (K == 2) Y= pop16(); pc= pop16(); t= K == 2 ? 12 : 10; return;
      case 0x3c: if (k0) break; push16(ix()); t= 4 + x; return;
      case 0x3d: if (k0) break; D(A * B); fl(C, B & 0x80 ? C : 0); t= 10; return;
      case 0x3e: pushall(); wait= true; t= K == 2 ? 14 : 9; return;
      case 0x3f: pushall(); vector(vSWI); swi= true; t= K == 2 ? 14 : 12; return;
      }
    (void)page; skip= true;
  }
  bool dindef;
};
static M68 m;
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  ram->poke(vIRQ, 0x21); ram->poke(vIRQ + 1, 0x22); ram->poke(vSWI, 0x23); ram->poke(vSWI + 1, 0x24); ram->poke(vNMI, 0x25); ram->poke(vNMI + 1, 0x26);
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  if (c[kXA] >= 0) ram->poke(c[kXA] & 0xffff, c[kXV]);
  if (c[kYA] >= 0) ram->poke(c[kYA] & 0xffff, c[kYV]);
  m.pc= c[kPC]; m.A= c[kA]; m.B= c[kB]; m.X= c[kX]; m.Y= c[kY]; m.SP= c[kSP]; m.P= (c[kCC] | (MC_K == 2 ? 0 : 0xc0)) & 255;
  u->acc.DAB.a8.Ar= m.A; u->acc.DAB.a8.Br= m.B; u->IX= m.X; u->SP= m.SP; u->CC.cc16.cc8.ccl= m.P; u->state= stGO; u->PC= m.pc; u->wai= false;
  if (MC_K == 2) ((cl_m68hcbase*)u)->IY= m.Y;
  while (u->it_levels->count > 1) { class it_level *il= (class it_level *)u->it_levels->pop(); delete il; }
  c_irq->write(0); c_nmi->write(0); c_swi->write(0);
  bool i1= c[kIRQ] & 1, i2= c[kIRQ] & 2;
  if (i1) c_irq->write(1);
  if (i2) c_nmi->write(1);
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int o= ram->rd(m.pc), o1= ram->rd(m.pc + 1), p0= m.pc;
      m.dindef= false;
      m.step();
      if (m.skip || m.self) return;
      bool tdef= true;
      if (i1 || i2)
	{
	  if (m.swi || m.stop || m.enabling) return;
	  if (i2) { i2= false; tdef= false; if (!m.wait) m.pushall(); m.vector(vNMI); m.wait= false; }
	  else if (!(m.P & I)) { i1= false; tdef= false; if (!m.wait) m.pushall(); m.vector(vIRQ); m.wait= false; }
	  if (m.self) return;
	}
      u64 t0= u->ticks->get_ticks();
      u->do_inst();
      shm->transitions++;
      u64 dt= u->ticks->get_ticks() - t0;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%02x:%s", o == 0x18 || o == 0x1a || o == 0xcd ? (MC_K == 2 ? o1 : o) : o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x at %04x) of PC=%04lx A=%02lx B=%02lx X=%04lx Y=%04lx SP=%04lx CC=%02lx irq %ld, [%lx]=%lx [%lx]=%lx", what, got, want, k + 1, o, o1, p0,
	     c[kPC], c[kA], c[kB], c[kX], c[kY], c[kSP], c[kCC], c[kIRQ], c[kXA], c[kXV], c[kYA], c[kYV]);
      };
      int gA= u->acc.DAB.a8.Ar, gB= u->acc.DAB.a8.Br, P= u->CC.cc16.cc8.ccl;
      if (m.dindef) { m.A= gA; m.B= gB; }
      if (gA != m.A) bad("A", gA, m.A);
      if (gB != m.B) bad("B", gB, m.B);
      if (u->IX != m.X) bad("X", u->IX, m.X);
      if (MC_K == 2 && ((cl_m68hcbase*)u)->IY != m.Y) bad("Y", ((cl_m68hcbase*)u)->IY, m.Y);
      if (u->SP != m.SP) bad("SP", u->SP, m.SP);
      int mask= 0xff & ~m.undef;
      if ((P ^ m.P) & mask) bad("CC", P, m.P);
      m.P= (m.P & mask) | (P & ~mask);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (tdef && dt != (u64)m.t) bad("T", dt, m.t);
      bool idle= m.wait || m.stop;
      if (idle != (u->state == stIDLE)) bad("idle", u->state, idle);
      uint32_t at;
      for (Space *s: ls.spaces)
	if (!s->same(&at))
	  {
	    if (m.undef && !((s->real[at] ^ s->ref[at]) & ~m.undef)) { s->real[at]= s->ref[at]; continue; }   // a pushed CC
	    bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
	  }
      if (!pre.empty() || idle) break;
    }
  u->state= stGO;
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", MC_K == 0 ? "6800" : MC_K == 1 ? "6801" : "HC11" });
  u= (cl_m6800*)uc;
  cl_hw *h= uc->get_hw("irq", 0, 0);
  c_irq= h->cfg_cell(m68_irq); c_nmi= h->cfg_cell(m68_nmi); c_swi= h->cfg_cell(m68_swi);
  // registers of the peripherals stay as reset leaves them
  uint8_t *real= chip8("rom_chip"), keep[0x40]; memcpy(keep, real + 0x8000, 0x40);
  ram= mkspace("rom_chip", 0x10000, 1);
  for (int i= 0; i < 0x40; i++) real[0x8000 + i]= ram->ref[0x8000 + i]= ram->init[0x8000 + i]= keep[i];
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x1234; c[kA]= 0x5a; c[kB]= 0xa7; c[kX]= 0x3456; c[kY]= 0x4567; c[kSP]= 0x5abc; c[kCC]= 0xc0; c[kNI]= 1; c[kIRQ]= 0;
}
struct Op { int n, b[2]; };
static std::vector<Op> ops;
static void mkops()
{
  for (int p: { -1, 0x18, 0x1a, 0xcd }) for (int o= 0; o < 256; o++)
    {
      if (p > 0 && MC_K != 2) continue;
      Op x= { 1, { o, 0 } }; if (p > 0) x= { 2, { p, o } };
      for (int i= 0; i < x.n; i++) ram->poke(0x1000 + i, x.b[i]);
      memset((void*)&m, 0, sizeof m); m.pc= 0x1000; m.SP= 0x7000; m.X= 0x100; m.step();
      if (!m.skip && !(p < 0 && MC_K == 2 && (o == 0x18 || o == 0x1a || o == 0xcd))) ops.push_back(x);
      ram->restore();
    }
}
// where the instruction of the case has its memory operand, -1: nowhere; *len: its length
static int where(const long *c, int *len= 0)
{
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  m.pc= c[kPC]; m.A= c[kA]; m.B= c[kB]; m.X= c[kX]; m.Y= c[kY]; m.SP= c[kSP]; m.P= c[kCC];
  m.step(); int w= m.dat; if (len) *len= (m.pc - c[kPC]) & 0xffff; ram->restore();
  return w;
}
static bool io(int a) { return (a & 0xffff) >= 0x7ff8 && (a & 0xffff) < 0x8040; }
static const int FL[]= { 0xc0, 0xc0|C, 0xc0|H, 0xc0|H|C, 0xc0|N|Z|V, 0xc0|Z|C|I, 0xc0|V|H, 0xc0|N|V|C|H|Z|I, SB, XB|C, Z, N|V };
static void put(long *c, const Op &o, int a1= -1, int a2= -1, int a3= -1)
{
  int n= 0; for (; n < o.n; n++) c[kI0 + n]= o.b[n];
  c[kI0 + n++]= a1; c[kI0 + n++]= a2; c[kI0 + n++]= a3;
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC];
  // 1. accumulators x operand x flags
  for (const Op &o: ops) for (int f= 0; f < (MC_K == 2 ? 12 : 8); f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++)
	{
	  if (!thorough && f > 3 && (a + v * 3 + f) % 7) continue;
	  std_case(c); c[kA]= a; c[kB]= v; if ((o.b[o.n - 1] & 0xc0) == 0xc0) { c[kB]= a; c[kA]= v; } 
	  c[kCC]= FL[f]; 
	  int l= o.b[o.n - 1];
	  if (l >= 0x80 && !(l & 0x30)) put(c, o, v, a, 4); else put(c, o, 0x40, l < 0x20 ? a : 0x30, 4);
	  c[kX]= a << 8 | (v & 0x7f) | 1; c[kY]= (a ^ 0x55) << 8 | v;
	  if (io(c[kX]) || io(c[kX] + 0x40) || io(c[kY]) || io(c[kY] + 0x40)) continue;
	  if (l == 2 || l == 3) { c[kX]= v * 0x0101 ^ (a & 0x0f); if ((a + f) % 16 == 3) c[kX]= a; }
	  if (l < 0x40 && (l & 15) < 10) c[kSP]= v << 8 | a;
	  if (io(c[kSP]) || io(c[kSP] - 12)) continue;
	  int w= where(c);
	  if (w >= 0 && !io(w)) { c[kXA]= w; c[kXV]= v; c[kYA]= (w + 1) & 0xffff; c[kYV]= a ^ (f & 1 ? v : 0x80); }
	  ls.run(c);
	}
    }
  // 2. 16 bit operands
  static const int W[]= { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x0fff, 0x1000, 0x7ff0, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xff00, 0xfffd, 0xfffe, 0xffff };
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (int x: W) for (int y: W) for (int d= 0; d < 18 * 8; d++)
	{
	  std_case(c); c[kX]= x; c[kY]= y; c[kA]= W[d % 18] >> 8; c[kB]= W[d % 18] & 255; c[kCC]= noise(d, x + y); int v= (d / 18 & 1) ? y : d / 36 & 1 ? x + (d >> 1) : noise(d, x) * 257;
	  int l= o.b[o.n - 1];
	  if (l >= 0x80 && !(l & 0x30)) put(c, o, v >> 8 & 255, v & 255, 4); else put(c, o, l >= 0x60 ? 0x10 : d, 0x28, 4);
	  c[kSP]= W[(d * 5 + x) % 18];
	  int w= where(c);
	  if (io(w) || io(w + 1) || io(m.dat) || io(m.pc) || io(c[kSP]) || io(c[kSP] - 8)) continue;
	  if (w >= 0) { c[kXA]= w; c[kXV]= v >> 8 & 255; c[kYA]= (w + 1) & 0xffff; c[kYV]= v & 255; }
	  where(c); if (io(m.pc)) continue;
	  ls.run(c);
	}
    }
  // 3. addresses, wrap-around of PC, SP and operands
  static const int PCS[]= { 0, 0x00fe, 0x7f00, 0xff80, 0xfffa, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x1000 };
  for (const Op &o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int wi= 0; wi < 18; wi++) for (int d= 0; d < 256; d+= thorough ? 1 : 3) for (int h: { 0, 0x30, 0xff })
	{
	  std_case(c); c[kPC]= pc; c[kX]= W[wi]; c[kY]= W[(wi + d) % 18]; c[kSP]= W[(wi * 5 + d) % 18]; c[kCC]= noise(d, wi); c[kA]= noise(d, wi + 55); c[kB]= noise(d, wi + 77);
	  int l= o.b[o.n - 1];
	  if (h && l < 0x60 && l >= 0x20) continue;
	  if ((l & 0xf0) == 0x70 || (l >= 0x80 && (l & 0x30) == 0x30)) put(c, o, h, d); else put(c, o, d, h, 255 - d);
	  int w= where(c);
	  if (io(w) || io(w + 1) || io(m.pc) || io(c[kSP]) || io(c[kSP] - 8) || io(c[kSP] + 8)) continue;
	  ls.run(c);
	}
    }
  // 4. interrupts requested before an instruction
  for (const Op &o: ops) for (int irq: { 1, 2, 3 })
    {
      if ((irq & 2) && MC_K == 2) continue;
      if (!sp.mine()) continue;
      for (int p= 0; p < 256; p+= thorough ? 1 : 5) for (int s: { 0, 1, 3, 6, 7, 9, 0x4000, 0xffff })
	{
	  std_case(c); put(c, o, 0x40, 0x30, 0x10); c[kCC]= p; c[kSP]= s; c[kIRQ]= irq;
	  ls.run(c);
	}
    }
  // requests in handlers
  for (int o: { 0x3f, 0x3b, 0x0e, 0x01, 0x0f, 0x06 }) for (int irq= 0; irq < (MC_K == 2 ? 2 : 4); irq++)
    {
      if (!sp.mine()) continue;
      for (int o2: { 0x3f, 0x3b, 0x0e, 0x01, 0x39, 0x36 }) for (int o3: { 0x3f, 0x3b, 0x0e, 0x3e }) for (int n= 1; n < 7; n++) for (int p: { 0xc0, 0xd0, 0x80 })
	{
	  std_case(c); c[kNI]= n; c[kPC]= 0x2322; c[kI0]= o; c[kI0 + 1]= o2; c[kI0 + 2]= o2; c[kI0 + 3]= o3; c[kI0 + 4]= 0x3b;
	  c[kCC]= p; c[kIRQ]= irq; 
	  ls.run(c);
	  c[kPC]= 0x2122; ls.run(c);
	  c[kPC]= 0x2526; ls.run(c);
	}
    }
  // 5. ordered pairs
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (const Op &o2: ops) for (int k= 0; k < (thorough ? 24 : 4); k++)
	{
	  std_case(c); c[kNI]= 2; int seed= (o.b[o.n - 1] * 4 + o.n) * 1024 + o2.b[o2.n - 1] * 4 + o2.n, l= o.b[o.n - 1];
	  put(c, o, l >= 0x20 && l < 0x30 ? 0 : l == 0x8d ? 0 : (l == 0x7e || l == 0xbd) ? 0x12 : 0x45, (l == 0x7e || l == 0xbd) ? 0x37 : 0x31, 0);
	  int len; where(c, &len); if (len > 6) continue;
	  for (int i= 0; i < o2.n; i++) c[kI0 + len + i]= o2.b[i];
	  c[kA]= noise(seed, k); c[kB]= noise(seed, k + 20); c[kCC]= noise(seed, k + 40); 
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
