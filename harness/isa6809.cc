/* M6809: every documented opcode, postbyte and interrupt against a model written from
   Motorola's programming reference.  Clock counts are not compared. */
#include "isa.h"
#include "m6809cl.h"
#undef A
#undef B
#undef D
#include "irqcl.h"
using namespace mc;
int mc::harness_default_shards= 0;
static Space *ram; static cl_m6809 *u; static Lockstep ls;
static cl_hw *irqhw; static cl_memory_cell *c_irq, *c_firq, *c_nmi;
enum { kPC, kA, kB, kDP, kX, kY, kU, kS, kCC, kNI, kIRQ, kXA, kXV, kYA, kYV, kI0, NC= kI0 + 8 };
enum { C= 1, V= 2, Z= 4, N= 8, I= 16, H= 32, F= 64, E= 128 };
struct M09
{
  int pc, A, B, DP, X, Y, U, S, P, pc0, undef, dat; bool skip, self, wait, cwai, armed, slow;
  int rd(int a) { return ram->rd(a & 0xffff); }
  int rdd(int a) { a&= 0xffff; if (dat < 0) dat= a; return ram->rd(a); }
  void wr(int a, int v) { a&= 0xffff; if (dat < 0) dat= a; if (((a - pc0) & 0xffff) < 6) self= true; ram->wr(a, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffff; return v; }
  int f16() { int h= f(); return h << 8 | f(); }
  int rd16(int a) { int h= rdd(a); return h << 8 | rdd(a + 1); }
  void push(int &s, int v) { s= (s - 1) & 0xffff; wr(s, v); }
  void push16(int &s, int v) { push(s, v); push(s, v >> 8); }
  int pop(int &s) { int v= rdd(s); s= (s + 1) & 0xffff; return v; }
  int pop16(int &s) { int h= pop(s); return h << 8 | pop(s); }
  int D() { return A << 8 | B; }
  void D(int v) { A= v >> 8 & 255; B= v & 255; }
  void fl(int k, int v) { P= (P & ~k) | (v & k); }
  int nz8(int r) { return (r & 0x80 ? N : 0) | (r & 255 ? 0 : Z); }
  int nz16(int r) { return (r & 0x8000 ? N : 0) | (r & 0xffff ? 0 : Z); }
  int add8(int a, int b, int c)
  {
    int r= a + b + c;
    fl(H|N|Z|V|C, nz8(r) | ((a & 15) + (b & 15) + c > 15 ? H : 0) | (~(a ^ b) & (a ^ r) & 0x80 ? V : 0) | (r > 255 ? C : 0));
    return r & 255;
  }
  int sub8(int a, int b, int c)
  {
    int r= a - b - c; undef|= H;
    fl(N|Z|V|C, nz8(r) | ((a ^ b) & (a ^ r) & 0x80 ? V : 0) | (r < 0 ? C : 0));
    return r & 255;
  }
  int add16(int a, int b) { int r= a + b; fl(N|Z|V|C, nz16(r) | (~(a ^ b) & (a ^ r) & 0x8000 ? V : 0) | (r > 0xffff ? C : 0)); return r & 0xffff; }
  int sub16(int a, int b) { int r= a - b; fl(N|Z|V|C, nz16(r) | ((a ^ b) & (a ^ r) & 0x8000 ? V : 0) | (r < 0 ? C : 0)); return r & 0xffff; }
  bool cond(int k)
  {
    bool n= P & N, v= P & V, z= P & Z, c= P & C, r= true;
    switch (k >> 1)
      {
      case 1: r= !(c || z); break;
      case 2: r= !c; break;
      case 3: r= !z; break;
      case 4: r= !v; break;
      case 5: r= !n; break;
      case 6: r= n == v; break;
      case 7: r= !z && n == v; break;
      }
    return r != (k & 1);
  }
  int indexed()
  {
    int p= f(), a, w; int &r= p & 0x40 ? (p & 0x20 ? S : U) : p & 0x20 ? Y : X; bool ind= p & 0x10;
    if (!(p & 0x80)) { a= p & 31; if (a & 16) a-= 32; return (r + a) & 0xffff; }
    switch (p & 15)
      {
      case 0: if (ind) skip= true; a= r; r= (r + 1) & 0xffff; break;
      case 1: a= r; r= (r + 2) & 0xffff; break;
      case 2: if (ind) skip= true; a= r= (r - 1) & 0xffff; break;
      case 3: a= r= (r - 2) & 0xffff; break;
      case 4: a= r; break;
      case 5: a= r + (signed char)B; break;
      case 6: a= r + (signed char)A; break;
      case 8: w= (signed char)f(); a= r + w; break;
      case 9: w= f16(); a= r + w; break;
      case 11: a= r + D(); break;
      case 12: w= (signed char)f(); a= pc + w; break;
      case 13: w= f16(); a= pc + w; break;
      case 15: if (p != 0x9f) skip= true; a= f16(); break;
      default: skip= true; a= 0;
      }
    if (ind && !skip) { int h= rd(a); a= h << 8 | rd(a + 1); }
    return a & 0xffff;
  }
  // 1 direct 2 indexed 3 extended
  int ea(int k) { switch (k) { case 1: return DP << 8 | f(); case 2: return indexed(); default: return f16(); } }
  int rmw(int k, int v)
  {
    int r, c= P & C;
    switch (k)
      {
      case 0: r= -v & 255; undef|= H; fl(N|Z|V|C, nz8(r) | (r == 0x80 ? V : 0) | (r ? C : 0)); return r;
      case 3: r= ~v & 255; fl(N|Z|V|C, nz8(r) | C); return r;
      case 4: r= v >> 1; fl(N|Z|C, nz8(r) | (v & 1)); return r;
      case 6: r= v >> 1 | c << 7; fl(N|Z|C, nz8(r) | (v & 1)); return r;
      case 7: r= v >> 1 | (v & 0x80); undef|= H; fl(N|Z|C, nz8(r) | (v & 1)); return r;
      case 8: r= v << 1 & 255; undef|= H; fl(N|Z|V|C, nz8(r) | ((v ^ r) & 0x80 ? V : 0) | v >> 7); return r;
      case 9: r= (v << 1 | c) & 255; fl(N|Z|V|C, nz8(r) | ((v ^ r) & 0x80 ? V : 0) | v >> 7); return r;
      case 10: r= (v - 1) & 255; fl(N|Z|V, nz8(r) | (r == 0x7f ? V : 0)); return r;
      case 12: r= (v + 1) & 255; fl(N|Z|V, nz8(r) | (r == 0x80 ? V : 0)); return r;
      case 13: fl(N|Z|V, nz8(v)); return v;
      default: fl(N|Z|V|C, Z); return 0;
      }
  }
  void pushall() { push16(S, pc); push16(S, U); push16(S, Y); push16(S, X); push(S, DP); push(S, B); push(S, A); push(S, P); }
  void vector(int a) { pc= rd(a) << 8 | rd(a + 1); }
  // k: 0 IRQ 1 FIRQ 2 NMI
  void accept(int k)
  {
    if (!cwai)
      {
	if (k == 1) { P&= ~E; push16(S, pc); push(S, P); }
	else { P|= E; pushall(); }
      }
    P|= k == 0 ? I : I|F;
    wait= cwai= false;
    vector(k == 0 ? 0xfff8 : k == 1 ? 0xfff6 : 0xfffc);
  }
  int *r16(int k) { int *t[]= { 0, &X, &Y, &U, &S, &pc }; return t[k]; }
  int *r8(int k) { int *t[]= { &A, &B, &P, &DP }; return t[k]; }
  int getr(int k) { return k == 0 ? D() : k < 6 ? *r16(k) : *r8(k - 8); }
  void setr(int k, int v) { if (k == 0) D(v); else if (k < 6) *r16(k)= v; else *r8(k - 8)= v; if (k == 4) slow= true; }
  void psh(int &s, int o, int b)
  {
    if (b & 0x80) push16(s, pc);
    if (b & 0x40) push16(s, o);
    if (b & 0x20) push16(s, Y);
    if (b & 0x10) push16(s, X);
    if (b & 8) push(s, DP);
    if (b & 4) push(s, B);
    if (b & 2) push(s, A);
    if (b & 1) push(s, P);
  }
  void pul(int &s, int &o, int b)
  {
    if (b & 1) P= pop(s);
    if (b & 2) A= pop(s);
    if (b & 4) B= pop(s);
    if (b & 8) DP= pop(s);
    if (b & 0x10) X= pop16(s);
    if (b & 0x20) Y= pop16(s);
    if (b & 0x40) { int v= pop16(s); o= v; if (&o == &S) slow= true; }
    if (b & 0x80) pc= pop16(s);
  }
  void misc(int o)
  {
    int v, r, k, q;
    switch (o)
      {
      case 0x12: return;
      case 0x13: wait= true; return;
      case 0x16: v= f16(); pc= (pc + v) & 0xffff; return;
      case 0x17: v= f16(); push16(S, pc); pc= (pc + v) & 0xffff; return;
      case 0x19:
	v= 0; if ((P & H) || (A & 15) > 9) v|= 6;
	if ((P & C) || (A >> 4) > 9 || ((A >> 4) > 8 && (A & 15) > 9)) v|= 0x60;
	r= A + v; A= r & 255; undef|= V; fl(N|Z, nz8(A)); if (r > 255) P|= C; return;
      case 0x1a: P|= f(); return;
      case 0x1c: P&= f(); return;
      case 0x1d: A= B & 0x80 ? 255 : 0; undef|= V; fl(N|Z, nz16(D())); return;
      case 0x1e: case 0x1f:
	v= f(); k= v >> 4; q= v & 15;
	if (k == 6 || k == 7 || k > 11 || q == 6 || q == 7 || q > 11 || (k >> 3) != (q >> 3)) { skip= true; return; }
	r= getr(k); v= getr(q); setr(q, r); if (o == 0x1e) setr(k, v); return;
      case 0x30: v= indexed(); X= v; fl(Z, X ? 0 : Z); return;
      case 0x31: v= indexed(); Y= v; fl(Z, Y ? 0 : Z); return;
      case 0x32: v= indexed(); S= v; slow= true; return;
      case 0x33: v= indexed(); U= v; return;
      case 0x34: psh(S, U, f()); return;
      case 0x35: pul(S, U, f()); return;
      case 0x36: psh(U, S, f()); return;
      case 0x37: pul(U, S, f()); return;
      case 0x39: pc= pop16(S); return;
      case 0x3a: X= (X + B) & 0xffff; return;
      case 0x3b: P= pop(S); if (P & E) { A= pop(S); B= pop(S); DP= pop(S); X= pop16(S); Y= pop16(S); U= pop16(S); } pc= pop16(S); return;
      case 0x3c: P&= f(); P|= E; pushall(); wait= cwai= true; return;
      case 0x3d: D(A * B); fl(Z|C, (D() ? 0 : Z) | (B >> 7)); return;
      case 0x3f: P|= E; pushall(); P|= I|F; vector(0xfffa); return;
      }
    skip= true;
  }
  void step()
  {
    pc0= pc; skip= self= wait= cwai= slow= false; undef= 0; dat= -1;
    int o= f(), page= 0, y, z, a, v, k;
    if (o == 0x10 || o == 0x11) { page= o; o= f(); }
    y= o >> 4; z= o & 15;
    if (page)
      {
	if (page == 0x10 && y == 2 && z) { a= f16(); if (cond(z)) pc= (pc + a) & 0xffff; return; }
	if (o == 0x3f) { P|= E; pushall(); vector(page == 0x10 ? 0xfff4 : 0xfff2); return; }
	bool ok= page == 0x10 ? (y >= 12 ? z == 14 || z == 15 : y >= 8 && (z == 3 || z == 12 || z == 14 || z == 15)) : y >= 8 && y < 12 && (z == 3 || z == 12);
	if (z == 15 && !(y & 3)) ok= false;
	if (!ok) { skip= true; return; }
	k= y & 3; if (k == 0) { a= pc; pc= (pc + 2) & 0xffff; } else { a= ea(k); if (skip) return; }
	int *r= page == 0x11 ? (z == 3 ? &U : &S) : z == 3 ? 0 : z == 12 || y < 12 ? &Y : &S;
	if (z == 15) { v= *r; wr(a, v >> 8); wr(a + 1, v); fl(N|Z|V, nz16(v)); return; }
	v= k == 0 ? rd(a) << 8 | rd(a + 1) : rd16(a);
	if (z == 14) { *r= v; if (r == &S) armed= true; fl(N|Z|V, nz16(v)); return; }
	sub16(r ? *r : D(), v); return;
      }
    if (y == 2) { a= (signed char)f(); if (cond(z)) pc= (pc + a) & 0xffff; return; }
    if (y == 1 || y == 3) { misc(o); return; }
    if (o < 0x80)
      {
	if (z == 1 || z == 2 || z == 5 || z == 11 || ((y == 4 || y == 5) && z == 14)) { skip= true; return; }
	if (y == 4) { A= rmw(z, A); return; }
	if (y == 5) { B= rmw(z, B); return; }
	a= ea(y == 0 ? 1 : y == 6 ? 2 : 3); if (skip) return;
	if (z == 14) { pc= a; return; }
	v= rmw(z, rdd(a)); if (z != 13) wr(a, v);
	return;
      }
    bool b= o & 0x40; int &acc= b ? B : A; k= y & 3;
    if (o == 0x87 || o == 0xc7 || o == 0x8f || o == 0xcf || o == 0xcd) { skip= true; return; }
    if (o == 0x8d) { a= (signed char)f(); push16(S, pc); pc= (pc + a) & 0xffff; return; }
    bool w= z == 3 || z >= 12;
    if (k == 0) { a= pc; pc= (pc + (w ? 2 : 1)) & 0xffff; } else { a= ea(k); if (skip) return; }
    if (z == 7) { wr(a, acc); fl(N|Z|V, nz8(acc)); return; }
    if (z == 15) { v= b ? U : X; wr(a, v >> 8); wr(a + 1, v); fl(N|Z|V, nz16(v)); return; }
    if (z == 13) { if (b) { v= D(); wr(a, v >> 8); wr(a + 1, v); fl(N|Z|V, nz16(v)); } else { push16(S, pc); pc= a; } return; }
    if (w) v= k == 0 ? rd(a) << 8 | rd(a + 1) : rd16(a); else v= k == 0 ? rd(a) : rdd(a);
    switch (z)
      {
      case 0: acc= sub8(acc, v, 0); return;
      case 1: sub8(acc, v, 0); return;
      case 2: acc= sub8(acc, v, P & C); return;
      case 3: D(b ? add16(D(), v) : sub16(D(), v)); return;
      case 4: acc&= v; fl(N|Z|V, nz8(acc)); return;
      case 5: fl(N|Z|V, nz8(acc & v)); return;
      case 6: acc= v; fl(N|Z|V, nz8(acc)); return;
      case 8: acc^= v; fl(N|Z|V, nz8(acc)); return;
      case 9: acc= add8(acc, v, P & C); return;
      case 10: acc|= v; fl(N|Z|V, nz8(acc)); return;
      case 11: acc= add8(acc, v, 0); return;
      case 12: if (b) { D(v); fl(N|Z|V, nz16(v)); } else sub16(X, v); return;
      default: (b ? U : X)= v; fl(N|Z|V, nz16(v)); return;
      }
  }
};
static M09 m;
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  for (int i= 0; i < 7; i++) { ram->poke(0xfff2 + 2 * i, 0x20 + i); ram->poke(0xfff3 + 2 * i, 0x40 + i); }
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  if (c[kXA] >= 0) ram->poke(c[kXA] & 0xffff, c[kXV]);
  if (c[kYA] >= 0) ram->poke(c[kYA] & 0xffff, c[kYV]);
  m.pc= c[kPC]; m.A= c[kA]; m.B= c[kB]; m.DP= c[kDP]; m.X= c[kX]; m.Y= c[kY]; m.U= c[kU]; m.S= c[kS]; m.P= c[kCC] & 255;
  bool i0= c[kIRQ] & 1, i1= c[kIRQ] & 2, i2= c[kIRQ] & 4; m.armed= !(c[kIRQ] & 8);
  u->reg.acc.rD= m.A << 8 | m.B; u->reg.DP= m.DP; u->reg.X= m.X; u->reg.Y= m.Y; u->reg.U= m.U; u->reg.S= m.S; u->reg.CC= m.P; u->state= stGO; u->PC= m.pc; u->cwai= false; u->en_nmi= m.armed; irqhw->cfg_read(cpu_nmi_en);
  while (u->it_levels->count > 1) { class it_level *il= (class it_level *)u->it_levels->pop(); delete il; }
  c_irq->write(i0); c_firq->write(i1); c_nmi->write(i2);
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int p0= m.pc, o= ram->rd(p0), o1= ram->rd((p0 + 1) & 0xffff);
      m.step();
      if (m.skip || m.self) return;
      if (m.slow && i2 && !m.armed) return;
      int uP= m.undef;
      if (m.wait && !m.cwai && (i0 || i1 || i2) && !((i0 && !(m.P & I)) || (i1 && !(m.P & F)) || (i2 && m.armed))) return;   // SYNC and masked requests
      if (i2 && m.armed) { i2= false; m.accept(2); }
      else if (i1 && !(m.P & F)) { i1= false; m.accept(1); }
      else if (i0 && !(m.P & I)) { i0= false; m.accept(0); }
      if (m.self) return;
      u->do_inst();
      shm->transitions++;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%02x:%s", o == 0x10 || o == 0x11 ? o1 : o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x at %04x) of PC=%04lx A=%02lx B=%02lx DP=%02lx X=%04lx Y=%04lx U=%04lx S=%04lx CC=%02lx irq %ld, [%lx]=%lx [%lx]=%lx", what, got, want, k + 1, o, o1, p0,
	     c[kPC], c[kA], c[kB], c[kDP], c[kX], c[kY], c[kU], c[kS], c[kCC], c[kIRQ], c[kXA], c[kXV], c[kYA], c[kYV]);
      };
      int gA= u->reg.acc.rD >> 8, gB= u->reg.acc.rD & 255, P= u->reg.CC;
      if (gA != m.A) bad("A", gA, m.A);
      if (gB != m.B) bad("B", gB, m.B);
      if (u->reg.DP != m.DP) bad("DP", u->reg.DP, m.DP);
      if (u->reg.X != m.X) bad("X", u->reg.X, m.X);
      if (u->reg.Y != m.Y) bad("Y", u->reg.Y, m.Y);
      if (u->reg.U != m.U) bad("U", u->reg.U, m.U);
      if (u->reg.S != m.S) bad("S", u->reg.S, m.S);
      int mask= 0xff & ~uP;
      if ((P ^ m.P) & mask) bad("CC", P, m.P);
      m.P= (m.P & mask) | (P & ~mask);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (m.wait != (u->state == stIDLE)) bad("idle", u->state, m.wait);
      uint32_t at;
      for (Space *s: ls.spaces)
	if (!s->same(&at))
	  {
	    if (uP && !((s->real[at] ^ s->ref[at]) & ~uP)) { s->real[at]= s->ref[at]; continue; }   // a pushed CC
	    bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
	  }
      if (!pre.empty() || m.wait) break;
    }
  u->state= stGO;
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static const int IO= 0xc000;
static void setup()
{
  sim_start({ "-t", "M6809" });
  u= (cl_m6809*)uc;
  cl_hw *h= uc->get_hw("irq", 0, 0);
  irqhw= h; c_irq= h->cfg_cell(cpu_irq); c_firq= h->cfg_cell(cpu_firq); c_nmi= h->cfg_cell(cpu_nmi);
  // registers of the peripherals stay as reset leaves them
  uint8_t *real= chip8("rom_chip"), keep[0x40]; memcpy(keep, real + IO, 0x40);
  ram= mkspace("rom_chip", 0x10000, 1);
  for (int i= 0; i < 0x40; i++) real[IO + i]= ram->ref[IO + i]= ram->init[IO + i]= keep[i];
  ls.n= NC; ls.one= one; ls.spaces= { ram };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x1234; c[kA]= 0x5a; c[kB]= 0xa7; c[kDP]= 0x45; c[kX]= 0x3456; c[kY]= 0x4567; c[kU]= 0x6789; c[kS]= 0x5abc; c[kCC]= 0; c[kNI]= 1; c[kIRQ]= 0;
}
struct Op { int n, b[2]; bool idx; };
static std::vector<Op> ops;
static bool io(int a) { a&= 0xffff; return a >= IO - 8 && a < IO + 0x40; }
// false: the case is not decided; else where its memory operand is (w), its length (len)
static bool where(const long *c, int &w, int &len)
{
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) ram->poke((c[kPC] + i) & 0xffff, c[kI0 + i]);
  if (c[kXA] >= 0) ram->poke(c[kXA] & 0xffff, c[kXV]);
  if (c[kYA] >= 0) ram->poke(c[kYA] & 0xffff, c[kYV]);
  m.pc= c[kPC]; m.A= c[kA]; m.B= c[kB]; m.DP= c[kDP]; m.X= c[kX]; m.Y= c[kY]; m.U= c[kU]; m.S= c[kS]; m.P= c[kCC] & 255;
  m.step(); w= m.dat; len= (m.pc - c[kPC]) & 0xffff; ram->restore();
  return !m.skip && !m.self && !(w >= 0 && (io(w) || io(w + 1))) && !io(m.pc) && !io(m.pc + 12) && !io(c[kS]) && !io(c[kS] - 12) && !io(c[kU]) && !io(c[kU] - 12);
}
static void put(long *c, const Op &o, int a1= -1, int a2= -1, int a3= -1)
{
  int n= 0; for (; n < o.n; n++) c[kI0 + n]= o.b[n];
  c[kI0 + n++]= a1; c[kI0 + n++]= a2; c[kI0 + n++]= a3;
}
static void mkops()
{
  for (int p: { -1, 0x10, 0x11 }) for (int o= 0; o < 256; o++)
    {
      if (p < 0 && (o == 0x10 || o == 0x11)) continue;
      Op x= { 1, { o, 0 }, false }; if (p > 0) x= { 2, { p, o }, false };
      x.idx= (o >> 4) == 6 || (o & 0xb0) == 0xa0 || (p < 0 && o >= 0x30 && o < 0x34);
      long c[NC]; std_case(c); put(c, x, x.idx ? 0x84 : 0, 0); int w, l;
      m.skip= false; where(c, w, l); if (!m.skip) ops.push_back(x);
    }
}
static void operand(long *c, int v)
{
  int w, len;
  if (!where(c, w, len)) return;
  if (w >= 0) { c[kXA]= w; c[kXV]= v >> 8 & 255; c[kYA]= (w + 1) & 0xffff; c[kYV]= v & 255; }
  if (!where(c, w, len)) return;
  ls.run(c);
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC]; int w, len;
  static const int FL[]= { 0, C, H, H|C, N|Z|V, Z|C|I|F, E|V|H, N|V|C|H|Z|I };
  // 1. accumulators x operand x flags
  for (const Op &o: ops) for (int f= 0; f < 8; f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++)
	{
	  if (!thorough && f > 3 && (a + v * 3 + f) % 7) continue;
	  int l= o.b[o.n - 1];
	  std_case(c); c[kA]= a; c[kB]= v; if ((l & 0xc0) == 0xc0) { c[kB]= a; c[kA]= v; }
	  c[kCC]= FL[f];
	  if (o.idx) put(c, o, 0x84, 0); else if (l >= 0x80 && !(l & 0x30)) put(c, o, v, a); else put(c, o, l < 0x40 && o.n == 1 ? v : 0x3e, l < 0x40 ? a : 0x30);
	  operand(c, v << 8 | (a ^ (f & 1 ? v : 0x80)));
	}
    }
  // 2. every postbyte, register values and 16 bit operands
  static const int W[]= { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x0fff, 0x1000, 0x7ff0, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xff00, 0xfffd, 0xfffe, 0xffff };
  for (const Op &o: ops) if (o.idx) for (int pb= 0; pb < 256; pb++)
    {
      if (!sp.mine()) continue;
      for (int x: W) for (int k= 0; k < (thorough ? 96 : 12); k++)
	{
	  std_case(c); int s= o.b[o.n - 1] * 7 + pb * 31 + x + o.n;
	  int *r[]= { 0 }; (void)r; int sel= pb >> 5 & 3;
	  c[sel == 0 ? kX : sel == 1 ? kY : sel == 2 ? kU : kS]= x; c[kA]= noise(s, k); c[kB]= k & 1 ? 0x80 : noise(s, k + 9); c[kCC]= noise(s, k + 40);
	  put(c, o, pb, k & 2 ? noise(s, k + 60) : k & 4 ? 0xff : 0, k & 8 ? 0xff : noise(s, k + 80));
	  int at= -1; if ((pb & 0x90) == 0x90) { at= W[(k * 7 + pb) % 18]; }
	  if (at >= 0)
	    { // an indirect address
	      c[kIRQ]= 0; long d[NC]; memcpy(d, c, sizeof d); d[kI0 + o.n - 1]= 0x30; d[kI0 + o.n]= pb & ~0x10; if (pb == 0x9f) { c[kXA]= (c[kI0 + o.n + 1] << 8 | c[kI0 + o.n + 2]); }
	      else
		{ // LEAX without the indirection tells the place
		  for (int i= 0; i < 8; i++) if (d[kI0 + i] >= 0) ram->poke((d[kPC] + i) & 0xffff, d[kI0 + i]);
		  m.pc= d[kPC]; m.A= d[kA]; m.B= d[kB]; m.DP= d[kDP]; m.X= d[kX]; m.Y= d[kY]; m.U= d[kU]; m.S= d[kS]; m.P= 0; m.skip= m.self= false; m.dat= -1; m.pc= (d[kPC] + o.n) & 0xffff; m.pc0= d[kPC];
		  c[kXA]= m.indexed(); ram->restore(); if (m.skip) continue;
		}
	      if (io(c[kXA])) continue;
	      c[kXV]= at >> 8; c[kYA]= (c[kXA] + 1) & 0xffff; c[kYV]= at & 255;
	      if (where(c, w, len)) ls.run(c);
	    }
	  else operand(c, noise(s, k + 100) << 8 | noise(s, k + 120));
	}
    }
  // 3. 16 bit operands
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (int x: W) for (int v: W) for (int d= 0; d < 18; d++)
	{
	  int l= o.b[o.n - 1];
	  std_case(c); c[kX]= c[kY]= c[kU]= c[kS]= x; if (d == 7) c[kS]= W[(d + v) % 18]; c[kA]= x >> 8; c[kB]= x & 255; c[kCC]= noise(d, x + v); c[kDP]= W[d] >> 8;
	  if (o.idx) put(c, o, 0x9f, W[d] >> 8, W[d] & 255); else if (l >= 0x80 && !(l & 0x30)) put(c, o, v >> 8, v & 255); else put(c, o, (l & 0x30) == 0x30 ? W[d] >> 8 : W[d] & 255, W[d] & 255);
	  if (o.idx && io(W[d])) continue;
	  operand(c, v);
	}
    }
  // 4. addresses and wrap-around of PC and stack pointers, register lists, register pairs
  static const int PCS[]= { 0, 0x00fe, 0x7f00, 0xff80, 0xfffa, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x1000 };
  for (const Op &o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int wi= 0; wi < 18; wi++) for (int d= 0; d < 256; d+= thorough || (o.n == 1 && o.b[0] < 0x38) ? 1 : 3) for (int h: { 0, 0x30, 0xff })
	{
	  std_case(c); c[kPC]= pc; c[kX]= W[wi]; c[kY]= W[(wi + d) % 18]; c[kU]= W[(wi + d + h) % 18]; c[kS]= W[(wi * 5 + d) % 18]; c[kCC]= noise(d, wi); c[kA]= noise(d, wi + 55); c[kB]= noise(d, wi + 77); c[kDP]= noise(d, wi + 99);
	  int l= o.b[o.n - 1];
	  if (h && !o.idx && l < 0x60 && l >= 0x20 && o.n == 1) continue;
	  if (o.idx) put(c, o, d, h, d ^ 255); else if ((l & 0xb0) == 0xb0 || (l & 0xf0) == 0x70 || (l & 0xb0) == 0x80) put(c, o, h, d); else put(c, o, d, h);
	  if (where(c, w, len)) ls.run(c);
	}
    }
  // 5. interrupts requested before an instruction
  for (const Op &o: ops) for (int irq= 1; irq < 16; irq++)
    {
      if (!sp.mine()) continue;
      if (irq == 8) continue;
      for (int p= 0; p < 256; p+= thorough ? 1 : 3) for (int s: { 0, 1, 3, 6, 12, 0x4000, 0xffff })
	{
	  std_case(c); put(c, o, o.idx ? 0x84 : 0x40, 0x30); c[kCC]= p; c[kS]= s; c[kIRQ]= irq;
	  if (where(c, w, len)) ls.run(c);
	}
    }
  // 6. requests in handlers: up to six instructions
  static const int HI[]= { 0x3f, 0x3b, 0x1c, 0x12, 0x39, 0x1a, 0x103f, 0x113f, 0x13c };
  for (int o: HI) for (int irq= 0; irq < 8; irq++)
    {
      if (!sp.mine()) continue;
      for (int o2: HI) for (int o3: HI) for (int n= 2; n < 7; n++) for (int p: { 0, 0x50, 0x10, 0x40, 0xd0 }) for (int base: { 0x223c, 0x233d, 0x2141, 0x2442, 0x2545 })
	{
	  std_case(c); c[kNI]= n; c[kPC]= base; c[kCC]= p; c[kIRQ]= irq; int i= kI0;
	  for (int x: { o, o2, o3 }) { if (x == 0x13c) { c[i++]= 0x3c; c[i++]= 0xaf; } else if (x > 255) { c[i++]= x >> 8; c[i++]= x & 255; } else { c[i++]= x; if (x == 0x1c) c[i++]= 0x8f; if (x == 0x1a) c[i++]= 0x40; } }
	  ls.run(c);
	}
    }
  // 7. ordered pairs
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (const Op &o2: ops) for (int k= 0; k < (thorough ? 24 : 4); k++)
	{
	  std_case(c); c[kNI]= 2; int seed= (o.b[o.n - 1] * 4 + o.n) * 1024 + o2.b[o2.n - 1] * 4 + o2.n, l= o.b[o.n - 1];
	  put(c, o, o.idx ? 0x80 + k : o.n == 1 && l >= 0x1e && l < 0x30 ? 0x12 : 0x45, 0x31, 0);
	  if (!where(c, w, len)) continue;
	  if (len > 5) { for (int i= kI0; i < NC; i++) c[i]= -1; continue; }
	  for (int i= 0; i < o2.n; i++) c[kI0 + len + i]= o2.b[i];
	  if (o2.idx && len + o2.n < 8) c[kI0 + len + o2.n]= 0xc1;
	  c[kA]= noise(seed, k); c[kB]= noise(seed, k + 20); c[kCC]= noise(seed, k + 40);
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
