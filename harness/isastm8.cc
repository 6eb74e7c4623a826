/* STM8: every documented opcode (all prefixes), and interrupt acceptance, against a model written
   from the programming manual PM0044 and the reference manual's interrupt chapter. Clock counts,
   WFI, WFE, HALT and BREAK are not compared. */
#include "isa.h"
#include "stm8cl.h"
#undef store1
#undef store2
#undef get1
#undef fetch1
#undef fetch2
#undef push1
#undef push2
#undef pop1
#undef pop2
using namespace mc;
int mc::harness_default_shards= 0;
static Space *ram, *fl; static cl_stm8 *u; static Lockstep ls;
enum { kPC, kA, kX, kY, kSP, kCC, kNI, kIRQ, kXA, kXV, kYA, kYV, kI0, NC= kI0 + 8 };
enum { C= 1, Z= 2, N= 4, I0= 8, H= 16, I1= 32, V= 128 };
static const int NS= 4, NUM[NS]= { 6, 3, 17, 10 };   // in the order the simulator polls them
static uint8_t spr[8];
static bool okrd(int a) { return a >= 0 && (a < 0x1800 || (a >= 0x8000 && a < 0x28000)); }
struct ST
{
  int pc, A, X, Y, S, P, pc0, undef, dat, low; bool skip, self, dz;
  int rd(int a) { if (!okrd(a)) { skip= true; return 0; } return a < 0x1800 ? ram->rd(a) : fl->rd(a - 0x8000); }
  int rdd(int a) { if (dat < 0) dat= a; return rd(a); }
  void wr(int a, int v) { if (dat < 0) dat= a; if (a < 0 || a >= 0x1800) { skip= true; return; } if (a - pc0 >= 0 && a - pc0 < 6) self= true; ram->wr(a, v & 255); }
  int f() { int v= rd(pc); pc= (pc + 1) & 0xffffff; return v; }
  int f16() { int h= f(); return h << 8 | f(); }
  int rel() { return (signed char)f(); }
  int rd16(int a) { int h= rdd(a); return h << 8 | rd(a + 1); }
  int ptr(int a) { int h= rd(a); return h << 8 | rd(a + 1); }
  int ptr3(int a) { int h= ptr(a); return h << 8 | rd(a + 2); }
  void push(int v) { wr(S, v); S= (S - 1) & 0xffff; if (S == 0x14ff) skip= true; }
  void push16(int v) { push(v); push(v >> 8); }
  int pop() { S= (S + 1) & 0xffff; if (S == 0x14ff) skip= true; return rd(S); }
  int pop16() { int h= pop(); return h << 8 | pop(); }
  void sets(int k, int v) { P= (P & ~k) | (v & k); }
  int nz8(int r) { return (r & 0x80 ? N : 0) | (r & 255 ? 0 : Z); }
  int nz16(int r) { return (r & 0x8000 ? N : 0) | (r & 0xffff ? 0 : Z); }
  void NZ(int r) { sets(N|Z, nz8(r)); }
  void NZW(int r) { sets(N|Z, nz16(r)); }
  // memory operand of an instruction: x the high nibble of the opcode (second half of the map)
  int ea(int p, int x)
  {
    switch (p << 8 | x)
      {
      case 0x1: return S + f();
      case 0xb: return f();
      case 0xc: return f16();
      case 0xd: return f16() + X;
      case 0xe: return f() + X;
      case 0xf: return X;
      case 0x720c: return ptr(f16());
      case 0x720d: return ptr(f16()) + X;
      case 0x900d: return f16() + Y;
      case 0x900e: return f() + Y;
      case 0x900f: return Y;
      case 0x910d: return ptr(f()) + Y;
      case 0x920c: case 0x910c: return ptr(f());
      case 0x920d: return ptr(f()) + X;
      }
    skip= true; return 0;
  }
  // memory operand of a read-modify-write instruction
  int em(int p, int x)
  {
    switch (p << 8 | x)
      {
      case 0x0: return S + f();
      case 0x3: return f();
      case 0x6: return f() + X;
      case 0x7: return X;
      case 0x7203: return ptr(f16());
      case 0x7204: return f16() + X;
      case 0x7205: return f16();
      case 0x7206: return ptr(f16()) + X;
      case 0x9004: return f16() + Y;
      case 0x9006: return f() + Y;
      case 0x9007: return Y;
      case 0x9106: return ptr(f()) + Y;
      case 0x9203: return ptr(f());
      case 0x9206: return ptr(f()) + X;
      }
    skip= true; return 0;
  }
  // w: number of bits
  int rmw(int z, int v, int w)
  {
    int top= 1 << (w - 1), msk= 2 * top - 1, c= P & C, r;
    auto nz= [&](int x) { return (x & top ? N : 0) | (x & msk ? 0 : Z); };
    switch (z)
      {
      case 0: r= -v & msk; sets(V|N|Z|C, nz(r) | (r == top ? V : 0) | (r ? C : 0)); return r;
      case 3: r= ~v & msk; sets(N|Z|C, nz(r) | C); return r;
      case 4: r= v >> 1; sets(N|Z|C, nz(r) | (v & 1)); return r;
      case 6: r= v >> 1 | (c ? top : 0); sets(N|Z|C, nz(r) | (v & 1)); return r;
      case 7: r= v >> 1 | (v & top); sets(N|Z|C, nz(r) | (v & 1)); return r;
      case 8: r= v << 1 & msk; sets(N|Z|C, nz(r) | (v & top ? C : 0)); return r;
      case 9: r= (v << 1 | c) & msk; sets(N|Z|C, nz(r) | (v & top ? C : 0)); return r;
      case 10: r= (v - 1) & msk; sets(V|N|Z, nz(r) | (v == top ? V : 0)); return r;
      case 12: r= (v + 1) & msk; sets(V|N|Z, nz(r) | (r == top ? V : 0)); return r;
      case 13: sets(N|Z, nz(v)); return v;
      case 14: r= w == 8 ? (v << 4 | v >> 4) & 255 : (v << 8 | v >> 8) & 0xffff; sets(N|Z, nz(r)); return r;
      case 15: sets(N|Z, Z); return 0;
      }
    skip= true; return v;
  }
  int add8(int b, int c)
  {
    int r= A + b + c;
    sets(V|H|N|Z|C, nz8(r) | ((A & 15) + (b & 15) + c > 15 ? H : 0) | (~(A ^ b) & (A ^ r) & 0x80 ? V : 0) | (r > 255 ? C : 0));
    return r & 255;
  }
  int sub8(int b, int c) { int r= A - b - c; sets(V|N|Z|C, nz8(r) | ((A ^ b) & (A ^ r) & 0x80 ? V : 0) | (r < 0 ? C : 0)); return r & 255; }
  int add16(int a, int b)
  {
    int r= a + b;
    sets(V|H|N|Z|C, nz16(r) | ((a & 255) + (b & 255) > 255 ? H : 0) | (~(a ^ b) & (a ^ r) & 0x8000 ? V : 0) | (r > 0xffff ? C : 0));
    return r & 0xffff;
  }
  int sub16(int a, int b, bool h)
  {
    int r= a - b;
    sets(V|N|Z|C, nz16(r) | ((a ^ b) & (a ^ r) & 0x8000 ? V : 0) | (r < 0 ? C : 0));
    if (h) sets(H, (a & 255) < (b & 255) ? H : 0);
    return r & 0xffff;
  }
  int level(int b) { return b == 2 ? 0 : b == 1 ? 1 : b == 0 ? 2 : 3; }
  int level() { return level((P & I1 ? 2 : 0) | (P & I0 ? 1 : 0)); }
  void setlevel(int l) { sets(I1|I0, l == 0 ? I1 : l == 1 ? I0 : l == 2 ? 0 : I1|I0); }
  void save(int at, int l)
  {
    push(pc); push(pc >> 8); push(pc >> 16); push16(Y); push16(X); push(A); push(P);
    setlevel(l); pc= at;
  }
  bool cond(int k)
  {
    bool n= P & N, v= P & V, z= P & Z, c= P & C, r= true;
    switch (k >> 1)
      {
      case 1: r= !(c || z); break;
      case 2: r= !c; break;
      case 3: r= !z; break;
      case 4: r= !v; break;
      case 5: r= !n; break;
      case 6: r= !z && n == v; break;
      case 7: r= n == v; break;
      }
    return r != (k & 1);
  }
  void jump(int to) { pc= (pc & 0xff0000) | to; }
  void divide(int &q, int &d)
  {
    sets(V|H|N|C, 0); if (!d) { P|= C; dz= true; undef= Z; return; }
    int a= q / d, b= q % d; q= a; d= b; sets(Z, a ? 0 : Z);
  }
  void step()
  {
    pc0= pc; skip= self= dz= false; undef= 0x40; dat= -1;
    int o= f(), p= 0, x, z, a, v;
    if (o == 0x72 || o == 0x90 || o == 0x91 || o == 0x92) { p= o; o= f(); }
    x= o >> 4; z= o & 15;
    switch (p << 8 | o)
      {
      case 0x01: case 0x9001: { int &r= p ? Y : X; v= r; r= A << 8 | v >> 8; A= v & 255; NZW(r); return; }
      case 0x02: case 0x9002: { int &r= p ? Y : X; v= r; r= (v << 8 | A) & 0xffff; A= v >> 8; NZW(r); return; }
      case 0x16: a= S + f(); v= rd16(a); Y= v; NZW(v); return;
      case 0x17: a= S + f(); wr(a, Y >> 8); wr(a + 1, Y); NZW(Y); return;
      case 0x1e: a= S + f(); v= rd16(a); X= v; NZW(v); return;
      case 0x1f: a= S + f(); wr(a, X >> 8); wr(a + 1, X); NZW(X); return;
      case 0x1c: v= f16(); X= add16(X, v); return;
      case 0x1d: v= f16(); X= sub16(X, v, true); return;
      case 0x31: a= f16(); v= rdd(a); wr(a, A); A= v; return;
      case 0x32: a= f16(); v= pop(); dat= -1; wr(a, v); return;
      case 0x35: v= f(); a= f16(); wr(a, v); return;
      case 0x3b: a= f16(); v= rdd(a); push(v); return;
      case 0x41: v= X & 255; X= (X & 0xff00) | A; A= v; return;
      case 0x61: v= Y & 255; Y= (Y & 0xff00) | A; A= v; return;
      case 0x42: X= (X & 255) * A; sets(H|C, 0); return;
      case 0x9042: Y= (Y & 255) * A; sets(H|C, 0); return;
      case 0x45: v= rdd(f()); a= f(); wr(a, v); return;
      case 0x55: a= f16(); v= rdd(a); a= f16(); wr(a, v); return;
      case 0x4b: push(f()); return;
      case 0x51: v= X; X= Y; Y= v; return;
      case 0x52: S= (S - f()) & 0xffff; return;
      case 0x5b: S= (S + f()) & 0xffff; return;
      case 0x62: divide(X, A); return;
      case 0x9062: divide(Y, A); return;
      case 0x65: divide(X, Y); return;
      case 0x6b: a= S + f(); wr(a, A); NZ(A); return;
      case 0x7b: a= S + f(); A= rdd(a); NZ(A); return;
      case 0x80: P= pop(); A= pop(); X= pop16(); Y= pop16(); pc= pop() << 16; pc|= pop16(); return;
      case 0x81: jump(pop16()); return;
      case 0x82: v= f(); pc= v << 16 | f16(); return;
      case 0x83: save(0x8004, 3); return;
      case 0x84: A= pop(); return;
      case 0x85: X= pop16(); return;
      case 0x9085: Y= pop16(); return;
      case 0x86: P= pop(); return;
      case 0x87: v= pop(); pc= v << 16 | pop16(); return;
      case 0x88: push(A); return;
      case 0x89: push16(X); return;
      case 0x9089: push16(Y); return;
      case 0x8a: push(P); return;
      case 0x8c: P^= C; return;
      case 0x8d: v= f(); v= v << 16 | f16(); push(pc); push(pc >> 8); push(pc >> 16); pc= v; return;
      case 0x928d: v= ptr3(f16()); push(pc); push(pc >> 8); push(pc >> 16); pc= v; return;
      case 0x93: X= Y; return;
      case 0x9093: Y= X; return;
      case 0x94: S= X; return;
      case 0x9094: S= Y; return;
      case 0x95: X= (X & 255) | A << 8; return;
      case 0x9095: Y= (Y & 255) | A << 8; return;
      case 0x96: X= S; return;
      case 0x9096: Y= S; return;
      case 0x97: X= (X & 0xff00) | A; return;
      case 0x9097: Y= (Y & 0xff00) | A; return;
      case 0x98: P&= ~C; return;
      case 0x99: P|= C; return;
      case 0x9a: sets(I1|I0, I1); return;
      case 0x9b: P|= I1|I0; return;
      case 0x9c: P&= ~V; return;
      case 0x9d: return;
      case 0x9e: A= X >> 8; return;
      case 0x909e: A= Y >> 8; return;
      case 0x9f: A= X & 255; return;
      case 0x909f: A= Y & 255; return;
      case 0xa7: v= f(); a= v << 16 | f16(); wr(a + X, A); NZ(A); return;
      case 0x90a7: v= f(); a= v << 16 | f16(); wr(a + Y, A); NZ(A); return;
      case 0x92a7: a= ptr3(f16()); wr(a + X, A); NZ(A); return;
      case 0x91a7: a= ptr3(f16()); wr(a + Y, A); NZ(A); return;
      case 0xaf: v= f(); a= v << 16 | f16(); A= rdd(a + X); NZ(A); return;
      case 0x90af: v= f(); a= v << 16 | f16(); A= rdd(a + Y); NZ(A); return;
      case 0x92af: a= ptr3(f16()); A= rdd(a + X); NZ(A); return;
      case 0x91af: a= ptr3(f16()); A= rdd(a + Y); NZ(A); return;
      case 0xbc: v= f(); a= v << 16 | f16(); A= rdd(a); NZ(A); return;
      case 0x92bc: a= ptr3(f16()); A= rdd(a); NZ(A); return;
      case 0xbd: v= f(); a= v << 16 | f16(); wr(a, A); NZ(A); return;
      case 0x92bd: a= ptr3(f16()); wr(a, A); NZ(A); return;
      case 0xac: v= f(); pc= v << 16 | f16(); return;
      case 0x92ac: pc= ptr3(f16()); return;
      case 0xad: v= rel(); push16(pc); pc= (pc + v) & 0xffffff; return;
      case 0x9028: case 0x9029: v= rel(); if (!(P & H) == !(o & 1)) pc= (pc + v) & 0xffffff; return;
      case 0x902c: case 0x902d: v= rel(); if (!(P & I1) != !(P & I0)) { skip= true; return; } if (!(P & I0) == !(o & 1)) pc= (pc + v) & 0xffffff; return;
      case 0x72a9: v= f16(); Y= add16(Y, v); return;
      case 0x72a2: v= f16(); Y= sub16(Y, v, true); return;
      case 0x72bb: v= rd16(f16()); X= add16(X, v); return;
      case 0x72b9: v= rd16(f16()); Y= add16(Y, v); return;
      case 0x72b0: v= rd16(f16()); X= sub16(X, v, true); return;
      case 0x72b2: v= rd16(f16()); Y= sub16(Y, v, true); return;
      case 0x72fb: v= rd16(S + f()); X= add16(X, v); return;
      case 0x72f9: v= rd16(S + f()); Y= add16(Y, v); return;
      case 0x72f0: v= rd16(S + f()); X= sub16(X, v, true); return;
      case 0x72f2: v= rd16(S + f()); Y= sub16(Y, v, true); return;
      }
    if (p == 0x72 && x < 2)
      {
	int b= 1 << (z >> 1); a= f16(); v= rdd(a);
	if (x == 1) { wr(a, z & 1 ? v & ~b : v | b); return; }
	int d= rel(); sets(C, v & b ? C : 0); if (!(v & b) == (z & 1)) pc= (pc + d) & 0xffffff;
	return;
      }
    if (p == 0x90 && x == 1)
      {
	int b= 1 << (z >> 1); a= f16(); v= rdd(a);
	wr(a, z & 1 ? (P & C ? v | b : v & ~b) : v ^ b); return;
      }
    if (x == 2 && !p) { v= rel(); if (cond(z)) pc= (pc + v) & 0xffffff; return; }
    if (x < 8 && x != 1 && x != 2)
      {
	if (z == 1 || z == 2 || z == 5 || z == 11) { skip= true; return; }
	if (x == 4 && !p) { A= rmw(z, A, 8); return; }
	if (x == 5 && (!p || p == 0x90)) { int &r= p ? Y : X; r= rmw(z, r, 16); return; }
	a= em(p, x); if (skip) return;
	v= z == 15 ? 0 : rdd(a); v= rmw(z, v, 8); if (z != 13) wr(a, v);
	return;
      }
    if (x < 10 && x != 1) { skip= true; return; }
    // second half of the map
    if (x == 1 && (p || z >= 12 || z == 6 || z == 7)) { skip= true; return; }
    if (z == 3)
      { // CPW
	bool ind= x >= 13, y= p == 0x90 || p == 0x91; if (ind) y= !y;
	if (p == 0x72 && x == 10) { skip= true; return; }
	int r= y ? Y : X;
	if (x == 10) { if (p && p != 0x90) { skip= true; return; } sub16(r, f16(), false); return; }
	a= ea(p == 0x90 && (x == 11 || x == 12) ? 0 : p, x); if (skip) return;
	sub16(r, rd16(a), false); return;
      }
    if (z >= 14)
      { // LDW
	bool ind= x >= 13, y= p == 0x90 || p == 0x91;
	if (x == 10) { if (z == 15 || (p && p != 0x90)) { skip= true; return; } v= f16(); (y ? Y : X)= v; NZW(v); return; }
	a= ea(p == 0x90 && (x == 11 || x == 12) ? 0 : p, x); if (skip) return;
	if (z == 14) { v= rd16(a); (y ? Y : X)= v; NZW(v); return; }
	if (ind) y= !y;
	v= y ? Y : X; wr(a, v >> 8); wr(a + 1, v); NZW(v); return;
      }
    if (p == 0x91 && x == 12) { skip= true; return; }
    if (z >= 12)
      {
	if (x < 12) { skip= true; return; }
	a= ea(p, x); if (a > 0xffff) skip= true; if (skip) return;
	if (z == 13) push16(pc);
	jump(a); return;
      }
    if (x == 10) { if (p) { skip= true; return; } v= f(); }
    else { a= ea(p, x); if (skip) return; if (z == 7) { wr(a, A); NZ(A); return; } v= rdd(a); }
    switch (z)
      {
      case 0: A= sub8(v, 0); return;
      case 1: sub8(v, 0); return;
      case 2: A= sub8(v, P & C); return;
      case 4: A&= v; NZ(A); return;
      case 5: NZ(A & v); return;
      case 6: A= v; NZ(A); return;
      case 8: A^= v; NZ(A); return;
      case 9: A= add8(v, P & C); return;
      case 10: A|= v; NZ(A); return;
      case 11: A= add8(v, 0); return;
      }
    skip= true;
  }
};
static ST m;
static cl_memory_cell *ie, *rq;
static void load(const long *c)
{
  auto poke= [](int a, int v) { a&= 0xffffff; if (a < 0x1800) ram->poke(a, v); else if (a >= 0x8000 && a < 0x28000) fl->poke(a - 0x8000, v); };
  if (c[kXA] >= 0) poke(c[kXA], c[kXV]);
  if (c[kYA] >= 0) poke(c[kYA], c[kYV]);
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0) poke(c[kPC] + i, c[kI0 + i]);
  m.pc= c[kPC]; m.A= c[kA]; m.X= c[kX]; m.Y= c[kY]; m.S= c[kSP]; m.P= c[kCC] & 0xbf;
}
// kIRQ: bits 0-3 requests, 4-7 cleared by acceptance when set, then two bits of priority for each of the sources
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  load(c);
  u->regs.A= m.A; u->regs.X= m.X; u->regs.Y= m.Y; u->regs.SP= m.S; u->regs.CC= m.P; u->state= stGO; u->PC= m.pc;
  while (u->it_levels->count > 1) { class it_level *il= (class it_level *)u->it_levels->pop(); delete il; }
  int irq= c[kIRQ], req= irq & 15;
  memset(spr, 0xff, 8);
  for (int i= 0; i < NS; i++) { int n= NUM[i]; spr[n / 4]&= ~(3 << (n % 4 * 2)); spr[n / 4]|= (irq >> (8 + 2 * i) & 3) << (n % 4 * 2); }
  for (int i= 0; i < 8; i++) u->rom->get_cell(0x7f70 + i)->set(spr[i]);
  rq->set(req | (irq >> 4 & 15) << 4);
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int p0= m.pc, o= m.rd(p0), o1= m.rd(p0 + 1);
      m.step();
      if (m.skip || m.self) return;
      if (((m.pc ^ p0) & 0xff0000) && ((p0 & 0xffff) > 0xfff8)) return;   // an instruction across a section boundary
      int lv= m.level(), best= -1, bl= 0;
      for (int i= 0; i < NS; i++) if (req & 1 << i)
	{
	  int l= m.level(irq >> (8 + 2 * i) & 3);
	  if (l <= lv) continue;
	  if (best < 0 || l > bl || (l == bl && NUM[i] < NUM[best])) { best= i; bl= l; }
	}
      if (best >= 0) { m.save(0x8008 + 4 * NUM[best], bl); if (best >= 2) req&= ~(1 << best); }
      if (m.skip || m.self) return;
      u->do_inst();
      shm->transitions++;
      bool px= o == 0x72 || (o >= 0x90 && o < 0x93);
      auto bad= [&](const char *what, int got, int want)
      {
	pre= px ? strf("%02x%02x:%s", o, o1, what) : strf("%02x:%s", o, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%02x %02x at %04x) of PC=%04lx A=%02lx X=%04lx Y=%04lx SP=%04lx CC=%02lx irq %lx, [%lx]=%lx [%lx]=%lx", what, got, want, k + 1, o, o1, p0,
	     c[kPC], c[kA], c[kX], c[kY], c[kSP], c[kCC], c[kIRQ], c[kXA], c[kXV], c[kYA], c[kYV]);
      };
      if (m.dz) { m.A= u->regs.A; m.X= u->regs.X; m.Y= u->regs.Y; }
      if (u->regs.A != m.A) bad("A", u->regs.A, m.A);
      if (u->regs.X != m.X) bad("X", u->regs.X, m.X);
      if (u->regs.Y != m.Y) bad("Y", u->regs.Y, m.Y);
      if (u->regs.SP != m.S) bad("SP", u->regs.SP, m.S);
      int mask= 0xff & ~m.undef, P= u->regs.CC;
      if ((P ^ m.P) & mask) bad("CC", P, m.P);
      m.P= (m.P & mask) | (P & ~mask);
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (u->state != stGO) bad("state", u->state, stGO);
      if ((rq->get() & 15) != (t_mem)req) bad("requests", rq->get() & 15, req);
      uint32_t at;
      for (Space *s: ls.spaces)
	if (!s->same(&at)) 
	  {
	    if (best >= 0 && !((s->real[at] ^ s->ref[at]) & mask)) { s->real[at]= s->ref[at]; continue; }   // the pushed CC
	    bad("memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
	  }
      if (!pre.empty()) break;
    }
  u->state= stGO;
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", "STM8S208" });
  u= (cl_stm8*)uc;
  ram= mkspace("ram_chip", 0x1800, 1); fl= mkspace("flash_chip", 0x20000, 2);
  ls.n= NC; ls.one= one; ls.spaces= { ram, fl };
  // pointers used by the cases below, two and three bytes long
  static const int PT[]= { 2, 0x06, 3, 0x10, 0x240, 0x00, 0x241, 0x07, 0x242, 0x20, 0x10, 0x05, 0x11, 0x80 };
  for (int i= 0; i < 14; i+= 2) ram->real[PT[i]]= ram->ref[PT[i]]= ram->init[PT[i]]= PT[i + 1];
  static const int HC[]= { 1, 0x9d80, NUM[0], 0x9a9d80, NUM[1], 0x9d9b80, NUM[2], 0x80, NUM[3], 0x9a80 };
  for (int i= 0; i < 10; i+= 2) for (int k= 0, v= HC[i + 1]; k < 3; k++)
    {
      int a= i ? 8 + 4 * HC[i] : 4; uint8_t b= v >> (v > 0xffff ? 16 : v > 255 ? 8 : 0); v&= v > 0xffff ? 0xffff : v > 255 ? 255 : 0; if (!b) b= 0x9d;
      fl->real[a + k]= fl->ref[a + k]= fl->init[a + k]= b;
    }
  ie= new cl_cell8(8); ie->init(); ie->decode(malloc(8)); ie->set(15);
  rq= new cl_cell8(8); rq->init(); rq->decode(malloc(8)); rq->set(0);
  for (int i= 0; i < NS; i++)
    {
      cl_it_src *s= new cl_it_src(u, NUM[i], ie, 1 << i, rq, 1 << i, 0x8008 + 4 * NUM[i], i >= 2, false, "verif", 2000 + i);
      s->init(); u->it_sources->add(s);
    }
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x9234; c[kA]= 0x5a; c[kX]= 0x0456; c[kY]= 0x0567; c[kSP]= 0x15bc; c[kCC]= 0x28; c[kNI]= 1; c[kIRQ]= 0;
}
struct Op { int p, o, n; };
static std::vector<Op> ops;
// false: the case is not decided; else where its memory operand is (w), its length (len)
static bool where(const long *c, int &w, int &len)
{
  load(c); m.step(); w= m.dat; len= m.pc - c[kPC]; ram->restore(); fl->restore();
  return !m.skip && !m.self;
}
static int put(long *c, const Op &o, int a1= -1, int a2= -1, int a3= -1, int a4= -1)
{
  int n= kI0; if (o.p) c[n++]= o.p; c[n++]= o.o;
  c[n]= a1; c[n + 1]= a2; c[n + 2]= a3; c[n + 3]= a4; return n;
}
static void mkops()
{
  for (int p: { 0, 0x72, 0x90, 0x91, 0x92 }) for (int o= 0; o < 256; o++)
    {
      if (!p && (o == 0x72 || (o >= 0x90 && o < 0x93))) continue;
      Op x= { p, o, p ? 2 : 1 }; long c[NC]; int w, l; bool ok= false;
      for (int k= 0; k < 4; k++)
	{ std_case(c); c[kX]= c[kY]= k ? 0x10 : 0x400; put(c, x, k > 1 ? 0 : 2, k > 2 ? 2 : k ? 0x40 : 0x10, 3, 4); if (where(c, w, l)) ok= true; }
      if (ok) ops.push_back(x);
    }
}
// gives the memory operand the value v
static void operand(long *c, int v)
{
  int w, len;
  if (!where(c, w, len)) return;
  if (w >= 0 && c[kXA] < 0)
    {
      c[kXA]= w; c[kXV]= v >> 8 & 255; c[kYA]= w + 1; c[kYV]= v & 255;
      if (!where(c, w, len)) return;
    }
  ls.run(c);
}
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC]; int w, len;
  static const int FL[]= { 0x28, 0x29, H, C|N|Z, V|Z|N|C|H|8, V|N, Z|C|0x20, H|V|C|N|Z|0x28 };
  // 1. accumulator, index registers x operand x flags
  for (const Op &o: ops) for (int f= 0; f < 8; f++)
    {
      if (!sp.mine()) continue;
      for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++)
	{
	  if (!thorough && f > 2 && (a + v * 3 + f) % 7) continue;
	  int x= o.o >> 4;
	  std_case(c); c[kA]= a; c[kCC]= FL[f];
	  if (x == 5 || !(o.o & 15) || (o.o & 15) == 13 || x == 4 || (o.o & 0xfc) == 0x60) { c[kX]= v << 8 | (f & 1 ? a : v); c[kY]= f & 2 ? v << 8 | a : a << 8 | v; }
	  if (x == 6 || x == 7 || x > 9) { c[kX]= 0x400 | (v >> 1); c[kY]= 0x600 | a >> 1; }
	  if (o.o == 0x62) c[kX]= c[kY]= v << 8 | (v * 7 & 255);
	  if (o.o == 0x65) { c[kX]= v << 8 | 0x5a; c[kY]= f & 1 ? a : a << 8 | f; }
	  if (x == 10 || (!o.p && (o.o == 0x1c || o.o == 0x1d || o.o == 0x4b || o.o == 0x35))) put(c, o, v, a, 2); else if (o.p < 0x91 && ((o.o & 0xf7) == 0xa7 || (o.o & 0xfe) == 0xbc)) put(c, o, 0, 2, 0x40); else put(c, o, 2, 0x40, 3, 0x50);
	  operand(c, v << 8 | (a ^ (f & 1 ? v : 0x80)));
	}
    }
  // 2. 16 bit values and addresses
  static const int W[]= { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x0fff, 0x1000, 0x14f0, 0x1700, 0x17fd, 0x17fe, 0x17ff, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xa000, 0xff00, 0xfffe, 0xffff };
  const int NW= sizeof W / sizeof *W;
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (int x: W) for (int v: W) for (int d= 0; d < NW; d++) for (int k= 0; k < (thorough ? 8 : 2); k++)
	{
	  int s= o.o * 31 + o.p + x + v * 3 + d * 7;
	  std_case(c); c[kX]= x; c[kY]= k & 1 ? x : W[(d + v + 5) % NW]; if (k & 1) c[kX]= W[(d + v + 3) % NW]; c[kA]= noise(s, k); c[kCC]= noise(s, k + 9);
	  c[kSP]= d & 1 ? 0x1501 + noise(s, k + 4) : 0x16d0 + noise(s, k + 4);
	  int n= put(c, o, W[d] >> 8, W[d] & 255, noise(s, k + 21), noise(s, k + 22)); (void)n;
	  if (d & 2) c[n]= 0;
	  operand(c, v);
	}
    }
  // 3. pointers: the pointer's place is given, its value comes from the list
  for (const Op &o: ops) if (o.p == 0x72 || o.p == 0x91 || o.p == 0x92)
    {
      if (!sp.mine()) continue;
      bool lng= o.p == 0x72 || (o.o & 15) == 7 || (o.o & 15) > 11;
      for (int x: W) for (int v: W) for (int at: { 0x02, 0x60, 0xff, 0x9000 }) for (int k= 0; k < (thorough ? 24 : 3); k++)
	{
	  if (at > 255 && !lng) continue;
	  int s= o.o * 31 + o.p + x + v * 3 + at;
	  std_case(c); c[kX]= x; c[kY]= k & 1 ? x : x ^ 0x300; c[kA]= noise(s, k); c[kCC]= noise(s, k + 9);
	  if (lng) put(c, o, at >> 8, at & 255, 5); else put(c, o, at, 5);
	  c[kXA]= at; c[kXV]= v >> 8; c[kYA]= at + 1; c[kYV]= v & 255;
	  if ((o.o & 0xf7) == 0xa7 || o.o == 0xbc || o.o == 0xbd || o.o == 0xac || o.o == 0x8d) { c[kXV]= k % 3 > 1 ? 0 : k & 1 ? 1 : 2; if (k % 3 > 1) { c[kYV]= noise(s, k + 3) & 31; c[kX]&= 15; c[kY]&= 15; } }
	  if (where(c, w, len)) ls.run(c);
	}
    }
  // 4. places of the program, displacements, bits
  static const int PCS[]= { 0x0000, 0x0100, 0x1700, 0x8000, 0x807c, 0xfff0, 0xfff8, 0x10000, 0x10080, 0x17ff0, 0x1fff8, 0x20000, 0x27f00 };
  for (const Op &o: ops) for (int pc: PCS)
    {
      if (!sp.mine()) continue;
      for (int d= 0; d < 256; d++) for (int h: { 0, 2, 0x90, 0xff }) for (int k= 0; k < (thorough ? 4 : 1); k++)
	{
	  int s= o.o * 31 + o.p + d * 5 + h + pc;
	  std_case(c); c[kPC]= pc; c[kX]= noise(s, k) | noise(s, k + 30) % 20 << 8; c[kY]= noise(s, k + 1) | (0x80 | noise(s, k + 31)) << 8; c[kA]= noise(s, k + 2); c[kCC]= noise(s, k + 3); c[kSP]= 0x1500 + noise(s, k + 5) * 2;
	  if (o.p == 0x72 && o.o < 16) put(c, o, 0x03, h, d); else put(c, o, h, d, d ^ 0x5a, h);
	  operand(c, noise(s, k + 8) << 8 | noise(s, k + 9));
	}
    }
  // 5. interrupts: every pattern of requests and priorities at every level
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (int r= 1; r < 16; r++) for (int pr= 0; pr < 256; pr+= thorough || o.o == 0x9d || o.o == 0x9a || (!o.p && o.o == 0x80) ? 1 : 13) for (int l: { 0, 8, 0x20, 0x28 })
	{
	  std_case(c); put(c, o, o.p < 0x91 && ((o.o & 0xf7) == 0xa7 || (o.o & 0xfe) == 0xbc) ? 0 : 2, 0x40, 3, 0x50); c[kCC]= l | (noise(pr, r) & 0x97); c[kIRQ]= r | pr << 8;
	  if (where(c, w, len)) ls.run(c);
	}
    }
  // 6. requests in handlers: programs of up to seven instructions, at the vectors of all the sources
  static const int HI[]= { 0x9d, 0x80, 0x9a, 0x9b, 0x83, 0x86, 0x8a };
  for (int o: HI) for (int o2: HI)
    {
      if (!sp.mine()) continue;
      for (int o3: HI) for (int n= 2; n < 8; n++) for (int irq= 0; irq < 16; irq++) for (int pr= 0; pr < 256; pr+= thorough ? 1 : 11) for (int base: { 0x8008 + 4 * 3, 0x8008 + 4 * 17 })
	{
	  std_case(c); c[kNI]= n; c[kPC]= base; c[kCC]= noise(pr, irq + n); c[kIRQ]= irq | pr << 8; c[kSP]= 0x1700;
	  c[kI0]= o; c[kI0 + 1]= o2; c[kI0 + 2]= o3; c[kI0 + 3]= 0x9d;
	  ls.run(c); counter("handler programs")++;
	}
    }
  // 7. ordered pairs
  for (const Op &o: ops)
    {
      if (!sp.mine()) continue;
      for (const Op &o2: ops) for (int k= 0; k < (thorough ? 24 : 4); k++)
	{
	  std_case(c); c[kNI]= 2; int s= (o.o * 4 + o.p) * 1024 + o2.o * 4 + o2.p;
	  put(c, o, k & 1 ? 2 : 0, 0x40, 2, 0x31); if (k & 2) { c[kX]= noise(s, k + 4); c[kY]= noise(s, k + 5); }
	  if (!where(c, w, len)) continue;
	  int n= kI0 + len; if (len < 1 || len > 5) continue;
	  if (o2.p) c[n++]= o2.p; c[n++]= o2.o; for (int i= 0; n < NC; n++, i++) c[n]= i == 0 ? (k & 1 ? 2 : 0) : 0x60 + i;
	  c[kA]= noise(s, k); c[kCC]= noise(s, k + 40);
	  ls.run(c);
	  counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
