/* Z80: every documented opcode against a model written from the Zilog manual
   (plus the halves of IX/IY, which every assembler accepts). */
#include "isa.h"
#include "z80cl.h"
using namespace mc;
int mc::harness_default_shards= 0;

static Space *ram, *inp, *outp;
static cl_z80 *z;
static Lockstep ls;
enum { cPC, cA, cF, cB, cC, cD, cE, cH, cL, cIX, cIY, cSP, cR, cI, cIFF, cXA, cXV, cNI, cI0, NC= cI0+10 };
enum { FC=1, FN=2, FP=4, FH=0x10, FZ=0x40, FS=0x80, DOC= FC|FN|FP|FH|FZ|FS };

struct MZ
{
  int pc, A, F, r[8], IX, IY, SP, R, I, aA, aF, a[8], iff1, iff2, im;
  int t;                  // T states
  int undefF;             // flag bits the manual leaves undefined
  bool halt, skip;
  static int par(int a) { int p= 1; for (a&= 255; a; a>>= 1) p^= a&1; return p ? FP : 0; }
  int rd(int a) { return ram->rd(a & 0xffff); }
  int pc0; bool self;       // an instruction that overwrites its own bytes
  void wr(int a, int v) { if (((a-pc0) & 0xffff) < 4) self= true; ram->wr(a & 0xffff, v); }
  int rd16(int a) { return rd(a) | rd(a+1) << 8; }
  void wr16(int a, int v) { wr(a, v & 255); wr(a+1, (v >> 8) & 255); }
  int f() { int v= rd(pc); pc= (pc+1) & 0xffff; return v; }
  int f16() { int l= f(); return l | f() << 8; }
  int BC() { return r[0]<<8|r[1]; } int DE() { return r[2]<<8|r[3]; } int HL() { return r[4]<<8|r[5]; }
  void BC(int v) { r[0]= (v>>8)&255; r[1]= v&255; }
  void DE(int v) { r[2]= (v>>8)&255; r[3]= v&255; }
  void HL(int v) { r[4]= (v>>8)&255; r[5]= v&255; }
  void push(int v) { SP= (SP-2) & 0xffff; wr16(SP, v); }
  int pop() { int v= rd16(SP); SP= (SP+2) & 0xffff; return v; }
  void fl(int mask, int v) { F= (F & ~mask) | (v & mask); }
  int sz(int v) { return (v & 0x80 ? FS : 0) | ((v & 255) ? 0 : FZ); }
  void alu(int k, int b)
  {
    int c= (k == 1 || k == 3) ? F & 1 : 0, res;
    switch (k)
      {
      case 0: case 1:
	{ res= A+b+c; int s= (int8_t)A+(int8_t)b+c;
	  fl(DOC, sz(res) | ((A&15)+(b&15)+c > 15 ? FH : 0) | (s > 127 || s < -128 ? FP : 0) | (res > 255 ? FC : 0)); A= res & 255; return; }
      case 2: case 3: case 7:
	{ res= A-b-c; int s= (int8_t)A-(int8_t)b-c;
	  fl(DOC, sz(res) | FN | ((A&15)-(b&15)-c < 0 ? FH : 0) | (s > 127 || s < -128 ? FP : 0) | (res < 0 ? FC : 0)); if (k != 7) A= res & 255; return; }
      case 4: A&= b; fl(DOC, sz(A) | FH | par(A)); return;
      case 5: A^= b; fl(DOC, sz(A) | par(A)); return;
      case 6: A|= b; fl(DOC, sz(A) | par(A)); return;
      }
  }
  int incdec(int v, bool dec)
  {
    int n= (dec ? v-1 : v+1) & 255;
    fl(DOC & ~FC, sz(n) | (dec ? FN : 0) | (dec ? ((v&15) == 0 ? FH : 0) | (v == 0x80 ? FP : 0) : ((v&15) == 15 ? FH : 0) | (v == 0x7f ? FP : 0)));
    return n;
  }
  int rot(int k, int v)
  {
    int n= 0, c= 0, o= F & 1;
    switch (k)
      {
      case 0: c= v>>7; n= v<<1 | c; break;
      case 1: c= v&1; n= v>>1 | c<<7; break;
      case 2: c= v>>7; n= v<<1 | o; break;
      case 3: c= v&1; n= v>>1 | o<<7; break;
      case 4: c= v>>7; n= v<<1; break;
      case 5: c= v&1; n= v>>1 | (v & 0x80); break;
      case 6: c= v>>7; n= v<<1 | 1; break;
      case 7: c= v&1; n= v>>1; break;
      }
    n&= 255; fl(DOC, sz(n) | par(n) | c);
    return n;
  }
  void bit(int b, int v) { fl(FZ|FH|FN, ((v >> b) & 1 ? 0 : FZ) | FH); undefF|= FS|FP; }
  bool cc(int y) { bool v= false; switch (y >> 1) { case 0: v= F & FZ; break; case 1: v= F & FC; break; case 2: v= F & FP; break; case 3: v= F & FS; break; } return v == (bool)(y & 1); }
  int rp(int p, int *ix) { switch (p) { case 0: return BC(); case 1: return DE(); case 2: return ix ? *ix : HL(); } return SP; }
  void rp(int p, int *ix, int v) { v&= 0xffff; switch (p) { case 0: BC(v); break; case 1: DE(v); break; case 2: if (ix) *ix= v; else HL(v); break; default: SP= v; } }
  // 8 bit register with the DD/FD replacement
  int g(int n, int *ix) { if (n == 7) return A; if (ix && n == 4) return *ix >> 8; if (ix && n == 5) return *ix & 255; return r[n]; }
  void s(int n, int *ix, int v) { v&= 255; if (n == 7) A= v; else if (ix && n == 4) *ix= (*ix & 255) | v << 8; else if (ix && n == 5) *ix= (*ix & 0xff00) | v; else r[n]= v; }
  void incR() { R= (R & 0x80) | ((R+1) & 0x7f); }
  void cb(int *ix)
  {
    int ea= HL();
    if (ix) { ea= (*ix + (int8_t)f()) & 0xffff; }
    else incR();
    int op= f(), x= op >> 6, y= (op >> 3) & 7, n= op & 7;
    if (ix && n != 6) { skip= true; return; }
    int v= n == 6 ? rd(ea) : g(n, 0);
    t= n == 6 ? (ix ? (x == 1 ? 20 : 23) : (x == 1 ? 12 : 15)) : 8;
    if (x == 1) { bit(y, v); return; }
    int w= x == 0 ? rot(y, v) : x == 2 ? v & ~(1<<y) : v | 1<<y;
    if (n == 6) wr(ea, w); else s(n, 0, w);
  }
  void block(int op)
  {
    int d= op & 8 ? -1 : 1; bool rep= op & 16;
    t= 16;
    switch (op & 3)
      {
      case 0: { wr(DE(), rd(HL())); HL(HL()+d); DE(DE()+d); BC(BC()-1); fl(FH|FN|FP, BC() ? FP : 0); if (rep && BC()) { pc= (pc-2) & 0xffff; t= 21; } return; }
      case 1: { int v= rd(HL()), q= (A-v) & 255; HL(HL()+d); BC(BC()-1);
	  fl(FS|FZ|FH|FN|FP, sz(q) | FN | (BC() ? FP : 0) | ((A&15) < (v&15) ? FH : 0)); if (rep && BC() && q) { pc= (pc-2) & 0xffff; t= 21; } return; }
      case 2: { int v= inp->rd(r[1]); wr(HL(), v); HL(HL()+d); r[0]= (r[0]-1) & 255; fl(FZ|FN, (r[0] ? 0 : FZ) | FN); undefF|= FS|FH|FP|FC|FN;
	  if (rep && r[0]) { pc= (pc-2) & 0xffff; t= 21; } return; }
      case 3: { int v= rd(HL()); r[0]= (r[0]-1) & 255; outp->wr(r[1], v); HL(HL()+d); fl(FZ|FN, (r[0] ? 0 : FZ) | FN); undefF|= FS|FH|FP|FC|FN;
	  if (rep && r[0]) { pc= (pc-2) & 0xffff; t= 21; } return; }
      }
  }
  void ed()
  {
    incR();
    int op= f(), x= op >> 6, y= (op >> 3) & 7, n= op & 7, p= y >> 1;
    if (x == 2 && y >= 4 && n < 4) { block(op); return; }
    if (x != 1) { skip= true; return; }
    switch (n)
      {
      case 0: { if (y == 6) { skip= true; return; } t= 12; int v= inp->rd(r[1]); s(y, 0, v); fl(DOC & ~FC, sz(v) | par(v)); return; }
      case 1: if (y == 6) { skip= true; return; } t= 12; outp->wr(r[1], g(y, 0)); return;
      case 2:
	{
	  t= 15; int h= HL(), b= rp(p, 0), c= F & 1;
	  if (y & 1)
	    { int q= h+b+c, sg= (int16_t)h+(int16_t)b+c; fl(DOC, (q & 0x8000 ? FS : 0) | (q & 0xffff ? 0 : FZ) | ((h&0xfff)+(b&0xfff)+c > 0xfff ? FH : 0) | (sg > 32767 || sg < -32768 ? FP : 0) | (q > 0xffff ? FC : 0)); HL(q); }
	  else
	    { int q= h-b-c, sg= (int16_t)h-(int16_t)b-c; fl(DOC, FN | (q & 0x8000 ? FS : 0) | (q & 0xffff ? 0 : FZ) | ((h&0xfff)-(b&0xfff)-c < 0 ? FH : 0) | (sg > 32767 || sg < -32768 ? FP : 0) | (q < 0 ? FC : 0)); HL(q); }
	  return;
	}
      case 3: { t= 20; int a= f16(); if (y & 1) rp(p, 0, rd16(a)); else wr16(a, rp(p, 0)); return; }
      case 4: if (y) { skip= true; return; } { t= 8; int b= A; A= 0; alu(2, b); return; }
      case 5: if (y > 1) { skip= true; return; } t= 14; pc= pop(); iff1= iff2; return; // on silicon RETI does the same as RETN
      case 6: t= 8; if (y == 0) im= 0; else if (y == 2) im= 1; else if (y == 3) im= 2; else skip= true; return;
      case 7:
	switch (y)
	  {
	  case 0: t= 9; I= A; return;
	  case 1: t= 9; R= A; return;
	  case 2: t= 9; A= I; fl(DOC & ~FC, sz(A) | (iff2 ? FP : 0)); return;
	  case 3: skip= true; return;   // which refresh count LD A,R sees is not specified
	  case 4: { t= 18; int m= rd(HL()); wr(HL(), (A & 15) << 4 | m >> 4); A= (A & 0xf0) | (m & 15); fl(DOC & ~FC, sz(A) | par(A)); return; }
	  case 5: { t= 18; int m= rd(HL()); wr(HL(), (m << 4 | (A & 15)) & 255); A= (A & 0xf0) | m >> 4; fl(DOC & ~FC, sz(A) | par(A)); return; }
	  }
	skip= true; return;
      }
  }
  // the manual tabulates only what a BCD addition or subtraction can leave
  bool daa_defined()
  {
    int c= F & FC, h= F & FH, n= F & FN, lo= A & 15, hi= A >> 4;
    if (!n)
      {
	if (h ? lo > 3 : false) return false;
	if (c) return h ? hi <= 3 : hi <= 2;
	return true;
      }
    if (!c) return h ? hi <= 8 && lo >= 6 : hi <= 9 && lo <= 9;
    return h ? (hi == 6 || hi == 7) && lo >= 6 : hi >= 7 && lo <= 9;
  }
  void daa()
  {
    if (!daa_defined()) { skip= true; return; }
    int c= F & FC, h= F & FH, n= F & FN, lo= A & 15, d= 0, nc= 0, nh;
    if (h || lo > 9) d|= 6;
    if (c || A > 0x99) { d|= 0x60; nc= FC; }
    if (n) { nh= h && lo < 6; A= (A-d) & 255; } else { nh= lo > 9; A= (A+d) & 255; }
    fl(DOC, sz(A) | par(A) | n | nc | (nh ? FH : 0));
  }
  void step()
  {
    t= 4; undefF= 0; halt= skip= self= false; pc0= pc;
    int *ix= 0, extra= 0;
    incR();
    int op= f();
    if (op == 0xdd || op == 0xfd)
      { ix= op == 0xdd ? &IX : &IY; incR(); op= f(); extra= 4; if (op == 0xdd || op == 0xfd || op == 0xed) { skip= true; return; } }
    if (op == 0xcb) { cb(ix); return; }
    if (op == 0xed) { ed(); return; }
    int x= op >> 6, y= (op >> 3) & 7, n= op & 7, p= y >> 1, q= y & 1;
    if (ix)
      {
	// only what uses HL, H, L or (HL) is an instruction of its own
	bool uses= false;
	if (x == 1) uses= op != 0x76 && (n == 6 || y == 6 || n == 4 || n == 5 || y == 4 || y == 5);
	else if (x == 2) uses= n >= 4 && n <= 6;
	else if (x == 0) uses= (n == 1 && (q || p == 2)) || (n == 2 && p == 2) || (n == 3 && p == 2) || (n >= 4 && n <= 6 && y >= 4 && y <= 6);
	else uses= op == 0xe1 || op == 0xe3 || op == 0xe5 || op == 0xe9 || op == 0xf9;
	if (!uses) { skip= true; return; }
      }
    auto ea= [&]() { if (!ix) return HL(); t+= 8; return (*ix + (int8_t)f()) & 0xffff; };
    switch (x)
      {
      case 0:
	switch (n)
	  {
	  case 0:
	    switch (y)
	      {
	      case 0: return;
	      case 1: std::swap(A, aA); std::swap(F, aF); return;
	      case 2: { int d= (int8_t)f(); r[0]= (r[0]-1) & 255; t= 8; if (r[0]) { pc= (pc+d) & 0xffff; t= 13; } return; }
	      case 3: { int d= (int8_t)f(); pc= (pc+d) & 0xffff; t= 12; return; }
	      default: { int d= (int8_t)f(); t= 7; if (cc(y-4)) { pc= (pc+d) & 0xffff; t= 12; } return; }
	      }
	  case 1:
	    if (!q) { rp(p, ix, f16()); t= 10+extra; return; }
	    { int h= rp(2, ix), b= rp(p, ix), s2= h+b; fl(FH|FN|FC, ((h&0xfff)+(b&0xfff) > 0xfff ? FH : 0) | (s2 > 0xffff ? FC : 0)); rp(2, ix, s2); t= 11+extra; return; }
	  case 2:
	    switch (y)
	      {
	      case 0: wr(BC(), A); t= 7; return;
	      case 1: A= rd(BC()); t= 7; return;
	      case 2: wr(DE(), A); t= 7; return;
	      case 3: A= rd(DE()); t= 7; return;
	      case 4: { int a= f16(); wr16(a, rp(2, ix)); t= 16+extra; return; }
	      case 5: { int a= f16(); rp(2, ix, rd16(a)); t= 16+extra; return; }
	      case 6: wr(f16(), A); t= 13; return;
	      case 7: A= rd(f16()); t= 13; return;
	      }
	  case 3: rp(p, ix, rp(p, ix) + (q ? -1 : 1)); t= 6+extra; return;
	  case 4: case 5:
	    if (y == 6) { t= 11+extra; int a= ea(); wr(a, incdec(rd(a), n == 5)); return; }
	    t= 4+extra; s(y, ix, incdec(g(y, ix), n == 5)); return;
	  case 6:
	    if (y == 6) { t= 10+extra; int a= ea(); wr(a, f()); if (ix) t= 19; return; }
	    t= 7+extra; s(y, ix, f()); return;
	  case 7:
	    switch (y)
	      {
	      case 0: { int c= A >> 7; A= (A << 1 | c) & 255; fl(FH|FN|FC, c); return; }
	      case 1: { int c= A & 1; A= A >> 1 | c << 7; fl(FH|FN|FC, c); return; }
	      case 2: { int c= A >> 7; A= (A << 1 | (F&1)) & 255; fl(FH|FN|FC, c); return; }
	      case 3: { int c= A & 1; A= A >> 1 | (F&1) << 7; fl(FH|FN|FC, c); return; }
	      case 4: daa(); return;
	      case 5: A= ~A & 255; fl(FH|FN, FH|FN); return;
	      case 6: fl(FH|FN|FC, FC); return;
	      case 7: fl(FH|FN|FC, F & FC ? FH : FC); return;
	      }
	  }
	return;
      case 1:
	if (op == 0x76) { halt= true; return; }
	if (n == 6) { t= 7+extra; int a= ea(); s(y, 0, rd(a)); return; }
	if (y == 6) { t= 7+extra; int a= ea(); wr(a, g(n, 0)); return; }
	t= 4+extra; s(y, ix, g(n, ix)); return;
      case 2:
	if (n == 6) { t= 7+extra; int a= ea(); alu(y, rd(a)); return; }
	t= 4+extra; alu(y, g(n, ix)); return;
      case 3:
	switch (n)
	  {
	  case 0: t= 5; if (cc(y)) { pc= pop(); t= 11; } return;
	  case 1:
	    if (!q) { t= 10+extra; int v= pop(); if (p == 3) { A= v >> 8; F= v & 255; } else rp(p, ix, v); return; }
	    switch (p)
	      {
	      case 0: t= 10; pc= pop(); return;
	      case 1: for (int i= 0; i < 6; i++) std::swap(r[i], a[i]); return;
	      case 2: t= 4+extra; pc= rp(2, ix); return;
	      case 3: t= 6+extra; SP= rp(2, ix); return;
	      }
	  case 2: { t= 10; int a= f16(); if (cc(y)) pc= a; return; }
	  case 3:
	    switch (y)
	      {
	      case 0: t= 10; pc= f16(); return;
	      case 2: t= 11; outp->wr(f(), A); return;
	      case 3: t= 11; A= inp->rd(f()); return;
	      case 4: { t= 19+extra; int v= rd16(SP); wr16(SP, rp(2, ix)); rp(2, ix, v); return; }
	      case 5: std::swap(r[2], r[4]); std::swap(r[3], r[5]); return;
	      case 6: iff1= iff2= 0; return;
	      case 7: iff1= iff2= 1; return;
	      }
	  case 4: { int a= f16(); t= 10; if (cc(y)) { push(pc); pc= a; t= 17; } return; }
	  case 5:
	    if (!q) { t= 11+extra; push(p == 3 ? A << 8 | F : rp(p, ix)); return; }
	    { int a= f16(); t= 17; push(pc); pc= a; return; }
	  case 6: t= 7; alu(y, f()); return;
	  case 7: t= 11; push(pc); pc= y*8; return;
	  }
      }
  }
};
static MZ m;

static void prep(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  memset((void*)&m, 0, sizeof m);
  t_regs &r= z->regs;
  uc->PC= m.pc= c[cPC];
  r.raf.A= m.A= c[cA]; r.raf.F= m.F= c[cF];
  int v[6]= { (int)c[cB], (int)c[cC], (int)c[cD], (int)c[cE], (int)c[cH], (int)c[cL] };
  for (int i= 0; i < 6; i++) m.r[i]= v[i];
  r.bc.h= v[0]; r.bc.l= v[1]; r.de.h= v[2]; r.de.l= v[3]; r.hl.h= v[4]; r.hl.l= v[5];
  r.IX= m.IX= c[cIX]; r.IY= m.IY= c[cIY]; r.SP= m.SP= c[cSP];
  r.R= m.R= c[cR]; r.iv= m.I= c[cI];
  z->IFF1= m.iff1= c[cIFF] & 1; z->IFF2= m.iff2= (c[cIFF] >> 1) & 1; z->imode= m.im= 0;
  m.aA= 0x3c; m.aF= 0x81; int al[6]= { 0x91, 0xa2, 0xb3, 0xc4, 0xd5, 0xe6 };
  for (int i= 0; i < 6; i++) m.a[i]= al[i];
  r.ralt_af.aA= m.aA; r.ralt_af.aF= m.aF; r.aBC= 0x91a2; r.aDE= 0xb3c4; r.aHL= 0xd5e6;
  if (c[cXA] >= 0) ram->poke(c[cXA], c[cXV]);
  for (int i= 0; i < 10; i++) if (c[cI0+i] >= 0) ram->poke((c[cPC]+i) & 0xffff, c[cI0+i]);
}

static std::string opname(int pc)
{
  int b[4]; for (int i= 0; i < 4; i++) b[i]= ram->ref[(pc+i) & 0xffff];
  if (b[0] == 0xdd || b[0] == 0xfd) return b[1] == 0xcb ? strf("op%02xcb%02x:", b[0], b[3]) : strf("op%02x%02x:", b[0], b[1]);
  if (b[0] == 0xcb || b[0] == 0xed) return strf("op%02x%02x:", b[0], b[1]);
  return strf("op%02x:", b[0]);
}

static void one(const long *c)
{
  prep(c);
  for (int i= 0; i < c[cNI]; i++)
    {
      std::string pre, nm= opname(m.pc);
      int b0= ram->ref[m.pc], b1= ram->ref[(m.pc+1) & 0xffff];
      MZ before= m;
      m.step();
      if (m.self) { for (Space *s: ls.spaces) s->dirtyall= true; counter("overwrites itself, skipped")++; return; }
      if (m.skip) { for (Space *s: ls.spaces) s->dirtyall= true; counter("not documented, skipped")++; return; }
      if (m.A != before.A || m.F != before.F || memcmp(m.r, before.r, sizeof m.r) || m.SP != before.SP || m.IX != before.IX || m.IY != before.IY || m.iff1 != before.iff1 || m.im != before.im || m.I != before.I || m.aA != before.aA ||
	  ((m.pc - before.pc) & 0xffff) > 4) nontrivial= true;
      u64 t0= uc->ticks->get_ticks();
      int res= uc->do_inst();
      u64 dt= uc->ticks->get_ticks() - t0;
      t_regs &r= z->regs;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= nm;
	fail(pre+what, "%s is %x, should be %x after instruction %d of PC=%04lx A=%02lx F=%02lx BC=%02lx%02lx DE=%02lx%02lx HL=%02lx%02lx IX=%04lx IY=%04lx SP=%04lx bytes %02x %02x %02lx %02lx", what, got, want, i,
	     c[cPC], c[cA], c[cF], c[cB], c[cC], c[cD], c[cE], c[cH], c[cL], c[cIX], c[cIY], c[cSP], b0, b1, c[cI0+2], c[cI0+3]);
      };
      if (r.raf.A != m.A) bad("A", r.raf.A, m.A);
      int mask= DOC & ~m.undefF;
      if ((r.raf.F ^ m.F) & mask) bad("F", r.raf.F & mask, m.F & mask);
      if (r.BC != m.BC()) bad("BC", r.BC, m.BC());
      if (r.DE != m.DE()) bad("DE", r.DE, m.DE());
      if (r.HL != m.HL()) bad("HL", r.HL, m.HL());
      if (r.IX != m.IX) bad("IX", r.IX, m.IX);
      if (r.IY != m.IY) bad("IY", r.IY, m.IY);
      if (r.SP != m.SP) bad("SP", r.SP, m.SP);
      if (r.iv != m.I) bad("I", r.iv, m.I);
      m.R= r.R;     // how many refreshes an instruction takes is not compared
      if (r.ralt_af.aA != m.aA) bad("A'", r.ralt_af.aA, m.aA);
      if ((r.ralt_af.aF ^ m.aF) & DOC) bad("F'", r.ralt_af.aF, m.aF);
      if (r.aBC != (m.a[0]<<8|m.a[1])) bad("BC'", r.aBC, m.a[0]<<8|m.a[1]);
      if (r.aDE != (m.a[2]<<8|m.a[3])) bad("DE'", r.aDE, m.a[2]<<8|m.a[3]);
      if (r.aHL != (m.a[4]<<8|m.a[5])) bad("HL'", r.aHL, m.a[4]<<8|m.a[5]);
      if (z->IFF1 != m.iff1) bad("IFF1", z->IFF1, m.iff1);
      if (z->IFF2 != m.iff2) bad("IFF2", z->IFF2, m.iff2);
      if (z->imode != m.im) bad("IM", z->imode, m.im);
      if (uc->PC != (t_addr)m.pc) bad("PC", uc->PC, m.pc);
      if (dt != (u64)m.t) bad("T", dt, m.t);
      if (m.halt != (res == resHALT)) bad("halt", res, m.halt);
      uint32_t at;
      for (Space *s: ls.spaces)
	if (!s->same(&at)) bad(s->name, at*256+s->real[at], at*256+s->ref[at]);
      if (m.halt || !pre.empty()) break;
      m.F= r.raf.F; m.aF= r.ralt_af.aF;    // bits 3 and 5 and the undefined ones
    }
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}

static void setup()
{
  sim_start({"-t", "Z80"});
  z= (cl_z80*)uc;
  var("sp_limit")->write(0);
  ram= mkspace("rom_chip", 0x10000, 1);
  inp= mkspace("in_chip", 0x10000, 2);
  outp= mkspace("out_chip", 0x10000, 3);
  ls.n= NC; ls.one= one; ls.spaces= { ram, inp, outp };
}

static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[cPC]= 0x1234; c[cA]= 0x5a; c[cF]= 0; c[cB]= 0x81; c[cC]= 0x92; c[cD]= 0xa3; c[cE]= 0xb4; c[cH]= 0xc5; c[cL]= 0xd6;
  c[cIX]= 0x6789; c[cIY]= 0x789a; c[cSP]= 0x9abc; c[cR]= 0x7e; c[cI]= 0x55; c[cIFF]= 2; c[cNI]= 1;
}

// all the instruction byte patterns: prefix, opcode
struct Op { int n; int b[4]; int opat; };
static std::vector<Op> mc_ops;
static void mkops()
{
  std::vector<Op> all, &ops= all;
  for (int o= 0; o < 256; o++) if (o != 0xcb && o != 0xdd && o != 0xed && o != 0xfd) ops.push_back({1, {o}, 0});
  for (int o= 0; o < 256; o++) ops.push_back({2, {0xcb, o}, 1});
  for (int o= 0; o < 256; o++) ops.push_back({2, {0xed, o}, 1});
  for (int o= 0; o < 256; o++) for (int p: { 0xdd, 0xfd })
      { if (o != 0xcb) ops.push_back({2, {p, o}, 1}); if ((o & 7) == 6) ops.push_back({4, {p, 0xcb, 0x85, o}, 3}); }
  // keep what the model knows
  for (auto &o: all)
    {
      for (int i= 0; i < 4; i++) ram->poke(0x100+i, i < o.n ? o.b[i] : 0x40);
      memset((void*)&m, 0, sizeof m); m.pc= 0x100; m.F= FN; m.r[4]= m.r[2]= 0x70; m.IX= m.IY= m.SP= 0x7000;
      m.step();
      if (!m.skip || (o.n == 1 && o.b[0] == 0x27)) mc_ops.push_back(o);
      for (Space *s: ls.spaces) s->restore();
    }
}

// puts v into the place the instruction's source operand is read from
static void operand(long *c, const Op &o, int v)
{
  int op= o.b[o.opat], p= o.b[0];
  int n= (op >= 0x40 || p == 0xcb || p == 0xed) ? op & 7 : (op >> 3) & 7;
  c[cI0+o.n]= v; c[cI0+o.n+1]= v ^ 0x33;
  if (p == 0xdd || p == 0xfd)
    {
      int ixi= p == 0xdd ? cIX : cIY;
      if (n == 4) c[ixi]= (c[ixi] & 255) | v << 8;
      if (n == 5) c[ixi]= (c[ixi] & 0xff00) | v;
      if (o.n == 4) { c[cXA]= (c[ixi] + (int8_t)o.b[2]) & 0xffff; c[cXV]= v; c[cI0+4]= -1; }
      else if (n == 6) { c[cI0+2]= 0x7b; c[cXA]= (c[ixi] + 0x7b) & 0xffff; c[cXV]= v; c[cI0+3]= v ^ 0x33; }
      if (n < 4 && o.n == 2) c[cB+n]= v;
      return;
    }
  if (n < 6) c[cB+n]= v;
  if (n == 7) ;
  if (n == 6 || p == 0xed) { c[cXA]= c[cH] << 8 | c[cL]; c[cXV]= v; }
}

void mc::harness_run()
{
  setup(); mkops();
  Split sp;
  long c[NC];
  // 1. A x operand x flags
  for (auto &o: mc_ops)
    for (int fl= 0; fl < 16; fl++)
      {
	if (!sp.mine()) continue;
	int op= o.b[o.opat];
	bool arith= o.n == 1 ? (op & 0xc0) == 0x80 || (op & 0xc7) == 0xc6 || op == 0x27
	  : o.b[0] == 0xed ? (op & 0xc7) == 0x42 || (op & 0xe5) == 0xa1 || (op & 0xf7) == 0x67 : o.b[0] == 0xdd && o.n == 2 && (op & 0xc7) == 0x86;
	int f= (fl&1 ? FC : 0) | (fl&2 ? FH : 0) | (fl&4 ? FN : 0) | (fl&8 ? FZ|FP : FS);
	for (int a= 0; a < 256; a++)
	  for (int v= 0; v < 256; v++)
	    {
	      bool full= thorough || (fl < (o.b[0] == 0xdd ? 1 : 2) && arith) || a == v;
	      if (!full && ((a + v*3 + fl) % 19) ) continue;
	      std_case(c);
	      for (int i= 0; i < o.n; i++) c[cI0+i]= o.b[i];
	      c[cA]= a; c[cF]= f; operand(c, o, v); c[cIFF]= fl & 3;
	      c[cI]= v; c[cR]= v;
	      if (o.b[0] == 0xed && (o.b[1] & 0xc0) == 0x80)
		{
		  c[cB]= (v & 15) == 3 ? 0 : (v & 15) == 4 ? 1 : (v >> 4) ^ a; c[cC]= (v & 48) == 16 ? 1 : (v & 48) == 32 ? 0 : a;
		  if (c[cXA] >= 0 && a < 8) c[cXV]= a;
		  if (c[cB] == 0 && (a & 1)) c[cC]= 1;
		}
	      if (o.b[0] == 0xed && (o.b[1] & 0xc7) == 0x42) // 16 bit arithmetic
		{ c[cH]= a; c[cL]= v & 1 ? 0xff : 0x01; int q= v ^ 0x80; c[cB]= c[cD]= q; c[cC]= c[cE]= v & 2 ? 0xfe : 0xff; c[cSP]= (v << 8) | (v & 3); }
	      if (o.n <= 2 && (o.b[o.opat] & 0xcf) == 0x09)
		{ c[cH]= a; c[cL]= v & 1 ? 0xff : 0x01; c[cB]= c[cD]= v; c[cC]= c[cE]= v & 2 ? 0xff : 0x00; c[cSP]= (v << 8) | (v & 3 ? 0xff : 0); c[cIX]= a << 8 | (v & 1 ? 0xff : 0); c[cIY]= c[cIX] ^ 0x80; }
	      ls.run(c);
	    }
      }
  // 2. address, stack and displacement wrap-around, at varied PC
  static const int PCS[]= { 0, 0x00fe, 0x7ffe, 0x7fff, 0x8000, 0xff80, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x1000 };
  static const int W[]= { 0, 1, 0x00ff, 0x0100, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 0x4321, 0x0080, 0xff7f };
  for (auto &o: mc_ops)
    for (int pc: PCS)
      {
	if (!sp.mine()) continue;
	for (int wi= 0; wi < 12; wi++)
	  for (int d= 0; d < 256; d+= (thorough ? 1 : (wi < 2 ? 1 : 5)))
	    for (int k= 0; k < 2; k++)
	      {
		std_case(c);
		c[cPC]= pc; int w= W[wi], u= W[(wi + d) % 12];
		for (int i= 0; i < o.n; i++) c[cI0+i]= o.b[i];
		if (o.n == 4) c[cI0+2]= d; else { c[cI0+o.n]= k ? d : u & 255; c[cI0+o.n+1]= k ? d ^ 0x5a : u >> 8; }
		c[cIX]= w; c[cIY]= u; c[cH]= w >> 8; c[cL]= w & 255; c[cSP]= W[(wi*5 + d) % 12];
		c[cB]= u >> 8; c[cC]= u & 255; c[cD]= (W[(wi+3) % 12]) >> 8; c[cE]= W[(wi+3) % 12] & 255;
		c[cF]= noise(d, wi*2+k) & DOC; c[cA]= noise(d, wi*2+k+99);
		ls.run(c);
	      }
      }
  // 3. ordered pairs
  for (auto &o: mc_ops)
    {
      if (!sp.mine()) continue;
      for (auto &o2: mc_ops)
	for (int k= 0; k < (thorough ? 8 : 1); k++)
	  {
	    std_case(c);
	    c[cNI]= 2;
	    int at= cI0;
	    for (int i= 0; i < o.n; i++) c[at++]= o.b[i];
	    int op= o.b[o.opat];
	    if (o.n <= 2 && o.b[0] != 0xcb)
	      {
		bool px= o.b[0] == 0xdd || o.b[0] == 0xfd, ed= o.b[0] == 0xed;
		int tgt= c[cPC] + (at - cI0) + 2;
		if (ed) { if ((op & 0xc7) == 0x43) { c[at++]= 0x45 + k; c[at++]= 0x67; } }
		else if (op == 0x10 || (op & 0xe7) == 0x20 || op == 0x18) c[at++]= 0;
		else if ((op & 0xc7) == 6 || (op & 0xc7) == 0xc6 || op == 0xd3 || op == 0xdb) { if (px && op == 0x36) c[at++]= 0x11; c[at++]= noise(op, k); }
		else if ((op & 0xc7) == 0xc2 || op == 0xc3 || (op & 0xc7) == 0xc4 || op == 0xcd || (op & 0xcf) == 1 || (op & 0xe7) == 0x22)
		  { c[at++]= tgt & 255; c[at++]= tgt >> 8; }
		else if (px && (((op & 0xc7) == 0x46 && op != 0x76) || (op & 0xf8) == 0x70 || (op & 0xc7) == 0x86 || op == 0x34 || op == 0x35)) c[at++]= 0x83;
	      }
	    int seed2= (&o - &mc_ops[0])*1500 + (&o2 - &mc_ops[0]);
	    for (int i= 0; i < o2.n && at < NC; i++) c[at++]= o2.b[i];
	    c[cA]= noise(seed2, k); c[cF]= noise(seed2, k+20) & DOC; c[cB]= 1+(noise(seed2, k+40) & 3); c[cC]= noise(seed2, k+60);
	    // returns and computed jumps come to the second instruction
	    int i2= c[cPC] + (int)(o.n <= 2 ? 0 : 0);
	    if ((op & 0xc7) == 0xc0 || op == 0xc9 || (o.b[0] == 0xed && (op & 0xc7) == 0x45)) { c[cXA]= c[cSP]; c[cXV]= (i2 + o.n) & 255; }
	    ls.run(c);
	    counter("instruction pairs")++;
	  }
    }
}

void mc::harness_replay(const Case &c0)
{
  setup();
  Case c= c0; c.resize(NC, -1);
  ls.run(c.data());
}
