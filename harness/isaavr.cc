/* AVR: every documented instruction the simulator implements, against a model written from the AVR
   instruction set manual. Clock counts are not compared. */
#include "isa.h"
#include "avrcl.h"
#include <map>
using namespace mc;
int mc::harness_default_shards= 0;
static Space *ram, *rom; static cl_avr *u; static Lockstep ls;
enum { kPC, kSEED, kSREG, kSP, kNI, kXA, kXV= kXA + 12, kI0= kXV + 12, NC= kI0 + 8 };
enum { kSPL= 0x5d, kSPH= 0x5e, kSR= 0x5f };
enum { C= 1, Z= 2, N= 4, V= 8, S= 16, H= 32, T= 64, I= 128 };
struct AVR
{
  int pc, cls, dat; bool skip;
  int r(int i) { return ram->rd(i); }
  void w(int i, int v) { ram->wr(i, v & 255); }
  int code(int a) { a= (a & 0xffff) * 2; return rom->rd(a) | rom->rd(a + 1) << 8; }
  int f() { int v= code(pc); pc= (pc + 1) & 0xffff; return v; }
  int sr() { return r(kSR); }
  void sets(int mask, int v) { w(kSR, (sr() & ~mask) | (v & mask)); }
  int sp() { return r(kSPH) << 8 | r(kSPL); }
  void ssp(int v) { w(kSPL, v); w(kSPH, v >> 8); }
  void st(int a, int v) { if (dat < 0) dat= a; if (a > 0xffff) skip= true; else w(a, v); }
  int ld(int a) { if (dat < 0) dat= a; if (a > 0xffff) { skip= true; return 0; } return r(a); }
  void push(int v) { int s= sp(); if (s == kSPL || s == kSPH) skip= true; st(s, v); ssp(s - 1); }
  int pop() { int s= (sp() + 1) & 0xffff; if (s == kSPL || s == kSPH) skip= true; ssp(s); return ld(s); }
  void call(int a) { push(pc); push(pc >> 8); pc= a & 0xffff; }
  void ret() { int h= pop(); pc= h << 8 | pop(); }
  void nzs(int x, int v) { int n= x >> 7 & 1; sets(N|V|S|Z, (n ? N : 0) | (v ? V : 0) | (n != v ? S : 0) | (x & 255 ? 0 : Z)); }
  int add(int a, int b, int c)
  {
    int x= a + b + c; int s= (signed char)a + (signed char)b + c;
    nzs(x & 255, s != (signed char)s);
    sets(C|H, (x > 255 ? C : 0) | ((a & 15) + (b & 15) + c > 15 ? H : 0));
    return x & 255;
  }
  int sub(int a, int b, int c, bool keepz)
  {
    int x= a - b - c, s= (signed char)a - (signed char)b - c, z= sr() & Z;
    nzs(x & 255, s != (signed char)s);
    sets(C|H, (x < 0 ? C : 0) | ((a & 15) - (b & 15) - c < 0 ? H : 0));
    if (keepz && !z) sets(Z, 0);
    return x & 255;
  }
  int shr(int a, int top)
  {
    int x= a >> 1 | top, c= a & 1, n= x >> 7;
    nzs(x, n != c); sets(C, c ? C : 0); return x;
  }
  int size(int o) { return (o & 0xfe0e) == 0x940c || (o & 0xfe0e) == 0x940e || (o & 0xfc0f) == 0x9000 ? 2 : 1; }
  void over() { pc= (pc + size(code(pc))) & 0xffff; }
  // pointer of a load or store: base register, -1/0/1
  int ptr(int b, int how, int reg)
  {
    int p= r(b + 1) << 8 | r(b);
    if (how < 0) p= (p - 1) & 0xffff;
    int a= p;
    if (how > 0) p= (p + 1) & 0xffff;
    if (how) { w(b, p); w(b + 1, p >> 8); if ((reg & ~1) == b || (a & ~1) == b) skip= true; }
    return a;
  }
  void step()
  {
    dat= -1; cls= 0; skip= false;
    int o= f(), d= o >> 4 & 31, rr= (o & 15) | (o >> 5 & 16), D= 16 + (o >> 4 & 15), K= (o & 15) | (o >> 4 & 0xf0);
    int c= sr() & C, q= (o & 7) | (o >> 7 & 0x18) | (o >> 8 & 0x20);
    auto is= [&](int mask, int val) { if ((o & mask) != val) return false; cls= val | 1 << 16; return true; };
    if (is(0xffff, 0)) return;
    if (is(0xfc00, 0x0400)) { sub(r(d), r(rr), c, true); return; }
    if (is(0xfc00, 0x0800)) { w(d, sub(r(d), r(rr), c, true)); return; }
    if (is(0xfc00, 0x0c00)) { w(d, add(r(d), r(rr), 0)); return; }
    if (is(0xfc00, 0x1000)) { if (r(d) == r(rr)) over(); return; }
    if (is(0xfc00, 0x1400)) { sub(r(d), r(rr), 0, false); return; }
    if (is(0xfc00, 0x1800)) { w(d, sub(r(d), r(rr), 0, false)); return; }
    if (is(0xfc00, 0x1c00)) { w(d, add(r(d), r(rr), c)); return; }
    if (is(0xfc00, 0x2000)) { int x= r(d) & r(rr); w(d, x); nzs(x, 0); return; }
    if (is(0xfc00, 0x2400)) { int x= r(d) ^ r(rr); w(d, x); nzs(x, 0); return; }
    if (is(0xfc00, 0x2800)) { int x= r(d) | r(rr); w(d, x); nzs(x, 0); return; }
    if (is(0xfc00, 0x2c00)) { w(d, r(rr)); return; }
    if (is(0xf000, 0x3000)) { sub(r(D), K, 0, false); return; }
    if (is(0xf000, 0x4000)) { w(D, sub(r(D), K, c, true)); return; }
    if (is(0xf000, 0x5000)) { w(D, sub(r(D), K, 0, false)); return; }
    if (is(0xf000, 0x6000)) { int x= r(D) | K; w(D, x); nzs(x, 0); return; }
    if (is(0xf000, 0x7000)) { int x= r(D) & K; w(D, x); nzs(x, 0); return; }
    if (is(0xf000, 0xe000)) { w(D, K); return; }
    if (is(0xd208, 0x8000)) { w(d, ld(ptr(30, 0, d) + q)); return; }
    if (is(0xd208, 0x8008)) { w(d, ld(ptr(28, 0, d) + q)); return; }
    if (is(0xd208, 0x8200)) { st(ptr(30, 0, d) + q, r(d)); return; }
    if (is(0xd208, 0x8208)) { st(ptr(28, 0, d) + q, r(d)); return; }
    if (is(0xfe0f, 0x9000)) { w(d, ld(f())); return; }
    if (is(0xfe0f, 0x9200)) { st(f(), r(d)); return; }
    static const struct { int code, base, how; } P[]= { {1, 30, 1}, {2, 30, -1}, {9, 28, 1}, {10, 28, -1}, {12, 26, 0}, {13, 26, 1}, {14, 26, -1} };
    for (auto &p: P)
      {
	if (is(0xfe0f, 0x9000 | p.code)) { int v= ld(ptr(p.base, p.how, d)); w(d, v); return; }
	if (is(0xfe0f, 0x9200 | p.code)) { int v= r(d); st(ptr(p.base, p.how, d), v); return; }
      }
    if (is(0xfe0f, 0x900f)) { w(d, pop()); return; }
    if (is(0xfe0f, 0x920f)) { push(r(d)); return; }
    if (is(0xfe0f, 0x9400)) { int x= r(d) ^ 255; w(d, x); nzs(x, 0); sets(C, C); return; }
    if (is(0xfe0f, 0x9401)) { w(d, sub(0, r(d), 0, false)); return; }
    if (is(0xfe0f, 0x9402)) { int x= r(d); w(d, x << 4 | x >> 4); return; }
    if (is(0xfe0f, 0x9403)) { int x= (r(d) + 1) & 255; w(d, x); nzs(x, x == 0x80); return; }
    if (is(0xfe0f, 0x9405)) { int x= r(d); w(d, shr(x, x & 0x80)); return; }
    if (is(0xfe0f, 0x9406)) { w(d, shr(r(d), 0)); return; }
    if (is(0xfe0f, 0x9407)) { w(d, shr(r(d), c << 7)); return; }
    if (is(0xfe0f, 0x940a)) { int x= (r(d) - 1) & 255; w(d, x); nzs(x, x == 0x7f); return; }
    if (is(0xff8f, 0x9408)) { sets(1 << (d & 7), 255); return; }
    if (is(0xff8f, 0x9488)) { sets(1 << (d & 7), 0); return; }
    if (is(0xffff, 0x9508)) { ret(); return; }
    if (is(0xffff, 0x9518)) { ret(); sets(I, I); return; }
    if (is(0xffff, 0x9409)) { pc= ptr(30, 0, 0); return; }
    if (is(0xffff, 0x9509)) { int z= ptr(30, 0, 0); if (sp() >= 29 && sp() < 33) skip= true; call(z); return; }
    if (is(0xffff, 0x95c8)) { int z= ptr(30, 0, 0); w(0, rom->rd(z)); return; }
    if (is(0xfe0e, 0x940c)) { if (o & 0x1f1) skip= true; pc= f(); return; }
    if (is(0xfe0e, 0x940e)) { if (o & 0x1f1) skip= true; int a= f(); call(a); return; }
    if (is(0xfe00, 0x9600))
      {
	int b= 24 + (o >> 3 & 6), k= (o & 15) | (o >> 2 & 0x30), a= r(b + 1) << 8 | r(b); bool m= o & 0x100;
	int x= m ? a - k : a + k, n= x >> 15 & 1, v= m ? (a & ~x) >> 15 & 1 : (~a & x) >> 15 & 1;
	w(b, x); w(b + 1, x >> 8);
	sets(N|V|S|Z|C, (n ? N : 0) | (v ? V : 0) | (n != v ? S : 0) | (x & 0xffff ? 0 : Z) | (x < 0 || x > 0xffff ? C : 0));
	return;
      }
    if (is(0xfc00, 0x9800))
      {
	int a= 0x20 + (o >> 3 & 31), b= 1 << (o & 7), v= r(a); dat= a; cls= 1 << 16 | (o & 0xff00);
	switch (o >> 8 & 3)
	  {
	  case 0: w(a, v & ~b); break;
	  case 1: if (!(v & b)) over(); break;
	  case 2: w(a, v | b); break;
	  case 3: if (v & b) over(); break;
	  }
	return;
      }
    if (is(0xfc00, 0x9c00)) { int x= r(d) * r(rr); w(0, x); w(1, x >> 8); sets(C|Z, (x & 0x8000 ? C : 0) | (x ? 0 : Z)); return; }
    if (is(0xf800, 0xb000)) { int a= 0x20 + ((o & 15) | (o >> 5 & 0x30)); w(d, ld(a)); return; }
    if (is(0xf800, 0xb800)) { int a= 0x20 + ((o & 15) | (o >> 5 & 0x30)); st(a, r(d)); return; }
    if (is(0xf000, 0xc000)) { pc= (pc + ((o & 0xfff) ^ 0x800) - 0x800) & 0xffff; return; }
    if (is(0xf000, 0xd000)) { call(pc + ((o & 0xfff) ^ 0x800) - 0x800); return; }
    if (is(0xf800, 0xf000))
      {
	bool t= sr() & 1 << (o & 7); cls|= o & 0x400;
	if (t == !(o & 0x400)) pc= (pc + ((o >> 3 & 0x7f) ^ 0x40) - 0x40) & 0xffff;
	return;
      }
    if (is(0xfe08, 0xf800)) { int b= 1 << (o & 7), x= r(d); w(d, sr() & T ? x | b : x & ~b); return; }
    if (is(0xfe08, 0xfa00)) { sets(T, r(d) >> (o & 7) & 1 ? T : 0); return; }
    if (is(0xfe08, 0xfc00)) { if (!(r(d) & 1 << (o & 7))) over(); return; }
    if (is(0xfe08, 0xfe00)) { if (r(d) & 1 << (o & 7)) over(); return; }
    skip= true; cls= 0;
  }
} static m;
static void load(const long *c)
{
  for (int i= 0; i < 32; i++) ram->poke(i, noise(i, c[kSEED]));
  ram->poke(kSPL, c[kSP] & 255); ram->poke(kSPH, c[kSP] >> 8); ram->poke(kSR, c[kSREG]);
  for (int i= 0; i < 12; i++) if (c[kXA + i] >= 0) ram->poke(c[kXA + i], c[kXV + i]);
  for (int i= 0; i < NC - kI0; i++) if (c[kI0 + i] >= 0)
    { int a= (c[kPC] + i & 0xffff) * 2; rom->poke(a, c[kI0 + i]); rom->poke(a + 1, c[kI0 + i] >> 8); }
  m.pc= c[kPC];
}
static void one(const long *c)
{
  for (Space *s: ls.spaces) s->restore();
  load(c);
  u->state= stGO; u->PC= c[kPC];
  std::string pre;
  for (int k= 0; k < c[kNI]; k++)
    {
      int p0= m.pc, o= m.code(p0);
      m.step();
      if (m.skip) return;
      u->do_inst();
      shm->transitions++;
      auto bad= [&](const char *what, int got, int want)
      {
	pre= strf("%04x:%s", m.cls & 0xffff, what);
	fail(pre, "%s is %x, should be %x after instruction %d (%04x at %04x) of PC=%04lx SREG=%02lx SP=%04lx r%d=%02lx r%d=%02lx registers %ld", what, got, want, k + 1, o, p0,
	     c[kPC], c[kSREG], c[kSP], (int)c[kXA], c[kXV], (int)c[kXA + 1], c[kXV + 1], c[kSEED]);
      };
      if (u->PC != (t_addr)m.pc) bad("PC", u->PC, m.pc);
      if (u->state != stGO) bad("state", u->state, stGO);
      uint32_t at;
      for (Space *s: ls.spaces)
	if (!s->same(&at)) bad(s == rom ? "program memory" : at < 32 ? "register" : at == kSR ? "SREG" : "memory", at * 256 + s->real[at], at * 256 + s->ref[at]);
      if (!pre.empty()) break;
    }
  u->state= stGO;
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->errors && uc->errors->count) uc->errors->free_all();
}
static void setup()
{
  sim_start({ "-t", "AVR" });
  u= (cl_avr*)uc;
  ram= mkspace("iram_chip", 0x10000, 1);
  rom= new Space; rom->name= "rom_chip"; rom->real= (uint8_t*)((cl_memory_chip*)chip_of(uc->rom))->get_slot(0); rom->size= 0x20000;
  rom->ref.resize(rom->size); rom->init.resize(rom->size); rom->logged.assign(rom->size, 0); rom->dirtyall= false;
  for (uint32_t i= 0; i < rom->size; i++) rom->init[i]= noise(i, 2);
  memcpy(rom->real, rom->init.data(), rom->size); rom->ref= rom->init;
  if (rom->rd(2) != (uc->rom->get(1) & 255)) (fprintf(stderr, "byte order\n"), exit(3));
  ls.n= NC; ls.one= one; ls.spaces= { ram, rom };
}
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[kPC]= 0x1234; c[kSEED]= 1; c[kSREG]= 0; c[kSP]= 0x0456; c[kNI]= 1;
}
static void reg(long *c, int a, int v) { int i= 0; while (i < 12 && c[kXA + i] >= 0) i++; if (i == 12) (fprintf(stderr, "too many\n"), exit(3)); c[kXA + i]= a; c[kXV + i]= v & 255; }
static std::vector<int> codes;                       // every documented code word
static std::map<int, std::vector<int>> classes;      // by instruction
static void mkops()
{
  for (int o= 0; o < 0x10000; o++)
    {
      long c[NC]; bool ok= false;
      for (int k= 0; k < 2; k++)
	{
	  std_case(c); c[kI0]= o; c[kI0 + 1]= 0x0123; c[kSEED]= k + 1; c[26]= 0;
	  load(c); ram->poke(27, 3); ram->poke(29, 4); ram->poke(31, 5);
	  m.step(); if (!m.skip) ok= true;
	  int cl= m.cls; ram->restore(); rom->restore();
	  if (ok) { codes.push_back(o); classes[cl].push_back(o); break; }
	}
    }
  counter("instructions")= shard ? 0 : classes.size();
  counter("code words")= shard ? 0 : codes.size();
}
static bool pointers(long *c, int s)
{ for (int b: { 27, 29, 31 }) { bool given= false; for (int i= 0; i < 12; i++) given|= c[kXA + i] == b; if (!given) reg(c, b, 1 + noise(s, b) % 0xfe); } return true; }
void mc::harness_run()
{
  setup(); mkops();
  Split sp; long c[NC];
  static const int FL[]= { 0, C|Z, Z|H|T, 0xff, C, V|N|S, C|H|T|I, N|Z };
  // 1. every pair of values in registers, with every immediate operand
  for (auto &cl: classes)
    {
      std::vector<int> os= { cl.second[cl.second.size() / 3] }; int o0= os[0];
      if (cl.second.size() > 1) { os.push_back(cl.second.back()); os.push_back(cl.second[cl.second.size() * 2 / 3]); }
      for (int o: os) for (int f= 0; f < 8; f++)
	{
	  if (!sp.mine()) continue;
	  if (o != o0 && f > 1 && !thorough) continue;
	  for (int a= 0; a < 256; a++) for (int v= 0; v < 256; v++)
	    {
	      std_case(c); c[kSREG]= FL[f]; c[kI0]= o;
	      int d= o >> 4 & 31, rr= (o & 15) | (o >> 5 & 16);
	      if (o >= 0x3000 && o < 0x8000) { c[kI0]= (o & 0xf0f0) | (v & 15) | (v & 0xf0) << 4; reg(c, 16 + (o >> 4 & 15), a); }
	      else if ((o & 0xfe00) == 0x9600) { int b= 24 + (o >> 3 & 6); reg(c, b, v); reg(c, b + 1, a); }
	      else if ((o & 0xfc00) == 0x9800) { reg(c, 0x20 + (o >> 3 & 31), a); c[kI0 + 1]= v * 257; }
	      else if (o < 0x3000 || (o & 0xfc00) == 0x9c00) { reg(c, d, a); if (rr != d) reg(c, rr, v); }
	      else { reg(c, d, a); if (d != 26 && d != 28 && d != 30) { reg(c, 26, v); reg(c, 28, v); reg(c, 30, v); } c[kI0 + 1]= v << 8 | a; }
	      pointers(c, f);
	      ls.run(c);
	    }
	}
    }
  // 2. every code word
  for (int o: codes)
    {
      if (!sp.mine()) continue;
      for (int k= 0; k < (thorough ? 64 : 12); k++)
	{
	  std_case(c); c[kI0]= o; c[kSEED]= 2 + noise(o, k) % 64; c[kSREG]= noise(o + k, 5); c[kPC]= k & 1 ? 0x1000 + noise(o, k + 9) : k & 2 ? 0xfffe + (k >> 2 & 1) : noise(o, k + 3) & 3;
	  c[kI0 + 1]= noise(o, k + 13) << 8 | noise(o, k + 17); c[kSP]= noise(o, k + 8) | noise(o, k + 33) << 8;
	  ls.run(c);
	}
    }
  // 3. addresses: pointers over the registers, the I/O registers, page limits
  for (auto &cl: classes)
    {
      if (!sp.mine()) continue;
      for (int o: { cl.second[0], cl.second[cl.second.size() / 2], cl.second.back() })
	for (int p= 0; p < 0x10000; p+= p < 0x120 || p > 0xff80 || (p & 0xff) == 0xff ? 1 : thorough ? 7 : 51) for (int k= 0; k < 3; k++)
	  {
	    std_case(c); c[kI0]= o; c[kI0 + 1]= p; c[kSP]= k ? p : 0x300; c[kSEED]= k + 5; c[kSREG]= noise(p, k);
	    for (int b: { 26, 28, 30 }) { reg(c, b, p); reg(c, b + 1, p >> 8); }
	    ls.run(c); counter("pointer values")++;
	  }
    }
  // 4. jumps, branches, skips: every displacement, around the ends of the program memory, over every instruction
  for (int o: codes)
    {
      bool br= (o & 0xe000) == 0xc000 || (o & 0xf800) == 0xf000;
      if (!br || !sp.mine()) continue;
      for (int pc: { 0, 1, 0x3f, 0x7ff, 0x800, 0x801, 0x8000, 0xf7ff, 0xffbf, 0xfffe, 0xffff }) for (int k= 0; k < 4; k++)
	{ std_case(c); c[kPC]= pc; c[kI0]= o; c[kSREG]= k < 2 ? k * 255 : noise(o, k); ls.run(c); }
    }
  for (int s: { 0x1012, 0x1300, 0xfc00, 0xfe37, 0x9901, 0x9bff })
    {
      if (!sp.mine()) continue;
      for (int n= 0; n < 0x10000; n++) for (int k= 0; k < 2; k++)
	{
	  std_case(c); c[kI0]= s; c[kI0 + 1]= n; c[kPC]= k ? 0x100 + (n & 0xff) : 0xfffe; c[kSREG]= n & 255;
	  reg(c, 1, 3); reg(c, 2, 3); reg(c, 16, k * 255); reg(c, 0, k * 255); reg(c, 3, k * 255); reg(c, 0x20, k * 255); reg(c, 0x3f, k * 255);
	  ls.run(c); counter("skipped words")++;
	}
    }
  // 5. ordered pairs
  for (auto &cl: classes)
    {
      if (!sp.mine()) continue;
      for (auto &c2: classes) for (int k= 0; k < (thorough ? 600 : 60); k++)
	{
	  int s= (cl.first & 0xffff) * 77 + (c2.first & 0xffff) * 3;
	  std_case(c); c[kNI]= 2; c[kSEED]= k + 3; c[kSREG]= noise(s, k);
	  int o= cl.second[(noise(s, k + 1) << 8 | noise(s, k + 2)) % cl.second.size()], o2= c2.second[(noise(s, k + 3) << 8 | noise(s, k + 4)) % c2.second.size()];
	  int n= kI0; c[n++]= o; if (m.size(o) == 2) c[n++]= 0x400 + noise(s, k + 5); c[n++]= o2; c[n++]= 0x600 + noise(s, k + 6);
	  pointers(c, k);
	  ls.run(c); counter("instruction pairs")++;
	}
    }
}
void mc::harness_replay(const Case &c0) { setup(); Case c= c0; c.resize(NC, -1); ls.run(c.data()); }
