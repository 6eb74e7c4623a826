/* MCS-51: every opcode, exhaustive operands, against a model written from the
   Intel instruction set description. */
#include "isa.h"
using namespace mc;
int mc::harness_default_shards= 0;

static Space *rom, *iram, *sfr, *xram;
static const char *cputype= MC_CPU;
static bool big;                       // 256 bytes of internal RAM
static cl_memory_cell *pins[4];
static cl_address_space *sfras;
static Lockstep ls;

enum { aP0=0x80, aSP=0x81, aDPL=0x82, aDPH=0x83, aP1=0x90, aP2=0xa0, aP3=0xb0, aPSW=0xd0, aACC=0xe0, aB=0xf0 };

/* ---- the model ---- */
struct M51
{
  unsigned pc; int cyc; uint8_t pin[4]; bool undef;
  // a part with 128 bytes of RAM has nothing above: the result is not specified
  uint8_t ir(int a) { if (!big && a > 0x7f) undef= true; return iram->rd(a); }
  void iw(int a, uint8_t v) { if (!big && a > 0x7f) undef= true; iram->wr(a, v); }
  uint8_t S(int a) { return sfr->rd(a-0x80); }
  void Sw(int a, uint8_t v)
  {
    if (a == aPSW) v= (v & 0xfe) | par(S(aACC));
    sfr->wr(a-0x80, v);
    if (a == aACC) sfr->wr(aPSW-0x80, (S(aPSW) & 0xfe) | par(v));
  }
  static int par(uint8_t a) { int p= 0; for (; a; a>>= 1) p^= a&1; return p; }
  uint8_t A() { return S(aACC); }
  void A(uint8_t v) { Sw(aACC, v); }
  int CY() { return S(aPSW) >> 7; }
  int AC() { return (S(aPSW) >> 6) & 1; }
  void flag(int bit, bool v) { uint8_t p= S(aPSW); p= v ? p | (1<<bit) : p & ~(1<<bit); Sw(aPSW, p); }
  uint8_t f() { return rom->rd(pc++ & 0xffff); }
  int ra(int r) { return (S(aPSW) & 0x18) + r; }
  int dirpin(int d) { switch (d) { case aP0: return 0; case aP1: return 1; case aP2: return 2; case aP3: return 3; } return -1; }
  uint8_t dir(int d, bool latch= false)
  {
    if (d < 0x80) return ir(d);
    int p= dirpin(d);
    return (p >= 0 && !latch) ? S(d) & pin[p] : S(d);
  }
  void dirw(int d, uint8_t v) { if (d < 0x80) iw(d, v); else Sw(d, v); }
  int bit(int b, bool latch= false)
  { int d= b < 0x80 ? 0x20 + b/8 : b & 0xf8; return (dir(d, latch) >> (b&7)) & 1; }
  void bitw(int b, int v)
  { int d= b < 0x80 ? 0x20 + b/8 : b & 0xf8; uint8_t o= dir(d, true); o= v ? o | (1<<(b&7)) : o & ~(1<<(b&7)); dirw(d, o); }
  unsigned dptr() { return S(aDPH)*256 + S(aDPL); }
  void push(uint8_t v) { uint8_t sp= S(aSP)+1; Sw(aSP, sp); iw(sp, v); }
  uint8_t pop() { uint8_t sp= S(aSP), v= ir(sp); Sw(aSP, sp-1); return v; }
  void rel(uint8_t d) { pc= (pc + (int8_t)d) & 0xffff; }
  void add(uint8_t b, int c)
  {
    uint8_t a= A(); int r= a+b+c, h= (a&15)+(b&15)+c, s= (int8_t)a+(int8_t)b+c;
    A(r); flag(7, r > 255); flag(6, h > 15); flag(2, s > 127 || s < -128);
  }
  void subb(uint8_t b)
  {
    uint8_t a= A(); int c= CY(); int r= a-b-c, h= (a&15)-(b&15)-c, s= (int8_t)a-(int8_t)b-c;
    A(r); flag(7, r < 0); flag(6, h < 0); flag(2, s > 127 || s < -128);
  }
  void cjne(uint8_t a, uint8_t b) { uint8_t d= f(); flag(7, a < b); if (a != b) rel(d); cyc= 2; }
  uint8_t src(int lo)  // operand of columns 4..f
  {
    if (lo == 4) return f();
    if (lo == 5) return dir(f());
    if (lo < 8) return ir(ir(ra(lo & 1)));
    return ir(ra(lo & 7));
  }
  void step()
  {
    cyc= 1;
    uint8_t op= f(); int hi= op >> 4, lo= op & 15;
    if (lo == 1)
      {
	uint8_t l= f(); unsigned t= (pc & 0xf800) | ((op >> 5) << 8) | l;
	if (op & 0x10) { push(pc & 0xff); push((pc>>8) & 0xff); }
	pc= t; cyc= 2; return;
      }
    if (lo >= 4)
      switch (hi)
	{
	case 0x0: if (lo == 4) A(A()+1); else if (lo == 5) { int d= f(); dirw(d, dir(d,true)+1); }
	  else { int x= lo < 8 ? ir(ra(lo&1)) : ra(lo&7); iw(x, ir(x)+1); } return;
	case 0x1: if (lo == 4) A(A()-1); else if (lo == 5) { int d= f(); dirw(d, dir(d,true)-1); }
	  else { int x= lo < 8 ? ir(ra(lo&1)) : ra(lo&7); iw(x, ir(x)-1); } return;
	case 0x2: add(src(lo), 0); return;
	case 0x3: add(src(lo), CY()); return;
	case 0x4: A(A() | src(lo)); return;
	case 0x5: A(A() & src(lo)); return;
	case 0x6: A(A() ^ src(lo)); return;
	case 0x7:
	  if (lo == 4) A(f());
	  else if (lo == 5) { int d= f(); uint8_t v= f(); dirw(d, v); cyc= 2; }
	  else { int x= lo < 8 ? ir(ra(lo&1)) : ra(lo&7); iw(x, f()); }
	  return;
	case 0x8:
	  if (lo == 4)
	    { uint8_t a= A(), b= S(aB); flag(7, 0); if (b) { A(a/b); Sw(aB, a%b); flag(2, 0); } else flag(2, 1); cyc= 4; }
	  else if (lo == 5) { int s= f(), d= f(); dirw(d, dir(s)); cyc= 2; }
	  else { uint8_t v= lo < 8 ? ir(ir(ra(lo&1))) : ir(ra(lo&7)); dirw(f(), v); cyc= 2; }
	  return;
	case 0x9: subb(src(lo)); return;
	case 0xa:
	  if (lo == 4) { unsigned r= A()*S(aB); A(r); Sw(aB, r >> 8); flag(7, 0); flag(2, r > 255); cyc= 4; }
	  else if (lo == 5) ; // reserved
	  else { int x= lo < 8 ? ir(ra(lo&1)) : ra(lo&7); iw(x, dir(f())); cyc= 2; }
	  return;
	case 0xb:
	  if (lo == 4) { uint8_t d= f(); cjne(A(), d); }
	  else if (lo == 5) { uint8_t d= dir(f()); cjne(A(), d); }
	  else { uint8_t v= lo < 8 ? ir(ir(ra(lo&1))) : ir(ra(lo&7)); uint8_t d= f(); cjne(v, d); }
	  return;
	case 0xc:
	  if (lo == 4) A((A() << 4) | (A() >> 4));
	  else if (lo == 5) { int d= f(); uint8_t a= A(), v= dir(d); dirw(d, a); A(v); }
	  else { int x= lo < 8 ? ir(ra(lo&1)) : ra(lo&7); uint8_t a= A(); A(ir(x)); iw(x, a); }
	  return;
	case 0xd:
	  if (lo == 4)
	    {
	      unsigned a= A(); bool c= CY();
	      if ((a & 15) > 9 || AC()) { a+= 6; if (a > 255) c= true; a&= 255; }
	      if ((a >> 4) > 9 || c) { a+= 0x60; if (a > 255) c= true; a&= 255; }
	      A(a); flag(7, c);
	    }
	  else if (lo == 5) { int d= f(); uint8_t r= f(), v= dir(d, true)-1; dirw(d, v); if (v) rel(r); cyc= 2; }
	  else if (lo < 8) { int x= ir(ra(lo&1)); uint8_t a= A(), m= ir(x); A((a & 0xf0) | (m & 15)); iw(x, (m & 0xf0) | (a & 15)); }
	  else { int x= ra(lo&7); uint8_t r= f(), v= ir(x)-1; iw(x, v); if (v) rel(r); cyc= 2; }
	  return;
	case 0xe:
	  if (lo == 4) A(0);
	  else A(src(lo));
	  return;
	case 0xf:
	  if (lo == 4) A(~A());
	  else if (lo == 5) dirw(f(), A());
	  else { int x= lo < 8 ? ir(ra(lo&1)) : ra(lo&7); iw(x, A()); }
	  return;
	}
    switch (op)
      {
      case 0x00: return;
      case 0x10: { int b= f(); uint8_t d= f(); cyc= 2; if (bit(b, true)) { bitw(b, 0); rel(d); } return; }
      case 0x20: { int b= f(); uint8_t d= f(); cyc= 2; if (bit(b)) rel(d); return; }
      case 0x30: { int b= f(); uint8_t d= f(); cyc= 2; if (!bit(b)) rel(d); return; }
      case 0x40: { uint8_t d= f(); cyc= 2; if (CY()) rel(d); return; }
      case 0x50: { uint8_t d= f(); cyc= 2; if (!CY()) rel(d); return; }
      case 0x60: { uint8_t d= f(); cyc= 2; if (!A()) rel(d); return; }
      case 0x70: { uint8_t d= f(); cyc= 2; if (A()) rel(d); return; }
      case 0x80: { uint8_t d= f(); cyc= 2; rel(d); return; }
      case 0x90: { uint8_t h= f(), l= f(); Sw(aDPH, h); Sw(aDPL, l); cyc= 2; return; }
      case 0xa0: { int b= bit(f()); flag(7, CY() | !b); cyc= 2; return; }
      case 0xb0: { int b= bit(f()); flag(7, CY() & !b); cyc= 2; return; }
      case 0xc0: { uint8_t v= dir(f()); push(v); cyc= 2; return; }
      case 0xd0: { int d= f(); uint8_t v= pop(); dirw(d, v); cyc= 2; return; }
      case 0xe0: A(xram->rd(dptr())); cyc= 2; return;
      case 0xf0: xram->wr(dptr(), A()); cyc= 2; return;
      case 0x02: { unsigned h= f(), l= f(); pc= h*256+l; cyc= 2; return; }
      case 0x12: { unsigned h= f(), l= f(); push(pc & 0xff); push((pc>>8) & 0xff); pc= h*256+l; cyc= 2; return; }
      case 0x22: case 0x32: { unsigned h= pop(), l= pop(); pc= h*256+l; cyc= 2; return; }
      case 0x42: { int d= f(); dirw(d, dir(d,true) | A()); return; }
      case 0x52: { int d= f(); dirw(d, dir(d,true) & A()); return; }
      case 0x62: { int d= f(); dirw(d, dir(d,true) ^ A()); return; }
      case 0x43: { int d= f(); uint8_t v= f(); dirw(d, dir(d,true) | v); cyc= 2; return; }
      case 0x53: { int d= f(); uint8_t v= f(); dirw(d, dir(d,true) & v); cyc= 2; return; }
      case 0x63: { int d= f(); uint8_t v= f(); dirw(d, dir(d,true) ^ v); cyc= 2; return; }
      case 0x72: { int b= bit(f()); flag(7, CY() | b); cyc= 2; return; }
      case 0x82: { int b= bit(f()); flag(7, CY() & b); cyc= 2; return; }
      case 0x92: bitw(f(), CY()); cyc= 2; return;
      case 0xa2: flag(7, bit(f())); return;
      case 0xb2: { int b= f(); bitw(b, !bit(b, true)); return; }
      case 0xc2: bitw(f(), 0); return;
      case 0xd2: bitw(f(), 1); return;
      case 0xe2: case 0xe3: A(xram->rd(S(aP2)*256 + ir(ra(op&1)))); cyc= 2; return;
      case 0xf2: case 0xf3: xram->wr(S(aP2)*256 + ir(ra(op&1)), A()); cyc= 2; return;
      case 0x03: A((A() >> 1) | (A() << 7)); return;
      case 0x13: { int c= CY(); flag(7, A() & 1); A((A() >> 1) | (c << 7)); return; }
      case 0x23: A((A() << 1) | (A() >> 7)); return;
      case 0x33: { int c= CY(); flag(7, A() & 0x80); A((A() << 1) | c); return; }
      case 0x73: pc= (dptr() + A()) & 0xffff; cyc= 2; return;
      case 0x83: A(rom->rd((pc + A()) & 0xffff)); cyc= 2; return;
      case 0x93: A(rom->rd((dptr() + A()) & 0xffff)); cyc= 2; return;
      case 0xa3: { unsigned d= (dptr() + 1) & 0xffff; Sw(aDPL, d); Sw(aDPH, d >> 8); cyc= 2; return; }
      case 0xb3: flag(7, !CY()); return;
      case 0xc3: flag(7, 0); return;
      case 0xd3: flag(7, 1); return;
      }
  }
};

static int oplen(int op)
{
  int hi= op >> 4, lo= op & 15;
  if (lo == 1) return 2;
  if (lo >= 6)
    { if (hi == 7 || hi == 8 || hi == 0xa) return 2; if (hi == 0xb) return 3; if (hi == 0xd && lo >= 8) return 2; return 1; }
  if (lo == 5) { if (hi == 7 || hi == 8 || hi == 0xb || hi == 0xd) return 3; return hi == 0xa ? 1 : 2; }
  if (lo == 4) { if (hi == 0xb) return 3; return (hi >= 2 && hi <= 7 && hi != 8) || hi == 9 ? 2 : 1; }
  switch (op)
    {
    case 0x10: case 0x20: case 0x30: case 0x90: case 0x02: case 0x12: case 0x43: case 0x53: case 0x63: return 3;
    case 0x40: case 0x50: case 0x60: case 0x70: case 0x80: case 0xa0: case 0xb0: case 0xc0: case 0xd0:
    case 0x42: case 0x52: case 0x62: case 0x72: case 0x82: case 0x92: case 0xa2: case 0xb2: case 0xc2: case 0xd2: return 2;
    }
  return 1;
}

/* ---- one case ---- */
enum { cPC, cA, cB, cPSW, cSP, cDPH, cDPL, cP2, cPINS, cR0, cR1, cR7, cXA, cXV, cNI, cI0, NC= cI0+12 };
static M51 model;
static u64 prevticks;

static void prep(const long *c)
{
  rom->restore(); iram->restore(); sfr->restore(); xram->restore();
  model.pc= c[cPC];
  auto S= [](int a, int v) { sfr->poke(a-0x80, v); };
  S(aACC, c[cA]); S(aB, c[cB]);
  int psw= (c[cPSW] & 0xfe) | M51::par(c[cA]);
  sfras->write(aPSW, psw);            // selects the register bank as well
  S(aPSW, psw);
  S(aSP, c[cSP]); S(aDPH, c[cDPH]); S(aDPL, c[cDPL]); S(aP2, c[cP2]);
  int bank= c[cPSW] & 0x18;
  iram->poke(bank+0, c[cR0]); iram->poke(bank+1, c[cR1]); iram->poke(bank+7, c[cR7]);
  if (c[cXA] >= 0) { if (c[cXA] < 0x100) iram->poke(c[cXA], c[cXV]); else sfr->poke(c[cXA]-0x180, c[cXV]); }
  for (int i= 0; i < 12; i++) if (c[cI0+i] >= 0) rom->poke((c[cPC]+i) & 0xffff, c[cI0+i]);
  for (int i= 0; i < 4; i++) { pins[i]->write(c[cPINS]); model.pin[i]= c[cPINS]; }
}

static bool compare(const long *c, int op, int i, u64 cyc)
{
  uint32_t at;
  std::string pre= strf("op%02x:", op);
  bool ok= true;
  auto ctx= [&]() { return strf("instruction %d op %02x (PC=%04lx A=%02lx B=%02lx PSW=%02lx SP=%02lx DPTR=%02lx%02lx R0=%02lx R1=%02lx bytes %02lx %02lx %02lx)", i, op, c[cPC], c[cA], c[cB], c[cPSW], c[cSP], c[cDPH], c[cDPL], c[cR0], c[cR1], c[cI0], c[cI0+1], c[cI0+2]); };
  if (uc->PC != (t_addr)(model.pc & 0xffff))
    { fail(pre+"PC", "PC is %04x, should be %04x after %s", (int)uc->PC, model.pc & 0xffff, ctx().c_str()); ok= false; }
  if (!sfr->same(&at))
    { at+= 0x80; fail(pre+strf("sfr%02x", at), "SFR %02x is %02x, should be %02x after %s", at, sfr->real[at-0x80], sfr->ref[at-0x80], ctx().c_str()); ok= false; }
  if (!iram->same(&at))
    { fail(pre+"iram", "iram[%02x] is %02x, should be %02x after %s", at, iram->real[at], iram->ref[at], ctx().c_str()); ok= false; }
  if (!xram->same(&at))
    { fail(pre+"xram", "xram[%04x] is %02x, should be %02x after %s", at, xram->real[at], xram->ref[at], ctx().c_str()); ok= false; }
  if (!rom->same(&at))
    { fail(pre+"rom", "rom[%04x] is %02x, should be %02x after %s", at, rom->real[at], rom->ref[at], ctx().c_str()); ok= false; }
  if (cyc != (u64)model.cyc*12)
    { fail(pre+"clk", "took %llu clocks, should be %d after %s", cyc, model.cyc*12, ctx().c_str()); ok= false; }
  return ok;
}

static void one(const long *c)
{
  prep(c);
  uc->PC= c[cPC];
  for (int i= 0; i < c[cNI]; i++)
    {
      int op= rom->rd(model.pc & 0xffff);
      if (op == 0xa5) break; // reserved
      if (op == 0xd5 && rom->rd(model.pc+1) == aPSW) break; // P overrides the counted value, not specified
      u64 t0= uc->ticks->get_ticks();
      unsigned next= (model.pc + oplen(op)) & 0xffff;
      model.undef= false; model.step(); model.pc&= 0xffff;
      if (model.pc != next) nontrivial= true;
      uc->do_inst();
      if (model.undef) { iram->dirtyall= sfr->dirtyall= true; counter("not specified, skipped")++; break; }
      if (!compare(c, op, i, uc->ticks->get_ticks() - t0)) break;
    }
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (uc->events && uc->events->count) uc->events->disconn_all();
}

static void run_case(const long *c) { ls.run(c); }

static void setup()
{
  sim_start({"-t", cputype});
  big= as("iram")->get_size() > 128;
  rom= mkspace("rom_chip", 0x10000, 1);
  xram= mkspace("xram_chip", 0x10000, 3);
  iram= mkspace("iram_chip", 0x100, 2);
  sfr= mkspace("sfr_chip", 0x80, 4);
  // peripherals stay in their reset state
  for (int i= 0; i < 0x80; i++) sfr->init[i]= 0;
  for (int a: {aP0, aP1, aP2, aP3}) sfr->init[a-0x80]= 0xff;
  memcpy(sfr->real, sfr->init.data(), 0x80); sfr->ref= sfr->init;
  sfras= as("sfr");
  ls.n= NC; ls.one= one; ls.spaces= { rom, iram, sfr, xram };
  for (int i= 0; i < 4; i++) pins[i]= var(strf("pins%d", i).c_str());
}

static bool documented(int op) { return op != 0xa5; }
static const int dst_sfr[]= { aACC, aB, aPSW, aSP, aDPL, aDPH, aP0, aP1, aP2 };

// parameters of a standard case
static void std_case(long *c)
{
  for (int i= 0; i < NC; i++) c[i]= -1;
  c[cPC]= 0x1234; c[cA]= 0x5a; c[cB]= 0x13; c[cPSW]= 0x00; c[cSP]= 0x40; c[cDPH]= 0x43; c[cDPL]= 0x21; c[cP2]= 0x7b;
  c[cPINS]= 0xff; c[cR0]= 0x35; c[cR1]= 0x2e; c[cR7]= 0x6c; c[cXA]= -1; c[cXV]= 0; c[cNI]= 1;
}

void mc::harness_run()
{
  setup();
  Split sp;
  long c[NC];
  static const int VALS[]= { 0,1,2,0x0f,0x10,0x1f,0x20,0x40,0x55,0x7f,0x80,0x81,0xaa,0xf0,0xfe,0xff };
  int maxptr= big ? 0x100 : 0x80;
  // 1. immediate / register / implied operands: A x operand x CY x AC x OV (x both PSW banks)
  for (int op= 0; op < 256; op++)
    if (documented(op))
      for (int fl= 0; fl < 8; fl++)
	{
	  if (!sp.mine()) continue;
	  int psw= ((fl&1)?0x80:0) | ((fl&2)?0x40:0) | ((fl&4)?0x04:0);
	  int hi= op >> 4, lo= op & 15;
	  bool bitop= (lo == 0 && hi >= 1 && hi <= 3) || (lo == 2 && hi >= 7 && hi <= 0xd) || op == 0xa0 || op == 0xb0;
	  bool dirop= (lo == 5) || (lo == 2 && hi >= 4 && hi <= 6) || (lo == 3 && hi >= 4 && hi <= 6) || op == 0xc0 || op == 0xd0 ||
	    (lo >= 6 && (hi == 8 || hi == 0xa));
	  for (int a= 0; a < 256; a++)
	    for (int v= 0; v < 256; v++)
	      {
		if (fl > 1 && !thorough) { bool k= false; for (int x: VALS) if (x == v) k= true; if (!k) continue; }
		std_case(c);
		c[cA]= a; c[cPSW]= psw | ((v & 0x18) ^ 0x08); c[cI0]= op;
		c[cI0+1]= v; c[cI0+2]= (v*7+a) & 0xff;
		c[cB]= v; c[cDPL]= v; c[cDPH]= a;
		if (lo >= 6)
		  {
		    if (lo < 8) { c[(op&1)?cR1:cR0]= 0x68; c[cXA]= 0x68; c[cXV]= v; }
		    else { c[cXA]= (c[cPSW] & 0x18) + (lo&7); c[cXV]= v; }
		    if (hi == 7) { c[cI0+1]= a; }
		    if (hi == 0xb) { c[cI0+1]= a; c[cI0+2]= (v ^ 0x5a); }
		    if (hi == 0xd && lo >= 8) c[cI0+1]= a;
		  }
		if (lo == 5 && (hi < 8 || hi >= 9) && hi != 7)
		  { c[cI0+1]= 0x6a; c[cXA]= 0x6a; c[cXV]= v; }
		if (op == 0xb4) c[cI0+1]= v, c[cI0+2]= 0x80;
		if (dirop && lo >= 6) c[cI0+1]= 0x6b;
		if (dirop && lo != 5 && lo < 6) { c[cI0+1]= 0x6b; c[cXA]= 0x6b; c[cXV]= v; c[cI0+2]= a; }
		if (op == 0x75 || op == 0x85) { c[cI0+1]= 0x6b; c[cI0+2]= op == 0x75 ? v : 0x6c; }
		if (op == 0xd5) { c[cI0+2]= a; }
		if (bitop) // every bit address against every byte value
		  {
		    int d= v < 0x80 ? 0x20 + v/8 : v & 0xf8;
		    if (d >= 0x80)
		      { bool ok= false; for (int x: dst_sfr) if (x == d) ok= true; if (!ok) continue; c[cXA]= 0x100 + d; if (d == aACC || d == aPSW) continue; }
		    else c[cXA]= d;
		    c[cXV]= a;
		  }
		if (op == 0xc0 || op == 0xd0) { c[cSP]= 0x50; if (op == 0xd0) { c[cXA]= 0x50; } }
		if (!big && c[cSP] > 0x7d) continue;
		run_case(c);
	      }
	}
  // 2. direct addresses: every byte address x values, every bit address x PSW/ACC values
  for (int op= 0; op < 256; op++)
    if (documented(op))
      for (int d= 0; d < 256; d++)
	{
	  if (!sp.mine()) continue;
	  int hi= op >> 4, lo= op & 15;
	  bool bitop= (lo == 0 && hi >= 1 && hi <= 3) || (lo == 2 && hi >= 7 && hi <= 0xd) || op == 0xa0 || op == 0xb0;
	  bool dirop= (lo == 5 && hi != 0xa) || (lo == 2 && hi >= 4 && hi <= 6) || (lo == 3 && hi >= 4 && hi <= 6) || op == 0xc0 || op == 0xd0 ||
	    (lo >= 6 && (hi == 8 || hi == 0xa));
	  if (!bitop && !dirop) continue;
	  int byte= bitop ? (d < 0x80 ? 0x20 + d/8 : d & 0xf8) : d;
	  if (byte >= 0x80) { bool ok= false; for (int x: dst_sfr) if (x == byte) ok= true; if (!ok) continue; }
	  for (int v: VALS)
	    for (int w: VALS)
	      for (int bank= 0; bank < 4; bank++)
		for (int pin: { 0xff, 0x3c })
		  for (int cy= 0; cy < 2; cy++)
		    {
		      std_case(c);
		      c[cPSW]= bank*8 | (cy ? 0x80 : 0); c[cA]= w; c[cI0]= op; c[cI0+1]= d; c[cI0+2]= w; c[cPINS]= pin;
		      c[cXA]= byte < 0x80 ? byte : 0x100+byte; c[cXV]= v;
		      if (byte == aACC) { c[cA]= v; c[cXA]= -1; }
		      if (byte == aPSW) { c[cPSW]= v; c[cXA]= -1; }
		      if (byte == aSP) { c[cXV]= v & (maxptr-1); if ((c[cXV] == maxptr-1 || c[cXV] == 0)) c[cXV]= 0x33; }
		      if (op == 0x85) { c[cI0+2]= w < 0x80 ? w : dst_sfr[w % 9]; }
		      if (lo == 6 || lo == 7) { c[(op&1)?cR1:cR0]= w & 0x7f; }
		      if (byte < 0x80 && c[cPSW] >= 0 && byte == (c[cPSW] & 0x18) + (lo&1) && (lo == 6 || lo == 7) && !big) c[cXV]= v & 0x7f;
		      run_case(c);
		    }
	}
  // 3. indirect, stack, code/data pointer and branch address sweeps at varied PC
  static const int PCS[]= { 0x0000, 0x07fd, 0x07fe, 0x07ff, 0x0800, 0x7ffe, 0x7fff, 0x8000, 0xf7fe, 0xff80, 0xfffd, 0xfffe, 0xffff, 0x2080 };
  for (int op= 0; op < 256; op++)
    if (documented(op))
      for (int pc: PCS)
	{
	  if (!sp.mine()) continue;
	  int lo= op & 15, hi= op >> 4;
	  for (int p= 0; p < 256; p++)
	    for (int k= 0; k < 8; k++)
	      {
		std_case(c);
		c[cPC]= pc; c[cI0]= op; c[cI0+1]= p; c[cI0+2]= p ^ 0x5a;
		c[cPSW]= (k & 3)*8 | ((k & 4) ? 0x80 : 0);
		c[cA]= (k == 0) ? 0 : (k*37) & 0xff;
		if (lo == 6 || lo == 7 || op == 0xe2 || op == 0xe3 || op == 0xf2 || op == 0xf3)
		  { if (op < 0xe2 || lo >= 6) { if (p >= maxptr) continue; } c[(op&1)?cR1:cR0]= p; c[cP2]= (p*5+k) & 0xff; }
		if (hi == 8 || hi == 0xa || lo == 5 || op == 0xc0 || op == 0xd0) c[cI0+1]= 0x60+k;
		if (lo == 2 && hi >= 4 && hi <= 6) c[cI0+1]= 0x60+k;
		if (lo == 3 && hi >= 4 && hi <= 6) c[cI0+1]= 0x60+k;
		if (op == 0x85) c[cI0+2]= 0x68;
		if (lo == 0 && hi >= 1 && hi <= 3) { c[cI0+1]= k*8 + (p & 7); c[cI0+2]= p; }
		else if (lo == 0 && hi >= 10) ;
		if ((lo == 2 && hi >= 7 && hi <= 0xd) || op == 0xa0 || op == 0xb0) c[cI0+1]= (p & 0x7f);
		// the stack
		if (lo == 1 || op == 0x12 || op == 0x22 || op == 0x32 || op == 0xc0 || op == 0xd0)
		  {
		    int s= (p*9 + k*31) & 0xff;
		    int hi2= maxptr-3;
		    c[cSP]= 2 + s % (hi2-2);
		  }
		// data pointers, indexes
		c[cDPL]= (k & 1) ? 0xff : p; c[cDPH]= (k & 2) ? 0xff : p ^ 0x81;
		if (op == 0x73 || op == 0x83 || op == 0x93) c[cA]= (p + k*32) & 0xff;
		if (op == 0x60 || op == 0x70) c[cA]= (k & 1) ? 0 : 1 << k;
		if (hi == 0xd && lo >= 8) { c[cXA]= (c[cPSW] & 0x18) + (lo & 7); c[cXV]= k & 1 ? 1 : k; c[cI0+1]= p; }
		if (op == 0xd5) { c[cI0+1]= 0x66; c[cXA]= 0x66; c[cXV]= k & 1 ? 1 : k; c[cI0+2]= p; }
		if (hi == 0xb && lo >= 4) { c[cI0+2]= p; c[cI0+1]= k & 1 ? c[cA] : k*3; }
		run_case(c);
	      }
	}
  // 4. all pairs of instructions: nothing leaks from one to the next
  for (int o1= 0; o1 < 256; o1++)
    if (documented(o1))
      {
	if (!sp.mine()) continue;
	for (int o2= 0; o2 < 256; o2++)
	  if (documented(o2))
	    for (int k= 0; k < (thorough ? 24 : 6); k++)
	      {
		std_case(c);
		c[cNI]= 2;
		int l1= oplen(o1), l2= oplen(o2);
		static const int D[]= { 0x2f, 0xe0, 0xd0, 0x08, 0x83, 0xf0, 0x00, 0x10 };
		static const int BT[]= { 0x7f, 0xe3, 0xd3, 0x08, 0xd4, 0xf0, 0x00, 0xd7 };
		auto args= [&](int at, int op, int len, int salt)
		  {
		    c[cI0+at]= op;
		    int lo= op & 15, hi= op >> 4;
		    bool bitop= (lo == 0 && hi >= 1 && hi <= 3) || (lo == 2 && hi >= 7 && hi <= 0xd) || op == 0xa0 || op == 0xb0;
		    bool dirop= (lo == 5 && hi != 0xa) || (lo == 2 && hi >= 4 && hi <= 6) || (lo == 3 && hi >= 4 && hi <= 6) || op == 0xc0 || op == 0xd0 || (lo >= 6 && (hi == 8 || hi == 0xa));
		    if (len > 1) c[cI0+at+1]= bitop ? BT[(k+salt)&7] : dirop ? D[(k+salt)&7] : noise(op*16+k, salt);
		    if (len > 2) c[cI0+at+2]= op == 0x85 ? D[(k+salt+3)&7] : (bitop || (dirop && (op == 0xd5)) || op == 0xb5 || op == 0xb4 || hi == 0xb) ? 0 : noise(op*16+k, salt+9);
		    // branches fall onto the second instruction: relative 0
		    if (len == 2 && lo == 0 && hi >= 4 && hi <= 8) c[cI0+at+1]= 0;
		    if (hi == 0xd && lo >= 8) c[cI0+at+1]= 0;
		    if (lo == 1) { unsigned t= c[cPC]+at+2; c[cI0+at]= (op & 0x1f) | ((t >> 3) & 0xe0); c[cI0+at+1]= t & 0xff; }
		    if (op == 0x02 || op == 0x12) { unsigned t= c[cPC]+at+3; c[cI0+at+1]= t >> 8; c[cI0+at+2]= t & 0xff; }
		  };
		args(0, o1, l1, 1); args(l1, o2, l2, 2);
		c[cPSW]= ((k & 3) << 3) | ((k & 4) ? 0x80 : 0) | ((k & 1) ? 0x40 : 0);
		c[cA]= noise(o1*256+o2, k); c[cB]= noise(o2*256+o1, k+50); c[cR0]= 0x20 + k*3; c[cR1]= 0x50+k;
		run_case(c);
		 counter("instruction pairs")++;
	      }
      }
}

void mc::harness_replay(const Case &c0)
{
  setup();
  Case c= c0; c.resize(NC, -1);
  run_case(c.data());
}
