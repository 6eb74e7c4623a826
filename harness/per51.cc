/* 8051/8052 timers and interrupts: the real peripherals and interrupt logic
   stepped through every short history from every prepared state, compared
   after each instruction with an independent model. */
#include "simdrv.h"
#include "cpu.h"
using namespace mc;
using std::string; using std::vector;
int mc::harness_default_shards= 0;
#ifndef MC_GROUPS
#define MC_GROUPS 15
#endif

enum { P0=0x80, SP=0x81, PCON=0x87, TCON=0x88, TMOD=0x89, TL0=0x8a, TL1=0x8b, TH0=0x8c, TH1=0x8d, P1=0x90, SCON=0x98, IE=0xa8, P3=0xb0, IP=0xb8,
  T2CON=0xc8, T2MOD=0xc9, RCL=0xca, RCH=0xcb, TL2=0xcc, TH2=0xcd };
static const int WATCH[]= { SP, PCON, TCON, TMOD, TL0, TL1, TH0, TH1, P1, SCON, IE, P3, IP, T2CON, T2MOD, RCL, RCH, TL2, TH2 };

// ------------------------------------------------------------ model
struct M {
  uint8_t s[256], st[256], pins1, pins3;
  int pc, lev[4], nlev;              // stack of active levels
  bool idle, pd, block;
  int e0, e1, e2, ex;                // edges seen since the last machine cycle
  bool loose2;                       // timer 2 counts down from below its limit
  void init()
  {
    memset(s, 0, sizeof s); memset(st, 0, sizeof st); pins1= pins3= 0xff; s[P0]= s[P1]= s[P3]= s[0xa0]= 0xff; s[SP]= 7;
    pc= 0; nlev= 0; idle= pd= block= false; e0= e1= e2= ex= 0; loose2= false;
  }
  int p1() const { return s[P1] & pins1; }
  int p3() const { return s[P3] & pins3; }
  void port(int which, int nv, int npins)
  {
    int o= which == 1 ? p1() : p3();
    if (which == 1) s[P1]= nv, pins1= npins; else s[P3]= nv, pins3= npins;
    int n= which == 1 ? p1() : p3(), f= o & ~n;
    if (which == 1) { if (f & 1) e2++; if (f & 2) ex++; }
    else {
      if (f & 0x10) e0++; if (f & 0x20) e1++;
      if ((f & 4) && (s[TCON] & 1)) s[TCON]|= 2;
      if ((f & 8) && (s[TCON] & 4)) s[TCON]|= 8;
    }
  }
  void wr(int a, int v)
  {
    v&= 0xff;
    if (a == P1) port(1, v, pins1); else if (a == P3) port(3, v, pins3);
    else s[a]= v;
    if (a == IE || a == IP) block= true;
  }
  // one count of timer 0 or 1 in modes 0..2
  void up01(int n)
  {
    int m= s[TMOD] >> (4*n) & 3, L= TL0+n, H= TH0+n, tf= n ? 0x80 : 0x20;
    switch (m) {
    case 0: { int c= ((s[H] << 5) | (s[L] & 0x1f)) + 1; s[L]= (s[L] & 0xe0) | (c & 0x1f); s[H]= c >> 5; if (c >> 13) s[TCON]|= tf; break; }
    case 1: { int c= ((s[H] << 8) | s[L]) + 1; s[L]= c; s[H]= c >> 8; if (c >> 16) s[TCON]|= tf; break; }
    case 2: if (++s[L] == 0) s[L]= s[H], s[TCON]|= tf; break;
    case 3: if (!n && ++s[L] == 0) s[TCON]|= tf; break;
    }
  }
  void cycle()
  {
    // timers 0 and 1
    for (int n= 0; n < 2; n++) {
      int cfg= s[TMOD] >> (4*n) & 15, &e= n ? e1 : e0;
      bool run= s[TCON] & (n ? 0x40 : 0x10);
      if ((cfg & 8) && !(p3() & (n ? 8 : 4))) run= false;
      int k= (cfg & 4) ? e : 1; e= 0;
      if (run) while (k--) up01(n);
      if (!n && (cfg & 3) == 3 && (s[TCON] & 0x40)) if (++s[TH0] == 0) s[TCON]|= 0x80;
    }
    // timer 2
    int c= s[T2CON]; bool baud= c & 0x30, cap= c & 1, dcen= s[T2MOD] & 1, down= !baud && !cap && dcen;
    int k= (c & 2) ? e2 : baud ? 6 : 1; e2= 0;
    bool x= ex && (c & 8); ex= 0;
    auto get= [&]() { return s[TH2] << 8 | s[TL2]; };
    auto set= [&](int v) { s[TH2]= v >> 8; s[TL2]= v; };
    int rc= s[RCH] << 8 | s[RCL];
    if (x && !down) { s[T2CON]|= 0x40; if (!baud) { if (cap) { s[RCH]= s[TH2]; s[RCL]= s[TL2]; rc= get(); } else set(rc); } }
    if (c & 4) {
      bool tog= false;
      while (k--) {
        if (down && !(p1() & 2)) {
          if (get() < rc) loose2= true;
          if (get() == rc || get() < rc) { set(0xffff); s[T2CON]|= 0x80; tog= !tog; } else set(get()-1);
        }
        else if (get() != 0xffff) set(get()+1);
        else {
          set(cap && !baud ? 0 : rc);
          if (!baud) s[T2CON]|= 0x80;
          if (down) tog= !tog;
        }
      }
      if (tog) s[T2CON]^= 0x40;
    }
    // level triggered requests
    if (!(s[TCON] & 1)) s[TCON]= (s[TCON] & ~2) | ((p3() & 4) ? 0 : 2);
    if (!(s[TCON] & 4)) s[TCON]= (s[TCON] & ~8) | ((p3() & 8) ? 0 : 8);
  }
  // which vector is served now; -1 none
  int pick(int &lv)
  {
    if (block || !(s[IE] & 0x80)) return -1;
    int cur= nlev ? lev[nlev-1] : -1;
    bool rq[6]= { (s[TCON] & 2) != 0, (s[TCON] & 0x20) != 0, (s[TCON] & 8) != 0, (s[TCON] & 0x80) != 0, (s[SCON] & 3) != 0,
      (s[T2CON] & 0x80) || ((s[T2CON] & 0x40) && !(!(s[T2CON] & 0x31) && (s[T2MOD] & 1))) };
    for (lv= 1; lv > cur && lv >= 0; lv--)
      for (int i= 0; i < 6; i++) if (rq[i] && (s[IE] >> i & 1) && (s[IP] >> i & 1) == lv) return i;
    return -1;
  }
  void push(int v) { s[SP]++; st[s[SP]]= v; }
  int pop() { return st[s[SP]--]; }
};

// ------------------------------------------------------------ instructions and events
enum { NOP, N2, N4, RETI, MOVI, SETB, CLRB, PIN1, PIN3, NKIND };
struct Step { int k, a, v; const char *n; };
static cl_address_space *sfr; static uint8_t *iram, *rom; static cl_memory_cell *pin1, *pin3;
static M m;
static vector<const Step*> past; static string setup_txt;
static string trailstr() { string r= setup_txt; for (auto p: past) { r+= r.empty() ? "" : "; "; r+= p->n; } return r; }
#define trail trailstr()
static u64 nacc;

static void check(const char *what, bool mode0_0, bool mode0_1)
{
  for (int a: WATCH) {
    int r= sfr->get(a), w= m.s[a];
    if ((a == TL0 && mode0_0) || (a == TL1 && mode0_1)) {
      if ((r ^ w) & 0x1f) fail(strf("sfr%02x", a), "%s: after %s: SFR 0x%02x is 0x%02x, expected 0x%02x (low 5 bits)", what, trail.c_str(), a, r, w);
      m.s[a]= r; continue;
    }
    if (m.loose2 && (a == TL2 || a == TH2 || a == T2CON)) { m.s[a]= r; continue; }
    if (r != w) { fail(strf("sfr%02x", a), "%s: after %s: SFR 0x%02x is 0x%02x, expected 0x%02x", what, trail.c_str(), a, r, w); m.s[a]= r; }
  }
  m.loose2= false;
  if ((int)uc->PC != m.pc) { fail("pc", "%s: after %s: PC is 0x%04x, expected 0x%04x", what, trail.c_str(), (int)uc->PC, m.pc); m.pc= uc->PC; }
  for (int a= 8; a <= m.s[SP] && a < 0x40; a++) if (iram[a] != m.st[a]) { fail("stack", "%s: after %s: stack byte 0x%02x is 0x%02x, expected 0x%02x", what, trail.c_str(), a, iram[a], m.st[a]); m.st[a]= iram[a]; }
}
static void doreal(const Step &t)
{
  uint8_t *c= rom + (uc->PC & 0xffff);
  switch (t.k) {
  case NOP: c[0]= 0; break;
  case N2: c[0]= 0x90; c[1]= c[2]= 0; break;
  case N4: c[0]= 0xa4; break;
  case RETI: c[0]= 0x32; break;
  case MOVI: c[0]= 0x75; c[1]= t.a; c[2]= t.v; break;
  case SETB: c[0]= 0xd2; c[1]= t.a; break;
  case CLRB: c[0]= 0xc2; c[1]= t.a; break;
  }
}
// one instruction (or idle cycle) with the model
static void step(const Step &t, const char *what)
{
  past.push_back(&t);
  if (t.k == PIN1 || t.k == PIN3) {
    bool one= t.k == PIN1; int n= ((one ? m.pins1 : m.pins3) & ~t.a) | (t.v ? t.a : 0);
    (one ? pin1 : pin3)->write(n);
    m.port(one ? 1 : 3, one ? m.s[P1] : m.s[P3], n);
    return;
  }
  bool run= !m.idle && !m.pd;
  if (run) doreal(t);
  u64 t0= uc->ticks->get_ticks();
  int st= uc->do_inst();
  u64 cyc= (uc->ticks->get_ticks() - t0) / 12;
  m.block= false;
  int c= 1;
  if (run) {
    switch (t.k) {
    case NOP: m.pc++; break;
    case N2: m.pc+= 3; c= 2; break;
    case N4: m.pc++; c= 4; break;
    case RETI: { int h= m.pop(), l= m.pop(); m.pc= h << 8 | l; c= 2; m.block= true; if (m.nlev) m.nlev--; break; }
    case MOVI: m.pc+= 3; c= 2; m.wr(t.a, t.v); break;
    case SETB: case CLRB: { m.pc+= 2; int a= t.a & 0xf8, b= 1 << (t.a & 7); m.wr(a, t.k == SETB ? m.s[a] | b : m.s[a] & ~b); break; }
    }
    m.pc&= 0xffff;
  }
  bool z0= !(m.s[TMOD] & 3), z1= !(m.s[TMOD] & 0x30);
  if (!m.pd) for (int i= 0; i < c; i++) m.cycle();
  bool acc= false;
  if (!m.pd) {
    int lv= 0, v= m.pick(lv);
    if (v >= 0) {
      acc= true; nacc++;
      m.push(m.pc & 0xff); m.push(m.pc >> 8);
      m.pc= 3 + 8*v; m.lev[m.nlev++]= lv;
      static const int clr[6]= { 2, 0x20, 8, 0x80, 0, 0 }; m.s[TCON]&= ~clr[v];
      m.s[PCON]&= ~1; m.idle= false;
      if (cyc <= (u64)c || cyc > (u64)c + 8) { fail("accept:time", "%s: after %s: accepting the interrupt took %d cycles", what, trail.c_str(), (int)cyc - c); }
      else { for (u64 i= c; i < cyc; i++) m.cycle(); }
    }
    else {
      if (cyc != (u64)c) fail("cycles", "%s: after %s: took %d machine cycles, expected %d", what, trail.c_str(), (int)cyc, c);
      if (m.s[PCON] & 1) m.idle= true;
      if (m.s[PCON] & 2) m.pd= true, m.idle= false;
    }
  }
  if (acc && st != resINTERRUPT) fail("accept:result", "%s: after %s: an accepted interrupt is not reported", what, trail.c_str());
  if (!acc && st == resINTERRUPT) fail("accept:extra", "%s: after %s: an interrupt was accepted but none may be", what, trail.c_str());
  shm->transitions++;
  check(what, z0, z1);
}
static void begin(const char *txt= "")
{
  past.clear(); setup_txt= txt;
  pin1->write(0xff); pin3->write(0xff);
  uc->reset();
  memset(iram, 0, 0x100);
  m.init();
  uc->PC= m.pc= 0x100;
}
static void put(int a, int v) { sfr->write(a, v); m.wr(a, v); m.block= false; if (setup_txt.size() < 300) setup_txt+= strf(" [%02x]=%02x", a, v); }
static void pins(int which, int v) { (which == 1 ? pin1 : pin3)->write(v); m.port(which, which == 1 ? m.s[P1] : m.s[P3], v); if (v != 0xff) setup_txt+= strf(" pin%d=%02x", which, v); }

static const Step NOPS= { NOP, 0, 0, "NOP" }, RETIS= { RETI, 0, 0, "RETI" };
// ---- group 1: timers 0 and 1 (the other one is idle)
static const int TLV[]= { 0x00, 0x1e, 0x1f, 0xe0, 0xfe, 0xff }, THV[]= { 0x00, 0x1f, 0xfe, 0xff };
static vector<Step> S1[2];
static void mk1()
{
  for (int n= 0; n < 2; n++) {
    int t= n ? 0x20 : 0x10, i= n ? 8 : 4; static char b[64][40]; static int nb; auto nm= [&](const char *f, int x) { snprintf(b[nb], 40, f, x); return b[nb++]; };
    S1[n]= { NOPS, { N2,0,0,"MOV DPTR,#0" }, { N4,0,0,"MUL AB" }, { PIN3,t,0,nm("pin T%d low",n) }, { PIN3,t,1,nm("pin T%d high",n) },
      { CLRB,P3+4+n,0,nm("CLR P3.%d",4+n) }, { SETB,P3+4+n,0,nm("SETB P3.%d",4+n) }, { CLRB,P3+2+n,0,nm("CLR P3.%d",2+n) }, { MOVI,P3,0xc3,"MOV P3,#c3" }, { PIN3,i,0,nm("pin INT%d low",n) }, { PIN3,i,1,nm("pin INT%d high",n) },
      { SETB,TCON+4+2*n,0,nm("SETB TR%d",n) }, { CLRB,TCON+4+2*n,0,nm("CLR TR%d",n) }, { CLRB,TCON+5+2*n,0,nm("CLR TF%d",n) },
      { MOVI,TMOD,n?0x10:0x01,"MOV TMOD,mode 1" }, { MOVI,TMOD,n?0x60:0x06,"MOV TMOD,counter mode 2" }, { MOVI,TL0+n,0xff,"MOV TLx,#ff" }, { MOVI,TH0+n,0xff,"MOV THx,#ff" },
      { SETB,TCON+6,0,"SETB TR1" }, { MOVI,PCON,1,"MOV PCON,#1 (idle)" }, { MOVI,PCON,2,"MOV PCON,#2 (power down)" } };
  }
}
static void g1(const Case &c)   // 1, timer, cfg(0..15), TR, pins(INT,T), tl, th, steps...
{
  int n= c[1];
  begin();
  pins(3, 0xff & ~((c[4] & 1) ? (n ? 8 : 4) : 0) & ~((c[4] & 2) ? (n ? 0x20 : 0x10) : 0));
  put(TMOD, c[2] << (4*n));
  put(TL0+n, TLV[c[5]]); put(TH0+n, THV[c[6]]);
  put(TCON, 5 | (c[3] ? (n ? 0x40 : 0x10) : 0));
  for (size_t i= 7; i < c.size(); i++) step(S1[n][c[i]], "timer 0/1");
  step(NOPS, "timer 0/1");
}
// ---- group 2: timer 2
static const int T2V[]= { 0x0000, 0x0001, 0x00ff, 0x12ff, 0x1234, 0x1300, 0xfffe, 0xffff }, RCV[]= { 0x0000, 0x1234, 0x12fe, 0xfffe, 0xffff };
static const vector<Step> S2= { NOPS, { N2,0,0,"MOV DPTR,#0" }, { N4,0,0,"MUL AB" }, { PIN1,1,0,"pin T2 low" }, { PIN1,1,1,"pin T2 high" }, { PIN1,2,0,"pin T2EX low" }, { PIN1,2,1,"pin T2EX high" },
  { CLRB,P1+0,0,"CLR P1.0" }, { CLRB,P1+1,0,"CLR P1.1" }, { MOVI,P1,0xff,"MOV P1,#ff" }, { MOVI,P1,0xfc,"MOV P1,#fc" }, { SETB,T2CON+2,0,"SETB TR2" }, { CLRB,T2CON+2,0,"CLR TR2" }, { CLRB,T2CON+7,0,"CLR TF2" }, { CLRB,T2CON+6,0,"CLR EXF2" }, { SETB,T2CON+3,0,"SETB EXEN2" },
  { MOVI,T2CON,0x06,"MOV T2CON,#06" }, { MOVI,T2CON,0x0d,"MOV T2CON,#0d" }, { MOVI,T2MOD,1,"MOV T2MOD,#1" }, { MOVI,T2MOD,0,"MOV T2MOD,#0" }, { MOVI,TL2,0xff,"MOV TL2,#ff" }, { MOVI,RCH,0x55,"MOV RCAP2H,#55" } };
static void g2(const Case &c)   // 2, t2con(0..63), dcen + 2*order, pins, t2, rcap, steps...
{
  begin();
  pins(1, 0xff & ~c[3]);
  put(TL2, T2V[c[4]] & 0xff); put(TH2, T2V[c[4]] >> 8); put(RCL, RCV[c[5]] & 0xff); put(RCH, RCV[c[5]] >> 8);
  if (c[2] & 2) put(T2MOD, c[2] & 1);
  put(T2CON, c[1]);
  if (!(c[2] & 2)) put(T2MOD, c[2] & 1);
  for (size_t i= 6; i < c.size(); i++) step(S2[c[i]], "timer 2");
  step(NOPS, "timer 2");
}
// ---- group 3: one decision of the interrupt logic
static void enter(int v)        // start servicing source v with the present priorities
{
  static const Step n= { NOP, 0, 0, "request accepted" };
  if (v == 0) put(TCON, 5 | 0x20);
  put(IE, 0x82); put(TCON, 0x20 | 5);
  step(n, "interrupt");
}
static void g3(const Case &c)   // 3, level state, requests(8 bits), ie, ip, instruction
{
  begin();
  put(TCON, 5);
  if (c[1] & 1) { put(IP, 0); enter(1); }
  if (c[1] & 2) { put(IP, 2); enter(1); }
  put(IP, c[4]); put(IE, c[3]);
  int r= c[2];
  put(SCON, ((r & 0x10) ? 2 : 0) | ((r & 0x20) ? 1 : 0));
  put(T2CON, ((r & 0x40) ? 0x80 : 0) | ((r & 0x80) ? 0x40 : 0));
  put(TCON, 5 | ((r & 1) ? 2 : 0) | ((r & 2) ? 0x20 : 0) | ((r & 4) ? 8 : 0) | ((r & 8) ? 0x80 : 0));
  Step t= NOPS;
  switch (c[5]) {
  case 1: t= RETIS; break;
  case 2: t= { MOVI, IE, (int)c[3], "MOV IE,same" }; break;
  case 3: t= { MOVI, IP, (int)c[4], "MOV IP,same" }; break;
  case 4: t= { SETB, IE+7, 0, "SETB EA" }; break;
  case 5: t= { CLRB, IP+5, 0, "CLR PT2" }; break;
  case 6: t= { CLRB, IE+7, 0, "CLR EA" }; break;
  case 7: t= { MOVI, PCON, 1, "MOV PCON,#1 (idle)" }; break;
  case 8: t= { MOVI, TCON, m.s[TCON], "MOV TCON,same" }; break;
  }
  if (c[5] == 1 && c[2] == 0 && c[3] == 0) shm->states++;
  step(t, "interrupt"); step(NOPS, "interrupt");
}
// ---- group 4: histories of requests, services and returns
static const vector<Step> S4= { NOPS, RETIS, { N4,0,0,"MUL AB" }, { PIN3,4,0,"pin INT0 low" }, { PIN3,4,1,"pin INT0 high" }, { PIN3,8,0,"pin INT1 low" }, { PIN3,8,1,"pin INT1 high" },
  { SETB,TCON+5,0,"SETB TF0" }, { SETB,TCON+7,0,"SETB TF1" }, { SETB,SCON+0,0,"SETB RI" }, { CLRB,SCON+0,0,"CLR RI" }, { SETB,T2CON+7,0,"SETB TF2" }, { CLRB,T2CON+7,0,"CLR TF2" },
  { SETB,IE+7,0,"SETB EA" }, { CLRB,IE+7,0,"CLR EA" }, { SETB,IP+0,0,"SETB PX0" }, { MOVI,IP,0x12,"MOV IP,#12" }, { MOVI,IE,0xbf,"MOV IE,#bf" }, { MOVI,PCON,1,"MOV PCON,#1 (idle)" }, { CLRB,P3+2,0,"CLR P3.2" }, { MOVI,P3,0xf7,"MOV P3,#f7" }, { SETB,TCON+0,0,"SETB IT0" }, { CLRB,TCON+2,0,"CLR IT1" }, { CLRB,TCON+0,0,"CLR IT0" } };
static const int IPV[]= { 0x00, 0x01, 0x12, 0x24, 0x3f, 0x08 };
static void g4(const Case &c)   // 4, ip, trigger mode + 4*timer, steps...
{
  begin();
  put(IP, IPV[c[1]]);
  put(TCON, (c[2] & 1 ? 1 : 0) | (c[2] & 2 ? 4 : 0) | (c[2] & 4 ? 0x10 : 0));
  put(TMOD, 2); put(TL0, 0xfd); put(TH0, 0xfa);
  put(IE, 0xbf);
  for (size_t i= 3; i < c.size(); i++) step(S4[c[i]], "interrupt");
  step(NOPS, "interrupt");
  if (m.idle) { step(NOPS, "interrupt"); step(NOPS, "interrupt"); }
}
static void run(const Case &c)
{
  setcase(c);
  u64 tr= shm->transitions, ac= nacc;
  switch (c[0]) { case 1: g1(c); break; case 2: g2(c); break; case 3: g3(c); break; case 4: g4(c); break; }
  (void)tr;
  shm->evaluations++; shm->traces++;
  if (c[0] <= 2 || nacc != ac) shm->distinct++;
}
static void setup()
{
  sim_start({ "-t", MC_TYPE });
  sfr= as("sfr"); iram= chip8("iram_chip"); rom= chip8("rom_chip");
  pin1= var("port1_pin"); pin3= var("port3_pin");
  mk1();
}
static u64 idx;
static bool mine() { return (int)(idx++ % nshards) == shard; }
static void seqs(Case pre, int nsym, int len)
{
  long tot= 1; for (int i= 0; i < len; i++) tot*= nsym;
  for (long k= 0; k < tot; k++) {
    if (!mine()) continue;
    Case c= pre; long x= k; for (int i= 0; i < len; i++) c.push_back(x % nsym), x/= nsym;
    run(c);
  }
}
void mc::harness_run()
{
  setup();
  if (MC_GROUPS & 1)
    for (int n= 0; n < 2; n++) for (int cfg= 0; cfg < 16; cfg++) for (int tr= 0; tr < 2; tr++) for (int p= 0; p < 4; p++)
      for (int l= 0; l < 6; l++) for (int h= 0; h < 4; h++) seqs({ 1, n, cfg, tr, p, l, h }, S1[n].size(), thorough ? 3 : 2);
  if (MC_GROUPS & 2)
    for (int t= 0; t < 64; t++) for (int d= 0; d < 4; d++) for (int p= 0; p < 4; p++) for (int v= 0; v < 8; v++) for (int r= 0; r < 5; r++) {
      if (!thorough && ((p & 1) && !(t & 2))) continue;
      seqs({ 2, t, d, p, v, r }, S2.size(), thorough ? 2 : (d & 2) ? 1 : 2);
    }
  if (MC_GROUPS & 4)
    for (int lv= 0; lv < 4; lv++) for (int r= 0; r < 256; r++) for (int ie= 0; ie < 128; ie++) for (int ip= 0; ip < 64; ip++) for (int k= 0; k < 9; k++) {
      if (!thorough) {
        if (lv ? ((r >> 4 & 1) != (r >> 5 & 1) || (r >> 6 & 1) != (r >> 7 & 1) || k > 1 || (ie != 0x3f && ie != 0x7f && ie != 0x6a && ie != 0x55)) : k && ((ie | 0x40) != 0x7f || __builtin_popcount(r) > 2)) continue;
      }
      else if (k > 1 && __builtin_popcount(r) > 2) continue;
      if (mine()) run({ 3, lv, r, (ie & 0x3f) | ((ie & 0x40) ? 0x80 : 0), ip, k });
    }
  if (MC_GROUPS & 8)
    for (int ip= 0; ip < 6; ip++) for (int t= 0; t < 8; t++) for (int n= 1; n <= (thorough ? 5 : 4); n++) {
      if (n == 5 && (t == 1 || t == 2 || t == 5 || t == 6)) continue;
      if (!thorough && n == 4 && (ip & 1)) continue;
      seqs({ 4, ip, t }, S4.size(), n);
    }
  counter("interrupts_accepted")= nacc;
  if (!shard) sample("timer 0 mode 1 TL0=ff TH0=ff: NOP; CLR TF0; NOP");
}
void mc::harness_replay(const Case &c) { setup(); run(c); }
