/* 8051/8052 serial port: the real port, timers and instructions stepped through every short history
   of sending, receiving and flag handling in every configuration, compared after each instruction
   with an independent model of frame times. */
#include <memory>
#include <map>
#define protected public
#include "simdrv.h"
#include "cpu.h"
#include "serial_hwcl.h"
#undef protected
using namespace mc;
using std::string; using std::vector;
int mc::harness_default_shards= 0;
enum { PCON= 0x87, TCON= 0x88, TMOD= 0x89, TL1= 0x8b, TH1= 0x8d, SCON= 0x98, SBUF= 0x99, IE= 0xa8, T2CON= 0xc8, RCL= 0xca, RCH= 0xcb, TL2= 0xcc, TH2= 0xcd };
#ifndef MC_TYPE
#define MC_TYPE "C52"
#endif
// ------------------------------------------------------------ where sent bytes go
static vector<int> sent;
struct Tap: public cl_f
{
  Tap(): cl_f() {}
  virtual enum file_type determine_type() { return F_FILE; }
  virtual int check_dev() { return 0; }
  virtual bool writable() { return true; }
  virtual bool opened() { return true; }
  virtual int write(const char *b, int n) { for (int i= 0; i < n; i++) sent.push_back(b[i] & 255); return n; }
};
static cl_serial_hw *ser; static cl_address_space *sfr; static uint8_t *rom, *iram; static Tap *tap;

// ------------------------------------------------------------ model
struct Dir { bool act; long start; double bit; int bits, v; long lo() const { return start + (long)((bits - 1) * bit) - 3; } long hi() const { return start + (long)((bits + 0.5) * bit) + 12; } };
struct M
{
  bool TI, RI, REN, pend, have; long t; int mode, inv, last; Dir tx, rx;
};
static M m;
static string txt; static vector<const char*> past; static vector<int> pastv;
static string trail() { string r= txt; for (size_t i= 0; i < past.size(); i++) r+= "; " + strf(past[i], pastv[i]); return r; }
static int scon0;
static bool stop;
static void bad(const char *sig, const string &s) { fail(sig, "%s after %s (cycle %ld)", s.c_str(), trail().c_str(), m.t); stop= true; }
// one instruction; the model's own changes of TI, RI, REN are done by the caller before check()
static int exec(std::initializer_list<int> b)
{
  int a= 0x100; for (int v: b) rom[a++]= v;
  uc->PC= 0x100;
  u64 t0= uc->ticks->get_ticks();
  uc->do_inst();
  shm->transitions++;
  return (uc->ticks->get_ticks() - t0) / 12;
}
static void check()
{
  int s= sfr->get(SCON); bool ti= s & 2, ri= s & 1;
  // sender
  if (!sent.empty())
    {
      if (sent.size() > 1) bad("tx:extra", strf("%d bytes are sent at once", (int)sent.size()));
      else if (!m.tx.act) bad("tx:extra", strf("byte %02x is sent, none was written", sent[0]));
      else if (sent[0] != m.tx.v) bad("tx:data", strf("byte %02x is sent instead of %02x", sent[0], m.tx.v));
      else if (m.t < m.tx.lo() || m.t > m.tx.hi()) bad("tx:time", strf("the frame written at cycle %ld ends outside of %ld..%ld", m.tx.start, m.tx.lo(), m.tx.hi()));
      else if (!ti) bad("tx:ti", "TI is clear at the end of a frame");
      sent.clear(); m.tx.act= false; m.TI= true; counter("frames sent")++;
    }
  else if (m.tx.act && m.t > m.tx.hi()) bad("tx:lost", strf("the frame written at cycle %ld has not ended by %ld", m.tx.start, m.tx.hi()));
  if (ti != m.TI) bad("ti", strf("TI is %d, should be %d", ti, m.TI));
  // receiver
  if (m.rx.act)
    {
      if (ri)
	{
	  if (m.t < m.rx.lo()) bad("rx:time", strf("reception started at cycle %ld is over before %ld", m.rx.start, m.rx.lo()));
	  if (ser->input_avail) bad("rx:taken", "the received byte is still waiting");
	  m.rx.act= false; m.RI= true; m.pend= false; m.last= m.rx.v; m.have= true; counter("frames received")++;
	}
      else if (m.t > m.rx.hi()) bad("rx:lost", strf("reception started at cycle %ld is not over by %ld", m.rx.start, m.rx.hi()));
    }
  else if (ri != m.RI) bad("ri", strf("RI is %d, should be %d", ri, m.RI));
  if (m.pend && !m.rx.act && !ser->input_avail) bad("rx:off", "a byte is taken while the receiver is off");
  if ((s & 0xf8) != ((scon0 & 0xe8) | (m.REN ? 0x10 : 0))) bad("scon", strf("SCON is %02x", s));
}
static double tbit, rbit;
static int BITS[]= { 8, 10, 11, 11 };
static void rxstart() { if (m.pend && m.REN && !m.rx.act) { m.rx= { true, m.t, rbit, BITS[m.mode], m.inv }; } }
static void op(const char *n, std::initializer_list<int> b) { m.t+= exec(b); (void)n; check(); rxstart(); }
static bool mul;
static void idle(long n) { long e= m.t + n; while (m.t < e && !stop) { if (mul && e - m.t >= 4) op("", { 0xa4 }); else op("", { 0 }); } }
enum { S1, S2, CTI, CRI, IN1, IN2, RENON, RENOFF, READ, TCLK, TSMOD, TMODE, W1, WH, WF, NSYM };
static const int THV[]= { 0xff, 0xfe, 0xf9 }; static const int RCV[]= { 0xffff, 0xfffa, 0xffe8 };
static Case cfg;
static void rates();
static bool apply(int k, int i)
{
  static const char *N[]= { "MOV SBUF,#%02x", "MOV SBUF,A (%02x)", "CLR TI %d", "CLR RI %d", "line brings %02x", "line brings %02x", "SETB REN %d", "CLR REN %d", "MOV A,SBUF %d", "RCLK, TCLK changed to %d", "SMOD changed to %d", "mode changed to %d", "%d cycles", "%d cycles", "%d cycles" };
  int v= 0x31 + i * 0x47; v&= 255; if (k == S2 || k == IN2) v= ~v & 255;
  long fr= (long)(std::max(tbit, rbit) * 13) + 30;
  switch (k) {
  case S1: case S2: if (m.tx.act) return false; break;
  case CTI: if (!m.TI) return false; break;
  case CRI: if (!m.RI) return false; break;
  case IN1: case IN2: if (m.pend || m.rx.act || m.RI) return false; break;
  case RENON: if (m.REN) return false; break;
  case RENOFF: if (!m.REN || m.rx.act || m.pend) return false; break;
  case READ: if (!m.have) return false; break;
  case TCLK: if (!(cfg[5] & 4)) return false;
  case TSMOD: case TMODE: if (m.tx.act || m.rx.act || m.pend) return false;
    if (k == TCLK) v= cfg[5]^= 3; else if (k == TSMOD) v= cfg[1]^= 1; else v= cfg[0]^= 1;
    break;
  case W1: v= 3; break;
  case WH: v= fr / 3; break;
  case WF: v= fr; break;
  }
  past.push_back(N[k]); pastv.push_back(v);
  bool alt= i & 1;
  switch (k) {
  case S1: case S2:
    if (k == S2) { op("", { 0x74, v }); if (stop) return true; }
    m.t+= k == S1 ? exec({ 0x75, SBUF, v }) : exec({ 0xf5, SBUF });
    m.tx= { true, m.t, tbit, BITS[m.mode], v }; check(); rxstart(); break;
  case CTI: m.TI= false; if (alt) op("", { 0xc2, SCON + 1 }); else op("", { 0x53, SCON, 0xfd }); break;
  case CRI: m.RI= false; if (alt) op("", { 0xc2, SCON }); else op("", { 0x53, SCON, 0xfe }); break;
  case IN1: case IN2: m.pend= true; m.inv= v; ser->input= v; ser->input_avail= true; rxstart(); break;
  case RENON: m.REN= true; if (alt) op("", { 0xd2, SCON + 4 }); else op("", { 0x43, SCON, 0x10 }); break;
  case RENOFF: m.REN= false; if (alt) op("", { 0xc2, SCON + 4 }); else op("", { 0x53, SCON, 0xef }); break;
  case READ: { if (alt) op("", { 0xe5, SBUF }); else { op("", { 0x85, SBUF, 0xe0 }); }
      int a= sfr->get(0xe0); if (!stop && a != m.last) bad("rx:data", strf("SBUF reads %02x, received %02x", a, m.last)); break; }
  case TCLK: if (alt) op("", { 0xb2, T2CON + 4 }), op("", { 0xb2, T2CON + 5 }); else op("", { 0x63, T2CON, 0x30 }); rates(); break;
  case TSMOD: op("", { 0x63, PCON, 0x80 }); rates(); break;
  case TMODE: rates(); if (alt) op("", { 0xb2, SCON + 6 }); else op("", { 0x63, SCON, 0x40 }); break;
  default: idle(v);
  }
  return true;
}
// case: mode, smod, forms, th1, rcap, clocks (RCLK 2, TCLK 1, T2 on 4), ops...
static void rates()
{
  int mode= cfg[0], smod= cfg[1], th= THV[cfg[3]], rc= RCV[cfg[4]];
  auto baud= [&](bool t2) { return mode == 0 ? 1.0 : mode == 2 ? (smod ? 32 : 64) / 12.0 : t2 ? 16 * (65536 - rc) / 6.0 : (smod ? 16 : 32) * (256.0 - th); };
  m.mode= mode; scon0= mode << 6;
  tbit= baud(cfg[5] & 1); rbit= baud(cfg[5] & 2);
}
static bool begin(const Case &c)
{
  cfg= c;
  past.clear(); pastv.clear(); sent.clear(); stop= false;
  uc->reset(); ser->input_avail= false; memset(iram, 0, 256);
  memset(&m, 0, sizeof m); m.mode= c[0];
  int smod= c[1], form= c[2] & 1, th= THV[c[3]], rc= RCV[c[4]], ck= c[5];
  mul= c[2] & 2;
  txt= strf("mode %d SMOD=%d TH1=%02x RCAP2=%04x RCLK=%d TCLK=%d", m.mode, smod, th, rc, ck >> 1 & 1, ck & 1);
  scon0= m.mode << 6;
  auto w= [&](int a, int v) { exec({ 0x75, a, v }); };
  rates();
  if (form) { if (m.mode & 2) exec({ 0xd2, SCON + 7 }); if (m.mode & 1) exec({ 0xd2, SCON + 6 }); } else w(SCON, scon0);
  w(TMOD, 0x20); w(TL1, th); w(TH1, th); if (form) exec({ 0xd2, TCON + 6 }); else w(TCON, 0x40);
  if (ck)
    {
      w(TL2, rc & 255); w(TH2, rc >> 8); w(RCL, rc & 255); w(RCH, rc >> 8);
      if (form) { if (ck & 1) exec({ 0xd2, T2CON + 4 }); if (ck & 2) exec({ 0xd2, T2CON + 5 }); exec({ 0xd2, T2CON + 2 }); } else w(T2CON, (ck & 1 ? 0x10 : 0) | (ck & 2 ? 0x20 : 0) | 4);
    }
  if (smod) { if (form) exec({ 0x43, PCON, 0x80 }); else w(PCON, 0x80); }
  int s= sfr->get(SCON); if (s != scon0 || !sent.empty()) { bad("setup", strf("SCON is %02x", s)); sent.clear(); }
  return !stop;
}
static std::map<string, bool> seen;
static void run(const Case &c)
{
  setcase(c);
  if (!begin(c)) return;
  for (size_t i= 6; i < c.size() && !stop; i++) if (!apply(c[i], i - 6)) return;
  // then all must come to an end
  if (!stop) idle((long)(std::max(tbit, rbit) * 13) + 30);
  shm->evaluations++; shm->traces++; shm->distinct++; beat();
}
// which histories are possible: a cheap abstract filter (exact validity is checked by apply)
static void rec(Case &c, int left, u64 &n)
{
  if (n++ % nshards == (u64)shard) run(c);
  if (!left) return;
  for (int k= 0; k < NSYM; k++)
    {
      bool ok= true; int rxn= 0; bool ren= false, clr= true; bool in= false;
      if (c.size() > 6) { int p= c.back(); if (k >= TCLK && k <= TMODE && p >= TCLK && p <= TMODE && k <= p) ok= false; if (k >= W1 && k < WF && p >= W1) ok= false; if (k == WF && p >= W1) ok= false; }
      bool tx= false, ti= false; 
      for (size_t i= 6; i < c.size(); i++) { if (c[i] <= S2) tx= true, ti= true; if (c[i] == RENON) ren= true; if (c[i] == RENOFF) ren= false; if (c[i] == IN1 || c[i] == IN2) in= true, rxn++; if (c[i] == CTI) ti= false; }
      (void)clr; (void)tx;
      if (k == CTI && !ti) ok= false;
      if (k == CRI && !in) ok= false;
      if (k == READ && !rxn) ok= false;
      if (k == RENON && ren) ok= false;
      if (k == RENOFF && !ren) ok= false;
      if (ok) { c.push_back(k); rec(c, left - 1, n); c.pop_back(); }
    }
}
static void setup()
{
  sim_start({ "-t", MC_TYPE });
  sfr= as("sfr"); iram= chip8("iram_chip"); rom= chip8("rom_chip");
  ser= (cl_serial_hw*)uc->get_hw("uart", 0, 0);
  if (!ser) { fprintf(stderr, "no uart\n"); exit(2); }
  tap= new Tap(); ser->io->replace_files(false, NULL, tap);
  ser->cfg_write(serconf_nl, 0); ser->cfg_write(serconf_able_receive, 1);
}
void mc::harness_run()
{
  setup();
  bool t2= sizeof(MC_TYPE) && !strcmp(MC_TYPE, "C52"); u64 n= 0;
  for (int mode= 0; mode < 4; mode++) for (int smod= 0; smod < 2; smod++) for (int form= 0; form < 4; form++)
    for (int th= 0; th < 3; th++) for (int rc= 0; rc < 3; rc++) for (int ck= 0; ck < (t2 ? 8 : 1); ck++)
      {
	if (ck && !(ck & 4)) continue;
	if (!(ck & 3) && rc) continue;
	if (!(mode & 1) && (th != 1 || rc > 1)) continue;
	if ((ck & 3) == 3 && th > 0) continue;
	Case c= { mode, smod, form, th, rc, ck };
	bool deep= thorough || form == 0 || form == 3;
	int d= (deep ? 5 : 3) + (thorough ? 1 : 0) - (!mode || mode == 2 ? 0 : 1);
	rec(c, d, n); shm->states++;
      }
  if (!shard) sample("mode 1 TH1=ff: MOV SBUF,#31; 5 cycles; MOV A,SBUF");
}
void mc::harness_replay(const Case &c) { setup(); run(c); }
