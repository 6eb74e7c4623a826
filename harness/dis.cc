/* Disassembler against execution: for every instruction pattern the number of
   bytes the disassembler steps over is the number the instruction consumes,
   the shown branch target is where execution goes, and `next` recognises calls. */
#include "simdrv.h"
#include "cpu.h"
#include <map>
#include <string>
using namespace mc;
using std::string; using std::vector;
static const char *TYPES[]= { MC_TYPES };
#ifndef MC_A
#define MC_A 0x2340
#endif
#ifndef MC_PER
#define MC_PER 2
#endif
#ifndef MC_PREFIX
#define MC_PREFIX           // opcodes that only introduce the real one
#endif
#ifndef MC_MINVALID
#define MC_MINVALID 500
#endif
#ifndef MC_MINCALL
#define MC_MINCALL 1
#endif
#ifndef MC_TARGET
#define MC_TARGET 1         // the text shows where a branch goes
#endif
int mc::harness_default_shards= (int)(sizeof(TYPES) / sizeof(TYPES[0])) * MC_PER;
static string type; static cl_address_space *rom; static int A= MC_A, W; static u64 wmask;
static u64 nvalid, nbranch, ncall;
static const int SHADOW= 8;
static cl_memory_cell *cells[SHADOW + 1];

static u64 fetched();
#ifdef MC_PDK
#include "pdkcl.h"
static u64 fetched() { u64 n= 0; cl_pdk *p= (cl_pdk*)uc; for (auto f: p->fpps) if (f) n+= f->vc.fetch; return n; }
#else
static u64 fetched() { return uc->vc.fetch; }
#endif

#ifndef MC_SPNAME
#define MC_SPNAME "SP"
#endif
#ifndef MC_STK
#define MC_STK 0            // where the stack pointer points into
#endif
#ifndef MC_STKMEM
#define MC_STKMEM 0
#endif
static int snap[0x10000]; static cl_memory_cell *spc; static cl_address_space *stk; static int s0;
// the return address was saved: 1, not: 0, can not be told: -1
static int saved_return(int ret)
{
#ifdef MC_SCANLO
  for (int a= MC_SCANLO; a < MC_SCANHI; a++) {
    int x= stk->get(a) & 0xff, y= stk->get(a + 1) & 0xff;
    if (x == snap[a] && y == snap[a + 1]) continue;
    for (int v: { x << 8 | y, y << 8 | x }) if ((v & MC_RETMASK) == (ret & MC_RETMASK)) return 1;
  }
  return 0;
#endif
  if (!spc) return -1;
  int s1= spc->get() & 0xffff, d= s1 - s0;
#ifdef MC_STKUP
  if (d < 0) return -1;
#else
  if (d > 0) return -1;
#endif
  if (d > 4 || d < -4) return -1;
  int lo= d < 0 ? s1 : s0, hi= d < 0 ? s0 : s1;
  for (int a= lo; a <= hi + 1; a++) {
    int x= stk->get((MC_STK + a) & 0xffff) & 0xff, y= stk->get((MC_STK + a + 1) & 0xffff) & 0xff;
    for (int v: { x << 8 | y, y << 8 | x }) if (v == (ret & 0xffff) || (MC_STK && v == ((ret - 1) & 0xffff))) return d ? 1 : -1;
  }
  return 0;
}
static bool prefixed(int b) { static const int P[]= { 0x100 MC_PREFIX }; for (int p: P) if (p == b) return true; return false; }
static string hexs(const Case &c) { string r; for (size_t i= 1; i < c.size(); i++) r+= strf(W > 8 ? "%s%04x" : "%s%02x", i > 1 ? " " : "", (int)c[i]); return r; }
static bool shows(const string &t, u64 v, int rel= 9999)      // the text contains the number v
{
  for (size_t i= 0; i < t.size(); ) {          // a bare number of four or more digits
    size_t j= i; while (j < t.size() && isxdigit((unsigned char)t[j])) j++;
    if (j - i >= 4 && (strtoull(t.substr(i, j - i).c_str(), 0, 16) & (j - i > 4 && v < 0x10000 ? 0xffff : ~0ul)) == v) return true;
    if (j > i && (i == 0 || !isalnum((unsigned char)t[i-1])) && rel != 9999 && atoi(t.c_str() + i - (i > 0 && t[i-1] == '-')) == rel) return true;
    i= j > i ? j : i + 1;
  }
  for (size_t i= 0; i + 2 < t.size(); i++) {
    if (t[i] == '0' && t[i+1] == 'x') { if (strtoull(t.c_str() + i + 2, 0, 16) == v) return true; }
    if (t[i] == '$') { if (strtoull(t.c_str() + i + 1, 0, 16) == v) return true; }
    if (t[i] == '#' && t[i+1] == '$') { if (strtoull(t.c_str() + i + 2, 0, 16) == v) return true; }
  }
  return false;
}
static void run(const Case &c)
{
  setcase(c);
  uc->state= stGO;
  uc->PC= A;
  for (int i= 0; i < SHADOW; i++) cells[i]->set(i + 1 < (int)c.size() ? c[i+1] : 0);
  for (int i= 0; i < 2 && i + 1 < (int)c.size(); i++) if ((long)rom->get(A + i) != (c[i+1] & (long)wmask)) { fprintf(stderr, "harness: can not place code\n"); _exit(3); }
  int len= uc->inst_length(A);
  bool call= uc->is_call(A);
  chars comment; char *d= uc->disassc(A, &comment);
  string txt= d ? d : ""; if (comment.nempty()) txt+= string(" ") + comment.c_str();
  free(d);
  shm->evaluations++;
  string key= strf("%s:%0*x%0*x", type.c_str(), W/4, (int)c[1], W/4, c.size() > 2 ? (int)c[2] : 0);
  string op= prefixed(c[1]) ? key : strf("%s:%0*x", type.c_str(), W/4, (int)c[1]);
  if (txt.empty()) fail("text:" + op, "%s: bytes %s: the disassembler gives no text", type.c_str(), hexs(c).c_str());
  if (len < 1) { fail("len0:" + op, "%s: bytes %s (%s): length %d", type.c_str(), hexs(c).c_str(), txt.c_str(), len); return; }
#ifdef MC_PDK
  ((cl_pdk*)uc)->set_fppen(1); ((cl_pdk*)uc)->rFPPEN= 1; ((cl_pdk*)uc)->act= 0; ((cl_pdk*)uc)->mode= pm_run; ((cl_pdk*)uc)->fpps[0]->PC= A; ((cl_pdk*)uc)->fpps[0]->state= stGO; uc->PC= A;
#endif
  take_output();
  u64 f0= fetched();
  u64 t0= uc->ticks->get_ticks();
#ifdef MC_SP
  spc->write(MC_SP);
#endif
#ifdef MC_SCANLO
  MC_SCANSET;
  for (int a= MC_SCANLO; a <= MC_SCANHI; a++) stk->set(a, snap[a]= 0xee);
#endif
  if (spc) s0= spc->get() & 0xffff;
  int res= uc->do_inst();
  (void)t0;
  if (uc->errors && uc->errors->count) uc->errors->free_all();
  if (uc->stack_ops && uc->stack_ops->count > 64) uc->stack_ops->free_all();
  if (res == resINV_INST) return;
  int n= fetched() - f0;
  int pc= uc->PC;
  if (n <= 0) return;           // a reset was executed
#ifdef MC_SKIP
  if (n > len && pc == A + n && n == len + uc->inst_length(A + len)) n= len, pc= A + n;   // the next instruction is skipped
#endif
  if (len != n) { string o= take_output(); if (o.find("nknown") != string::npos || o.find("nvalid") != string::npos) return; }
#ifdef MC_UNDEF_OK
  if (prefixed(c[1]) && (txt.find("UNKNOWN") != string::npos || txt.find("unknown") != string::npos || txt.find("INVALID") != string::npos)) return;      // combinations the processor does not define
#endif
  nvalid++; shm->distinct++;
  if (len != n && pc != A + len && pc != A) fail("len:" + op, "%s: bytes %s (%s): disassembled as %d long, execution consumes %d%s pc=%x", type.c_str(), hexs(c).c_str(), txt.c_str(), len, n, pc == A + n ? "" : " (branch)", pc);
  else if (pc != A + n && pc != A + len && pc != A) {
    nbranch++;
    bool direct= false;
    if (W == 8)
      for (int i= 1; i < n && i + 1 < (int)c.size(); i++) {
        int b= c[i+1];
        if (pc == ((A + n + (int8_t)b) & 0xffff)) direct= true;
        if (i + 1 < n) {
          int be= b << 8 | c[i+2], le= b | c[i+2] << 8;
          for (int w: { be, le }) if (pc == w || pc == ((A + n + (int16_t)w) & 0xffff)) direct= true;
        }
      }
    if (MC_TARGET && direct && !(MC_TARGET > 1 && txt.find('[') != string::npos) && txt.find("PC") == string::npos && !shows(txt, pc, n == 2 ? pc - A - n : 9999)) fail("target:" + op, "%s: bytes %s (%s): execution goes to 0x%04x", type.c_str(), hexs(c).c_str(), txt.c_str(), pc);
  }
  if (res != resINTERRUPT && pc != A + n && pc != A + len && pc != A) {
    int r= saved_return(A + n);
    if (r == 1) ncall++;
    if (r == 1 && !call && (n > 1 || W > 8)) fail("call:" + op, "%s: bytes %s (%s): saves its return address and goes to 0x%04x, but is not known as a call", type.c_str(), hexs(c).c_str(), txt.c_str(), pc);
    if (r == 0 && call) fail("nocall:" + op, "%s: bytes %s (%s): known as a call, but goes to 0x%04x without saving where to return", type.c_str(), hexs(c).c_str(), txt.c_str(), pc);
  }
}
static void setup(int t)
{
  type= TYPES[t];
  sim_start({ "-t", TYPES[t] });
  attach_console();
  rom= (cl_address_space*)uc->rom; W= rom->width; wmask= W >= 32 ? 0xffffffff : (1ul << W) - 1;
  uc->do_inst();                // may be the fetch of the reset vector
  spc= var_opt(MC_SPNAME);
  stk= MC_STKMEM ? as(MC_STKMEM) : uc->address_space("data") ? uc->address_space("data") : rom;
  for (int i= 0; i < SHADOW; i++) cells[i]= rom->get_cell(A + i);
}
void mc::harness_run()
{
  int t= shard / MC_PER, s= shard % MC_PER;
  setup(t);
  std::vector<int> B2= { 0x12, 0x00, 0x80, 0xff, 0x7f, 0xcb, 0x41 };
  if (thorough) for (int b= 0; b < 256; b+= 3) B2.push_back(b);
  if (W == 8) {
    for (int x= s; x < 0x10000; x+= MC_PER) {
      for (int b: B2) run({ (long)t, x >> 8, x & 0xff, b, 0x34, 0x56, 0x78 });
      if ((x & 0xff) == 0) beat();
    }
  }
  else for (long x= s; x < (1l << (W > 16 ? 18 : W)); x+= MC_PER) { run({ (long)t, x, 0x1234, 0, 0 }); }
  if (nvalid * MC_PER < MC_MINVALID || (MC_MINCALL && ncall < MC_MINCALL)) { fprintf(stderr, "harness: %s: only %llu instructions, %llu calls seen\n", type.c_str(), nvalid, ncall); _exit(3); }
  counter(strf("valid_%s", type.c_str()).c_str())= nvalid; counter(strf("branches_%s", type.c_str()).c_str())= nbranch; counter(strf("calls_%s", type.c_str()).c_str())= ncall;
}
void mc::harness_replay(const Case &c) { setup(c[0]); run(c); }
