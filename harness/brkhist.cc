/* Breakpoints: every command history up to a depth over a running program,
   the real debugger against a model over the program's breakpoint-free trace. */
#include "simdrv.h"
using namespace mc;
int mc::harness_default_shards= 0;

#ifdef MC_M6809
static const int PROG[]= { 0x0c,0x31, 0x96,0x31, 0x12, 0x97,0x30, 0x20,0x01, 0x12, 0xb7,0x01,0x23, 0xb6,0x01,0x23, 0x8d,0x06, 0x0a,0x32, 0x20,0xea,
                           0x12,0x12, 0x0c,0x34, 0x39 };
static const int PROG2[]= { 0x0c,0x31, 0x96,0x31, 0x12, 0x97,0x30, 0x12,0x12,0x12,0x3c,0xff,0x20,0xf2 };   // CWAI waits
enum { INCR= 0x00, LOAD= 0x02, STORE= 0x05, STX= 0x0a, LDX= 0x0d, CALL= 0x10, DEC= 0x12, SUB= 0x18, SRET= 0x1a,
       STK0= 0x1fe, STK1= 0x1ff, IDLE= 0x0a, IDLEA= 0x1f8, IDLES= 'i' };
#define SPACE "rom"
#define XS 'i'
#else
static const int PROG[]= { 0x78,0x30, 0x90,0x01,0x23, 0x05,0x31, 0xe5,0x31, 0xf6, 0xf0, 0xe0, 0x11,0x13,
                           0xd5,0x32,0xf4, 0x80,0xf2, 0x05,0x34, 0x22 };
static const int PROG2[]= { 0x78,0x30, 0x90,0x01,0x23, 0x05,0x31, 0xe5,0x31, 0xf6, 0x43,0x87,0x01, 0x80,0xf6 }; // goes idle
enum { INCR= 0x05, LOAD= 0x07, STORE= 0x09, STX= 0x0a, LDX= 0x0b, CALL= 0x0c, DEC= 0x0e, SUB= 0x13, SRET= 0x15,
       STK0= 0x08, STK1= 0x09, IDLE= 0x0a, IDLEA= 0x87, IDLES= 's' };
#define SPACE "iram"
#define XS 'x'
#endif
enum { CAP= 70, NTRACE= 900 };
struct Acc { char sp; int a; char rw; };
static std::vector<Acc> accesses(int prog, int pc)
{
  if (prog && pc == IDLE)
#ifdef MC_M6809
    return { {'i',0x1ff,'w'},{'i',0x1fe,'w'},{'i',0x1fd,'w'},{'i',0x1fc,'w'},{'i',0x1fb,'w'},{'i',0x1fa,'w'},{'i',0x1f9,'w'},{'i',0x1f8,'w'},{'i',0x1f7,'w'},{'i',0x1f6,'w'},{'i',0x1f5,'w'},{'i',0x1f4,'w'} };
#else
    return { {'s',0x87,'r'}, {'s',0x87,'w'} };
#endif
  if (prog && pc >= IDLE) return {};
  switch (pc) {
  case INCR: return { {'i',0x31,'r'}, {'i',0x31,'w'} };
  case LOAD: return { {'i',0x31,'r'} };
  case STORE: return { {'i',0x30,'w'} };
  case STX: return { {XS,0x123,'w'} };
  case LDX: return { {XS,0x123,'r'} };
  case CALL: return { {'i',STK0,'w'}, {'i',STK1,'w'} };
  case DEC: return { {'i',0x32,'r'}, {'i',0x32,'w'} };
  case SUB: return { {'i',0x34,'r'}, {'i',0x34,'w'} };
  case SRET: return { {'i',STK1,'r'}, {'i',STK0,'r'} };
  }
  return {};
}
struct St { int pc, a, m[5], sp; };
static std::vector<St> trace[2];
static std::vector<std::vector<Acc>> tacc[2];
static std::vector<bool> tidle[2];
static uint8_t *iram, *sfr;
static St now()
{
  St s; s.pc= uc->PC;
#ifdef MC_M6809
  s.a= var("A")->get(); s.sp= var("S")->get();
#else
  s.a= sfr[0x60]; s.sp= sfr[1];
#endif
  for (int i= 0; i < 5; i++) s.m[i]= iram[0x30+i];
  return s;
}

enum kind { BREAK, TBREAK, EBREAK, TEBREAK, DELETE, DELALL, CLEAR, COMMANDS, RUN, STEP, NEXT, RUNTO, INFO };
struct Op { int k; long a, b; char sp, rw; int cond; const char *text; };
static std::vector<Op> ops;
static std::vector<int> L3, L4;

struct Bp { int nr; bool ev; long a; char sp, rw; bool temp; int hit, cnt; int cond; bool cmds; };
static const char *condtext[]= { "", SPACE "[0x34]==3", SPACE "[0x34]&1" };
struct Model {
  int prog; std::vector<Bp> bps; int counter; size_t i; int mark, marked; bool stop_ev; int idle_steps;
  int newnr() { if (bps.empty()) return counter= 1; return ++counter; }
  bool cond(int c) {
    int v= trace[prog][i].m[4];
    return c == 0 || (c == 1 && v == 3) || (c == 2 && (v & 1));
  }
  // returns 'b','e','s'(steps) or 0 when cap reached
  char run(long steps)
  {
    for (long n= 0; ; n++) {
      if (steps && n >= steps) return 's';
      if (n >= CAP) return 0;
      int pc= trace[prog][i].pc;
      if (n > 0 && !tidle[prog][i])
        for (size_t x= 0; x < bps.size(); x++) {
          Bp &b= bps[x];
          if (b.ev || b.a != pc) continue;
          if (--b.cnt <= 0) {
            b.cnt= b.hit;
            if (cond(b.cond)) {
              if (b.temp) bps.erase(bps.begin()+x); else if (b.cmds) mark= 0x77;
              return 'b';
            }
          }
          break;
        }
      bool ev= false;
      std::vector<int> gone;
      size_t at= i;
      for (Acc &ac: tacc[prog][at])
        for (Bp &b: bps)
          if (b.ev && b.sp == ac.sp && b.a == ac.a && b.rw == ac.rw)
            if (--b.cnt <= 0) {
              b.cnt= b.hit;
              if (!cond(b.cond)) continue;
              ev= true;
              if (b.temp) gone.push_back(b.nr); else if (b.cmds) mark= 0x77;
            }
      for (int nr: gone) for (size_t x= 0; x < bps.size(); x++) if (bps[x].nr == nr) { bps.erase(bps.begin()+x); break; }
      i++;
      if (ev) return 'e';
    }
  }
};
static Model md;
static bool is_call(int pc) { return !md.prog && pc == CALL; }

static std::string line(const Op &o)
{
  std::string c= o.cond ? strf(" if \"%s\"", condtext[o.cond]) : "";
  const char *sp= o.sp == 'x' ? "xram" : o.sp == 's' ? "sfr" : SPACE;
  switch (o.k) {
  case BREAK: case TBREAK:
    if (o.b == 1 && !o.cond) return strf("%s %ld", o.k==BREAK?"break":"tbreak", o.a);
    if (o.b == 1) return strf("%s %ld%s", o.k==BREAK?"break":"tbreak", o.a, c.c_str());
    return strf("%s %ld %ld%s", o.k==BREAK?"break":"tbreak", o.a, o.b, c.c_str());
  case EBREAK: case TEBREAK:
    if (o.b == 1) return strf("%s %s %c %ld%s", o.k==EBREAK?"break":"tbreak", sp, o.rw, o.a, c.c_str());
    return strf("%s %s %c %ld %ld%s", o.k==EBREAK?"break":"tbreak", sp, o.rw, o.a, o.b, c.c_str());
  case DELETE: return strf("delete %ld", o.a);
  case DELALL: return "delete";
  case CLEAR: return strf("clear %ld", o.a);
  case COMMANDS: return strf("commands %ld \"set memory " SPACE " 0x50 0x77\"", o.a);
  case RUN: return "run";
  case STEP: return o.a == 1 ? "step" : strf("step %ld", o.a);
  case NEXT: return "next";
  case RUNTO: return strf("run %d %ld", (int)uc->PC, o.a);
  case INFO: return "info breakpoints";
  }
  return "";
}
static int bpos(long pc, bool ev= false)
{ for (size_t x= 0; x < md.bps.size(); x++) if (!md.bps[x].ev && md.bps[x].a == pc) return x; return -1; }

static char model_apply(const Op &o)
{
  switch (o.k) {
  case BREAK: case TBREAK:
    if (o.a < 0x10000 && bpos(o.a) < 0) md.bps.push_back(Bp{ md.newnr(), false, o.a, 0, 0, o.k==TBREAK, (int)o.b, (int)o.b, o.cond, false });
    break;
  case EBREAK: case TEBREAK:
    md.bps.push_back(Bp{ md.newnr(), true, o.a, o.sp, o.rw, o.k==TEBREAK, (int)o.b, (int)o.b, o.cond, false });
    break;
  case DELETE:
    for (size_t x= 0; x < md.bps.size(); x++) if (md.bps[x].nr == o.a) { md.bps.erase(md.bps.begin()+x); break; }
    break;
  case DELALL: md.bps.clear(); break;
  case CLEAR: { int x= bpos(o.a); if (x >= 0) md.bps.erase(md.bps.begin()+x); break; }
  case COMMANDS: for (Bp &b: md.bps) if (b.nr == o.a) b.cmds= !b.temp; break;
  case RUN: return md.run(0);
  case STEP: return md.run(o.a);
  case RUNTO:
    if (trace[md.prog][md.i].pc == o.a || o.a > 0xffff) return '-';
    if (bpos(o.a) < 0) md.bps.push_back(Bp{ md.newnr(), false, o.a, 0, 0, true, 1, 1, 0, false });
    return md.run(0);
  case NEXT: {
    int pc= trace[md.prog][md.i].pc;
    if (!is_call(pc)) return md.run(1);
    if (bpos(pc+2) < 0) md.bps.push_back(Bp{ md.newnr(), false, pc+2, 0, 0, true, 1, 1, 0, false });
    return md.run(0); }
  }
  return '-';
}

static char real_apply(const Op &o, std::string &out)
{
  if (o.k == RUN || o.k == STEP || o.k == NEXT || (o.k == RUNTO && o.a != uc->PC && o.a < 0x10000)) {
    out= cmd(line(o));
    long n= 0;
    // as the main loop does
    while ((sim->state & SIM_GO) && n < CAP) { sim->step(); n++; }
    if ((sim->state & SIM_GO) && n >= CAP) { cmd("stop"); out+= take_output(); return 0; }
    out+= take_output();
    size_t p= out.find("Stop at 0x");
    if (p == std::string::npos) return '?';
    if (out.find("\nStop at 0x", p) != std::string::npos) return '2';
    if (out.find(") Breakpoint", p) != std::string::npos) return 'b';
    if (out.find(") Event break", p) != std::string::npos) return 'e';
    if (out.find(") stepped", p) != std::string::npos) return 's';
    return '?';
  }
  if (o.k == COMMANDS) // what the commands of a temporary breakpoint do when it is hit is not specified
    for (Bp &b: md.bps) if (b.nr == o.a && b.temp) return '-';
  out= cmd(line(o));
  return '-';
}
static void reset_all(int prog)
{
  cmd("delete");
  uc->fbrk->free_all(); uc->ebrk->free_all();
  cmd("reset");
  uc->events->disconn_all();
  uc->stack_ops->free_all(); uc->errors->free_all();
#ifdef MC_M6809
  uint8_t *rom= iram;
  memset(rom, 0, 0x300);
  var("S")->write(0x200); var("A")->write(0); var("B")->write(0); var("CC")->write(0x50); var("DP")->write(0);
#else
  for (int i= 0; i < 128; i++) iram[i]= 0;
  chip8("xram_chip")[0x123]= 0;
  uint8_t *rom= chip8("rom_chip");
  memset(rom, 0, 64);
#endif
  if (!prog) for (size_t i= 0; i < sizeof PROG/sizeof *PROG; i++) rom[i]= PROG[i];
  else for (size_t i= 0; i < sizeof PROG2/sizeof *PROG2; i++) rom[i]= PROG2[i];
  uc->PC= 0;
}
static void mktrace()
{
#ifdef MC_M6809
  iram= chip8("rom_chip");
#else
  iram= chip8("iram_chip"); sfr= chip8("sfr_chip");
#endif
  for (int p= 0; p < 2; p++) {
    reset_all(p);
    for (int i= 0; i < NTRACE; i++) {
      trace[p].push_back(now());
      tidle[p].push_back(uc->state != stGO);
      tacc[p].push_back(uc->state == stGO ? accesses(p, uc->PC) : std::vector<Acc>());
      uc->do_inst();
    }
  }
}

static std::string check_list()
{
  std::string o= cmd("info breakpoints");
  // every breakpoint the model has, with its number, must be listed and no other
  size_t n= 0;
  for (size_t p= 0; (p= o.find('\n', p)) != std::string::npos; p++) ;
  for (Bp &b: md.bps) {
    std::string s= strf("%-3d %-10s %s", b.nr, b.ev?"event":"fetch", b.temp?"D":"F");
    bool f= false;
    size_t p= 0;
    while (p < o.size()) {
      size_t e= o.find('\n', p); if (e == std::string::npos) e= o.size();
      std::string l= o.substr(p, e-p);
      p= e+1;
      int nr; if (sscanf(l.c_str(), "%d", &nr) == 1 && nr == b.nr) {
        f= true;
        if ((l.find("fetch") != std::string::npos) == b.ev) return strf("breakpoint %d has a wrong type in '%s'", b.nr, l.c_str());
      }
    }
    if (!f) return strf("breakpoint %d is not listed", b.nr);
  }
  n= uc->fbrk->count + uc->ebrk->count;
  if (n != md.bps.size()) return strf("%d breakpoints exist, %d expected", (int)n, (int)md.bps.size());
  return "";
}
static void run_seq(int prog, const int *q, int n)
{
  reset_all(prog);
  md= Model(); md.prog= prog; md.counter= 0; md.i= 0; md.mark= 0;
  std::string hist;
  static const char *kn[]= { "break", "tbreak", "evbreak", "tevbreak", "delete", "delall", "clear", "commands", "run", "step", "next", "runto", "info" };
  std::string sig= prog ? "idle:" : "";
  for (int i= 0; i < n; i++) {
    const Op &o= ops[q[i]];
    hist+= line(o); if (i < n-1) hist+= " | ";
    std::string out;
    char r= real_apply(o, out), e= model_apply(o);
    shm->transitions++;
    if (r != e) { fail(sig+kn[o.k]+strf(":stop-%c-%c", e?e:'0', r?r:'0'), "%s: stops by '%c' at 0x%x, expected '%c' at 0x%x", hist.c_str(), r?r:'-', (int)uc->PC, e?e:'-', trace[prog][md.i].pc); break; }
    St s= now(), &t= trace[prog][md.i];
    if (memcmp(&s, &t, sizeof s)) { fail(sig+kn[o.k]+":state", "%s: PC=%x A=%x [31]=%x, expected PC=%x A=%x [31]=%x", hist.c_str(), s.pc, s.a, s.m[1], t.pc, t.a, t.m[1]); break; }
    if (iram[0x50] != md.mark) { fail(sig+kn[o.k]+":commands", "%s: breakpoint commands %s", hist.c_str(), md.mark?"did not run":"ran"); break; }
    if (i == n-1) { std::string e= check_list(); if (e.size()) fail(sig+kn[o.k]+":list", "%s: %s", hist.c_str(), e.c_str()); }
  }
  shm->evaluations++; shm->traces++;
}
static void add(std::initializer_list<std::vector<int>*> ls, Op o) { ops.push_back(o); for (auto l: ls) l->push_back(ops.size()-1); }
static void alphabet()
{
  auto a= &L3, b= &L4;
  add({a,b}, {RUN}); add({a,b}, {STEP,1}); add({a}, {STEP,3}); add({a,b}, {STEP,12}); add({a,b}, {NEXT});
  for (long pc: { (long)INCR, (long)CALL, (long)SUB, (long)DEC }) add({a}, {BREAK,pc,1});
  add({b}, {BREAK,SUB,1}); add({b}, {BREAK,DEC,2}); add({a,b}, {TBREAK,SUB,1}); add({a}, {TBREAK,LOAD,2}); add({a,b}, {BREAK,LOAD,3}); add({a}, {TBREAK,DEC,1});
  add({a,b}, {BREAK,STORE,1,0,0,1}); add({a}, {BREAK,SUB,2,0,0,2}); add({a}, {TBREAK,CALL,1,0,0,1});
  add({a,b}, {EBREAK,0x31,1,'i','r'}); add({a,b}, {EBREAK,0x31,1,'i','w'}); add({a}, {EBREAK,0x31,3,'i','r'}); add({a,b}, {TEBREAK,0x34,1,'i','w'});
  add({a}, {EBREAK,0x30,2,'i','w'}); add({a}, {TEBREAK,0x31,2,'i','r'}); add({a}, {EBREAK,0x123,1,XS,'w'}); add({a}, {TEBREAK,0x123,1,XS,'r'});
  add({a}, {EBREAK,STK0,1,'i','w'}); add({a}, {EBREAK,STK1,1,'i','r'}); add({a}, {EBREAK,0x32,1,'i','w'});
  add({a}, {EBREAK,IDLEA,1,IDLES,'w'}); add({a}, {TEBREAK,IDLEA,1,IDLES,'w'});
  add({a,b}, {DELETE,1}); add({a}, {DELETE,2}); add({a}, {DELALL}); add({b}, {DELALL}); add({a,b}, {CLEAR,SUB}); add({a}, {CLEAR,CALL}); add({a}, {COMMANDS,1}); add({a}, {COMMANDS,2});
  add({a,b}, {BREAK,0x20000,1}); add({a,b}, {RUNTO,SUB}); add({a,b}, {EBREAK,0x31,1,'i','w',1}); add({a}, {TEBREAK,0x31,2,'i','r',2}); add({a}, {RUNTO,LOAD}); add({a}, {RUNTO,0x10000});
}
static u64 idx;
static void enumerate(int prog, const std::vector<int> &L, int depth, int *q, int n)
{
  if (n == depth) {
    bool go= false;
    for (int i= 0; i < n; i++) { int k= ops[q[i]].k; if (k == RUN || k == STEP || k == NEXT || k == RUNTO) go= true; }
    if (!go) return;
    if ((int)(idx++ % nshards) != shard) return;
    long v[10]= { prog }; for (int i= 0; i < n; i++) v[i+1]= q[i];
    setcase(v, n+1);
    run_seq(prog, q, n);
    std::string k= strf("%d %d %d:", prog, (int)md.i, md.mark);
    for (Bp &b: md.bps) k+= strf("%d,%d,%ld,%c%c,%d,%d,%d;", b.nr, b.ev, b.a, b.sp?b.sp:'-', b.rw?b.rw:'-', b.temp, b.cnt, b.cond);
    static std::vector<bool> seen(1 << 24);
    size_t h= std::hash<std::string>()(k) & 0xffffff;
    if (!seen[h]) seen[h]= true, shm->states++, shm->distinct++;
    return;
  }
  for (int i: L) { q[n]= i; enumerate(prog, L, depth, q, n+1); }
}
static void start() { alphabet(); 
#ifdef MC_M6809
  sim_start({});
#else
  sim_start({ "-t", "C52" });
#endif
  mktrace(); }
void mc::harness_run()
{
  start();
  int q[8];
  for (int p= 0; p < 2; p++) {
    enumerate(p, L3, 1, q, 0);
    enumerate(p, L3, 2, q, 0);
    enumerate(p, L3, 3, q, 0);
    enumerate(p, L4, 4, q, 0);
    if (thorough || !p) enumerate(p, L4, 5, q, 0);
    if (thorough) enumerate(p, L3, 4, q, 0);
  }
  if (!shard) { counter("alphabet3")= L3.size(); counter("alphabet4")= L4.size(); sample("break 19 | run | next | delete 1"); }
}
void mc::harness_replay(const Case &c)
{
  start();
  int q[8]; for (size_t i= 1; i < c.size(); i++) q[i-1]= c[i];
  run_seq(c[0], q, c.size()-1);
}
