/* Expressions: every token sequence up to a length, every flat combination of
   operators, every assignment form and every literal, evaluated by the real
   scanner and grammar and by an independent evaluator. */
#include "simdrv.h"
#include "iwrap.h"
#include "cpu.h"
#include <map>
#include <memory>
using namespace mc;
using std::string; using std::vector;
int mc::harness_default_shards= 0;

static cl_memory *xr, *sfrm;
static cl_memory_cell *cvc;
static vector<uint8_t> pristine;
static long XS;
static const long CELLS[8]= { 0x01, 0x80, 0xc7, 0xff, 0x02, 0x00, 0x55, 0x1f };

// ------------------------------------------------------------ reference
enum { XRAM, CV, BREG, IEREG };
struct State {
  std::map<long,long> x; long cv, b, ie;
  long rd(int s, long a) { if (s == CV) return cv; if (s == BREG) return b; if (s == IEREG) return ie; auto i= x.find(a); return i == x.end() ? pristine[a] : i->second; }
  void wr(int s, long a, unsigned long v) { if (s == CV) cv= v & 0xffffffffUL; else if (s == BREG) b= v & 0xff; else if (s == IEREG) ie= v & 0xff; else x[a]= v & 0xff; }
};
struct LV { int sp; long a; int lo, hi; };     // lo<0: whole cell
enum tk { T_END, T_NUM, T_MEM, T_VAR, T_OP, T_BAD, T_INT };
struct Tok { int k; long v; string s; };
struct Syntax {}; struct DivZero {};

static vector<Tok> lex(const string &s)
{
  static const char *ops[]= { "<<=",">>=","*=","/=","%=","+=","-=","&=","^=","|=","&&","||","^^","++","--","==","!=",">=","<=",">>","<<",
    "+","-","*","/","(",")","[","]","=",".","&","|","^","%","~","?",":","<",">","!",",", 0 };
  vector<Tok> r; size_t i= 0, n= s.size();
  while (i < n) {
    char c= s[i];
    if (c == ' ' || c == '\t') { i++; continue; }
    auto num= [&](int base, size_t j) {
      unsigned long v= 0; auto dig= [&](char d)->int { int x= isdigit(d) ? d-'0' : isalpha(d) ? tolower(d)-'a'+10 : 99; return x < base ? x : -1; };
      while (j < n && dig(s[j]) >= 0) v= v*base + dig(s[j++]);
      r.push_back({ T_NUM, (long)v, s.substr(i, j-i) }); i= j;
    };
    if (c == '$' && i+1 < n && isxdigit(s[i+1])) { num(16, i+1); continue; }
    if (c == '0' && i+2 < n && (s[i+1] == 'x' || s[i+1] == 'X') && isxdigit(s[i+2])) { num(16, i+2); continue; }
    if (c == '0' && i+2 < n && s[i+1] == 'b' && (s[i+2] == '0' || s[i+2] == '1')) { num(2, i+2); continue; }
    if (c == '0') { num(8, i); continue; }
    if (isdigit(c)) { num(10, i); continue; }
    if (c == '\'') { size_t j= s.find('\'', i+1); if (j == string::npos || j == i+1) { r.push_back({ T_BAD, 0, "'" }); i++; continue; }
      string b= s.substr(i+1, j-i-1); r.push_back({ T_NUM, (long)(unsigned char)b[0], b }); i= j+1; continue; }
    if (isalpha(c) || c == '_' || (c == '.' && i+1 < n && (isalpha(s[i+1]) || s[i+1] == '_'))) {
      size_t j= i+1; while (j < n && (isalnum(s[j]) || s[j] == '_')) j++;
      string id= s.substr(i, j-i); i= j;
      if (id == "xram") r.push_back({ T_MEM, XRAM, id });
      else if (id == "sb" || id == "s1" || id == "cv" || id == "B" || id == "EA" || id == "wv") r.push_back({ T_VAR, 0, id });
      else if (id == "int") r.push_back({ T_INT, 0, id });
      else r.push_back({ T_BAD, 0, id });
      continue;
    }
    int k= 0; while (ops[k] && s.compare(i, strlen(ops[k]), ops[k])) k++;
    if (ops[k]) { r.push_back({ T_OP, 0, ops[k] }); i+= strlen(ops[k]); }
    else { r.push_back({ T_BAD, 0, string(1, c) }); i++; }
  }
  r.push_back({ T_END, 0, "" });
  return r;
}

// expression trees
struct Node; typedef std::shared_ptr<Node> P;
struct Node { string op; long v; vector<P> k; };
static P mk(const string &op, vector<P> k= {}, long v= 0) { P p(new Node); p->op= op; p->k= k; p->v= v; return p; }

struct Parser {
  const vector<Tok> &t; size_t i; bool loose;
  Parser(const vector<Tok> &x): t(x), i(0), loose(false) {}
  bool is(const char *o) { return t[i].k == T_OP && t[i].s == o; }
  bool eat(const char *o) { if (is(o)) { i++; return true; } return false; }
  void need(const char *o) { if (!eat(o)) throw Syntax(); }
  P all() { P e= expr(); if (t[i].k != T_END) throw Syntax(); return e; }
  P expr() { P a= assign(); while (is(",")) { i++; a= mk(",", { a, assign() }); } return a; }
  static bool asg(const Tok &k) { static const char *o[]= { "=","*=","/=","%=","+=","-=","<<=",">>=","&=","^=","|=" }; if (k.k == T_OP) for (auto x: o) if (k.s == x) return true; return false; }
  // an lvalue: memory cell or bits
  P lval()
  {
    P m;
    if (t[i].k == T_VAR) m= mk("v:" + t[i++].s);
    else if (t[i].k == T_MEM) { i++; need("["); P a= expr(); need("]"); m= mk("cell", { a }); }
    else throw Syntax();
    if (eat(".")) return mk("bit", { m, expr() });
    if (is("[")) { i++; P a= expr(); need(":"); P b= expr(); need("]"); return mk("bits", { m, a, b }); }
    return m;
  }
  P assign()
  {
    size_t s= i;
    if (t[i].k == T_VAR || t[i].k == T_MEM) {
      P l= lval();
      if (asg(t[i])) { string o= t[i++].s; return mk(o, { l, assign() }); }
      i= s;
    }
    return cond();
  }
  P cond()
  {
    P c= bin(0);
    if (eat("?")) { P a= expr(); need(":"); return mk("?", { c, a, cond() }); }
    return c;
  }
  P bin(int lev)
  {
    static const vector<vector<const char*>> L= { {"||"}, {"^^"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==","!="}, {"<",">","<=",">="}, {"<<",">>"}, {"+","-"}, {"*","/","%"} };
    if (lev == (int)L.size()) return cast();
    P a= bin(lev+1);
    for (;;) {
      const char *o= 0; for (auto x: L[lev]) if (is(x)) o= x;
      if (!o) return a;
      i++; a= mk(string("b") + o, { a, bin(lev+1) });
    }
  }
  P cast()
  {
    if (is("(") && t[i+1].k == T_INT) {
      i+= 2; need(")");
      P m= lval(); if (m->op == "bit" || m->op == "bits" || m->op == "v:sb" || m->op == "v:s1" || m->op == "v:EA") loose= true;
      return mk("int", { m });
    }
    return unary();
  }
  P unary()
  {
    for (const char *o: { "++", "--" }) if (eat(o)) return mk(string("pre") + o, { lval() });
    if (eat("&")) return mk("&", { lval() });
    for (const char *o: { "-", "+", "~", "!" }) if (eat(o)) return mk(string("u") + o, { unary() });
    if (t[i].k == T_NUM) return mk("num", {}, t[i++].v);
    if (eat("(")) { P e= expr(); need(")"); return e; }
    P l= lval();
    for (const char *o: { "++", "--" }) if (eat(o)) return mk(string("post") + o, { l });
    return mk("rd", { l });
  }
};

struct Eval {
  State &s; bool unspec;
  Eval(State &x): s(x), unspec(false) {}
  LV loc(const P &p)
  {
    if (p->op == "v:cv") return { CV, 0, -1, -1 };
    if (p->op == "v:B") return { BREG, 0, -1, -1 };
    if (p->op == "v:EA") return { IEREG, 0, 7, 7 };
    if (p->op == "v:wv") return { XRAM, 4, -1, -1 };
    if (p->op == "v:sb") return { XRAM, 2, 2, 5 };
    if (p->op == "v:s1") return { XRAM, 6, 6, 6 };
    if (p->op == "cell") { long a= ev(p->k[0]); if (a < 0 || a >= XS) { unspec= true; a= 7; } return { XRAM, a, -1, -1 }; }
    LV m= loc(p->k[0]); int w= m.sp == CV ? 32 : 8;
    if (m.sp == IEREG) unspec= true;
    if (p->op == "bit") { long b= ev(p->k[1]); if (b < 0 || b >= w) unspec= true, b= 0; m.lo= m.hi= b; return m; }
    long a= ev(p->k[1]), b= ev(p->k[2]); if (a > b) std::swap(a, b);
    if (a < 0 || b >= w) unspec= true, a= b= 0;
    m.lo= a; m.hi= b; return m;
  }
  static unsigned long mask(const LV &l) { return ((1UL << (l.hi-l.lo+1)) - 1) << l.lo; }
  long rd(const LV &l) { unsigned long v= s.rd(l.sp, l.a); return l.lo < 0 ? v : (v & mask(l)) >> l.lo; }
  long wr(const LV &l, long v)
  {
    if (l.lo < 0) s.wr(l.sp, l.a, v);
    else s.wr(l.sp, l.a, (s.rd(l.sp, l.a) & ~mask(l)) | (((unsigned long)v << l.lo) & mask(l)));
    return rd(l);
  }
  long arith(const string &o, long a, long b)
  {
    unsigned long ua= a, ub= b;
    if (o == "+") return ua+ub; if (o == "-") return ua-ub; if (o == "*") return ua*ub;
    if (o == "/" || o == "%") { if (!b) throw DivZero(); if (b == -1) return o == "/" ? (long)(0-ua) : 0; return o == "/" ? a/b : a%b; }
    if (o == "<<" || o == ">>") { if (b < 0 || b > 63) { unspec= true; return 0; } return o == "<<" ? (long)(ua << b) : a >> b; }
    if (o == "<") return a<b; if (o == ">") return a>b; if (o == "<=") return a<=b; if (o == ">=") return a>=b; if (o == "==") return a==b; if (o == "!=") return a!=b;
    if (o == "&") return a&b; if (o == "|") return a|b; if (o == "^") return a^b; if (o == "^^") return !a != !b;
    abort();
  }
  long ev(const P &p)
  {
    const string &o= p->op;
    if (o == "num") return p->v;
    if (o == "rd") return rd(loc(p->k[0]));
    if (o == ",") { ev(p->k[0]); return ev(p->k[1]); }
    if (o == "?") return ev(p->k[0]) ? ev(p->k[1]) : ev(p->k[2]);
    if (o == "b&&") return ev(p->k[0]) ? ev(p->k[1]) != 0 : 0;
    if (o == "b||") return ev(p->k[0]) ? 1 : ev(p->k[1]) != 0;
    if (o[0] == 'b' && o != "bit" && o != "bits") { long a= ev(p->k[0]), b= ev(p->k[1]); return arith(o.substr(1), a, b); }
    if (o == "u-") return 0-(unsigned long)ev(p->k[0]); if (o == "u+") return ev(p->k[0]); if (o == "u~") return ~ev(p->k[0]); if (o == "u!") return !ev(p->k[0]);
    if (o == "&") { LV l= loc(p->k[0]); const string &k= p->k[0]->op; if (k == "bit" || k == "bits" || l.sp == CV) unspec= true; return l.sp == BREG ? 0xf0 : l.sp == IEREG ? 175 : l.a; }
    if (o == "int") { LV l= loc(p->k[0]); if (l.lo >= 0) unspec= true; long v= rd(l); return l.sp == CV ? (long)(int32_t)v : (long)(int8_t)v; }
    if (o.compare(0, 3, "pre") == 0) { LV l= loc(p->k[0]); return wr(l, o[3] == '+' ? rd(l)+1 : rd(l)-1); }
    if (o.compare(0, 4, "post") == 0) { LV l= loc(p->k[0]); long v= rd(l); wr(l, o[4] == '+' ? v+1 : v-1); return v; }
    LV l= loc(p->k[0]); long v= ev(p->k[1]);
    if (l.sp == IEREG && v != 0 && v != 1 && v != 1111) unspec= true;
    if (o == "=") return wr(l, v);
    long w= arith(o.substr(0, o.size()-1), rd(l), v);
    if (l.sp == IEREG && w != 0 && w != 1) unspec= true;
    return wr(l, w);
  }
};

// ------------------------------------------------------------ real side
static State init(long cv, long b)
{
  State s; s.cv= cv; s.b= b; s.ie= 0;
  return s;
}
static void load(const State &s) { cvc->set(s.cv); sfrm->set(0xf0, s.b); sfrm->set(0xa8, s.ie); }
static u64 nchk;
static void pristine_check()
{
  for (long a= 0; a < XS; a++) if (xr->get(a) != pristine[a]) { fail("stray", "xram[0x%lx] became 0x%x (was 0x%x) without being named", a, (unsigned)xr->get(a), pristine[a]); xr->set(a, pristine[a]); }
}
static string show(const string &e) { return e; }
static void one(const string &e, State st)
{
  State ref= st;
  bool syn= false, dz= false, unspec= false; long want= 0;
  try { vector<Tok> t= lex(e); Parser p(t); P n= p.all(); Eval ev(ref); try { want= ev.ev(n); } catch (DivZero&) { dz= true; } unspec= ev.unspec || p.loose; }
  catch (Syntax&) { syn= true; }
  load(st);
  long got= application->eval(chars(e.c_str()));
  string out= take_output();
  bool err= out.find("rror") != string::npos;
  shm->evaluations++;
  static u64 &nv= counter("well_formed"), &ns= counter("malformed"), &nd= counter("divisions_by_zero");
  if (syn) { ns++; if (!err) fail("accepted", "'%s' is not an expression but was evaluated to %d", show(e).c_str(), (int)got); }
  else if (!unspec) {
    shm->distinct++; shm->traces++;
    if (dz) { nd++; if (!err) fail("div0:silent", "'%s' divides by zero without being reported", e.c_str()); }
    else {
      nv++;
      if (err) fail("rejected", "'%s' is an expression, but: %s", show(e).c_str(), out.c_str());
      else if ((uint32_t)got != (uint32_t)want) fail("value", "'%s' is %d but was evaluated to %d", show(e).c_str(), (int)want, (int)got);
    }
    if (!err || dz) {
      if ((long)cvc->get() != ref.cv) fail("state:var", "'%s' left variable 0x%lx, expected 0x%lx", e.c_str(), (long)cvc->get(), ref.cv);
      if ((long)sfrm->get(0xf0) != ref.b) fail("state:sfr", "'%s' left B 0x%lx, expected 0x%lx", e.c_str(), (long)sfrm->get(0xf0), ref.b);
      if ((long)sfrm->get(0xa8) != ref.ie) fail("state:bit", "'%s' left IE 0x%lx, expected 0x%lx", e.c_str(), (long)sfrm->get(0xa8), ref.ie);
      for (long a= 0; a < 8; a++) { long w= ref.rd(XRAM, a); if ((long)xr->get(a) != w) fail("state:mem", "'%s' left xram[%ld] 0x%lx, expected 0x%lx", e.c_str(), a, (long)xr->get(a), w); }
      for (auto &i: ref.x) { shm->transitions++; if ((long)xr->get(i.first) != i.second) fail("state:mem", "'%s' left xram[%ld] 0x%lx, expected 0x%lx", e.c_str(), i.first, (long)xr->get(i.first), i.second); }
    }
  }
  for (auto &i: ref.x) if (i.first >= 0 && i.first < XS) xr->set(i.first, pristine[i.first]);
  for (long a= 0; a < 8; a++) xr->set(a, pristine[a]);
  if (unspec || syn) for (long a= 0; a < 300; a++) xr->set(a, pristine[a]);    // partial effects are not specified
  if (++nchk % 20000 == 0) { beat(); pristine_check(); }
}

// ------------------------------------------------------------ alphabets
static const vector<string> A= { "1","2","7","(",")","+","-","*","/","%","<<",">>","<",">","<=",">=","==","!=","&","|","^","&&","||","^^","~","!","?",":",",","0" };
static const vector<string> S= { "xram[0]","xram[1]","xram[","]","1","3","=","+=","-=","++","--","&&","||","?",":",",","(",")",".","[","-","sb","cv","B","s1","foo","&","(int)" };
static const vector<string> OPS= { "+","-","*","/","%","<<",">>","<",">","<=",">=","==","!=","&","|","^","&&","||","^^",",","?:" };
static const vector<string> V= { "0","1","2","3","7","255","(-3)","0x10000","0xffffffff","(-1)" };
static const vector<string> LVS= { "xram[0]","xram[3]","sb","s1","xram[0].3","xram[3].0","xram[1].7","xram[0][5:2]","xram[0][2:5]","xram[2][7:0]","xram[6][7:7]","cv","B","EA","wv","xram[xram[4]]","cv[31:16]","cv.31","B.2","xram[12-9].9-2","sb[1:0]","s1.3" };
static const vector<string> ASG= { "=","*=","/=","%=","+=","-=","<<=",">>=","&=","^=","|=" };
static const vector<string> RHS= { "0","1","2","3","7","9","20","31","128","255","256","1111","-1","-2","0x12345678","0xffffffff","sb","cv","xram[3]","xram[0]=5","cv+=2" };
static const vector<long> CVI= { 0, 1, 0x55, 0x80000000L, 0xffffffffL, 0x12345678 };
static string join(const vector<string> &al, const Case &c, int from, bool sp)
{
  string e; for (size_t i= from; i < c.size(); i++) { if (sp && i > (size_t)from) e+= " "; e+= al[c[i]]; } return e;
}
static string flat(const Case &c)
{
  // 3, nops, ops..., values...
  int n= c[1]; string e= V[c[2+n]];
  for (int i= 0; i < n; i++) { const string &o= OPS[c[2+i]]; e+= o == "?:" ? "?xram[1]=" + V[c[2+n+1+i]] + ":" + V[c[2+n+1+i]] + "+1" : o + V[c[2+n+1+i]]; }
  return e;
}
static vector<string> lits;
static void literals()
{
  char b[64];
  for (long v= 0; v < 70000; v++) {
    if (v > 1100 && v % 7 && v < 65500) continue;
    for (const char *f: { "%ld", "0x%lx", "0X%lX", "$%lx", "0%lo", "0x%08lX" }) { snprintf(b, sizeof b, f, v); lits.push_back(b); }
    string s; for (int i= 20; i >= 0; i--) if (v >> i) s+= (v >> i & 1) ? '1' : '0';
    lits.push_back("0b" + (s.empty() ? "0" : s));
  }
  for (int i= 0; i < 32; i++) for (int d= -1; d <= 1; d++) for (const char *f: { "%ld", "0x%lx", "0%lo", "$%lX" }) { snprintf(b, sizeof b, f, (1L << i)+d); if (((1L << i)+d) > 0) lits.push_back(b); }
  for (int c= 32; c < 127; c++) if (c != '\'' && c != '\\') { snprintf(b, sizeof b, "'%c'", c); lits.push_back(b); }
}
// escapes and printing formats have their own oracle
static void escape(const Case &c)
{
  static const struct { const char *t; int v; } E[]= { {"\\n",10},{"\\r",13},{"\\t",9},{"\\a",7},{"\\b",8},{"\\f",12},{"\\v",11},{"\\\\",92},{"\\\"",34},{"\\033",27},{"\\101",65},{"\\0",0},{"\\7",7},{"\\12",10},{"\\177",127},{"\\001",1} };
  if (c[1] >= (long)(sizeof E/sizeof E[0])) return;
  string e= string("'") + E[c[1]].t + "'" + (c[2] ? "+1" : "");
  long got= application->eval(chars(e.c_str()));
  string out= take_output(); shm->evaluations++; shm->distinct++;
  if (!out.empty() || got != E[c[1]].v + c[2]) fail("escape", "%s is %d but was evaluated to %ld %s", e.c_str(), E[c[1]].v + (int)c[2], got, out.c_str());
}
static void print(const Case &c)
{
  static const long PV[]= { 0, 1, 2, 7, 65, 97, 126, 127, 128, 255, 256, 0x7fff, 0xffff, 0x10000, 0x7fffffff, -1, -2, -128 };
  static const char F[]= "xX0douBL$b";
  if (c[1] >= (long)(sizeof PV/sizeof PV[0]) || c[2] > 10) return;
  long v= PV[c[1]]; char w[80]; uint32_t u= v;
  string line;
  if (c[2] == 10) { line= strf("%ld+0", v); snprintf(w, sizeof w, "%d\n", (int)v); }
  else {
    char f= F[c[2]]; line= strf("expr /%c %ld+0", f, v);
    switch (f) {
    case 'x': snprintf(w, sizeof w, "%x\n", u); break; case 'X': snprintf(w, sizeof w, "0x%x\n", u); break; case '0': snprintf(w, sizeof w, "0x%08x\n", u); break;
    case 'd': snprintf(w, sizeof w, "%d\n", (int)u); break; case 'o': snprintf(w, sizeof w, "%o\n", u); break; case 'u': snprintf(w, sizeof w, "%u\n", u); break;
    case 'B': snprintf(w, sizeof w, "%d\n", u != 0); break; case 'L': snprintf(w, sizeof w, "%c\n", u ? 'T' : 'F'); break; case '$': snprintf(w, sizeof w, "$%x\n", u); break;
    case 'b': { string s; for (int i= 31; i >= 0; i--) s+= (u >> i & 1) ? '1' : '0'; snprintf(w, sizeof w, "%s\n", s.c_str()); break; }
    }
  }
  string o= cmd(line); attach_console(); shm->evaluations++; shm->distinct++;
  if (o != w) fail("print", "'%s' printed '%s', expected '%s'", line.c_str(), o.c_str(), w);
}
static void assign(const Case &c)
{
  string e= c[1] == 11 ? LVS[c[2]] + "++" : c[1] == 12 ? "++" + LVS[c[2]] : c[1] == 13 ? LVS[c[2]] + "--" : c[1] == 14 ? "--" + LVS[c[2]] : LVS[c[2]] + ASG[c[1]] + RHS[c[3]];
  if (c[5] == 1) e= "1&&(" + e + ")"; else if (c[5] == 2) e= "0&&(" + e + ")"; else if (c[5] == 3) e= "sb?1:(" + e + ")"; else if (c[5] == 4) e= "1||(" + e + "),2"; else if (c[5] == 5) e= "(" + e + ")+xram[0]*3";
  else if (c[5] == 6) e= "xram[5]=" + e; else if (c[5] == 7) e= "0?(" + e + "),1:5"; else if (c[5] == 8) e= "0||(" + e + ")"; else if (c[5] == 9) e= "cv=(" + e + ")";
  one(e, init(CVI[c[4]], c[4]*51 & 0xff));
}
static void run(const Case &c)
{
  setcase(c);
  switch (c[0]) {
  case 1: one(join(A, c, 2, c[1]), init(5, 6)); break;
  case 2: one(join(S, c, 2, c[1]), init(5, 6)); break;
  case 3: one(flat(c), init(5, 6)); break;
  case 4: assign(c); break;
  case 5: one(lits[c[1]], init(5, 6)); break;
  case 6: escape(c); break;
  case 7: print(c); break;
  }
}
static void setup()
{
  sim_start({ "-t", "51" });
  cmd("var sb xram[2][5:2]"); cmd("var s1 xram[6].6"); cmd("var cv"); cmd("var wv xram[4]");
  take_output();
  xr= mem("xram"); sfrm= mem("sfr"); cvc= var("cv"); XS= xr->get_size();
  for (int a= 0; a < 8; a++) xr->set(a, CELLS[a]);
  for (long a= 0; a < XS; a++) pristine.push_back(xr->get(a));
  attach_console();
  literals();
}
void mc::harness_run()
{
  setup();
  u64 idx= 0; auto mine= [&]() { return (int)(idx++ % nshards) == shard; };
  auto seqs= [&](int set, const vector<string> &al, int n, bool sp) {
    long tot= 1; for (int i= 0; i < n; i++) tot*= al.size();
    for (long k= 0; k < tot; k++) {
      if (!mine()) continue;
      Case c= { set, sp }; long x= k; for (int i= 0; i < n; i++) c.push_back(x % al.size()), x/= al.size();
      run(c);
    }
  };
  for (int n= 0; n <= (thorough ? 5 : 4); n++) for (int sp= 0; sp < 2; sp++) { if (n == 5 && !sp) continue; seqs(1, A, n, sp); seqs(2, S, n, sp); }
  for (int n= 1; n <= 3; n++) {
    int nv= n == 3 ? (thorough ? 5 : 3) : (int)V.size();
    long tot= 1; for (int i= 0; i < n; i++) tot*= OPS.size(); for (int i= 0; i <= n; i++) tot*= nv;
    for (long k= 0; k < tot; k++) {
      if (!mine()) continue;
      Case c= { 3, n }; long x= k; for (int i= 0; i < n; i++) c.push_back(x % OPS.size()), x/= OPS.size();
      for (int i= 0; i <= n; i++) { int j= x % nv; x/= nv; c.push_back(nv == 3 ? (j == 0 ? 0 : j == 1 ? 2 : 6) : j); }
      run(c);
    }
  }
  for (int o= 0; o < 15; o++) for (int l= 0; l < (int)LVS.size(); l++) for (int r= 0; r < (o < 11 ? (int)RHS.size() : 1); r++) for (int v= 0; v < (int)CVI.size(); v++) for (int w= 0; w < 10; w++)
    if (mine()) run({ 4, o, l, r, v, w });
  for (int i= 0; i < (int)lits.size(); i++) if (mine()) run({ 5, i });
  for (int i= 0; i < 20; i++) for (int j= 0; j < 2; j++) if (mine()) run({ 6, i, j });
  for (int i= 0; i < 20; i++) for (int j= 0; j < 12; j++) if (mine()) run({ 7, i, j });
  setcase({ 9 }); pristine_check();
  if (!shard) { sample("%s", flat({ 3, 2, 3, 9, 1, 2, 3 }).c_str()); sample("1&&(%s%s%s)", LVS[7].c_str(), ASG[4].c_str(), RHS[5].c_str()); }
}
void mc::harness_replay(const Case &c) { setup(); run(c); pristine_check(); }
