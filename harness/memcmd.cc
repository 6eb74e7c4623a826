/* Memory commands: set memory, fill, dump in all formats, where, Where and
   hole on the real command interpreter, against vectors of cell values. */
#include <string>
#include <vector>
#include <set>
#include <memory>
#include "simdrv.h"
using namespace mc;
int mc::harness_default_shards= 0;
typedef std::vector<uint32_t> V;

struct Mem { const char *name; long lo; int n, w; };
static const Mem mems[]= {
  { "qa", 0, 0x12, 8 }, { "qb", 0x40, 0x13, 8 }, { "qc", 0, 0xb, 16 }, { "qd", 0x7, 9, 32 },
  { "qe", 0xffe0, 0x50, 8 }, { "qf", 0x10, 0x73, 8 }, { "qg", 0, 9, 4 },
};
enum { NM= 7 };
static uint32_t mask(int w) { return w >= 32 ? 0xffffffffu : (1u<<w)-1; }
static long hi(const Mem &m) { return m.lo+m.n-1; }
enum { KHIST= 1, KHEX, KIHEX, KBIN, KSTR, KWHERE, KHOLE, KCONT, KSMART };

static uint32_t get(const Mem &m, long a) { return mem(m.name)->get(a) & mask(m.w); }
static V pattern(const Mem &m, int p)
{
  V v(m.n);
  static const char *alpha= "aAb\001aaBA\000abAaA\"b\001\000AAAb'bbbba\001\001B\n\\ a\300b";
  for (int i= 0; i < m.n; i++)
    switch (p) {
    case 0: v[i]= (uint32_t)(i+1)*2654435761u ^ m.n*40503u; break;
    case 1: v[i]= (unsigned char)alpha[i % 40]; break;
    case 2: v[i]= 0; break;
    case 3: v[i]= (i%7 < 3) ? 0 : (i%7 < 5) ? 'a' : 'A'; break;
    case 4: v[i]= (i*37+0x1b) ^ (m.w > 8 ? 0x61420000u+(i<<8) : 0); break;
    case 5: v[i]= m.w == 8 ? (unsigned char)"\0011\0337\177\1779\0400\377\r7\n1a\032\0018"[i % 19] : 0xffffffffu; break;
    }
  for (auto &x: v) x&= mask(m.w);
  return v;
}
static void load(const Mem &m, const V &v)
{
  cl_memory *x= mem(m.name);
  for (int i= 0; i < m.n; i++) x->write(m.lo+i, v[i]);
}
static std::vector<std::string> lines(const std::string &s)
{
  std::vector<std::string> r; std::string l;
  for (char c: s) if (c == '\n') { r.push_back(l); l.clear(); } else if (c != '\r') l+= c;
  if (!l.empty()) r.push_back(l);
  return r;
}
// ------------------------------------------------------------ setting cells
struct Op { int k; long a, b; uint32_t v; int l; };   // k 0 set list, 1 bits, 2 fill
static const struct { const char *t; std::vector<uint32_t> d; } lists[]= {
  { "0x5a", { 0x5a } }, { "0x1ff01c3a7", { 0xff01c3a7u } }, { "1 2", { 1, 2 } }, { "\"aB\"", { 'a', 'B' } },
  { "\"x\" 7 \"yz\" 0x81", { 'x', 7, 'y', 'z', 0x81 } }, { "-1", { 0xffffffffu } },
  { "9 8 7 6 5 4 3 2 1 0xf 0xe 0xd", { 9, 8, 7, 6, 5, 4, 3, 2, 1, 15, 14, 13 } },
};
enum { NL= 7 };
static std::vector<Op> alphabet(const Mem &m, bool small)
{
  std::vector<Op> r;
  for (long a= m.lo-2; a <= hi(m)+2; a++) if (a >= 0)
    for (int l= 0; l < NL; l++) {
      if (small && (l == 0 || l == 3 || l == 6 || (a != m.lo && a != hi(m)-1 && a != hi(m)))) continue;
      r.push_back({ 0, a, 0, 0, l });
    }
  for (long a= m.lo; a <= hi(m); a++) {
    if (small && a != m.lo+1 && a != hi(m)) continue;
    for (int h= 0; h < m.w; h++)
      for (int l= 0; l <= h; l++) {
        if (m.w > 8 && !(h == m.w-1 || h == l || h == 7 || (h == 8 && l == 7) || l == 0)) continue;
        if (small && !(h == m.w-1 && (l == h || l == 0 || l == 1)) && !(h == 2 && l == 1)) continue;
        for (uint32_t v: { 0u, 1u, 5u, 0xffffffffu }) if (!small || v == 0 || v == 5)
          r.push_back({ 1, a, h*64+l, v, 0 });
      }
  }
  std::vector<long> es;
  for (long a= m.lo-2; a <= hi(m)+2; a++) if (a >= 0) es.push_back(a);
  es.push_back(0xffffffffL);
  for (long s: es) for (long e: es) for (uint32_t v: { 0xa5u, 0xfffu }) {
    if (s == 0xffffffffL) continue;
    if (small && (v == 0xfff || s != m.lo+2 || (e != hi(m) && e != s && e != s+3 && e != 0xffffffffL))) continue;
    r.push_back({ 2, s, e, v, 0 });
  }
  return r;
}
static std::string text(const Mem &m, const Op &o)
{
  if (o.k == 0) return strf("set memory %s 0x%lx %s", m.name, o.a, lists[o.l].t);
  if (o.k == 1) {
    int h= o.b/64, l= o.b%64;
    if (h == l) return strf("set memory %s[0x%lx].%d 0x%x", m.name, o.a, h, o.v);
    return strf("set memory %s[0x%lx][%d:%d] 0x%x", m.name, o.a, h, l, o.v);
  }
  return strf("fill %s 0x%lx 0x%lx 0x%x", m.name, o.a, o.b, o.v);
}
static void apply(const Mem &m, V &v, const Op &o)
{
  uint32_t mk= mask(m.w);
  if (o.k == 0) {
    if (o.a < m.lo) return;
    for (size_t i= 0; i < lists[o.l].d.size(); i++)
      if (o.a+(long)i <= hi(m)) v[o.a+i-m.lo]= lists[o.l].d[i] & mk;
  } else if (o.k == 1) {
    int h= o.b/64, l= o.b%64;
    uint32_t bm= mask(h-l+1) << l;
    v[o.a-m.lo]= ((v[o.a-m.lo] & ~bm) | ((o.v << l) & bm)) & mk;
  } else
    for (long a= std::max(o.a, m.lo); a <= std::min(o.b, hi(m)); a++) v[a-m.lo]= o.v & mk;
}
static std::string full(const Mem &m, const V &v, const V &w)
{
  for (int i= 0; i < m.n; i++) if (v[i] != w[i]) return strf("cell 0x%lx is 0x%x, must be 0x%x", m.lo+i, w[i], v[i]);
  return "";
}
static V cells(const Mem &m) { V v(m.n); for (int i= 0; i < m.n; i++) v[i]= get(m, m.lo+i); return v; }

static std::vector<Op> abig[NM], asml[NM];
static std::set<uint64_t> seen;
static uint64_t hashv(int mi, const V &v)
{
  uint64_t h= 1469598103934665603ull+mi;
  for (uint32_t x: v) h= (h ^ x) * 1099511628211ull;
  return h;
}
static void note(int mi, const V &v) { if (seen.insert(hashv(mi, v)).second) shm->states++; }
static void hist(int mi, int p, int small, const std::vector<long> &q)
{
  const Mem &m= mems[mi];
  std::vector<Op> &al= small ? asml[mi] : abig[mi];
  V v= pattern(m, p);
  load(m, v);
  note(mi, v);
  std::string all;
  for (long i: q) {
    const Op &o= al[i];
    std::string t= text(m, o);
    all+= (all.empty() ? "" : " | ") + t;
    cmd(t);
    apply(m, v, o);
    shm->transitions++;
    note(mi, v);
    std::string d= full(m, v, cells(m));
    if (!d.empty()) { Case c= { KHIST, mi, p, small }; c.insert(c.end(), q.begin(), q.end()); setcase(c);
      fail("set", "%s (%d bit cells 0x%lx-0x%lx): %s", all.c_str(), m.w, m.lo, hi(m), d.c_str()); return; }
  }
  shm->traces++; shm->evaluations++;
  sample("%s", all.c_str());
}
// ----------------------------------------------------------------- queries
struct Q { const Mem &m; V v; };
static uint32_t at(const Q &q, long a) { return q.v[a-q.m.lo]; }
static bool inside(const Mem &m, long a) { return a >= m.lo && a <= hi(m); }
static std::string chr(const Mem &m, uint32_t x)
{
  std::string s;
  for (int i= 0; i < (m.w+7)/8; i++) { int c= (x>>(8*i)) & 255; s+= (c >= 0x20 && c < 0x7f) ? c : '.'; }
  return s;
}
// one line of a table: cells a, a+step, ...; empty string when it is right
static std::string row(const Q &q, const std::string &l, const std::vector<long> &ad)
{
  char *e;
  unsigned long a= strtoul(l.c_str(), &e, 16);
  if (strncmp(l.c_str(), "0x", 2) || e == l.c_str() || (long)a != ad[0]) return strf("line \"%s\" must be for address 0x%lx", l.c_str(), ad[0]);
  std::string rest= e, d, c;
  for (long x: ad) { d+= strf(" %0*x", (q.m.w+3)/4, at(q, x)); c+= chr(q.m, at(q, x)); }
  if (rest.compare(0, d.size(), d)) return strf("line \"%s\" must show%s", l.c_str(), d.c_str());
  rest= rest.substr(d.size());
  if (rest.size() <= c.size() || rest.substr(rest.size()-c.size()) != c ||
      rest.find_first_not_of(' ') < rest.size()-c.size())
    return strf("line \"%s\" must end with characters \"%s\"", l.c_str(), c.c_str());
  return "";
}
static std::string table(const Q &q, const std::string &out, long s, long e, int bpl)
{
  std::vector<std::string> ls= lines(out);
  if (bpl <= 0) bpl= q.m.w > 16 ? 4 : 8;
  int step= e >= s ? 1 : -1;
  size_t k= 0;
  for (long a= s; step > 0 ? a <= e : a >= e; ) {
    std::vector<long> ad;
    for (int i= 0; i < bpl && (step > 0 ? a <= e : a >= e); i++, a+= step) ad.push_back(a);
    if (k >= ls.size()) return strf("no line for address 0x%lx", ad[0]);
    std::string d= row(q, ls[k++], ad);
    if (!d.empty()) return d;
  }
  if (k < ls.size()) return strf("extra line \"%s\"", ls[k].c_str());
  return "";
}
static std::string ihex(const Q &q, const std::string &out, long s, long e)
{
  std::vector<int> have(q.m.n, -1);
  bool eof= false; unsigned long base= 0;
  long count= 0;
  for (const std::string &l: lines(out)) {
    if (eof) return "record after the end record";
    if (l.size() < 11 || l[0] != ':' || l.size()%2 == 0) return strf("bad record \"%s\"", l.c_str());
    std::vector<int> b; int sum= 0;
    for (size_t i= 1; i < l.size(); i+= 2) {
      if (!isxdigit(l[i]) || !isxdigit(l[i+1])) return strf("bad record \"%s\"", l.c_str());
      b.push_back(strtol(l.substr(i, 2).c_str(), 0, 16)); sum+= b.back();
    }
    if ((sum & 255) || (int)b.size() != b[0]+5) return strf("bad length or checksum in \"%s\"", l.c_str());
    unsigned ad= b[1]*256+b[2];
    if (b[3] == 1) eof= true;
    else if (b[3] == 4 && b[0] == 2) base= (b[4]*256ul+b[5])<<16;
    else if (b[3] == 2 && b[0] == 2) base= (b[4]*256ul+b[5])<<4;
    else if (b[3] == 0)
      for (int i= 0; i < b[0]; i++) {
        long a= base + ((ad+i) & 0xffff);
        if (a < s || a > e) return strf("address 0x%lx in \"%s\" is out of the range", a, l.c_str());
        if (have[a-q.m.lo] >= 0) return strf("address 0x%lx twice", a);
        have[a-q.m.lo]= b[4+i]; count++;
        if ((uint32_t)b[4+i] != at(q, a)) return strf("address 0x%lx is 0x%02x in \"%s\", must be 0x%02x", a, b[4+i], l.c_str(), at(q, a));
      }
    else return strf("unknown record \"%s\"", l.c_str());
  }
  if (count != std::max(0l, e-s+1)) return strf("%ld bytes, must be %ld", count, std::max(0l, e-s+1));
  if (count && !eof) return "no end record";
  return "";
}
static std::string bin(const Q &q, const std::string &out, long s, long e)
{
  std::string x;
  for (long a= s; a <= e; a++) x+= (char)at(q, a);
  if (out == x) return "";
  return strf("%zu bytes%s, must be %zu", out.size(), out.size() == x.size() ? " with other values" : "", x.size());
}
// undo C escapes; the text of cells from s up to a zero or the end
static std::string str(const Q &q, const std::string &out, long s, long *next)
{
  std::string x, got;
  long a;
  for (a= s; a <= hi(q.m) && at(q, a); a++) x+= (char)at(q, a);
  *next= a;
  std::string o= out;
  if (!o.empty() && o.back() == '\n') o.pop_back();
  for (size_t i= 0; i < o.size(); i++) {
    if (o[i] != '\\') { if (!isprint((unsigned char)o[i])) return "unprintable character"; got+= o[i]; continue; }
    char c= ++i < o.size() ? o[i] : 0;
    const char *p;
    if (c >= '0' && c <= '7') { int v= 0, n= 0; while (n < 3 && i < o.size() && o[i] >= '0' && o[i] <= '7') v= v*8+o[i++]-'0', n++; i--; got+= (char)v; }
    else if (c && (p= strchr("a\ab\bf\fn\nr\rt\tv\v'\'\"\"??\\\\", c))) got+= p[1];
    else return strf("bad escape in \"%s\"", out.c_str());
  }
  if (got == x) return "";
  return strf("text \"%s\" is not the %zu characters up to the end of the string", o.c_str(), x.size());
}
static const struct { const char *t; std::vector<uint32_t> d; } fixedpats[]= {
  { "\"aaa\"", { 'a', 'a', 'a' } }, { "0xffffffff 0xffffffff", { ~0u, ~0u } }, { "0xffff", { 0xffff } }, { "0 0 0", { 0, 0, 0 } },
};
static std::string plist(int i, V *d)
{
  if (i < 4) { *d= fixedpats[i].d; return fixedpats[i].t; }
  i-= 4;
  int len= 1; int n= 5;
  while (i >= n) i-= n, n*= 5, len++;
  static const char *t[]= { "\"a\"", "\"A\"", "\"b\"", "1", "0" };
  static const uint32_t x[]= { 'a', 'A', 'b', 1, 0 };
  std::string r;
  for (int k= 0; k < len; k++) { if (k) r+= " "; r+= t[i%5]; d->push_back(x[i%5]); i/= 5; }
  return r;
}
enum { NPL= 4+5+25+125, NPLT= NPL+625 };
static void query(const Case &c)
{
  const Mem &m= mems[c[1]];
  int p= c[2];
  static int cm= -1, cp= -1; static V cv;
  if (cm != c[1] || cp != p) { cv= pattern(m, p); load(m, cv); cm= c[1]; cp= p; }
  Q q= { m, cv };
  setcase(c);
  shm->evaluations++;
  std::string line, out, d;
  const char *sig= "";
  long cs= c.size() > 3 ? std::max(c[3], m.lo) : 0, ce= c.size() > 4 ? std::min(c[4], hi(m)) : 0, nx;
  switch (c[0]) {
  case KHEX:
    sig= "hex";
    line= strf("dump /%c %s 0x%lx 0x%lx", c[4]&1 ? 'h' : 'x', m.name, c[3], c[4]);
    if (c[5] != -2) line+= strf(" %ld", c[5]);
    out= cmd(line);
    d= (cs > hi(m) || ce < m.lo) ? out.empty() ? "" : "output for no cells" : table(q, out, cs, ce, c[5]);
    break;
  case KIHEX: sig= "ihex"; line= strf("dump /i %s 0x%lx 0x%lx", m.name, c[3], c[4]); out= cmd(line); d= ihex(q, out, cs, ce); break;
  case KBIN:  sig= "bin";  line= strf("dump /b %s 0x%lx 0x%lx", m.name, c[3], c[4]); out= cmd(line); d= bin(q, out, cs, ce); break;
  case KSTR:  sig= "str";  line= strf("dump /s %s 0x%lx", m.name, c[3]); out= cmd(line); d= str(q, out, cs, &nx); break;
  case KWHERE: {
    V a;
    line= strf("%s %s ", c[4] ? "Where" : "where", m.name) + plist(c[3], &a);
    sig= c[4] ? "Where" : "where";
    out= cmd(line);
    std::vector<std::string> ls= lines(out); size_t k= 0;
    for (long s= m.lo; d.empty() && s+(long)a.size()-1 <= hi(m); s++) {
      bool eq= true;
      for (size_t i= 0; i < a.size(); i++) {
        uint32_t x= at(q, s+i), y= a[i];
        if (!c[4] && x < 128 && y < 128) x= toupper(x), y= toupper(y);
        if (x != y) eq= false;
      }
      if (!eq) continue;
      std::string t; size_t want= (a.size() + (m.w > 16 ? 3 : 7)) / (m.w > 16 ? 4 : 8);
      for (size_t i= 0; i < want; i++) if (k < ls.size()) t+= ls[k++] + "\n";
      d= table(q, t, s, s+a.size()-1, 0);
      shm->distinct++;
    }
    if (d.empty() && k < ls.size()) d= strf("\"%s\" is not a match", ls[k].c_str());
    break; }
  case KHOLE: {
    sig= "hole";
    line= strf("hole %s %ld 0x%lx", m.name, c[3], c[4]);
    out= cmd(line);
    std::vector<std::string> ls= lines(out); size_t k= 0;
    for (long a= m.lo; a <= hi(m); ) {
      long b= a;
      while (b <= hi(m) && at(q, b) == (uint32_t)c[4]) b++;
      if (b > a && b-a >= c[3]) {
        char *e= 0; unsigned long x= 0, n= 0;
        if (k < ls.size()) { x= strtoul(ls[k].c_str(), &e, 16); n= strtoul(e, 0, 10); k++; }
        if (!e) d= strf("no line for 0x%lx", a);
        else if ((long)x != a || (long)n != b-a) d= strf("line \"%s\" must be 0x%lx %ld", ls[k-1].c_str(), a, b-a);
      }
      a= std::max(b, a+1);
    }
    if (d.empty() && k < ls.size()) d= strf("extra line \"%s\"", ls[k].c_str());
    break; }
  }
  if (!d.empty()) fail(sig, "%s (%d bit cells 0x%lx-0x%lx): %s", line.c_str(), m.w, m.lo, hi(m), d.c_str());
  sample("%s", line.c_str());
  shm->transitions++;
}
// dump with a range, then dumps without one
static const char fm[]= "hibs";
static void cont(const Case &c)
{
  const Mem &m= mems[5];
  V v= pattern(m, 3);
  if (c[1]) v= pattern(m, 1);
  load(m, v);
  Q q= { m, v };
  setcase(c);
  std::string all= strf("dump /%c %s 0x%lx 0x%lx", fm[c[2]], m.name, c[3], c[4]);
  cmd(all);
  long next= c[4]+1, z;
  if (fm[c[2]] == 's') str(q, "", c[3], &next);
  for (size_t i= 5; i < c.size(); i++) {
    if (next > hi(m)) next= m.lo;
    char f= fm[c[i]];
    std::string l= strf("dump /%c %s", f, m.name), out= cmd(l), d;
    all+= " | " + l;
    long e= std::min(hi(m), next + (f == 'i' ? 320 : 80) - 1);
    if (f == 'h') d= table(q, out, next, e, 8);
    else if (f == 'i') d= ihex(q, out, next, e);
    else if (f == 'b') d= bin(q, out, next, e);
    else { d= str(q, out, next, &z); e= z-1; }
    if (!d.empty()) { fail(strf("continue %c", f).c_str(), "%s: %s", all.c_str(), d.c_str()); return; }
    next= e+1;
    shm->transitions++;
  }
  shm->evaluations++; shm->traces++;
  sample("%s", all.c_str());
}
// the table with labels and registers
static const struct { const char *name; int off, kind; } vars[]= { { "vlab", 2, 0 }, { "vreg", 5, 1 }, { "vend", 0x12, 0 }, { "vtwo", 6, 0 }, { "vrtw", 7, 1 } };
static void mkvars()
{
  for (auto &x: vars)
    if (x.kind) cmd(strf("var %s qb[0x%x][7:0]", x.name, 0x40+x.off)); else cmd(strf("var %s qb 0x%x", x.name, 0x40+x.off));
}
static void smart(const Case &c)
{
  const Mem &m= mems[1];
  V v= pattern(m, c[1]);
  load(m, v);
  Q q= { m, v };
  setcase(c);
  shm->evaluations++; shm->transitions++;
  std::string line= strf("dump %s 0x%lx 0x%lx", m.name, c[2], c[3]), d, out;
  if (c[4]) line+= strf(" %ld", c[4]);
  out= cmd(line);
  std::vector<std::string> ls= lines(out); size_t k= 0;
  long s= std::max(c[2], m.lo), e= std::min(c[3], hi(m));
  int bpl= c[4] ? c[4] : 8;
  for (long a= s; a <= e && d.empty(); ) {
    int vi= -1;
    for (int i= 0; i < 5; i++) if (vars[i].off+m.lo == a) vi= i;
    if (k >= ls.size()) { d= strf("no line for 0x%lx", a); break; }
    std::string l= ls[k++]; char *x;
    if ((long)strtoul(l.c_str(), &x, 16) != a) { d= strf("line \"%s\" must be for 0x%lx", l.c_str(), a); break; }
    std::string rest= x;
    if (vi >= 0) {
      std::string lab= std::string(" ")+vars[vi].name+":";
      if (rest.compare(0, lab.size(), lab)) { d= strf("line \"%s\" must have label%s", l.c_str(), lab.c_str()); break; }
      rest= rest.substr(lab.size());
    }
    size_t sp= rest.find_first_not_of(' ');
    rest= sp == std::string::npos || sp < 1 ? rest : rest.substr(sp-1);
    if (vi >= 0 && vars[vi].kind) {
      uint32_t b= at(q, a);
      std::string w= " 0b";
      for (int i= 7; i >= 0; i--) w+= b>>i & 1 ? '1' : '0';
      w+= strf(" 0x%02x '%s' %3u", b, chr(m, b).c_str(), b);
      if (b & 0x80) w+= strf(" (%3d)", (int)b-256);
      if (rest != w) d= strf("line \"%s\" must show%s", l.c_str(), w.c_str());
      a++;
      continue;
    }
    std::vector<long> ad;
    for (int i= 0; i < bpl && a <= e; i++, a++) {
      bool lab= false;
      if (i) for (auto &y: vars) if (y.off+m.lo == a) lab= true;
      if (lab) break;
      ad.push_back(a);
    }
    d= row(q, strf("0x%lx", ad[0])+rest, ad);
  }
  if (d.empty() && k < ls.size()) d= strf("extra line \"%s\"", ls[k].c_str());
  if (!d.empty()) fail("labels", "%s: %s", line.c_str(), d.c_str());
  sample("%s", line.c_str());
}
static void setup()
{
  sim_start({"-t", "8085"});
  for (const Mem &m: mems) {
    cmd(strf("memory create chip c%s 0x%x %d", m.name, m.n, m.w));
    cmd(strf("memory create addressspace %s 0x%lx 0x%x %d", m.name, m.lo, m.n, m.w));
    cmd(strf("memory create addressdecoder %s 0x%lx 0x%lx c%s 0", m.name, m.lo, hi(m), m.name));
  }
  mkvars();
  for (int i= 0; i < NM; i++) abig[i]= alphabet(mems[i], false), asml[i]= alphabet(mems[i], true);
}
void mc::harness_run()
{
  setup();
  long job= 0;
  auto mine= [&]() { if (job++ % nshards != shard) return false; beat(); return true; };
  for (int mi= 0; mi < NM; mi++) {
    const Mem &m= mems[mi];
    std::vector<Op> &b= abig[mi], &s= asml[mi];
    if (m.n < 0x40)
      for (int p= 0; p < 2; p++)
        for (size_t i= 0; i < b.size(); i++) if (mine()) hist(mi, p, 0, { (long)i });
    if (m.n < 0x40)
      for (size_t i= 0; i < s.size(); i++) if (mine())
        for (size_t j= 0; j < s.size(); j++) {
          hist(mi, 0, 1, { (long)i, (long)j });
          if (thorough) for (size_t k= 0; k < s.size(); k++) hist(mi, 0, 1, { (long)i, (long)j, (long)k });
        }
  }
  for (int mi= 0; mi < NM; mi++) {
    const Mem &m= mems[mi];
    int np= m.n > 0x60 && !thorough ? 3 : 6;
    for (int p= 0; p < np; p++) {
      for (long s= std::max(0l, m.lo-2); s <= hi(m)+2; s++) if (mine()) {
        for (long e= std::max(0l, m.lo-2); e <= hi(m)+3; e++) {
          long ee= e == hi(m)+3 ? 0xffffffffL : e;
          if (ee < s && !(inside(m, s) && inside(m, ee))) continue;
          for (long bpl: { -2, 1, 2, 3, 8, 16, 0, 1000 }) {
            if (m.n > 0x20 && !thorough && bpl != -2 && bpl != 3) continue;
            query({ KHEX, mi, p, s, ee, bpl });
          }
          if (m.w != 8 || ee < s) continue;
          query({ KIHEX, mi, p, s, ee });
          query({ KBIN, mi, p, s, ee });
        }
        if (m.w == 8) query({ KSTR, mi, p, s });
      }
      for (int l= 0; l < (thorough ? NPLT : NPL); l++) if (mine()) { query({ KWHERE, mi, p, l, 0 }); query({ KWHERE, mi, p, l, 1 }); }
      for (long n= 0; n <= 6; n++) if (mine())
        for (uint32_t v: { 0u, 1u, (uint32_t)'a', (uint32_t)'A', 0xffu, 0xffffu, 0xffffffffu, 0x100u }) query({ KHOLE, mi, p, n, (long)v });
    }
  }
  const Mem &m= mems[5];
  for (int p= 0; p < 2; p++)
    for (int f= 0; f < 4; f++)
      for (long s= m.lo; s <= hi(m); s++) if (mine())
        for (long e= s; e <= hi(m); e++) {
          if (!thorough && !(e-s < 3 || e > hi(m)-2 || e == s+7 || e == s+31)) continue;
          for (int g= 0; g < 4; g++) for (int h= 0; h < 4; h++) cont({ KCONT, p, f, s, e, g, h, 0 });
        }
  const Mem &n= mems[1];
  for (int p= 0; p < 6; p++)
    for (long s= n.lo-1; s <= hi(n); s++) if (mine())
      for (long e= std::max(s, n.lo); e <= hi(n)+1; e++)
        for (long bpl: { 0, 1, 2, 3, 8, 16 }) smart({ KSMART, p, s, e, bpl });
  if (!shard) for (int i= 0; i < NM; i++) counter(strf("ops_%s", mems[i].name).c_str())= abig[i].size();
}
void mc::harness_replay(const Case &c)
{
  setup();
  if (c[0] == KHIST) hist(c[1], c[2], c[3], std::vector<long>(c.begin()+4, c.end()));
  else if (c[0] == KCONT) cont(c);
  else if (c[0] == KSMART) smart(c);
  else query(c);
}
