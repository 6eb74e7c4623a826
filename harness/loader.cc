/* Loading files: every record sequence up to a depth, every truncation and single character corruption,
   in every format and memory width, against an independent reading of the formats. */
#include "simdrv.h"
#include <map>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "cmd_confcl.h"
using namespace mc;
using std::string; using std::vector;
#ifndef MC_TYPE
#define MC_TYPE ""
#endif
int mc::harness_default_shards= 16;

static string dir, fn;
static cl_memory *rom, *chip;
static unsigned W, NB;          // width, bytes per word
static t_addr SIZE;
static uint8_t *raw= 0;

// ------------------------------------------------------------- the reference
struct Word { uint32_t a; uint32_t v; };
static bool xd(int c) { return (c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
static int xv(int c) { return c<='9' ? c-'0' : (c|32)-'a'+10; }
struct Coll {                   // bytes of a file to words, little endian, missing bytes are zero
  vector<Word> w; bool open= false;
  void put(uint32_t ba, uint8_t d)
  {
    uint32_t a= ba/NB; unsigned l= ba%NB;
    if (!open || w.back().a != a) w.push_back({a,0}), open= true;
    w.back().v|= (uint32_t)d << (8*l);
    if (l == NB-1) open= false;
  }
};
static bool hexbyte(const string &s, size_t &p, int &v)
{
  if (p >= s.size() || !xd(s[p])) return false;
  if (p+1 >= s.size() || !xd(s[p+1])) { p++; return false; }
  v= xv(s[p])*16+xv(s[p+1]); p+= 2; return true;
}
static vector<Word> ref_hex(const string &s)
{
  Coll c; size_t p= 0; uint32_t base= 0;
  while (1) {
    while (p < s.size() && s[p] != ':') p++;
    if (p >= s.size()) break;
    p++;
    int n, v, sum= 0; vector<int> b;
    if (!hexbyte(s, p, n)) continue;
    sum= n; bool ok= true;
    for (int i= 0; i < n+4; i++) { if (!hexbyte(s, p, v)) { ok= false; break; } b.push_back(v); sum+= v; }
    if (!ok || (sum & 0xff)) continue;
    int t= b[2]; uint32_t a= b[0]*256+b[1];
    if (t == 0) for (int i= 0; i < n; i++) c.put(base+a+i, b[3+i]);
    if (t == 1) break;
    if (t == 2 && n >= 2) base= (b[3]*256+b[4]) << 4;
    if (t == 4 && n >= 2) base= (uint32_t)(b[3]*256+b[4]) << 16;
  }
  return c.w;
}
static vector<string> lines(const string &s)
{
  vector<string> r; string l;
  for (char c: s) if (c=='\n'||c=='\r') { r.push_back(l); l.clear(); } else l+= c;
  r.push_back(l); return r;
}
static vector<Word> ref_s19(const string &s)
{
  Coll c;
  for (auto &l: lines(s)) {
    if (l.size() < 4 || l[0] != 'S') continue;
    size_t p= 2; int n, v, sum; vector<int> b;
    if (!hexbyte(l, p, n)) continue;
    sum= n; bool ok= n > 0;
    for (int i= 0; i < n && ok; i++) { if (!hexbyte(l, p, v)) ok= false; b.push_back(v); sum+= v; }
    if (!ok || (sum & 0xff) != 0xff) continue;
    int al= l[1]=='1' ? 2 : l[1]=='2' ? 3 : l[1]=='3' ? 4 : 0;
    if (!al || n < al+1) continue;
    uint32_t a= 0; for (int i= 0; i < al; i++) a= a*256+b[i];
    for (int i= al; i < n-1; i++) c.put(a+i-al, b[i]);
  }
  return c.w;
}
static vector<string> toks(const string &l)
{
  vector<string> r; string t;
  for (char c: l+" ") if (c==' '||c=='\t') { if (!t.empty()) r.push_back(t); t.clear(); } else t+= c;
  return r;
}
static uint32_t hexv(const string &t) { uint32_t v= 0; for (char c: t) if (xd(c)) v= v*16+xv(c); else break; return v; }
static vector<Word> ref_asc(const string &s)
{
  vector<Word> r; uint32_t a= 0;
  for (auto &l: lines(s)) { auto t= toks(l); if (t.size() && xd(t[0][0])) r.push_back({a++, hexv(t[0])}); }
  return r;
}
static vector<Word> ref_p2h(const string &s)
{
  vector<Word> r;
  for (auto &l: lines(s)) { auto t= toks(l); if (t.size() >= 3 && (t[1]=="//C"||t[1]=="//I")) r.push_back({hexv(t[2]), hexv(t[0])}); }
  return r;
}
static vector<Word> ref_omf(const string &s)
{
  vector<Word> r; size_t p= 0;
  while (p+3 <= s.size()) {
    unsigned char t= s[p]; unsigned l= (unsigned char)s[p+1] + 256*(unsigned char)s[p+2];
    if (l < 1 || p+3+l > s.size()) break;
    if (t == 6 && l >= 4) {
      uint32_t a= (unsigned char)s[p+4] + 256*(unsigned char)s[p+5];
      for (unsigned i= 6; i < 3+l-1; i++) r.push_back({a+i-6, (unsigned char)s[p+i]});
    }
    p+= 3+l;
  }
  return r;
}
enum { HEX, S19, ASC, P2H, OMF };
static const char *ext[]= { "hex", "s19", "asc", "p2h", "omf" };
static vector<Word> ref(int f, const string &s)
{ return f==HEX ? ref_hex(s) : f==S19 ? ref_s19(s) : f==ASC ? ref_asc(s) : f==P2H ? ref_p2h(s) : ref_omf(s); }

// ------------------------------------------------------------- the real code
static uint32_t mask() { return W >= 32 ? 0xffffffffu : (1u<<W)-1; }
static uint32_t bg(t_addr a) { return (0xA5A5A5A5u + a*0x01020407u) & mask(); }
static vector<uint32_t> shadow;
static void put(const string &name, const string &s)
{
  int fd= open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600);
  if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) { perror(name.c_str()); _exit(3); }
  close(fd);
}
static string show(const string &s) { string r; for (unsigned char c: s) if (c=='\n') r+= "\\n"; else if (c=='\r') r+= "\\r"; else if (c<32||c>126) r+= strf("\\x%02x", c); else r+= c; return r.substr(0, 240); }

// memory = background modified by words; return true if as expected; restores the background
static bool verify(const char *sig, const std::map<t_addr,uint32_t> &exp, cl_memory *m, const string &what)
{
  bool ok= true; t_addr lo= m->get_start_address();
  if (raw && m == chip) {
    for (auto &e: exp) if (e.first < SIZE) {
      if (raw[e.first] != (e.second & 0xff) && ok) { ok= false; fail(sig, "%s: [0x%x]= 0x%x, should be 0x%x", what.c_str(), e.first, raw[e.first], e.second & 0xff); }
      raw[e.first]= bg(e.first);
    }
    static vector<uint8_t> B; if (B.empty()) for (t_addr a= 0; a < SIZE; a++) B.push_back(bg(a));
    if (memcmp(raw, B.data(), SIZE)) {
      for (t_addr a= 0; a < SIZE; a++) if (raw[a] != B[a]) {
        if (ok) { ok= false; fail(sig, "%s: [0x%x] became 0x%x, should not change", what.c_str(), a, raw[a]); }
        raw[a]= B[a];
      }
    }
    return ok;
  }
  for (t_addr a= lo; a < lo+m->get_size(); a++) {
    auto i= exp.find(a); uint32_t e= (i == exp.end() ? bg(a) : i->second) & mask(), g= m->get(a);
    if (g != e && ok) { ok= false; fail(sig, "%s: [0x%x]= 0x%x, should be 0x%x", what.c_str(), a, g, e); }
    if (g != bg(a)) m->set(a, bg(a));
  }
  return ok;
}
static void background(cl_memory *m) { t_addr lo= m->get_start_address(); for (t_addr a= lo; a < lo+m->get_size(); a++) m->set(a, bg(a)); }

static std::map<t_addr,uint32_t> place(const vector<Word> &w, t_addr lo, t_addr n, long off= 0, uint32_t mi= 0, uint32_t ma= 0xffffffff)
{
  std::map<t_addr,uint32_t> r;
  for (auto &x: w) {
    if (x.a < mi || x.a > ma) continue;
    t_addr a= x.a + off;
    if (a >= lo && a < lo+n) r[a]= x.v;
  }
  return r;
}
static void load(int f, const string &s, const char *sig)
{
  fn= dir + "/f." + ext[f];
  put(fn, s);
  string what= strf("%s file '%s'", ext[f], show(s).c_str());
  auto w= ref(f, s);
  beat();
  long n= uc->read_file(fn.c_str(), application->get_commander()->frozen_or_actual(), false);
  shm->evaluations++; shm->transitions+= w.size(); shm->traces++;
  if (!w.empty()) shm->distinct++, shm->states++;
  if (n != (long)w.size()) fail(strf("%s:count", sig), "%s: %ld words reported, %d contained", what.c_str(), n, (int)w.size());
  verify(sig, place(w, 0, SIZE), chip, what);
}

// ------------------------------------------------------------- material
static string hexrec(int t, int a, const vector<int> &d, int chkerr= 0, int lenerr= 0)
{
  string s= strf(":%02X%04X%02X", (int)d.size()+lenerr, a, t); int sum= d.size()+lenerr + a/256 + a%256 + t;
  for (int x: d) s+= strf("%02X", x), sum+= x;
  return s + strf("%02X", (-sum+chkerr) & 0xff);
}
static string srec(int t, uint32_t a, const vector<int> &d, int chkerr= 0, int lenerr= 0)
{
  int al= t==1||t==0||t==5||t==9 ? 2 : t==2||t==6||t==8 ? 3 : 4, n= al+d.size()+1+lenerr, sum= n;
  string s= strf("S%d%02X", t, n);
  for (int i= al-1; i >= 0; i--) s+= strf("%02X", (a>>(8*i))&0xff), sum+= (a>>(8*i))&0xff;
  for (int x: d) s+= strf("%02X", x), sum+= x;
  return s + strf("%02X", (~sum+chkerr) & 0xff);
}
static string low(string s) { for (auto &c: s) c= tolower(c); return s; }
static vector<string> H, S, A, P, O;
static void material()
{
  auto seq= [](int n, int v) { vector<int> r; for (int i= 0; i < n; i++) r.push_back((v+i*0x1d)&0xff); return r; };
  H= { hexrec(1,0,{}), hexrec(0,0,{0x11}), hexrec(0,0,seq(4,0x80)), hexrec(0,1,{0x21,0xff,0x00}), hexrec(0,2,{0x3a,0x0d}), hexrec(0,3,seq(5,7)), hexrec(0,0x10,seq(16,1)),
       hexrec(0,8,{}), hexrec(4,0,{0,0}), hexrec(4,0,{0,1}), hexrec(2,0,{0x00,0x01}), hexrec(2,0,{0x00,0x00}), hexrec(3,0,{0,0,1,2}), hexrec(5,0,{0,0,0,9}),
       hexrec(0,4,seq(2,0x44),1), hexrec(0,4,seq(2,0x44),0,1), hexrec(0,4,seq(3,0x51),0,-1), hexrec(1,0,{},3), hexrec(4,0,{0,0},0x80), hexrec(0,0x20,seq(2,9)).substr(0,11), "", "; junk", "::", low(hexrec(0,6,{0xab,0xcd})), hexrec(0,0xfffe,{0x61,0x62}), hexrec(0,0,{0x77}).substr(0,10),
       ":0G" + hexrec(0,0,{0x77}).substr(3), hexrec(1,0x1234,{}), ":" };
  S= { srec(9,0,{}), srec(1,0,{0x11}), srec(1,0,seq(4,0x80)), srec(1,1,{0x21,0xff,0x00}), srec(2,2,{0x3a,0x0d}), srec(3,3,seq(5,7)), srec(1,0x10,seq(16,1)), srec(1,8,{}), srec(0,0,{0x48,0x44,0x52}), srec(5,3,{}), srec(8,0,{}), srec(7,0,{}),
       srec(1,4,seq(2,0x44),1), srec(1,4,seq(2,0x44),0,1), srec(1,4,seq(3,0x51),0,-1), srec(3,0x10000,{9,8}), srec(2,0x10002,{7,6,5,4}), srec(1,0x20,seq(2,9)).substr(0,9), "", "junk", "S", "S1", "S100", "S102", low(srec(1,6,{0xab,0xcd})), "S" + low(srec(1,6,{0xab,0xcd})).substr(1), srec(1,0x30,{0x12}) + " ",
       srec(1,0xfffe,{0x61,0x62}), "S1040GG0AA" };
  A= { "11", "a5", "FF 22 33", "  7f", "", "zz", "; 12", "0", "3c ; x", "\t4d", "g1 22", "00" };
  P= { "0012 //C 0010", "00fe //I 0005", "0033 //X 0006", "0044 //C", "", "// comment", "0055\t//C\t0011", "  0066   //C   0000", "0077 //C 0010 more", "//C 0010 0001", "ab" };
  auto omf= [](int t, const vector<int> &d) { string s; s+= t; s+= (char)((d.size()+1)&0xff); s+= (char)((d.size()+1)>>8); int sum= 0; for (int x: d) s+= (char)x; for (unsigned char c: s) sum+= c; s+= (char)-sum; return s; };
  vector<int> big= { 0, 0, 1 }; for (int i= 0; i < 300; i++) big.push_back(i & 0xff);
  O= { omf(2,{3,'a','b','c',0,0}), omf(4,{3,'a','b','c',0,0}), omf(6,{0,0x10,0,0x11,0x22}), omf(6,{0,0,0,0xff,0x00,0x0d,0x0a,0x1b,0x80,0x7f,0xff}), omf(6,{1,0x34,0x02,0x06}), omf(6,{0,9,0}), omf(6,big), omf(0x0e,{0,1,0,0,0}), omf(6,{0,0x11,0,0xfe,0xff}), omf(0x20,{6,6,0,1,2}), omf(6,{0,0xfe,0xff,1,2}) };
}
static const char *ends[]= { "\n", "\r\n", "\n(cut)" };
static string glue(const vector<string> &v, const int *q, int n, int e)
{
  string s;
  for (int i= 0; i < n; i++) { s+= v[q[i]]; if (i < n-1 || e != 2) s+= e == 1 ? "\r\n" : "\n"; }
  return s;
}
static const vector<string> &mat(int f) { return f==HEX ? H : f==S19 ? S : f==ASC ? A : f==P2H ? P : O; }

// base files of the corruption and truncation phases
static string basefile(int f, int b)
{
  static const int q[3][4]= { {1,6,2,0}, {3,5,4,0}, {9,4,8,1} };
  static const int q2[3][4]= { {1,2,3,4}, {2,0,8,5}, {0,6,3,7} };
  const int *x= f==HEX||f==S19 ? q[b] : q2[b];
  if (f == OMF) { string s; for (int i= 0; i < 4; i++) s+= mat(f)[x[i]]; return s; }
  return glue(mat(f), x, 4, b==1);
}
static const char mut[]= "0F:S\nGg1";

static void one(const Case &c)
{
  int ph= c[0];
  if (ph == 1) {                         // format, ending, records...
    int f= c[1]; int q[8]; int n= c.size()-3; for (int i= 0; i < n; i++) q[i]= c[3+i];
    string s;
    if (f == OMF) for (int i= 0; i < n; i++) s+= O[q[i]]; else s= glue(mat(f), q, n, c[2]);
    load(f, s, strf("%s:sequence", ext[f]).c_str());
  } else if (ph == 2) {                  // format, file, position, mutation
    string s= basefile(c[1], c[2]);
    if (c[4] == -1) s.erase(c[3], 1); else if (c[4] == -2) s.insert(s.begin()+c[3], s[c[3]]); else if (c[4] >= 100) s.insert(s.begin()+c[3], mut[c[4]-100]); else s[c[3]]= mut[c[4]];
    load(c[1], s, strf("%s:corrupted", ext[c[1]]).c_str());
  } else if (ph == 3) {                  // format, file, length
    load(c[1], basefile(c[1], c[2]).substr(0, c[3]), strf("%s:truncated", ext[c[1]]).c_str());
  }
}

// phase 4: specifiers
static const char *offs[]= { "", ":0", ":5", ":0x100", ":-1", ":-0x10", ":010", ":" };
static const long offv[]= { 0, 0, 5, 0x100, -1, -0x10, 8, 0 };
static const char *rngs[]= { "", "#0-0xffffffff", "#3", "#0x10-0x12", "#-5", "#7-7", "#9-4", "#", "#020-0x13" };
static const uint32_t rmin[]= { 0,0,3,0x10,0,7,9,0,16 }, rmax[]= { 0xffffffff,0xffffffff,0xffffffff,0x12,5,7,4,0xffffffff,0x13 };
static void spec(const Case &c)          // 4, format, file, memory, offset, range, order, check
{
  vector<cl_memory*> ms; vector<string> names;
  ms.push_back(rom); names.push_back("");
  ms.push_back(rom); names.push_back("rom");
  ms.push_back(chip); names.push_back(chip->get_name());
  if (uc->memory("xram")) { ms.push_back(uc->memory("xram")); names.push_back("xram"); }
  if (uc->memory("xram_chip")) { ms.push_back(uc->memory("xram_chip")); names.push_back("xram_chip"); }
  if (c[3] >= (long)ms.size()) return;
  cl_memory *m= ms[c[3]];
  int f= c[1]; string s= basefile(f, c[2]);
  fn= dir + "/f." + ext[f]; put(fn, s);
  string sp= names[c[3]].empty() ? "" : "@" + names[c[3]];
  sp= c[6]==0 ? sp+offs[c[4]]+rngs[c[5]] : c[6]==1 ? string(rngs[c[5]])+offs[c[4]]+sp : string(offs[c[4]])+sp+rngs[c[5]];
  unsigned sw= W, snb= NB; W= m->width; NB= (W+7)/8;
  auto w= ref(f, s); auto exp= place(w, m->get_start_address(), m->get_size(), offv[c[4]], rmin[c[5]], rmax[c[5]]);
  string what= strf("%s file '%s' as '%s'", ext[f], show(s).c_str(), sp.c_str());
  background(m);
  take_output();
  beat();
  if (c[7] == 0) {
    uc->read_file((fn+sp).c_str(), application->get_commander()->frozen_or_actual(), false);
    verify("specifier", exp, m, what);
  } else {                               // load, disturb one loaded and one other cell, check
    uc->read_file((fn+sp).c_str(), application->get_commander()->frozen_or_actual(), false);
    std::set<t_addr> bad;
    auto e2= exp; int k= 0;
    for (auto &e: e2) if (k++ % 3 == c[7]-1) { m->set(e.first, (e.second ^ 1) & mask()); e.second= (e.second ^ 1) & mask(); bad.insert(e.first); }
    take_output();
    string o= cmd("check \"" + fn+sp + "\"");
    std::set<t_addr> rep; size_t p= 0;
    while ((p= o.find("Diff at ", p)) != string::npos) { rep.insert(strtoul(o.c_str()+p+8, 0, 16)); p++; }
    std::map<t_addr,int> mult; for (auto &x: w) if (x.a >= rmin[c[5]] && x.a <= rmax[c[5]]) mult[x.a+offv[c[4]]]++;
    bool amb= false; for (auto &x: mult) if (x.second > 1) amb= true;
    if (!amb && rep != bad) fail("check:report", "%s: check reports %d differences, %d cells differ", what.c_str(), (int)rep.size(), (int)bad.size());
    verify("check:changes", e2, m, what);
  }
  shm->evaluations++; shm->traces++; shm->transitions+= w.size(); if (exp.size()) shm->distinct++, shm->states++;
  W= sw; NB= snb;
  background(m);
}

// phase 5: which file a name without extension finds
static void names(const Case &c)         // 5, set of existing extensions
{
  static const char *ex[]= { "", ".p2h", ".asc", ".ihx", ".hex", ".ihex", ".s19", ".omf" };
  string b= dir + "/n";
  int want= -1;
  for (int i= 1; i < 8; i++) {
    string n= b+ex[i]; unlink(n.c_str());
    if (!(c[1] & (1<<i))) continue;
    if (want < 0) want= i;
    int v= 0x20+i;
    put(n, i==1 ? strf("%04x //C 0000\n", v) : i==2 ? strf("%02x\n", v) : i==6 ? srec(1,0,{v})+"\n" : i==7 ? string("\x06\x05\0\0\0\0",6)+(char)v+"x" : hexrec(0,0,{v})+"\n"+hexrec(1,0,{})+"\n");
  }
  uc->read_file(b.c_str(), application->get_commander()->frozen_or_actual(), false);
  std::map<t_addr,uint32_t> exp; if (want > 0) exp[0]= 0x20+want;
  verify("names", exp, chip, strf("name with extension set 0x%lx", c[1]));
  shm->evaluations++; shm->traces++; shm->distinct++, shm->states++; shm->transitions++;
}

// phase 6: data beyond the space go to the bank of that number
static void bank(const Case &c)          // 6, file byte address/0x1000 selects, length
{
  t_addr a= c[1]; int n= c[2];
  string s;
  s+= hexrec(4,0,{(int)(a>>24)&0xff,(int)(a>>16)&0xff})+"\n";
  vector<int> d; for (int i= 0; i < n; i++) d.push_back((a*7+i*3+1)&0xff);
  s+= hexrec(0,a&0xffff,d)+"\n"+hexrec(1,0,{})+"\n";
  fn= dir + "/f.hex"; put(fn, s);
  cl_memory *b[4]; for (int i= 0; i < 4; i++) { b[i]= mem(strf("mcb%d", i).c_str()); background(b[i]); }
  cl_memory *sp= mem("mcs");
  long sel= c[3];
  uc->memory("xram")->write(0x7000, sel);
  uc->read_file((fn+"@mcs").c_str(), application->get_commander()->frozen_or_actual(), false);
  for (int k= 0; k < 4; k++) {
    std::map<t_addr,uint32_t> exp;
    for (int i= 0; i < n; i++) {
      t_addr x= a+i, bk= x / 0x1000, off= x % 0x1000;
      if (bk == 0) bk= sel;             // inside the space: as mapped now
      if ((int)bk == k) exp[off]= d[i];
    }
    verify("bank", exp, b[k], strf("%d bytes at 0x%x with bank %ld selected, chip of bank %d", n, a, sel, k));
  }
  if ((t_addr)sp->get(0) != (b[sel]->get(0))) fail("bank:selected", "after loading at 0x%x bank %ld is not selected any more", a, sel);
  shm->evaluations++; shm->traces++; shm->distinct++, shm->states++; shm->transitions+= n;
}
static bool setup_bank()
{
  if (!uc->memory("xram")) return false;
  cmd("memory create addressspace \"mcs\" 0 0x1000 8");
  for (int i= 0; i < 4; i++) cmd(strf("memory create chip \"mcb%d\" 0x1000 8", i));
  cmd("memory create banker xram 0x7000 0xff mcs 0 0xfff");
  for (int i= 0; i < 4; i++) cmd(strf("memory create bank mcs 0 %d mcb%d 0", i, i));
  return uc->memory("mcs") != 0;
}

static void setup()
{
  sim_start(strlen(MC_TYPE) ? vector<string>{ "-t", MC_TYPE } : vector<string>{});
  dir= strf("/dev/shm/mcload.%d", (int)getpid());
  mkdir(dir.c_str(), 0700);
  rom= uc->rom; chip= chip_of((cl_address_space*)rom);
  W= rom->width; NB= (W+7)/8; SIZE= rom->get_size();
  if (W == 8 && chip->get_size() == SIZE) raw= chip8(chip->get_name());
  background(chip);
  material();
  if (!freopen("/dev/null", "w", stderr)) _exit(3);
}
static void done() { for (const char *e: ext) unlink((dir+"/f."+e).c_str()); for (const char *e: { "p2h","asc","ihx","hex","ihex","s19","omf" }) unlink((dir+"/n."+e).c_str()); rmdir(dir.c_str()); }

// phase 7: the same records through the download command
class DlCon: public cl_console_dummy
{
public:
  cl_f *in;
  DlCon(): cl_console_dummy() { app= application; in= 0; }
  virtual cl_f *get_fin(void) { return in; }
};
static void download(const Case &c)      // 7, ending, records...
{
  int q[8]; int n= c.size()-2; for (int i= 0; i < n; i++) q[i]= c[2+i];
  string s= glue(H, q, n, c[1]);
  fn= dir + "/f.hex"; put(fn, s);
  static DlCon *con= 0; if (!con) con= new DlCon();
  con->in= mk_io(fn.c_str(), "r");
  beat();
  long r= uc->read_hex_file(con);
  delete con->in; con->in= 0;
  auto w= ref_hex(s);
  string what= strf("download of '%s'", show(s).c_str());
  if (r != (long)w.size()) fail("download:count", "%s: %ld words reported, %d contained", what.c_str(), r, (int)w.size());
  verify("download", place(w, 0, SIZE), chip, what);
  shm->evaluations++; shm->transitions+= w.size(); shm->traces++; if (!w.empty()) shm->distinct++, shm->states++;
}
static void run(const Case &c)
{
  setcase(c);
  if (c[0] == 4) spec(c); else if (c[0] == 5) names(c); else if (c[0] == 6) bank(c); else if (c[0] == 7) download(c); else one(c);
}
static u64 idx;
static bool mine() { return (int)(idx++ % nshards) == shard; }
void mc::harness_run()
{
  setup();
  for (int f: { HEX, S19, ASC, P2H, OMF }) {
    if (W > 8 && f == OMF) continue;
    int m= mat(f).size();
    int depth= (f == HEX || f == S19) ? 3 : f == OMF ? 3 : 4;
    if (W > 8 && SIZE > 4096) depth= thorough ? 3 : 2;
    for (int e= 0; e < (f == OMF ? 1 : 3); e++) {
      for (int n= 0; n <= depth + (W == 8 && (f == HEX || f == S19) && (!e || thorough)); n++) {
        long tot= 1; for (int i= 0; i < n; i++) tot*= m;
        for (long k= 0; k < tot; k++) {
          if (!mine()) continue;
          Case c= { 1, f, e }; long x= k; for (int i= 0; i < n; i++) c.push_back(x % m), x/= m;
          run(c);
        }
      }
    }
    for (int b= 0; b < 3; b++) {
      int l= basefile(f, b).size();
      for (int i= 0; i <= l; i++) if (mine()) run({ 3, f, b, i });
      if (f != HEX && f != S19) continue;
      for (int i= 0; i < l; i++) {
        for (int x= -2; x < 8; x++) if (mine()) run({ 2, f, b, i, x });
        for (int x= 0; x < 8; x++) if (mine()) run({ 2, f, b, i, 100+x });
      }
    }
  }
  for (int f: { HEX, S19, ASC, P2H, OMF }) for (int b= 0; b < 3; b++) for (int m= 0; m < 5; m++)
    for (int o= 0; o < 8; o++) for (int r= 0; r < 9; r++) for (int d= 0; d < 3; d++) for (int k= 0; k < 4; k++) {
      if (f == OMF && W > 8) continue;
      if (W > 8 && SIZE > 4096 && (d || (o && r && (o+r) % 3) || (k > 1)) && !thorough) continue;
      if (mine()) run({ 4, f, b, m, o, r, d, k });
    }
  for (int s= 0; s < 256; s+= 2) if (mine()) run({ 5, s });
  for (int i= 0; i < (int)H.size(); i++) for (int j= 0; j < (int)H.size(); j++) for (int e= 0; e < 3; e++) if (mine()) run({ 7, e, i, j, 0 });
  if (setup_bank()) {
    for (int a: { 0, 0xfff, 0x1000, 0x1ffe, 0x2fff, 0x3ffe, 0x3fff, 0x2abc }) for (int n: { 1, 2, 3 }) for (int s= 0; s < 4; s++) if (mine()) run({ 6, a, n, s });
    counter("bank_cases")= 1;
  }
  done();
  if (!shard) { sample("%s", show(basefile(HEX,0)).c_str()); sample("%s", show(basefile(S19,1)).c_str()); sample("f.hex@rom%s%s", offs[4], rngs[3]); }
}
void mc::harness_replay(const Case &c) { setup(); if (c[0] == 6) setup_bank(); run(c); done(); }
