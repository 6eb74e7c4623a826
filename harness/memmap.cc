/* Address map: every sequence of map-editing commands up to a depth, on the
   real commands and memory classes, against an independent map model. */
#include "simdrv.h"
#include <algorithm>
using namespace mc;
int mc::harness_default_shards= 0;

enum { CHIP0, CHIP1, NCHIP };
enum { TAB= 4, TAN= 8, TBB= 0, TBN= 8 };
static const int csize[2]= { 5, 9 };
static const char *cname[2]= { "kzero", "kone" };
enum kind { DEC, BANKER, BANK, BANDER, SEL, RMCHIP, PREBANK, NKIND };
static const char *kname[]= { "decoder", "banker", "bank", "bander", "select", "rmchip", "banker with banks" };
struct Op { int k; long a[6]; };
static std::vector<Op> ops;          // the whole alphabet
static std::vector<int> L2, L3, L4;  // indices used at each depth

// ---------------------------------------------------------------- model
struct Bank { bool def; int chip; long rel; };
struct Area {
  int k, b, e, org;
  int chip; long cb; int bpc, dist;
  int mask, sel, nb; std::vector<Bank> banks;
};
struct Map { int chip, off, mask; };     // chip -1: undecoded, -2: not specified
struct Model {
  std::vector<Area> as[2];
  bool have[2]; int se[2];
  void reset() { as[0].clear(); as[1].clear(); have[0]= have[1]= true; se[0]= se[1]= 0; }
  void cut(int s, int b, int e)
  {
    std::vector<Area> n;
    for (Area &x: as[s]) {
      if (x.e < b || x.b > e) { n.push_back(x); continue; }
      if (x.b < b) { Area l= x; l.e= b-1; n.push_back(l); }
      if (x.e > e) { Area r= x; r.b= e+1; n.push_back(r); }
    }
    as[s]= n;
  }
  void apply(const Op &o)
  {
    switch (o.k) {
    case DEC: {
      int s= o.a[0]; long b= o.a[1], e= o.a[2], c= o.a[3], cb= o.a[4];
      long lo= s?TBB:TAB, hi= s?TBB+TBN-1:TAB+TAN-1;
      if (!have[c] || b > e || b < lo || e > hi || cb >= csize[c] || e-b+1 > csize[c]-cb) return;
      cut(s, b, e);
      Area x= Area(); x.k= DEC; x.b= x.org= b; x.e= e; x.chip= c; x.cb= cb;
      as[s].push_back(x);
      break; }
    case BANKER: {
      long sel= o.a[0], mask= o.a[1], b= o.a[2], e= o.a[3];
      if (b > e || b < TAB || e > TAB+TAN-1) return;
      cut(0, b, e);
      Area x= Area(); x.k= BANKER; x.b= x.org= b; x.e= e; x.mask= mask; x.sel= sel;
      int m= mask; x.nb= 1;
      if (!m) x.nb= 0; else { while (!(m&1)) m>>= 1; while (m) x.nb<<= 1, m>>= 1; }
      x.banks.assign(x.nb, Bank());
      as[0].push_back(x);
      break; }
    case BANK: {
      long b= o.a[0], nr= o.a[1], c= o.a[2], cb= o.a[3];
      if (!have[c] || cb >= csize[c]) return;
      for (Area &x: as[0])
        if (x.b <= b && b <= x.e) {
          if (x.k != BANKER || nr < 0 || nr >= x.nb) return;
          x.banks[nr].def= true; x.banks[nr].chip= c; x.banks[nr].rel= cb - (x.b - x.org);
        }
      break; }
    case BANDER: {
      long b= o.a[0], e= o.a[1], c= o.a[2], cb= o.a[3];
      if (!have[c] || cb >= csize[c] || b > e || e > TBB+TBN-1) return;
      cut(1, b, e);
      Area x= Area(); x.k= BANDER; x.b= x.org= b; x.e= e; x.chip= c; x.cb= cb; x.bpc= o.a[4]; x.dist= o.a[5];
      as[1].push_back(x);
      break; }
    case PREBANK: {
      long b= o.a[0], e= o.a[1];
      if (!have[0] || !have[1]) return;
      cut(0, b, e);
      Area x= Area(); x.k= BANKER; x.b= x.org= b; x.e= e; x.mask= 1; x.sel= 0; x.nb= 2;
      x.banks.assign(2, Bank());
      x.banks[0].def= x.banks[1].def= true;
      x.banks[0].chip= 1; x.banks[0].rel= o.a[2]; x.banks[1].chip= 0; x.banks[1].rel= o.a[3];
      as[0].push_back(x);
      break; }
    case SEL: se[o.a[0]]= o.a[1] & 0xff; break;
    case RMCHIP: {
      int c= o.a[0];
      if (!have[c]) return;
      have[c]= false;
      for (int s= 0; s < 2; s++) {
        std::vector<Area> n;
        for (Area &x: as[s]) {
          bool use= x.k == BANKER ? false : x.chip == c;
          if (x.k == BANKER) for (Bank &k: x.banks) if (k.def && k.chip == c) use= true;
          if (!use) n.push_back(x);
        }
        as[s]= n;
      }
      break; }
    }
  }
  Map where(int s, int a)
  {
    Map r= { -1, 0, s ? 1 : 0xff };
    for (Area &x: as[s]) {
      if (a < x.b || a > x.e) continue;
      if (x.k == DEC) r.chip= x.chip, r.off= x.cb + (a-x.org);
      else if (x.k == BANDER) {
        int i= a-x.org;
        r.chip= x.chip; r.off= x.cb + (i/x.bpc)*x.dist; r.mask= 1 << (i%x.bpc);
      } else {
        if (!x.nb) { r.chip= -2; return r; }
        int m= x.mask, sh= 0;
        while (!(m&1)) m>>= 1, sh++;
        int bn= (se[x.sel] & x.mask) >> sh;
        if (!x.banks[bn].def) { r.chip= -2; return r; }
        r.chip= x.banks[bn].chip; r.off= x.banks[bn].rel + (a-x.org);
      }
      if (r.off >= csize[r.chip]) r.chip= -1;
      return r;
    }
    return r;
  }
  std::string key()
  {
    std::string k= strf("%d%d%d,%d", have[0], have[1], se[0], se[1]);
    for (int s= 0; s < 2; s++) {
      std::sort(as[s].begin(), as[s].end(), [](const Area &x, const Area &y) { return x.b < y.b; });
      for (Area &x: as[s]) {
        k+= strf(";%d%d-%d,%d,%ld,", x.k, x.b, x.e, x.chip, x.cb+(x.k==DEC ? x.b-x.org : x.org));
        if (x.k == BANDER) k+= strf("%d,%d", x.bpc, x.dist);
        if (x.k == BANKER) { k+= strf("%d,%d", x.mask, x.sel); for (Bank &b: x.banks) k+= b.def?strf("/%d,%ld", b.chip, b.rel-x.org):"-"; }
      }
    }
    return k;
  }
};

// ----------------------------------------------------------- real system
static cl_address_space *ta, *tb, *se;
static std::string line(const Op &o)
{
  const long *a= o.a;
  switch (o.k) {
  case DEC: return strf("memory create addressdecoder %s %ld %ld %s %ld", a[0]?"tbits":"tspace", a[1], a[2], cname[a[3]], a[4]);
  case BANKER: return strf("memory create banker tsel %ld %ld tspace %ld %ld", a[0], a[1], a[2], a[3]);
  case BANK: return strf("memory create bank tspace %ld %ld %s %ld", a[0], a[1], cname[a[2]], a[3]);
  case BANDER: return strf("memory create bander tbits %ld %ld %s %ld %ld %ld", a[0], a[1], cname[a[2]], a[3], a[4], a[5]);
  case PREBANK: return strf("memory: new banker(tsel 0 1, %ld-%ld, kone %ld, kzero %ld)", a[0], a[1], a[2], a[3]);
  case RMCHIP: return strf("memory remove chip %s", cname[a[0]]);
  }
  return "";
}
static void teardown()
{
  for (cl_address_space **p: { &ta, &tb, &se })
    if (*p) { uc->address_spaces->disconn(*p); delete *p; *p= 0; }
  for (const char *n: { "kzero", "kone", "ksel" }) {
    cl_memory *c= 0;
    for (int i= 0; i < uc->memchips->count; i++) {
      cl_memory *m= (cl_memory*)uc->memchips->at(i);
      if (m->is_named(n)) c= m;
    }
    if (c) { uc->memchips->disconn(c); delete c; }
  }
  uc->errors->free_all();
}
static void setup()
{
  cmd("memory create chip kzero 5 8"); cmd("memory create chip kone 9 8"); cmd("memory create chip ksel 2 8");
  cmd("memory create addressspace tspace 4 8"); cmd("memory create addressspace tbits 0 8 1"); cmd("memory create addressspace tsel 0 2");
  ta= mc::as("tspace"); tb= mc::as("tbits"); se= mc::as("tsel");
  cmd("memory create addressdecoder tsel 0 1 ksel 0");
  se->write(0, 0); se->write(1, 0);
}
static void real_apply(const Op &o)
{
  if (o.k == SEL) se->write(o.a[0], o.a[1]);
  else if (o.k == PREBANK) {
    // a banker set up the way processor classes do it
    cl_memory *k[2]= { 0, 0 };
    for (int c= 0; c < 2; c++)
      for (int i= 0; i < uc->memchips->count; i++)
        if (((cl_memory*)uc->memchips->at(i))->is_named(cname[c])) k[c]= (cl_memory*)uc->memchips->at(i);
    if (!k[0] || !k[1]) return;
    cl_banker *b= new cl_banker(se, 0, 1, ta, o.a[0], o.a[1]);
    b->init();
    b->add_bank(0, k[1], o.a[2]);
    b->add_bank(1, k[0], o.a[3]);
    ta->decoders->add(b);
    ta->undecode_area(b, o.a[0], o.a[1], NULL);
    b->activate(NULL);
  }
  else cmd(line(o));
}

static cl_memory *chipp[2];
static void probe(Model &m, const std::string &sig, const std::string &hist, bool text)
{
  for (int c= 0; c < 2; c++) {
    chipp[c]= 0;
    for (int i= 0; i < uc->memchips->count; i++) {
      cl_memory *x= (cl_memory*)uc->memchips->at(i);
      if (x->is_named(cname[c])) chipp[c]= x;
    }
    if ((chipp[c] != 0) != m.have[c]) { fail(sig+":chip", "%s: chip %s %s", hist.c_str(), cname[c], m.have[c]?"lost":"not removed"); return; }
  }
  for (int i= 0; i < 2; i++)
    if ((int)se->get(i) != m.se[i]) fail(sig+":sel", "%s: selector %d holds %x, written %x", hist.c_str(), i, (int)se->get(i), m.se[i]);
  for (int s= 0; s < 2; s++) {
    cl_address_space *as= s ? tb : ta;
    int lo= s ? TBB : TAB, n= s ? TBN : TAN;
    for (int a= lo; a < lo+n; a++) {
      Map w= m.where(s, a);
      if (w.chip == -2) continue;
      // reads follow the chip, for two different contents
      bool nd= as->get_cell(a)->get_flag(CELL_NON_DECODED);
      if (nd != (w.chip == -1)) {
        fail(sig+":decoded", "%s: %s[%d] is %s, expected %s", hist.c_str(), s?"bits":"space", a, nd?"not decoded":"decoded",
             w.chip<0?"not decoded":strf("%s[%d]", cname[w.chip], w.off).c_str());
        continue;
      }
      // contents: all cells 0x55-like distinct values
      for (int c= 0; c < 2; c++) if (chipp[c]) for (int i= 0; i < csize[c]; i++) chipp[c]->set(i, 0x10*(c+1)+i);
      if (w.chip >= 0) {
        for (int inv= 0; inv < 2; inv++) {
          int v= (0x10*(w.chip+1)+w.off) ^ (inv?0xff:0);
          chipp[w.chip]->set(w.off, v);
          int got= as->read(a), exp= s ? ((v & w.mask) ? 1 : 0) : v;
          if (got != exp) { fail(sig+":read", "%s: read %s[%d]=%x expected %x from %s[%d] mask %x", hist.c_str(), s?"bits":"space", a, got, exp, cname[w.chip], w.off, w.mask); break; }
        }
        chipp[w.chip]->set(w.off, 0x10*(w.chip+1)+w.off);
      }
      // a write lands there and nowhere else
      int wv= s ? !((w.chip>=0) && ((0x10*(w.chip+1)+w.off) & w.mask)) : 0xa5;
      as->write(a, wv);
      for (int c= 0; c < 2; c++) if (chipp[c]) for (int i= 0; i < csize[c]; i++) {
        int exp= 0x10*(c+1)+i;
        if (c == w.chip && i == w.off) exp= s ? (wv ? exp|w.mask : exp & ~w.mask) : wv;
        int got= chipp[c]->get(i);
        if (got != exp) fail(sig+":write", "%s: after %s[%d]=%x, %s[%d]=%x expected %x", hist.c_str(), s?"bits":"space", a, wv, cname[c], i, got, exp);
      }
      if (text && !s) {
        std::string t= cmd(strf("memory cell tspace %d", a));
        std::string exp= w.chip >= 0 ? strf("  decoded to %s[%d]\n", cname[w.chip], w.off) : "";
        size_t p= t.find("  decoded to ");
        std::string got= p == std::string::npos ? "" : t.substr(p, t.find('\n', p)-p+1);
        if (got != exp) fail(sig+":cellinfo", "%s: memory cell tspace %d says '%s' expected '%s'", hist.c_str(), a, got.c_str(), exp.c_str());
      }
    }
    // the listed areas describe exactly that map
    std::vector<int> cov(n, 0);
    for (int i= 0; i < as->decoders->count; i++) {
      cl_address_decoder *d= (cl_address_decoder*)as->decoders->at(i);
      for (long a= d->as_begin; a <= (long)d->as_end && a < lo+n && a >= lo; a++) {
        cov[a-lo]++;
        Map w= m.where(s, a);
        if (!d->is_banker() && !d->is_bander() && w.chip >= 0 &&
            (!d->memchip || !d->memchip->is_named(cname[w.chip]) || (long)(d->chip_begin + a-d->as_begin) != w.off))
          fail(sig+":listed", "%s: listed decoder maps %s[%ld] elsewhere than %s[%d]", hist.c_str(), s?"bits":"space", a, cname[w.chip], w.off);
      }
    }
    for (int a= lo; a < lo+n; a++) {
      int in= 0;
      for (Area &x: m.as[s]) if (x.b <= a && a <= x.e) in= 1;
      if (cov[a-lo] != in) fail(sig+":areas", "%s: %s[%d] is in %d listed areas, expected %d", hist.c_str(), s?"bits":"space", a, cov[a-lo], in);
    }
  }
}

static Model md;
static void run_seq(const int *q, int n, bool text)
{
  setup();
  md.reset();
  std::string hist, sig;
  for (int i= 0; i < n; i++) {
    const Op &o= ops[q[i]];
    hist+= o.k == SEL ? strf("select %ld=%ld", o.a[0], o.a[1]) : line(o).substr(7); if (i < n-1) hist+= " | ";
    sig+= kname[o.k]; if (i < n-1) sig+= ",";
    real_apply(o); md.apply(o);
  }
  shm->evaluations++; shm->traces++; shm->transitions+= n;
  probe(md, sig, hist, text);
  teardown();
}

static void add(std::vector<std::vector<int>*> ls, int k, std::initializer_list<long> a)
{
  Op o; o.k= k; int i= 0; for (long x: a) o.a[i++]= x;
  int id= -1;
  for (size_t j= 0; j < ops.size() && id < 0; j++) {
    if (ops[j].k != k) continue;
    bool same= true; for (int x= 0; x < i; x++) if (ops[j].a[x] != o.a[x]) same= false;
    if (same) id= j;
  }
  if (id < 0) id= ops.size(), ops.push_back(o);
  for (auto l: ls) l->push_back(id);
}
static void alphabet()
{
  auto d2= &L2, d3= &L3, d4= &L4;
  // everything, for depth 2
  for (long b= TAB; b < TAB+TAN; b++) for (long e= b; e < TAB+TAN; e++) {
    for (long cb: { 0, 1, 2, 4 }) for (long c= 0; c < 2; c++) add({d2}, DEC, {0,b,e,c,cb});
    add({d2}, BANKER, {0,1,b,e}); add({d2}, BANKER, {0,6,b,e}); add({d2}, BANKER, {1,3,b,e});
  }
  for (long b= 0; b < TBN; b++) for (long e= b; e < TBN; e++) {
    add({d2}, BANDER, {b,e,1,0,8,1}); add({d2}, BANDER, {b,e,0,1,2,2}); add({d2}, BANDER, {b,e,1,2,3,1});
    add({d2}, DEC, {1,b,e,0,0});
  }
  add({d2}, DEC, {0,6,5,1,0}); add({d2}, DEC, {0,3,5,1,0}); add({d2}, DEC, {0,4,12,1,0}); add({d2}, DEC, {0,4,4,1,9}); add({d2}, DEC, {0,4,4,0,5});
  add({d2}, BANKER, {0,0,5,6}); add({d2}, BANKER, {0,5,5,6}); add({d2}, BANKER, {0,1,7,6}); add({d2}, BANKER, {0,1,3,6}); add({d2}, BANKER, {0,1,6,12});
  for (long b: { 4, 6, 8, 11 }) for (long nr: { -1, 0, 1, 2, 3, 4, 7 }) for (long c= 0; c < 2; c++) for (long cb: { 0, 2, 5 }) add({d2}, BANK, {b,nr,c,cb});
  for (long i= 0; i < 2; i++) for (long v: { 0, 1, 2, 3, 5, 6, 0x100, 0xff, 0xfe }) add({d2}, SEL, {i,v});
  add({d2}, RMCHIP, {0}); add({d2}, RMCHIP, {1});
  for (long b= TAB; b < TAB+TAN; b++) for (long e= b; e < TAB+TAN; e++) add({d2}, PREBANK, {b,e,0,1});
  // depth 3
  add({d3}, PREBANK, {5,8,0,1}); add({d3}, PREBANK, {4,4,1,0});
  add({d4}, PREBANK, {5,8,0,1});
  for (auto r: { std::pair<long,long>{4,11}, {4,7}, {8,11}, {6,9}, {7,7}, {4,4}, {11,11}, {5,8}, {7,11} }) {
    add({d3}, DEC, {0,r.first,r.second,1,0}); add({d3}, DEC, {0,r.first,r.second,0,1});
    add({d3}, BANKER, {0,1,r.first,r.second}); add({d3}, BANKER, {1,6,r.first,r.second});
    add({d3}, BANDER, {r.first-4,r.second-4,1,1,8,1}); add({d3}, BANDER, {r.first-4,r.second-4,0,0,2,2});
    add({d3}, DEC, {1,r.first-4,r.second-4,1,1});
  }
  for (long b: { 4, 7, 11 }) for (long nr: { 0, 1, 3 }) { add({d3}, BANK, {b,nr,1,0}); add({d3}, BANK, {b,nr,0,2}); }
  add({d3}, SEL, {0,1}); add({d3}, SEL, {0,0}); add({d3}, SEL, {1,6}); add({d3}, SEL, {1,2}); add({d3}, SEL, {0,0xfe});
  add({d3}, RMCHIP, {0}); add({d3}, RMCHIP, {1});
  // depth 4 and 5: the ways areas can overlap, and bank histories
  add({d4}, BANKER, {0,1,4,11}); add({d4}, BANKER, {0,1,6,9});
  add({d4}, BANK, {6,0,1,0}); add({d4}, BANK, {6,1,0,0}); add({d4}, BANK, {9,1,1,3}); add({d4}, BANK, {6,0,0,1});
  add({d4}, SEL, {0,1}); add({d4}, SEL, {0,0});
  add({d4}, DEC, {0,4,6,1,0}); add({d4}, DEC, {0,7,8,0,1}); add({d4}, DEC, {0,9,11,1,5}); add({d4}, DEC, {0,4,11,1,1});
  add({d4}, RMCHIP, {0}); add({d4}, RMCHIP, {1});
}

static u64 idx;
static void enumerate(const std::vector<int> &L, int depth, int ph, int *q, int n)
{
  if (n == depth) {
    if ((int)(idx++ % nshards) != shard) return;
    shm->cur[0]= ph;
    long v[8]= { depth <= 2 }; for (int i= 0; i < n; i++) v[i+1]= q[i];
    setcase(v, n+1);
    run_seq(q, n, depth <= 2);
    static std::vector<bool> seen(1 << 24);
    size_t h= std::hash<std::string>()(md.key()) & 0xffffff;
    if (!seen[h]) seen[h]= true, shm->states++, shm->distinct++;
    return;
  }
  for (int i: L) { q[n]= i; enumerate(L, depth, ph, q, n+1); }
}
void mc::harness_run()
{
  alphabet();
  sim_start({});
  int q[8];
  enumerate(L2, 1, 1, q, 0);
  enumerate(L2, 2, 2, q, 0);
  enumerate(L3, 3, 3, q, 0);
  enumerate(L4, 4, 4, q, 0);
  if (thorough) enumerate(L4, 5, 5, q, 0);
  if (!shard) {
    counter("alphabet_depth2")= L2.size(); counter("alphabet_depth3")= L3.size(); counter("alphabet_depth4")= L4.size();
    sample("%s | %s | select 0=1", line(ops[L4[0]]).c_str(), line(ops[L4[3]]).c_str());
  }
}
void mc::harness_replay(const Case &c)
{
  alphabet();
  sim_start({});
  int q[8]; for (size_t i= 1; i < c.size(); i++) q[i-1]= c[i];
  run_seq(q, c.size()-1, c[0]);
}
