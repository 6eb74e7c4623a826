#include "drv.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace mc {
Shm *shm;
int shard= 0, nshards= 1;
bool thorough= false, replaying= false, verbose= false;
long seed= 1;

u64 &counter(const char *name)
{
  for (int i= 0; i < shm->ncnt; i++)
    if (strcmp(shm->cnt[i].name, name) == 0) return shm->cnt[i].val;
  if (shm->ncnt >= MAXCNT) { fprintf(stderr, "too many counters\n"); _exit(3); }
  snprintf(shm->cnt[shm->ncnt].name, sizeof(shm->cnt[0].name), "%s", name);
  return shm->cnt[shm->ncnt++].val;
}

void sample(const char *fmt, ...)
{
  if (shm->nsample >= MAXSAMPLE) return;
  va_list ap; va_start(ap, fmt);
  vsnprintf(shm->sample[shm->nsample++], sizeof(shm->sample[0]), fmt, ap);
  va_end(ap);
}

std::string strf(const char *fmt, ...)
{
  char b[4096]; va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  return b;
}

bool failed_already(const std::string &sig)
{
  for (int i= 0; i < shm->nviol; i++)
    if (sig == shm->viol[i].sig) return true;
  return false;
}

void fail(const std::string &sig, const char *fmt, ...)
{
  shm->viol_total++;
  if (failed_already(sig.substr(0, sizeof(shm->viol[0].sig)-1)) || shm->nviol >= MAXVIOL) return;
  Viol &v= shm->viol[shm->nviol];
  snprintf(v.sig, sizeof v.sig, "%s", sig.c_str());
  va_list ap; va_start(ap, fmt);
  vsnprintf(v.msg, sizeof v.msg, fmt, ap);
  va_end(ap);
  v.n= shm->curn;
  for (int i= 0; i < v.n; i++) v.v[i]= shm->cur[i];
  shm->nviol++;
  if (verbose) fprintf(stderr, "FAIL %s: %s\n", v.sig, v.msg);
}
}

using namespace mc;

static void jstr(FILE *f, const char *s)
{
  fputc('"', f);
  for (; *s; s++)
    {
      unsigned char c= *s;
      if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
      else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
      else fputc(c, f);
    }
  fputc('"', f);
}

static double now()
{
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec*1e-9;
}

int main(int argc, char **argv)
{
  int want= harness_default_shards, only= -1;
  double hang= 60;
  const char *replay= 0;
  for (int i= 1; i < argc; i++)
    {
      if (!strcmp(argv[i], "--thorough")) thorough= true;
      else if (!strcmp(argv[i], "--verbose")) verbose= true;
      else if (!strcmp(argv[i], "--shards")) want= atoi(argv[++i]);
      else if (!strcmp(argv[i], "--only")) only= atoi(argv[++i]);
      else if (!strcmp(argv[i], "--hang")) hang= atof(argv[++i]);
      else if (!strcmp(argv[i], "--seed")) seed= atol(argv[++i]);
      else if (!strcmp(argv[i], "--replay")) replay= argv[++i];
      else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
  if (want <= 0) want= 8;
  if (replay) want= 1, replaying= true;
  nshards= want;
  std::vector<Shm*> shms; std::vector<pid_t> pids;
  for (int s= 0; s < want; s++)
    {
      Shm *m= (Shm*)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
      if (m == MAP_FAILED) { perror("mmap"); return 3; }
      shms.push_back(m); pids.push_back(0);
      if (only >= 0 && s != only) { m->done= 1; continue; }
      fflush(0);
      pid_t p= getenv("MC_NOFORK") ? 0 : fork(); // debugging aid
      if (p < 0) { perror("fork"); return 3; }
      if (p == 0)
	{
	  shm= m; shard= s;
	  int n= open("/dev/null", O_RDWR);
	  dup2(n, 0); dup2(n, 1);
	  if (!verbose) dup2(n, 2);
	  struct rlimit rl= { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	  if (replay)
	    {
	      Case c; const char *q= replay;
	      while (*q) { char *e; c.push_back(strtol(q, &e, 0)); if (e == q) break; q= e; while (*q == ',' || *q == ' ') q++; }
	      setcase(c);
	      harness_replay(c);
	    }
	  else
	    harness_run();
	  shm->done= 1;
	  _exit(0);
	}
      pids[s]= p;
    }
  std::vector<u64> last(want, 0); std::vector<double> when(want, now());
  int alive= 0; for (pid_t p: pids) if (p) alive++;
  while (alive)
    {
      int st; pid_t p= waitpid(-1, &st, WNOHANG);
      if (p > 0)
	{
	  for (int s= 0; s < want; s++)
	    if (pids[s] == p)
	      {
		pids[s]= 0; alive--;
		if (!shms[s]->done)
		  {
		    shm= shms[s];
		    std::string why= WIFSIGNALED(st) ? strf("signal-%d", WTERMSIG(st)) : strf("exit-%d", WEXITSTATUS(st));
		    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error in worker %d\n", s); return 3; }
		    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && shms[s]->nviol && !strcmp(shms[s]->viol[shms[s]->nviol-1].sig, "hang")) ;
		    else mc::fail("crash:"+why, "the simulator died (%s) while running this case", why.c_str());
		  }
	      }
	  continue;
	}
      for (int s= 0; s < want; s++)
	if (pids[s])
	  {
	    if (shms[s]->beat != last[s]) { last[s]= shms[s]->beat; when[s]= now(); }
	    else if (now() - when[s] > hang)
	      {
		shm= shms[s];
		mc::fail("hang", "no progress for %.0f s in this case", hang);
		kill(pids[s], SIGKILL);
		when[s]= now();
	      }
	  }
      usleep(2000);
    }
  FILE *o= stdout;
  u64 ev=0, di=0, st=0, tr=0, tc=0, vt= 0;
  for (Shm *m: shms) ev+= m->evaluations, di+= m->distinct, st+= m->states, tr+= m->transitions, tc+= m->traces, vt+= m->viol_total;
  fprintf(o, "{\"evaluations\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"viol_total\":%llu,\n\"counters\":{", ev, di, st, tr, tc, vt);
  std::vector<std::pair<std::string,u64>> cs;
  for (Shm *m: shms)
    for (int i= 0; i < m->ncnt; i++)
      {
	bool f= false;
	for (auto &c: cs) if (c.first == m->cnt[i].name) { c.second+= m->cnt[i].val; f= true; }
	if (!f) cs.push_back({m->cnt[i].name, m->cnt[i].val});
      }
  for (size_t i= 0; i < cs.size(); i++)
    fprintf(o, "%s", i?",":""), jstr(o, cs[i].first.c_str()), fprintf(o, ":%llu", cs[i].second);
  fprintf(o, "},\n\"samples\":[");
  int k= 0;
  for (int i= 0; i < MAXSAMPLE && k < 8; i++)
    for (Shm *m: shms)
      if (i < m->nsample && k < 8)
	{ if (k++) fputc(',', o); jstr(o, m->sample[i]); }
  fprintf(o, "],\n\"violations\":[");
  k= 0;
  for (int s= 0; s < want; s++)
    for (int i= 0; i < shms[s]->nviol; i++)
      {
	Viol &v= shms[s]->viol[i];
	fprintf(o, "%s\n{\"shard\":%d,\"nshards\":%d,\"sig\":", k++?",":"", s, want);
	jstr(o, v.sig); fprintf(o, ",\"msg\":"); jstr(o, v.msg);
	fprintf(o, ",\"case\":\"");
	for (int j= 0; j < v.n; j++) fprintf(o, "%s%ld", j?",":"", v.v[j]);
	fprintf(o, "\"}");
      }
  fprintf(o, "]}\n");
  return k ? 1 : 0;
}
