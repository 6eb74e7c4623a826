#include "simdrv.h"
#include MC_SIM_HDR
#include <unistd.h>
#include <stdarg.h>
#ifdef MC_SIM_CPUS
#include "globals.h"
#endif
#include "iwrap.h"

#ifdef MC_SIM_CPUS
extern struct cpu_entry MC_SIM_CPUS[];
#endif

namespace mc {
cl_sim *sim= 0;
cl_uc *uc= 0;

class Capture: public cl_f
{
public:
  std::string *out;
  Capture(std::string *o): cl_f(), out(o) { tty= false; }
  virtual enum file_type determine_type(void) { return F_FILE; }
  virtual int check_dev(void) { return 0; }
  virtual bool writable(void) { return true; }
  virtual int write(const char *buf, int count) { out->append(buf, count); return count; }
};

class Con: public cl_console_dummy
{
public:
  std::string out;
  Capture cap{&out};
  virtual class cl_f *get_fout(void) { return &cap; }
  Con(): cl_console_dummy() { app= application; set_flag(~CONS_NONE, false); lines_printed= new cl_ustrings(100, 100, "mc"); id= 77; }
  virtual bool non_color(void) { return true; }
  virtual bool prevent_quit(void) { return true; }
  virtual int cmd_do_print(const char *format, va_list ap)
  {
    char b[8192];
    int n= vsnprintf(b, sizeof b, format, ap);
    out+= b;
    return n;
  }
  virtual int cmd_do_cprint(const char *, const char *format, va_list ap) { return cmd_do_print(format, ap); }
  virtual int write(char *buf, int count) { out.append(buf, count); return count; }
};
static Con *con= 0;

void sim_start(std::initializer_list<const char*> args)
{
  std::vector<std::string> v;
  for (auto a: args) v.push_back(a);
  sim_start(v);
}

void sim_start(const std::vector<std::string> &args)
{
  static std::vector<char*> argv;
  argv.clear();
  argv.push_back(strdup("mc"));
  argv.push_back(strdup("-q"));
  for (auto &a: args) argv.push_back(strdup(a.c_str()));
  int argc= argv.size();
  argv.push_back(0);
  app_start_at= dnow();
#ifdef MC_SIM_CPUS
  cpus= MC_SIM_CPUS;
#endif
  application= new cl_app();
  application->set_name("mc");
  application->init(argc, argv.data());
  sim= new MC_SIM_CLASS(application);
  if (sim->init()) { fprintf(stderr, "sim init failed\n"); _exit(3); }
  application->set_simulator(sim);
  uc= sim->uc;
  con= new Con();
  con->init();
  application->get_commander()->add_console(con);
  con->out.clear();
}

std::string take_output()
{
  std::string s; s.swap(con->out); return s;
}

std::string cmd(const std::string &line)
{
  cl_commander_base *c= application->get_commander();
  c->actual_console= con;
  application->exec(chars(line.c_str()), con);
  c->actual_console= 0;
  return take_output();
}

void attach_console() { application->get_commander()->actual_console= con; }

bool run_until_stop(long max)
{
  while (sim->state & SIM_GO)
    {
      if (max-- <= 0) return false;
      sim->step();
    }
  return true;
}

std::string go(const std::string &line, long max)
{
  std::string o= cmd(line);
  run_until_stop(max);
  return o + take_output();
}

cl_memory *mem(const char *name)
{
  cl_memory *m= uc->memory(name);
  if (!m) { fprintf(stderr, "no memory %s\n", name); _exit(3); }
  return m;
}

cl_address_space *as(const char *name)
{
  cl_address_space *m= uc->address_space(name);
  if (!m) { fprintf(stderr, "no address space %s\n", name); _exit(3); }
  return m;
}

cl_memory_cell *var_opt(const char *name)
{
  cl_cvar *v= uc->get_var(name);
  return v ? v->get_cell() : 0;
}

cl_memory_cell *var(const char *name)
{
  cl_memory_cell *c= var_opt(name);
  if (!c) { fprintf(stderr, "no variable %s\n", name); _exit(3); }
  return c;
}

uint8_t *chip8(const char *name)
{
  cl_memory *m= mem(name);
  if (!m->is_chip()) { fprintf(stderr, "%s is not a chip\n", name); _exit(3); }
  return (uint8_t*)((cl_memory_chip*)m)->get_slot(0);
}

cl_memory *chip_of(cl_address_space *a)
{
  cl_address_decoder *d= a->get_decoder_of(a->lowest_valid_address());
  return d ? d->memchip : 0;
}
}
