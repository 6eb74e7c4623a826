/* The real simulator, in process. */
#ifndef MC_SIMDRV_H
#define MC_SIMDRV_H
#include "drv.h"
#include "globals.h"
#include "utils.h"
#include "appcl.h"
#include "simcl.h"
#include "uccl.h"
#include "memcl.h"
#include "varcl.h"
#include "hwcl.h"
#include "newcmdcl.h"

namespace mc {

extern cl_sim *sim;
extern cl_uc *uc;
extern bool asim_up;

// arguments as on the command line, without argv[0]
void sim_start(std::initializer_list<const char*> args);
void sim_start(const std::vector<std::string> &args);
// execute one command line on the capturing console, return its output
std::string cmd(const std::string &line);
// output collected since the last call (also from stops)
std::string take_output();
void attach_console();                       // messages of direct calls go to take_output()
// step until the simulation stops; false if it did not stop in max steps
bool run_until_stop(long max);
// "run"/"step" command followed by run_until_stop
std::string go(const std::string &line, long max= 100000);

cl_memory *mem(const char *name);            // address space or chip, must exist
cl_address_space *as(const char *name);
cl_memory_cell *var(const char *name);       // cell of a variable (register), must exist
cl_memory_cell *var_opt(const char *name);
uint8_t *chip8(const char *name);            // storage of an 8 bit chip
cl_memory *chip_of(cl_address_space *as);    // the chip decoded at its first address
}
#endif
