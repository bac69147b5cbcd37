// Seams the stand-in libraries (tensor, MPI, timer) call into. Implemented by /verif/sim/core/sim.cc.
#ifndef VERIF_SIM_HOOKS_H
#define VERIF_SIM_HOOKS_H
#include <cstddef>
#include <string>
#include "mpi.h"
namespace sim {
void Work(const char *what);          // a unit of work: event point (clock tick, fault trigger, possible preemption)
double NowSeconds();                  // simulated clock
double TimerRead();                  // simulated clock, as an event
double RandDouble();                  // seeded workload randomness, [0,1)
void MpiSendString(const std::string &s, int dest, int tag, MPI_Comm comm);
MPI_Status MpiRecvString(std::string &s, int src, int tag, MPI_Comm comm);
void MpiBcastString(std::string &s, int root, MPI_Comm comm);
}
#endif
