// Where the clock of a run is kept.
#include "common.hpp"
#include "cfg.hpp"
extern "C" double *q_current_time(TimeSim *t) { return &t->current; }
extern "C" double *q_end_time(TimeSim *t) { return &t->end; }
extern "C" double *q_step_time(TimeSim *t) { return &t->step; }
extern "C" TimeSim **q_clock(Cfg *c) { return &c->time; }
