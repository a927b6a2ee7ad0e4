
// Queries: how the objects of a program state are reached (used to name the operands of calls found in the analysed functions).
#include "common.hpp"
#include "SMB.hpp"
extern "C" unsigned q_r_domains(SMB *s) { return s->r_domains; }
extern "C" unsigned q_z_domains(SMB *s) { return s->z_domains; }
extern "C" size_t q_dom0(SMB *s) { return s->geometry->domains_amount[0]; }
extern "C" size_t q_dom1(SMB *s) { return s->geometry->domains_amount[1]; }
extern "C" Domain *q_domain(SMB *s, unsigned i, unsigned j) { return s->domains.grid[i + s->domains.o_s][j + s->domains.o_s]; }
extern "C" Grid3D<double> *q_current(Domain *d) { return &d->current->current; }
extern "C" Grid3D<double> *q_field_e(Domain *d) { return &d->maxwell_solver->field_e; }
extern "C" Grid3D<double> *q_field_h(Domain *d) { return &d->maxwell_solver->field_h; }
extern "C" Grid3D<double> *q_field_h_at_et(Domain *d) { return &d->maxwell_solver->field_h_at_et; }
extern "C" double **q_buffer(Grid3D<double> *g) { return g->r_component.grid; }
