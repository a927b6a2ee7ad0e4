// Operations of one time step, as they are reached from the shared memory block: each op_* performs exactly one of them on
// sub-domain (i, j) and species k.  The analysis compares the calls it finds with the call made here.
#include "common.hpp"
#include "SMB.hpp"
#define DOM(s) ((s)->domains.grid[i + (s)->domains.o_s][j + (s)->domains.o_s])
typedef unsigned U;
extern "C" unsigned q_r_domains(SMB *s) { return s->r_domains; }
extern "C" unsigned q_z_domains(SMB *s) { return s->z_domains; }
extern "C" size_t q_dom0(SMB *s) { return s->geometry->domains_amount[0]; }
extern "C" size_t q_dom1(SMB *s) { return s->geometry->domains_amount[1]; }
extern "C" size_t q_left_cell(SMB *s, U i, U j) { return DOM(s)->geometry.cell_dims[1]; }
extern "C" size_t q_species(SMB *s, U i, U j) { return DOM(s)->species_p.size(); }
extern "C" size_t q_beams(SMB *s) { return s->cfg->particle_beams.size(); }

extern "C" void op_field_e(SMB *s, U i, U j) { DOM(s)->maxwell_solver->calc_field_e(); }
extern "C" void op_field_h(SMB *s, U i, U j) { DOM(s)->maxwell_solver->calc_field_h(); }
extern "C" void op_overlay_e(SMB *s) { s->field_e_overlay(); }
extern "C" void op_overlay_h(SMB *s) { s->field_h_overlay(); }
extern "C" void op_overlay_current(SMB *s) { s->current_overlay(); }
extern "C" void op_runaway(SMB *s) { s->particles_runaway_collector(); }
extern "C" void op_reset_current(SMB *s, U i, U j) { DOM(s)->reset_current(); }
extern "C" void op_weight_current(SMB *s, U i, U j) { DOM(s)->current->current_distribution(); }
extern "C" void op_push(SMB *s, U i, U j) { (*DOM(s)->pusher)(); }
extern "C" void op_dump_old(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->dump_position_to_old(); }
extern "C" void op_move(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->mover_cylindrical(); }
extern "C" void op_fold_position(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->back_position_to_rz(); }
extern "C" void op_fold_velocity(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->back_velocity_to_rz(); }
extern "C" void op_reflect(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->reflect(); }
extern "C" void op_bind(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->bind_cell_numbers(); }
extern "C" void op_fill(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->fullyfill_spatial_distribution(); }
extern "C" void op_velocity(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->velocity_distribution(); }
extern "C" void op_inject(SMB *s, U i, U j, U k) { DOM(s)->species_p[k]->inject(); }
#ifdef ENABLE_COULOMB_COLLISIONS
extern "C" void op_collide(SMB *s, U i, U j) { (*DOM(s)->collisions)(); }
#endif
#ifdef ENABLE_EXTERNAL_FIELDS
extern "C" void op_external(SMB *s, U i, U j) { (*DOM(s)->external_fields)(); }
#endif
