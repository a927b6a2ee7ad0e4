// Reference tiling: the part of the area, the walls, the absorbing layers and the plasma every sub-domain gets
#include "common.hpp"
#include "SMB.hpp"
#include <cstddef>

extern "C" size_t q_dom0(Geometry *g) { return g->domains_amount[0]; }
extern "C" size_t q_dom1(Geometry *g) { return g->domains_amount[1]; }
extern "C" size_t q_ncell0(Geometry *g) { return g->cell_amount[0]; }
extern "C" size_t q_ncell1(Geometry *g) { return g->cell_amount[1]; }
extern "C" size_t q_beams(Cfg *c) { return c->particle_beams.size(); }

#define OFF(f) extern "C" size_t q_off_##f() { return offsetof(Geometry, f); }
OFF(size) OFF(global_size) OFF(cell_size) OFF(cell_dims) OFF(cell_amount) OFF(global_cell_amount) OFF(domains_amount) OFF(walls) OFF(pml_size) OFF(pml_sigma)
extern "C" size_t q_smb_domains() { return offsetof(SMB, domains); }
extern "C" Domain **q_slot(SMB *s, unsigned i, unsigned j) { return &s->domains.grid[i + s->domains.o_s][j + s->domains.o_s]; }

typedef unsigned U;
#define V(name, T, expr) extern "C" T e_##name(Geometry *g, U i, U j) { size_t R = g->domains_amount[0], Z = g->domains_amount[1], n = g->cell_amount[0] / R, m = g->cell_amount[1] / Z; (void)R; (void)Z; (void)n; (void)m; return expr; }
V(size_0, double, g->size[0] / R)
V(size_1, double, g->size[1] / Z)
V(global_size_0, double, g->global_size[0])
V(global_size_1, double, g->global_size[1])
V(cell_size_0, double, g->size[0] / g->cell_amount[0])
V(cell_size_1, double, g->size[1] / g->cell_amount[1])
V(cell_amount_0, size_t, n)
V(cell_amount_1, size_t, m)
V(cell_dims_0, size_t, g->cell_dims[0] + i * n)
V(cell_dims_1, size_t, g->cell_dims[1] + j * m)
V(cell_dims_2, size_t, g->cell_dims[0] + (i + 1) * n)
V(cell_dims_3, size_t, g->cell_dims[1] + (j + 1) * m)
V(global_cell_amount_0, size_t, (size_t)std::round(g->global_size[0] / (g->size[0] / g->cell_amount[0])))
V(global_cell_amount_1, size_t, (size_t)std::round(g->global_size[1] / (g->size[1] / g->cell_amount[1])))
// a wall of the area bounds the first or last sub-domain of a row or column
V(wall_0, bool, i == 0 && g->walls[0])
V(wall_1, bool, j == 0 && g->walls[1])
V(wall_2, bool, i + 1 == R && g->walls[2])
V(wall_3, bool, j + 1 == Z && g->walls[3])
#ifdef ENABLE_PML
// an absorbing layer concerns every sub-domain it reaches into
V(pml_size_0, size_t, (size_t)0)
V(pml_size_1, size_t, g->cell_dims[1] + j * m < g->pml_size[1] ? g->pml_size[1] : 0)
V(pml_size_2, size_t, g->global_cell_amount[0] - (g->cell_dims[0] + (i + 1) * n) < g->pml_size[2] ? g->pml_size[2] : 0)
V(pml_size_3, size_t, g->global_cell_amount[1] - (g->cell_dims[1] + (j + 1) * m) < g->pml_size[3] ? g->pml_size[3] : 0)
V(pml_sigma_0, double, g->pml_sigma[0])
V(pml_sigma_1, double, g->pml_sigma[1])
#endif

// the plasma: macroparticles are shared equally, density falls linearly from the left to the right end of the whole area
extern "C" void verif_specie(unsigned id, const char *name, double charge, double mass, unsigned macro, double left, double right, double temperature);
extern "C" void op_specie(Geometry *g, U i, U j, Cfg *c, size_t k)
{
  size_t R = g->domains_amount[0], Z = g->domains_amount[1], m = g->cell_amount[1] / Z;
  particle_specie &s = c->particle_species._M_impl._M_start[k];
  double slope = (s.right_density - s.left_density) / g->global_size[1], dz = g->size[1] / g->cell_amount[1];
  verif_specie(s.id, s.name.c_str(), s.charge, s.mass, (int)(s.macro_amount / R / Z), s.left_density + slope * (g->cell_dims[1] + j * m) * dz,
               s.left_density + slope * (g->cell_dims[1] + (j + 1) * m) * dz, s.temperature);
}
extern "C" void verif_beam(unsigned id, const char *name, double charge, double mass, unsigned macro, double start, double radius, double density, double amount, double length,
                           double distance, double velocity);
extern "C" void op_beam(Geometry *g, U i, U j, Cfg *c, size_t k)
{
  particle_beam &b = c->particle_beams._M_impl._M_start[k];
  if (b.bunches_amount > 0)
    verif_beam(b.id, b.name.c_str(), b.charge, b.mass, b.macro_amount, b.start_time, b.bunch_radius, b.density, b.bunches_amount, b.bunch_length, b.bunches_distance, b.velocity);
}
extern "C" size_t q_species(Cfg *c) { return c->particle_species.size(); }

// the profile configured for the electric (0) or magnetic (1) external field
extern "C" const char *q_profile(Cfg *c, size_t f) { return c->external_fields._M_impl._M_start[f].formfactor.c_str(); }
extern "C" double q_param(Cfg *c, size_t f, size_t k) { return c->external_fields._M_impl._M_start[f].params._M_impl._M_start[k]; }
