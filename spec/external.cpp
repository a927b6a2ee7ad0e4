// Reference external fields
#include "common.hpp"
#include "maxwellSolver/externalFields.hpp"

// a homogeneous longitudinal field: the same in all cells the sub-domain sees (also those of its neighbours), but not in the cells at walls
static inline void homogenous(ExternalFields *f, Grid3D<double> &G, double a)
{
  Geometry *g = f->geometry;
  Grid<double> &x = G.r_component, &y = G.phi_component, &z = G.z_component;
  unsigned i0 = g->walls[0] ? z.o_s + 1 : 0, i1 = g->walls[2] ? z.o_s + g->cell_amount[0] - 1 : z.x_real_size;
  unsigned k0 = g->walls[1] ? z.o_s + 1 : 0, k1 = g->walls[3] ? z.o_s + g->cell_amount[1] - 1 : z.y_real_size;
  for (unsigned i = 0; i < x.x_real_size; ++i)
    for (unsigned k = 0; k < x.y_real_size; ++k)
      x.grid[i][k] = 0;
  for (unsigned i = 0; i < y.x_real_size; ++i)
    for (unsigned k = 0; k < y.y_real_size; ++k)
      y.grid[i][k] = 0;
  for (unsigned i = 0; i < z.x_real_size; ++i)
    for (unsigned k = 0; k < z.y_real_size; ++k)
      z.grid[i][k] = i >= i0 && i < i1 && k >= k0 && k < k1 ? a : 0;
}
extern "C" void spec_external_e(ExternalFields *f) { homogenous(f, f->field_e, f->e_field_params._M_impl._M_start[0]); }
extern "C" void spec_external_h(ExternalFields *f) { homogenous(f, f->field_h, f->m_field_params._M_impl._M_start[0]); }

static inline bool known(unsigned short x) { return x == 0 || x == 1 || x == 2 || x == 3 || x == 4 || x == 5; }
enum { NONE, CONST_R, CONST_PHI, CONST_Z, GRAD_R, GRAD_Z };
extern "C" void spec_external(ExternalFields *f)
{
  va_assume(known(f->e_profile_enum));
  va_assume(known(f->m_profile_enum));
  if (f->e_profile_enum == CONST_Z) f->set_el_field_homogenous_z();
  if (f->m_profile_enum == CONST_Z) f->set_magn_field_homogenous_z();
}

static inline void shape(Grid<double> &g, Geometry *q)
{
  g.o_s = 2;
  g.x_size = q->cell_amount[0];
  g.y_size = q->cell_amount[1];
  g.x_real_size = q->cell_amount[0] + 4;
  g.y_real_size = q->cell_amount[1] + 4;
}
// the constructor establishes: index ranges without the wall rows, grids of the sub-domain's size with a halo of two cells
extern "C" void pre_external(ExternalFields *s)
{
  s->r_begin = s->geometry->walls[0] ? 1 : 0;
  s->z_begin = s->geometry->walls[1] ? 1 : 0;
  s->r_end = s->geometry->cell_amount[0] - (s->geometry->walls[2] ? 1 : 0);
  s->z_end = s->geometry->cell_amount[1] - (s->geometry->walls[3] ? 1 : 0);
  shape(s->field_e.r_component, s->geometry); shape(s->field_e.phi_component, s->geometry); shape(s->field_e.z_component, s->geometry);
  shape(s->field_h.r_component, s->geometry); shape(s->field_h.phi_component, s->geometry); shape(s->field_h.z_component, s->geometry);
}
#define WALLCASE(W) extern "C" void pre_ext_walls_##W(ExternalFields *s) { s->geometry->walls._M_impl._M_start._M_p[0] = W; \
  va_assume(s->geometry->cell_amount[0] > 1); va_assume(s->geometry->cell_amount[1] > 1); }
WALLCASE(0) WALLCASE(1) WALLCASE(2) WALLCASE(3) WALLCASE(4) WALLCASE(5) WALLCASE(6) WALLCASE(7)
WALLCASE(8) WALLCASE(9) WALLCASE(10) WALLCASE(11) WALLCASE(12) WALLCASE(13) WALLCASE(14) WALLCASE(15)

#include <new>
void base_class(MaxwellSolver *, Geometry *, TimeSim *) asm("_ZN13MaxwellSolverC2EP8GeometryP7TimeSim");
extern char external_class[] asm("_ZTV14ExternalFields");
static inline int number(std::string *s)
{
  return s->compare("none") == 0 ? NONE : s->compare("const_r") == 0 ? CONST_R : s->compare("const_phi") == 0 ? CONST_PHI : s->compare("const_z") == 0 ? CONST_Z
    : s->compare("linerad_r") == 0 ? GRAD_R : s->compare("linerad_z") == 0 ? GRAD_Z : -1;
}
// the named profile is chosen, an unknown name ends the program
extern "C" void spec_external_ctor(ExternalFields *f, Geometry *g, TimeSim *t, std::string *e, std::string *h, std::vector<double> *pe, std::vector<double> *ph)
{
  base_class(f, g, t);
  new (&f->field_h_at_et) Grid3D<double>;
  new (&f->e_field_params) std::vector<double>;
  new (&f->m_field_params) std::vector<double>;
  *(void **)f = (void *)(external_class + 16);
  int a = number(e), b = number(h);
  va_assume(a >= 0);
  va_assume(b >= 0);
  f->e_profile_enum = a;
  f->m_profile_enum = b;
  f->e_field_params = *pe;
  f->m_field_params = *ph;
  f->r_begin = g->walls[0] ? 1 : 0;
  f->z_begin = g->walls[1] ? 1 : 0;
  f->r_end = g->cell_amount[0] - (g->walls[2] ? 1 : 0);
  f->z_end = g->cell_amount[1] - (g->walls[3] ? 1 : 0);
#ifdef ENABLE_PML
  f->set_pml();
#endif
}
