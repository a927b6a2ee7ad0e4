// Reference semantics of the field solver (Yee scheme on the staggered r-z mesh).
#include "common.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"

#define D_R (s->geometry->cell_size[0])
#define D_Z (s->geometry->cell_size[1])
#define DT (s->time->step)
#define E_R(i, k) EL(s->field_e.r_component, i, k)
#define E_P(i, k) EL(s->field_e.phi_component, i, k)
#define E_Z(i, k) EL(s->field_e.z_component, i, k)
#define H_R(i, k) EL(s->field_h.r_component, i, k)
#define H_P(i, k) EL(s->field_h.phi_component, i, k)
#define H_Z(i, k) EL(s->field_h.z_component, i, k)
#define B_R(i, k) EL(s->field_h_at_et.r_component, i, k)
#define B_P(i, k) EL(s->field_h_at_et.phi_component, i, k)
#define B_Z(i, k) EL(s->field_h_at_et.z_component, i, k)

// halo cells of one component
static inline void halo0(Grid<double> &g)
{
  for (unsigned i = 0; i < g.x_real_size; i++)
    for (unsigned j = 0; j < g.y_real_size; j++)
      if (i < g.o_s || j < g.o_s || i >= g.x_real_size - g.o_s || j >= g.y_real_size - g.o_s)
        g.grid[i][j] = 0;
}

extern "C" void spec_halo_zero(Grid<double> *g, double value)
{
  for (unsigned i = 0; i < g->x_real_size; i++)
    for (unsigned j = 0; j < g->y_real_size; j++)
      if (i < g->o_s || j < g->o_s || i >= g->x_real_size - g->o_s || j >= g->y_real_size - g->o_s)
        g->grid[i][j] = value;
}

// H at t + dt/2 advances by dt * curl(E) / mu0 from H at t - dt/2; the time-centred H is the mean of both
extern "C" void spec_calc_field_h(MaxwellSolverYee *s)
{
  s->field_h.r_component.overlay_set(0); s->field_h.phi_component.overlay_set(0); s->field_h.z_component.overlay_set(0);
  s->field_h_at_et.r_component.overlay_set(0); s->field_h_at_et.phi_component.overlay_set(0); s->field_h_at_et.z_component.overlay_set(0);
  for (int i = 0; i < (int)s->geometry->cell_amount[0]; i++)
    for (int k = 0; k < (int)s->geometry->cell_amount[1]; k++)
    {
      double r_mid = (i + 0.5 + s->geometry->cell_dims[0]) * D_R;
      double a_r = DT / S_MU0 * (E_P(i, k + 1) - E_P(i, k)) / D_Z;
      double a_p = DT / S_MU0 * ((E_Z(i + 1, k) - E_Z(i, k)) / D_R - (E_R(i, k + 1) - E_R(i, k)) / D_Z);
      double a_z = -DT / S_MU0 * ((E_P(i + 1, k) - E_P(i, k)) / D_R + 0.5 * (E_P(i + 1, k) + E_P(i, k)) / r_mid);
      H_R(i, k) = B_R(i, k) + a_r / 2; B_R(i, k) += a_r;
      H_P(i, k) = B_P(i, k) + a_p / 2; B_P(i, k) += a_p;
      H_Z(i, k) = B_Z(i, k) + a_z / 2; B_Z(i, k) += a_z;
    }
}

// E advances by (curl(H) - J) dt / eps with the conductivity sigma treated semi-implicitly
extern "C" void spec_calc_field_e(MaxwellSolverYee *s)
{
  s->field_e.r_component.overlay_set(0); s->field_e.phi_component.overlay_set(0); s->field_e.z_component.overlay_set(0);
  Grid3D<double> &j = s->current->current;
  for (unsigned i = 0; i < s->r_end; i++)
    for (unsigned k = 0; k < s->z_end; k++)
    {
#ifdef ENABLE_PML
      double sg = EL(s->sigma, i, k);
#else
      double sg = 0;
#endif
      double ep = EL(s->epsilon, i, k);
      double den = 2 * ep + sg * DT, ke = (2 * ep - sg * DT) / den, kh = 2 * DT / den;
      double r = (i + s->geometry->cell_dims[0]) * D_R;
      bool inner = i >= s->r_begin && k >= s->z_begin;
      bool axis = i == 0 && s->geometry->walls[0] && k >= s->z_begin;
      bool left = k == 0 && s->geometry->walls[1] && i >= s->r_begin;
      double jr = EL(j.r_component, i, k), jp = EL(j.phi_component, i, k), jz = EL(j.z_component, i, k);
      double ampere_r = -jr - (B_P(i, k) - B_P(i, k - 1)) / D_Z;
      double ampere_p = -jp + (B_R(i, k) - B_R(i, k - 1)) / D_Z - (B_Z(i, k) - B_Z(i - 1, k)) / D_R;
      double ampere_z = -jz + (B_P(i, k) - B_P(i - 1, k)) / D_R + 0.5 * (B_P(i, k) + B_P(i - 1, k)) / r;
      double ampere_z0 = -jz + 4 * B_P(i, k) / D_R;
      if (inner) { E_R(i, k) = ke * E_R(i, k) + kh * ampere_r; E_P(i, k) = ke * E_P(i, k) + kh * ampere_p; E_Z(i, k) = ke * E_Z(i, k) + kh * ampere_z; }
      else if (axis) { E_R(i, k) = ke * E_R(i, k) + kh * ampere_r; E_Z(i, k) = ke * E_Z(i, k) + kh * ampere_z0; }
      else if (left) E_Z(i, k) = ke * E_Z(i, k) + kh * ampere_z;
    }
}

// index ranges of the regular update: the wall rows are excluded
extern "C" void spec_yee_bounds(MaxwellSolverYee *s)
{
  s->r_begin = s->geometry->walls[0] ? 1 : 0;
  s->z_begin = s->geometry->walls[1] ? 1 : 0;
  s->r_end = s->geometry->cell_amount[0] - (s->geometry->walls[2] ? 1 : 0);
  s->z_end = s->geometry->cell_amount[1] - (s->geometry->walls[3] ? 1 : 0);
}

// case split over the wall flags of a sub-domain (bit 0: r=0, 1: z=0, 2: r=r, 3: z=z)
#define WALLCASE(W) extern "C" void pre_walls_##W(MaxwellSolverYee *s) { s->geometry->walls._M_impl._M_start._M_p[0] = W; \
  va_assume(s->geometry->cell_amount[0] > 1); va_assume(s->geometry->cell_amount[1] > 1); }
WALLCASE(0) WALLCASE(1) WALLCASE(2) WALLCASE(3) WALLCASE(4) WALLCASE(5) WALLCASE(6) WALLCASE(7)
WALLCASE(8) WALLCASE(9) WALLCASE(10) WALLCASE(11) WALLCASE(12) WALLCASE(13) WALLCASE(14) WALLCASE(15)

// conducting outer wall: the tangential E_phi on the wall row is zero (never advanced, see spec_calc_field_e; zero initially)
extern "C" void inv_outer_conductor(MaxwellSolverYee *s)
{
  Grid<double> &g = s->field_e.phi_component;
  if (s->geometry->walls[2])
    for (unsigned k = 0; k <= s->geometry->cell_amount[1]; k++)
      EL(g, s->geometry->cell_amount[0] - 1, k) = 0;
}

// ---- field gather -------------------------------------------------------------------------------------------------
// The particle is a ring of one cell size; each of the four surrounding nodes (staggered by sr, sz cells) contributes its
// field times the volume of the ring that lies in the node's cell over the (regularised) volume of that cell.
static inline double ring(Grid<double> &g, Geometry *geo, double r, double z, double sr, double sz)
{
  double dr = geo->cell_size[0], dz = geo->cell_size[1];
  int i = (int)floor((r - sr * dr) / dr), k = (int)floor((z - sz * dz) / dz);
  double border = (i + sr + 0.5) * dr;
  double lo = border * border - (r - dr / 2) * (r - dr / 2), hi = (r + dr / 2) * (r + dr / 2) - border * border;
  double zl = (k + sz + 1) * dz - z, zh = z - (k + sz) * dz;
  double vl = dz * dr * dr * (2 * (i + sr) + 1), vh = dz * dr * dr * (2 * (i + sr) + 3);
  int a = i - geo->cell_dims[0], b = k - geo->cell_dims[1];
  return EL(g, a, b) * lo * zl / vl + EL(g, a + 1, b) * hi * zl / vh + EL(g, a, b + 1) * lo * zh / vl + EL(g, a + 1, b + 1) * hi * zh / vh;
}

extern "C" void spec_get_field_e(std::vector<double> *out, MaxwellSolver *s, double r, double z)
{
  double a = ring(s->field_e.r_component, s->geometry, r, z, 0.5, 0);
  double b = ring(s->field_e.phi_component, s->geometry, r, z, 0, 0);
  double c = ring(s->field_e.z_component, s->geometry, r, z, 0, 0.5);
  new (out) std::vector<double>{a, b, c};
}

extern "C" void spec_get_field_h(std::vector<double> *out, MaxwellSolver *s, double r, double z)
{
  double a = ring(s->field_h.r_component, s->geometry, r, z, 0, 0.5);
  double b = ring(s->field_h.phi_component, s->geometry, r, z, 0.5, 0.5);
  double c = ring(s->field_h.z_component, s->geometry, r, z, 0.5, 0);
  new (out) std::vector<double>{a, b, c};
}

// ---- absorbing layer ----------------------------------------------------------------------------------------------
extern "C" void spec_set_pml(MaxwellSolverYee *s)
{
  Geometry *g = s->geometry;
  double dr = g->cell_size[0], dz = g->cell_size[1], s0 = g->pml_sigma[0], ds = g->pml_sigma[1] - g->pml_sigma[0];
  double lr = dr * g->pml_size[2], l0 = dz * g->pml_size[1], lz = dz * g->pml_size[3];
  for (int i = 0; i < (int)g->cell_amount[0]; i++)
    for (int k = 0; k < (int)g->cell_amount[1]; k++)
    {
      double r = (g->cell_dims[0] + i) * dr, z = (g->cell_dims[1] + k) * dz, add = 0;
      if (g->pml_size[2] != 0 && (double)(g->global_cell_amount[0] - g->cell_dims[0] - i) * dr < lr) { double d = lr - (g->global_size[0] - r - dr); add += s0 + ds * d * d / lr / lr; }
      if (g->pml_size[1] != 0 && z < l0) { double d = l0 - z; add += s0 + ds * d * d / l0 / l0; }
      if (g->pml_size[3] != 0 && (double)(g->global_cell_amount[1] - g->cell_dims[1] - k) * dz < lz) { double d = lz - (g->global_size[1] - z - dz); add += s0 + ds * d * d / lz / lz; }
      EL(s->sigma, i, k) += add;
    }
}
extern "C" void pre_posgeo(MaxwellSolverYee *s)
{
  va_assume(s->geometry->cell_amount[0] > 0); va_assume(s->geometry->cell_amount[1] > 0);
}
