// Reference semantics of the particle motion and of the moment maps of one specie.
#include "common.hpp"
#include "beamP.hpp"
#include "phys/rel.hpp"

template <class F> static inline void each(SpecieP *s, F f)
{
  size_t np = s->particles.size();
  for (size_t a = 0; a < np; a++) f(*s->particles[a]);
}

// straight-line motion over one time step in the local Cartesian frame of the particle
extern "C" void spec_move(SpecieP *s)
{
  each(s, [&](Particle &p) {
    double h = s->time->step;
    p.pos_r += h * p.vel_r; p.pos_phi += h * p.vel_phi; p.pos_z += h * p.vel_z;
  });
}
// folding the end point back to the r-z half plane: radius is the distance to the axis, the turn angle is remembered as its sine
extern "C" void spec_fold_position(SpecieP *s)
{
  each(s, [&](Particle &p) {
    double d = sqrt(p.pos_r * p.pos_r + p.pos_phi * p.pos_phi);
    p.sin = p.pos_phi / d; p.pos_r = d; p.pos_phi = 0;
  });
}
// velocity components in the basis turned by the same angle: v.e_r and v.e_phi at the new azimuth
extern "C" void spec_fold_velocity(SpecieP *s)
{
  each(s, [&](Particle &p) {
    double sn = p.sin, cs = sqrt(1 - sn * sn), a = p.vel_r, b = p.vel_phi;
    p.vel_r = a * cs + b * sn; p.vel_phi = b * cs - a * sn;
  });
}
extern "C" void spec_dump_old(SpecieP *s)
{
  each(s, [&](Particle &p) { p.pos_old_r = p.pos_r; p.pos_old_phi = p.pos_phi; p.pos_old_z = p.pos_z; });
}
extern "C" void spec_bind_cells(SpecieP *s)
{
  double *h = s->geometry->cell_size._M_impl._M_start;
  each(s, [&](Particle &p) { p.cell_r = (int)floor(p.pos_r / h[0]); p.cell_z = (int)floor(p.pos_z / h[1]); });
}
// mirror reflection at half a cell in front of every wall the domain owns, repeated until the particle is inside
extern "C" void spec_reflect(SpecieP *s)
{
  Geometry *g = s->geometry;
  double *h = g->cell_size._M_impl._M_start, *L = g->size._M_impl._M_start;
  double a = h[0] / 2, b = h[1] / 2, c = L[0] - h[0] / 2, d = L[1] - h[1] / 2;
  bool w0 = g->walls[0], w1 = g->walls[1], w2 = g->walls[2], w3 = g->walls[3];
  double or_ = g->cell_dims[0] * h[0], oz = g->cell_dims[1] * h[1];
  each(s, [&](Particle &p) {
    double r = p.pos_r - or_, z = p.pos_z - oz;
    for (;;)
    {
      if (!(std::isnormal(r) && std::isnormal(z))) break;
      if (!((w2 && r > c) || (w3 && z > d) || (w0 && r < a) || (w1 && z < b))) break;
      if (w2 && r > c) { r = 2 * c - r; p.vel_r = -p.vel_r; }
      if (w3 && z > d) { z = 2 * d - z; p.vel_z = -p.vel_z; }
      if (w0 && r < a) { r = h[0] - r; p.vel_r = -p.vel_r; if (r < a) r = a; }
      if (w1 && z < b) { z = h[1] - z; p.vel_z = -p.vel_z; if (z < b) z = b; }
    }
    p.pos_r = r + or_; p.pos_z = z + oz;
  });
}
// beam macroparticles only bounce from the axis
extern "C" void spec_beam_reflect(BeamP *s)
{
  Geometry *g = s->geometry;
  double *h = g->cell_size._M_impl._M_start;
  bool w0 = g->walls[0];
  double o = g->cell_dims[0] * h[0];
  each(s, [&](Particle &p) {
    double r = p.pos_r - o;
    if (w0 && r < h[0] / 2) { p.pos_r = h[0] - r + o; p.vel_r = -p.vel_r; }
  });
}

// ---------------------------------------------------------------- moments
static inline double ring(double dz, double a, double b) { return S_PI * dz * (b * b - a * a); }
static inline double cellvol(double i, double dr, double dz) { return S_PI * dz * dr * dr * (2 * i + 1); }

// a macroparticle is a ring of one cell height and one cell width around its position;
// every one of the four nodes it overlaps gets the overlapped part of the volume
static inline void deposit(Geometry *g, Grid<double> &m, double r, double z, double w)
{
  double dr = g->cell_size._M_impl._M_start[0], dz = g->cell_size._M_impl._M_start[1];
  unsigned i = floor(r / dr), k = floor(z / dz);
  int i0 = g->cell_dims._M_impl._M_start[0], k0 = g->cell_dims._M_impl._M_start[1];
  unsigned ii = i - i0, kk = k - k0;
  double upper = z + dz / 2 - (k + 0.5) * dz, lower = dz - upper;
  double inner, outer, vol, vi = cellvol(i, dr, dz), vo = cellvol(i + 0.5, dr, dz);
  double mid = (i + 0.5) * dr;
  if (r <= dr / 2)
  {
    inner = S_PI * (dr * dr / 2 - r * dr + r * r);
    outer = ring(1, dr / 2, r + dr / 2);
    vol = S_PI * dz * (2 * r * r + dr * dr / 2);
  }
  else
  {
    inner = ring(1, r - dr / 2, mid);
    outer = ring(1, mid, r + dr / 2);
    vol = 2 * S_PI * r * dr * dz;
    if (r <= dr) vi = S_PI * dz * dr * dr;
  }
  double q = w / vol;
  EL(m, ii, kk) += q * inner * lower / vi;
  EL(m, ii + 1, kk) += q * outer * lower / vo;
  EL(m, ii, kk + 1) += q * inner * upper / vi;
  EL(m, ii + 1, kk + 1) += q * outer * upper / vo;
}
// sets every element, interior and halo
static inline void clear(Grid<double> &m)
{
  unsigned nx = m.x_real_size, ny = m.y_real_size;
  for (unsigned i = 0; i < nx; i++) for (unsigned j = 0; j < ny; j++) m.grid[i][j] = 0;
}
static inline void density(SpecieP *s) { clear(s->density_map); each(s, [&](Particle &p) { deposit(s->geometry, s->density_map, p.pos_r, p.pos_z, p.weight); }); }
static inline double gam(double v2) { double g = 1 / sqrt(1 - v2 / (S_C * S_C)); return std::isinf(g) ? 1e100 : g; }
static inline void momentum(SpecieP *s)
{
  clear(s->momentum_map_w.r_component); clear(s->momentum_map_w.phi_component); clear(s->momentum_map_w.z_component);
  each(s, [&](Particle &p) {
    double v2 = p.vel_r * p.vel_r + p.vel_phi * p.vel_phi + p.vel_z * p.vel_z, m = s->mass * p.weight;
    if (v2 > REL_LIMIT * REL_LIMIT) m *= gam(v2);
    deposit(s->geometry, s->momentum_map_w.r_component, p.pos_r, p.pos_z, m * p.vel_r);
    deposit(s->geometry, s->momentum_map_w.phi_component, p.pos_r, p.pos_z, m * p.vel_phi);
    deposit(s->geometry, s->momentum_map_w.z_component, p.pos_r, p.pos_z, m * p.vel_z);
  });
}
static inline void momentum_abs(SpecieP *s)
{
  clear(s->momentum_abs_map_w);
  each(s, [&](Particle &p) {
    double v2 = p.vel_r * p.vel_r + p.vel_phi * p.vel_phi + p.vel_z * p.vel_z, m = s->mass * p.weight * sqrt(v2);
    if (v2 > REL_LIMIT * REL_LIMIT) m *= gam(v2);
    deposit(s->geometry, s->momentum_abs_map_w, p.pos_r, p.pos_z, m);
  });
}
// kinetic energy (eV) of a particle of mass m with squared momentum p2
static inline double ekin(double m, double p2)
{
  double mc2 = m * S_C * S_C;
  double e = p2 > m * m * REL_LIMIT * REL_LIMIT ? sqrt(p2 * S_C * S_C + mc2 * mc2) - mc2 : p2 / (2 * m);
  return e / S_E;
}
static inline void mean(SpecieP *s, Grid<double> &to, Grid<double> &sum)
{
  clear(to);
  for (unsigned i = 0; i < s->geometry->cell_amount[0]; i++)
    for (unsigned j = 0; j < s->geometry->cell_amount[1]; j++)
      if (EL(s->density_map, i, j) != 0) EL(to, i, j) = EL(sum, i, j) / EL(s->density_map, i, j);
}
extern "C" void spec_calc_density(SpecieP *s) { density(s); }
extern "C" void spec_calc_momentum_w(SpecieP *s) { momentum(s); }
extern "C" void spec_calc_momentum_abs_w(SpecieP *s) { momentum_abs(s); }
extern "C" void spec_calc_momentum(SpecieP *s)
{
  density(s); momentum(s);
  mean(s, s->momentum_map.r_component, s->momentum_map_w.r_component);
  mean(s, s->momentum_map.phi_component, s->momentum_map_w.phi_component);
  mean(s, s->momentum_map.z_component, s->momentum_map_w.z_component);
}
extern "C" void spec_calc_energy(SpecieP *s)
{
  density(s); momentum_abs(s); clear(s->energy_map);
  for (unsigned i = 0; i < s->geometry->cell_amount[0]; i++)
    for (unsigned j = 0; j < s->geometry->cell_amount[1]; j++)
    {
      double n = EL(s->density_map, i, j), p = EL(s->momentum_abs_map_w, i, j);
      if (n != 0) EL(s->energy_map, i, j) = ekin(s->mass, p * p / (n * n));
    }
}
// temperature: kinetic energy of the momentum spread (mean |p|)^2 - |mean p|^2
extern "C" void spec_calc_temperature(SpecieP *s)
{
  density(s); momentum(s); momentum_abs(s); clear(s->temperature_map);
  for (unsigned i = 0; i < s->geometry->cell_amount[0]; i++)
    for (unsigned j = 0; j < s->geometry->cell_amount[1]; j++)
    {
      double n = EL(s->density_map, i, j), p = EL(s->momentum_abs_map_w, i, j);
      double a = EL(s->momentum_map_w.r_component, i, j), b = EL(s->momentum_map_w.phi_component, i, j), c = EL(s->momentum_map_w.z_component, i, j);
      if (n != 0) EL(s->temperature_map, i, j) = ekin(s->mass, (p * p - a * a - b * b - c * c) / (n * n));
    }
}

// entry states (class invariants): grids have a halo of o_s elements on every side and cover the cells of the domain
static inline void inv(Geometry *g, Grid<double> &m, unsigned halo)
{
  m.o_s = halo;
  m.x_size = g->cell_amount[0]; m.y_size = g->cell_amount[1];
  va_assume((int)m.o_s >= 0); va_assume((int)m.x_size >= 0); va_assume((int)m.y_size >= 0);
  m.x_real_size = m.x_size + 2 * m.o_s; m.y_real_size = m.y_size + 2 * m.o_s;
}
extern "C" void pre_maps(SpecieP *s)
{
  va_assume(s->geometry->cell_size[0] > 0); va_assume(s->geometry->cell_size[1] > 0);
  inv(s->geometry, s->density_map, s->density_map.o_s); inv(s->geometry, s->temperature_map, s->density_map.o_s); inv(s->geometry, s->energy_map, s->density_map.o_s); inv(s->geometry, s->momentum_abs_map_w, s->density_map.o_s);
  inv(s->geometry, s->momentum_map.r_component, s->density_map.o_s); inv(s->geometry, s->momentum_map.phi_component, s->density_map.o_s); inv(s->geometry, s->momentum_map.z_component, s->density_map.o_s);
  inv(s->geometry, s->momentum_map_w.r_component, s->density_map.o_s); inv(s->geometry, s->momentum_map_w.phi_component, s->density_map.o_s); inv(s->geometry, s->momentum_map_w.z_component, s->density_map.o_s);
}
