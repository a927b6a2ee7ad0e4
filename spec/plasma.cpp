// Reference initial plasma: placement, weights and velocities of the macroparticles
#include "common.hpp"
#include "math/rand.hpp"
#include "math/maxwellJuettner.hpp"

struct Box { double dr, dz, r0, z0, r, z; };
// the rectangle of cells a plasma fills: from the middle of the first to the middle of the cell after the last one; particles stay half a cell off the walls
static inline Box box(Geometry *g, unsigned b, unsigned t, unsigned l, unsigned r)
{
  Box x;
  x.dr = g->cell_size[0]; x.dz = g->cell_size[1];
  x.r0 = b * x.dr + x.dr / 2; x.z0 = l * x.dz + x.dz / 2;
  x.r = (t - b) * x.dr; x.z = (r - l) * x.dz;
  if (g->walls[2]) x.r -= x.dr;
  if (g->walls[3]) x.z -= x.dz;
  return x;
}
static inline double nonzero(double x) { return x == 0 ? constant::MNZL : x; }

static inline void random_place(SpecieP *s, unsigned b, unsigned t, unsigned l, unsigned r, bool flat)
{
  Box x = box(s->geometry, b, t, l, r);
  double d0 = s->density[0], d1 = s->density[1];
  for (unsigned i = 0; i < s->macro_amount; ++i)
  {
    Particle *p = new Particle();
    p->specie_id = s->id;
    double u = nonzero(flat ? math::random::random_reverse(i, 13) : math::random::uniform1());
    double v = nonzero(flat ? math::random::random_reverse(s->macro_amount - 1 - i, 11) : math::random::uniform1());
    p->pos_r = x.r0 + x.r * u;
    // inverse of the cumulative distribution of a linear density
    if (d0 == d1)
      p->pos_z = x.z0 + x.z * v;
    else
      p->pos_z = x.z0 + x.z * (std::sqrt(d0 * d0 + v * (d1 * d1 - d0 * d0)) - d0) / (d1 - d0);
    s->particles.push_back(p);
  }
}
extern "C" void spec_place_flat(SpecieP *s, unsigned b, unsigned t, unsigned l, unsigned r) { random_place(s, b, t, l, r, true); }
extern "C" void spec_place_random(SpecieP *s, unsigned b, unsigned t, unsigned l, unsigned r) { random_place(s, b, t, l, r, false); }

extern "C" void spec_place_centered(SpecieP *s, unsigned b, unsigned t, unsigned l, unsigned r)
{
  Box x = box(s->geometry, b, t, l, r);
  double nr = t - b, nz = r - l;
  if (s->geometry->walls[2]) nr -= 1;
  if (s->geometry->walls[3]) nz -= 1;
  unsigned n = std::floor(s->macro_amount / (nr * nz));
  for (unsigned i = 0; i < nr; ++i)
    for (unsigned j = 0; j < nz; ++j)
      for (unsigned c = 0; c < n; ++c)
      {
        Particle *p = new Particle();
        p->specie_id = s->id;
        p->pos_r = x.r0 + i * x.dr + constant::MNZL;
        p->pos_z = x.z0 + j * x.dz + constant::MNZL;
        s->particles.push_back(p);
      }
}

// weights: proportional to the volume of the ring at the particle, all together the mean density times the volume of the filled cells
extern "C" void spec_weight(SpecieP *s, unsigned b, unsigned t, unsigned l, unsigned r)
{
  Geometry *g = s->geometry;
  Box x = box(g, b, t, l, r);
  double top = g->cell_dims[2], bottom = g->cell_dims[0], all = 0;
  if (g->walls[2]) top -= 1;
  double total = (s->density[0] + s->density[1]) / 2 * S_PI * (top * top - bottom * bottom) * x.dr * x.dr * x.z;
  Particle **begin = s->particles._M_impl._M_start, **end = s->particles._M_impl._M_finish;
  for (Particle **p = begin; p != end; ++p)
    all += (*p)->pos_r > x.dr / 2 ? 2 * S_PI * (*p)->pos_r * x.dr * x.dz : S_PI * (*p)->pos_r * (*p)->pos_r * x.dz;
  for (Particle **p = begin; p != end; ++p)
  {
    double own = (*p)->pos_r > x.dr / 2 ? 2 * S_PI * (*p)->pos_r * x.dr * x.dz : S_PI * (*p)->pos_r * (*p)->pos_r * x.dz;
    (*p)->weight = total * own / all;
  }
}

// speed of a kinetic energy in eV: classical, or from the momentum E/c beyond the limit of the classical formula
static inline double speed(double energy, double mass, double limit_energy)
{
  double u = limit_energy * S_E / (mass * S_C);
  if (u > 5e7)
  {
    return u / std::sqrt(1 + u * u / (S_C * S_C));
  }
  return std::sqrt(2 * energy * S_E / mass);
}
static inline void components(Particle *p, double v)
{
  p->vel_r = v * math::random::uniform2();
  p->vel_phi = v * math::random::uniform2();
  p->vel_z = v * math::random::uniform2();
}
extern "C" void spec_velocity_thermal(SpecieP *s)
{
  std::vector<double> e = math::maxwell_juettner::maxwellJuettner(s->macro_amount, s->temperature);
  Particle **begin = s->particles._M_impl._M_start, **end = s->particles._M_impl._M_finish;
  unsigned n = 0;
  for (Particle **p = begin; p != end; ++p, ++n)
    components(*p, speed(e[n], s->mass, e[n]) * 0.7071067811865475);
}
extern "C" void spec_velocity_rectangular(SpecieP *s)
{
  Particle **begin = s->particles._M_impl._M_start, **end = s->particles._M_impl._M_finish;
  for (Particle **p = begin; p != end; ++p)
    components(*p, speed(s->temperature, s->mass, 2 * s->temperature));
}
extern "C" void spec_velocity_eigen(SpecieP *s)
{
  double v = speed(s->temperature, s->mass, 2 * s->temperature);
  Particle **begin = s->particles._M_impl._M_start, **end = s->particles._M_impl._M_finish;
  for (Particle **p = begin; p != end; ++p)
    (*p)->vel_r = (*p)->vel_phi = (*p)->vel_z = v;
}

extern "C" void spec_place_regular(SpecieP *s, unsigned b, unsigned t, unsigned l, unsigned r)
{
  Box x = box(s->geometry, b, t, l, r);
  double w = (t - b) * x.dr, h = (r - l) * x.dz;
  double rows = std::sqrt(s->macro_amount * w / h), columns = std::sqrt(s->macro_amount * h / w);
  double pr = w / rows, pz = h / columns;
  for (double i = constant::MNZL; i <= x.r - pr; i += pr)
    for (double j = constant::MNZL; j <= x.z - pz; j += pz)
    {
      Particle *p = new Particle();
      p->specie_id = s->id;
      p->pos_r = x.r0 + i;
      p->pos_z = x.z0 + j;
      s->particles.push_back(p);
    }
}

extern "C" void spec_fill(SpecieP *s)
{
  Geometry *g = s->geometry;
  unsigned b = g->cell_dims[0], t = g->cell_dims[2], l = g->cell_dims[1], r = g->cell_dims[3];
#if defined(SWITCH_PLASMA_SPATIAL_CENTERED)
  s->rectangular_centered_placement(b, t, l, r);
#elif defined(SWITCH_PLASMA_SPATIAL_REGULAR)
  s->rectangular_regular_placement(b, t, l, r);
#else
  s->rectangular_random_placement(b, t, l, r);
#endif
  s->set_weight(b, t, l, r);
}
extern "C" void spec_velocity(SpecieP *s)
{
#if defined(SWITCH_PLASMA_VELOCITY_THERMAL)
  s->thermal_velocity_distribution();
#elif defined(SWITCH_PLASMA_VELOCITY_RECTANGULAR)
  s->rectangular_velocity_distribution();
#else
  s->eigen_velocity_distribution();
#endif
}

#include <new>
extern char specie_class[] asm("_ZTV7SpecieP");
// an untouched species of the given kind; with a regular or centred placement its macroparticles fill the cells evenly
extern "C" void spec_specie(SpecieP *s, unsigned id, std::string *name, double charge, double mass, unsigned macro, double left, double right, double temperature, Geometry *g, TimeSim *t)
{
  new (&s->name) std::string();
  new (&s->particles) std::vector<Particle *>;
  new (&s->density_map) Grid<double>(); new (&s->temperature_map) Grid<double>(); new (&s->energy_map) Grid<double>();
  new (&s->momentum_abs_map_w) Grid<double>(); new (&s->momentum_map_w) Grid3D<double>(); new (&s->momentum_map) Grid3D<double>(); new (&s->count) Grid<double>();
  *(void **)s = (void *)(specie_class + 16);
  s->id = id;
  s->name = *name;
  s->charge = charge * S_E;
  s->mass = mass * S_ME;
  s->density[0] = left;
  s->density[1] = right;
  s->temperature = temperature;
  s->geometry = g;
  s->time = t;
#if defined(SWITCH_PLASMA_SPATIAL_CENTERED) || defined(SWITCH_PLASMA_SPATIAL_REGULAR)
  s->macro_amount = algo::common::nearest_divide(macro, g->size[0] / g->cell_size[0] * (g->size[1] / g->cell_size[1]));
#else
  s->macro_amount = macro;
#endif
  size_t n = g->cell_amount[0], m = g->cell_amount[1];
  s->density_map = Grid<double>(n, m, 2);
  s->temperature_map = Grid<double>(n, m, 2);
  s->energy_map = Grid<double>(n, m, 2);
  s->momentum_abs_map_w = Grid<double>(n, m, 2);
  s->momentum_map_w = Grid3D<double>(n, m, 2);
  s->momentum_map = Grid3D<double>(n, m, 2);
}
