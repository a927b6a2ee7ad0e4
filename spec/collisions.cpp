// Reference binary collisions: cells, pairs, the three scattering models
#include "common.hpp"
#include "collisions/collisionsTA77S.hpp"
#include "collisions/collisionsSK98.hpp"
#include "collisions/collisionsP12.hpp"
#include "phys/plasma.hpp"
#include "phys/rel.hpp"
#include "math/rand.hpp"
#include "algo/common.hpp"

typedef std::vector<Particle *> Cell;

// --- cells ---
extern "C" void spec_clear(Collisions *c)
{
  Grid<double> *sums[] = {&c->energy_tot_ion, &c->energy_tot_el, &c->amount_tot_el, &c->amount_tot_ion};
  Geometry *g = c->geometry;
#define ZERO(m) (m) = 0; (m).overlay_set(0);
  ZERO(c->energy_tot_el) ZERO(c->amount_tot_el) ZERO(c->moment_tot_el)
  ZERO(c->energy_tot_ion) ZERO(c->amount_tot_ion) ZERO(c->moment_tot_ion)
  for (int i = 0; i < (int)g->cell_amount[0]; ++i)
    for (int k = 0; k < (int)g->cell_amount[1]; ++k)
    {
      EL(c->map_ion2cell, i, k).clear();
      EL(c->map_el2cell, i, k).clear();
    }
}

extern "C" void spec_sort_to_cells(Collisions *c)
{
  Geometry *g = c->geometry;
  for (SpecieP *sp : c->species_p)
    for (Particle *p : sp->particles)
    {
      int i = p->cell_r - g->cell_dims[0], k = p->cell_z - g->cell_dims[1];
      if (sp->name == "ions" || sp->name == "Ions")
        EL(c->map_ion2cell, i, k).push_back(p);
      else
        EL(c->map_el2cell, i, k).push_back(p);
    }
}

static double volume(Collisions *c, int i)
{
  double dr = c->geometry->cell_size[0], dz = c->geometry->cell_size[1];
  double r0 = (c->geometry->cell_dims[0] + i) * dr, r1 = r0 + dr;
  return S_PI * dz * (r1 * r1 - r0 * r0);
}
extern "C" double spec_volume(Collisions *c, int i) { return volume(c, i); }
static double density(Collisions *c, Cell &l, int i)
{
  double n = 0;
  for (unsigned k = 0; k < l.size(); ++k)
    n += l[k]->weight;
  return n / volume(c, i);
}
extern "C" double spec_el_density(Collisions *c, int i, int k) { return density(c, EL(c->map_el2cell, i, k), i); }
extern "C" double spec_ion_density(Collisions *c, int i, int k) { return density(c, EL(c->map_ion2cell, i, k), i); }
extern "C" double spec_el_temperature(Collisions *c, int i, int k) { return EL(c->energy_tot_el, i, k) / EL(c->amount_tot_el, i, k) / S_E; }
extern "C" double spec_ion_temperature(Collisions *c, int i, int k) { return EL(c->energy_tot_ion, i, k) / EL(c->amount_tot_ion, i, k) / S_E; }

static void weigh(Cell &l, double mass, Grid3D<double> &m, Grid<double> &n, Grid<double> &e, int i, int k)
{
  for (unsigned q = 0; q < l.size(); ++q)
  {
    Particle *p = l[q];
    double w = p->weight;
    EL(m.r_component, i, k) += mass * w * p->vel_r;
    EL(m.phi_component, i, k) += mass * w * p->vel_phi;
    EL(m.z_component, i, k) += mass * w * p->vel_z;
    EL(n, i, k) += w;
    EL(e, i, k) += mass * w * (p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z) / 2;
  }
}
extern "C" void spec_collect(Collisions *c)
{
  for (int i = 0; i < (int)c->geometry->cell_amount[0]; ++i)
    for (int k = 0; k < (int)c->geometry->cell_amount[1]; ++k)
    {
      weigh(EL(c->map_ion2cell, i, k), c->mass_ion, c->moment_tot_ion, c->amount_tot_ion, c->energy_tot_ion, i, k);
      weigh(EL(c->map_el2cell, i, k), c->mass_el, c->moment_tot_el, c->amount_tot_el, c->energy_tot_el, i, k);
    }
  c->specie_el->calc_temperature();
  c->specie_ion->calc_temperature();
}

#define CLASS(name, C, sym)                                 \
  extern char name##_class[] asm(sym);                      \
  extern "C" void pre_step_##name(C *c) { *(void **)c = (void *)(name##_class + 16); }
CLASS(corrected, CollisionsTA77S, "_ZTV15CollisionsTA77S")
CLASS(sk98, CollisionsSK98, "_ZTV14CollisionsSK98")
CLASS(p12, CollisionsP12, "_ZTV13CollisionsP12")
template <class C> static void step(C *c)
{
  c->Collisions::clear();
  c->Collisions::sort_to_cells();
  c->Collisions::random_sort();
  c->Collisions::collect_weighted_params_tot_grid();
  c->C::collide();
}
extern "C" void spec_step_corrected(CollisionsTA77S *c)
{
  step(c);
  c->correct_velocities();
}
extern "C" void spec_step_sk98(CollisionsSK98 *c) { step(c); }
extern "C" void spec_step_p12(CollisionsP12 *c) { step(c); }

// --- pairs ---
template <class C> struct Side { double m, q, n; Cell *l; };
#define HIT(A, x, B, y) c->collide_single(A.m, B.m, A.q, B.q, *(*A.l)[x], *(*B.l)[y], A.n, B.n, debye)
template <class C> static void alike(C *c, Side<C> a, double debye)
{
  unsigned n = a.l->size(), first = 0;
  if (n % 2 != 0)
  {
    if (n < 3)
      return;
    HIT(a, 0, a, 1);
    HIT(a, 1, a, 2);
    HIT(a, 2, a, 0);
    first = 3;
  }
  if (first == 0)
    for (unsigned k = 0; k < n; k += 2)
      HIT(a, k, a, k + 1);
  else if (n >= 5)
    for (unsigned k = 3; k < n; k += 2)
      HIT(a, k, a, k + 1);
}
template <class C> static void pairs(C *c)
{
  for (int i = 0; i < (int)c->geometry->cell_amount[0]; ++i)
    for (int j = 0; j < (int)c->geometry->cell_amount[1]; ++j)
    {
      double te = c->get_el_temperature(i, j), ti = c->get_ion_temperature(i, j), ne = c->get_el_density(i, j), ni = c->get_ion_density(i, j);
      if (!(isnormal(ti) && isnormal(te) && isnormal(ni) && isnormal(ne)))
        continue;
      double debye = phys::plasma::debye_length(ne, ni, te, ti);
      Side<C> e = {c->mass_el, c->charge_el, ne, &EL(c->map_el2cell, i, j)}, ion = {c->mass_ion, c->charge_ion, ni, &EL(c->map_ion2cell, i, j)};
      unsigned n_e = e.l->size(), n_i = ion.l->size();
      alike(c, ion, debye);
      alike(c, e, debye);
      // every particle of the larger kind meets one of the smaller, evenly
      if (n_i == n_e)
        for (unsigned k = 0; k < n_e; ++k)
          HIT(e, k, ion, k);
      if (n_i > n_e && n_e > 0)
      {
        unsigned q = n_i / n_e, r = n_i % n_e;
        for (unsigned k = 0; k < (q + 1) * r; ++k)
          HIT(e, k / (q + 1), ion, k);
        for (unsigned k = 0; k < q * (n_e - r); ++k)
          HIT(e, k / q + r, ion, k + (q + 1) * r);
      }
      if (n_i < n_e && n_i > 0)
      {
        unsigned q = n_e / n_i, r = n_e % n_i;
        for (unsigned k = 0; k < (q + 1) * r; ++k)
          HIT(e, k, ion, k / (q + 1));
        for (unsigned k = 0; k < q * (n_i - r); ++k)
          HIT(e, k + (q + 1) * r, ion, k / q + r);
      }
    }
}
extern "C" void spec_collide_p12(CollisionsP12 *c)
{
  c->s_mean = c->L_mean = c->debye_mean = 0;
  c->ncol = 0;
  pairs(c);
  c->s_mean /= c->ncol;
  if (c->s_mean > 1.2)
  {
    c->L_mean /= c->ncol;
    c->debye_mean /= c->ncol;
  }
}
extern "C" void spec_collide_ta77s(CollisionsTA77S *c) { pairs(c); }
extern "C" void spec_collide_sk98(CollisionsSK98 *c) { pairs(c); }

// --- Takizuka-Abe with weights ---
extern "C" void spec_single_ta77s(CollisionsTA77S *c, double ma, double mb, double qa, double qb, Particle &pa, Particle &pb, double na, double nb, double debye)
{
  // the lighter weight (first) is deflected fully, the heavier one partially
  bool swap = !(pa.weight / pb.weight <= 1);
  Particle &f = swap ? pb : pa, &s = swap ? pa : pb;
  double m1 = swap ? mb : ma, m2 = swap ? ma : mb, q1 = swap ? qb : qa, q2 = swap ? qa : qb;
  double ratio = swap ? 1 / (pa.weight / pb.weight) : pa.weight / pb.weight;
  double n = na < nb ? na : nb, m = m1 * m2 / (m1 + m2);
  double v[3] = {f.vel_r, f.vel_phi, f.vel_z}, w[3] = {s.vel_r, s.vel_phi, s.vel_z};
  double x = v[0] - w[0], y = v[1] - w[1], z = v[2] - w[2];
  double u = std::sqrt(x * x + y * y + z * z), t = std::sqrt(x * x + y * y);
  if (u == 0)
    return;
  double L = phys::plasma::coulomb_logarithm(m1, m2, debye, u);
  double var = q1 * q1 * q2 * q2 * n * L * c->time->step / (8 * S_PI * S_EPS0 * S_EPS0 * m * m * u * u * u);
  double d = math::random::normal(std::sqrt(var));
  double sn = 2 * d / (1 + d * d), cs = 1 - 2 * d * d / (1 + d * d);
  double sn2 = std::sqrt(ratio * sn * sn + ratio * (1 - ratio) * (1 - cs) * (1 - cs)), cs2 = 1 - ratio * (1 - cs);
  if (sn2 * sn < 0)
    sn2 = -sn2;
  double phi = math::random::uniform_angle();
  double phi2 = phi + 2 * S_PI * (1 - std::sqrt(ratio)) * (1 - math::random::uniform());
  for (int k = 0; k < 2; ++k)
  {
    double S = k ? sn2 : sn, C = k ? cs2 : cs, sp = std::sin(k ? phi2 : phi), cp = std::cos(k ? phi2 : phi), dx, dy, dz;
    // rotation of the relative velocity: its modulus is kept
    if (t == 0)
    {
      dx = u * S * cp;
      dy = u * S * sp;
      dz = -z * (1 - C);
    }
    else
    {
      dx = (x * z * S * cp - y * u * S * sp) / t - x * (1 - C);
      dy = (y * z * S * cp + x * u * S * sp) / t - y * (1 - C);
      dz = -t * S * cp - z * (1 - C);
    }
    // opposite changes of momentum
    double *b = k ? w : v, h = k ? -m / m2 : m / m1;
    b[0] += h * dx;
    b[1] += h * dy;
    b[2] += h * dz;
  }
  f.vel_r = v[0]; f.vel_phi = v[1]; f.vel_z = v[2];
  s.vel_r = w[0]; s.vel_phi = w[1]; s.vel_z = w[2];
}

// --- relativistic models: binary collision in the center-of-mass frame ---
static double sq(const double *a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2]; }
static double dt(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double lorentz(double v2) { return phys::rel::lorenz_factor(v2); }
struct Frames
{
  bool swap;
  Particle *f, *s;
  double m1, m2, q1, q2, w1, w2, n1, n2;
  double v1[3], v2[3], p1[3], p2[3], g1, g2, e1, e2;   // laboratory frame: velocities, momenta, Lorentz factors, energies over c
  double b[3], bb, g;                                  // motion of the center of mass
  double c1[3], c2[3], ce1, ce2, u1[3], u2[3], rel;    // its frame: momenta, energies over c, velocities; relative velocity
  bool same;
};
static inline __attribute__((always_inline)) void frames(Frames &x, double ma, double mb, double qa, double qb, Particle &pa, Particle &pb, double na, double nb)
{
  bool swap = x.swap = !(pa.weight / pb.weight <= 1);
  Particle &f = swap ? pb : pa, &s = swap ? pa : pb;
  x.f = &f; x.s = &s;
  x.m1 = swap ? mb : ma; x.m2 = swap ? ma : mb; x.q1 = swap ? qb : qa; x.q2 = swap ? qa : qb; x.n1 = swap ? nb : na; x.n2 = swap ? na : nb;
  x.w1 = f.weight; x.w2 = s.weight;
  x.v1[0] = f.vel_r; x.v1[1] = f.vel_phi; x.v1[2] = f.vel_z;
  x.v2[0] = s.vel_r; x.v2[1] = s.vel_phi; x.v2[2] = s.vel_z;
  x.same = x.v1[0] == x.v2[0] && x.v1[1] == x.v2[1] && x.v1[2] == x.v2[2];
  x.g1 = lorentz(sq(x.v1)); x.g2 = lorentz(sq(x.v2));
  x.e1 = x.g1 * x.m1 * S_C; x.e2 = x.g2 * x.m2 * S_C;
  for (int k = 0; k < 3; ++k)
  {
    x.p1[k] = x.g1 * x.m1 * x.v1[k];
    x.p2[k] = x.g2 * x.m2 * x.v2[k];
    x.b[k] = (x.p1[k] + x.p2[k]) / (x.e1 + x.e2);
  }
  x.bb = sq(x.b);
  x.g = lorentz(x.bb * S_C * S_C);
  x.ce1 = x.g * (x.e1 - dt(x.b, x.p1));
  x.ce2 = x.g * (x.e2 - dt(x.b, x.p2));
  for (int k = 0; k < 3; ++k)
  {
    x.c1[k] = x.p1[k] + x.b[k] * dt(x.b, x.p1) * (x.g - 1) / x.bb - x.b[k] * x.g * x.e1;
    x.c2[k] = -x.c1[k];
    x.u1[k] = x.c1[k] / (x.ce1 / S_C);
    x.u2[k] = x.c2[k] / (x.ce2 / S_C);
  }
  x.rel = (std::sqrt(sq(x.u1)) + std::sqrt(sq(x.u2))) / (1 - dt(x.u1, x.u2) / (S_C * S_C));
}
// velocity after the collision: momentum q and energy e in the frame of the center of mass
static inline __attribute__((always_inline)) void back(Frames &x, const double *q, double e, double m, Particle *p)
{
  double v[3];
  for (int k = 0; k < 3; ++k)
    v[k] = (q[k] + x.b[k] * dt(x.b, q) * (x.g - 1) / x.bb + x.b[k] * x.g * e) / m;
  double h = phys::rel::lorenz_factor_inv(sq(v));
  p->vel_r = v[0] * h; p->vel_phi = v[1] * h; p->vel_z = v[2] * h;
}
// momentum c turned by the angles (modulus kept)
static inline __attribute__((always_inline)) void turn(const double *c, double S, double C, double phi, double *q)
{
  double t = std::sqrt(c[0] * c[0] + c[1] * c[1]), l = std::sqrt(sq(c)), sp = std::sin(phi), cp = std::cos(phi);
  if (t == 0)
  {
    q[0] = l * S * cp;
    q[1] = l * S * sp;
  }
  else
  {
    q[0] = (c[0] * c[2] * S * cp - c[1] * l * S * sp) / t;
    q[1] = (c[1] * c[2] * S * cp + c[0] * l * S * sp) / t;
  }
  q[2] = -t * S * cp;
  (void)C;
}

extern "C" void spec_single_sk98(CollisionsSK98 *c, double ma, double mb, double qa, double qb, Particle &pa, Particle &pb, double na, double nb, double debye)
{
  Frames x;
  frames(x, ma, mb, qa, qb, pa, pb, na, nb);
  if (x.same)
    return;
  double pr = lorentz(x.rel * x.rel) * x.m2 * x.rel;
  if (pr == 0 || x.rel < 1e-15)
    return;
  double L = phys::plasma::coulomb_logarithm(x.m1, x.m2, debye, x.rel);
  if (L <= 0)
    return;
  double nu = phys::plasma::collision_freqency(x.q1, x.q2, x.n2 < x.n1 ? x.n2 : x.n1, L, pr, x.rel);
  double d = math::random::normal(std::sqrt(nu * c->time->step));
  double sn = 2 * d / (1 + d * d), cs = 1 - 2 * d * d / (1 + d * d);
  double th = std::atan(sn / (x.g * (cs - std::sqrt(x.bb * S_C * S_C) / x.rel)));
  double phi = math::random::uniform_angle();
  double S = std::sin(th), C = std::cos(th), q[3], r[3];
  turn(x.c1, S, C, phi, q);
  double t = std::sqrt(x.c1[0] * x.c1[0] + x.c1[1] * x.c1[1]);
  for (int k = 0; k < 3; ++k)
  {
    double change = q[k] - x.c1[k] * (1 - C);
    if (k < 2 && t == 0)
      change = q[k];
    q[k] = x.c1[k] + change;
    r[k] = x.c2[k] - change;
  }
  back(x, q, x.ce1, x.m1, x.f);
  back(x, r, x.ce2, x.m2, x.s);
}

extern "C" void spec_single_p12(CollisionsP12 *c, double ma, double mb, double qa, double qb, Particle &pa, Particle &pb, double na, double nb, double debye)
{
  Frames x;
  frames(x, ma, mb, qa, qb, pa, pb, na, nb);
  if (x.same)
    return;
  double grel = lorentz(x.rel * x.rel), pr = grel * x.m2 * x.rel;
  if (pr == 0 || x.rel < 1e-15 || !isnormal(x.n1) || !isnormal(x.n2))
    return;
  bool fast = sq(x.v1) > REL_LIMIT_POW_2 || sq(x.v2) > REL_LIMIT_POW_2;
  if (fast)
    debye *= grel;
  double L = phys::plasma::coulomb_logarithm(x.m1, x.m2, debye, x.rel), dt_ = c->time->step;
  double n = x.n1 * x.n2 / (x.n2 < x.n1 ? x.n2 : x.n1), s;
  double cg1 = (1 - dt(x.v1, x.b) / S_C) * x.g1 * x.g, cg2 = (1 - dt(x.v2, x.b) / S_C) * x.g2 * x.g;
  if (fast)
  {
    double a = x.m1 * x.g1, b = x.m2 * x.g2, k = x.m1 * cg1 * x.m2 * cg2 * S_C * S_C / sq(x.c1) + 1;
    s = n * dt_ * L * (x.q1 * x.q2) * (x.q1 * x.q2) / (4 * S_PI * S_EPS0 * S_EPS0 * S_C * S_C * S_C * S_C * a * b) * x.g * std::sqrt(sq(x.c1)) / (a + b) * k * k;
  }
  else
  {
    double m = x.m1 * x.m2 / (x.m1 + x.m2);
    s = n * dt_ * L * (x.q1 * x.q2) * (x.q1 * x.q2) / (4 * S_PI * S_EPS0 * S_EPS0 * m * m * x.rel * x.rel * x.rel);
  }
  if (x.rel < 1e6 && n > 7e13)
  {
    double h1 = x.m1 * std::pow(x.n1, constant::TWO_OVER_3), h2 = x.m2 * std::pow(x.n2, constant::TWO_OVER_3);
    double top = std::pow(constant::FOUR_OVER_3 * S_PI, constant::ONE_OVER_3) * n * dt_ * (x.m1 + x.m2) / std::max(h1, h2) * x.rel;
    s = std::min(s, top);
  }
  double U = math::random::uniform(), C;
  if (s < 0.1)
    C = std::max(-1., 1 + s * std::log(U));
  else if (s < 3)
  {
    double r = 0.00569578 + 0.9560202 * s - 0.508139 * s * s + 0.47913906 * s * s * s - 0.12788975 * s * s * s * s + 0.02389567 * s * s * s * s * s, A = 1 / r;
    C = r * std::log(std::exp(-A) + 2 * U * std::sinh(A));
  }
  else if (s < 6)
  {
    double A = 3 * std::exp(-s);
    C = std::log(std::exp(-A) + 2 * U * std::sinh(A)) / A;
  }
  else
    C = 2 * U - 1;
  double S = std::sqrt(1 - C * C), phi = math::random::uniform_angle(), q[3], r[3];
  turn(x.c1, S, C, phi, q);
  double t = std::sqrt(x.c1[0] * x.c1[0] + x.c1[1] * x.c1[1]);
  for (int k = 0; k < 3; ++k)
  {
    if (k == 2 || t != 0)
      q[k] += x.c1[k] * C;
    r[k] = -q[k];
  }
  // a macroparticle of the larger weight is deflected with the probability of the ratio of the weights
  double u = math::random::uniform() * std::max(x.w1, x.w2);
  if (u < x.w2)
    back(x, q, x.ce1, x.m1, x.f);
  if (u < x.w1)
    back(x, r, x.ce2, x.m2, x.s);
  c->debye_mean += debye;
  c->s_mean += s;
  c->L_mean += L;
  ++c->ncol;
}

// --- momentum and energy of a cell are restored (TA77S) ---
static void restore(Cell &l, double m, Grid3D<double> &p, Grid<double> &n, Grid<double> &e, int i, int k)
{
  double P[3] = {0, 0, 0}, E = 0, M = EL(n, i, k) * m;
  for (unsigned q = 0; q < l.size(); ++q)
  {
    double w = m * l[q]->weight, v[3] = {l[q]->vel_r, l[q]->vel_phi, l[q]->vel_z};
    for (int d = 0; d < 3; ++d)
      P[d] += w * v[d];
    E += w * sq(v) / 2;
  }
  double V0[3] = {EL(p.r_component, i, k) / M, EL(p.phi_component, i, k) / M, EL(p.z_component, i, k) / M}, V1[3] = {P[0] / M, P[1] / M, P[2] / M};
  double a = (EL(e, i, k) - M * sq(V0) / 2) / (E - M * sq(V1) / 2);
  if (!isnormal(a))
    return;
  a = std::sqrt(a < 0 ? -a : a);
  for (unsigned q = 0; q < l.size(); ++q)
  {
    l[q]->vel_r = V0[0] + a * (l[q]->vel_r - V1[0]);
    l[q]->vel_phi = V0[1] + a * (l[q]->vel_phi - V1[1]);
    l[q]->vel_z = V0[2] + a * (l[q]->vel_z - V1[2]);
  }
}
extern "C" void spec_restore(CollisionsTA77S *c)
{
  for (int i = 0; i < (int)c->geometry->cell_amount[0]; ++i)
    for (int k = 0; k < (int)c->geometry->cell_amount[1]; ++k)
    {
      restore(EL(c->map_ion2cell, i, k), c->mass_ion, c->moment_tot_ion, c->amount_tot_ion, c->energy_tot_ion, i, k);
      restore(EL(c->map_el2cell, i, k), c->mass_el, c->moment_tot_el, c->amount_tot_el, c->energy_tot_el, i, k);
    }
}

extern "C" void spec_shuffle(Collisions *c)
{
  for (int i = 0; i < (int)c->geometry->cell_amount[0]; ++i)
    for (int k = 0; k < (int)c->geometry->cell_amount[1]; ++k)
    {
      std::random_shuffle(EL(c->map_el2cell, i, k).begin(), EL(c->map_el2cell, i, k).end());
      std::random_shuffle(EL(c->map_ion2cell, i, k).begin(), EL(c->map_ion2cell, i, k).end());
    }
}

extern char collisions_class[] asm("_ZTV10Collisions");
extern "C" void spec_create(Collisions *c, Geometry *g, TimeSim *t, std::vector<SpecieP *> species)
{
  *(void **)c = (void *)(collisions_class + 16);
  c->geometry = g;
  c->time = t;
  new (&c->species_p) std::vector<SpecieP *>(species);
  for (SpecieP *s : species)
  {
    if (s->name == "electrons" || s->name == "Electrons")
    {
      c->specie_el = s;
      c->mass_el = s->mass;
      c->charge_el = s->charge;
    }
    if (s->name == "ions" || s->name == "Ions")
    {
      c->specie_ion = s;
      c->mass_ion = s->mass;
      c->charge_ion = s->charge;
    }
  }
  size_t n = g->cell_amount[0], m = g->cell_amount[1];
#define MAKE(x, T) new (&c->x) T; c->x = T(n, m, 2);
  MAKE(map_el2cell, Grid<Cell>) MAKE(map_ion2cell, Grid<Cell>)
  MAKE(energy_tot_el, Grid<double>) MAKE(amount_tot_el, Grid<double>) MAKE(moment_tot_el, Grid3D<double>)
  MAKE(energy_tot_ion, Grid<double>) MAKE(amount_tot_ion, Grid<double>) MAKE(moment_tot_ion, Grid3D<double>)
}
