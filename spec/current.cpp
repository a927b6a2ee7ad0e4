// Reference current deposition.  The charge of a macroparticle is spread over a ring one cell high and one cell wide around it.
// A straight piece of its way inside one cell moves charge through the faces of the node cells around it: the current through a
// face is the charge that crosses it, by the area of the face and by the time step (exactly charge conserving).
#include "common.hpp"
#include "current/currentVB.hpp"
#include "current/currentZigZag.hpp"
#include "domain.hpp"

static const double TINY = 1e-15;
static inline double ring(double dz, double a, double b) { return S_PI * dz * (b * b - a * a); }
static inline double cellvol(double i, double dr, double dz) { return S_PI * dz * dr * dr * (2 * i + 1); }

template <class F> static inline void each(Current *c, F f)
{
  for (SpecieP **s = c->species_p._M_impl._M_start; s != c->species_p._M_impl._M_finish; s++)
    for (Particle **p = (*s)->particles._M_impl._M_start; p != (*s)->particles._M_impl._M_finish; p++) f(**s, **p);
}
struct St { Current *c; double dr, dz, dt; int i0, k0; };
static inline St st(Current *c)
{
  double *h = c->geometry->cell_size._M_impl._M_start; size_t *d = c->geometry->cell_dims._M_impl._M_start;
  return {c, h[0], h[1], c->time->step, (int)d[0], (int)d[1]};
}
static inline void J(St &s, int comp, int i, int k, double v) { EL(COMP(s.c->current, comp), i - s.i0, k - s.k0) += v; }

// piece of way from (ra, za) to (rb, zb) inside cell (i, k), oblique to both axes
static inline void piece(St &s, double ra, double za, double rb, double zb, int i, int k, double q)
{
  double dr = s.dr, dz = s.dz, R = rb - ra, Z = zb - za;
  if (fabs(R) < TINY || fabs(Z) < TINY) return;
  double L = log(rb / ra), mid = (i + 0.5) * dr, D = mid * mid - dr * dr / 4, m = Z / R;
  double rdz = Z * (ra + rb) / 2;                     // integral of r along z
  if (i >= 1)
  {
    double area = 2 * S_PI * i * dr * dr;             // through the upper end of the inner node cell
    J(s, 2, i, k, q / (dz * area * s.dt) * (D * m * L - rdz + dr * Z) / (2 * dr));
    area = 2 * S_PI * (i + 1) * dr * dr;
    J(s, 2, i + 1, k, q / (dz * area * s.dt) * (rdz + dr * Z - D * m * L) / (2 * dr));
  }
  else
  {
    double area = S_PI * dr * dr / 4;                 // the node on the axis
    J(s, 2, i, k, q / (dz * area * s.dt) * (dr * Z - rdz) / (2 * dr));
    area = 2 * S_PI * dr * dr;
    J(s, 2, i + 1, k, q / (dz * area * s.dt) * (rdz + dr * Z) / (2 * dr));
  }
  // radially: crossing rate d/dr of the outer charge share times the share of the node along z, linear in r: g0 + g1 r
  double area = 2 * S_PI * mid * dz;
  double g1 = -m / dz, g0 = ((k + 1) * dz - za + m * ra) / dz;
  J(s, 0, i, k, q / (area * s.dt) / (2 * dr) * (g0 * R + g1 * (rb * rb - ra * ra) / 2 + D * (g0 * (1 / ra - 1 / rb) + g1 * L)));
  g1 = m / dz; g0 = (za - m * ra - k * dz) / dz;
  J(s, 0, i, k + 1, q / (area * s.dt) / (2 * dr) * (g0 * R + g1 * (rb * rb - ra * ra) / 2 + D * (g0 * (1 / ra - 1 / rb) + g1 * L)));
}
// motion along z at radius r
static inline void axial(St &s, double r, double za, double zb, int i, int k, double q)
{
  double dr = s.dr, mid = (i + 0.5) * dr;
  double per = q / (2 * S_PI * r * dr * s.dz) * (zb - za) / s.dt;
  double area = i == 0 ? S_PI * dr * dr / 4 : 2 * S_PI * i * dr * dr;
  J(s, 2, i, k, per * ring(1, r - dr / 2, mid) / area);
  J(s, 2, i + 1, k, per * ring(1, mid, r + dr / 2) / (2 * S_PI * (i + 1) * dr * dr));
}
// motion along r at height z
static inline void radial(St &s, double ra, double rb, double z, int i, int k, double q)
{
  double dr = s.dr, dz = s.dz, mid = (i + 0.5) * dr;
  double Q = q / (2 * dr) * (rb - ra + (mid * mid - dr * dr / 4) * (1 / ra - 1 / rb)) / (2 * S_PI * mid * dz * s.dt);
  J(s, 0, i, k, Q * ((k + 1) * dz - z) / dz);
  J(s, 0, i, k + 1, Q * (z - k * dz) / dz);
}
// motion parallel to an axis, over at most one border
extern "C" void spec_strict(CurrentVB *c, double rb, double zb, double ra, double za, double q)
{
  St s = st(c);
  double dr = s.dr, dz = s.dz;
  if (fabs(rb - ra) < TINY)
    {
      if (fabs(zb - za) < TINY) return;
      int i = floor(rb / dr), k = floor(zb / dz), dk = k - (int)floor(za / dz);
      if (dk == 0) axial(s, rb, za, zb, i, k, q);
      else if (dk == 1) { axial(s, rb, za, k * dz, i, k - 1, q); axial(s, rb, k * dz, zb, i, k, q); }
      else if (dk == -1) { axial(s, rb, za, (k + 1) * dz, i, k + 1, q); axial(s, rb, (k + 1) * dz, zb, i, k, q); }
      return;
    }
    if (fabs(zb - za) < TINY)
    {
      int i = floor(rb / dr), k = floor(zb / dz), di = i - (int)floor(ra / dr);
      if (di == 0) radial(s, ra, rb, zb, i, k, q);
      else if (di == 1) { radial(s, ra, i * dr, zb, i - 1, k, q); radial(s, i * dr, rb, zb, i, k, q); }
      else if (di == -1) { radial(s, ra, (i + 1) * dr, zb, i + 1, k, q); radial(s, (i + 1) * dr, rb, zb, i, k, q); }
    }
}
extern "C" void spec_current_rz(CurrentVB *c)
{
  St s = st(c);
  each(c, [&](SpecieP &sp, Particle &p) {
    double dr = s.dr, dz = s.dz, q = sp.charge * p.weight;
    double rb = p.pos_r, zb = p.pos_z, ra = p.pos_old_r, za = p.pos_old_z;
    int i = p.cell_r, k = p.cell_z, io = floor(ra / dr), ko = floor(za / dz);
    // a position on an upper border (rounding) belongs to either cell
    if (ra == (io + 1) * dr) io = i;
    if (za == (ko + 1) * dz) ko = k;
    if (rb == (i + 1) * dr) i = io;
    if (zb == (k + 1) * dz) k = ko;
    int di = i - io, dk = k - ko;
    if (abs(di) > 1 || abs(dk) > 1) return;                        // reported, not weighted
    if (fabs(rb - ra) < TINY || fabs(zb - za) < TINY) { c->strict_motion_distribution(rb, zb, ra, za, q); return; }
    double m = (zb - za) / (rb - ra);
    double rx = di > 0 ? i * dr : (i + 1) * dr, zx = za + (rx - ra) * m;      // crossing of the radial border
    bool up = abs(di) + abs(dk) == 1 ? za < k * dz : dk > 0;
    double zy = up ? k * dz : (k + 1) * dz, ry = ra + (zy - za) / m;      // crossing of the axial border
    auto straight = [&](double r1, double z1, double r0, double z0, int ci, int ck) { c->simple_current_distribution(r1, z1, r0, z0, ci, ck, q); };
    auto corner = [&](bool radial_first) {
      if (radial_first) { straight(rx, zx, ra, za, io, ko); straight(ry, zy, rx, zx, i, ko); straight(rb, zb, ry, zy, i, k); }
      else { straight(ry, zy, ra, za, io, ko); straight(rx, zx, ry, zy, io, k); straight(rb, zb, rx, zx, i, k); }
    };
    int n = abs(di) + abs(dk);
    if (n == 0) straight(rb, zb, ra, za, i, k);
    else if (n == 1 && di != 0) { straight(rx, zx, ra, za, io, k); straight(rb, zb, rx, zx, i, k); }
    else if (n == 1) { straight(ry, zy, ra, za, i, up ? k - 1 : k + 1); straight(rb, zb, ry, zy, i, k); }
    else if (n == 2) corner(dk > 0 ? zx < zy : zx > zy);
  });
}
extern "C" void spec_simple(CurrentVB *c, double rb, double zb, double ra, double za, int i, int k, double q) { St s = st(c); piece(s, ra, za, rb, zb, i, k, q); }
extern "C" void spec_current_phi(CurrentVB *c)
{
  St s = st(c);
  each(c, [&](SpecieP &sp, Particle &p) {
    double dr = s.dr, dz = s.dz, r = (p.pos_r + p.pos_old_r) / 2, z = (p.pos_z + p.pos_old_z) / 2;
    int i = floor(r / dr), k = floor(z / dz);
    double j = sp.charge * p.weight * p.vel_phi / (2 * S_PI * r * dr * dz), mid = (i + 0.5) * dr;
    double upper = z + dz / 2 - (k + 0.5) * dz, lower = dz - upper, vi = cellvol(i, dr, dz), vo = cellvol(i + 0.5, dr, dz);
    J(s, 1, i, k, j * ring(lower, r - dr / 2, mid) / vi);
    J(s, 1, i + 1, k, j * ring(lower, mid, r + dr / 2) / vo);
    J(s, 1, i, k + 1, j * ring(upper, r - dr / 2, mid) / vi);
    J(s, 1, i + 1, k + 1, j * ring(upper, mid, r + dr / 2) / vo);
  });
}
extern "C" void spec_current_vb(CurrentVB *c) { c->azimuthal_current_distribution(); c->rz_current_distribution(); }

static inline void halo_clear(Grid<double> &g)
{
  for (unsigned i = 0; i < g.x_real_size; i++)
    for (unsigned j = 0; j < g.y_real_size; j++)
      if (i < g.o_s || j < g.o_s || i >= g.x_real_size - g.o_s || j >= g.y_real_size - g.o_s) g.grid[i][j] = 0;
}
static inline void all_clear(Grid<double> &g)
{
  for (unsigned i = 0; i < g.x_size; i++)
    for (unsigned j = 0; j < g.y_size; j++) EL(g, i, j) = 0;
  halo_clear(g);
}
// Zigzag scheme: the way is broken at the relay point, each half stays in one cell and carries the charge flux of its length at the
// weights of its middle
extern "C" void spec_current_zigzag(CurrentZigZag *c)
{
  St s = st(c);
  halo_clear(COMP(c->current, 0)); halo_clear(COMP(c->current, 1)); halo_clear(COMP(c->current, 2));
  each(c, [&](SpecieP &sp, Particle &p) {
    double dr = s.dr, dz = s.dz, q = sp.charge * p.weight;
    double rb = p.pos_r, zb = p.pos_z, ra = p.pos_old_r, za = p.pos_old_z;
    int i = floor(rb / dr), k = floor(zb / dz), io = floor(ra / dr), ko = floor(za / dz);
    auto relay = [](int a, int b, double xa, double xb, double h) {
      return std::min(std::min(a * h, b * h) + h, std::max(std::max(a * h, b * h), (xa + xb) / 2));
    };
    double rr = relay(io, i, ra, rb, dr), zr = relay(ko, k, za, zb, dz);
    double v = cellvol(floor((rb + ra) / 2 / dr), dr, dz);
    auto leg = [&](double r0, double z0, double r1, double z1, int ci, int ck, bool last) {
      double wr = ((r0 + r1) / 2 - ci * dr) / dr, wz = ((z0 + z1) / 2 - ck * dz) / dz;
      double jr = q * (r1 - r0) / s.dt / v, jz = q * (z1 - z0) / s.dt / v, jf = q * p.vel_phi / v;
      J(s, 0, ci, ck, jr * (1 - wz)); J(s, 0, ci, ck + 1, jr * wz);
      J(s, 2, ci, ck, jz * (1 - wr)); J(s, 2, ci + 1, ck, jz * wr);
      if (!last) return;
      J(s, 1, ci, ck, jf * (1 - wr) * (1 - wz)); J(s, 1, ci, ck + 1, jf * (1 - wr) * wz);
      J(s, 1, ci + 1, ck, jf * wr * (1 - wz)); J(s, 1, ci + 1, ck + 1, jf * wr * wz);
    };
    leg(ra, za, rr, zr, io, ko, false);
    leg(rr, zr, rb, zb, i, k, true);
  });
}
// before a deposition the whole current is zero, halo included
extern "C" void spec_reset_current(Domain *d)
{
  all_clear(COMP(d->current->current, 0)); all_clear(COMP(d->current->current, 1)); all_clear(COMP(d->current->current, 2));
}
