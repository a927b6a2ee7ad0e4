// Reference semantics of constants, relativistic / plasma helpers, vector and grid arithmetic.
#include "common.hpp"
#include "phys/rel.hpp"
#include "phys/plasma.hpp"
#include "constant.hpp"

// ---- constants ----------------------------------------------------------------------------------------------------
extern "C" void code_consts(double *o)
{
  using namespace constant;
  o[0] = ONE_OVER_3; o[1] = TWO_OVER_3; o[2] = FOUR_OVER_3; o[3] = THREE_OVER_4; o[4] = PI; o[5] = EPSILON0; o[6] = EL_MASS; o[7] = EL_CHARGE;
  o[8] = EL_CHARGE_INV; o[9] = LIGHT_VEL; o[10] = LIGHT_VEL_POW_2; o[11] = MAGN_CONST; o[12] = PLANK_CONST; o[13] = PLANK_BAR_CONST; o[14] = MNZL;
  o[15] = REL_LIMIT_POW_2;
}
extern "C" void spec_consts(double *o)
{
  o[0] = 1. / 3; o[1] = 2. / 3; o[2] = 4. / 3; o[3] = 0.75; o[4] = S_PI; o[5] = S_EPS0; o[6] = S_ME; o[7] = S_E;
  o[8] = 1 / S_E; o[9] = S_C; o[10] = S_C * S_C; o[11] = S_MU0; o[12] = 6.6261e-34; o[13] = 6.6261e-34 / (2 * S_PI); o[14] = 1e-15;
  o[15] = (double)REL_LIMIT * (double)REL_LIMIT;
}

// ---- relativity ---------------------------------------------------------------------------------------------------
static double lf(double v2) { return 1 / sqrt(1 - v2 / (S_C * S_C)); }
extern "C" double spec_lorenz(double v2) { va_assume(!(v2 / (S_C * S_C) > 1)); double g = lf(v2); return std::isinf(g) ? 1e100 : g; }
extern "C" double spec_lorenz_inv(double u2) { return 1 / sqrt(1 + u2 / (S_C * S_C)); }
static double g_of(double x, double y, double z) { return spec_lorenz(x * x + y * y + z * z); }
extern "C" double spec_momentum_0(double m, std::vector<double> *v) { va_assume(m != 0); return m * S_C * g_of((*v)[0], (*v)[1], (*v)[2]); }
extern "C" void code_momentum(double *out, double m, vector3d<double> *v) { vector3d<double> r = phys::rel::momentum(m, *v); out[0] = r[0]; out[1] = r[1]; out[2] = r[2]; }
extern "C" void spec_momentum(double *out, double m, std::vector<double> *v)
{
  va_assume(m != 0);
  double g = g_of((*v)[0], (*v)[1], (*v)[2]);
  out[0] = m * g * (*v)[0]; out[1] = m * g * (*v)[1]; out[2] = m * g * (*v)[2];
}
extern "C" double spec_energy(double m, double v2)
{
  double lim = (double)REL_LIMIT * (double)REL_LIMIT;
  return v2 > lim ? (spec_lorenz(v2) - 1) * m * S_C * S_C : m * v2 / 2;
}
extern "C" double spec_energy_m(double m, double p2)
{
  double lim = (double)REL_LIMIT * (double)REL_LIMIT, rest = m * S_C * S_C;
  return p2 > lim * m * m ? sqrt(p2 * S_C * S_C + rest * rest) - rest : p2 / (2 * m);
}

// ---- plasma -------------------------------------------------------------------------------------------------------
extern "C" double spec_debye(double ne, double ni, double te, double ti) { va_assume(ne > 0); va_assume(ni > 0); return 7433.944 / sqrt(ne / te + ni / ti); }
extern "C" double spec_plasma_frequency(double n) { return 56.3803 * sqrt(n); }
extern "C" double spec_coulomb_log(double ma, double mb, double debye, double v)
{
  double mu = ma * mb / (ma + mb), l = log(debye * mu * v / (6.6261e-34 / (2 * S_PI)));
  return 2 < l ? l : 2;
}
extern "C" double spec_coll_freq(double ea, double eb, double n, double L, double p, double v)
{
  return ea * ea * eb * eb * n * L / (8 * S_PI * S_EPS0 * S_EPS0 * p * p * v);
}

// ---- vectors ------------------------------------------------------------------------------------------------------
typedef vector3d<double> V;
typedef std::vector<double> A;
#define VEC_OP(name, op) \
  extern "C" void code_v##name(double *out, V *a, V *b) { V r = *a op *b; out[0] = r[0]; out[1] = r[1]; out[2] = r[2]; } \
  extern "C" void spec_v##name(double *out, A *a, A *b) { double x = (*a)[0] op (*b)[0], y = (*a)[1] op (*b)[1], z = (*a)[2] op (*b)[2]; out[0] = x; out[1] = y; out[2] = z; } \
  extern "C" void code_s##name(double *out, V *a, double b) { V r = *a op b; out[0] = r[0]; out[1] = r[1]; out[2] = r[2]; } \
  extern "C" void spec_s##name(double *out, A *a, double b) { double x = (*a)[0] op b, y = (*a)[1] op b, z = (*a)[2] op b; out[0] = x; out[1] = y; out[2] = z; } \
  extern "C" void code_av##name(V *a, V *b) { *a op##= *b; } \
  extern "C" void spec_av##name(A *a, A *b) { for (int i = 0; i < 3; i++) (*a)[i] = (*a)[i] op (*b)[i]; } \
  extern "C" void code_as##name(V *a, double b) { *a op##= b; } \
  extern "C" void spec_as##name(A *a, double b) { for (int i = 0; i < 3; i++) (*a)[i] = (*a)[i] op b; }
VEC_OP(add, +) VEC_OP(sub, -) VEC_OP(mul, *) VEC_OP(div, /)
extern "C" void code_setv(V *a, V *b) { *a = *b; }
extern "C" void spec_setv(A *a, A *b) { for (int i = 0; i < 3; i++) (*a)[i] = (*b)[i]; }
extern "C" void code_sets(V *a, double b) { *a = b; }
extern "C" void spec_sets(A *a, double b) { for (int i = 0; i < 3; i++) (*a)[i] = b; }
extern "C" double code_dot(V *a, V *b) { return a->dot(*b); }
extern "C" double spec_dot(A *a, A *b) { return (*a)[0] * (*b)[0] + (*a)[1] * (*b)[1] + (*a)[2] * (*b)[2]; }
extern "C" double code_len2(V *a) { return a->length2(); }
extern "C" double spec_len2(A *a) { return spec_dot(a, a); }
extern "C" double code_len(V *a) { return a->length(); }
extern "C" double spec_len(A *a) { return sqrt(spec_dot(a, a)); }
extern "C" void code_cross(V *a, V *b) { a->cross(*b); }
extern "C" void spec_cross(A *a, A *b)
{
  double x = (*a)[1] * (*b)[2] - (*a)[2] * (*b)[1], y = (*a)[2] * (*b)[0] - (*a)[0] * (*b)[2], z = (*a)[0] * (*b)[1] - (*a)[1] * (*b)[0];
  (*a)[0] = x; (*a)[1] = y; (*a)[2] = z;
}
extern "C" bool code_eqv(V *a, V *b) { return *a == *b; }
extern "C" bool spec_eqv(A *a, A *b) { return (*a)[0] == (*b)[0] && (*a)[1] == (*b)[1] && (*a)[2] == (*b)[2]; }
extern "C" bool code_nev(V *a, V *b) { return *a != *b; }
extern "C" bool spec_nev(A *a, A *b) { return !spec_eqv(a, b); }
extern "C" bool code_eqs(V *a, double b) { return *a == b; }
extern "C" bool spec_eqs(A *a, double b) { return (*a)[0] == b && (*a)[1] == b && (*a)[2] == b; }

// ---- grids --------------------------------------------------------------------------------------------------------
typedef Grid<double> G;
#define GRID_OP(name, op) \
  extern "C" void code_g##name(G *g, double v) { *g op v; } \
  extern "C" void spec_g##name(G *g, double v) { for (unsigned i = 0; i < g->x_size; i++) for (unsigned k = 0; k < g->y_size; k++) EL(*g, i, k) op v; }
GRID_OP(set, =) GRID_OP(add, +=) GRID_OP(sub, -=) GRID_OP(mul, *=) GRID_OP(div, /=)
#define GRID_ACC(name, op) \
  extern "C" void code_e##name(G *g, unsigned i, unsigned k, double v) { g->name(i, k, v); } \
  extern "C" void spec_e##name(G *g, unsigned i, unsigned k, double v) { EL(*g, i, k) op v; }
GRID_ACC(set, =) GRID_ACC(inc, +=) GRID_ACC(dec, -=) GRID_ACC(m_a, *=) GRID_ACC(d_a, /=)
extern "C" double code_get(G *g, unsigned i, unsigned k) { return (*g)(i, k); }
extern "C" double spec_get(G *g, unsigned i, unsigned k) { return EL(*g, i, k); }
extern "C" void code_halo(G *g, double v) { g->overlay_set(v); }
extern "C" void spec_halo(G *g, double v)
{
  for (unsigned i = 0; i < g->x_size + 2 * g->o_s; i++)
    for (unsigned k = 0; k < g->y_size + 2 * g->o_s; k++)
      if (i < g->o_s || i >= g->x_size + g->o_s || k < g->o_s || k >= g->y_size + g->o_s)
        g->grid[i][k] = v;
}
extern "C" void code_copy(G *g, G *h) { g->copy(*h); }
extern "C" void spec_copy(G *g, G *h)
{
  va_assume(g->x_real_size == h->x_real_size); va_assume(g->y_real_size == h->y_real_size);
  for (unsigned i = 0; i < g->x_real_size; i++)
    for (unsigned k = 0; k < g->y_real_size; k++)
      g->grid[i][k] = h->grid[i][k];
}
extern "C" void inv_grid(G *g) { g->x_real_size = g->x_size + 2 * g->o_s; g->y_real_size = g->y_size + 2 * g->o_s; }
