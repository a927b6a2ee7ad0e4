// Reference semantics of the border exchange of two adjacent grids (halo width s, N cells in all along the shared direction).
// The s outermost interior cells of each side and the s halo cells of the other describe the same nodes: both get the sum.
#include "common.hpp"

typedef Grid<double> G;
static inline void meet(double &a, double &b) { double t = a + b; a = t; b = t; }

// a: lower radius, b: higher radius
extern "C" void spec_overlay_x(G *a, G *b)
{
  va_assume(a->y_real_size == b->y_real_size);
  unsigned s = a->o_s, n = a->x_real_size;
  for (unsigned k = s; k < a->y_real_size - s; k++)
    for (unsigned d = 0; d < 2 * s; d++)
      meet(a->grid[n - 2 * s + d][k], b->grid[d][k]);
}
extern "C" void spec_overlay_y(G *a, G *b)
{
  va_assume(a->x_real_size == b->x_real_size);
  unsigned s = a->o_s, m = a->y_real_size;
  for (unsigned i = s; i < a->x_real_size - s; i++)
    for (unsigned d = 0; d < 2 * s; d++)
      meet(a->grid[i][m - 2 * s + d], b->grid[i][d]);
}
// the corner shared with the diagonal neighbour: the s*s interior corners and the opposite halo corners
extern "C" void spec_overlay_xy(G *a, G *b)
{
  va_assume(a->x_real_size == b->x_real_size); va_assume(a->y_real_size == b->y_real_size);
  unsigned s = a->o_s, n = a->x_real_size, m = a->y_real_size;
  for (unsigned d = 0; d < s; d++)
    for (unsigned e = 0; e < s; e++)
    {
      meet(a->grid[n - 2 * s + d][m - 2 * s + e], b->grid[d][e]);
      meet(a->grid[n - s + d][m - s + e], b->grid[s + d][s + e]);
    }
}
// both grids have halos of two cells, at least four cells inside, and are different objects
extern "C" void pre_two(G *a, G *b)
{
  a->o_s = 2; b->o_s = 2;
  a->x_real_size = a->x_size + 4; a->y_real_size = a->y_size + 4; b->x_real_size = b->x_size + 4; b->y_real_size = b->y_size + 4;
  va_assume(a->x_size >= 4); va_assume(a->y_size >= 4); va_assume(b->x_size >= 4); va_assume(b->y_size >= 4);
}
#define G3(n) extern "C" void spec_overlay3_##n(Grid3D<double> *a, Grid3D<double> *b) { spec_overlay_##n(&a->r_component, &b->r_component); spec_overlay_##n(&a->phi_component, &b->phi_component); spec_overlay_##n(&a->z_component, &b->z_component); }
G3(x) G3(y) G3(xy)
extern "C" void pre_two3(Grid3D<double> *a, Grid3D<double> *b) { pre_two(&a->r_component, &b->r_component); pre_two(&a->phi_component, &b->phi_component); pre_two(&a->z_component, &b->z_component); }
#define CODE3(n) extern "C" void code_overlay3_##n(Grid3D<double> *a, Grid3D<double> *b) { a->overlay_##n(*b); } \
  extern "C" void code_overlay_##n(G *a, G *b) { a->overlay_##n(*b); }
CODE3(x) CODE3(y) CODE3(xy)
static void set1(G &g, double v) { for (unsigned i = 0; i < g.x_size; i++) for (unsigned k = 0; k < g.y_size; k++) EL(g, i, k) = v; }
static void halo1(G &g, double v)
{
  for (unsigned i = 0; i < g.x_real_size; i++) for (unsigned k = 0; k < g.y_real_size; k++)
    if (i < g.o_s || k < g.o_s || i >= g.x_real_size - g.o_s || k >= g.y_real_size - g.o_s) g.grid[i][k] = v;
}
extern "C" void code_set3(Grid3D<double> *a, double v) { *a = v; }
extern "C" void spec_set3(Grid3D<double> *a, double v) { set1(a->r_component, v); set1(a->phi_component, v); set1(a->z_component, v); }
extern "C" void code_halo3(Grid3D<double> *a, double v) { a->overlay_set(v); }
extern "C" void spec_halo3(Grid3D<double> *a, double v) { halo1(a->r_component, v); halo1(a->phi_component, v); halo1(a->z_component, v); }
#define AT(c, m) extern "C" double code_at3_##c(Grid3D<double> *a, unsigned i, unsigned k) { return (*a)(c, i, k); } \
  extern "C" double code_comp3_##c(Grid3D<double> *a, unsigned i, unsigned k) { return (*a)[c](i, k); } \
  extern "C" double spec_at3_##c(Grid3D<double> *a, unsigned i, unsigned k) { return EL(a->m, i, k); }
AT(0, r_component) AT(1, phi_component) AT(2, z_component)
