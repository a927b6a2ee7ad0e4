// Specification helpers: direct element access that does not go through the analysed accessors.
#pragma once
#include <vector>
#include <cmath>
#include <string>
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
#include "math/vector3d.hpp"
#include "geometry.hpp"
#include "timeSim.hpp"
#include "specieP.hpp"

static const double S_C = 3.0e8;      // light velocity (value the project uses)
static const double S_MU0 = 1.26e-6;          // magnetic constant (value the project uses)
static const double S_EPS0 = 8.85e-12;        // electric constant (value the project uses)
static const double S_E = 1.6e-19;            // electron charge
static const double S_ME = 9.1e-31;           // electron mass
static const double S_PI = 3.1415926535897932;

#define EL(g, i, k) ((g).grid[(i) + (g).o_s][(k) + (g).o_s])
static inline Grid<double> &COMP(Grid3D<double> &g, int c) { return c == 0 ? g.r_component : c == 1 ? g.phi_component : g.z_component; }

// preconditions of an analysed operation (established elsewhere): consumed by the analysis
extern "C" void va_assume(bool);
