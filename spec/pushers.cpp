// Reference semantics of the momentum pushers.
#include "common.hpp"
#include "phys/rel.hpp"
#include "pusher/pusherBoris.hpp"
#include "pusher/pusherVay.hpp"
#include "pusher/pusherHC.hpp"

#define C2 (S_C * S_C)
struct V3 { double x, y, z; };
static inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static inline V3 operator*(double k, V3 a) { return {a.x * k, a.y * k, a.z * k}; }
static inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline V3 raw(vector3d<double> &v) { double *d = v.vec3d._M_impl._M_start; return {d[0], d[1], d[2]}; }
// Lorentz factor of a velocity (saturated when the speed equals c) and inverse Lorentz factor of gamma * v
static inline double gam(double v2) { double g = 1 / sqrt(1 - v2 / C2); return std::isinf(g) ? 1e100 : g; }
static inline double igam(double u2) { return 1 / sqrt(1 + u2 / C2); }

template <class P, class F> static inline void each(P *s, F f)
{
  unsigned ns = s->species_p.size();
  for (unsigned a = 0; a < ns; a++)
  {
    SpecieP *sp = s->species_p[a];
    unsigned np = sp->particles.size();
    for (unsigned b = 0; b < np; b++)
    {
      Particle &p = *sp->particles[b];
      vector3d<double> e = s->maxwell_solver->get_field_e(p.pos_r, p.pos_z);
      vector3d<double> h = s->maxwell_solver->get_field_h(p.pos_r, p.pos_z);
      V3 E = raw(e), H = raw(h);
#ifdef ENABLE_EXTERNAL_FIELDS
      vector3d<double> e2 = s->external_fields->get_field_e(p.pos_r, p.pos_z);
      vector3d<double> h2 = s->external_fields->get_field_h(p.pos_r, p.pos_z);
      E = E + raw(e2); H = H + raw(h2);
#endif
      double k = sp->charge * s->time->step / (2 * sp->mass);
      V3 v = f(V3{p.vel_r, p.vel_phi, p.vel_z}, k * E, (k * S_MU0) * H);
      p.vel_r = v.x; p.vel_phi = v.y; p.vel_z = v.z;
    }
  }
}

// Boris: half electric kick, rotation by 2t/(1+t^2), half electric kick
static inline V3 boris(V3 v, V3 e, V3 b, bool rel)
{
  V3 u = rel ? gam(dot(v, v)) * v : v;
  u = u + e;
  V3 t = rel ? igam(dot(u, u)) * b : b;
  V3 w = u + cross(u, t);
  u = u + (2 / (1 + dot(t, t))) * cross(w, t) + e;
  return rel ? igam(dot(u, u)) * u : u;
}
extern "C" void spec_boris_adaptive(PusherBoris *s) { each(s, [](V3 v, V3 e, V3 b) { return boris(v, e, b, dot(v, v) > REL_LIMIT * REL_LIMIT); }); }
extern "C" void spec_boris_rel(PusherBoris *s) { each(s, [](V3 v, V3 e, V3 b) { return boris(v, e, b, true); }); }
extern "C" void spec_boris_classic(PusherBoris *s) { each(s, [](V3 v, V3 e, V3 b) { return boris(v, e, b, false); }); }

extern "C" void spec_vay(PusherVay *s)
{
  each(s, [](V3 v, V3 e, V3 b) {
    V3 u0 = gam(dot(v, v)) * v;
    V3 u = u0 + 2. * e + igam(dot(u0, u0)) * cross(u0, b);
    double sg = 1 + dot(u, u) / C2 - dot(b, b), us = dot(u, b);
    double ig = 1 / sqrt(0.5 * (sg + sqrt(sg * sg + 4 * (dot(b, b) + us * us / C2))));
    V3 t = ig * b;
    V3 r = (1 / (1 + dot(t, t))) * (u + dot(u, t) * t + cross(u, t));
    return igam(dot(r, r)) * r;
  });
}

extern "C" void spec_hc(PusherHC *s)
{
  each(s, [](V3 v, V3 e, V3 b) {
    V3 um = gam(dot(v, v)) * v + e;
    double sg = 1 + dot(um, um) / C2 - dot(b, b), us = dot(um, b);
    double ig = 1 / sqrt(0.5 * (sg + sqrt(sg * sg + 4 * (dot(b, b) + us * us / C2))));
    V3 t = ig * b;
    double t2 = dot(t, t);
    V3 up = (1 / (1 + t2)) * ((1 - t2) * um + (2 * dot(um, t)) * t + 2. * cross(um, t));
    V3 r = up + e;
    return igam(dot(r, r)) * r;
  });
}
