// Reference assembly of a sub-domain: every part works on the geometry, the clock and the particles of this sub-domain
#include "common.hpp"
#include "domain.hpp"
#include <new>

#ifdef ENABLE_EXTERNAL_FIELDS
extern "C" void spec_domain(Domain *d, Geometry *g, std::vector<SpecieP *> *sp, TimeSim *t, std::string *e, std::string *h, std::vector<double> *pe, std::vector<double> *ph)
#else
extern "C" void spec_domain(Domain *d, Geometry *g, std::vector<SpecieP *> *sp, TimeSim *t)
#endif
{
  new (&d->species_p) std::vector<SpecieP *>;
  new (&d->out_writers) std::vector<OutWriter>;
  new (&d->geometry) Geometry(*g);
  d->time = t;
  d->species_p = *sp;
#ifdef SWITCH_CCS_ZIGZAG
  d->current = new CurrentZigZag(&d->geometry, t, *sp);
#else
  d->current = new CurrentVB(&d->geometry, t, *sp);
#endif
  d->maxwell_solver = new MaxwellSolverYee(&d->geometry, t, d->current);
#ifdef ENABLE_EXTERNAL_FIELDS
  d->external_fields = new ExternalFields(&d->geometry, t, *e, *h, *pe, *ph);
#define EXT d->external_fields,
#else
#define EXT
#endif
#ifdef SWITCH_COULOMB_COLLISIONS_TA77S
  d->collisions = new CollisionsTA77S(&d->geometry, t, *sp);
#elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
  d->collisions = new CollisionsSK98(&d->geometry, t, *sp);
#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
  d->collisions = new CollisionsP12(&d->geometry, t, *sp);
#endif
#ifdef SWITCH_PUSHER_VAY
  d->pusher = new PusherVay(d->maxwell_solver, EXT *sp, t);
#elif defined(SWITCH_PUSHER_HC)
  d->pusher = new PusherHC(d->maxwell_solver, EXT *sp, t);
#else
  d->pusher = new PusherBoris(d->maxwell_solver, EXT *sp, t);
#endif
}
