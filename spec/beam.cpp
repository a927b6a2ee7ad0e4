// Reference beam injection
#include "common.hpp"
#include "beamP.hpp"
#include <new>

extern char beam_class[] asm("_ZTV5BeamP");
#include "math/rand.hpp"

// derived parameters of a beam in one sub-domain: beams enter through the left wall, each row of sub-domains gets its part of the beam radius
extern "C" void spec_beam(BeamP *b, unsigned id, std::string *name, double charge, double mass, unsigned macro, double start, double radius, double density, double amount, double length,
                          double distance, double velocity, Geometry *g, TimeSim *t)
{
  new ((SpecieP *)b) SpecieP(id, *name, charge, mass, macro, density, density, 0, g, t);
  *(void **)b = (void *)(beam_class + 16);
  b->velocity = velocity;
  b->density = density;
  b->radius = radius;
  b->start_time = start;
  b->bunches_amount = amount;
  b->bunches_distance = distance;
  b->bunch_length = length;
  b->current_bunch_number = 0;
  double n = b->bunches_amount;
  b->finish_time = start + n * length / velocity + (n - 1) * distance / velocity;
  double bottom = g->cell_dims[0] * g->cell_size[0], top = g->cell_dims[2] * g->cell_size[0], part = 0;
  if (g->cell_dims[1] == 0)
  {
    if (radius > top)
      part = g->size[0];
    else if (radius > bottom)
      part = radius - bottom;
  }
  b->domain_radius = part;
  // macroparticles of one bunch that enter here, evenly in time
  unsigned per_bunch = macro / b->bunches_amount;
  b->bunch_macro_amount = per_bunch * part / radius;
  b->macro_per_step_to_inject = b->bunch_macro_amount * velocity * t->step / length;
}

extern "C" void spec_inject(BeamP *b)
{
  Geometry *g = b->geometry;
  TimeSim *t = b->time;
  if (b->current_bunch_number >= b->bunches_amount)
    return;
  double begin = b->start_time + b->current_bunch_number * (b->bunch_length + b->bunches_distance) / b->velocity;
  double end = begin + b->bunch_length / b->velocity;
  double dr = g->cell_size[0], dz = g->cell_size[1], bottom = g->cell_dims[0] * dr;
  if (bottom < b->radius && t->current >= begin && t->current < end)
    for (unsigned i = 0; i < b->macro_per_step_to_inject; ++i)
    {
      Particle *p = new Particle();
      p->specie_id = b->id;
      p->pos_r = bottom + b->domain_radius * math::random::uniform() + dr / 2;
      p->pos_z = b->velocity * t->step * math::random::uniform() + dz / 2;
      p->vel_z = b->velocity;
      // all real particles of the beam, shared among its macroparticles in proportion to the radius (a ring around the axis, a disc on it)
      double all = S_PI * b->radius * b->radius * b->bunch_length * b->bunches_amount * b->density;
      double ring = p->pos_r > dr / 2 ? 2 * S_PI * p->pos_r * dr * dz : S_PI * (p->pos_r + dr / 2) * (p->pos_r + dr / 2) * dz;
      double mean = S_PI * b->radius * dr * dz;
      p->weight = all / b->macro_amount * ring / mean;
      p->cell_r = (int)std::floor(p->pos_r / dr);
      p->cell_z = (int)std::floor(p->pos_z / dz);
      b->particles.push_back(p);
    }
  if (t->current > end)
    ++b->current_bunch_number;
}
