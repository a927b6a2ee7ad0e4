// Reference handling of probes: data sets, writers of the sub-domains a probe touches, maps calculated before a dump
#include "common.hpp"
#include <new>
#include "outController.hpp"

#define DOM(s, r, z) (*(Domain **)&EL((s)->domains, r, z))
#define EACHP(x, v) for (auto x = (v)._M_impl._M_start; x != (v)._M_impl._M_finish; ++x)

static std::vector<size_t> shape_of(probe *p, Geometry *g)
{
  std::vector<size_t> s;
  size_t *d = p->dims._M_impl._M_start;
  if (p->shape == 0) s = {d[2] - d[0], d[3] - d[1]};
  else if (p->shape == 1) s = {g->cell_amount._M_impl._M_start[0]};
  else if (p->shape == 2) s = {g->cell_amount._M_impl._M_start[1]};
  else if (p->shape == 3) s = {1};
  return s;
}

static bool is(probe *p, const char *c) { return p->component.compare(c) == 0; }

// the species of a sub-domain a probe belongs to
static bool specie_of(probe *p, Domain *d, SpecieP *&s)
{
  bool found = false;
  EACHP(x, d->species_p) if (p->specie.compare((*x)->name) == 0) { s = *x; found = true; }
  return found;
}

static bool source(probe *p, Domain *d, Grid<double> *&v)
{
  if (is(p, "E/r")) { v = &d->maxwell_solver->field_e.r_component; return true; }
  if (is(p, "E/phi")) { v = &d->maxwell_solver->field_e.phi_component; return true; }
  if (is(p, "E/z")) { v = &d->maxwell_solver->field_e.z_component; return true; }
  if (is(p, "H/r")) { v = &d->maxwell_solver->field_h_at_et.r_component; return true; }
  if (is(p, "H/phi")) { v = &d->maxwell_solver->field_h_at_et.phi_component; return true; }
  if (is(p, "H/z")) { v = &d->maxwell_solver->field_h_at_et.z_component; return true; }
  if (is(p, "J/r")) { v = &d->current->current.r_component; return true; }
  if (is(p, "J/phi")) { v = &d->current->current.phi_component; return true; }
  if (is(p, "J/z")) { v = &d->current->current.z_component; return true; }
  SpecieP *s;
  if (!specie_of(p, d, s)) return false;
  if (is(p, "temperature")) { v = &s->temperature_map; return true; }
  if (is(p, "density")) { v = &s->density_map; return true; }
  if (is(p, "energy")) { v = &s->energy_map; return true; }
  if (is(p, "momentum/r")) { v = &s->momentum_map.r_component; return true; }
  if (is(p, "momentum/phi")) { v = &s->momentum_map.phi_component; return true; }
  if (is(p, "momentum/z")) { v = &s->momentum_map.z_component; return true; }
  return false;
}

// a probe touches a sub-domain
static bool touches(probe *p, Domain *d)
{
  size_t *a = p->dims._M_impl._M_start, *b = d->geometry.cell_dims._M_impl._M_start;
  bool row = a[2] >= b[0] && a[2] <= b[2], col = a[3] >= b[1] && a[3] <= b[3];
  if (p->shape == 0) return a[0] < b[2] && a[1] < b[3] && a[2] > b[0] && a[3] > b[1];
  if (p->shape == 1) return col;
  if (p->shape == 2) return row;
  return p->shape == 3 && row && col;
}

extern "C" void spec_controller(OutController *c, HighFive::File *f, Geometry *g, TimeSim *t, std::vector<probe> *ps, SMB *smb, picojson::value *meta, bool table)
{
  new (&c->probes) std::vector<probe>;
  c->geometry = g;
  c->time = t;
  c->smb = smb;
  c->hdf5_file = f;
  c->print_progress_table = table;
  OutEngineHDF5 top(f, (*ps)[0].path, {0, 0}, {0, 0}, true, false);
  top.write_metadata(*meta);
  c->probes = *ps;
  EACHP(p, c->probes)
  {
    OutEngineHDF5 set(f, p->path, shape_of(p, g), {0, 0}, true, false);
    set.create_dataset();
    for (unsigned r = 0; r < g->domains_amount._M_impl._M_start[0]; ++r)
      for (unsigned z = 0; z < g->domains_amount._M_impl._M_start[1]; ++z)
      {
        Domain *d = DOM(smb, r, z);
        if (!touches(p, d)) continue;
        Grid<double> *v;
        if (!source(p, d, v)) continue;
        size_t *a = p->dims._M_impl._M_start, *b = d->geometry.cell_dims._M_impl._M_start;
        size_t lo_r = a[0] > b[0] ? a[0] : b[0], lo_z = a[1] > b[1] ? a[1] : b[1], hi_r = a[2] < b[2] ? a[2] : b[2], hi_z = a[3] < b[3] ? a[3] : b[3];
        std::vector<short> place = {(short)(lo_r - b[0]), (short)(lo_z - b[1]), (short)(hi_r - b[0]), (short)(hi_z - b[1])};
        std::vector<size_t> offset;
        if (p->shape != 2) offset.push_back(lo_r - a[0]);
        if (p->shape != 1) offset.push_back(lo_z - a[1]);
        OutWriter w(f, p->path, p->shape, place, offset, p->schedule, true, (unsigned short)0, t, v);
        w.hdf5_file = f;
        d->out_writers.push_back(w);
      }
  }
}

extern "C" void spec_output(OutController *c)
{
  c->init_datasets();
  for (unsigned r = 0; r < c->geometry->domains_amount._M_impl._M_start[0]; ++r)
    for (unsigned z = 0; z < c->geometry->domains_amount._M_impl._M_start[1]; ++z)
      EACHP(w, DOM(c->smb, r, z)->out_writers) (*w)();
}

extern "C" void spec_datasets(OutController *c)
{
  Geometry *g = c->geometry;
  int step = round(c->time->current / c->time->step);
  unsigned n_r = g->domains_amount._M_impl._M_start[0], n_z = g->domains_amount._M_impl._M_start[1];
  EACHP(p, c->probes)
  {
    OutEngineHDF5 set(c->hdf5_file, p->path, shape_of(p, g), {0, 0}, true, false);
    if (step % p->schedule != 0) continue;
    set.extend_dataset(step / p->schedule);
    bool dens = is(p, "density"), temp = is(p, "temperature"), en = is(p, "energy"), mom = is(p, "momentum/r") || is(p, "momentum/phi") || is(p, "momentum/z");
    for (unsigned r = 0; r < n_r; ++r)
      for (unsigned z = 0; z < n_z; ++z)
        if (SpecieP *s; specie_of(p, DOM(c->smb, r, z), s))
        {
          if (dens) s->calc_density();
          if (temp) s->calc_temperature();
          if (en) s->calc_energy();
          if (mom) s->calc_momentum();
        }
    for (unsigned r = 0; r < n_r; ++r)
      for (unsigned z = 0; z < n_z; ++z)
        if (SpecieP *s; specie_of(p, DOM(c->smb, r, z), s))
        {
          if (r < n_r - 1)
          {
            SpecieP *o;
            if (!specie_of(p, DOM(c->smb, r + 1, z), o)) LOG_S(FATAL) << "";
            if (dens) s->density_map.overlay_x(o->density_map);
            if (temp) s->temperature_map.overlay_x(o->temperature_map);
            if (en) s->energy_map.overlay_x(o->energy_map);
            if (mom)
            {
              s->momentum_map.r_component.overlay_x(o->momentum_map.r_component);
              s->momentum_map.phi_component.overlay_x(o->momentum_map.phi_component);
              s->momentum_map.z_component.overlay_x(o->momentum_map.z_component);
            }
          }
          if (z < n_z - 1)
          {
            SpecieP *o;
            if (!specie_of(p, DOM(c->smb, r, z + 1), o)) LOG_S(FATAL) << "";
            if (dens) s->density_map.overlay_y(o->density_map);
            if (temp) s->temperature_map.overlay_y(o->temperature_map);
            if (en) s->energy_map.overlay_y(o->energy_map);
            if (mom)
            {
              s->momentum_map.r_component.overlay_y(o->momentum_map.r_component);
              s->momentum_map.phi_component.overlay_y(o->momentum_map.phi_component);
              s->momentum_map.z_component.overlay_y(o->momentum_map.z_component);
            }
          }
        }
  }
}

// entry states: two probes, of a given shape and component each
static void set_probe(probe *p, unsigned shape, const char *component)
{
  p->shape = shape;
  new (&p->component) std::string(component);
}
static void two(OutController *c, std::vector<probe> *ps, unsigned s0, const char *c0, unsigned s1, const char *c1)
{
  probe *p = ps->_M_impl._M_start;
  c->probes._M_impl._M_start = p;
  c->probes._M_impl._M_finish = p + 2;
  set_probe(p, s0, c0);
  set_probe(p + 1, s1, c1);
}
// as many sub-domains, with two species each
static void tiles(Geometry *g, SMB *s, unsigned n_r, unsigned n_z)
{
  g->domains_amount._M_impl._M_start[0] = n_r;
  g->domains_amount._M_impl._M_start[1] = n_z;
  for (unsigned r = 0; r < n_r; ++r)
    for (unsigned z = 0; z < n_z; ++z)
    {
      auto &v = DOM(s, r, z)->species_p;
      v._M_impl._M_finish = v._M_impl._M_start + 2;
    }
}
#define TCASE(n, n_r, n_z, s0, c0, s1, c1) extern "C" void pre_probes_##n(OutController *c, HighFive::File *, Geometry *g, TimeSim *, std::vector<probe> *ps, SMB *smb, picojson::value *, bool) { two(c, ps, s0, c0, s1, c1); tiles(g, smb, n_r, n_z); }
#define CASE(n, s0, c0, s1, c1) extern "C" void pre_probes_##n(OutController *c, HighFive::File *, Geometry *, TimeSim *, std::vector<probe> *ps, SMB *, picojson::value *, bool) { two(c, ps, s0, c0, s1, c1); }
CASE(0, 0, "E/r", 1, "E/phi")
CASE(1, 1, "E/z", 2, "H/r")
CASE(2, 2, "H/phi", 3, "H/z")
CASE(3, 3, "J/r", 0, "J/phi")
TCASE(4, 1, 2, 0, "J/z", 3, "temperature")
TCASE(5, 2, 1, 1, "density", 2, "energy")
TCASE(6, 1, 1, 2, "momentum/r", 0, "momentum/phi")
TCASE(7, 1, 2, 3, "momentum/z", 1, "H/z")
TCASE(8, 2, 1, 0, "density", 0, "unknown thing")
