// Reference reading of the configuration file: which key drives which parameter, what is refused, how macroparticles are shared out
#include "common.hpp"
#include <new>
#include "cfg.hpp"
#include "algo/common.hpp"
#include "phys/plasma.hpp"

typedef picojson::value V;
static V &at(V &v, const char *key) { return v.d.fields[va_json_key(key)]; }
static double num(V &v, const char *key) { return at(v, key).d.num; }
static std::string text(V &v, const char *key) { return std::string(at(v, key).d.txt); }
#define EACHV(x, v) for (auto x = (v)._M_impl._M_start; x != (v)._M_impl._M_finish; ++x)
static size_t *amount(Geometry *g) { return g->cell_amount._M_impl._M_start; }
static double *cell(Geometry *g) { return g->cell_size._M_impl._M_start; }

extern "C" void spec_time(Cfg *c)
{
  V &t = at(c->json_data, "time");
  c->time->start = num(t, "start");
  c->time->end = num(t, "end");
  c->time->step = num(t, "step");
  c->time->current = 0;
}

extern "C" void spec_output_data(Cfg *c)
{
  V &d = at(c->json_data, "data");
  c->output_data->data_root = (char *)at(d, "data_root").d.txt;
  c->output_data->compress = at(at(d, "compression"), "use").d.flag;
  c->output_data->compress_level = (int)num(at(d, "compression"), "level");
}

// names and identifiers of species and beams are unique
extern "C" void spec_particles(Cfg *c)
{
  std::vector<V> *list = at(c->json_data, "particles").d.items;
  EACHV(o, *list)
  {
    std::string name = text(*o, "name");
    EACHV(s, c->particle_species)
      if (s->name.compare(name) == 0) LOG_S(FATAL) << "";
    unsigned short id = algo::common::hash_from_string(name, SPECIE_HASH_SALT);
    EACHV(s, c->particle_species)
      if (s->id == id) LOG_S(FATAL) << "";
    particle_specie p;
    p.id = id;
    p.name = name;
    p.mass = (int)num(*o, "mass");
    p.charge = (int)num(*o, "charge");
    p.left_density = num(*o, "density");
    p.right_density = num(*o, "density");
    p.temperature = num(*o, "temperature");
    c->particle_species.push_back(p);
  }
}

extern "C" void spec_beams(Cfg *c)
{
  std::vector<V> *list = at(c->json_data, "beams").d.items;
  EACHV(o, *list)
  {
    V &b = at(*o, "bunch");
    std::string name = "beam_" + text(*o, "name");
    EACHV(s, c->particle_beams)
      if (s->name.compare(name) == 0) LOG_S(FATAL) << "";
    unsigned short id = algo::common::hash_from_string(name, BEAM_HASH_SALT);
    EACHV(s, c->particle_species)
      if (s->id == id) LOG_S(FATAL) << "";
    EACHV(s, c->particle_beams)
      if (s->id == id) LOG_S(FATAL) << "";
    particle_beam p;
    p.id = id;
    p.name = name;
    p.mass = (int)num(*o, "mass");
    p.charge = (int)num(*o, "charge");
    p.start_time = num(*o, "start_time");
    p.velocity = num(*o, "velocity");
    p.bunches_amount = num(b, "amount");
    p.bunches_distance = num(b, "distance");
    p.bunch_length = num(b, "length");
    p.bunch_radius = num(b, "radius");
    p.density = num(b, "density");
    p.radial_profile = text(at(b, "profile"), "radial");
    p.longitudinal_profile = text(at(b, "profile"), "longitudinal");
    p.current_bunch_number = 0;
    c->particle_beams.push_back(p);
  }
}

extern "C" void spec_probes(Cfg *c)
{
  std::vector<V> *list = at(at(c->json_data, "data"), "probes").d.items;
  EACHV(o, *list)
  {
    probe p;
    size_t a0 = 0, a1 = 0, a2 = 0, a3 = 0;
    p.component = text(*o, "component");
    p.specie = text(*o, "specie");
    std::string shape = text(*o, "shape");
    p.path = p.component + "/";
    if (p.component.compare("temperature") == 0 || p.component.compare("energy") == 0 || p.component.compare("momentum/r") == 0
        || p.component.compare("momentum/phi") == 0 || p.component.compare("momentum/z") == 0 || p.component.compare("density") == 0)
      p.path += p.specie + "/";
    if (shape.compare("rec") == 0)
    {
      p.shape = 0;
      a0 = (size_t)num(at(*o, "start"), "r"); a1 = (size_t)num(at(*o, "start"), "z");
      a2 = (size_t)num(at(*o, "end"), "r"); a3 = (size_t)num(at(*o, "end"), "z");
      p.path += "rec/" + std::to_string(a0) + "-" + std::to_string(a2) + "_" + std::to_string(a1) + "-" + std::to_string(a3);
    }
    else if (shape.compare("col") == 0)
    {
      p.shape = 1;
      a3 = (int)num(*o, "z");
      p.path += "col/" + std::to_string(a3);
    }
    else if (shape.compare("row") == 0)
    {
      p.shape = 2;
      a2 = (int)num(*o, "r");
      p.path += "row/" + std::to_string(a2);
    }
    else if (shape.compare("dot") == 0)
    {
      p.shape = 3;
      a2 = (int)num(*o, "r"); a3 = (int)num(*o, "z");
      p.path += "dot/" + std::to_string(a2) + "_" + std::to_string(a3);
    }
    else
      LOG_S(FATAL) << "";
    p.schedule = (int)num(*o, "schedule");
    // inside the area: the end of a rectangle may be its border, a row, column or dot lies on cells
    size_t R = amount(c->geometry)[0], Z = amount(c->geometry)[1];
    bool good = a0 <= a2 && a1 <= a3 && a2 <= R && a3 <= Z;
    if (p.shape == 2 || p.shape == 3) good = good && a2 != R;
    if (p.shape == 1 || p.shape == 3) good = good && a3 != Z;
    if (!good) LOG_S(FATAL) << "";
    p.dims = {a0, a1, a2, a3};
    c->probes.push_back(p);
  }
}

extern "C" void spec_geometry(Cfg *c)
{
  V &g = at(c->json_data, "geometry");
  V &s = at(g, "size"), &n = at(g, "grid");
  size_t nr = (size_t)num(n, "radius"), nz = (size_t)num(n, "longitude");
#ifdef ENABLE_PML
  V &p = at(g, "pml");
  size_t inner = floor(num(p, "left_wall") * nz), outer = floor(num(p, "outer_wall") * nr), right = floor(num(p, "right_wall") * nz);
  c->geometry = new Geometry({num(s, "radius"), num(s, "longitude")}, {0, 0, nr, nz}, {0, inner, outer, right},
                             {num(p, "sigma_1"), num(p, "sigma_2")}, {true, true, true, true});
#else
  c->geometry = new Geometry({num(s, "radius"), num(s, "longitude")}, {0, 0, nr, nz}, {true, true, true, true});
#endif
#ifdef ENABLE_SINGLETHREAD
  c->geometry->domains_amount = {1, 1};
#else
  V &d = at(g, "domains_amount");
  c->geometry->domains_amount = {(size_t)(int)num(d, "radius"), (size_t)(int)num(d, "longitude")};
#endif
}

#ifdef ENABLE_EXTERNAL_FIELDS
static void external_of(Cfg *c, const char *which)
{
  V &f = at(at(c->json_data, "external_fields"), which);
  external_field x;
  x.name = which;
  x.formfactor = text(f, "formfactor");
  EACHV(p, *at(f, "params").d.items) x.params.push_back(p->d.num);
  c->external_fields.push_back(x);
}
extern "C" void spec_external(Cfg *c)
{
  external_of(c, "electric");
  external_of(c, "magnetic");
}
#endif

// every cell of a specie or a beam gets the same amount of macroparticles, times the ratio for beams, so that they sum up to the configured amount
extern "C" void spec_weights(Cfg *c)
{
  double cells = amount(c->geometry)[0] * amount(c->geometry)[1];
  double sum = amount(c->geometry)[0] * amount(c->geometry)[1] * (c->particle_species._M_impl._M_finish - c->particle_species._M_impl._M_start);
  EACHV(b, c->particle_beams)
    sum += b->bunch_radius / cell(c->geometry)[0] * (b->bunch_length * b->bunches_amount / cell(c->geometry)[1]) * c->beam_macro_ratio;
  EACHV(s, c->particle_species)
    s->macro_amount = (unsigned)(cells * (c->macro_amount / sum));
  EACHV(b, c->particle_beams)
    b->macro_amount = (unsigned)(b->bunch_radius / cell(c->geometry)[0] * (b->bunch_length * b->bunches_amount / cell(c->geometry)[1]) * (c->macro_amount / sum) * c->beam_macro_ratio);
}

// refused: sub-domain amounts that are neither even nor 1, grids they do not divide, no electrons
extern "C" bool spec_limits(Cfg *c)
{
  size_t *d = c->geometry->domains_amount._M_impl._M_start, *n = amount(c->geometry);
  if (d[0] == 0 || d[1] == 0) LOG_S(FATAL) << "";
  if ((d[0] % 2 != 0 && d[0] != 1) || (d[1] % 2 != 0 && d[1] != 1)) LOG_S(FATAL) << "";
  if (n[0] % d[0] != 0 || n[1] % d[1] != 0) LOG_S(FATAL) << "";
  double density = 0;
  EACHV(i, c->particle_species)
    if (i->name.compare("Electrons") == 0 || i->name.compare("electrons") == 0 || i->name.compare("Electron") == 0 || i->name.compare("electron") == 0 || i->mass == 1)
      density = (i->left_density + i->right_density) / 2;
  if (density == 0) LOG_S(FATAL) << "";
  return true;
}

// what is read and checked, and in which order: amounts of macroparticles need the geometry, the species and the beams; probes need the geometry
extern "C" void spec_cfg(Cfg *c, std::string *name)
{
  c->init_geometry();
  c->init_time();
  c->init_particles();
  c->init_beam();
  c->weight_macro_amount();
  c->init_output_data();
  c->init_probes();
#ifdef ENABLE_EXTERNAL_FIELDS
  c->init_external_fields();
#endif
  c->method_limitations_check();
}
