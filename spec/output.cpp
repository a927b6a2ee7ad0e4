// Reference output: every probe writes the values at its places, once per schedule, in its own slice
#include "common.hpp"
#include <new>
#include "outWriter.hpp"

static int step_number(TimeSim *t) { return round(t->current / t->step); }

// what a writer writes
extern "C" void spec_write(OutWriter *w)
{
  int step = step_number(w->time);
  if (step % w->schedule != 0)
    return;
  size_t frame = step / w->schedule;
  short *p = w->position._M_impl._M_start;
  Grid<double> &v = *w->values;
  if (w->shape == 0)
  {
    std::vector<std::vector<double>> out(p[2] - p[0], std::vector<double>(p[3] - p[1], 0));
    for (int a = 0; a < p[2] - p[0]; ++a)
      for (int b = 0; b < p[3] - p[1]; ++b)
        out[a][b] = EL(v, p[0] + a, p[1] + b);
    w->engine.write_rec(frame, out);
  }
  else if (w->shape == 1)
  {
    std::vector<double> out;
    for (unsigned int a = 0; a < v.x_size; ++a)
      out.push_back(EL(v, a, p[3]));
    w->engine.write_vec(frame, out);
  }
  else if (w->shape == 2)
  {
    std::vector<double> out;
    for (unsigned int a = 0; a < v.y_size; ++a)
      out.push_back(EL(v, p[2], a));
    w->engine.write_vec(frame, out);
  }
  else if (w->shape == 3)
    w->engine.write_dot(frame, EL(v, p[2], p[3]));
}

// a writer knows its place in the data set, what it writes and when
extern "C" void spec_writer(OutWriter *w, HighFive::File *f, std::string *path, unsigned short shape, std::vector<short> *place, std::vector<size_t> *offset,
                            unsigned short schedule, bool append, unsigned short compress, TimeSim *t, Grid<double> *v)
{
  new (&w->engine) OutEngineHDF5;
  new (&w->position) std::vector<short>;
  new (&w->path) std::string;
  w->time = t;
  w->path = *path;
  w->schedule = schedule;
  w->shape = shape;
  w->position = *place;
  w->values = v;
  w->engine = OutEngineHDF5(f, *path, {128, 512}, *offset, append, compress);
  w->hdf5_file = f;
}

// slices of a data set: [frame, place of the part in the probe ...] with the size of the part
#define EACH(x, v) for (auto x = (v)._M_impl._M_start; x != (v)._M_impl._M_finish; ++x)
extern "C" void spec_engine(OutEngineHDF5 *e, HighFive::File *f, std::string *path, std::vector<size_t> *size, std::vector<size_t> *offset, bool append, unsigned short compress)
{
  new (e) OutEngineHDF5;
  e->path = *path;
  e->size = *size;
  e->offset = *offset;
  e->append = append;
  e->compress = compress;
  e->data_file = f;
}
extern "C" void spec_write_rec(OutEngineHDF5 *e, size_t frame, std::vector<std::vector<double>> *data)
{
  HighFive::DataSet set = e->data_file->getDataSet(e->path);
  std::vector<size_t> from = {frame};
  EACH(o, e->offset) from.push_back(*o);
  std::vector<double> *rows = data->_M_impl._M_start;
  size_t n = data->_M_impl._M_finish - rows, m = rows[0]._M_impl._M_finish - rows[0]._M_impl._M_start;
  std::vector<size_t> size = {1, n, m};
  std::vector<std::vector<std::vector<double>>> slice(1, std::vector<std::vector<double>>(n, std::vector<double>(m, 0.)));
  slice[0] = *data;
  set.select(from, size).write(slice);
}
extern "C" void spec_write_vec(OutEngineHDF5 *e, size_t frame, std::vector<double> *data)
{
  HighFive::DataSet set = e->data_file->getDataSet(e->path);
  std::vector<size_t> from = {frame};
  EACH(o, e->offset) from.push_back(*o);
  size_t n = data->_M_impl._M_finish - data->_M_impl._M_start;
  std::vector<size_t> size = {1, n};
  std::vector<std::vector<double>> slice(1, std::vector<double>(n, 0.));
  slice[0] = *data;
  set.select(from, size).write(slice);
}
extern "C" void spec_write_dot(OutEngineHDF5 *e, size_t frame, double data)
{
  HighFive::DataSet set = e->data_file->getDataSet(e->path);
  set.select({frame, 0}, {1, 1}).write(data);
}
// the data set has a slice for every frame up to this one; existing slices are kept
extern "C" void spec_extend(OutEngineHDF5 *e, size_t frame)
{
  HighFive::DataSet set = e->data_file->getDataSet('/' + e->path);
  std::vector<size_t> have = set.getDimensions();
  if (have._M_impl._M_start[0] > frame)
    return;
  std::vector<size_t> size = {frame + 1};
  EACH(o, e->size) size.push_back(*o);
  set.resize(size);
}
