// Reference migration: where a particle has to be after the particles were collected
#include "common.hpp"
#include "SMB.hpp"
extern "C" unsigned q_r_domains(SMB *s) { return s->r_domains; }
extern "C" unsigned q_z_domains(SMB *s) { return s->z_domains; }
extern "C" size_t q_dom0(SMB *s) { return s->geometry->domains_amount[0]; }
extern "C" size_t q_dom1(SMB *s) { return s->geometry->domains_amount[1]; }

static inline Domain *dom(SMB *s, unsigned i, unsigned j) { return s->domains.grid[i + s->domains.o_s][j + s->domains.o_s]; }

extern "C" void spec_runaway(SMB *s)
{
  for (unsigned i = 0; i < s->r_domains; i++)
    for (unsigned j = 0; j < s->z_domains; j++)
    {
      Domain *d = dom(s, i, j);
      size_t *area = s->geometry->cell_dims._M_impl._M_start, *mine = d->geometry.cell_amount._M_impl._M_start;
      for (SpecieP **ps = d->species_p._M_impl._M_start; ps != d->species_p._M_impl._M_finish; ps++)
      {
        std::vector<Particle *> &list = (*ps)->particles;
        for (Particle **p = list._M_impl._M_start; p != list._M_impl._M_finish; p++)
        {
          int r = (*p)->cell_r, z = (*p)->cell_z;
          bool outside = r < 0 || z < 0 || r >= area[2] || z >= area[3];
          unsigned di = (r - area[0]) / mine[0], dj = (z - area[1]) / mine[1];
          bool moves = !outside && !(di == i && dj == j);
          if (moves)
          {
            Domain *to = dom(s, di, dj);
            for (SpecieP **pd = to->species_p._M_impl._M_start; pd != to->species_p._M_impl._M_finish; pd++)
              if ((*pd)->id == (*ps)->id) (*pd)->particles.push_back(*p);
          }
          verif_decide(*p, outside || moves);
        }
        list.erase(std::vector<Particle *>::iterator((Particle **)verif_kept(list._M_impl._M_start, list._M_impl._M_finish)), list.end());
      }
    }
}
