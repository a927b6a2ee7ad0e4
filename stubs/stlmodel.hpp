// Analysis stand-in for std::remove_if: the predicate decides every element exactly once; which elements stay is recorded
#pragma once
#include <algorithm>
#include <vector>
extern "C" void verif_decide(const void *element, bool remove);
extern "C" void *verif_kept(const void *first, const void *last);
namespace std
{
template <class I, class P> inline I verif_model_if(I f, I l, P p)
{
  for (I i = f; i != l; ++i) verif_decide((const void *)*i, p(*i));
  return I((typename I::pointer)verif_kept(&*f, &*l));
}
}
#define remove_if verif_model_if
