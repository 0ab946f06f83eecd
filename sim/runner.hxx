#ifndef VERIF_RUNNER_HXX
#define VERIF_RUNNER_HXX
/* A property body draws a workload from stream W, simulates it and checks it.
 * It runs in a forked process; returning means that the property held. */
struct Property
{
  const char *id;
  void (*body) ();
};
void register_property (const char *id, void (*body) ());
#include <vector>
std::vector<Property> registered_properties ();   /* by id */
#define PROPERTY(ID, FN) namespace { struct Reg_##FN { Reg_##FN () { register_property (ID, FN); } } reg_##FN; }
#endif
