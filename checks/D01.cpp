// D01: demand-loaded sparse fields read like fully loaded ones, after every history of operations up to a depth.
#include "dyn.h"
#include <malloc.h>
void vp::registerScenarios(bool th) {
  mallopt(M_PERTURB, 0xa5);   // freed blocks do not keep their values
  for (int og = 1; og >= 0; --og) scenario(std::string("histories/") + fmtName(og), [=](Ctx &c) { dyn::body(c, true, og, DEPTH + th); }, opt(false, 2, 20000, 200));
}
