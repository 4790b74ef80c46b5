// C02: lazy matchers deliver the exact sequence under any pull history.
#define LAZY_WRITES 0
#include "wl_lazy.hpp"
