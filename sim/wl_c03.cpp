// C03: lazy matching reads the input only when pulled, and reads it as it is then.
#define LAZY_WRITES 1
#include "wl_lazy.hpp"
