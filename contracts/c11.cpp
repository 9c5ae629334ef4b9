// C11: a variant constructs, copies, moves and destroys its contained object exactly once each.
#define LIFETIMES
#include "variant_spec.h"
