// C12: variants have value semantics.
#define VALUES
#include "variant_spec.h"
