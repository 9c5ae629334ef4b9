// C12: the same histories, watching the variants' values.
#define VALUES
#include "d11.cpp"
