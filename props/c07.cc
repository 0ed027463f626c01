#define ARITH
#include "c06.cc"
