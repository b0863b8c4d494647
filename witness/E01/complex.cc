// Element-wise arithmetic of complex numbers
// FLAGS: -fcx-limited-range
#include "../E02/complex.cc"
