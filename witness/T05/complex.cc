// Views of complex numbers, stored in pairs or as planes
// FLAGS: -fcx-limited-range
#include "../E02/complex.cc"
