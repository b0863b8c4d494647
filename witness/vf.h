// analysis markers shared by the witness units
#pragma once
extern "C" {
 void vf_assume(bool); void vf_require(bool); void vf_assert(bool);
 double vf_any(); void vf_feed(double); float vf_anyf(); bool vf_choice(int); bool vf_choice_on(int,const double*,int);
}
#define VFCAT_(a,b) a##b
#define VFCAT(a,b) VFCAT_(a,b)
#define LIB(n) extern "C" void VFCAT(lib_,n)
#define REF(n) extern "C" void VFCAT(ref_,n)
#define CHK(n) extern "C" void VFCAT(chk_,n)
#define GRD(n) extern "C" void VFCAT(grd_,n)
#define LIM(n) extern "C" void VFCAT(lim_,n)
