// Harness API. Under the symbolic executor these are intrinsics; in a native replay they read the counterexample's inputs.
#pragma once
extern "C"{
double vf_double(const char* name);                       // any real number
double vf_double_in(const char* name,double lo,double hi);// any real number in [lo,hi]
long   vf_int(const char* name,long lo,long hi);          // any integer in [lo,hi]
int    vf_bool(const char* name);
long   vf_pick(long v);                                    // enumerate the possible values of v (path split)
void   vf_assume(int c);
void   vf_assume_eq(double a,double b);                    // a==b (in a native replay: up to rounding)
void   vf_assert(int c,const char* label);
void   vf_eq(double a,double b,double tol,const char* label); // a==b (exactly; tol only bounds the counterexample searched for)
void   vf_le(double a,double b,double tol,const char* label);
void   vf_reach(const char* tag);                          // vacuity witness: some input must get here
void   vf_observe(const char* name,double v);              // value compared between the encoding and the native run
int    vf_symbolic();                                      // 1 in the symbolic executor
void   vf_fail(const char* label);
}
