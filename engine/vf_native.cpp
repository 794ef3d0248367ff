// Native side of the harness API: replays the inputs of a counterexample (or of a path model) on the compiled code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <csetjmp>
#include <unistd.h>
static std::map<std::string,std::string> in; static std::map<std::string,int> cnt; static int fails=0; static FILE* out=nullptr;
static std::string uniq(const char* n){ int k=cnt[n]++; return k?std::string(n)+"#"+std::to_string(k):std::string(n); }
static void say(const char* k,const std::string& s){ fprintf(out,"%s %s\n",k,s.c_str()); fflush(out); }
static const char* val(const std::string& n){ auto i=in.find(n); return i==in.end()?nullptr:i->second.c_str(); }
extern "C"{
double vf_double(const char* n){ const char* v=val(uniq(n)); return v?strtod(v,nullptr):0; }
double vf_double_in(const char* n,double lo,double hi){ const char* v=val(uniq(n)); double d=v?strtod(v,nullptr):lo; if(d<lo||d>hi){ if(d<lo&&d>=lo-1e-9*(1+fabs(lo))) return lo; if(d>hi&&d<=hi+1e-9*(1+fabs(hi))) return hi; say("ASSUME",n); _Exit(9); } return d; }
long vf_int(const char* n,long lo,long hi){ const char* v=val(uniq(n)); long d=v?strtol(v,nullptr,10):lo; if(d<lo||d>hi){ say("ASSUME",n); _Exit(9);} return d; }
int vf_bool(const char* n){ const char* v=val(uniq(n)); return v?atoi(v):0; }
long vf_pick(long v){ return v; }
void vf_assume(int c){ if(!c){ say("ASSUME","vf_assume"); _Exit(9); } }
void vf_assume_eq(double a,double b){ if(!(fabs(a-b)<=1e-7*(1+fabs(a)+fabs(b)))){ say("ASSUME","vf_assume_eq"); _Exit(9); } }
void vf_assert(int c,const char* l){ if(!c){ fails++; say("FAIL",l); } }
void vf_fail(const char* l){ fails++; say("FAIL",l); }
void vf_eq(double a,double b,double tol,const char* l){ bool bad= std::isnan(a)||std::isnan(b)? !(std::isnan(a)&&std::isnan(b)) : !(a==b||fabs(a-b)<=0.5*tol+1e-9*(fabs(a)+fabs(b))); if(bad){ fails++; char s[96]; snprintf(s,96," [%.17g vs %.17g]",a,b); say("FAIL",std::string(l)+s); } }
void vf_le(double a,double b,double tol,const char* l){ if(!(a<=b+0.5*tol+1e-9*(fabs(a)+fabs(b)))){ fails++; char s[96]; snprintf(s,96," [%.17g > %.17g]",a,b); say("FAIL",std::string(l)+s); } }
void vf_reach(const char* t){ say("REACH",t); }
void vf_observe(const char* n,double v){ char s[64]; snprintf(s,64," %.17g",v); say("OBS",std::string(n)+s); }
int vf_symbolic(){ return 0; }
#define E(f) void f();
#include VF_ENTRIES
#undef E
extern void (*__start_vf_ctors[])() __attribute__((weak)); extern void (*__stop_vf_ctors[])() __attribute__((weak));
void vf_unresolved();
}
// static initialisers of the encoded module run here, one by one; one that needs a symbol outside the encoded sources is skipped
static jmp_buf jb; static volatile bool ctors=false;
void vf_unresolved(){ if(ctors) longjmp(jb,1); say("UNRESOLVED","call outside the encoded sources"); _exit(77); }
static void runCtors(){ for(void (** volatile p)()=__start_vf_ctors;p<__stop_vf_ctors;p++) if(*p){ ctors=true; if(!setjmp(jb)){ try{ (*p)(); }catch(...){} } ctors=false; } }
int main(int argc,char** argv){ out=fdopen(3,"w"); if(!out) out=stdout; FILE* f=fopen(argv[1],"r"); if(!f) return 8; char n[512],v[512]; while(fscanf(f,"%511[^\t]\t%511[^\n]\n",n,v)==2) in[n]=v; fclose(f); runCtors();
	std::string which=argc>2?argv[2]:""; try{ if(0); 
#define E(f) else if(which==#f) f();
#include VF_ENTRIES
 else return 8; }catch(std::exception& e){ say("EXCEPTION",e.what()); _Exit(7); }catch(...){ say("EXCEPTION","?"); _Exit(7); }
	say("DONE",std::to_string(fails)); fflush(out); _Exit(fails?7:0); }
