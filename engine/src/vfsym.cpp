#include <malloc.h>
// vfsym: symbolic executor for LLVM IR made from the repository's C++ sources. One process per path (re-execution from the
// harness entry under a decision prefix); all symbolic branches, assertions and address resolutions are decided by Z3.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "solver.h"
#include "poly.h"
#include <dlfcn.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <cxxabi.h>
#include <typeinfo>
#include <functional>
#include <iostream>
#include <deque>
#include <unordered_set>
using namespace llvm; using namespace vf;
static Mem M; static Solver S; static const DataLayout* DL; static Module* Mod;
static bool gVerbose=false; static std::string gHarness; static bool gReal=true; static int gSelectFork=1; static long gMaxInstr=40000000; static int gMaxEnum=256;
static int gOut=-1; // pipe of a path process
static bool gSymbolicPhase=false;

// operator delete of the host: natively called library code may release arena memory
void operator delete(void* p) noexcept { if(inArena((u64)p)){ Obj* o=M.find((u64)p); if(o) o->alive=false; return; } free(p); }
void operator delete(void* p,std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p,std::size_t) noexcept { operator delete(p); }

struct Val{ u64 c; Z3_ast s; };
static inline Val C(u64 c){ return Val{c,nullptr}; }
static inline Val CD(double d){ Val v{0,nullptr}; memcpy(&v.c,&d,8); return v; }
static inline Val CF(float d){ Val v{0,nullptr}; memcpy(&v.c,&d,4); return v; }
static inline double asD(const Val&v){ double d; memcpy(&d,&v.c,8); return d; }
static inline float asF(const Val&v){ float d; memcpy(&d,&v.c,4); return d; }
typedef std::vector<Val> Agg;
static inline Agg* asAgg(const Val& v){ return (Agg*)v.c; }
static inline Val mkAgg(Agg* a){ return Val{(u64)a,nullptr}; }

enum TK:u8{T_VOID,T_INT,T_PTR,T_F32,T_F64,T_AGG,T_F80,T_OTHER};
struct TI{ u8 k; u32 w; u32 bytes; Type* t; };
static TI ti(Type* t){ TI r{T_OTHER,0,0,t};
	if(t->isVoidTy()) r.k=T_VOID; else if(t->isIntegerTy()){ r.k=T_INT; r.w=t->getIntegerBitWidth(); r.bytes=(r.w+7)/8; }
	else if(t->isPointerTy()){ r.k=T_PTR; r.w=64; r.bytes=8; } else if(t->isDoubleTy()){ r.k=T_F64; r.w=64; r.bytes=8; } else if(t->isFloatTy()){ r.k=T_F32; r.w=32; r.bytes=4; }
	else if(t->isX86_FP80Ty()){ r.k=T_F80; r.w=80; r.bytes=10; }
	else if(t->isStructTy()||t->isArrayTy()||isa<FixedVectorType>(t)){ r.k=T_AGG; r.bytes=DL->getTypeStoreSize(t); }
	return r; }
static unsigned aggN(Type* t){ if(auto*s=dyn_cast<StructType>(t)) return s->getNumElements(); if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type* t,unsigned i){ if(auto*s=dyn_cast<StructType>(t)) return s->getElementType(i); if(auto*a=dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 aggOff(Type* t,unsigned i){ if(auto*s=dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return i*(u64)DL->getTypeAllocSize(aggT(t,i)); }

static PolyEngine* PE=nullptr;
struct PathEnd{ std::string kind,msg; };
[[noreturn]] static void endPath(const std::string& kind,const std::string& msg){ throw PathEnd{kind,msg}; }
static void emit(const std::string& s){ if(gOut<0) return; std::string t=s; for(char&ch:t) if(ch=='\n') ch=' '; t+="\n"; size_t o=0; while(o<t.size()){ ssize_t n=write(gOut,t.data()+o,t.size()-o); if(n<=0) _exit(78); o+=n; } }
static std::string jstr(const std::string& s){ std::string r="\""; for(char ch:s){ if(ch=='"'||ch=='\\'){ r+='\\'; r+=ch; } else if((unsigned char)ch<32) r+=' '; else r+=ch; } return r+"\""; }

// ------------------------------------------------------------------ decisions
struct Dec{ u8 taken; u64 val; u32 loc; };
static u32 curLoc();
static std::vector<Dec> gPrefix,gTrail; static long gUnkBranch=0, gDiv0=0, gSqrtNeg=0; static int gForksPushed=0;
static std::string ser(const std::vector<Dec>& d){ std::string s; for(auto&x:d){ s+=std::to_string((int)x.taken)+":"+std::to_string(x.val)+":"+std::to_string(x.loc)+","; } return s; }
static std::vector<Dec> deser(const std::string& s){ std::vector<Dec> r; size_t p=0; while(p<s.size()){ size_t q=s.find(',',p); std::string t=s.substr(p,q-p); unsigned tk=0,lc=0; unsigned long long v=0; sscanf(t.c_str(),"%u:%llu:%u",&tk,&v,&lc); r.push_back(Dec{(u8)tk,v,lc}); p=q+1; } return r; }
static bool fullModel(const std::vector<Z3_ast>& extra,int ms,Solver::Asg& out,int* res=nullptr){ // component-wise model of path condition + extra
	std::vector<char> done(S.pc.size(),0); std::unordered_map<unsigned,size_t> where; 
	auto mark=[&](const std::vector<Z3_ast>& sl){ std::set<unsigned> ids; for(Z3_ast f:sl) ids.insert(S.id(f)); for(size_t i=0;i<S.pc.size();i++) if(ids.count(S.id(S.pc[i]))) done[i]=1; };
	if(!extra.empty()){ auto sl=S.slice(extra); mark(sl); int r=S.query(extra,ms,&out); if(res)*res=r; if(r!=SAT) return false; }
	for(size_t i=0;i<S.pc.size();i++) if(!done[i]){ if(S.varsOf(S.pc[i]).empty()){ done[i]=1; continue; } auto sl=S.slice({S.pc[i]}); mark(sl); done[i]=1; int r=S.solve(sl,ms,&out); if(r!=SAT){ if(res)*res=r; return false; } }
	return true; }
static int gCurTries=0;
static void ensureCur(){ if(S.curValid||gCurTries>3) return; gCurTries++;
	std::vector<char> done(S.pc.size(),0); Z3_model m=S.curModel(); for(size_t i=0;i<S.pc.size();i++){ bool all=true; for(int x:S.varsOf(S.pc[i])) if(!S.cur.count(x)) all=false; Z3_ast o; if(all&&Z3_model_eval(S.c,m,S.pc[i],true,&o)){ S.k(o); if(S.boolVal(o)==1) done[i]=1; } } Z3_model_dec_ref(S.c,m);
	std::unordered_map<unsigned,size_t> ix; for(size_t i=0;i<S.pc.size();i++) ix[S.id(S.pc[i])]=i;
	for(size_t i=0;i<S.pc.size();i++) if(!done[i]){ if(S.varsOf(S.pc[i]).empty()){ done[i]=1; continue; } auto sl=S.slice({S.pc[i]}); Solver::Asg a; int r=S.solve(sl,S.lim.branchMs,&a); if(r!=SAT) return; for(auto&p:a) S.cur[p.first]=p.second; for(Z3_ast f:sl){ auto it=ix.find(S.id(f)); if(it!=ix.end()) done[it->second]=1; } done[i]=1; }
	S.curValid=true; }
static void mergeCur(const Solver::Asg& a){ for(auto&p:a) S.cur[p.first]=p.second; }
static bool inPrefix(){ return gTrail.size()<gPrefix.size(); }
// decide a boolean: returns the side taken on this path
static bool branch(Z3_ast cond,u64 tagval=0){
	cond=S.simp(cond); int b=S.boolVal(cond); if(b>=0) return b;
	if(inPrefix()){ Dec d=gPrefix[gTrail.size()]; if(d.loc!=curLoc()) endPath("error","prefix misaligned"); gTrail.push_back(d); S.assume(d.taken?cond:S.Not(cond)); S.curValid=false; return d.taken; }
	ensureCur(); Z3_ast nc=S.Not(cond); double t0=now(); u32 loc=curLoc();
	int e=S.evalCur(cond); int rT=UNK,rF=UNK; Solver::Asg aT,aF;
	if(e==1) rT=SAT; else { rT=S.query({cond},S.lim.branchMs,&aT); S.qBranch.n++; }
	if(e==0) rF=SAT; else if(rT==UNSAT&&e!=1) rF=SAT; else { rF=S.query({nc},S.lim.branchMs,&aF); S.qBranch.n++; }
	S.qBranch.t+=now()-t0; if(rT==UNK||rF==UNK) gUnkBranch++;
	bool canT=rT!=UNSAT, canF=rF!=UNSAT; if(!canT&&!canF) endPath("infeasible","path condition unsatisfiable");
	bool take; if(canT&&canF){ take = (e==0)?false:true; std::vector<Dec> o=gTrail; o.push_back(Dec{(u8)!take,tagval,loc}); emit("N "+ser(o)); gTrail.push_back(Dec{(u8)take,tagval,loc}); } else take=canT; // a forced side is not a decision
	// forced: not recorded, but must be reproducible: record it as well so that prefixes stay aligned
	if(!(canT&&canF)) gTrail.push_back(Dec{(u8)take,tagval,loc});
	S.assume(take?cond:nc);
	if(take){ if(e!=1){ if(rT==SAT&&(S.curValid)) mergeCur(aT); else if(rT==SAT&&!S.curValid){ mergeCur(aT); } else S.curValid=false; } }
	else { if(e!=0){ if(rF==SAT) mergeCur(aF); else S.curValid=false; } }
	return take;
}
static Z3_ast toBV(const Val& v,unsigned w){ if(!v.s) return S.bvnum(v.c,w); if(S.isBool(v.s)) return S.k(Z3_mk_ite(S.c,v.s,S.bvnum(1,w),S.bvnum(0,w))); if(S.isReal(v.s)) endPath("unsupported","bits of a symbolic real"); return v.s; }
static Z3_ast toBool(const Val& v){ if(!v.s) return S.k(v.c&1?Z3_mk_true(S.c):Z3_mk_false(S.c)); if(S.isBool(v.s)) return v.s; return S.k(Z3_mk_eq(S.c,S.k(Z3_mk_extract(S.c,0,0,v.s)),S.bvnum(1,1))); }
static Z3_ast toReal(const Val& v,u8 k){ if(v.s){ if(!S.isReal(v.s)) endPath("unsupported","symbolic integer used as real"); return v.s; } double d=k==T_F32?asF(v):asD(v); if(!std::isfinite(d)) endPath("unsupported","non-finite constant in a real term"); return S.dbl(d); }
static Val fromAst(Z3_ast a,u8 k){ // fold numerals
	if(S.isBool(a)){ int b=S.boolVal(a); if(b>=0) return C(b); return Val{0,a}; }
	if(S.isBV(a)){ if(S.isNum(a)){ u64 v=0; if(Z3_get_numeral_uint64(S.c,a,&v)) return C(v); } return Val{0,a}; }
	return Val{0,a}; }
// enumerate the possible values of a symbolic bit-vector
static u64 concretize(Val v,unsigned w,const char* why){
	if(!v.s) return v.c;
	if(S.isReal(v.s)) endPath("unsupported",std::string("concretizing a real: ")+why);
	if(S.isBool(v.s)) return branch(v.s)?1:0;
	Z3_ast e=S.simp(v.s); u64 n; if(S.isNum(e)&&Z3_get_numeral_uint64(S.c,e,&n)) return n;
	{ auto vi=S.varOf.find(S.id(e)); if(vi!=S.varOf.end()&&S.vars[vi->second].bounded&&S.vars[vi->second].mentions==2){ // only its declared range constrains the variable: every value is feasible
		VarInfo& V=S.vars[vi->second]; i64 lo=V.ilo,hi=V.ihi; u64 val; u32 loc=curLoc();
		if(inPrefix()){ Dec d=gPrefix[gTrail.size()]; if(d.loc!=loc) endPath("error","prefix misaligned"); val=d.val; gTrail.push_back(d); }
		else { if(hi-lo>gMaxEnum) endPath("limit",std::string("too many values to enumerate: ")+why); val=(u64)lo; for(i64 x=hi;x>lo;x--){ std::vector<Dec> o=gTrail; o.push_back(Dec{1,(u64)x,loc}); emit("N "+ser(o)); } gTrail.push_back(Dec{1,val,loc}); }
		Z3_ast num=S.bvnum(val,64); S.assume(S.k(Z3_mk_eq(S.c,e,num))); S.cur[vi->second]=num; return val; } }
	for(int it=0;it<gMaxEnum;it++){
		u64 val=0;
		if(inPrefix()) val=gPrefix[gTrail.size()].val; else {
			Solver::Asg a; bool got=false;
			if(S.curValid){ bool all=true; for(int x:S.varsOf(e)) if(!S.cur.count(x)) all=false; if(all){ Z3_model m=S.curModel(); Z3_ast o; if(Z3_model_eval(S.c,m,e,true,&o)){ S.k(o); got=Z3_get_numeral_uint64(S.c,o,&val); } Z3_model_dec_ref(S.c,m); } }
			if(!got){ Z3_ast t=S.newVar("!conc"+std::to_string(S.vars.size()),'b',S.bvw(e),true); Z3_ast q=S.k(Z3_mk_eq(S.c,t,e)); int r=S.query({q},S.lim.branchMs,&a); S.qBranch.n++; if(r==UNSAT) endPath("infeasible","no value"); if(r!=SAT) endPath("unsupported",std::string("cannot enumerate a symbolic value: ")+why); int idx=S.varOf[S.id(t)]; Z3_get_numeral_uint64(S.c,a[idx],&val); }
		}
		if(branch(S.k(Z3_mk_eq(S.c,e,S.bvnum(val,S.bvw(e)))),val)) return val;
	}
	endPath("limit",std::string("too many values to enumerate: ")+why);
}
// integer part of a symbolic real by enumeration
static i64 concretizeFloor(Z3_ast x,const char* why){
	for(int it=0;it<gMaxEnum;it++){
		i64 val=0;
		if(inPrefix()) val=(i64)gPrefix[gTrail.size()].val; else {
			Solver::Asg a; bool got=false; double d=0;
			if(S.curValid){ bool all=true; for(int v:S.varsOf(x)) if(!S.cur.count(v)) all=false; if(all){ Z3_model m=S.curModel(); Z3_ast o; if(Z3_model_eval(S.c,m,x,true,&o)){ S.k(o); if(S.isNum(o)||Z3_is_algebraic_number(S.c,o)){ d=S.numDouble(o); got=true; } } Z3_model_dec_ref(S.c,m); } }
			if(!got){ Z3_ast t=S.newVar("!floor"+std::to_string(S.vars.size()),'r',0,true); int r=S.query({S.k(Z3_mk_eq(S.c,t,x))},S.lim.branchMs,&a); S.qBranch.n++; if(r==UNSAT) endPath("infeasible","no value"); if(r!=SAT) endPath("unsupported",std::string("cannot enumerate floor: ")+why); d=S.numDouble(a[S.varOf[S.id(t)]]); }
			val=(i64)std::floor(d);
		}
		Z3_ast lo=S.dbl((double)val),hi=S.dbl((double)(val+1));
		if(branch(S.And(S.k(Z3_mk_ge(S.c,x,lo)),S.k(Z3_mk_lt(S.c,x,hi))),(u64)val)) return val;
	}
	endPath("limit",std::string("too many integer parts: ")+why);
}
// ------------------------------------------------------------------ symbolic memory
struct Cell{ Z3_ast e; u8 size; };
static std::unordered_map<u64,Cell> cells;
static inline u8& sh(u64 a){ return M.shadow[a-ARENA]; }
static std::string hexs(u64 v){ char b[40]; snprintf(b,40,"0x%llx",(unsigned long long)v); return b; }
static std::string where();
static void memErr(const std::string& m);
static void checkAcc(u64 a,u64 n,bool wr){
	if(!inArena(a)){ if(a<65536) memErr(std::string(wr?"write":"read")+" through null pointer "+hexs(a)); return; } // native memory: not tracked
	Obj* o=M.find(a); if(!o){ memErr(std::string(wr?"write":"read")+" outside any object at "+hexs(a)); }
	if(!o->alive) memErr(std::string(wr?"write to":"read of")+" released memory");
	if(a<o->base||a+n>o->base+o->size) memErr(std::string(wr?"write":"read")+" out of bounds: offset "+std::to_string((i64)(a-o->base))+" size "+std::to_string(n)+" in object of "+std::to_string(o->size));
}
static bool anySym(u64 a,u64 n){ if(!inArena(a)) return false; const u8* p=M.shadow+(a-ARENA); for(u64 i=0;i<n;i++) if(p[i]) return true; return false; }
static Z3_ast cellByte(u64 a){ u8 k=sh(a); u64 st=a-(k-1); Cell& c=cells[st]; if(S.isReal(c.e)) endPath("unsupported","partial access to a symbolic real "+where()); if(S.isBool(c.e)) endPath("unsupported","partial bool"); unsigned i=k-1; if(c.size==1) return c.e; return S.k(Z3_mk_extract(S.c,i*8+7,i*8,c.e)); }
static void splitAround(u64 a,u64 n){ // cells overlapping the border of [a,a+n) are split into byte cells
	if(!inArena(a)) return;
	for(int side=0;side<2;side++){ u64 p= side==0?a:a+n; if(!inArena(p)) continue; u8 k=sh(p); if(k<=1) continue; if(side==0||true){ u64 st=p-(k-1); auto it=cells.find(st); if(it==cells.end()) continue; Cell c=it->second; if(S.isReal(c.e)){ // overwritten partially: only legal if the rest is overwritten too; keep simple
				endPath("unsupported","partial overwrite of a symbolic real "+where()); }
			std::vector<Z3_ast> bs; for(u8 i=0;i<c.size;i++) bs.push_back(sh(st+i)==i+1?S.k(Z3_mk_extract(S.c,i*8+7,i*8,c.e)):nullptr); cells.erase(it); for(u8 i=0;i<c.size;i++) if(bs[i]){ cells[st+i]=Cell{bs[i],1}; sh(st+i)=1; } } }
}
static void clearSym(u64 a,u64 n){ if(!anySym(a,n)&&!(inArena(a+n)&&sh(a+n)>1)) return; splitAround(a,n); u8* p=M.shadow+(a-ARENA); for(u64 i=0;i<n;i++) if(p[i]){ if(p[i]==1) cells.erase(a+i); p[i]=0; } }
static const u64 POISON=0x7ff4deadbeefbeefull;
static Val loadScalar(u64 a,const TI& t){
	unsigned n=t.bytes; checkAcc(a,n,false);
	if(!anySym(a,n)){ if(n>8) endPath("unsupported","wide load "+std::to_string(n)+" "+where()); u64 v=0; memcpy(&v,(void*)a,n); if(t.k==T_INT&&t.w<64) v&=((1ull<<t.w)-1); return C(v); }
	if(sh(a)==1){ auto it=cells.find(a); if(it!=cells.end()&&it->second.size==n){ bool all=true; for(unsigned i=0;i<n;i++) if(sh(a+i)!=i+1) all=false; if(all){ Z3_ast e=it->second.e; if((t.k==T_F64||t.k==T_F32)&&!S.isReal(e)) endPath("unsupported","symbolic integer reinterpreted as real "+where()); if(t.k==T_INT&&t.w==1&&S.isBV(e)) return fromAst(toBool(Val{0,e}),T_INT); return Val{0,e}; } } }
	if(t.k==T_F64||t.k==T_F32) endPath("unsupported","mixed real load "+where());
	Z3_ast r=nullptr; for(unsigned i=0;i<n;i++){ Z3_ast b= sh(a+i)?cellByte(a+i):S.bvnum(*(u8*)(a+i),8); r= r? S.k(Z3_mk_concat(S.c,b,r)):b; }
	r=S.simp(r); if(t.k==T_INT&&t.w<n*8) r=S.k(Z3_mk_extract(S.c,t.w-1,0,r)); return fromAst(r,t.k);
}
static void storeScalar(u64 a,const TI& t,Val v){
	unsigned n=t.bytes; checkAcc(a,n,true);
	if(!inArena(a)){ if(v.s) endPath("unsupported","symbolic store to native memory"); memcpy((void*)a,&v.c,n); return; }
	clearSym(a,n);
	if(!v.s){ if(n>8) endPath("unsupported","wide store"); memcpy((void*)a,&v.c,n); return; }
	Z3_ast e=v.s; if(S.isBool(e)) e=toBV(v,n*8); else if(S.isBV(e)&&S.bvw(e)<n*8) e=S.k(Z3_mk_zero_ext(S.c,n*8-S.bvw(e),e));
	memcpy((void*)a,&POISON,n>8?8:n); cells[a]=Cell{e,(u8)n}; for(unsigned i=0;i<n;i++) sh(a+i)=i+1;
}
static Val loadVal(u64 a,Type* t){ TI x=ti(t); if(x.k==T_AGG){ Agg* g=new Agg; for(unsigned i=0;i<aggN(t);i++) g->push_back(loadVal(a+aggOff(t,i),aggT(t,i))); return mkAgg(g);} if(x.k==T_F80){ checkAcc(a,10,false); long double ld=0; memcpy(&ld,(void*)a,10); return CD((double)ld);} return loadScalar(a,x); }
static void storeVal(u64 a,Type* t,Val v){ TI x=ti(t); if(x.k==T_AGG){ Agg* g=asAgg(v); for(unsigned i=0;i<aggN(t);i++) storeVal(a+aggOff(t,i),aggT(t,i),(*g)[i]); return;} if(x.k==T_F80){ checkAcc(a,16,true); clearSym(a,10); long double ld=asD(v); memcpy((void*)a,&ld,10); return;} storeScalar(a,x,v); }
static void symCopy(u64 d,u64 s,u64 n){ if(!n) return; checkAcc(s,n,false); checkAcc(d,n,true); if(d==s) return;
	struct C1{ u64 off; Cell c; }; std::vector<C1> cs; 
	if(anySym(s,n)){ // collect cells
		for(u64 i=0;i<n;){ u8 k=sh(s+i); if(!k){ i++; continue; } if(k==1){ auto it=cells.find(s+i); Cell c=it->second; bool full=i+c.size<=n; for(u8 j=0;full&&j<c.size;j++) if(sh(s+i+j)!=j+1) full=false; if(full){ cs.push_back({i,c}); i+=c.size; continue; } }
			cs.push_back({i,Cell{cellByte(s+i),1}}); i++; } }
	if(inArena(d)) clearSym(d,n); else if(!cs.empty()) endPath("unsupported","symbolic copy to native memory");
	memmove((void*)d,(void*)s,n);
	for(auto&c:cs){ cells[d+c.off]=c.c; for(u8 j=0;j<c.c.size;j++) sh(d+c.off+j)=j+1; }
}
// ------------------------------------------------------------------ decoded functions
struct DFunc; struct DInst;
typedef std::function<bool(DInst&,std::vector<Val>&,Val&)> Handler; // returns false if it pushed/unwound (pc already set)
struct DInst{ unsigned op; int32_t dst; const Instruction* I; std::vector<int32_t> ops; TI t; TI t0; u32 succ[2]; i64 off; std::vector<std::pair<int32_t,u64>> scaled; Handler* h=nullptr; Function* callee=nullptr; std::vector<u32> cases; };
struct Phi{ int32_t dst; std::vector<std::pair<u32,int32_t>> in; };
struct DFunc{ Function* F; bool decoded=false; std::vector<DInst> code; std::vector<u32> bbStart; std::vector<std::vector<Phi>> phis; std::vector<Val> consts; u32 nregs=0; long execs=0; bool known=false; u32 idx=0; };
static std::unordered_map<Function*,DFunc*> dfuncs; static std::vector<Function*> codeTab; static std::unordered_map<Function*,u64> fnAddr; static std::unordered_map<const GlobalVariable*,u64> gvAddr;
static std::unordered_map<std::string,Handler> handlers; static std::vector<std::pair<std::string,Handler>> prefixHandlers;
struct Frame{ DFunc* f; std::vector<Val> r; u32 pc; u32 bb; u64 mark; int32_t retDst; const Instruction* call; std::vector<Val> va; };
static std::vector<Frame> st; static long nInstr=0; static size_t baseDepth=0;
static u32 curLoc(){ if(st.empty()) return 0; return st.back().f->idx*1000003u+st.back().pc; }
static std::string fnName(Function* f){ return demangle(f->getName().str()); }
static std::string where(){ std::string s; int n=0; for(int i=(int)st.size()-1;i>=0&&n<6;i--,n++){ std::string nm=fnName(st[i].f->F); if(nm.size()>90) nm=nm.substr(0,90); s+=(n?" < ":"in ")+nm; } return s; }
static std::unordered_set<std::string> unresolvedUsed;
static u64 addrOfFn(Function* f){
	auto it=fnAddr.find(f); if(it!=fnAddr.end()) return it->second; u64 a;
	std::string n=f->getName().str();
	if(f->isDeclaration()&&!handlers.count(n)){ void* p=dlsym(RTLD_DEFAULT,n.c_str()); if(p) return fnAddr[f]=(u64)p; if(f->hasExternalWeakLinkage()) return fnAddr[f]=0; }
	a=CODE+16*codeTab.size(); codeTab.push_back(f); return fnAddr[f]=a;
}
static u64 addrOfGV(const GlobalVariable* g){ auto it=gvAddr.find(g); if(it!=gvAddr.end()) return it->second; 
	u64 a=0; if(g->isDeclaration()){ void* p=dlsym(RTLD_DEFAULT,g->getName().str().c_str()); if(p) a=(u64)p; else if(g->hasExternalWeakLinkage()) a=0; else { a=M.allocHeap(4096,OK_GLOBAL); unresolvedUsed.insert(g->getName().str()); } }
	else { u64 sz=DL->getTypeAllocSize(g->getValueType()); a=M.allocHeap(sz?sz:1,OK_GLOBAL,g->getAlign()?g->getAlign()->value():16); }
	return gvAddr[g]=a; }
static Val evalConst(const Constant* c);
static Val constAgg(const Constant* c,Type* t){ Agg* g=new Agg; for(unsigned i=0;i<aggN(t);i++){ const Constant* e=c->getAggregateElement(i); g->push_back(evalConst(e)); } return mkAgg(g); }
static Val evalConst(const Constant* c){
	Type* t=c->getType(); TI x=ti(t);
	if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)){ if(x.k==T_AGG){ Agg* g=new Agg; for(unsigned i=0;i<aggN(t);i++){ Type* et=aggT(t,i); g->push_back(evalConst(isa<UndefValue>(c)?(Constant*)UndefValue::get(et):Constant::getNullValue(et))); } return mkAgg(g);} return C(0); }
	if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64){ u64* p=(u64*)aligned_alloc(16,16); p[0]=i->getValue().getRawData()[0]; p[1]=i->getValue().getRawData()[1]; return C((u64)p); } return C(i->getZExtValue()); }
	if(auto*f=dyn_cast<ConstantFP>(c)){ if(x.k==T_F32) return CF(f->getValueAPF().convertToFloat()); if(x.k==T_F80){ bool l; APFloat a=f->getValueAPF(); a.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); return CD(a.convertToDouble()); } return CD(f->getValueAPF().convertToDouble()); }
	if(auto*g=dyn_cast<GlobalVariable>(c)) return C(addrOfGV(g));
	if(auto*f=dyn_cast<Function>(c)) return C(addrOfFn((Function*)f));
	if(auto*a=dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
	if(isa<ConstantDataSequential>(c)||isa<ConstantAggregate>(c)) return constAgg(c,t);
	if(auto*e=dyn_cast<ConstantExpr>(c)){
		switch(e->getOpcode()){
		case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: return evalConst(e->getOperand(0));
		case Instruction::PtrToInt: case Instruction::Trunc: { Val v=evalConst(e->getOperand(0)); if(x.w<64) v.c&=((1ull<<x.w)-1); return v; }
		case Instruction::GetElementPtr: { APInt off(64,0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL,off); Val v=evalConst(e->getOperand(0)); v.c+=off.getSExtValue(); return v; }
		case Instruction::Add: { Val a=evalConst(e->getOperand(0)),b=evalConst(e->getOperand(1)); return C(a.c+b.c); }
		case Instruction::Sub: { Val a=evalConst(e->getOperand(0)),b=evalConst(e->getOperand(1)); return C(a.c-b.c); }
		case Instruction::And: { Val a=evalConst(e->getOperand(0)),b=evalConst(e->getOperand(1)); return C(a.c&b.c); }
		case Instruction::ICmp: { Val a=evalConst(e->getOperand(0)),b=evalConst(e->getOperand(1)); bool eq=a.c==b.c; unsigned p=cast<ConstantExpr>(e)->getPredicate(); return C(p==CmpInst::ICMP_EQ?eq:p==CmpInst::ICMP_NE?!eq:0); }
		default: { std::string s; raw_string_ostream o(s); c->print(o); endPath("unsupported","constant expression "+s); }
		}
	}
	if(isa<BlockAddress>(c)||isa<ConstantTokenNone>(c)) return C(0);
	std::string s; raw_string_ostream o(s); c->print(o); endPath("unsupported","constant "+s);
}
static void initGlobals(){
	for(auto&g:Mod->globals()) if(!g.isDeclaration()) addrOfGV(&g);
	for(auto&g:Mod->globals()) if(!g.isDeclaration()&&g.hasInitializer()&&g.getName()!="llvm.global_ctors"&&g.getName()!="llvm.used"&&g.getName()!="llvm.compiler.used"){
		const Constant* c=g.getInitializer(); u64 a=addrOfGV(&g);
		if(c->isNullValue()) continue;
		if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy((void*)a,r.data(),r.size()); continue; }
		try{ storeVal(a,g.getValueType(),evalConst(c)); }catch(PathEnd& e){ fprintf(stderr,"global %s: %s\n",g.getName().str().c_str(),e.msg.c_str()); }
	}
}
static DFunc* dfunc(Function* F){ auto it=dfuncs.find(F); if(it!=dfuncs.end()) return it->second; static std::unordered_map<Function*,u32> ix; if(ix.empty()){ u32 k=1; for(auto&f:*Mod) ix[&f]=k++; } DFunc* d=new DFunc; d->F=F; d->idx=ix[F]; dfuncs[F]=d; return d; }
static Handler* findHandler(const std::string& n){ auto it=handlers.find(n); if(it!=handlers.end()) return &it->second; for(auto&p:prefixHandlers) if(n.compare(0,p.first.size(),p.first)==0) return &p.second; return nullptr; }
static void decode(DFunc* d){
	Function* F=d->F; d->decoded=true; std::unordered_map<const Value*,int32_t> reg; std::unordered_map<const BasicBlock*,u32> bbi; u32 n=0;
	for(auto&a:F->args()) reg[&a]=n++;
	u32 bi=0; for(auto&bb:*F){ bbi[&bb]=bi++; for(auto&I:bb) if(!I.getType()->isVoidTy()) reg[&I]=n++; }
	d->nregs=n; d->bbStart.resize(bi); d->phis.resize(bi);
	std::unordered_map<const Constant*,int32_t> ck;
	auto opnd=[&](const Value* v)->int32_t{ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)){ auto k=ck.find(c); if(k!=ck.end()) return k->second; Val x=evalConst(c); d->consts.push_back(x); int32_t id=-(int32_t)d->consts.size(); ck[c]=id; return id; } d->consts.push_back(C(0)); return -(int32_t)d->consts.size(); };
	for(auto&bb:*F){ u32 b=bbi[&bb]; d->bbStart[b]=d->code.size();
		for(auto&I:bb){
			if(auto*p=dyn_cast<PHINode>(&I)){ Phi ph; ph.dst=reg[p]; for(unsigned i=0;i<p->getNumIncomingValues();i++) ph.in.push_back({bbi[p->getIncomingBlock(i)],opnd(p->getIncomingValue(i))}); d->phis[b].push_back(ph); continue; }
			if(isa<DbgInfoIntrinsic>(&I)) continue;
			DInst x; x.op=I.getOpcode(); x.I=&I; x.dst=I.getType()->isVoidTy()?-1:reg[&I]; x.t=ti(I.getType()); x.t0=I.getNumOperands()?ti(I.getOperand(0)->getType()):TI{}; x.off=0; x.succ[0]=x.succ[1]=0;
			if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ x.ops.push_back(opnd(br->getCondition())); x.succ[0]=bbi[br->getSuccessor(0)]; x.succ[1]=bbi[br->getSuccessor(1)]; } else x.succ[0]=bbi[br->getSuccessor(0)]; }
			else if(auto*sw=dyn_cast<SwitchInst>(&I)){ x.ops.push_back(opnd(sw->getCondition())); x.succ[0]=bbi[sw->getDefaultDest()]; for(auto&cs:sw->cases()){ x.scaled.push_back({(int32_t)bbi[cs.getCaseSuccessor()],cs.getCaseValue()->getZExtValue()}); } }
			else if(auto*gep=dyn_cast<GetElementPtrInst>(&I)){ x.ops.push_back(opnd(gep->getPointerOperand())); i64 off=0; for(gep_type_iterator gi=gep_type_begin(gep),ge=gep_type_end(gep);gi!=ge;++gi){ Value* idx=gi.getOperand(); if(StructType* sty=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; } u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(idx)){ off+=ci->getSExtValue()*(i64)sz; continue; } x.scaled.push_back({opnd(idx),sz}); x.cases.push_back(idx->getType()->getIntegerBitWidth()); } x.off=off; }
			else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) x.ops.push_back(isa<MetadataAsValue>(a.get())?opnd(ConstantInt::get(Type::getInt32Ty(Mod->getContext()),0)):opnd(a.get())); Function* cf=cb->getCalledFunction(); if(!cf){ Value* cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject(); cf=dyn_cast<Function>(cv); } x.callee=cf; if(!cf) x.ops.push_back(isa<InlineAsm>(cb->getCalledOperand())?opnd(ConstantInt::get(Type::getInt32Ty(Mod->getContext()),0)):opnd(cb->getCalledOperand())); if(cf){ x.h=findHandler(cf->getName().str()); } if(auto*iv=dyn_cast<InvokeInst>(&I)){ x.succ[0]=bbi[iv->getNormalDest()]; x.succ[1]=bbi[iv->getUnwindDest()]; } }
			else for(auto&o:I.operands()) if(!isa<BasicBlock>(o.get())) x.ops.push_back(opnd(o.get()));
			d->code.push_back(std::move(x));
		} }
}
// ------------------------------------------------------------------ arithmetic
static inline u64 msk(u64 v,unsigned w){ return w>=64?v:v&((1ull<<w)-1); }
typedef unsigned __int128 u128; static inline u128 W(const Val& v){ return *(u128*)v.c; } static inline Val mkW(u128 x){ u128* p=(u128*)aligned_alloc(16,16); *p=x; return Val{(u64)p,nullptr}; }
static inline i64 sx(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v=msk(v,w); return (i64)((v^m)-m); }
static Val ibin(unsigned op,unsigned w,Val a,Val b){
	if(!a.s&&!b.s){ u64 x=msk(a.c,w),y=msk(b.c,w),r=0; switch(op){
		case Instruction::Add: r=x+y;break; case Instruction::Sub: r=x-y;break; case Instruction::Mul: r=x*y;break;
		case Instruction::UDiv: if(!y) endPath("violation-mem","integer division by zero "+where()); r=x/y;break; case Instruction::URem: if(!y) endPath("violation-mem","integer division by zero "+where()); r=x%y;break;
		case Instruction::SDiv: if(!y) endPath("violation-mem","integer division by zero "+where()); r=sx(x,w)/sx(y,w);break; case Instruction::SRem: if(!y) endPath("violation-mem","integer division by zero "+where()); r=sx(x,w)%sx(y,w);break;
		case Instruction::And: r=x&y;break; case Instruction::Or: r=x|y;break; case Instruction::Xor: r=x^y;break;
		case Instruction::Shl: r=y>=w?0:x<<y;break; case Instruction::LShr: r=y>=w?0:x>>y;break; case Instruction::AShr: r=y>=w?(sx(x,w)<0?~0ull:0):(u64)(sx(x,w)>>y);break; }
		return C(msk(r,w)); }
	if(a.s&&S.isReal(a.s)&&!b.s){ // sign-bit tricks on doubles
		if(op==Instruction::And&&b.c==0x7fffffffffffffffull){ Z3_ast z=S.dbl(0); Val v{0,a.s}; if(branch(S.k(Z3_mk_ge(S.c,a.s,z)))) return v; return Val{0,S.k(Z3_mk_unary_minus(S.c,a.s))}; }
		if(op==Instruction::LShr&&b.c==63){ Z3_ast z=S.dbl(0); return C(branch(S.k(Z3_mk_lt(S.c,a.s,z)))?1:0); }
		if(op==Instruction::Xor&&b.c==0x8000000000000000ull) return Val{0,S.k(Z3_mk_unary_minus(S.c,a.s))};
		if(op==Instruction::And&&b.c==0x8000000000000000ull){ Z3_ast z=S.dbl(0); return C(branch(S.k(Z3_mk_lt(S.c,a.s,z)))?0x8000000000000000ull:0); }
	}
	if(w==1){ Z3_ast x=toBool(a),y=toBool(b),r; switch(op){ case Instruction::And: r=S.And(x,y);break; case Instruction::Or: r=S.Or(x,y);break; case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r=S.k(Z3_mk_xor(S.c,x,y));break; case Instruction::Mul: r=S.And(x,y);break; default: endPath("unsupported","i1 op"); } return fromAst(S.simp(r),T_INT); }
	Z3_ast x=toBV(a,w),y=toBV(b,w),r; Z3_context c=S.c; switch(op){
		case Instruction::Add: r=Z3_mk_bvadd(c,x,y);break; case Instruction::Sub: r=Z3_mk_bvsub(c,x,y);break; case Instruction::Mul: r=Z3_mk_bvmul(c,x,y);break;
		case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { if(b.s){ if(branch(S.k(Z3_mk_eq(c,y,S.bvnum(0,w))))) endPath("violation-mem","integer division by zero "+where()); } else if(!msk(b.c,w)) endPath("violation-mem","integer division by zero "+where()); r= op==Instruction::UDiv?Z3_mk_bvudiv(c,x,y): op==Instruction::SDiv?Z3_mk_bvsdiv(c,x,y): op==Instruction::URem?Z3_mk_bvurem(c,x,y):Z3_mk_bvsrem(c,x,y); break; }
		case Instruction::And: r=Z3_mk_bvand(c,x,y);break; case Instruction::Or: r=Z3_mk_bvor(c,x,y);break; case Instruction::Xor: r=Z3_mk_bvxor(c,x,y);break;
		case Instruction::Shl: r=Z3_mk_bvshl(c,x,y);break; case Instruction::LShr: r=Z3_mk_bvlshr(c,x,y);break; case Instruction::AShr: r=Z3_mk_bvashr(c,x,y);break; default: endPath("unsupported","int op"); }
	return fromAst(S.simp(S.k(r)),T_INT);
}
static Val icmp(unsigned p,unsigned w,Val a,Val b){
	if(w>64){ u128 x=W(a),y=W(b); switch(p){ case CmpInst::ICMP_EQ:return C(x==y); case CmpInst::ICMP_NE:return C(x!=y); case CmpInst::ICMP_UGT:return C(x>y); case CmpInst::ICMP_UGE:return C(x>=y); case CmpInst::ICMP_ULT:return C(x<y); case CmpInst::ICMP_ULE:return C(x<=y); default: endPath("unsupported","i128 comparison"); } }
	if(!a.s&&!b.s){ u64 x=msk(a.c,w),y=msk(b.c,w); i64 sxx=sx(x,w),syy=sx(y,w); bool r=false; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=sxx>syy;break; case CmpInst::ICMP_SGE:r=sxx>=syy;break; case CmpInst::ICMP_SLT:r=sxx<syy;break; case CmpInst::ICMP_SLE:r=sxx<=syy;break; } return C(r); }
	Z3_context c=S.c;
	if(w==1){ Z3_ast x=toBool(a),y=toBool(b); if(p==CmpInst::ICMP_EQ) return fromAst(S.simp(S.k(Z3_mk_eq(c,x,y))),T_INT); if(p==CmpInst::ICMP_NE) return fromAst(S.simp(S.k(Z3_mk_xor(c,x,y))),T_INT); x=toBV(a,1); y=toBV(b,1); a=Val{0,x}; b=Val{0,y}; }
	if((a.s&&S.isReal(a.s))){ if(!b.s&&b.c==0&&p==CmpInst::ICMP_SLT) return fromAst(S.k(Z3_mk_lt(c,a.s,S.dbl(0))),T_INT); if(!b.s&&b.c==~0ull&&p==CmpInst::ICMP_SGT) return fromAst(S.k(Z3_mk_ge(c,a.s,S.dbl(0))),T_INT); }
	Z3_ast x=toBV(a,w),y=toBV(b,w),r; switch(p){ case CmpInst::ICMP_EQ:r=Z3_mk_eq(c,x,y);break; case CmpInst::ICMP_NE:r=Z3_mk_not(c,S.k(Z3_mk_eq(c,x,y)));break; case CmpInst::ICMP_UGT:r=Z3_mk_bvugt(c,x,y);break; case CmpInst::ICMP_UGE:r=Z3_mk_bvuge(c,x,y);break; case CmpInst::ICMP_ULT:r=Z3_mk_bvult(c,x,y);break; case CmpInst::ICMP_ULE:r=Z3_mk_bvule(c,x,y);break; case CmpInst::ICMP_SGT:r=Z3_mk_bvsgt(c,x,y);break; case CmpInst::ICMP_SGE:r=Z3_mk_bvsge(c,x,y);break; case CmpInst::ICMP_SLT:r=Z3_mk_bvslt(c,x,y);break; default:r=Z3_mk_bvsle(c,x,y);break; }
	return fromAst(S.simp(S.k(r)),T_INT);
}
static double cd(const Val& v,u8 k){ return k==T_F32?asF(v):asD(v); }
static Val mkd(double d,u8 k){ return k==T_F32?CF((float)d):CD(d); }
static int signOf(Z3_ast x){ Z3_ast z=S.dbl(0); if(branch(S.k(Z3_mk_gt(S.c,x,z)))) return 1; if(branch(S.k(Z3_mk_lt(S.c,x,z)))) return -1; return 0; }
static Val realVal(Z3_ast r){ // fold numerals that are exactly representable
	if(S.isNum(r)){ mpq_class q; if(S.numeral(r,q)){ double d=q.get_d(); if(mpq_class(d)==q) return CD(d); } } return Val{0,r}; }
static bool gSimpReal=true;
static void assumeNZ(Z3_ast y);
static Val fbin(unsigned op,u8 k,Val a,Val b){
	if(!a.s&&!b.s){ if(k==T_F32){ float x=asF(a),y=asF(b),r=0; switch(op){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmodf(x,y);break;} return CF(r);} double x=asD(a),y=asD(b),r=0; switch(op){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmod(x,y);break;} return CD(r); }
	if(!a.s||!b.s){ double d=a.s?cd(b,k):cd(a,k); bool left=!a.s; Z3_ast x=a.s?a.s:b.s;
		if(std::isnan(d)) return mkd(d,k);
		if(std::isinf(d)) switch(op){ case Instruction::FAdd: return mkd(d,k); case Instruction::FSub: return mkd(left?d:-d,k); case Instruction::FMul: { int s=signOf(x); return mkd(s==0?NAN:s*d,k);} case Instruction::FDiv: if(!left) return mkd(0,k); else { int s=signOf(x); return mkd(s==0?NAN:s*d,k);} default: endPath("unsupported","frem inf"); }
		if(d==0) switch(op){ case Instruction::FAdd: return Val{0,x}; case Instruction::FSub: if(!left) return Val{0,x}; break; case Instruction::FMul: return mkd(0,k); case Instruction::FDiv: if(left){ assumeNZ(x); return mkd(0,k);} else { int s=signOf(x); return mkd(s==0?NAN:s*(std::signbit(d)?-HUGE_VAL:HUGE_VAL),k);} }
		if(d==1&&op==Instruction::FMul) return Val{0,x}; if(d==1&&op==Instruction::FDiv&&!left) return Val{0,x};
	}
	Z3_ast x=toReal(a,k),y=toReal(b,k),r; Z3_context c=S.c;
	switch(op){ case Instruction::FAdd: r=S.add(x,y);break; case Instruction::FSub: if(x==y) return mkd(0,k); r=S.sub(x,y);break; case Instruction::FMul: r=S.mul(x,y);break;
	case Instruction::FDiv: if(b.s){ assumeNZ(y); if(x==y) return mkd(1,k); r=S.k(Z3_mk_div(c,x,y)); } else { mpq_class q(cd(b,k)); q=1/q; Z3_ast inv=S.k(Z3_mk_numeral(c,q.get_str().c_str(),S.R)); r=S.mul(inv,x); } break;
	case Instruction::FRem: { // C fmod: enumerate the quotient
		assumeNZ(y); Z3_ast q=S.k(Z3_mk_div(c,x,y)); i64 f=concretizeFloor(q,"fmod"); i64 t=f; if(f<0){ /* trunc toward zero */ if(!branch(S.k(Z3_mk_eq(c,q,S.dbl((double)f))))) t=f+1; } r=S.sub(x,S.mul(S.dbl((double)t),y)); break; }
	default: endPath("unsupported","float op"); }
	if(gSimpReal) r=S.simp(r); Val v=realVal(r); if(!v.s&&k==T_F32) v=CF((float)asD(v)); return v;
}
static void assumeNZ(Z3_ast y){ Z3_ast z=S.dbl(0); Z3_ast nz=S.simp(S.Not(S.k(Z3_mk_eq(S.c,y,z)))); int b=S.boolVal(nz); if(b==1) return; if(b==0) endPath("outside","division by zero"); for(Z3_ast p:S.pc) if(S.id(p)==S.id(nz)) return;
	gDiv0++; if(!inPrefix()){ int e=S.evalCur(nz); if(e!=1){ Solver::Asg a; int r=S.query({nz},S.lim.branchMs,&a); if(r==UNSAT) endPath("outside","division by zero"); if(r==SAT&&S.curValid) mergeCur(a); else S.curValid=false; } }
	S.assume(nz); }
static Val fcmp(unsigned p,u8 k,Val a,Val b){
	if(!a.s&&!b.s){ double x=cd(a,k),y=cd(b,k); bool un=std::isnan(x)||std::isnan(y); bool r=false; switch(p){ case CmpInst::FCMP_FALSE:r=false;break; case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; default:r=true; } return C(r); }
	if(p==CmpInst::FCMP_FALSE) return C(0); if(p==CmpInst::FCMP_TRUE) return C(1);
	bool unPred=CmpInst::isUnordered((CmpInst::Predicate)p);
	if(!a.s||!b.s){ double d=a.s?cd(b,k):cd(a,k); if(std::isnan(d)) return C(unPred); if(p==CmpInst::FCMP_ORD) return C(1); if(p==CmpInst::FCMP_UNO) return C(0);
		if(std::isinf(d)){ // compare a finite real with an infinity
			bool symLess=(a.s&&d>0)||(!a.s&&d<0); /* symbolic side vs infinity: is first operand < second? */ bool firstLess= a.s? d>0 : d<0; (void)symLess; switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return C(0); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return C(1); case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: return C(firstLess); default: return C(!firstLess); } } }
	if(p==CmpInst::FCMP_ORD) return C(1); if(p==CmpInst::FCMP_UNO) return C(0);
	Z3_ast x=toReal(a,k),y=toReal(b,k),r; Z3_context c=S.c;
	switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r=Z3_mk_eq(c,x,y);break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r=Z3_mk_gt(c,x,y);break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r=Z3_mk_ge(c,x,y);break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r=Z3_mk_lt(c,x,y);break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r=Z3_mk_le(c,x,y);break; default: r=Z3_mk_not(c,S.k(Z3_mk_eq(c,x,y))); }
	return fromAst(S.simp(S.k(r)),T_INT);
}
static Val selectv(Val cnd,Val a,Val b,const TI& t){
	if(!cnd.s) return cnd.c&1?a:b;
	if(a.s==b.s&&a.c==b.c) return a;
	if(t.k==T_AGG||t.k==T_PTR) return branch(toBool(cnd))?a:b;
	bool real=t.k==T_F64||t.k==T_F32||(a.s&&S.isReal(a.s))||(b.s&&S.isReal(b.s));
	if(real){ bool fin=true; if(!a.s&&!std::isfinite(cd(a,t.k))) fin=false; if(!b.s&&!std::isfinite(cd(b,t.k))) fin=false; if(gSelectFork||!fin) return branch(toBool(cnd))?a:b; return Val{0,S.simp(S.k(Z3_mk_ite(S.c,toBool(cnd),toReal(a,t.k),toReal(b,t.k))))}; }
	if(t.w==1) return fromAst(S.simp(S.k(Z3_mk_ite(S.c,toBool(cnd),toBool(a),toBool(b)))),T_INT);
	return fromAst(S.simp(S.k(Z3_mk_ite(S.c,toBool(cnd),toBV(a,t.w),toBV(b,t.w)))),T_INT);
}
static Val castv(unsigned op,Val v,TI f,TI t){
	if(t.k==T_INT&&t.w>64&&f.k==T_INT&&f.w<=64){ u64 x=concretize(v,f.w,"wide integer"); return mkW(op==Instruction::SExt?(u128)(__int128)sx(x,f.w):(u128)msk(x,f.w)); }
	if(f.k==T_INT&&f.w>64&&t.k==T_INT&&t.w<=64) return C(msk((u64)W(v),t.w));
	if(t.k==T_AGG||f.k==T_AGG){ if(op==Instruction::BitCast){ // via memory
			u64 mark=M.stackTop; u64 a=M.allocStack(std::max(f.bytes,t.bytes)); storeVal(a,f.t,v); Val r=loadVal(a,t.t); M.popStack(mark); return r; }
		Agg* g=new Agg; for(unsigned i=0;i<asAgg(v)->size();i++) g->push_back(castv(op,(*asAgg(v))[i],ti(aggT(f.t,i)),ti(aggT(t.t,i)))); return mkAgg(g); }
	Z3_context c=S.c;
	switch(op){
	case Instruction::Trunc: if(!v.s) return C(msk(v.c,t.w)); if(t.w==1) return fromAst(S.simp(toBool(v)),T_INT); return fromAst(S.simp(S.k(Z3_mk_extract(c,t.w-1,0,toBV(v,f.w)))),T_INT);
	case Instruction::ZExt: if(!v.s) return C(msk(v.c,f.w)); if(S.isBool(v.s)) return Val{0,toBV(v,t.w)}; return fromAst(S.simp(S.k(Z3_mk_zero_ext(c,t.w-f.w,v.s))),T_INT);
	case Instruction::SExt: if(!v.s) return C(msk((u64)sx(v.c,f.w),t.w)); if(S.isBool(v.s)) return Val{0,S.k(Z3_mk_ite(c,v.s,S.bvnum(~0ull,t.w),S.bvnum(0,t.w)))}; return fromAst(S.simp(S.k(Z3_mk_sign_ext(c,t.w-f.w,v.s))),T_INT);
	case Instruction::PtrToInt: case Instruction::IntToPtr: if(!v.s) return C(msk(v.c,std::min(f.w,t.w))); if(f.w==t.w) return v; if(t.w<f.w) return Val{0,S.k(Z3_mk_extract(c,t.w-1,0,v.s))}; return Val{0,S.k(Z3_mk_zero_ext(c,t.w-f.w,v.s))};
	case Instruction::BitCast: if(v.s&&(t.k==T_F64||t.k==T_F32)&&!S.isReal(v.s)) endPath("unsupported","symbolic bits to real"); return v;
	case Instruction::FPExt: if(v.s) return v; if(f.k==T_F32) return CD(asF(v)); return v;
	case Instruction::FPTrunc: if(v.s) return v; if(t.k==T_F32) return CF((float)asD(v)); return v;
	case Instruction::SIToFP: case Instruction::UIToFP: { if(v.s&&S.isBool(v.s)){ double one= op==Instruction::SIToFP?-1:1; return Val{0,S.k(Z3_mk_ite(c,v.s,S.dbl(one),S.dbl(0)))}; } u64 x=concretize(v,f.w,"int to double"); double d= op==Instruction::SIToFP?(double)sx(x,f.w):(double)msk(x,f.w); return mkd(d,t.k==T_F80?T_F64:t.k); }
	case Instruction::FPToSI: case Instruction::FPToUI: { if(!v.s){ double d=cd(v,f.k==T_F80?T_F64:f.k); if(!(fabs(d)<9.2e18)){ if(op==Instruction::FPToUI&&d>0&&d<1.8e19) return C((u64)d); return C(msk(0x8000000000000000ull,t.w)); } return C(msk((u64)(i64)d,t.w)); } i64 fl=concretizeFloor(v.s,"double to int"); i64 r=fl; if(fl<0){ if(!branch(S.k(Z3_mk_eq(c,v.s,S.dbl((double)fl))))) r=fl+1; } return C(msk((u64)r,t.w)); }
	} endPath("unsupported","cast"); }
// ------------------------------------------------------------------ reporting
static std::set<std::string> gReported;
static std::string fmtInputs(Solver::Asg& a){ std::string s="["; bool first=true; for(size_t i=0;i<S.vars.size();i++){ auto&v=S.vars[i]; if(v.aux) continue; if(!first) s+=","; first=false; auto it=a.find(i); std::string val; char b[64]; if(v.kind=='r'){ double d=it==a.end()?0:S.numDouble(it->second); snprintf(b,64,"%.17g",d); val=b; } else if(v.kind=='B'){ val= it!=a.end()&&S.boolVal(it->second)==1?"1":"0"; } else { u64 n=0; if(it!=a.end()) Z3_get_numeral_uint64(S.c,it->second,&n); snprintf(b,64,"%lld",(long long)sx(n,v.width)); val=b; } s+="["+jstr(v.name)+",\""+v.kind+"\",\""+val+"\"]"; } return s+"]"; }
// model of path condition + extra, with inputs rounded to short doubles as far as the solver agrees
static bool niceModel(const std::vector<Z3_ast>& extra,Solver::Asg& out){
	Solver::Asg base; if(!fullModel(extra,S.lim.assertMs,base)) return false; out=base; double t0=now();
	std::vector<Z3_ast> ex=extra; std::vector<Z3_ast> bnd; 
	for(double B:{16.0,1000.0}){ bnd.clear(); for(auto&v:S.vars) if(!v.aux&&v.kind=='r'){ bnd.push_back(S.k(Z3_mk_le(S.c,v.a,S.dbl(B)))); bnd.push_back(S.k(Z3_mk_ge(S.c,v.a,S.dbl(-B)))); } std::vector<Z3_ast> e2=ex; e2.insert(e2.end(),bnd.begin(),bnd.end()); Solver::Asg a; if(fullModel(e2,4000,a)){ out=a; ex=e2; break; } }
	for(size_t i=0;i<S.vars.size()&&now()-t0<25;i++){ auto&v=S.vars[i]; if(v.aux||v.kind!='r') continue; auto it=out.find(i); if(it==out.end()) continue; double d=S.numDouble(it->second); double c1=std::round(d*64)/64;
		for(double cnd:{c1,d}){ std::vector<Z3_ast> e2=ex; e2.push_back(S.k(Z3_mk_eq(S.c,v.a,S.dbl(cnd)))); Solver::Asg a; if(fullModel(e2,1500,a)){ for(auto&p:a) out[p.first]=p.second; ex=e2; break; } } }
	return true; }
static void reportViolation(const std::string& label,const std::string& kind,const std::vector<Z3_ast>& extra,const std::string& detail){
	std::string key=label+"|"+kind; if(gReported.count(key)) return; gReported.insert(key);
	Solver::Asg a; bool ok=true; if(S.c) ok=niceModel(extra,a); 
	emit("V {\"label\":"+jstr(label)+",\"kind\":"+jstr(kind)+",\"model\":"+(ok?"true":"false")+",\"detail\":"+jstr(detail)+",\"where\":"+jstr(where())+",\"inputs\":"+(S.c?fmtInputs(a):"[]")+"}"); }
static void memErr(const std::string& m){ if(!gSymbolicPhase) endPath("memory",m+" "+where()); reportViolation("memory-safety","mem",{},m); endPath("memory",m+" "+where()); }
static void assertRes(const std::string& label,const char* res,double t,const std::string& strat){ char b[64]; snprintf(b,64,"%.4f",t); emit("A {\"label\":"+jstr(label)+",\"res\":\""+res+"\",\"t\":"+b+",\"by\":"+jstr(strat)+"}"); }
static bool polyZero(Z3_ast d){ return PE->zero(d); }
static void checkClaim(Z3_ast claim,const std::string& label,std::vector<Z3_ast> margins){
	if(inPrefix()) return; double t0=now(); Z3_ast neg=S.simp(S.Not(claim)); int b=S.boolVal(neg);
	if(b==0){ assertRes(label,"unsat",now()-t0,"simplify"); return; }
	Solver::Asg a; int r; std::string strat; long q0=S.qAssert.n; (void)q0;
	if(margins.empty()){ r=S.query({neg},S.lim.assertMs,&a); strat=S.lastStrategy; S.qAssert.n++; S.qAssert.t+=now()-t0; if(r==SAT) reportViolation(label,"assert",{neg},"assertion can be false"); assertRes(label,r==UNSAT?"unsat":r==SAT?"sat":"unknown",now()-t0,strat); return; }
	r=S.query({neg},S.lim.assertMs,&a); strat=S.lastStrategy; S.qAssert.n++;
	if(r==UNSAT){ S.qAssert.t+=now()-t0; assertRes(label,"unsat",now()-t0,strat); return; }
	int worst=UNSAT; for(Z3_ast m:margins){ Z3_ast ms=S.simp(m); int rr; Solver::Asg a2; if(S.boolVal(ms)==0) rr=UNSAT; else { rr=S.query({ms},S.lim.assertMs,&a2); S.qAssert.n++; strat=S.lastStrategy; } if(rr==SAT){ reportViolation(label,"assert",{ms},"values differ"); worst=SAT; break; } if(rr==UNK) worst=UNK; }
	S.qAssert.t+=now()-t0; assertRes(label,worst==UNSAT?"unsat":worst==SAT?"sat":"unknown",now()-t0,strat+(worst==UNSAT?"+tol":"")); }
// ------------------------------------------------------------------ symbolic math functions
static std::map<std::pair<std::string,unsigned>,Val> mathMemo;
static Val auxReal(const char* base){ return Val{0,S.newVar("!"+std::string(base)+std::to_string(S.vars.size()),'r',0,true)}; }
static void define(Z3_ast f,Z3_ast){ // definitional constraint for a fresh variable: extend the current model when possible
	S.assume(S.simp(f)); }
static void assumeChecked(Z3_ast f,const char* why,long& counter){ f=S.simp(f); int b=S.boolVal(f); if(b==1) return; if(b==0) endPath("outside",why); counter++; if(!inPrefix()){ int e=S.evalCur(f); if(e!=1){ Solver::Asg a; int r=S.query({f},S.lim.branchMs,&a); if(r==UNSAT) endPath("outside",why); if(r==SAT&&S.curValid) mergeCur(a); else S.curValid=false; } } S.assume(f); }
static bool perfectSquare(const mpq_class& q,mpq_class& r){ if(q<0) return false; mpz_class n=q.get_num(),d=q.get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())){ r=mpq_class(sqrt(n),sqrt(d)); return true; } return false; }
static void extendCur(Z3_ast var,std::function<Z3_ast(Z3_model)> f){ (void)var;(void)f; }
static void curFor(Z3_ast var,Z3_ast arg,std::function<bool(double,double&)> f,std::vector<Z3_ast> defs){ // give the fresh variable a value in the current model if exact, else invalidate
	if(!S.curValid) return; for(int v:S.varsOf(arg)) if(!S.cur.count(v)){ S.curValid=false; return; }
	Solver::Asg a; int r=S.query(defs,S.lim.branchMs,&a); if(r==SAT) mergeCur(a); else S.curValid=false; (void)f; (void)var; }
static bool gAbsFold=true;
static Val newSqrt(Z3_ast x){ Val v=auxReal("sqrt"); Z3_ast d1=S.k(Z3_mk_ge(S.c,v.s,S.dbl(0))),d2=S.k(Z3_mk_eq(S.c,S.mul(v.s,v.s),x)); PE->rule(S.varOf[S.id(v.s)],2,x); S.vars[S.varOf[S.id(v.s)]].lo=0;
	S.pc.push_back(d1); S.pc.push_back(d2); if(S.curValid&&!inPrefix()){ Solver::Asg a; int r2=S.query({d1,d2},S.lim.branchMs,&a); if(r2==SAT) mergeCur(a); else S.curValid=false; } return v; }
static Val symSqrt(Z3_ast x,u8 k){
	x=S.simp(x); mpq_class q,r; if(S.isNum(x)&&S.numeral(x,q)&&perfectSquare(q,r)) return Val{0,S.k(Z3_mk_numeral(S.c,r.get_str().c_str(),S.R))};
	auto key=std::make_pair(std::string("sqrt"),S.id(x)); auto it=mathMemo.find(key); if(it!=mathMemo.end()) return it->second;
	if(S.nonlinear(x)) try{ Rat R=PE->conv(x); mpq_class cq; if(R.d.empty()&&pisConst(R.n,cq)&&perfectSquare(cq,r)) return mathMemo[key]=Val{0,S.k(Z3_mk_numeral(S.c,r.get_str().c_str(),S.R))};
		static std::map<std::string,Val> byForm; std::string fk=PE->str(R); auto bf=byForm.find(fk); if(bf!=byForm.end()) return mathMemo[key]=bf->second;
		{ // even powers of non-negative variables (and square constants) leave the root
			Poly p=R.n; Mono g; bool first=true; for(auto&x:p){ if(first){ for(auto&q:x.first.v) g.v.push_back({q.first,q.second/2*2}); first=false; } else { Mono h; for(auto&q:g.v) for(auto&y:x.first.v) if(y.first==q.first) h.v.push_back({q.first,std::min(q.second,y.second/2*2)}); g=h; } }
			Rat out; Mono go; go.deg=0; Mono gi; gi.deg=0; for(auto&q:g.v) if(q.second>=2&&PE->varPos(q.first)){ go.v.push_back({q.first,q.second/2}); go.deg+=q.second/2; gi.v.push_back(q); gi.deg+=q.second; }
			Rat in=R; bool any=!go.v.empty(); out.n[go]=1; for(auto it=in.d.begin();it!=in.d.end();){ int e=it->second; if(e>=2&&PE->facPositive(it->first)){ out.d[it->first]=e/2; any=true; if(e%2){ it->second=1; ++it; } else it=in.d.erase(it); } else ++it; }
			if(any){ Poly q; for(auto&x:p){ Mono m; mdiv(x.first,gi,m); q[m]=x.second; } in.n=q; Rat chk=PE->reduce(in); (void)chk; Z3_ast ia=S.simp(PE->ast(in)),oa=S.simp(PE->ast(out)); if(ia!=x){ Val r; mpq_class rc; Z3_ast ra; if(S.isNum(ia)&&S.numeral(ia,rc)&&perfectSquare(rc,rc)) ra=PE->num(rc); else ra=toReal(symSqrt(ia,k),k); Val v{0,S.simp(S.mul(oa,ra))}; return mathMemo[key]=byForm[fk]=v; } } }
		Poly ps; bool even=true; for(auto&f:R.d) if(f.second%2) even=false; if(even&&psqrt(R.n,ps)){ Rat y; y.n=ps; for(auto&f:R.d) y.d[f.first]=f.second/2; Z3_ast ya=S.simp(PE->ast(y)); Val v; if(branch(S.k(Z3_mk_ge(S.c,ya,S.dbl(0))))) v=Val{0,ya}; else v=Val{0,S.simp(S.k(Z3_mk_unary_minus(S.c,ya)))}; return mathMemo[key]=byForm[fk]=v; }
		mathMemo.erase(key); assumeChecked(S.k(Z3_mk_ge(S.c,x,S.dbl(0))),"square root of a negative number",gSqrtNeg); Val v=newSqrt(x); return mathMemo[key]=byForm[fk]=v; }catch(PolyBig&){}
	// sqrt(y*y) = |y|
	if(gAbsFold&&Z3_get_ast_kind(S.c,x)==Z3_APP_AST){ Z3_app p=Z3_to_app(S.c,x); if(Z3_get_decl_kind(S.c,Z3_get_app_decl(S.c,p))==Z3_OP_MUL&&Z3_get_app_num_args(S.c,p)==2&&Z3_get_app_arg(S.c,p,0)==Z3_get_app_arg(S.c,p,1)){ Z3_ast y=Z3_get_app_arg(S.c,p,0); Val v; if(branch(S.k(Z3_mk_ge(S.c,y,S.dbl(0))))) v=Val{0,y}; else v=Val{0,S.simp(S.k(Z3_mk_unary_minus(S.c,y)))}; return mathMemo[key]=v; } }
	assumeChecked(S.k(Z3_mk_ge(S.c,x,S.dbl(0))),"square root of a negative number",gSqrtNeg);
	Val v=newSqrt(x);
	return mathMemo[key]=v; }
// Applications of the same function: equal arguments (as normal forms) share the value; linear arguments also get the congruence axiom.
struct UfApp{ Z3_ast x; Val v,w; }; static std::map<std::string,std::vector<UfApp>> ufApps;
static UfApp* ufSame(const std::string& name,Z3_ast x,bool* neg){ for(auto&a:ufApps[name]){ if(PE->zero(S.sub(x,a.x))){ if(neg)*neg=false; return &a; } if(neg&&PE->zero(S.add(x,a.x))){ *neg=true; return &a; } } return nullptr; }
static void ufCongr(const std::string& name,Z3_ast x,Val v,Val w){ auto& l=ufApps[name]; int n=0; for(auto&a:l){ if(++n>6) break; Z3_ast d=S.simp(S.sub(x,a.x)); if(S.nonlinear(d)||S.isNum(d)) continue; Z3_ast e=S.k(Z3_mk_eq(S.c,v.s,a.v.s)); if(w.s&&a.w.s) e=S.And(e,S.k(Z3_mk_eq(S.c,w.s,a.w.s))); S.assume(S.Or(S.Not(S.k(Z3_mk_eq(S.c,x,a.x))),e)); } l.push_back(UfApp{S.k(x),v,w}); }
static Val uf(const std::string& name,Z3_ast x,std::function<void(Z3_ast)> ax){ x=S.simp(x); auto key=std::make_pair(name,S.id(x)); auto it=mathMemo.find(key); if(it!=mathMemo.end()) return it->second; if(UfApp* p=ufSame(name,x,nullptr)) return mathMemo[key]=p->v; Val v=auxReal(name.c_str()); mathMemo[key]=v; ax(v.s); ufCongr(name,x,v,Val{0,nullptr}); S.curValid=false; return v; }
static void rng(Z3_ast v,double lo,double hi){ auto vi=S.varOf.find(S.id(v)); if(vi!=S.varOf.end()){ S.vars[vi->second].lo=lo; S.vars[vi->second].hi=hi; } if(lo>-HUGE_VAL) S.assume(S.k(Z3_mk_ge(S.c,v,S.dbl(lo)))); if(hi<HUGE_VAL) S.assume(S.k(Z3_mk_le(S.c,v,S.dbl(hi)))); }
static void symSinCos(Z3_ast x,Val& s,Val& c){ x=S.simp(x); auto ks=std::make_pair(std::string("sin"),S.id(x)),kc=std::make_pair(std::string("cos"),S.id(x)); auto it=mathMemo.find(ks); if(it!=mathMemo.end()){ s=it->second; c=mathMemo[kc]; return; } bool ng=false; if(UfApp* p=ufSame("sincos",x,&ng)){ s=p->v; c=p->w; if(ng) s=Val{0,S.simp(S.k(Z3_mk_unary_minus(S.c,s.s)))}; mathMemo[ks]=s; mathMemo[kc]=c; return; } s=auxReal("sin"); c=auxReal("cos"); mathMemo[ks]=s; mathMemo[kc]=c; S.assume(S.k(Z3_mk_eq(S.c,S.add(S.mul(s.s,s.s),S.mul(c.s,c.s)),S.dbl(1)))); rng(s.s,-1,1); rng(c.s,-1,1); PE->rule(S.varOf[S.id(s.s)],2,S.sub(S.dbl(1),S.mul(c.s,c.s))); ufCongr("sincos",x,s,c); S.curValid=false; }
static Val symMath(const std::string& f,std::vector<Val>& a,u8 k){
	bool any=false; for(auto&v:a) if(v.s) any=true; (void)any; Z3_context c=S.c;
	if(f=="sqrt") return symSqrt(toReal(a[0],k),k);
	if(f=="fabs"){ if(branch(S.k(Z3_mk_ge(c,a[0].s,S.dbl(0))))) return a[0]; return Val{0,S.simp(S.k(Z3_mk_unary_minus(c,a[0].s)))}; }
	if(f=="floor"||f=="ceil"||f=="trunc"||f=="round"||f=="rint"||f=="nearbyint"){ Z3_ast x=a[0].s; if(f=="ceil"){ i64 v=concretizeFloor(S.simp(S.k(Z3_mk_unary_minus(c,x))),"ceil"); return mkd(-(double)v,k);} if(f=="floor") return mkd((double)concretizeFloor(x,"floor"),k); if(f=="trunc"){ i64 v=concretizeFloor(x,"trunc"); if(v<0&&!branch(S.k(Z3_mk_eq(c,x,S.dbl((double)v))))) v++; return mkd((double)v,k);} if(f=="round"){ if(branch(S.k(Z3_mk_ge(c,x,S.dbl(0))))) return mkd((double)concretizeFloor(S.simp(S.add(x,S.dbl(0.5))),"round"),k); return mkd(-(double)concretizeFloor(S.simp(S.sub(S.dbl(0.5),x)),"round"),k);} return mkd((double)concretizeFloor(S.simp(S.add(x,S.dbl(0.5))),"rint"),k); }
	if(f=="fmin"||f=="fmax"){ Z3_ast x=toReal(a[0],k),y=toReal(a[1],k); bool le=branch(S.k(Z3_mk_le(c,x,y))); return (f=="fmin")==le?a[0]:a[1]; }
	if(f=="copysign"){ bool neg; if(a[1].s) neg=branch(S.k(Z3_mk_lt(c,a[1].s,S.dbl(0)))); else neg=std::signbit(cd(a[1],k)); std::vector<Val> t{a[0]}; Val m= a[0].s?symMath("fabs",t,k):mkd(fabs(cd(a[0],k)),k); if(!neg) return m; return m.s?Val{0,S.simp(S.k(Z3_mk_unary_minus(c,m.s)))}:mkd(-cd(m,k),k); }
	if(f=="fma"||f=="fmuladd"){ return fbin(Instruction::FAdd,k,fbin(Instruction::FMul,k,a[0],a[1]),a[2]); }
	if(f=="fmod") return fbin(Instruction::FRem,k,a[0],a[1]);
	if(f=="hypot"){ Val s=fbin(Instruction::FAdd,k,fbin(Instruction::FMul,k,a[0],a[0]),fbin(Instruction::FMul,k,a[1],a[1])); if(!s.s) return mkd(sqrt(cd(s,k)),k); return symSqrt(s.s,k); }
	if(f=="sin"||f=="cos"||f=="tan"){ Val s,co; symSinCos(a[0].s,s,co); if(f=="sin") return s; if(f=="cos") return co; return fbin(Instruction::FDiv,k,s,co); }
	if(f=="acos"||f=="asin"){ Z3_ast x=S.simp(a[0].s); assumeChecked(S.And(S.k(Z3_mk_ge(c,x,S.dbl(-1))),S.k(Z3_mk_le(c,x,S.dbl(1)))),"acos/asin outside [-1,1]",gSqrtNeg); Val o=symSqrt(S.simp(S.sub(S.dbl(1),S.mul(x,x))),k); return uf(f,x,[&](Z3_ast v){ if(f=="acos"){ rng(v,0,M_PI); mathMemo[{"cos",S.id(v)}]=Val{0,x}; mathMemo[{"sin",S.id(v)}]=o; } else { rng(v,-M_PI/2,M_PI/2); mathMemo[{"sin",S.id(v)}]=Val{0,x}; mathMemo[{"cos",S.id(v)}]=o; } }); }
	if(f=="atan"){ return uf(f,a[0].s,[&](Z3_ast v){ rng(v,-M_PI/2,M_PI/2); }); }
	if(f=="atan2"){ Z3_ast y=toReal(a[0],k),x=toReal(a[1],k); Z3_ast kk=S.simp(S.add(S.mul(S.dbl(1.2345e-3),y),S.mul(S.dbl(7.1e5),x))); Val r=symSqrt(S.simp(S.add(S.mul(x,x),S.mul(y,y))),k); Z3_ast rr=toReal(r,k); return uf("atan2",kk,[&](Z3_ast v){ rng(v,-M_PI,M_PI); if(branch(S.k(Z3_mk_gt(c,rr,S.dbl(0))))){ mathMemo[{"sin",S.id(v)}]=Val{0,S.k(Z3_mk_div(c,y,rr))}; mathMemo[{"cos",S.id(v)}]=Val{0,S.k(Z3_mk_div(c,x,rr))}; } }); }
	if(f=="exp") return uf(f,a[0].s,[&](Z3_ast v){ S.assume(S.k(Z3_mk_gt(c,v,S.dbl(0)))); });
	if(f=="log"||f=="log10"||f=="log2"){ assumeChecked(S.k(Z3_mk_gt(c,a[0].s,S.dbl(0))),"logarithm of a non-positive number",gSqrtNeg); return uf(f,a[0].s,[&](Z3_ast v){}); }
	if(f=="cbrt") return uf(f,a[0].s,[&](Z3_ast v){ S.assume(S.k(Z3_mk_eq(c,S.mul(v,S.mul(v,v)),a[0].s))); });
	if(f=="pow"){ if(!a[1].s){ double e=cd(a[1],k); if(e==std::floor(e)&&fabs(e)<=8){ int n=(int)fabs(e); Val r=mkd(1,k); for(int i=0;i<n;i++) r=fbin(Instruction::FMul,k,r,a[0]); if(e<0) r=fbin(Instruction::FDiv,k,mkd(1,k),r); return r; } if(e*2==std::floor(e*2)&&fabs(e)<=8){ Val s=symSqrt(a[0].s,k); int n=(int)std::floor(fabs(e)); Val r=s; for(int i=0;i<n;i++) r=fbin(Instruction::FMul,k,r,a[0]); if(e<0) r=fbin(Instruction::FDiv,k,mkd(1,k),r); return r; }
			char b[64]; snprintf(b,64,"pow_%g",e); return uf(b,a[0].s,[&](Z3_ast v){ S.assume(S.k(Z3_mk_ge(c,v,S.dbl(0)))); if(fabs(e-1./3)<1e-12) S.assume(S.k(Z3_mk_eq(c,S.mul(v,S.mul(v,v)),a[0].s))); }); }
		Z3_ast y=a[1].s; Z3_ast x=toReal(a[0],k); Z3_ast kk=S.simp(S.add(S.mul(S.dbl(1.2345e-3),x),S.mul(S.dbl(7.1e5),y))); return uf("powxy",kk,[&](Z3_ast v){ S.assume(S.k(Z3_mk_ge(c,v,S.dbl(0)))); }); }
	if(f=="sinh"||f=="cosh"||f=="tanh"||f=="erf") return uf(f,a[0].s,[&](Z3_ast v){});
	endPath("unsupported","symbolic "+f); }
// ------------------------------------------------------------------ native calls
struct RetPair{ u64 a,b; };
static bool denyNative(const std::string& n){ static const char* deny[]={"fork","exec","unlink","remove","rename","system","kill","open","fopen","mkdir","rmdir","symlink","link","chmod","chown","popen","mount","umount","socket","connect","ptrace","truncate","_ZNSt10filesystem","_ZN5boost10filesystem",nullptr}; for(int i=0;deny[i];i++) if(n.compare(0,strlen(deny[i]),deny[i])==0) return true; return false; }
static bool throwNative(void* obj,const std::type_info* t);
static std::set<std::string> nativeUsed;
static bool callNative(void* fn,const std::string& name,std::vector<Val>& a,DInst& x,Val& ret,bool& threw){
	threw=false; if(denyNative(name)) endPath("unsupported","native call denied: "+name);
	const CallBase* cb=cast<CallBase>(x.I); u64 ia[6]={0}; double fa[8]={0}; int ni=0,nf=0; std::vector<u64> extra;
	for(unsigned i=0;i<a.size();i++){ TI t=ti(cb->getArgOperand(i)->getType()); if(a[i].s){ if(t.k==T_INT||t.k==T_PTR) a[i]=C(concretize(a[i],t.w,name.c_str())); else endPath("unsupported","native call of "+demangle(name)+" with a symbolic real"); } if(t.k==T_F64){ if(nf>=8) endPath("unsupported","native args"); fa[nf++]=asD(a[i]); } else if(t.k==T_F32){ u64 b=a[i].c; memcpy(&fa[nf++],&b,8);} else if(t.k==T_INT||t.k==T_PTR){ if(ni>=6) extra.push_back(a[i].c); else ia[ni++]=a[i].c; } else endPath("unsupported","native arg type "+name); }
	if(extra.size()>2) endPath("unsupported","native stack args "+name); u64 e0=extra.size()>0?extra[0]:0,e1=extra.size()>1?extra[1]:0;
	nativeUsed.insert(name); TI rt=x.t; 
	try{
		if(rt.k==T_F64){ double d=((double(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double,u64,u64))fn)(ia[0],ia[1],ia[2],ia[3],ia[4],ia[5],fa[0],fa[1],fa[2],fa[3],fa[4],fa[5],fa[6],fa[7],e0,e1); ret=CD(d); }
		else if(rt.k==T_F32){ float d=((float(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double,u64,u64))fn)(ia[0],ia[1],ia[2],ia[3],ia[4],ia[5],fa[0],fa[1],fa[2],fa[3],fa[4],fa[5],fa[6],fa[7],e0,e1); ret=CF(d); }
		else { RetPair r=((RetPair(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double,u64,u64))fn)(ia[0],ia[1],ia[2],ia[3],ia[4],ia[5],fa[0],fa[1],fa[2],fa[3],fa[4],fa[5],fa[6],fa[7],e0,e1);
			if(rt.k==T_AGG){ Agg* g=new Agg; g->push_back(C(r.a)); if(aggN(rt.t)>1) g->push_back(C(r.b)); ret=mkAgg(g); } else ret=C(rt.k==T_INT?msk(r.a,rt.w):r.a); }
	}catch(PathEnd&){ throw; }
	catch(...){ std::exception_ptr ep=std::current_exception(); void* obj=*(void**)&ep; const std::type_info* t=abi::__cxa_current_exception_type(); new std::exception_ptr(ep); threw=true; throwNative(obj,t); }
	return true; }
// ------------------------------------------------------------------ exceptions
struct ExcRec{ u64 obj; u64 type; u64 adjusted; };
static std::vector<ExcRec> inflight; static std::vector<ExcRec> caught; static std::unordered_map<u64,u64> excType; static ExcRec curExc; static std::unordered_map<u64,int> typeIds;
static int typeId(u64 t){ if(!t) return 1; auto it=typeIds.find(t); if(it!=typeIds.end()) return it->second; int n=typeIds.size()+2; return typeIds[t]=n; }
static void popFrame(){ M.popStack(st.back().mark); st.pop_back(); }
static void gotoBB(Frame& f,u32 b);
static Val getOp(Frame& f,int32_t o){ return o>=0?f.r[o]:f.f->consts[-o-1]; }
static std::string excName(u64 t){ if(!t) return "?"; const std::type_info* i=(const std::type_info*)t; return demangle(std::string("_Z")+"TS"+i->name()); }
static void unwind(ExcRec e){ // precondition: top frame is the one executing the throwing call
	while(st.size()>baseDepth){ Frame& f=st.back(); const Instruction* I=f.f->code[f.pc].I;
		if(auto*iv=dyn_cast<InvokeInst>(I)){ const LandingPadInst* lp=iv->getLandingPadInst(); bool match=false; int sel=0; u64 adj=e.obj;
			for(unsigned i=0;i<lp->getNumClauses()&&!match;i++){ if(lp->isCatch(i)){ u64 ct=evalConst(lp->getClause(i)).c; if(!ct){ match=true; sel=typeId(0); } else { const std::type_info* c=(const std::type_info*)ct; const std::type_info* th=(const std::type_info*)e.type; void* p=(void*)e.obj; bool ptr=th->__is_pointer_p(); void* pp=p; if(ptr) p=*(void**)p; if(c->__do_catch(th,&p,1)){ match=true; sel=typeId(ct); adj=ptr?(u64)p:(u64)p; } (void)pp; } } }
			if(match||lp->isCleanup()){ e.adjusted=match?adj:e.obj; curExc=e; u32 ub=f.f->code[f.pc].succ[1]; gotoBB(f,ub); // landingpad value
				DInst& L=f.f->code[f.pc]; if(L.op!=Instruction::LandingPad) endPath("error","landingpad expected"); Agg* g=new Agg{C(e.obj),C((u64)sel)}; f.r[L.dst]=mkAgg(g); excType[e.obj]=e.type; f.pc++; return; } }
		popFrame(); }
	endPath("uncaught",excName(e.type)+((const std::type_info*)e.type)->name()); }
static bool throwNative(void* obj,const std::type_info* t){ unwind(ExcRec{(u64)obj,(u64)t,(u64)obj}); return true; }
// ------------------------------------------------------------------ handlers
static std::map<std::string,int> nameCount; static std::string uniq(const char* n){ int k=nameCount[n]++; return k?std::string(n)+"#"+std::to_string(k):std::string(n); }
static const char* cstr(Val v){ return (const char*)v.c; }
static u64 doMalloc(u64 n,u64 al=16){ u64 a=M.allocHeap(n?n:1,OK_HEAP,al); if(!a) endPath("limit","arena exhausted"); Obj* o=M.find(a); o->size=n?n:1; memset((void*)a,0xA5,n); return a; }
static void doFree(u64 p){ if(!p) return; if(!inArena(p)){ free((void*)p); return; } Obj* o=M.find(p); if(!o||o->base!=p) memErr("free of a pointer that is not the start of an object"); if(!o->alive) memErr("double free"); if(o->kind!=OK_HEAP) memErr("free of non-heap memory"); clearSym(o->base,o->size); o->alive=false; }
static void addMath(const std::string& n){
	auto mk=[](std::string base,bool flt){ return Handler([base,flt](DInst& x,std::vector<Val>& a,Val& r){ bool any=false; for(auto&v:a) if(v.s) any=true; u8 k=flt?T_F32:T_F64;
		if(any){ if(a.size()==2||a.size()==3) for(auto&v:a) if(!v.s&&std::isnan(cd(v,k))){ r=mkd(NAN,k); return true; } r=symMath(base,a,k); return true; }
		double p=cd(a[0],k),q=a.size()>1?cd(a[1],k):0,s=a.size()>2?cd(a[2],k):0,z=0;
		if(base=="sqrt") z=sqrt(p); else if(base=="fabs") z=fabs(p); else if(base=="floor") z=floor(p); else if(base=="ceil") z=ceil(p); else if(base=="trunc") z=trunc(p); else if(base=="round") z=round(p); else if(base=="rint"||base=="nearbyint") z=nearbyint(p); else if(base=="fmin") z=fmin(p,q); else if(base=="fmax") z=fmax(p,q); else if(base=="copysign") z=copysign(p,q); else if(base=="fma") z=fma(p,q,s); else if(base=="fmuladd") z=p*q+s; else if(base=="fmod") z=fmod(p,q); else if(base=="hypot") z=hypot(p,q); else if(base=="sin") z=sin(p); else if(base=="cos") z=cos(p); else if(base=="tan") z=tan(p); else if(base=="acos") z=acos(p); else if(base=="asin") z=asin(p); else if(base=="atan") z=atan(p); else if(base=="atan2") z=atan2(p,q); else if(base=="exp") z=exp(p); else if(base=="log") z=log(p); else if(base=="log10") z=log10(p); else if(base=="log2") z=log2(p); else if(base=="cbrt") z=cbrt(p); else if(base=="pow") z=pow(p,q); else if(base=="sinh") z=sinh(p); else if(base=="cosh") z=cosh(p); else if(base=="tanh") z=tanh(p); else if(base=="erf") z=erf(p); else endPath("unsupported",base);
		if(flt&&(base=="sqrt")) z=sqrtf((float)p);
		r=mkd(z,k); return true; }); };
	handlers[n]=mk(n,false); handlers[n+"f"]=mk(n,true); }
static void pushCall(Function* F,std::vector<Val>& args,int32_t dst,const Instruction* call);
static void setupHandlers(){
	auto H=[&](const char* n,Handler h){ handlers[n]=h; };
	for(const char* n:{"sqrt","fabs","floor","ceil","trunc","round","rint","nearbyint","fmin","fmax","copysign","fma","fmuladd","fmod","hypot","sin","cos","tan","acos","asin","atan","atan2","exp","log","log10","log2","cbrt","pow","sinh","cosh","tanh","erf"}) addMath(n);
	H("vf_double",[](DInst&,std::vector<Val>& a,Val& r){ r=Val{0,S.newVar(uniq(cstr(a[0])),'r',0,false)}; if(S.curValid) S.cur[S.vars.size()-1]=S.dbl(0); return true; });
	H("vf_double_in",[](DInst&,std::vector<Val>& a,Val& r){ Z3_ast v=S.newVar(uniq(cstr(a[0])),'r',0,false); if(!a[1].s) S.vars.back().lo=asD(a[1]); if(!a[2].s) S.vars.back().hi=asD(a[2]); Z3_ast lo=toReal(a[1],T_F64),hi=toReal(a[2],T_F64); S.assume(S.k(Z3_mk_ge(S.c,v,lo))); S.assume(S.k(Z3_mk_le(S.c,v,hi))); if(S.curValid){ if(!a[1].s&&!a[2].s){ double m=asD(a[1])<=0&&asD(a[2])>=0?0:asD(a[1]); S.cur[S.vars.size()-1]=S.dbl(m);} else S.curValid=false; } r=Val{0,v}; return true; });
	H("vf_int",[](DInst&,std::vector<Val>& a,Val& r){ Z3_ast v=S.newVar(uniq(cstr(a[0])),'b',64,false); if(!a[1].s&&!a[2].s&&a[1].c==a[2].c){ S.assume(S.k(Z3_mk_eq(S.c,v,S.bvnum(a[1].c,64)))); S.cur[S.vars.size()-1]=S.bvnum(a[1].c,64); r=C(a[1].c); return true; } S.assume(S.k(Z3_mk_bvsge(S.c,v,toBV(a[1],64)))); S.assume(S.k(Z3_mk_bvsle(S.c,v,toBV(a[2],64)))); { if(!a[1].s&&!a[2].s&&(i64)a[1].c<=(i64)a[2].c){ VarInfo& V=S.vars.back(); V.bounded=true; V.ilo=a[1].c; V.ihi=a[2].c; S.cur[S.vars.size()-1]=S.bvnum(a[1].c,64); } else S.curValid=false; } r=Val{0,v}; return true; });
	H("vf_bool",[](DInst&,std::vector<Val>& a,Val& r){ Z3_ast v=S.newVar(uniq(cstr(a[0])),'B',1,false); if(S.curValid) S.cur[S.vars.size()-1]=S.k(Z3_mk_false(S.c)); r=Val{0,S.k(Z3_mk_ite(S.c,v,S.bvnum(1,32),S.bvnum(0,32)))}; return true; });
	H("vf_pick",[](DInst&,std::vector<Val>& a,Val& r){ r=C(concretize(a[0],64,"vf_pick")); return true; });
	H("vf_symbolic",[](DInst&,std::vector<Val>&,Val& r){ r=C(1); return true; });
	H("vf_assume",[](DInst&,std::vector<Val>& a,Val&){ if(!a[0].s){ if(!(a[0].c&0xffffffff)) endPath("assume",""); return true; } Z3_ast z=toBV(a[0],32); Z3_ast f=S.simp(S.Not(S.k(Z3_mk_eq(S.c,z,S.bvnum(0,32))))); int b=S.boolVal(f); if(b==1) return true; if(b==0) endPath("assume",""); if(inPrefix()){ S.assume(f); S.curValid=false; return true; } int e=S.evalCur(f); if(e!=1){ Solver::Asg m; int q=S.query({f},S.lim.branchMs,&m); S.qBranch.n++; if(q==UNSAT) endPath("assume",""); if(q==SAT) mergeCur(m); else { S.curValid=false; gUnkBranch++; } } S.assume(f); return true; });
	H("vf_assume_eq",[](DInst&,std::vector<Val>& a,Val&){ if(!a[0].s&&!a[1].s){ if(asD(a[0])!=asD(a[1])) endPath("assume",""); return true; } Z3_ast d=S.simp(S.sub(toReal(a[0],T_F64),toReal(a[1],T_F64))); Z3_ast f=S.simp(S.k(Z3_mk_eq(S.c,d,S.dbl(0)))); int b=S.boolVal(f); if(b==1) return true; if(b==0) endPath("assume",""); if(inPrefix()){ S.assume(f); S.curValid=false; PE->assumeZero(d); return true; } int e=S.evalCur(f); if(e!=1){ Solver::Asg m; int q=S.query({f},S.lim.branchMs,&m); S.qBranch.n++; if(q==UNSAT) endPath("assume",""); if(q==SAT) mergeCur(m); else { S.curValid=false; gUnkBranch++; } } S.assume(f); PE->assumeZero(d); return true; });
	H("vf_assert",[](DInst&,std::vector<Val>& a,Val&){ std::string l=cstr(a[1]); if(!a[0].s){ if(inPrefix()) return true; if(a[0].c&0xffffffff) assertRes(l,"true",0,"concrete"); else { reportViolation(l,"assert",{},"assertion false on this path"); assertRes(l,"sat",0,"concrete"); } return true; } checkClaim(S.Not(S.k(Z3_mk_eq(S.c,toBV(a[0],32),S.bvnum(0,32)))),l,{}); return true; });
	H("vf_fail",[](DInst&,std::vector<Val>& a,Val&){ std::string l=cstr(a[0]); if(inPrefix()) return true; reportViolation(l,"assert",{},"failure reached"); assertRes(l,"sat",0,"concrete"); return true; });
	auto cmp=[](bool eq){ return [eq](DInst&,std::vector<Val>& a,Val&){ std::string l=cstr(a[3]); double tol=asD(a[2]); if(inPrefix()) return true;
		bool ca=!a[0].s,cb=!a[1].s; if((ca&&!std::isfinite(asD(a[0])))||(cb&&!std::isfinite(asD(a[1])))){ bool ok; if(ca&&cb){ double p=asD(a[0]),q=asD(a[1]); ok= eq? (p==q||(std::isnan(p)&&std::isnan(q))) : p<=q; } else ok= eq?false: ca? asD(a[0])<0 : asD(a[1])>0; if(!ok) reportViolation(l,"assert",{},"non-finite value"); assertRes(l,ok?"true":"sat",0,"concrete"); return true; }
		if(ca&&cb){ double p=asD(a[0]),q=asD(a[1]); bool ok= eq? fabs(p-q)<=tol : p<=q+tol; if(!ok){ char b[128]; snprintf(b,128,"%.17g vs %.17g",p,q); reportViolation(l,"assert",{},b);} assertRes(l,ok?"true":"sat",0,"concrete"); return true; }
		Z3_ast x=toReal(a[0],T_F64),y=toReal(a[1],T_F64),t=S.dbl(tol); Z3_ast d=S.simp(S.sub(x,y));
		double t0=now(); if(eq&&polyZero(d)){ S.qAssert.n++; assertRes(l,"unsat",now()-t0,"normal-form"); return true; }
		if(eq) checkClaim(S.k(Z3_mk_eq(S.c,d,S.dbl(0))),l,{S.k(Z3_mk_gt(S.c,d,t)),S.k(Z3_mk_lt(S.c,d,S.dbl(-tol)))}); else checkClaim(S.k(Z3_mk_le(S.c,d,S.dbl(0))),l,{S.k(Z3_mk_gt(S.c,d,t))}); return true; }; };
	H("vf_eq",cmp(true)); H("vf_le",cmp(false));
	H("vf_reach",[](DInst&,std::vector<Val>& a,Val&){ if(!inPrefix()){ emit("R "+std::string(cstr(a[0]))); } return true; });
	H("vf_observe",[](DInst&,std::vector<Val>& a,Val&){ std::string n=cstr(a[0]); if(a[1].s){ extern std::vector<std::pair<std::string,Val>> gObs; gObs.push_back({n,a[1]}); } else { extern std::vector<std::pair<std::string,Val>> gObs; gObs.push_back({n,a[1]}); } return true; });
	for(const char* n:{"malloc","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"}) H(n,[](DInst&,std::vector<Val>& a,Val& r){ u64 s=concretize(a[0],64,"allocation size"); r=C(doMalloc(s)); return true; });
	for(const char* n:{"_ZnwmSt11align_val_t","_ZnamSt11align_val_t"}) H(n,[](DInst&,std::vector<Val>& a,Val& r){ r=C(doMalloc(concretize(a[0],64,"allocation size"),a[1].c)); return true; });
	H("calloc",[](DInst&,std::vector<Val>& a,Val& r){ u64 n=concretize(a[0],64,"calloc")*concretize(a[1],64,"calloc"); u64 p=doMalloc(n); memset((void*)p,0,n); r=C(p); return true; });
	H("realloc",[](DInst&,std::vector<Val>& a,Val& r){ u64 n=concretize(a[1],64,"realloc"); u64 p=doMalloc(n); if(a[0].c){ Obj* o=M.find(a[0].c); u64 m=o?std::min<u64>(n,o->size):n; symCopy(p,a[0].c,m); doFree(a[0].c);} r=C(p); return true; });
	H("posix_memalign",[](DInst&,std::vector<Val>& a,Val& r){ u64 p=doMalloc(a[2].c,a[1].c); storeScalar(a[0].c,TI{T_PTR,64,8,nullptr},C(p)); r=C(0); return true; });
	H("aligned_alloc",[](DInst&,std::vector<Val>& a,Val& r){ r=C(doMalloc(a[1].c,a[0].c)); return true; });
	for(const char* n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvRKSt9nothrow_t"}) H(n,[](DInst&,std::vector<Val>& a,Val&){ doFree(concretize(a[0],64,"free")); return true; });
	for(const char* n:{"memcpy","memmove"}) H(n,[](DInst&,std::vector<Val>& a,Val& r){ u64 n=concretize(a[2],64,"memcpy size"); symCopy(concretize(a[0],64,"memcpy"),concretize(a[1],64,"memcpy"),n); r=a[0]; return true; });
	H("memset",[](DInst&,std::vector<Val>& a,Val& r){ u64 n=concretize(a[2],64,"memset size"),p=concretize(a[0],64,"memset"); u8 v=concretize(a[1],32,"memset"); if(n){ checkAcc(p,n,true); if(inArena(p)) clearSym(p,n); memset((void*)p,v,n);} r=a[0]; return true; });
	for(const char* n:{"memcmp","bcmp"}) H(n,[](DInst&,std::vector<Val>& a,Val& r){ u64 n=concretize(a[2],64,"memcmp"); if(n){ checkAcc(a[0].c,n,false); checkAcc(a[1].c,n,false); if(anySym(a[0].c,n)||anySym(a[1].c,n)) endPath("unsupported","memcmp of symbolic bytes"); } r=C((u32)memcmp((void*)a[0].c,(void*)a[1].c,n)); return true; });
	// exceptions
	H("__cxa_allocate_exception",[](DInst&,std::vector<Val>& a,Val& r){ r=C(doMalloc(a[0].c)); return true; });
	H("__cxa_free_exception",[](DInst&,std::vector<Val>& a,Val&){ return true; });
	H("__cxa_throw",[](DInst&,std::vector<Val>& a,Val&){ unwind(ExcRec{a[0].c,a[1].c,a[0].c}); return false; });
	H("__cxa_begin_catch",[](DInst&,std::vector<Val>& a,Val& r){ ExcRec e=curExc; if(e.obj!=a[0].c) e=ExcRec{a[0].c,excType[a[0].c],a[0].c}; caught.push_back(e); r=C(e.adjusted); return true; });
	H("__cxa_get_exception_ptr",[](DInst&,std::vector<Val>& a,Val& r){ r=C(curExc.obj==a[0].c?curExc.adjusted:a[0].c); return true; });
	H("__cxa_end_catch",[](DInst&,std::vector<Val>&,Val&){ if(!caught.empty()) caught.pop_back(); return true; });
	H("__cxa_rethrow",[](DInst&,std::vector<Val>&,Val&){ if(caught.empty()) endPath("abort","rethrow without exception"); ExcRec e=caught.back(); unwind(ExcRec{e.obj,e.type,e.obj}); return false; });
	H("__cxa_guard_acquire",[](DInst&,std::vector<Val>& a,Val& r){ r=C(*(u8*)a[0].c?0:1); return true; });
	H("__cxa_guard_release",[](DInst&,std::vector<Val>& a,Val&){ *(u8*)a[0].c=1; return true; });
	H("__cxa_guard_abort",[](DInst&,std::vector<Val>& a,Val&){ return true; });
	H("__cxa_atexit",[](DInst&,std::vector<Val>&,Val& r){ r=C(0); return true; });
	H("atexit",[](DInst&,std::vector<Val>&,Val& r){ r=C(0); return true; });
	H("__gxx_personality_v0",[](DInst&,std::vector<Val>&,Val& r){ r=C(0); return true; });
	for(const char* n:{"abort","_ZSt9terminatev","__assert_fail","exit","_exit","__cxa_pure_virtual","__clang_call_terminate","quick_exit","_Exit","__cxa_bad_cast_","__stack_chk_fail","_ZSt21__glibcxx_assert_failPKciS0_S0_"}) { std::string nm=n; H(n,[nm](DInst&,std::vector<Val>&,Val&)->bool{ if(gSymbolicPhase) reportViolation("abnormal-termination","abort",{},nm); endPath("abort",nm+" "+where()); }); }
	H("pthread_mutex_lock",[](DInst&,std::vector<Val>&,Val& r){ r=C(0); return true; }); H("pthread_mutex_unlock",[](DInst&,std::vector<Val>&,Val& r){ r=C(0); return true; }); H("pthread_mutex_trylock",[](DInst&,std::vector<Val>&,Val& r){ r=C(0); return true; });
	// text output: not part of any verified behaviour
	auto ret0=[](DInst&,std::vector<Val>& a,Val& r){ if(!a.empty()) r=a[0]; return true; };
	for(const char* n:{"_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE","_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_","_ZNSo3putEc","_ZNSo5flushEv","_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"}) (void)n;
	prefixHandlers.push_back({"_ZNSo9_M_insertI",[](DInst& x,std::vector<Val>& a,Val& r){ bool any=false; for(auto&v:a) if(v.s) any=true; if(any){ r=a[0]; return true; } bool thr; void* p=dlsym(RTLD_DEFAULT,x.callee->getName().str().c_str()); if(!p){ r=a[0]; return true; } callNative(p,x.callee->getName().str(),a,x,r,thr); return !thr; }});
	prefixHandlers.push_back({"_ZNSolsE",[](DInst& x,std::vector<Val>& a,Val& r){ bool any=false; for(auto&v:a) if(v.s) any=true; if(any){ r=a[0]; return true; } bool thr; void* p=dlsym(RTLD_DEFAULT,x.callee->getName().str().c_str()); if(!p){ r=a[0]; return true; } callNative(p,x.callee->getName().str(),a,x,r,thr); return !thr; }});
	H("gettimeofday",[](DInst&,std::vector<Val>& a,Val& r){ if(a[0].c) memset((void*)a[0].c,0,16); r=C(0); return true; });
	H("clock_gettime",[](DInst&,std::vector<Val>& a,Val& r){ if(a[1].c) memset((void*)a[1].c,0,16); r=C(0); return true; });
	(void)ret0;
	H("getenv",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; });
	H("printf",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; }); H("puts",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; }); H("putchar",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; }); H("fprintf",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; }); H("fputs",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; }); H("fwrite",[](DInst&,std::vector<Val>& a,Val& r){ r=a[2]; return true; }); H("fflush",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; });
	H("PyGILState_Ensure",[](DInst&,std::vector<Val>& a,Val& r){ r=C(0); return true; }); H("PyGILState_Release",[](DInst&,std::vector<Val>& a,Val& r){ return true; });
}
std::vector<std::pair<std::string,Val>> gObs;
// ------------------------------------------------------------------ interpreter
static void gotoBB(Frame& f,u32 b){ auto& ph=f.f->phis[b]; if(!ph.empty()){ Val tmp[64]; std::vector<Val> big; Val* t=tmp; if(ph.size()>64){ big.resize(ph.size()); t=big.data(); } for(size_t i=0;i<ph.size();i++){ int32_t o=INT32_MIN; for(auto&p:ph[i].in) if(p.first==f.bb){ o=p.second; break; } t[i]=getOp(f,o); } for(size_t i=0;i<ph.size();i++) f.r[ph[i].dst]=t[i]; } f.bb=b; f.pc=f.f->bbStart[b]; }
static void pushCall(Function* F,std::vector<Val>& args,int32_t dst,const Instruction* call){
	DFunc* d=dfunc(F); if(!d->decoded) decode(d); d->execs++; if(st.size()>2000) endPath("limit","call depth "+where());
	st.emplace_back(); Frame& f=st.back(); f.f=d; f.r.assign(d->nregs,Val{0,nullptr}); f.mark=M.stackTop; f.retDst=dst; f.call=call; unsigned na=F->arg_size(); for(unsigned i=0;i<na&&i<args.size();i++){ 
		if(F->hasParamAttribute(i,Attribute::ByVal)){ Type* bt=F->getParamByValType(i); u64 sz=DL->getTypeAllocSize(bt); u64 p=M.allocStack(sz); symCopy(p,args[i].c,sz); f.r[i]=C(p); }
		else f.r[i]=args[i]; } f.bb=0; f.pc=d->bbStart[0]; }
static void doReturn(Val v){ Frame& f=st.back(); int32_t dst=f.retDst; popFrame(); if(st.size()<=baseDepth) return; Frame& c=st.back(); DInst& x=c.f->code[c.pc]; if(dst>=0) c.r[dst]=v; if(x.op==Instruction::Invoke) gotoBB(c,x.succ[0]); else c.pc++; }
static u64 resolveAddr(Val v,const char* why){ if(!v.s) return v.c; return concretize(v,64,why); }
static bool intrinsic(DInst& x,std::vector<Val>& a,Val& r){
	Function* F=x.callee; Intrinsic::ID id=F->getIntrinsicID(); TI t=x.t;
	auto mathName=[&](const char* n){ std::string nm=n; if(t.k==T_AGG) endPath("unsupported","vector math"); if(t.k==T_F32) nm+="f"; return handlers[nm](x,a,r); };
	switch(id){
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::stackrestore: return true;
	case Intrinsic::stacksave: r=C(0); return true;
	case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: r=a[0]; return true;
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n=concretize(a[2],64,"memcpy size"); symCopy(resolveAddr(a[0],"memcpy"),resolveAddr(a[1],"memcpy"),n); return true; }
	case Intrinsic::memset: { u64 n=concretize(a[2],64,"memset size"); u64 p=resolveAddr(a[0],"memset"); u8 v=concretize(a[1],8,"memset value"); if(n){ checkAcc(p,n,true); if(inArena(p)) clearSym(p,n); memset((void*)p,v,n);} return true; }
	case Intrinsic::eh_typeid_for: r=C(typeId(a[0].c)); return true;
	case Intrinsic::trap: case Intrinsic::ubsantrap: if(gSymbolicPhase) reportViolation("abnormal-termination","abort",{},"trap"); endPath("abort","trap "+where());
	case Intrinsic::is_constant: r=C(0); return true; case Intrinsic::objectsize: r=C(~0ull); return true;
	case Intrinsic::sqrt: return mathName("sqrt"); case Intrinsic::fabs: return mathName("fabs"); case Intrinsic::floor: return mathName("floor"); case Intrinsic::ceil: return mathName("ceil"); case Intrinsic::trunc: return mathName("trunc"); case Intrinsic::round: return mathName("round"); case Intrinsic::rint: return mathName("rint"); case Intrinsic::nearbyint: return mathName("nearbyint"); case Intrinsic::minnum: return mathName("fmin"); case Intrinsic::maxnum: return mathName("fmax"); case Intrinsic::copysign: return mathName("copysign"); case Intrinsic::fma: return mathName("fma"); case Intrinsic::fmuladd: return mathName("fmuladd"); case Intrinsic::sin: return mathName("sin"); case Intrinsic::cos: return mathName("cos"); case Intrinsic::exp: return mathName("exp"); case Intrinsic::log: return mathName("log"); case Intrinsic::pow: return mathName("pow"); case Intrinsic::log10: return mathName("log10");
	case Intrinsic::powi: { double e=(double)(int32_t)concretize(a[1],32,"powi"); std::vector<Val> b{a[0],mkd(e,t.k)}; std::string nm=t.k==T_F32?"powf":"pow"; return handlers[nm](x,b,r); }
	case Intrinsic::is_fpclass: { u64 m=a[1].c; if(a[0].s){ // symbolic reals are finite; classes: nan 3, inf 0x204, normal 0x108, subnormal 0x90, zero 0x60
			if((m&0x1f8)==0x1f8){ r=C(1); return true; } if((m&0x1f8)==0){ r=C(0); return true; } int s=signOf(a[0].s); r=C(s==0?(m&0x60)!=0:s>0?(m&0x100)!=0:(m&0x8)!=0); return true; } double d=cd(a[0],x.t0.k); u64 cl= std::isnan(d)?3: std::isinf(d)?(d>0?0x200:4): d==0?(std::signbit(d)?0x20:0x40): std::fpclassify(d)==FP_SUBNORMAL?(d>0?0x80:0x10):(d>0?0x100:8); r=C((cl&m)!=0); return true; }
	case Intrinsic::umax: r=selectv(icmp(CmpInst::ICMP_UGT,t.w,a[0],a[1]),a[0],a[1],t); return true; case Intrinsic::umin: r=selectv(icmp(CmpInst::ICMP_ULT,t.w,a[0],a[1]),a[0],a[1],t); return true; case Intrinsic::smax: r=selectv(icmp(CmpInst::ICMP_SGT,t.w,a[0],a[1]),a[0],a[1],t); return true; case Intrinsic::smin: r=selectv(icmp(CmpInst::ICMP_SLT,t.w,a[0],a[1]),a[0],a[1],t); return true;
	case Intrinsic::abs: r=selectv(icmp(CmpInst::ICMP_SLT,t.w,a[0],C(0)),ibin(Instruction::Sub,t.w,C(0),a[0]),a[0],t); return true;
	case Intrinsic::ctpop: { u64 v=concretize(a[0],t.w,"ctpop"); r=C(__builtin_popcountll(v)); return true; } case Intrinsic::ctlz: { u64 v=concretize(a[0],t.w,"ctlz"); r=C(v?__builtin_clzll(v)-(64-t.w):t.w); return true; } case Intrinsic::cttz: { u64 v=concretize(a[0],t.w,"cttz"); r=C(v?__builtin_ctzll(v):t.w); return true; } case Intrinsic::bswap: { u64 v=concretize(a[0],t.w,"bswap"); r=C(__builtin_bswap64(v)>>(64-t.w)); return true; }
	case Intrinsic::fshl: case Intrinsic::fshr: { u64 p=concretize(a[0],t.w,"fsh"),q=concretize(a[1],t.w,"fsh"),s=concretize(a[2],t.w,"fsh")%t.w; if(id==Intrinsic::fshr) s=(t.w-s)%t.w; u64 v= id==Intrinsic::fshr&&s==0? q : s==0?p: (p<<s)|(msk(q,t.w)>>(t.w-s)); r=C(msk(v,t.w)); return true; }
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned w=ti(aggT(t.t,0)).w; u64 p=concretize(a[0],w,"overflow op"),q=concretize(a[1],w,"overflow op"); bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; __int128 P=sg?(__int128)sx(p,w):(__int128)msk(p,w),Q=sg?(__int128)sx(q,w):(__int128)msk(q,w),Rr= id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow?P+Q: id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow?P-Q:P*Q; u64 v=msk((u64)Rr,w); __int128 back=sg?(__int128)sx(v,w):(__int128)v; r=mkAgg(new Agg{C(v),C(back!=Rr)}); return true; }
	case Intrinsic::usub_sat: r=selectv(icmp(CmpInst::ICMP_UGT,t.w,a[0],a[1]),ibin(Instruction::Sub,t.w,a[0],a[1]),C(0),t); return true;
	case Intrinsic::uadd_sat: { u64 p=concretize(a[0],t.w,"sat"),q=concretize(a[1],t.w,"sat"); u64 v=msk(p+q,t.w); r=C(v<p?msk(~0ull,t.w):v); return true; }
	case Intrinsic::load_relative: { i64 o=concretize(a[1],64,"load_relative"); int32_t d; memcpy(&d,(void*)(a[0].c+o),4); r=C(a[0].c+d); return true; }
	default: endPath("unsupported","intrinsic "+F->getName().str()); } }
static void step(){
	Frame& f=st.back(); DInst& x=f.f->code[f.pc]; if(++nInstr>gMaxInstr) endPath("limit","instruction budget "+where());
	auto G=[&](unsigned i){ return getOp(f,x.ops[i]); };
	switch(x.op){
	case Instruction::Ret: doReturn(x.ops.empty()?C(0):G(0)); return;
	case Instruction::Br: if(x.ops.empty()){ gotoBB(f,x.succ[0]); return; } { Val c=G(0); bool b=c.s?branch(toBool(c)):(c.c&1); gotoBB(f,x.succ[b?0:1]); return; }
	case Instruction::Switch: { Val c=G(0); if(c.s){ Z3_ast e=toBV(c,x.t0.w); for(auto&k:x.scaled) if(branch(S.k(Z3_mk_eq(S.c,e,S.bvnum(k.second,x.t0.w))))){ gotoBB(f,k.first); return; } gotoBB(f,x.succ[0]); return; } u64 v=msk(c.c,x.t0.w); for(auto&k:x.scaled) if(k.second==v){ gotoBB(f,k.first); return; } gotoBB(f,x.succ[0]); return; }
	case Instruction::Unreachable: if(gSymbolicPhase) reportViolation("abnormal-termination","abort",{},"unreachable executed"); endPath("abort","unreachable "+where());
	case Instruction::Alloca: { auto*ai=cast<AllocaInst>(x.I); u64 n=concretize(G(0),64,"alloca"); u64 sz=n*DL->getTypeAllocSize(ai->getAllocatedType()); u64 p=M.allocStack(sz?sz:1,ai->getAlign().value()); if(!p) endPath("limit","stack"); memset((void*)p,0xA5,sz); f.r[x.dst]=C(p); break; }
	case Instruction::Load: { u64 a=resolveAddr(G(0),"load address"); f.r[x.dst]=loadVal(a,x.t.t); break; }
	case Instruction::Store: { Val v=G(0); u64 a=resolveAddr(G(1),"store address"); storeVal(a,x.t0.t,v); break; }
	case Instruction::GetElementPtr: { Val b=G(0); if(x.t.k==T_AGG) endPath("unsupported","vector gep"); bool sym=b.s; for(auto&s:x.scaled) if(getOp(f,s.first).s) sym=true; if(!sym){ u64 p=b.c+x.off; for(unsigned i=0;i<x.scaled.size();i++) p+=(u64)sx(getOp(f,x.scaled[i].first).c,x.cases[i])*x.scaled[i].second; f.r[x.dst]=C(p); }
		else { Z3_ast p=toBV(b,64); p=S.k(Z3_mk_bvadd(S.c,p,S.bvnum(x.off,64))); for(unsigned i=0;i<x.scaled.size();i++){ Val v=getOp(f,x.scaled[i].first); unsigned w=x.cases[i]; Z3_ast e=toBV(v,w); if(w<64) e=S.k(Z3_mk_sign_ext(S.c,64-w,e)); p=S.k(Z3_mk_bvadd(S.c,p,S.k(Z3_mk_bvmul(S.c,e,S.bvnum(x.scaled[i].second,64))))); } f.r[x.dst]=fromAst(S.simp(p),T_PTR); } break; }
	case Instruction::ICmp: { auto p=cast<CmpInst>(x.I)->getPredicate(); if(x.t0.k==T_AGG){ Agg* g=new Agg; Val a=G(0),b=G(1); unsigned w=ti(aggT(x.t0.t,0)).w; for(unsigned i=0;i<asAgg(a)->size();i++) g->push_back(icmp(p,w,(*asAgg(a))[i],(*asAgg(b))[i])); f.r[x.dst]=mkAgg(g);} else f.r[x.dst]=icmp(p,x.t0.w,G(0),G(1)); break; }
	case Instruction::FCmp: { auto p=cast<CmpInst>(x.I)->getPredicate(); if(x.t0.k==T_AGG) endPath("unsupported","vector fcmp"); f.r[x.dst]=fcmp(p,x.t0.k==T_F80?T_F64:x.t0.k,G(0),G(1)); break; }
	case Instruction::Select: { if(ti(x.I->getOperand(0)->getType()).k==T_AGG) endPath("unsupported","vector select"); f.r[x.dst]=selectv(G(0),G(1),G(2),x.t); break; }
	case Instruction::FNeg: { Val a=G(0); if(x.t.k==T_AGG){ Agg* g=new Agg; TI et=ti(aggT(x.t.t,0)); for(auto&v:*asAgg(a)) g->push_back(v.s?Val{0,S.simp(S.k(Z3_mk_unary_minus(S.c,v.s)))}:mkd(-cd(v,et.k),et.k)); f.r[x.dst]=mkAgg(g); } else if(a.s) f.r[x.dst]=Val{0,S.simp(S.k(Z3_mk_unary_minus(S.c,a.s)))}; else f.r[x.dst]=mkd(-cd(a,x.t.k),x.t.k); break; }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: if(x.t.k==T_AGG){ Agg* g=new Agg; Val a=G(0),b=G(1); u8 k=ti(aggT(x.t.t,0)).k; for(unsigned i=0;i<asAgg(a)->size();i++) g->push_back(fbin(x.op,k,(*asAgg(a))[i],(*asAgg(b))[i])); f.r[x.dst]=mkAgg(g);} else f.r[x.dst]=fbin(x.op,x.t.k==T_F80?T_F64:x.t.k,G(0),G(1)); break;
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		if(x.t.k==T_AGG){ Agg* g=new Agg; Val a=G(0),b=G(1); unsigned w=ti(aggT(x.t.t,0)).w; for(unsigned i=0;i<asAgg(a)->size();i++) g->push_back(ibin(x.op,w,(*asAgg(a))[i],(*asAgg(b))[i])); f.r[x.dst]=mkAgg(g);} else { if(x.t.w>64){ u128 p=W(G(0)),q=W(G(1)),r=0; switch(x.op){ case Instruction::Add:r=p+q;break; case Instruction::Sub:r=p-q;break; case Instruction::Mul:r=p*q;break; case Instruction::And:r=p&q;break; case Instruction::Or:r=p|q;break; case Instruction::Xor:r=p^q;break; case Instruction::Shl:r=q>=128?0:p<<(int)q;break; case Instruction::LShr:r=q>=128?0:p>>(int)q;break; default: endPath("unsupported","i128 arithmetic "+where()); } f.r[x.dst]=mkW(r); break; } f.r[x.dst]=ibin(x.op,x.t.w,G(0),G(1)); } break;
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: f.r[x.dst]=castv(x.op,G(0),x.t0,x.t); break;
	case Instruction::Freeze: f.r[x.dst]=G(0); break;
	case Instruction::ExtractValue: { Val v=G(0); for(unsigned i:cast<ExtractValueInst>(x.I)->indices()) v=(*asAgg(v))[i]; f.r[x.dst]=v; break; }
	case Instruction::InsertValue: { Val v=G(0),e=G(1); auto idx=cast<InsertValueInst>(x.I)->getIndices(); std::function<Val(Val,unsigned)> ins=[&](Val c,unsigned d){ if(d==idx.size()) return e; Agg* g=new Agg(*asAgg(c)); (*g)[idx[d]]=ins((*g)[idx[d]],d+1); return mkAgg(g); }; f.r[x.dst]=ins(v,0); break; }
	case Instruction::ExtractElement: { Val v=G(0); u64 i=concretize(G(1),64,"extractelement"); f.r[x.dst]=(*asAgg(v))[i]; break; }
	case Instruction::InsertElement: { Val v=G(0); u64 i=concretize(G(2),64,"insertelement"); Agg* g=new Agg(*asAgg(v)); (*g)[i]=G(1); f.r[x.dst]=mkAgg(g); break; }
	case Instruction::ShuffleVector: { Val a=G(0),b=G(1); auto*sv=cast<ShuffleVectorInst>(x.I); Agg* g=new Agg; unsigned n=asAgg(a)->size(); for(int m:sv->getShuffleMask()) g->push_back(m<0?C(0):(unsigned)m<n?(*asAgg(a))[m]:(*asAgg(b))[m-n]); f.r[x.dst]=mkAgg(g); break; }
	case Instruction::Fence: break;
	case Instruction::AtomicRMW: { auto*ar=cast<AtomicRMWInst>(x.I); u64 a=resolveAddr(G(0),"atomic"); Val v=G(1); TI t=x.t; Val old=loadScalar(a,t),nv; switch(ar->getOperation()){ case AtomicRMWInst::Xchg: nv=v;break; case AtomicRMWInst::Add: nv=ibin(Instruction::Add,t.w,old,v);break; case AtomicRMWInst::Sub: nv=ibin(Instruction::Sub,t.w,old,v);break; case AtomicRMWInst::And: nv=ibin(Instruction::And,t.w,old,v);break; case AtomicRMWInst::Or: nv=ibin(Instruction::Or,t.w,old,v);break; case AtomicRMWInst::Xor: nv=ibin(Instruction::Xor,t.w,old,v);break; default: endPath("unsupported","atomicrmw"); } storeScalar(a,t,nv); f.r[x.dst]=old; break; }
	case Instruction::AtomicCmpXchg: { u64 a=resolveAddr(G(0),"cmpxchg"); Val cv=G(1),nv=G(2); TI t=ti(x.I->getOperand(1)->getType()); Val old=loadScalar(a,t); Val eq=icmp(CmpInst::ICMP_EQ,t.w,old,cv); bool b=eq.s?branch(toBool(eq)):eq.c; if(b) storeScalar(a,t,nv); f.r[x.dst]=mkAgg(new Agg{old,C(b)}); break; }
	case Instruction::Resume: { Val v=G(0); u64 o=(*asAgg(v))[0].c; ExcRec e{o,excType[o],o}; popFrame(); unwind(e); return; }
	case Instruction::VAArg: endPath("unsupported","va_arg");
	case Instruction::Call: case Instruction::Invoke: {
		std::vector<Val> a; unsigned n=cast<CallBase>(x.I)->arg_size(); a.reserve(n); for(unsigned i=0;i<n;i++) a.push_back(G(i)); Function* F=x.callee; Val r=C(0); u64 tgt=0;
		if(isa<InlineAsm>(cast<CallBase>(x.I)->getCalledOperand())){ auto*ia=cast<InlineAsm>(cast<CallBase>(x.I)->getCalledOperand()); std::string as=ia->getAsmString(); size_t p=as.find_first_not_of(" \t\n#"); if(p==std::string::npos||as[0]=='#'){ if(x.dst>=0) f.r[x.dst]=a.empty()?C(0):a[0]; f.pc++; return; } endPath("unsupported","inline asm: "+as); }
		if(!F){ tgt=resolveAddr(G(n),"call target"); if(tgt>=CODE&&tgt<CODE+16*codeTab.size()) F=codeTab[(tgt-CODE)/16]; }
		Handler* h= x.callee?x.h: F?findHandler(F->getName().str()):nullptr;
		size_t depth=st.size(); u32 pc0=f.pc; (void)pc0;
		if(h){ bool ok; if(!x.callee){ DInst y=x; y.callee=F; ok=(*h)(y,a,r); } else ok=(*h)(x,a,r); if(!ok) return; }
		else if(F&&F->isIntrinsic()){ if(!x.callee) endPath("error","intrinsic pointer"); if(!intrinsic(x,a,r)) return; }
		else if(F&&!F->isDeclaration()){ pushCall(F,a,x.dst,x.I); return; }
		else { void* p; std::string nm; if(F){ nm=F->getName().str(); p=dlsym(RTLD_DEFAULT,nm.c_str()); if(!p) endPath("unsupported","unmodelled external function "+demangle(nm)+" "+where()); } else { if(tgt<65536) memErr("call through null function pointer"); if(inArena(tgt)) memErr("call of a data address"); p=(void*)tgt; Dl_info di; nm= dladdr(p,&di)&&di.dli_sname?di.dli_sname:"<native>"; Handler* h2=findHandler(nm); if(h2){ DInst y=x; if(!(*h2)(y,a,r)) return; p=nullptr; } } bool thr=false; if(p) callNative(p,nm,a,x,r,thr); if(thr) return; }
		(void)depth; Frame& g=st.back(); if(x.dst>=0) g.r[x.dst]=r; if(x.op==Instruction::Invoke){ gotoBB(g,x.succ[0]); return; } g.pc++; return; }
	default: endPath("unsupported",std::string("instruction ")+x.I->getOpcodeName()); }
	f.pc++;
}
static void runFn(Function* F,std::vector<Val> args){ size_t save=baseDepth; baseDepth=st.size(); size_t b=baseDepth; pushCall(F,args,-1,nullptr); while(st.size()>b) step(); baseDepth=save; }
static void runCtors(){
	GlobalVariable* g=Mod->getGlobalVariable("llvm.global_ctors"); if(!g||!g->hasInitializer()) return; auto*ca=dyn_cast<ConstantArray>(g->getInitializer()); if(!ca) return; std::vector<std::pair<u64,Function*>> v;
	for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); Function* F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if(F) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F}); }
	std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){ return a.first<b.first; });
	for(auto&p:v){ try{ nInstr=0; runFn(p.second,{}); }catch(PathEnd& e){ st.clear(); baseDepth=0; if(gVerbose) fprintf(stderr,"ctor %s: %s: %s\n",p.second->getName().str().c_str(),e.kind.c_str(),e.msg.c_str()); } }
	nInstr=0; }
// ------------------------------------------------------------------ one path
static void childMain(Function* H,const std::string& prefix,bool wantModel){
	gSymbolicPhase=true; gPrefix=deser(prefix); std::string kind="complete",msg; double t0=now();
	try{ runFn(H,{}); }catch(PathEnd& e){ kind=e.kind; msg=e.msg; }
	if(kind=="uncaught"){ reportViolation("uncaught-exception","exception",{},msg); }
	if(kind=="violation-mem"){ reportViolation("integer-division","mem",{},msg); }
	if(kind=="complete"&&wantModel&&!inPrefix()){ Solver::Asg a; bool ok=fullModel({},S.lim.branchMs,a); if(ok){ S.cur=a; std::string o="["; Z3_model m=S.curModel(); bool first=true; for(auto&p:gObs){ double d=0; bool good=true; if(p.second.s){ Z3_ast v; if(S.isReal(p.second.s)&&Z3_model_eval(S.c,m,p.second.s,true,&v)){ S.k(v); if(S.isNum(v)||Z3_is_algebraic_number(S.c,v)) d=S.numDouble(v); else good=false; } else good=false; } else d=asD(p.second); if(!good) continue; char b[64]; snprintf(b,64,"%.17g",d); if(!std::isfinite(d)) continue; if(!first) o+=","; first=false; o+="["+jstr(p.first)+","+b+"]"; } o+="]"; emit("M {\"inputs\":"+fmtInputs(a)+",\"obs\":"+o+"}"); } else emit("X nomodel"); }
	for(auto&d:dfuncs) if(d.second->execs&&!d.second->known) emit("F "+d.first->getName().str());
	for(auto&n:nativeUsed) emit("Y "+n);
	char b[512]; snprintf(b,512,"{\"instr\":%ld,\"bq\":%ld,\"bt\":%.3f,\"aq\":%ld,\"at\":%.3f,\"unk\":%ld,\"div0\":%ld,\"sqrtneg\":%ld,\"wall\":%.3f,\"vars\":%zu}",nInstr,S.qBranch.n,S.qBranch.t,S.qAssert.n,S.qAssert.t,gUnkBranch,gDiv0,gSqrtNeg,now()-t0,S.vars.size()); emit(std::string("S ")+b);
	for(auto&q:S.byStrategy){ snprintf(b,512,"{\"name\":\"%s\",\"n\":%ld,\"t\":%.3f,\"sat\":%ld,\"unsat\":%ld,\"unk\":%ld}",q.first.c_str(),q.second.n,q.second.t,q.second.sat,q.second.unsat,q.second.unk); emit(std::string("Q ")+b); }
	emit("E "+kind+" "+msg); }
int main(int argc,char** argv){
	std::string bc,harness,out; int jobs=8; long maxPaths=20000; double budget=600,grace=1e9; std::string stopFile; double slack=60; int models=8; std::vector<std::string> libs;
	for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--harness") harness=nx(); else if(a=="--grace") grace=atof(nx().c_str()); else if(a=="--stop") stopFile=nx(); else if(a=="--out") out=nx(); else if(a=="-j") jobs=atoi(nx().c_str()); else if(a=="--max-paths") maxPaths=atol(nx().c_str()); else if(a=="--budget") budget=atof(nx().c_str()); else if(a=="-v") gVerbose=true; else if(a=="--branch-ms") S.lim.branchMs=atoi(nx().c_str()); else if(a=="--assert-ms") S.lim.assertMs=atoi(nx().c_str()); else if(a=="--select-ite") gSelectFork=0; else if(a=="--models") models=atoi(nx().c_str()); else if(a=="--max-instr") gMaxInstr=atol(nx().c_str()); else if(a=="--max-enum") gMaxEnum=atoi(nx().c_str()); else if(a=="--lib") libs.push_back(nx()); else bc=a; }
	for(auto&l:libs) if(!dlopen(l.c_str(),RTLD_NOW|RTLD_GLOBAL)&&gVerbose) fprintf(stderr,"dlopen %s: %s\n",l.c_str(),dlerror());
	struct rlimit rl{1ul<<28,RLIM_INFINITY}; (void)rl;
	LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> m=parseIRFile(bc,err,ctx); if(!m){ err.print("vfsym",errs()); return 3; } Mod=m.get(); DL=&m->getDataLayout();
	mallopt(M_MMAP_THRESHOLD,1<<30); mallopt(M_TRIM_THRESHOLD,1<<30); mallopt(M_TOP_PAD,16<<20); mallopt(M_ARENA_MAX,1);
	M.init(); setupHandlers(); initGlobals();
	{ int nul=open("/dev/null",O_WRONLY); if(!gVerbose){ dup2(nul,1); } }
	runCtors(); S.init(); PE=new PolyEngine(S); S.linUnsat=[](const std::vector<Z3_ast>& f,bool p){ return PE->linUnsat(f,p); }; S.ruled=[](int v){ return PE->rules.count(v)>0; }; for(auto&d:dfuncs) d.second->execs=0;
	Function* H=m->getFunction(harness); if(!H||H->isDeclaration()){ fprintf(stderr,"vfsym: no harness %s\n",harness.c_str()); return 3; }
	struct Job{ pid_t pid; int fd; std::string buf; std::string prefix; double t0; }; std::vector<Job> run; std::deque<std::string> queue; queue.push_back("");
	long paths=0; std::map<std::string,long> ends; std::map<std::string,std::string> endMsg; struct AS{ long unsat=0,sat=0,unk=0,conc=0; double t=0; std::map<std::string,long> by; }; std::map<std::string,AS> asr; std::set<std::string> fns,natives; std::map<std::string,long> reach; std::vector<std::string> viol,modelsOut; std::map<std::string,long> violCount; double T0=now(); struct Tot{ double instr=0,bq=0,bt=0,aq=0,at=0,unk=0,div0=0,sq=0; } tot; std::map<std::string,QStat> strat; bool capped=false; long nModels=0;
	auto num=[](const std::string& j,const char* k){ size_t p=j.find(std::string("\"")+k+"\":"); return p==std::string::npos?0.0:atof(j.c_str()+p+strlen(k)+3); }; auto strf=[](const std::string& j,const char* k){ size_t p=j.find(std::string("\"")+k+"\":\""); if(p==std::string::npos) return std::string(); p+=strlen(k)+4; std::string r; while(p<j.size()&&j[p]!='"'){ if(j[p]=='\\') p++; r+=j[p++]; } return r; };
	while(!queue.empty()||!run.empty()){
		while(!queue.empty()&&(int)run.size()<jobs&&paths<maxPaths&&now()-T0<budget){ std::string pf=queue.back(); queue.pop_back(); int fd[2]; if(pipe(fd)) return 3; pid_t pid=fork(); if(pid==0){ close(fd[0]); gOut=fd[1]; if(!gVerbose){ int nul=open("/dev/null",O_WRONLY); dup2(nul,2); } childMain(H,pf,paths<4*models); _exit(0); } close(fd[1]); run.push_back(Job{pid,fd[0],"",pf,now()}); paths++; }
		if(!stopFile.empty()&&access(stopFile.c_str(),F_OK)==0&&budget>0){ budget=0; slack=0; grace=1e9; }
		if(run.empty()){ capped=true; break; }
		std::vector<pollfd> pf; for(auto&j:run) pf.push_back({j.fd,POLLIN,0}); poll(pf.data(),pf.size(),1000);
		for(size_t i=0;i<run.size();){ bool done=false; if(pf.size()>i&&pf[i].revents){ char b[65536]; ssize_t n=read(run[i].fd,b,sizeof b); if(n>0) run[i].buf.append(b,n); else done=true; }
			bool timeout=now()-T0>budget+slack; if(timeout&&!done){ kill(run[i].pid,SIGKILL); done=true; }
			size_t p; while((p=run[i].buf.find('\n'))!=std::string::npos){ std::string l=run[i].buf.substr(0,p); run[i].buf.erase(0,p+1); std::string d=l.size()>2?l.substr(2):"";
				switch(l[0]){ case 'N': queue.push_back(d); break; case 'A': { AS& s=asr[strf(d,"label")]; std::string r=strf(d,"res"); if(r=="unsat")s.unsat++; else if(r=="sat")s.sat++; else if(r=="true")s.conc++; else s.unk++; s.t+=num(d,"t"); s.by[strf(d,"by")]++; break; } case 'V': { std::string k=strf(d,"label")+"|"+strf(d,"kind"); if(violCount[k]++<4) viol.push_back(d); if(now()-T0+grace<budget){ budget=now()-T0+grace; slack=10; } break; } case 'R': reach[d]++; break; case 'F': if(fns.insert(d).second){ Function* f=Mod->getFunction(d); if(f&&!f->isDeclaration()){ DFunc* df=dfunc(f); if(!df->decoded) decode(df); df->known=true; } } break; case 'Y': natives.insert(d); break; case 'M': if(nModels++<models) modelsOut.push_back(d); break; case 'S': tot.instr+=num(d,"instr"); tot.bq+=num(d,"bq"); tot.bt+=num(d,"bt"); tot.aq+=num(d,"aq"); tot.at+=num(d,"at"); tot.unk+=num(d,"unk"); tot.div0+=num(d,"div0"); tot.sq+=num(d,"sqrtneg"); break; case 'Q': { QStat& q=strat[strf(d,"name")]; q.n+=num(d,"n"); q.t+=num(d,"t"); q.sat+=num(d,"sat"); q.unsat+=num(d,"unsat"); q.unk+=num(d,"unk"); break; } case 'E': { size_t s=d.find(' '); std::string k=d.substr(0,s); ends[k]++; if(!endMsg.count(k)||endMsg[k].size()<3) endMsg[k]=s==std::string::npos?"":d.substr(s+1); run[i].t0=-1; if(gVerbose) fprintf(stderr,"path %ld end: %s\n",paths,d.c_str()); break; } } }
			if(done){ close(run[i].fd); int stt; waitpid(run[i].pid,&stt,0); if(run[i].t0>=0){ std::string k=timeout?"timeout":"crash"; ends[k]++; if(!endMsg.count(k)) endMsg[k]="status "+std::to_string(stt)+" prefix "+run[i].prefix; } run.erase(run.begin()+i); pf.erase(pf.begin()+i); } else i++; }
	}
	if(!queue.empty()) capped=true;
	std::string o="{\"harness\":"+jstr(harness)+",\"paths\":"+std::to_string(paths)+",\"capped\":"+(capped?"true":"false")+",\"pending\":"+std::to_string(queue.size())+",\"wall\":"+std::to_string(now()-T0)+",\"ends\":{"; bool f1=true; for(auto&e:ends){ o+=(f1?"":",")+jstr(e.first)+":"+std::to_string(e.second); f1=false; } o+="},\"end_msgs\":{"; f1=true; for(auto&e:endMsg){ o+=(f1?"":",")+jstr(e.first)+":"+jstr(e.second); f1=false; }
	o+="},\"asserts\":{"; f1=true; for(auto&e:asr){ char b[256]; snprintf(b,256,"{\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"concrete\":%ld,\"t\":%.3f,\"by\":{",e.second.unsat,e.second.sat,e.second.unk,e.second.conc,e.second.t); o+=(f1?"":",")+jstr(e.first)+":"+b; bool f2=true; for(auto&q:e.second.by){ o+=(f2?"":",")+jstr(q.first)+":"+std::to_string(q.second); f2=false; } o+="}}"; f1=false; }
	o+="},\"reach\":{"; f1=true; for(auto&e:reach){ o+=(f1?"":",")+jstr(e.first)+":"+std::to_string(e.second); f1=false; } o+="},\"violations\":["; f1=true; for(auto&v:viol){ o+=(f1?"":",")+v; f1=false; } o+="],\"models\":["; f1=true; for(auto&v:modelsOut){ o+=(f1?"":",")+v; f1=false; } o+="],\"functions\":["; f1=true; for(auto&v:fns){ o+=(f1?"":",")+jstr(demangle(v)); f1=false; } o+="],\"natives\":["; f1=true; for(auto&v:natives){ o+=(f1?"":",")+jstr(demangle(v)); f1=false; }
	char b[512]; snprintf(b,512,"],\"instr\":%.0f,\"branch_queries\":%.0f,\"branch_time\":%.3f,\"assert_queries\":%.0f,\"assert_time\":%.3f,\"unknown_branches\":%.0f,\"nonzero_divisor_assumptions\":%.0f,\"domain_assumptions\":%.0f,\"strategies\":{",tot.instr,tot.bq,tot.bt,tot.aq,tot.at,tot.unk,tot.div0,tot.sq); o+=b; f1=true; for(auto&q:strat){ snprintf(b,512,"{\"n\":%ld,\"t\":%.3f,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld}",q.second.n,q.second.t,q.second.sat,q.second.unsat,q.second.unk); o+=(f1?"":",")+jstr(q.first)+":"+b; f1=false; } o+="}}\n";
	if(out.empty()){ fprintf(stderr,"%s",o.c_str()); } else { FILE* fp=fopen(out.c_str(),"w"); fwrite(o.data(),1,o.size(),fp); fclose(fp); }
	_exit(0); }
