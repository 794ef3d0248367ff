// Terms and queries. Integers are bit-vectors, doubles are exact reals, i1 are booleans.
#pragma once
#include <z3.h>
#include <set>
#include <map>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <unistd.h>
#include <sys/wait.h>
#include <gmpxx.h>
#include <functional>
#include <random>
#include "mem.h"
namespace vf{
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct VarInfo{ Z3_ast a; std::string name; char kind; /*r real, b bv, B bool; aux: lower-case name starts with '!'*/ int width; bool aux; double lo,hi; bool bounded=false; i64 ilo=0,ihi=0; int mentions=0; };
struct Limits{ int branchMs=3000; int assertMs=20000; int maxForks=200; };
enum Res{UNSAT=0,SAT=1,UNK=2};
struct QStat{ long n=0; double t=0; long sat=0,unsat=0,unk=0; };
struct Solver{
	Z3_context c=nullptr; std::vector<Z3_ast> pc; std::vector<VarInfo> vars; std::unordered_map<unsigned,int> varOf; // ast id -> var index
	Z3_sort R,B; Limits lim; QStat qBranch,qAssert; std::map<std::string,QStat> byStrategy; std::string lastStrategy;
	std::unordered_map<u64,Z3_ast> dblMemo;
	static void onErr(Z3_context c,Z3_error_code e){ fprintf(stderr,"vfsym: z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(77); }
	void init(){
		Z3_config cfg=Z3_mk_config(); c=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(c,nullptr);
		Z3_set_error_handler(c,(Z3_error_handler*)onErr);
		Z3_set_ast_print_mode(c,Z3_PRINT_SMTLIB2_COMPLIANT);
		R=Z3_mk_real_sort(c); B=Z3_mk_bool_sort(c); Z3_inc_ref(c,(Z3_ast)R); Z3_inc_ref(c,(Z3_ast)B);
	}
	Z3_ast k(Z3_ast a){ Z3_inc_ref(c,a); return a; }
	unsigned id(Z3_ast a){ return Z3_get_ast_id(c,a); }
	bool isReal(Z3_ast a){ return Z3_get_sort_kind(c,Z3_get_sort(c,a))==Z3_REAL_SORT; }
	bool isBool(Z3_ast a){ return Z3_get_sort_kind(c,Z3_get_sort(c,a))==Z3_BOOL_SORT; }
	bool isBV(Z3_ast a){ return Z3_get_sort_kind(c,Z3_get_sort(c,a))==Z3_BV_SORT; }
	unsigned bvw(Z3_ast a){ return Z3_get_bv_sort_size(c,Z3_get_sort(c,a)); }
	Z3_ast newVar(const std::string& name,char kind,int width,bool aux){
		Z3_sort s= kind=='r'?R: kind=='B'?B: Z3_mk_bv_sort(c,width);
		Z3_ast a=k(Z3_mk_const(c,Z3_mk_string_symbol(c,name.c_str()),s)); varOf[id(a)]=vars.size(); vars.push_back(VarInfo{a,name,kind,width,aux,-HUGE_VAL,HUGE_VAL}); return a;
	}
	Z3_ast bvnum(u64 v,unsigned w){ if(w<64) v&=((1ull<<w)-1); return k(Z3_mk_unsigned_int64(c,v,Z3_mk_bv_sort(c,w))); }
	Z3_ast dbl(double d){
		u64 bits; memcpy(&bits,&d,8); auto it=dblMemo.find(bits); if(it!=dblMemo.end()) return it->second;
		mpq_class q(d); std::string s=q.get_str(); Z3_ast r=k(Z3_mk_numeral(c,s.c_str(),R)); dblMemo[bits]=r; return r;
	}
	bool numeral(Z3_ast a,mpq_class& q){ if(Z3_get_ast_kind(c,a)!=Z3_NUMERAL_AST) return false; if(Z3_is_algebraic_number(c,a)&&!Z3_is_numeral_ast(c,a)) return false; const char* s=Z3_get_numeral_string(c,a); q=mpq_class(s); q.canonicalize(); return true; }
	Z3_ast mk2(Z3_ast(*f)(Z3_context,unsigned,Z3_ast const*),Z3_ast a,Z3_ast b){ Z3_ast v[2]={a,b}; return k(f(c,2,v)); }
	Z3_ast And(Z3_ast a,Z3_ast b){ return mk2(Z3_mk_and,a,b);} Z3_ast Or(Z3_ast a,Z3_ast b){ return mk2(Z3_mk_or,a,b);} Z3_ast Not(Z3_ast a){ return k(Z3_mk_not(c,a)); }
	Z3_ast add(Z3_ast a,Z3_ast b){ return mk2(Z3_mk_add,a,b);} Z3_ast sub(Z3_ast a,Z3_ast b){ return mk2(Z3_mk_sub,a,b);} Z3_ast mul(Z3_ast a,Z3_ast b){ return mk2(Z3_mk_mul,a,b);} 
	Z3_ast simp(Z3_ast a){ return k(Z3_simplify(c,a)); }
	int boolVal(Z3_ast a){ Z3_lbool b=Z3_get_bool_value(c,a); return b==Z3_L_TRUE?1: b==Z3_L_FALSE?0:-1; }
	// ---- variables of a term
	std::unordered_map<unsigned,std::vector<int>> vmemo;
	const std::vector<int>& varsOf(Z3_ast a){
		unsigned i=id(a); auto it=vmemo.find(i); if(it!=vmemo.end()) return it->second;
		std::vector<int> r;
		if(Z3_get_ast_kind(c,a)==Z3_APP_AST){ auto v=varOf.find(i); if(v!=varOf.end()) r.push_back(v->second); else { Z3_app p=Z3_to_app(c,a); unsigned n=Z3_get_app_num_args(c,p); std::set<int> s; for(unsigned j=0;j<n;j++){ const auto& q=varsOf(Z3_get_app_arg(c,p,j)); s.insert(q.begin(),q.end()); } r.assign(s.begin(),s.end()); } }
		return vmemo[i]=r;
	}
	std::unordered_map<unsigned,char> nlmemo;
	bool isNum(Z3_ast a){ return Z3_get_ast_kind(c,a)==Z3_NUMERAL_AST; }
	bool nonlinear(Z3_ast a){ // contains product of two non-numerals or division by a non-numeral
		unsigned i=id(a); auto it=nlmemo.find(i); if(it!=nlmemo.end()) return it->second; bool r=false;
		if(Z3_get_ast_kind(c,a)==Z3_APP_AST){ Z3_app p=Z3_to_app(c,a); unsigned n=Z3_get_app_num_args(c,p); Z3_decl_kind dk=Z3_get_decl_kind(c,Z3_get_app_decl(c,p)); int nn=0; for(unsigned j=0;j<n;j++){ Z3_ast x=Z3_get_app_arg(c,p,j); if(nonlinear(x)) r=true; if(!varsOf(x).empty()) nn++; } if(dk==Z3_OP_MUL&&nn>1) r=true; if(dk==Z3_OP_DIV&&!varsOf(Z3_get_app_arg(c,p,1)).empty()) r=true; if(dk==Z3_OP_POWER) r=true; }
		return nlmemo[i]=r;
	}
	std::vector<Z3_ast> slice(const std::vector<Z3_ast>& extra){
		std::set<int> vs; for(Z3_ast e:extra){ auto&v=varsOf(e); vs.insert(v.begin(),v.end()); }
		std::vector<char> in(pc.size(),0); bool ch=true;
		while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]){ const auto& v=varsOf(pc[i]); bool hit=false; for(int x:v) if(vs.count(x)){hit=true;break;} if(hit){ in[i]=1; ch=true; vs.insert(v.begin(),v.end()); } } }
		std::vector<Z3_ast> r; for(size_t i=0;i<pc.size();i++) if(in[i]) r.push_back(pc[i]); return r;
	}
	// ---- current model: var index -> value
	std::map<int,Z3_ast> cur; bool curValid=true; // the empty path condition is satisfied by anything
	Z3_model curModel(){ Z3_model m=Z3_mk_model(c); Z3_model_inc_ref(c,m); for(auto&p:cur){ Z3_func_decl d=Z3_get_app_decl(c,Z3_to_app(c,vars[p.first].a)); Z3_add_const_interp(c,m,d,p.second); } return m; }
	int evalCur(Z3_ast cond){ if(!curValid) return -1; for(int v:varsOf(cond)) if(!cur.count(v)) return -1; Z3_model m=curModel(); Z3_ast o; int r=-1; if(Z3_model_eval(c,m,cond,true,&o)){ k(o); r=boolVal(o); } Z3_model_dec_ref(c,m); return r; }
	typedef std::map<int,Z3_ast> Asg;
	void extract(Z3_model m,const std::vector<Z3_ast>& fs,Asg& out){ std::set<int> vs; for(Z3_ast f:fs){ auto&v=varsOf(f); vs.insert(v.begin(),v.end()); } for(int v:vs){ Z3_ast o; if(Z3_model_eval(c,m,vars[v].a,true,&o)) out[v]=k(o); } }
	std::map<std::vector<unsigned>,std::pair<int,Asg>> cache;
	int runOne(Z3_solver s,const std::vector<Z3_ast>& fs,int ms,Asg* out,unsigned seed=0){
		Z3_solver_inc_ref(c,s); Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),ms);
		Z3_solver_set_params(c,s,p);
		for(Z3_ast f:fs) Z3_solver_assert(c,s,f);
		Z3_lbool r=Z3_solver_check(c,s); int res=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNK;
		if(res==SAT&&out){ Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m); extract(m,fs,*out); Z3_model_dec_ref(c,m); }
		Z3_params_dec_ref(c,p); Z3_solver_dec_ref(c,s); return res;
	}
	Z3_solver lin=nullptr;
	int runLinear(const std::vector<Z3_ast>& fs,Asg* out){ // one incremental solver per path for linear / bit-vector queries; a resource limit instead of a timer thread
		if(!lin){ lin=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,lin); Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"rlimit"),20000000); Z3_solver_set_params(c,lin,p); }
		Z3_solver_push(c,lin); for(Z3_ast f:fs) Z3_solver_assert(c,lin,f);
		Z3_lbool r=Z3_solver_check(c,lin); int res=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNK;
		if(res==SAT&&out){ Z3_model m=Z3_solver_get_model(c,lin); Z3_model_inc_ref(c,m); extract(m,fs,*out); Z3_model_dec_ref(c,m); }
		Z3_solver_pop(c,lin,1); return res;
	}
	Z3_solver nlsat(){ Z3_tactic t=Z3_mk_tactic(c,"qfnra-nlsat"); Z3_tactic_inc_ref(c,t); Z3_tactic s1=Z3_mk_tactic(c,"simplify"); Z3_tactic_inc_ref(c,s1); Z3_tactic s2=Z3_mk_tactic(c,"solve-eqs"); Z3_tactic_inc_ref(c,s2); Z3_tactic pv=Z3_mk_tactic(c,"propagate-values"); Z3_tactic_inc_ref(c,pv); Z3_tactic pu=Z3_mk_tactic(c,"purify-arith"); Z3_tactic_inc_ref(c,pu); Z3_tactic el=Z3_mk_tactic(c,"elim-term-ite"); Z3_tactic_inc_ref(c,el);
		Z3_tactic a=Z3_tactic_and_then(c,s1,pv); Z3_tactic_inc_ref(c,a); Z3_tactic b=Z3_tactic_and_then(c,a,s2); Z3_tactic_inc_ref(c,b); Z3_tactic b1=Z3_tactic_and_then(c,b,el); Z3_tactic_inc_ref(c,b1); Z3_tactic b2=Z3_tactic_and_then(c,b1,pu); Z3_tactic_inc_ref(c,b2); Z3_tactic d=Z3_tactic_and_then(c,b2,t); Z3_tactic_inc_ref(c,d); return Z3_mk_solver_from_tactic(c,d); }
	bool pureReal(const std::vector<Z3_ast>& fs){ for(Z3_ast f:fs) for(int v:varsOf(f)) if(vars[v].kind!='r') return false; return true; }
	void stat(const char* name,double t,int r){ QStat& q=byStrategy[name]; q.n++; q.t+=t; if(r==SAT)q.sat++; else if(r==UNSAT)q.unsat++; else q.unk++; lastStrategy=name; }
	std::function<bool(const std::vector<Z3_ast>&,bool)> linUnsat; std::function<bool(int)> ruled; std::mt19937 rng{12345};
	// model search: give most inputs a simple value and let the solver find the others
	int concSearch(const std::vector<Z3_ast>& fs,int attempts,int msEach,double maxT,Asg& out){
		std::set<int> vs; for(Z3_ast f:fs){ auto&v=varsOf(f); vs.insert(v.begin(),v.end()); } std::vector<int> V; for(int v:vs) if(vars[v].kind=='r'&&!vars[v].aux&&!(ruled&&ruled(v))) V.push_back(v);
		if(V.size()<3) return UNK; static const double pal[]={0,1,-1,2,.5,-.5,-2,.25,3,1.5,-3,.75,-.25,.125}; double t0=now();
		for(int a=0;a<attempts&&now()-t0<maxT;a++){
			std::shuffle(V.begin(),V.end(),rng); size_t nf=1+a%3; std::vector<Z3_ast> from,to; Asg fix;
			for(size_t i=nf;i<V.size();i++){ auto&I=vars[V[i]]; double d=0; bool ok=false; Z3_ast val=nullptr; auto cu=cur.find(V[i]); if(a%2==0&&cu!=cur.end()&&isNum(cu->second)){ val=cu->second; ok=true; } for(int k=0;k<12&&!ok;k++){ d=pal[rng()%14]; if(d>=I.lo&&d<=I.hi) ok=true; } if(!ok){ double lo=I.lo,hi=I.hi; d= std::isfinite(lo)&&std::isfinite(hi)? lo+(hi-lo)*((1+rng()%3)/4.0) : std::isfinite(lo)?lo+1: std::isfinite(hi)?hi-1:1; } if(!val) val=dbl(d); from.push_back(vars[V[i]].a); to.push_back(val); fix[V[i]]=val; }
			std::vector<Z3_ast> g; bool bad=false; for(Z3_ast f:fs){ Z3_ast h=simp(k(Z3_substitute(c,f,from.size(),from.data(),to.data()))); int b=boolVal(h); if(b==0){ bad=true; break; } if(b==1) continue; g.push_back(h); }
			if(bad) continue; Asg m; int r=SAT; if(!g.empty()) r=runOne(nlsat(),g,msEach,&m); if(r==SAT){ out=fix; for(auto&p:m) out[p.first]=p.second; return SAT; } }
		return UNK; }
	int solve(const std::vector<Z3_ast>& fs0,int ms,Asg* out){
		std::vector<Z3_ast> fs; for(Z3_ast f:fs0){ Z3_ast g=simp(f); int b=boolVal(g); if(b==0){ stat("simplify",0,UNSAT); return UNSAT; } if(b==1) continue; fs.push_back(g); }
		if(fs.empty()){ stat("simplify",0,SAT); return SAT; }
		std::vector<unsigned> key; for(Z3_ast f:fs) key.push_back(id(f)); std::sort(key.begin(),key.end()); auto it=cache.find(key); if(it!=cache.end()&&it->second.first!=UNK){ if(out) for(auto&p:it->second.second) (*out)[p.first]=p.second; return it->second.first; }
		bool nl=false; for(Z3_ast f:fs) nl=nl||nonlinear(f);
		Asg asg; int r=UNK;
		if(!nl){ double t=now(); r=runLinear(fs,&asg); stat("z3-smt",now()-t,r); if(r==UNK){ t=now(); r=runOne(Z3_mk_solver(c),fs,ms,&asg); stat("z3-default",now()-t,r);} }
		else if(pureReal(fs)){
			double t=now(); if(linUnsat&&linUnsat(fs,false)) r=UNSAT; stat("linearised",now()-t,r);
			if(r==UNK){ t=now(); r=runOne(nlsat(),fs,std::min(ms,400),&asg); stat("z3-nlsat",now()-t,r); }
			if(r==UNK){ t=now(); r=concSearch(fs,ms>4000?24:10,250,ms/4000.,asg); stat("restricted-search",now()-t,r); }
			if(r==UNK&&linUnsat){ t=now(); if(linUnsat(fs,true)) r=UNSAT; stat("linearised-products",now()-t,r); }
			if(r==UNK){ t=now(); r=runOne(Z3_mk_simple_solver(c),fs,std::max(500,ms/6),&asg); stat("z3-smt-nra",now()-t,r); }
			if(r==UNK&&ms>4000){ t=now(); r=runOne(nlsat(),fs,ms/2,&asg); stat("z3-nlsat",now()-t,r); }
		} else if(linUnsat&&linUnsat(fs,false)){ r=UNSAT; stat("linearised",0,r); } else { double t=now(); r=runOne(Z3_mk_simple_solver(c),fs,ms,&asg); stat("z3-smt-mixed",now()-t,r); }
		cache[key]={r,asg}; if(out) for(auto&p:asg) (*out)[p.first]=p.second; return r;
	}
	int query(const std::vector<Z3_ast>& extra,int ms,Asg* out){ std::vector<Z3_ast> fs=slice(extra); fs.insert(fs.end(),extra.begin(),extra.end()); return solve(fs,ms,out); }
	void assume(Z3_ast f){ pc.push_back(f); for(int v:varsOf(f)) vars[v].mentions++; }
	double numDouble(Z3_ast v){
		if(Z3_is_algebraic_number(c,v)&&!Z3_is_numeral_ast(c,v)){ Z3_ast u=k(Z3_get_algebraic_number_upper(c,v,60)); return numDouble(u); }
		if(Z3_get_ast_kind(c,v)==Z3_NUMERAL_AST){ mpq_class q(Z3_get_numeral_string(c,v)); q.canonicalize(); return q.get_d(); }
		if(Z3_is_algebraic_number(c,v)){ Z3_ast u=k(Z3_get_algebraic_number_upper(c,v,60)); mpq_class q(Z3_get_numeral_string(c,u)); q.canonicalize(); return q.get_d(); }
		return 0;
	}
};
}
