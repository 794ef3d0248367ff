// Normal forms of real terms: ratios of polynomials over the solver variables, modulo rules v^k -> ratio (square roots, unit vectors).
// Used to recognise identities, to share square roots, and to linearise queries (monomials as fresh variables, sound for UNSAT).
#pragma once
#include "solver.h"
namespace vf{
struct PolyBig{};
struct Mono{ std::vector<std::pair<int,int>> v; int deg=0;
	bool operator<(const Mono& o) const { if(deg!=o.deg) return deg<o.deg; return v<o.v; } // graded; ties by exponent vectors below
	bool operator==(const Mono& o) const { return v==o.v; } };
// admissible order for division: graded lexicographic with variable 0 the largest
struct MonoLess{ bool operator()(const Mono& a,const Mono& b) const { if(a.deg!=b.deg) return a.deg<b.deg; size_t i=0,j=0; while(i<a.v.size()&&j<b.v.size()){ if(a.v[i].first!=b.v[j].first) return a.v[i].first>b.v[j].first; if(a.v[i].second!=b.v[j].second) return a.v[i].second<b.v[j].second; i++; j++; } return i==a.v.size()&&j<b.v.size(); } };
typedef std::map<Mono,mpq_class,MonoLess> Poly;
static inline Mono mmul(const Mono& a,const Mono& b){ Mono r; r.deg=a.deg+b.deg; size_t i=0,j=0; while(i<a.v.size()||j<b.v.size()){ if(j==b.v.size()||(i<a.v.size()&&a.v[i].first<b.v[j].first)) r.v.push_back(a.v[i++]); else if(i==a.v.size()||b.v[j].first<a.v[i].first) r.v.push_back(b.v[j++]); else { r.v.push_back({a.v[i].first,a.v[i].second+b.v[j].second}); i++; j++; } } return r; }
static inline bool mdiv(const Mono& a,const Mono& b,Mono& r){ r=Mono(); size_t j=0; for(size_t i=0;i<a.v.size();i++){ if(j<b.v.size()&&b.v[j].first<a.v[i].first) return false; if(j<b.v.size()&&b.v[j].first==a.v[i].first){ int e=a.v[i].second-b.v[j].second; if(e<0) return false; if(e) r.v.push_back({a.v[i].first,e}); j++; } else r.v.push_back(a.v[i]); } if(j<b.v.size()) return false; r.deg=a.deg-b.deg; return true; }
static inline void padd(Poly& a,const Mono& m,const mpq_class& c){ if(c==0) return; auto it=a.find(m); if(it==a.end()) a.emplace(m,c); else { it->second+=c; if(it->second==0) a.erase(it); } }
static const size_t PMAX=3000;
static inline Poly pmul(const Poly& a,const Poly& b){ Poly r; if(a.size()*b.size()>400000) throw PolyBig(); for(auto&x:a) for(auto&y:b){ padd(r,mmul(x.first,y.first),x.second*y.second); if(r.size()>PMAX) throw PolyBig(); } return r; }
static inline bool pisConst(const Poly& a,mpq_class& c){ if(a.empty()){ c=0; return true; } if(a.size()==1&&a.begin()->first.deg==0){ c=a.begin()->second; return true; } return false; }
static inline Poly pconst(const mpq_class& c){ Poly p; if(c!=0) p[Mono()]=c; return p; }
static inline Poly pvar(int v){ Mono m; m.v.push_back({v,1}); m.deg=1; Poly p; p[m]=1; return p; }
static inline bool pdiv(const Poly& a,const Poly& b,Poly& q){ // exact division
	q.clear(); Poly r=a; auto lb=b.rbegin(); int it=0; while(!r.empty()){ if(++it>3000) return false; auto la=r.rbegin(); Mono m; if(!mdiv(la->first,lb->first,m)) return false; mpq_class c=la->second/lb->second; padd(q,m,c); Poly t; for(auto&x:b) padd(r,mmul(x.first,m),-c*x.second); if(r.size()>PMAX) return false; } return true; }
static inline bool psqrt(const Poly& a,Poly& s){ // perfect square of a polynomial
	s.clear(); if(a.empty()) return true; auto l=a.rbegin(); Mono m; for(auto&p:l->first.v){ if(p.second%2) return false; m.v.push_back({p.first,p.second/2}); } m.deg=l->first.deg/2; mpq_class c=l->second; if(c<0) return false; mpz_class n=c.get_num(),d=c.get_den(); if(!mpz_perfect_square_p(n.get_mpz_t())||!mpz_perfect_square_p(d.get_mpz_t())) return false; mpq_class rc(sqrt(n),sqrt(d)); s[m]=rc; Poly r=a; padd(r,l->first,-c); int it=0;
	while(!r.empty()){ if(++it>200) return false; auto lr=r.rbegin(); Mono t; if(!mdiv(lr->first,m,t)) return false; mpq_class tc=lr->second/(2*rc); if(!MonoLess()(t,s.begin()->first)&&!(t==s.begin()->first)) return false; if(s.count(t)) return false; for(auto&x:s) padd(r,mmul(x.first,t),-2*x.second*tc); padd(r,mmul(t,t),-tc*tc); s[t]=tc; }
	return true; }
struct Rat{ Poly n; std::map<int,int> d; }; // d: factor id -> exponent
struct PolyEngine{
	Solver& S; PolyEngine(Solver& s):S(s){}
	std::vector<Poly> fac; std::map<std::string,int> facId; std::unordered_map<unsigned,Rat> memo; std::unordered_map<unsigned,int> big; std::map<unsigned,int> atomOf; std::vector<Z3_ast> atoms; // opaque subterms
	struct Rule{ int k; Rat r; }; std::map<int,Rule> rules; std::set<int> facPos;
	static const int ATOM=1000000;
	std::string str(const Poly& p){ std::string s; for(auto&x:p){ s+=x.second.get_str(); for(auto&v:x.first.v) s+="*"+std::to_string(v.first)+"^"+std::to_string(v.second); s+="+"; } return s; }
	std::string str(const Rat& r){ std::string s=str(r.n)+"/"; for(auto&f:r.d) s+=std::to_string(f.first)+"^"+std::to_string(f.second)+","; return s; }
	int intern(const Poly& p){ std::string s=str(p); auto it=facId.find(s); if(it!=facId.end()) return it->second; fac.push_back(p); return facId[s]=fac.size()-1; }
	bool single(const Poly& p,int& v){ if(p.size()!=1||p.begin()->second!=1||p.begin()->first.deg!=1) return false; v=p.begin()->first.v[0].first; return true; }
	Rat mkR(const Poly& p){ Rat r; r.n=p; return reduce(r); }
	Rat reduce(Rat r){
		for(int it=0;it<60;it++){ // numerator rules
			int var=-1; for(auto&x:r.n){ for(auto&p:x.first.v){ auto ru=rules.find(p.first); if(ru!=rules.end()&&p.second>=ru->second.k) var=std::max(var,p.first); } }
			if(var<0) break; Rule& ru=rules[var]; std::map<int,Poly> byE; int mx=0; for(auto&x:r.n){ int e=0; Mono m; for(auto&p:x.first.v) if(p.first==var) e=p.second; else m.v.push_back(p); m.deg=x.first.deg-e; int q=e/ru.k,rem=e%ru.k; if(rem) m=mmul(m,pvar(var).begin()->first); padd(byE[q],m,x.second); mx=std::max(mx,q); }
			Poly dn=pconst(1); for(auto&f:ru.r.d) for(int i=0;i<f.second;i++) dn=pmul(dn,fac[f.first]);
			Poly tot; for(auto&e:byE){ Poly t=e.second; for(int i=0;i<e.first;i++) t=pmul(t,ru.r.n); for(int i=e.first;i<mx;i++) t=pmul(t,dn); for(auto&x:t) padd(tot,x.first,x.second); } r.n=tot; for(auto&f:ru.r.d) r.d[f.first]+=f.second*mx;
		}
		if(r.n.empty()){ r.d.clear(); return r; }
		for(auto it=r.d.begin();it!=r.d.end();){ Poly q; while(it->second>0&&pdiv(r.n,fac[it->first],q)){ r.n=q; it->second--; } if(it->second==0) it=r.d.erase(it); else ++it; }
		return r; }
	Rat fixDen(const Rat& a,const Rat& b){ Rat r; r.n=pmul(a.n,b.n); r.d=a.d; for(auto&f:b.d) r.d[f.first]+=f.second; for(int guard=0;guard<20;guard++){ int hit=-1,hv=-1; for(auto&f:r.d){ int v; if(f.second>=2&&single(fac[f.first],v)){ auto ru=rules.find(v); if(ru!=rules.end()&&ru->second.k==2){ hit=f.first; hv=v; break; } } } if(hit<0) break; int e=r.d[hit]; r.d.erase(hit); if(e%2) r.d[hit]=1; Rat i=inv(rules[hv].r); for(int j=0;j<e/2;j++){ r.n=pmul(r.n,i.n); for(auto&f:i.d) r.d[f.first]+=f.second; } } return reduce(r); }
	Rat inv(const Rat& a){ if(a.n.empty()) throw PolyBig(); Rat r; r.n=pconst(1); for(auto&f:a.d) for(int i=0;i<f.second;i++) r.n=pmul(r.n,fac[f.first]);
		Poly p=a.n; Mono g=p.begin()->first; for(auto&x:p){ Mono h; for(auto&q:g.v) for(auto&y:x.first.v) if(y.first==q.first) h.v.push_back({q.first,std::min(q.second,y.second)}); h.deg=0; for(auto&q:h.v) h.deg+=q.second; g=h; }
		mpq_class lc=p.rbegin()->second; Poly b; for(auto&x:p){ Mono m; mdiv(x.first,g,m); b[m]=x.second/lc; } for(auto&q:g.v) r.d[intern(pvar(q.first))]+=q.second; mpq_class c; if(!pisConst(b,c)) r.d[intern(b)]+=1; for(auto&x:r.n) x.second/=lc; return reduce(r); }
	Rat add(const Rat& a,const Rat& b,int sg){ if(b.n.empty()) return a; Rat r; r.d=a.d; for(auto&f:b.d){ int& e=r.d[f.first]; e=std::max(e,f.second); } Poly x=a.n,y=b.n; for(auto&f:r.d){ int ea=0,eb=0; auto i=a.d.find(f.first); if(i!=a.d.end()) ea=i->second; i=b.d.find(f.first); if(i!=b.d.end()) eb=i->second; for(int k=ea;k<f.second;k++) x=pmul(x,fac[f.first]); for(int k=eb;k<f.second;k++) y=pmul(y,fac[f.first]); } for(auto&t:y) padd(x,t.first,sg>0?t.second:mpq_class(-t.second)); if(x.size()>PMAX) throw PolyBig(); r.n=x; return reduce(r); }
	Rat conv(Z3_ast a){ unsigned id=S.id(a); auto it=memo.find(id); if(it!=memo.end()) return it->second; if(big.count(id)) throw PolyBig(); try{ Rat r=conv1(a); S.k(a); memo[id]=r; return r; }catch(PolyBig&){ S.k(a); big[id]=1; throw; } }
	Rat conv1(Z3_ast a){ Z3_context c=S.c; mpq_class q; if(S.isNum(a)&&S.numeral(a,q)){ Rat r; r.n=pconst(q); return r; }
		auto v=S.varOf.find(S.id(a)); if(v!=S.varOf.end()) return mkR(pvar(v->second));
		if(Z3_get_ast_kind(c,a)==Z3_APP_AST){ Z3_app p=Z3_to_app(c,a); unsigned n=Z3_get_app_num_args(c,p); auto A=[&](unsigned i){ return conv(Z3_get_app_arg(c,p,i)); };
			switch(Z3_get_decl_kind(c,Z3_get_app_decl(c,p))){
			case Z3_OP_ADD: { Rat r=A(0); for(unsigned i=1;i<n;i++) r=add(r,A(i),1); return r; }
			case Z3_OP_SUB: { Rat r=A(0); for(unsigned i=1;i<n;i++) r=add(r,A(i),-1); return r; }
			case Z3_OP_UMINUS: { Rat r=A(0); for(auto&x:r.n) x.second=-x.second; return r; }
			case Z3_OP_MUL: { Rat r=A(0); for(unsigned i=1;i<n;i++) r=fixDen(r,A(i)); return r; }
			case Z3_OP_DIV: return fixDen(A(0),inv(A(1)));
			case Z3_OP_POWER: { mpq_class e; Z3_ast ea=Z3_get_app_arg(c,p,1); if(S.isNum(ea)&&S.numeral(ea,e)&&e.get_den()==1&&e>0&&e<9){ Rat b=A(0),r=b; for(int i=1;i<e.get_num().get_si();i++) r=fixDen(r,b); return r; } break; }
			default: break; } }
		unsigned id=S.id(a); auto t=atomOf.find(id); int ix; if(t==atomOf.end()){ ix=atoms.size(); atoms.push_back(S.k(a)); atomOf[id]=ix; } else ix=t->second; return mkR(pvar(ATOM+ix)); }
	bool zero(Z3_ast d){ try{ return conv(d).n.empty(); }catch(PolyBig&){ return false; } }
	Z3_ast varAst(int v){ return v>=ATOM?atoms[v-ATOM]:S.vars[v].a; }
	Z3_ast num(const mpq_class& q){ return S.k(Z3_mk_numeral(S.c,q.get_str().c_str(),S.R)); }
	Z3_ast ast(const Poly& p){ if(p.empty()) return S.dbl(0); std::vector<Z3_ast> ts; for(auto&x:p){ std::vector<Z3_ast> fs; if(x.second!=1||x.first.v.empty()) fs.push_back(num(x.second)); for(auto&v:x.first.v) for(int i=0;i<v.second;i++) fs.push_back(varAst(v.first)); ts.push_back(fs.size()==1?fs[0]:S.k(Z3_mk_mul(S.c,fs.size(),fs.data()))); } return ts.size()==1?ts[0]:S.k(Z3_mk_add(S.c,ts.size(),ts.data())); }
	Z3_ast ast(const Rat& r){ Z3_ast n=ast(r.n); if(r.d.empty()) return n; Poly d=pconst(1); for(auto&f:r.d) for(int i=0;i<f.second;i++) d=pmul(d,fac[f.first]); return S.k(Z3_mk_div(S.c,n,ast(d))); }
	void rule(int var,int k,Z3_ast rhs){ try{ Rat r=conv(rhs); rules[var]=Rule{k,r}; memo.clear(); big.clear(); }catch(PolyBig&){} }
	// x == 0 assumed: turn into a rule when some variable occurs only as a pure square with constant coefficient
	void assumeZero(Z3_ast x){ try{ Rat r=conv(x); if(!r.d.empty()) return; for(auto it=r.n.rbegin();it!=r.n.rend();++it){ auto&m=it->first; if(m.v.size()==1&&m.v[0].second==2&&m.v[0].first<ATOM){ int v=m.v[0].first; if(rules.count(v)) continue; bool only=true; for(auto&y:r.n) if(!(y.first==m)) for(auto&z:y.first.v) if(z.first==v) only=false; if(!only) continue; Rat q; for(auto&y:r.n) if(!(y.first==m)) q.n[y.first]=-y.second/it->second; rules[v]=Rule{2,q}; memo.clear(); big.clear(); return; } } }catch(PolyBig&){} }
	// ---------------- linearisation
	std::map<std::string,Z3_ast> monoVar; struct LinCtx{ std::map<std::string,Mono> used; };
	Z3_ast monoAst(const Mono& m,LinCtx& L){ if(m.v.size()==1&&m.v[0].second==1) return varAst(m.v[0].first); Poly p; p[m]=1; std::string s=str(p); L.used[s]=m; auto it=monoVar.find(s); if(it!=monoVar.end()) return it->second; Z3_ast a=S.k(Z3_mk_fresh_const(S.c,"m",S.R)); return monoVar[s]=a; }
	Z3_ast lin(const Poly& p,LinCtx& L){ std::vector<Z3_ast> ts; for(auto&x:p){ if(x.first.v.empty()) ts.push_back(num(x.second)); else { Z3_ast m=monoAst(x.first,L); ts.push_back(x.second==1?m:S.mul(num(x.second),m)); } } if(ts.empty()) return S.dbl(0); return ts.size()==1?ts[0]:S.k(Z3_mk_add(S.c,ts.size(),ts.data())); }
	bool varPos(int v){ return v<ATOM&&S.vars[v].lo>=0; }
	bool facPositive(int f){ const Poly& p=fac[f]; for(auto&x:p){ if(x.second<0) return false; for(auto&v:x.first.v) if(v.second%2&&!varPos(v.first)) return false; } return true; } // non-negative, and non-zero by the division
	Poly signFixed(const Rat& r){ Poly n=r.n; for(auto&f:r.d) if(f.second%2&&!facPositive(f.first)){ Rat t; t.n=pmul(n,fac[f.first]); t=reduce(t); if(!t.d.empty()) throw PolyBig(); n=t.n; } return n; }
	Z3_ast linF(Z3_ast f,LinCtx& L){ Z3_context c=S.c; if(Z3_get_ast_kind(c,f)!=Z3_APP_AST) return f; Z3_app p=Z3_to_app(c,f); unsigned n=Z3_get_app_num_args(c,p); Z3_decl_kind k=Z3_get_decl_kind(c,Z3_get_app_decl(c,p));
		if(k==Z3_OP_NOT||k==Z3_OP_AND||k==Z3_OP_OR||k==Z3_OP_IMPLIES||((k==Z3_OP_ITE||k==Z3_OP_IFF)&&S.isBool(f))||(k==Z3_OP_EQ&&S.isBool(Z3_get_app_arg(c,p,0)))){ std::vector<Z3_ast> as; for(unsigned i=0;i<n;i++) as.push_back(linF(Z3_get_app_arg(c,p,i),L)); switch(k){ case Z3_OP_NOT: return S.Not(as[0]); case Z3_OP_AND: return S.k(Z3_mk_and(c,n,as.data())); case Z3_OP_OR: return S.k(Z3_mk_or(c,n,as.data())); case Z3_OP_IMPLIES: return S.k(Z3_mk_implies(c,as[0],as[1])); case Z3_OP_ITE: return S.k(Z3_mk_ite(c,as[0],as[1],as[2])); default: return S.k(Z3_mk_eq(c,as[0],as[1])); } }
		if((k==Z3_OP_LE||k==Z3_OP_LT||k==Z3_OP_GE||k==Z3_OP_GT||k==Z3_OP_EQ)&&n==2&&S.isReal(Z3_get_app_arg(c,p,0))){ Rat r=add(conv(Z3_get_app_arg(c,p,0)),conv(Z3_get_app_arg(c,p,1)),-1); Poly q= k==Z3_OP_EQ? r.n : signFixed(r); if(q.size()>600) throw PolyBig(); Z3_ast l=lin(q,L),z=S.dbl(0); switch(k){ case Z3_OP_LE: return S.k(Z3_mk_le(c,l,z)); case Z3_OP_LT: return S.k(Z3_mk_lt(c,l,z)); case Z3_OP_GE: return S.k(Z3_mk_ge(c,l,z)); case Z3_OP_GT: return S.k(Z3_mk_gt(c,l,z)); default: return S.k(Z3_mk_eq(c,l,z)); } }
		if(k==Z3_OP_DISTINCT&&n==2&&S.isReal(Z3_get_app_arg(c,p,0))) return S.Not(linF(S.k(Z3_mk_eq(c,Z3_get_app_arg(c,p,0),Z3_get_app_arg(c,p,1))),L));
		return f; }
	void lemmas(LinCtx& L,std::vector<Z3_ast>& out){ Z3_context c=S.c; std::set<std::string> done; for(int round=0;round<2;round++){ auto u=L.used; for(auto&e:u){ if(!done.insert(e.first).second) continue; const Mono& m=e.second; bool even=true,pos=true; for(auto&v:m.v){ if(v.second%2){ even=false; if(!varPos(v.first)) pos=false; } } Z3_ast a=monoAst(m,L); if(even||pos) out.push_back(S.k(Z3_mk_ge(c,a,S.dbl(0))));
			if(m.deg==2&&m.v[0].first<ATOM&&m.v.back().first<ATOM){ int x=m.v[0].first,y=m.v.back().first; auto&X=S.vars[x],&Y=S.vars[y]; auto fin=[](double d){ return std::isfinite(d); }; auto mc=[&](double bx,double by,bool ge){ // a (>=|<=) bx*y+by*x-bx*by
					Z3_ast r=S.sub(S.add(S.mul(S.dbl(bx),Y.a),S.mul(S.dbl(by),X.a)),num(mpq_class(bx)*mpq_class(by))); out.push_back(S.k(ge?Z3_mk_ge(c,a,r):Z3_mk_le(c,a,r))); };
				if(fin(X.lo)&&fin(Y.lo)) mc(X.lo,Y.lo,true); if(fin(X.hi)&&fin(Y.hi)) mc(X.hi,Y.hi,true); if(fin(X.lo)&&fin(Y.hi)) mc(X.lo,Y.hi,false); if(fin(X.hi)&&fin(Y.lo)) mc(X.hi,Y.lo,false); }
			else if(pos||even){ // upper and lower bounds from ranges, when all are non-negative and finite
				double lo=1,hi=1; bool ok=true; for(auto&v:m.v){ if(v.first>=ATOM||S.vars[v.first].lo<0||!std::isfinite(S.vars[v.first].hi)){ ok=false; break; } for(int i=0;i<v.second;i++){ lo*=S.vars[v.first].lo; hi*=S.vars[v.first].hi; } } if(ok){ out.push_back(S.k(Z3_mk_ge(c,a,S.dbl(lo*(1-1e-12))))); out.push_back(S.k(Z3_mk_le(c,a,S.dbl(hi*(1+1e-12))))); } }
		} } }
	// products of pairs of hypotheses (all given as p>=0), degree 2 closure
	void products(const std::vector<Poly>& hyp,LinCtx& L,std::vector<Z3_ast>& out){ int n=0; for(size_t i=0;i<hyp.size();i++) for(size_t j=i;j<hyp.size();j++){ if(hyp[i].size()*hyp[j].size()>60||++n>400) continue; try{ Rat t; t.n=pmul(hyp[i],hyp[j]); t=reduce(t); if(!t.d.empty()) continue; out.push_back(S.k(Z3_mk_ge(S.c,lin(t.n,L),S.dbl(0)))); }catch(PolyBig&){} } }
	void hypOf(Z3_ast f,std::vector<Poly>& h){ Z3_context c=S.c; bool neg=false; if(Z3_get_ast_kind(c,f)!=Z3_APP_AST) return; Z3_app p=Z3_to_app(c,f); Z3_decl_kind k=Z3_get_decl_kind(c,Z3_get_app_decl(c,p)); if(k==Z3_OP_AND){ for(unsigned i=0;i<Z3_get_app_num_args(c,p);i++) hypOf(Z3_get_app_arg(c,p,i),h); return; } if(k==Z3_OP_NOT){ neg=true; f=Z3_get_app_arg(c,p,0); if(Z3_get_ast_kind(c,f)!=Z3_APP_AST) return; p=Z3_to_app(c,f); k=Z3_get_decl_kind(c,Z3_get_app_decl(c,p)); }
		if(!(k==Z3_OP_LE||k==Z3_OP_LT||k==Z3_OP_GE||k==Z3_OP_GT)||!S.isReal(Z3_get_app_arg(c,p,0))) return; try{ Poly q=signFixed(add(conv(Z3_get_app_arg(c,p,0)),conv(Z3_get_app_arg(c,p,1)),-1)); bool ge=(k==Z3_OP_GE||k==Z3_OP_GT)!=neg; if(!ge) for(auto&x:q) x.second=-x.second; if(q.size()<=40) h.push_back(q); }catch(PolyBig&){} }
	bool linUnsat(const std::vector<Z3_ast>& fs,bool prod){ // true: proved unsatisfiable
		LinCtx L; std::vector<Z3_ast> g; for(size_t i=0;i<fs.size();i++){ try{ g.push_back(S.simp(linF(fs[i],L))); }catch(PolyBig&){} }
		if(prod){ std::vector<Poly> h; for(Z3_ast f:fs) hypOf(f,h); if(h.size()>26) h.erase(h.begin(),h.end()-26); products(h,L,g); }
		lemmas(L,g); return S.runLinear(g,nullptr)==UNSAT; }
};
}
