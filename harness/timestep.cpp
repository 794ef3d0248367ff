#include "laws.h"
#include <pkg/dem/GlobalStiffnessTimeStepper.hpp>
#include <pkg/dem/ViscoelasticPM.hpp>
#include <pkg/dem/Shop.hpp>
#include <pkg/common/Box.hpp>
// C14: critical time step
struct RotPhys: FrictPhys{ double kt,kr; virtual Vector3r getRotStiffness(){ return Vector3r(kt,kr,kr); } };
static const double S=1.41044;
static shared_ptr<Body> body(double r=1){ shared_ptr<Body> b=addSphere(Vector3r::Zero(),r); b->state->mass=vf_double_in("mass",.5,5); for(int i=0;i<3;i++) b->state->inertia[i]=vf_double_in("inertia",.5,5); return b; }
struct C1{ shared_ptr<Interaction> I; Vector3r n; double kn,ks,kt,kr,R[2]; Vector3r k,rk[2];
	C1(int a,int b,const Vector3r& _n,bool rot,bool force=true,const shared_ptr<NormShearPhys>& own=shared_ptr<NormShearPhys>(),bool simple=false): n(_n){ I=shared_ptr<Interaction>(new Interaction(a,b)); shared_ptr<ScGeom> g(new ScGeom); g->normal=n; g->radius1=R[0]=simple?1:vf_double_in("R",.5,2); g->radius2=R[1]=simple?2:vf_double_in("R",.5,2); I->geom=g;
		kn=vf_double_in("kn",.1,10); ks=vf_double_in("ks",0,10); kt=rot?vf_double_in("kt",0,5):0; kr=rot?vf_double_in("kr",0,5):0; shared_ptr<NormShearPhys> p=own; if(!p){ if(rot){ RotPhys* q=new RotPhys; q->kt=kt; q->kr=kr; p.reset(q); } else p.reset(new FrictPhys); } p->kn=kn; p->ks=ks; p->normalForce=force?n:Vector3r::Zero(); I->phys=p; vfScene()->interactions->insert(I);
		for(int i=0;i<3;i++){ double q=n[i]*n[i]; k[i]=force?kn*q+ks*(1-q):0; for(int j=0;j<2;j++) rk[j][i]=force?ks*(1-q)*R[j]*R[j]+kt*q+kr*(1-q):0; } }
};
// dt is the smallest of safety*sqrt(2 m/k) over the free axes, and no larger than needed (a stiffness of zero puts no limit)
struct Lim{ double v[16],w[16]; int n=0; void add(double m,double k){ if(k==0) return; v[n]=m; w[n++]=k; } void add(const State* s,const Vector3r& k,const Vector3r& rk){ for(int i=0;i<3;i++){ add(s->mass,k[i]); add(s->inertia[i],rk[i]); } }
	void check(double dt,double safety){ double d=sq(dt)*8, c=sq(S*safety)*8; int eq=0; vf_assert(dt>0,"the time step is positive"); for(int i=0;i<n;i++){ vf_le(d*w[i],c*v[i],1e-6,"the time step does not exceed the safety factor times the critical step of any body"); eq|=d*w[i]>=c*v[i]; } vf_assert(eq,"the time step is not smaller than the smallest critical step requires"); } };
struct T{ GlobalStiffnessTimeStepper t; T(){ freshScene(); t.scene=vfScene().get(); t.defaultDt=1e-3; t.timestepSafetyCoefficient=vf_double_in("safety",.1,1); } double run(){ t.action(); return vfScene()->dt; } };
extern "C" void h_dt_axis(){ T e; auto a=body(), b=body(); int fix=vf_pick(vf_int("fixed",0,1)); (fix?b:a)->setDynamic(false); auto m=fix?a:b; m->state->inertia=Vector3r(1,1,2); C1 c(0,1,Vector3r::Unit(vf_pick(vf_int("axis",0,2))),true); double dt=e.run(); Lim l; l.add(m->state.get(),c.k,c.rk[fix?0:1]); l.check(dt,e.t.timestepSafetyCoefficient); vf_observe("dt",dt); vf_reach("end"); }
// a normal in a coordinate plane; the translation (or the rotation) governs by a large inertia (or mass)
static void any(bool rot){ T e; auto a=body(), b=body(); int fix=vf_pick(vf_int("fixed",0,1)); (fix?b:a)->setDynamic(false); State* s=(fix?a:b)->state.get(); if(rot) s->mass=4096; else s->inertia=Vector3r(1<<20,1<<20,1<<20); if(rot){ double I=s->inertia[0]; s->inertia=Vector3r(I,I,I); }
	int o=vf_pick(vf_int("first",0,2)), q=(o+1+vf_pick(vf_int("second",0,1)))%3, t=3-o-q; Vector3r n; n[o]=vf_double_in("n",-1,1); n[q]=vf_double_in("n",.125,1); n[t]=0; vf_assume_eq(n.squaredNorm(),1); vf_assume(n[o]*n[o]>=n[q]*n[q]+.001); C1 c(0,1,n,false,true,shared_ptr<NormShearPhys>(),true); vf_assume(c.ks>=.125); bool st=vf_pick(vf_int("normalStiffer",0,1)); if(st) vf_assume(c.kn>=c.ks+.001); else vf_assume(c.kn<=c.ks-.001);
	double dt=e.run(); double k=rot?c.rk[fix?0:1][t]:st?c.k[o]:c.k[t], m=rot?s->inertia[0]:s->mass; vf_eq(dt*dt*k,sq(S*e.t.timestepSafetyCoefficient)*m,1e-6,"the time step is the safety factor times the critical step of the stiffest axis"); vf_observe("dt",dt); vf_reach("end"); }
extern "C" void h_dt_trans(){ any(false); }
extern "C" void h_dt_rot(){ any(true); }
extern "C" void h_dt_two(){ // two contacts add up on the shared body; the smallest of all bodies decides
	T e; e.t.timestepSafetyCoefficient=.5; auto a=body(), b=body(), c=body(); a->setDynamic(false); int which=vf_pick(vf_int("dynamic",0,2)); if(which==0) c->setDynamic(false); if(which==1) b->setDynamic(false); int ax=which==2?2:vf_pick(vf_int("axis",0,2)); Vector3r n1=Vector3r::Unit(ax), n2=Vector3r::Unit((ax+1)%3); int on=vf_pick(vf_int("active",1,3)); b->state->inertia=Vector3r(1,2,4); c->state->inertia=Vector3r(256,256,256); if(which==2) b->state->inertia*=256; C1 c1(0,1,n1,false,on&1,shared_ptr<NormShearPhys>(),true), c2(1,2,n2,false,on&2,shared_ptr<NormShearPhys>(),true);
	if(which==1&&!(on&2)) return; double dt=e.run(); Lim l; if(which!=1) l.add(b->state.get(),c1.k+c2.k,c1.rk[1]+c2.rk[0]); if(which!=0) l.add(c->state.get(),c2.k,c2.rk[1]); l.check(dt,e.t.timestepSafetyCoefficient); vf_reach("end"); }
extern "C" void h_dt_clump(){ // a clump takes the contacts of all its members; members alone put no limit
	T e; auto a=body(), b=body(), c=body(), f=body(); f->setDynamic(false); shared_ptr<Clump> cl(new Clump); c->shape=cl; c->clumpId=c->id; Clump::add(c,a); Clump::add(c,b); c->state->inertia=Vector3r(1<<20,1<<20,1<<20); int ax=vf_pick(vf_int("axis",0,2)); C1 c1(a->id,f->id,Vector3r::Unit(ax),false,true,shared_ptr<NormShearPhys>(),true), c2(f->id,b->id,Vector3r::Unit((ax+1)%3),false,true,shared_ptr<NormShearPhys>(),true);
	double dt=e.run(); Lim l; for(int i=0;i<3;i++) l.add(c->state->mass,c1.k[i]+c2.k[i]); l.check(dt,e.t.timestepSafetyCoefficient); vf_reach("end"); }
extern "C" void h_dt_visc(){ // the dashpots limit the step too; bodies without contact do not
	T e; auto a=body(), b=body(); int lone=vf_pick(vf_int("lone",0,3)); bool later=lone==3; a->setDynamic(false); if(lone==1) body(); b->state->inertia=Vector3r(1,1,1); shared_ptr<ViscElPhys> p(new ViscElPhys); C1 c(0,1,Vector3r::Unit(vf_pick(vf_int("axis",0,2))),false,true,p,true); double cn=p->cn=vf_double_in("cn",.1,9), cs=p->cs=vf_double_in("cs",.1,9), s=e.t.timestepSafetyCoefficient; if(lone==2) body();
	if(later){ e.run(); e.t.previousDt=Mathr::MAX_REAL; } e.t.viscEl=true; double dt=e.run(), d=sq(dt), ce=sq(S*s); int eq=0; for(int i=0;i<3;i++){ double q=c.n[i]*c.n[i], v=cn*q+cs*(1-q), rv=cs*(1-q)*4, m=b->state->mass; vf_le(d*c.k[i],ce*m,1e-6,"elastic limit"); vf_le(d*c.rk[1][i],ce,1e-6,"elastic limit of rotation"); vf_le(dt*v,2*s*m,1e-6,"viscous limit"); vf_le(dt*rv,2*s,1e-6,"viscous limit of rotation"); eq|=(d*c.k[i]>=ce*m)|(d*c.rk[1][i]>=ce)|(dt*v>=2*s*m)|(dt*rv>=2*s); } vf_assert(eq,"the time step is not smaller than needed"); vf_reach("end"); }
extern "C" void h_dt_density(){ // density scaling
	T e; auto a=body(), b=body(), f=body(); a->setDynamic(false); b->state->inertia=Vector3r(1<<20,1<<20,1<<20); int kind=vf_pick(vf_int("lone",0,3)); if(kind==1) f->shape=shared_ptr<Shape>(new Box); if(kind>=2){ f->material=shared_ptr<Material>(new ElastMat); } if(kind==3) f->shape=shared_ptr<Shape>(new Box); C1 c(0,1,Vector3r::Unit(0),false,true,shared_ptr<NormShearPhys>(),true); vf_assume(c.kn>c.ks); bool old=vf_pick(vf_int("scaledBefore",0,1)); double o=b->state->densityScaling=old?vf_double_in("scaling",.01,10):-1; e.t.densityScaling=true; double t=e.t.targetDt=vf_double_in("target",.01,1); double dt=e.run(), k=b->state->densityScaling;
	vf_eq(dt,t,1e-6,"the step is the target"); double w=sq(S*e.t.timestepSafetyCoefficient)*b->state->mass, lhs=c.kn*t*t; if(!old) vf_eq(k*lhs,w,1e-6,"the density is scaled by the square of critical over target step"); else { vf_le(k*lhs,w,1e-6,"the scaling makes the target step stable"); vf_le(k,1.05*o,1e-6,"the scaling grows by at most 5% a step"); vf_assert((k*lhs>=w)|(k>=1.05*o),"the scaling is as large as allowed"); } vf_reach("end"); }
extern "C" void h_dt_state(){ // growth limit, cap, default
	T e; auto a=body(), b=body(); a->setDynamic(false); b->state->inertia=Vector3r(1<<20,1<<20,1<<20); double s=e.t.timestepSafetyCoefficient=.5; double dd=e.t.defaultDt=vf_double_in("defaultDt",1e-3,1); double d0=vfScene()->dt=vf_double_in("dt",1e-3,1); bool none=vf_pick(vf_int("noContactFirst",0,1)); if(none){ vf_eq(e.run(),dd,1e-6,"the default step is used while there are no contacts"); } e.t.timeStepUpdateInterval=3; 
	C1 c(0,1,Vector3r::Unit(0),false,true,shared_ptr<NormShearPhys>(),true); vf_assume(c.kn>c.ks); int cap=vf_pick(vf_int("cap",0,2)); double mx=cap==1?vf_double_in("maxDt",1e-3,1):cap==2?-1:Mathr::MAX_REAL, pv=vf_double_in("previousDt",1e-3,1); e.t.maxDt=mx; e.t.previousDt=pv; double d=e.run(); double X=sq(S*s)*b->state->mass;
	vf_le(d*d*c.kn,X,1e-6,"critical step"); if(cap==1) vf_le(d,mx,1e-6,"the largest step is respected"); vf_le(d,1.05*pv,1e-6,"the step grows by at most 5%"); vf_assert((d*d*c.kn>=X)|((cap==1)&(d>=mx))|(d>=1.05*pv),"the step is as large as allowed"); vf_assert(d>0,"the step is positive");
	c.I->phys->cast<NormShearPhys>().normalForce=Vector3r::Zero(); vf_eq(e.run(),d,1e-6,"without contacts the step stays"); vf_reach("end"); }
extern "C" void h_dt_when(){ T e; int iv=vf_pick(vf_int("interval",1,4)); e.t.timeStepUpdateInterval=iv; bool act=e.t.active=vf_bool("active"), done=vf_pick(vf_int("computed",0,1)); if(done){ body(); auto f=body(); f->setDynamic(false); C1 c(0,1,Vector3r::Unit(0),false); e.run(); } long it=vfScene()->iter=vf_int("iter",0,1000000); bool r=e.t.isActivated(); vf_assert(r==(act&(!done|(it<2)|(it%iv==0))),"the step is computed on the first steps and then at the given interval"); vf_reach("end"); }
extern "C" void h_dt_pwave(){ // smallest radius over sound speed
	freshScene(); double r[2],y[2],m[2]; for(int i=0;i<2;i++){ auto b=body(r[i]=vf_double_in("r",.5,2)); m[i]=b->state->mass; shared_ptr<ElastMat> em(new ElastMat); em->young=y[i]=vf_double_in("E",.1,9); b->material=em; } shared_ptr<Body> x(new Body); x->shape=shared_ptr<Shape>(new Box); x->material=shared_ptr<Material>(new ElastMat); vfScene()->bodies->insert(x); auto z=body(.01); z->material=shared_ptr<Material>(new Material); if(vf_pick(vf_int("erased",0,1))) vfScene()->bodies->erase(x->id,false);
	double dt=Shop::PWaveTimeStep(vfScene()), d=sq(dt); int eq=0; double pi43=4*Mathr::PI/3; for(int i=0;i<2;i++){ double a=d*y[i]*r[i]*pi43; vf_le(a,m[i],1e-6,"not larger than the radius over the wave speed of any sphere"); eq|=a>=m[i]*(1-1e-9); } vf_assert(eq,"not smaller than necessary"); vf_reach("end"); }
