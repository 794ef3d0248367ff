#include "laws.h"
#include <pkg/dem/CohesiveFrictionalContactLaw.hpp>
#include <pkg/common/MatchMaker.hpp>
// C20: cohesive-frictional law with moments
struct CF{ shared_ptr<ScGeom6D> g; Contact c; shared_ptr<CohFrictPhys> p; Law2_ScGeom6D_CohFrictPhys_CohesionMoment l; Scene* sc;
	CF(bool general): g(new ScGeom6D), c(g,general,-1,.5), p(new CohFrictPhys){ sc=vfScene().get(); l.scene=sc; p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=v3in("fs",-3,3); c.I->phys=p; g->shearInc=v3in("ds",-1,1); c.I->iterMadeReal=0; sc->iter=5; p->unpMax=-1; }
	bool go(){ return l.go(c.I->geom,c.I->phys,c.I.get()); }
};
static void law(bool energy){
	CF e(!energy); auto p=e.p; Scene* sc=e.sc; bool fragile=p->fragile=vf_pick(vf_int("fragile",0,1)), broken=p->cohesionBroken=vf_pick(vf_int("broken",0,1)), cdf=false, fresh=false; double an=0,as=0; if(!broken){ an=p->normalAdhesion=vf_double_in("an",0,3); as=p->shearAdhesion=vf_double_in("as",.125,3); if(!energy) cdf=p->cohesionDisablesFriction=vf_pick(vf_int("noFriction",0,1)); } if(!fragile){ p->unp=vf_double_in("unp",-1,0); if(!energy&&vf_pick(vf_int("limited",0,1))) p->unpMax=vf_double_in("unpMax",0,1); } else if(!energy) fresh=vf_pick(vf_int("fresh",0,1)); if(fresh) e.c.I->iterMadeReal=5;
	if(energy){ p->shearForce[0]=p->shearForce[2]=e.g->shearInc[0]=e.g->shearInc[2]=0; sc->trackEnergy=vf_pick(vf_int("track",0,1)); e.l.traceEnergy=true; } Vector3r trial=fresh?Vector3r(Vector3r::Zero()):p->shearForce; e.g->rotate(trial); trial-=p->ks*e.g->shearInc; double un=e.c.un, Fn=p->kn*(un-p->unp); bool keep=e.go();
	if(-Fn>an){ if(fragile){ vf_assert(!keep,"a brittle bond beyond its tensile strength is lost"); eq3(e.c.F(0),Vector3r::Zero(),"a lost contact exerts no force"); vf_reach("lost"); return; } Fn=-an; vf_eq(p->kn*(un-p->unp),-an,1e-6,"plastic extension keeps the tensile force at the strength"); if((p->unpMax>=0)&(-p->unp>p->unpMax)){ vf_assert(!keep,"a ductile bond beyond its largest extension is lost"); eq3(e.c.F(0),Vector3r::Zero(),"a lost contact exerts no force"); vf_reach("torn"); return; } }
	vf_assert(keep,"an unbroken contact is kept"); double fr=Fn*p->tangensOfFrictionAngle, mx=as+(cdf?0:fr); if(mx<0) mx=0; bool slip=trial.squaredNorm()>mx*mx; if(slip&&fragile&&!broken){ mx=fr<0?0:fr; vf_assert(p->cohesionBroken&&p->normalAdhesion==0&&p->shearAdhesion==0,"exceeding the shear strength breaks a brittle bond"); vf_reach("broken"); } else { vf_assert(p->cohesionBroken==broken,"the bond does not break below its strength"); if(!broken){ vf_eq(p->normalAdhesion,an,1e-6,"strength is kept"); vf_eq(p->shearAdhesion,as,1e-6,"strength is kept"); } }
	if(slip&&Fn<0) { if(fragile) eq3(p->normalForce,Vector3r::Zero(),"no tension after the bond has failed in shear"); } else eq3(p->normalForce,Fn*e.c.n,"normal force is stiffness times elastic overlap"); coulomb(p->shearForce,trial,mx); eq3(e.c.F(0),-p->normalForce-p->shearForce,"the force on the first body is minus the contact force"); if(!energy){ e.c.balance(false); e.c.torquesAtContactPoint(); }
	else { double d=(trial-p->shearForce).dot(p->shearForce)/p->ks; vf_eq(e.l.getPlasticDissipation(),d,1e-6,"plastic dissipation is the work of the shear force in sliding"); p->kr=vf_double_in("kr",.1,2); p->ktw=vf_double_in("ktw",.1,2); p->moment_bending=v3in("mb",-1,1); p->moment_twist=v3in("mt",-1,1); double en=.5*p->normalForce.squaredNorm()/p->kn, es=.5*p->shearForce.squaredNorm()/p->ks, eb=.5*p->moment_bending.squaredNorm()/p->kr, et=.5*p->moment_twist.squaredNorm()/p->ktw; vf_eq(e.l.normElastEnergy(),en,1e-6,"normal elastic energy"); vf_eq(e.l.shearElastEnergy(),es,1e-6,"shear elastic energy"); vf_eq(e.l.bendingElastEnergy(),eb,1e-6,"bending elastic energy"); vf_eq(e.l.twistElastEnergy(),et,1e-6,"twisting elastic energy"); vf_eq(e.l.totalElastEnergy(),en+es+eb+et,1e-6,"total elastic energy"); }
	vf_reach("end");
}
extern "C" void h_coh(){ law(false); }
extern "C" void h_coh_energy(){ law(true); }
extern "C" void h_coh_elastic(){ // negative strength: purely elastic
	CF e(true); auto p=e.p; p->cohesionBroken=false; p->fragile=vf_pick(vf_int("fragile",0,1)); p->normalAdhesion=-vf_double_in("an",.125,3); p->shearAdhesion=-vf_double_in("as",.125,3); e.c.rotation(e.g.get()); Vector3r trial=e.c.rotated(p->shearForce)-p->ks*e.g->shearInc; bool keep=e.go(); vf_assert(keep,"a bond of unlimited strength is kept"); eq3(p->normalForce,p->kn*e.c.un*e.c.n,"the normal force is elastic"); eq3(p->shearForce,trial,"the shear force is elastic"); vf_assert(!p->cohesionBroken,"a bond of unlimited strength does not break"); vf_reach("end"); }
extern "C" void h_coh_creep(){ CF e(true); auto p=e.p; p->cohesionBroken=false; p->normalAdhesion=p->shearAdhesion=-1; e.c.rotation(e.g.get()); e.l.shear_creep=true; double v=e.l.creep_viscosity=vf_double_in("nu",1,10); Vector3r f=e.c.rotated(p->shearForce*(1-p->ks*e.sc->dt/v)); f-=p->ks*e.g->shearInc; bool keep=e.go(); vf_assert(keep,"kept"); eq3(p->shearForce,f,"the shear force relaxes"); vf_reach("end"); }
// moments
static void moment(bool incr){ CF e(!incr); auto p=e.p; e.c.kinematics(); p->shearForce=Vector3r::Zero(); e.g->shearInc=Vector3r::Zero(); vf_assume(e.c.un>=.125); p->cohesionBroken=vf_pick(vf_int("broken",0,1)); if(!p->cohesionBroken) p->shearAdhesion=p->normalAdhesion=1; e.l.always_use_moment_law=vf_pick(vf_int("always",0,1)); p->momentRotationLaw=vf_pick(vf_int("law",0,1)); e.l.useIncrementalForm=incr; p->kr=vf_double_in("kr",.1,2); p->ktw=vf_double_in("ktw",.1,2); int pl=incr?vf_pick(vf_int("plastic",0,2)):0; p->maxRollPl=pl==1?vf_double_in("eta",0,1):-1; p->maxTwistPl=pl==2?vf_double_in("eta",0,1):-1; Vector3r mb=v3in("mb",-2,2), mt=v3in("mt",-2,2), n=e.c.n; if(incr){ mb[0]=mt[1]=mt[2]=0; if(!pl) e.c.rotation(e.g.get()); } p->moment_bending=mb; p->moment_twist=mt; e.g->twist=vf_double_in("twist",-1,1); e.g->bending=v3in("bending",-1,1);
	bool on=p->momentRotationLaw&&(!p->cohesionBroken||e.l.always_use_moment_law); Vector3r rel=(e.c.b1->state->angVel-e.c.b2->state->angVel)*e.sc->dt, tb,tt; if(incr){ tb=e.c.rotated(mb); tt=e.c.rotated(mt); Vector3r rt=n.dot(rel)*n; tb+=p->kr*(rel-rt); tt+=p->ktw*rt; } else { tb=p->kr*e.g->bending; tt=p->ktw*e.g->twist*n; }
	bool keep=e.go(); vf_assert(keep,"kept"); Vector3r arm1=(e.c.cp-e.c.x1).cross(e.c.F(0)), arm2=(e.c.cp-e.c.x2).cross(e.c.F(1)); if(!on){ eq3(e.c.M(0),arm1,"no moment without moment law"); eq3(e.c.M(1),arm2,"no moment without moment law"); vf_reach("off"); return; }
	double N=p->kn*e.c.un; if(pl==1) coulomb(p->moment_bending,tb,p->maxRollPl*N,"rolling moment limit","rolling moment limit reached","rolling moment is elastic below the limit","rolling moment keeps its direction"); else eq3(p->moment_bending,tb,"rolling moment resists the relative rotation elastically"); if(pl==2){ vf_le(sq(p->moment_twist.dot(n)),sq(p->maxTwistPl*N),1e-6,"twisting moment limit"); double t=tt.dot(n), m=p->maxTwistPl*N; if(t*t>m*m){ vf_eq(sq(p->moment_twist.dot(n)),m*m,1e-6,"twisting moment limit reached"); vf_le(0,p->moment_twist.dot(n)*t,1e-6,"twisting moment keeps its sign"); } else eq3(p->moment_twist,tt,"twisting moment is elastic below the limit"); } else eq3(p->moment_twist,tt,"twisting moment resists the relative rotation elastically");
	Vector3r m=p->moment_bending+p->moment_twist; eq3(e.c.M(0),arm1-m,"the moment acts against the rotation of the first body"); eq3(e.c.M(1),arm2+m,"the moments on the two bodies are opposite"); vf_reach("end"); }
extern "C" void h_coh_moment(){ moment(false); }
extern "C" void h_coh_momentinc(){ moment(true); }
static double harm(double a,double b){ return 2*a*b/(a+b); }
static shared_ptr<CohFrictMat> mat(int id){ shared_ptr<CohFrictMat> m(new CohFrictMat); m->id=id; m->young=vf_double_in("E",.1,9); m->poisson=vf_double_in("nu",.05,.95); m->frictionAngle=vf_double_in("phi",0,1.2); m->normalCohesion=vf_double_in("cn",0,5); m->shearCohesion=vf_double_in("cs",0,5); return m; }
extern "C" void h_coh_ip2(){ // parameters of a new contact
	shared_ptr<ScGeom6D> g(new ScGeom6D); Contact c(g,false,0,.5); auto a=mat(0), b=mat(1); Ip2_CohFrictMat_CohFrictMat_CohFrictPhys ip; ip.scene=vfScene().get(); int set=vf_pick(vf_int("set",0,2)); ip.setCohesionOnNewContacts=set==1; ip.setCohesionNow=set==2; int fr=set==0?0:vf_pick(vf_int("fragile",0,2)), who=fr==0?vf_pick(vf_int("cohesive",1,3)):3; a->isCohesive=who&1; b->isCohesive=who&2; a->fragile=fr==1; b->fragile=fr==2; int mo=who==3?vf_pick(vf_int("moment",1,3)):3; a->momentRotationLaw=mo&1; b->momentRotationLaw=mo&2; a->alphaKr=vf_double_in("akr",.1,3); b->alphaKr=fr?vf_double_in("akr",.1,3):0; a->alphaKtw=vf_double_in("aktw",.1,3); b->alphaKtw=vf_double_in("aktw",.1,3); a->etaRoll=vf_double_in("eta",0,2); b->etaRoll=mo==3?vf_double_in("eta",0,2):3*a->etaRoll; a->etaTwist=b->etaTwist=-1; double vn=0; bool mm=fr==0&&who==3&&mo==3&&vf_pick(vf_int("matcher",0,1)); if(mm){ vn=vf_double_in("match",0,5); ip.normalCohesion=shared_ptr<MatchMaker>(new MatchMaker("val")); ip.normalCohesion->val=vn; ip.shearCohesion=ip.normalCohesion; }
	ip.go(a,b,c.I); auto p=YADE_PTR_DYN_CAST<CohFrictPhys>(c.I->phys); vf_assert((bool)p,"contact physics is created"); double ka=a->young*c.r1, kb=b->young*c.r2, ks=harm(ka*a->poisson,kb*b->poisson); vf_eq(p->kn,harm(ka,kb),1e-6,"normal stiffness"); vf_eq(p->ks,ks,1e-6,"shear stiffness"); vf_eq(p->kr,c.r1*c.r2*ks*(b->alphaKr==0?0:harm(a->alphaKr,b->alphaKr)),1e-6,"rolling stiffness"); vf_eq(p->ktw,c.r1*c.r2*ks*harm(a->alphaKtw,b->alphaKtw),1e-6,"twisting stiffness"); vf_eq(p->tangensOfFrictionAngle,std::tan(a->frictionAngle<b->frictionAngle?a->frictionAngle:b->frictionAngle),1e-6,"friction is that of the smoother body"); double rm=c.r1<c.r2?c.r1:c.r2, e1=a->etaRoll*c.r1, e2=b->etaRoll*c.r2; vf_eq(p->maxRollPl,e1<e2?e1:e2,1e-6,"rolling strength"); vf_assert(p->maxTwistPl<0,"unlimited twisting strength"); vf_assert(p->momentRotationLaw==(mo==3),"moments need both bodies");
	bool coh=(ip.setCohesionOnNewContacts||ip.setCohesionNow)&&who==3; vf_assert(p->cohesionBroken==!coh,"cohesion is set on request when both bodies are cohesive"); double cn=a->normalCohesion<b->normalCohesion?a->normalCohesion:b->normalCohesion, cs=a->shearCohesion<b->shearCohesion?a->shearCohesion:b->shearCohesion; if(mm) cn=cs=vn; vf_eq(p->normalAdhesion,coh?cn*rm*rm:0,1e-6,"tensile strength"); vf_eq(p->shearAdhesion,coh?cs*rm*rm:0,1e-6,"shear strength"); if(coh) vf_assert(p->fragile==(fr>0),"a bond is brittle if one of the materials is"); vf_reach("end"); }
extern "C" void h_coh_now(){ // a request for cohesion is served for all contacts of one step, and for no later step
	freshScene(); Scene* sc=vfScene().get(); sc->iter=7; shared_ptr<Interaction> I[3]; for(int i=0;i<3;i++){ addSphere(Vector3r(i,0,0),1); } for(int i=0;i<3;i++){ I[i]=shared_ptr<Interaction>(new Interaction(i,(i+1)%3)); shared_ptr<ScGeom6D> g(new ScGeom6D); g->radius1=g->radius2=1; I[i]->geom=g; } shared_ptr<CohFrictMat> a(new CohFrictMat); a->normalCohesion=vf_double_in("cn",.5,5); a->shearCohesion=vf_double_in("cs",.5,5); a->young=1; a->poisson=.5; a->frictionAngle=.5; Ip2_CohFrictMat_CohFrictMat_CohFrictPhys ip; ip.scene=sc; int old=vf_pick(vf_int("existing",0,2)); for(int i=0;i<old;i++){ ip.go(a,a,I[i]); vf_assert(I[i]->phys->cast<CohFrictPhys>().cohesionBroken,"no cohesion without request"); } sc->iter=8; bool req=vf_pick(vf_int("request",0,1)); ip.setCohesionNow=req; for(int i=0;i<2;i++) ip.go(a,a,I[i]);
	for(int i=0;i<2;i++){ auto& p=I[i]->phys->cast<CohFrictPhys>(); vf_assert(p.cohesionBroken==!req,"a request makes every contact of the step cohesive"); vf_eq(p.normalAdhesion,req?a->normalCohesion:0,1e-6,"tensile strength"); vf_eq(p.shearAdhesion,req?a->shearCohesion:0,1e-6,"shear strength"); } sc->iter=9; I[0]->phys->cast<CohFrictPhys>().SetBreakingState(); bool one=vf_pick(vf_int("one",0,1)); I[1]->phys->cast<CohFrictPhys>().initCohesion=one; for(auto& i: I) ip.go(a,a,i); vf_assert(!ip.setCohesionNow,"the request ends with its step"); vf_assert(I[0]->phys->cast<CohFrictPhys>().cohesionBroken&&I[2]->phys->cast<CohFrictPhys>().cohesionBroken,"contacts of later steps are not made cohesive"); vf_assert(I[1]->phys->cast<CohFrictPhys>().cohesionBroken==(!req&&!one),"cohesion requested for one contact is set on that contact"); vf_assert(!I[1]->phys->cast<CohFrictPhys>().initCohesion,"the request for one contact ends"); sc->iter=10; ip.setCohesionNow=true; for(auto& i: I) ip.go(a,a,i); for(auto& i: I) vf_assert(!i->phys->cast<CohFrictPhys>().cohesionBroken,"a later request is served too"); vf_reach("end"); }
