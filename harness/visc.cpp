#include "laws.h"
#include <pkg/dem/ViscoelasticPM.hpp>
#include <pkg/dem/ViscoelasticCapillarPM.hpp>
// C21: viscoelastic law, with liquid bridges
struct VE{ shared_ptr<ScGeom> g; Contact c; shared_ptr<ViscElCapPhys> p; Law2_ScGeom_ViscElPhys_Basic l; Scene* sc; Vector3r sv=Vector3r::Zero(),sp=Vector3r::Zero(); double fnA,vn; Vector3r vs;
	VE(bool general,double lo,double hi,int rot=0): g(new ScGeom), c(g,general,lo,hi), p(new ViscElCapPhys){ sc=vfScene().get(); l.scene=sc; sc->iter=5; c.I->iterMadeReal=0; p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->cn=vf_double_in("cn",0,5); p->cs=vf_double_in("cs",0,5); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=v3in("fs",-3,3); p->R=1; c.I->phys=p; }
	void periodic(){ sc->isPeriodic=true; sc->cell->setBox(v3in("cell",5,9)); sc->cell->velGrad(0,2)=vf_double_in("G",-1,1); sc->cell->velGrad(1,0)=vf_double_in("G",-1,1); sc->cell->velGrad(2,2)=vf_double_in("G",-1,1); sc->cell->integrateAndUpdate(0); Vector3i k(1,0,-1); c.I->cellDist=k; sp=sc->cell->intrShiftPos(k); sv=sc->cell->velGrad*sp; c.b2->state->pos=c.x2-sp; }
	Vector3r rel(){ State &a=*c.b1->state,&b=*c.b2->state; return a.vel+a.angVel.cross(c.cp-c.x1)-b.vel-sv-b.angVel.cross(c.cp-c.x2); }
	void split(){ Vector3r v=rel(); vn=c.n.dot(v); vs=v-vn*c.n; }
	bool go(){ return l.go(c.I->geom,c.I->phys,c.I.get()); }
};
static void law(bool general,bool per,bool rot){
	VE e(general,0,.5); auto p=e.p; e.c.kinematics(); if(general){ for(auto& b: {e.c.b1,e.c.b2}) b->state->angVel=Vector3r::Zero(); p->shearForce=Vector3r::Zero(); } bool fresh=!general&&!rot&&vf_pick(vf_int("fresh",0,1)); if(fresh) e.c.I->iterMadeReal=5; if(per){ e.periodic(); for(auto& b: {e.c.b1,e.c.b2}) b->state->angVel=Vector3r::Zero(); e.c.b1->state->vel=Vector3r::Zero(); p->shearForce=Vector3r::Zero(); } if(rot){ e.c.rotation(e.g.get()); for(auto& b: {e.c.b1,e.c.b2}){ b->state->vel=Vector3r::Zero(); b->state->angVel=Vector3r::Zero(); } p->shearForce=Vector3r(0,p->shearForce[1],0); } e.split();
	Vector3r trial=(fresh?Vector3r(Vector3r::Zero()):e.c.rotated(p->shearForce))+p->ks*e.sc->dt*e.vs; double N=p->kn*e.c.un+p->cn*e.vn; if(N<0) N=0; bool keep=e.go(); vf_assert(keep,"an overlapping contact is kept"); eq3(p->normalForce,N*e.c.n,"the normal force is elastic plus viscous and never attractive"); coulomb(p->shearForce,trial,p->tangensOfFrictionAngle*N,"the elastic shear force never exceeds friction times the normal force"); bool slip=trial.squaredNorm()>sq(p->tangensOfFrictionAngle*N); Vector3r f=p->normalForce+p->shearForce+(slip?Vector3r(Vector3r::Zero()):Vector3r(p->cs*e.vs)); eq3(e.c.F(0),-f,"contact force with viscous shear part unless sliding"); e.c.balance(false); e.c.torquesAtContactPoint(); vf_reach("end"); }
extern "C" void h_ve(){ law(true,false,false); }
extern "C" void h_ve_x(){ law(false,false,false); }
extern "C" void h_ve_per(){ law(false,true,false); }
extern "C" void h_ve_rot(){ law(false,false,true); }
extern "C" void h_ve_roll(){ // rolling resistance: opposite moments of known size against the relative spin
	VE e(false,.125,.5); auto p=e.p; p->cn=p->cs=0; p->shearForce=Vector3r::Zero(); p->ks=p->tangensOfFrictionAngle=0; e.c.kinematics(); for(auto& b: {e.c.b1,e.c.b2}) b->state->vel=Vector3r::Zero(); p->mRtype=vf_pick(vf_int("type",1,2)); if(p->mRtype==2) for(auto& b: {e.c.b1,e.c.b2}) b->state->angVel[0]=b->state->angVel[2]=0; p->mR=vf_double_in("mR",.125,2); double N=p->kn*e.c.un; Vector3r w=e.c.b1->state->angVel-e.c.b2->state->angVel; bool keep=e.go(); vf_assert(keep,"kept"); Vector3r m=e.c.M(0); double arm=1; if(p->mRtype==2) arm=e.c.b1->state->angVel[1]*(e.c.cp-e.c.x1)[0]-e.c.b2->state->angVel[1]*(e.c.cp-e.c.x2)[0]; vf_assume(w.squaredNorm()>=.01); vf_eq(m.squaredNorm(),sq(p->mR*N*arm),1e-6,"size of the rolling resistance"); eq3(m.cross(w),Vector3r::Zero(),"rolling resistance is along the relative spin"); vf_le(m.dot(w),0,1e-6,"rolling resistance opposes the relative spin"); eq3(e.c.M(1),-m,"rolling resistance is opposite on the two bodies"); vf_reach("end"); }
extern "C" void h_ve_sep(){ VE e(true,-.5,0); vf_assume(e.c.un<0); bool cap=vf_pick(vf_int("cap",0,1)); Law2_ScGeom_ViscElCapPhys_Basic lc; lc.scene=e.sc; LawFunctor* l=cap?(LawFunctor*)&lc:&e.l; bool keep=l->go(e.c.I->geom,e.c.I->phys,e.c.I.get()); vf_assert(!keep,"a separated dry contact is dropped"); for(int i=0;i<2;i++){ eq3(e.c.F(i),Vector3r::Zero(),"no force without overlap"); eq3(e.c.M(i),Vector3r::Zero(),"no torque without overlap"); } vf_reach("end"); }
// liquid bridges: formed by contact, pulling while stretched below the critical length, gone beyond; count and volume are those of the stretched bridges
extern "C" void h_ve_bridge(){ VE e(false,0,.5); auto p=e.p; p->Capillar=true; p->CapillarType=Lambert; p->gamma=vf_double_in("gamma",.1,2); p->Vb=vf_double_in("Vb",.001,.01); p->theta=0; p->dcap=vf_pick(vf_int("damped",0,1))?vf_double_in("dcap",.1,2):0; p->shearForce=Vector3r::Zero(); Law2_ScGeom_ViscElCapPhys_Basic l; l.scene=e.sc; double R=2*e.c.r1*e.c.r2/(e.c.r1+e.c.r2); int act=0; bool made=false; double crit=0;
	for(int step=0;step<4;step++){ e.sc->forces.reset(step,true); bool touch=vf_pick(vf_int("touch",0,1)); double un=e.g->penetrationDepth=touch?vf_double_in("un",0,.5):-vf_double_in("gap",.001,1); e.c.b1->state->vel=Vector3r(vf_double_in("v",-1,1),0,0); bool keep=l.go(e.c.I->geom,e.c.I->phys,e.c.I.get()); if(touch) made=true; vf_assert(p->liqBridgeCreated==made,"a bridge is formed by contact"); if(made){ crit=p->sCrit; vf_eq(crit,l.critDist(p->Vb,R,0),1e-6,"critical length"); }
		bool on=!touch&&made&&-un<crit; vf_assert(keep==(touch||on),"kept while touching or bridged"); act=on?1:0; vf_eq((double)(int)l.NLiqBridg,act,1e-6,"number of stretched bridges"); vf_eq((double)l.VLiqBridg,act?p->Vb:0,1e-6,"volume of stretched bridges"); if(on){ double f=Law2_ScGeom_ViscElCapPhys_Basic::Lambert_f(*e.g,*p)-p->dcap*e.c.b1->state->vel[0]; eq3(e.c.F(0),Vector3r(f,0,0),"the bridge pulls, damped against the velocity"); eq3(e.c.F(1),Vector3r(-f,0,0),"the bridge pulls the two bodies oppositely"); vf_reach("bridge"); } if(!keep){ vf_reach("lost"); return; } } vf_reach("end"); }
extern "C" void h_ve_bridgeper(){ // damping of a stretched bridge in a periodic cell
	VE e(false,-.01,-.001); auto p=e.p; p->Capillar=p->liqBridgeCreated=true; p->CapillarType=None_Capillar; p->Vb=1; p->theta=0; p->dcap=vf_double_in("dcap",.1,2); p->shearForce=Vector3r::Zero(); e.c.kinematics(); e.periodic(); e.split(); Law2_ScGeom_ViscElCapPhys_Basic l; l.scene=e.sc; p->R=p->ViscElPhys::R=1; bool keep=l.go(e.c.I->geom,e.c.I->phys,e.c.I.get()); vf_assert(keep,"kept"); eq3(e.c.F(0),-p->dcap*e.vn*e.c.n,"bridge damping opposes the approach velocity"); eq3(e.c.F(1),p->dcap*e.vn*e.c.n,"bridge damping opposes the approach velocity"); vf_reach("end"); }
static double ser(double a,double b){ return a==0?b:b==0?a:a*b/(a+b); }
static shared_ptr<MatchMaker> mm(double v){ shared_ptr<MatchMaker> m(new MatchMaker("val")); m->val=v; return m; }
extern "C" void h_ve_ip2(){ shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,0,.5); shared_ptr<ViscElCapMat> m[2]; bool cap=vf_pick(vf_int("cap",0,1)); int mode=cap?1:vf_pick(vf_int("mode",0,4)), bad=cap?0:vf_pick(vf_int("bad",0,2)); double m1=vf_double_in("m1",.5,4), m2=vf_double_in("m2",.5,4); int zero=mode==0?vf_pick(vf_int("massless",0,2)):0; c.b1->state->mass=zero==1?0:m1; c.b2->state->mass=zero==2?0:m2; if(zero==1) m1=m2; if(zero==2) m2=m1; double tc=vf_double_in("tc",.5,2), em=vf_double_in("mm",.5,2);
	for(auto& a: m){ a=shared_ptr<ViscElCapMat>(new ViscElCapMat); a->young=vf_double_in("E",.5,9); a->poisson=vf_double_in("nu",.1,.5); a->frictionAngle=vf_double_in("phi",0,1.2); a->mRtype=1; if(mode==0||mode==4){ a->tc=mode==4?1:tc; a->en=.5; a->et=.25; } if(mode==1){ a->kn=vf_double_in("kn",.5,9); a->ks=vf_double_in("ks",.5,9); } if(mode==1||mode==2){ a->cn=vf_double_in("cn",.125,9); a->cs=vf_double_in("cs",.125,9); } } m[0]->id=0; m[1]->id=1; m[0]->mR=vf_double_in("mR",.125,2); m[1]->mR=vf_double_in("mR",.125,2); if(mode==2) m[1]->cs=0; if(mode==3) m[0]->mR=0; if(bad==1) m[1]->mRtype=2; if(bad==2) m[vf_pick(vf_int("who",0,1))]->et=(mode==0||mode==4)?NaN:.5; shared_ptr<Ip2_ViscElMat_ViscElMat_ViscElPhys> ip(cap?new Ip2_ViscElCapMat_ViscElCapMat_ViscElCapPhys:new Ip2_ViscElMat_ViscElMat_ViscElPhys); ip->scene=vfScene().get(); if(mode==4){ ip->tc=mm(tc); ip->en=mm(.5); ip->et=mm(.25); } int capBad=0; if(cap){ m[0]->Capillar=m[1]->Capillar=true; m[0]->Vb=m[1]->Vb=vf_double_in("Vb",0,1); m[0]->gamma=m[1]->gamma=vf_double_in("gamma",0,1); m[0]->theta=m[1]->theta=0; m[0]->CapillarType=m[1]->CapillarType="Soulie"; capBad=vf_pick(vf_int("capBad",0,4)); if(capBad==1) m[1]->Vb+=1; if(capBad==2) m[1]->gamma+=1; if(capBad==3) m[1]->theta+=1; if(capBad==4) m[1]->CapillarType="Lambert"; }
	bool thrown=false; try{ ip->go(m[0],m[1],c.I); } catch(std::exception&){ thrown=true; } if(bad||capBad){ vf_assert(thrown,"inconsistent materials are refused"); vf_assert(!c.I->phys,"inconsistent materials give no contact physics"); vf_reach("refused"); return; } vf_assert(!thrown,"no error"); auto p=YADE_PTR_DYN_CAST<ViscElPhys>(c.I->phys); vf_assert((bool)p,"contact physics is created"); double kn,ks,cn=0,cs=0; if(mode==0||mode==4){ double ln=std::log(.5), lt=std::log(.25), mr=m1*m2/(m1+m2), A=Mathr::PI*Mathr::PI; kn=(A+ln*ln)*mr/tc/tc; ks=2.0/7.0*(A+lt*lt)*mr/tc/tc; cn=-2*ln*mr/tc; cs=-4.0/7.0*lt*mr/tc; } else if(mode==1){ kn=ser(m[0]->kn,m[1]->kn); ks=ser(m[0]->ks,m[1]->ks); } else { double a=2*m[0]->young*c.r1, b=2*m[1]->young*c.r2; kn=ser(a,b); ks=ser(a*m[0]->poisson,b*m[1]->poisson); } if(mode==1||mode==2){ cn=ser(m[0]->cn,m[1]->cn); cs=ser(m[0]->cs,m[1]->cs); }
	vf_eq(p->kn,kn,1e-6,"normal stiffness"); vf_eq(p->ks,ks,1e-6,"shear stiffness"); vf_eq(p->cn,cn,1e-6,"normal viscosity"); vf_eq(p->cs,cs,1e-6,"shear viscosity"); vf_eq(p->mR,2*ser(m[0]->mR,m[1]->mR),1e-6,"rolling resistance"); vf_eq(p->tangensOfFrictionAngle,std::tan(m[0]->frictionAngle<m[1]->frictionAngle?m[0]->frictionAngle:m[1]->frictionAngle),1e-6,"friction is that of the smoother body"); if(cap){ auto q=YADE_PTR_DYN_CAST<ViscElCapPhys>(c.I->phys); vf_assert(q&&q->Capillar&&q->CapillarType==Soulie,"bridge model"); vf_eq(q->Vb,m[0]->Vb,1e-6,"bridge volume"); vf_eq(q->gamma,m[0]->gamma,1e-6,"surface tension"); } vf_reach("end"); }
#include <pkg/dem/LudingPM.hpp>
// Luding's hysteretic law
static void lud(int kind){ bool per=kind==1; VE e(false,.125,.5); if(kind==0){ e.c.b2->state->vel=Vector3r(vf_double_in("v",-5,5),0,0); } else e.c.kinematics(); if(per){ e.periodic(); for(auto& b: {e.c.b1,e.c.b2}) b->state->angVel=Vector3r::Zero(); e.c.b1->state->vel=Vector3r::Zero(); } shared_ptr<LudingPhys> p(new LudingPhys); e.c.I->phys=p; Law2_ScGeom_LudingPhys_Basic l; l.scene=e.sc; p->k1=vf_double_in("k1",1,2); p->kp=4; p->kc=vf_double_in("kc",0,3); p->ks=vf_double_in("ks",.1,5); p->G0=vf_double_in("G0",0,2); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=kind<2?Vector3r::Zero():Vector3r(0,vf_double_in("fs",-3,3),vf_double_in("fs",-3,3)); double D=p->DeltMax=kind?0:vf_double_in("max",0,1), P=p->DeltPMax=.5, d=e.c.un, d0=p->DeltNull=kind?0:vf_double_in("null",0,1); p->DeltPNull=.25; p->DeltPrev=vf_double_in("prev",0,1); bool un=d<p->DeltPrev; double k1=p->k1,kc=p->kc; e.split();
	double k2=D>=P?4:k1+(4-k1)*D/P; if(d>D){ d0=(1-k1/k2)*d; if(d0>.25) d0=.25; } double x=k2*(d-d0), f=x; if(x>=k1*d){ if(d<P) f=k1*d; } else if((x<=-kc*d)&un) f=-kc*d; double N=f+p->G0*e.vn; Vector3r trial=p->shearForce+p->ks*e.sc->dt*e.vs; bool keep=l.go(e.c.I->geom,e.c.I->phys,e.c.I.get()); vf_assert(keep,"an overlapping contact is kept"); eq3(p->normalForce,N*e.c.n,"hysteretic normal force"); coulomb(p->shearForce,trial,p->tangensOfFrictionAngle*N,"the elastic shear force never exceeds friction times the normal force"); bool slip=trial.squaredNorm()>sq(p->tangensOfFrictionAngle*N); Vector3r F=p->normalForce+p->shearForce+(slip?Vector3r(Vector3r::Zero()):Vector3r(p->G0*e.vs)); eq3(e.c.F(0),-F,"contact force with viscous shear part unless sliding"); if(!per) e.c.balance(false); e.c.torquesAtContactPoint(); vf_eq(p->DeltPrev,d,1e-6,"the overlap is remembered"); if(d>D) vf_eq(p->DeltMax,d,1e-6,"the largest overlap is remembered"); vf_reach("end"); }
extern "C" void h_lud(){ lud(0); }
extern "C" void h_lud_per(){ lud(1); }
extern "C" void h_lud_shear(){ lud(2); }
extern "C" void h_lud_ip2(){ shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,0,.5); shared_ptr<LudingMat> m[2]; for(auto& a: m){ a=shared_ptr<LudingMat>(new LudingMat); a->k1=vf_double_in("k1",.5,9); a->kp=vf_double_in("kp",.5,9); a->kc=vf_double_in("kc",0,9); a->ks=vf_double_in("ks",.5,9); a->G0=vf_double_in("G0",0,9); a->PhiF=vf_double_in("phi",.01,.5); a->frictionAngle=vf_double_in("f",0,1.2); } Ip2_LudingMat_LudingMat_LudingPhys ip; ip.scene=vfScene().get(); auto h=[](double a,double b){ return 2*ser(a,b); }; double k1=h(m[0]->k1,m[1]->k1), kp=h(m[0]->kp,m[1]->kp); bool thrown=false; try{ ip.go(m[0],m[1],c.I); } catch(std::exception&){ thrown=true; } vf_assert(thrown==(k1>=kp),"a loading branch steeper than the unloading one is refused"); if(thrown){ vf_assert(!c.I->phys,"no physics"); vf_reach("refused"); return; } auto p=YADE_PTR_DYN_CAST<LudingPhys>(c.I->phys); vf_eq(p->k1,k1,1e-6,"loading stiffness"); vf_eq(p->kp,kp,1e-6,"unloading stiffness"); vf_eq(p->kc,h(m[0]->kc,m[1]->kc),1e-6,"adhesive stiffness"); vf_eq(p->ks,h(m[0]->ks,m[1]->ks),1e-6,"shear stiffness"); vf_eq(p->G0,h(m[0]->G0,m[1]->G0),1e-6,"viscosity"); double ph=h(m[0]->PhiF,m[1]->PhiF); vf_eq(p->DeltPMax*(kp-k1),kp*ph*h(c.r1,c.r2),1e-6,"plasticity limit"); vf_eq(p->DeltPNull,ph*h(c.r1,c.r2),1e-6,"largest plastic overlap"); vf_eq(p->tangensOfFrictionAngle,std::tan(m[0]->frictionAngle<m[1]->frictionAngle?m[0]->frictionAngle:m[1]->frictionAngle),1e-6,"friction is that of the smoother body"); vf_reach("end"); }
extern "C" void h_lud_sep(){ VE e(true,-.5,0); vf_assume(e.c.un<0); shared_ptr<LudingPhys> p(new LudingPhys); e.c.I->phys=p; Law2_ScGeom_LudingPhys_Basic l; l.scene=e.sc; p->k1=1; p->kp=2; p->DeltMax=vf_double_in("max",0,1); p->DeltPMax=1; vf_assert(!l.go(e.c.I->geom,e.c.I->phys,e.c.I.get()),"a separated contact is dropped"); for(int i=0;i<2;i++) eq3(e.c.F(i),Vector3r::Zero(),"no force without overlap"); vf_reach("end"); }
