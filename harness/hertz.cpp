#include "laws.h"
#include <pkg/dem/HertzMindlin.hpp>
#include <pkg/common/MatchMaker.hpp>
// C19: Hertz-Mindlin law
struct HM{ shared_ptr<ScGeom> g; Contact c; shared_ptr<MindlinPhys> p; Law2_ScGeom_MindlinPhys_Mindlin l; Scene* sc; double dt,adh=0,root;
	HM(bool general,double lo,double hi): g(new ScGeom), c(g,general,lo,hi,lo>0), p(new MindlinPhys){ sc=vfScene().get(); dt=sc->dt; l.scene=sc; p->kno=vf_double_in("kno",.1,10); p->kso=vf_double_in("kso",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); c.I->phys=p; l.preventGranularRatcheting=false; root=lo>0?std::sqrt(c.un):0; }
	Vector3r incident(){ State &a=*c.b1->state,&b=*c.b2->state; if(l.preventGranularRatcheting){ double al=(c.r1+c.r2)/(c.r1+c.r2-c.un); return (b.vel-a.vel)*al-b.angVel.cross(c.r2*c.n)-a.angVel.cross(c.r1*c.n); } return b.vel+b.angVel.cross(c.cp-c.x2)-a.vel-a.angVel.cross(c.cp-c.x1); }
	bool go(){ return l.go(c.I->geom,c.I->phys,c.I.get()); }
};
static void law(bool general,bool energy){
	HM e(general,.25,.75); auto p=e.p; e.c.kinematics(); if(!general) e.c.b2->state->vel[0]=e.c.b1->state->vel[0]; if(energy){ for(auto& b: {e.c.b1,e.c.b2}){ b->state->angVel=Vector3r::Zero(); b->state->vel=Vector3r(0,b->state->vel[1],0); } } else e.l.preventGranularRatcheting=!general&&vf_pick(vf_int("ratch",0,1)); e.sc->isPeriodic=general&&vf_pick(vf_int("per",0,1)); p->shearElastic=energy?Vector3r(0,vf_double_in("fs",-3,3),0):v3in("fs",-3,3); p->usElastic=energy?Vector3r(0,vf_double_in("us",-3,3),0):Vector3r(v3in("us",-3,3)); Vector3r ue0=p->usElastic; p->usTotal=energy?Vector3r(0,1,0):Vector3r::Zero(); e.l.includeAdhesion=vf_pick(vf_int("adhesion",0,1)); double adh=p->adhesionForce=vf_double_in("adh",0,3); if(!e.l.includeAdhesion) adh=0; e.l.calcEnergy=energy;
	Vector3r v=e.incident(), vs=v-e.c.n.dot(v)*e.c.n, fs0=p->shearElastic; double ks=p->kso*e.root, fh=p->kno*e.root*e.c.un, fn=fh-adh; Vector3r trial=fs0-ks*e.dt*vs; bool keep=e.go(); vf_assert(keep,"an overlapping contact is kept"); eq3(p->normalForce,fn*e.c.n,"the normal force is that of Hertz less the adhesion"); vf_eq(p->kn*2,p->kno*e.root*3,1e-6,"the normal stiffness is the slope of the normal force"); vf_eq(p->ks,ks,1e-6,"the shear stiffness grows with the contact radius");
	if(fn>=0) coulomb(p->shearForce,trial,p->tangensOfFrictionAngle*(fn+adh)); else vf_le(p->shearForce.squaredNorm(),sq(p->tangensOfFrictionAngle*(adh-fn)),1e-6,"the shear force is limited"); eq3(p->shearElastic,p->shearForce,"without damping the shear force is elastic"); if(e.l.includeAdhesion) vf_assert(p->isAdhesive==(fn<0),"attractive contacts are flagged"); vf_eq(e.l.contactsAdhesive(),e.l.includeAdhesion&&fn<0?1:0,1e-6,"attractive contacts are counted"); if(fn>=0) vf_assert(p->isSliding==(trial.squaredNorm()>sq(p->tangensOfFrictionAngle*(fn+adh))),"sliding contacts are flagged"); vf_eq(e.l.ratioSlidingContacts(),p->isSliding?1:0,1e-6,"sliding contacts are counted");
	eq3(e.c.F(0),-p->normalForce-p->shearForce,"the force on the first body is minus the contact force"); if(!energy){ e.c.balance(false); e.c.torquesAtContactPoint(); }
	else { double du=-vs[1]*e.dt; if(p->isSliding) vf_eq((double)e.l.frictionDissipation,du*p->shearForce[1],1e-6,"friction dissipation"); else vf_eq((double)e.l.frictionDissipation,0,1e-6,"no friction dissipation without sliding"); vf_eq((double)e.l.shearEnergy,(p->usElastic[1]-ue0[1])*(fs0[1]+p->shearForce[1])*.5,1e-6,"elastic shear energy increment"); if(!p->isSliding) vf_eq(p->usElastic[1],ue0[1]+du,1e-6,"elastic slip"); vf_eq(p->usTotal[1],1+du,1e-6,"total slip"); vf_eq(e.l.normElastEnergy()*5,fh*e.c.un*2-adh*e.c.un*5,1e-6,"normal elastic energy is the work of the normal force"); vf_eq((double)e.l.normDampDissip,0,1e-6,"no damping"); vf_eq((double)e.l.shearDampDissip,0,1e-6,"no damping"); }
	vf_reach("end");
}
extern "C" void h_hm(){ law(true,false); }
extern "C" void h_hm_x(){ law(false,false); }
extern "C" void h_hm_energy(){ law(false,true); }
extern "C" void h_hm_damp(){ // viscous damping never makes a non-adhesive contact attract, and always dissipates
	HM e(false,.25,.75); auto p=e.p; p->kno=p->kso=1; e.c.b2->state->vel=v3in("vel",-5,5); e.c.b2->state->vel[2]=0; e.l.calcEnergy=true; int dyn=vf_pick(vf_int("dynamic",0,3)); double m1=e.c.b1->state->mass=vf_double_in("m1",.5,4), m2=e.c.b2->state->mass=vf_double_in("m2",.5,4); if(dyn&1) e.c.b1->setDynamic(false); if(dyn&2) e.c.b2->setDynamic(false); double m=dyn==1?m2:dyn==2?m1:m1*m2/(m1+m2), cn2,cs2; if(vf_pick(vf_int("linear",0,1))){ p->betan=vf_double_in("bn",0.125,1); p->betas=vf_double_in("bs",0.125,1); cn2=4*m*1.5*e.root*sq(p->betan); cs2=4*m*e.root*sq(p->betas); } else { p->alpha=vf_double_in("alpha",.125,2); cn2=cs2=sq(p->alpha*std::pow(e.c.un,.25))*m; } p->shearElastic=Vector3r(0,vf_double_in("fs",-1,1),0); p->shearViscous=v3in("old",-1,1);
	double vn=e.c.b2->state->vel[0], vs=e.c.b2->state->vel[1], fn=e.root*e.c.un, tr=p->shearElastic[1]-e.root*e.dt*vs; bool keep=e.go(); vf_assert(keep,"an overlapping contact is kept"); double N=p->normalForce[0]; vf_le(0,N,1e-6,"damping never makes a contact attractive"); if(N>0){ vf_eq(sq(fn-N),cn2*vn*vn,1e-6,"normal damping force is the coefficient times velocity"); vf_le(0,(fn-N)*vn,1e-6,"normal damping opposes the velocity"); } else vf_le(fn*fn,cn2*vn*vn,1e-6,"the force vanishes only if damping exceeds it"); vf_le(0,(double)e.l.normDampDissip,1e-6,"normal damping dissipates"); vf_eq((double)e.l.normDampDissip,(fn-N)*vn*e.dt,1e-6,"normal dissipation is the work of the damping force"); bool slip=tr*tr>sq(p->tangensOfFrictionAngle*N); vf_assert(p->isSliding==slip,"sliding contacts are flagged"); double S=p->shearForce[1]; if(slip){ vf_eq(S*S,sq(p->tangensOfFrictionAngle*N),1e-6,"a sliding contact is at the Coulomb limit"); vf_eq((double)e.l.shearDampDissip,0,1e-6,"no shear damping while sliding"); eq3(p->shearViscous,Vector3r::Zero(),"no shear damping while sliding"); vf_reach("slip"); } else { vf_eq(sq(tr-S),cs2*vs*vs,1e-6,"shear damping force is the coefficient times velocity"); vf_le(0,(tr-S)*vs,1e-6,"shear damping opposes the velocity"); vf_eq((double)e.l.shearDampDissip,(tr-S)*vs*e.dt,1e-6,"shear dissipation is the work of the damping force"); } eq3(e.c.F(0),-p->normalForce-p->shearForce,"the force on the first body is minus the contact force"); e.c.balance(false); vf_reach("end"); }
extern "C" void h_hm_rot(){ // history turns with the contact; rolling and twisting moments
	HM e(false,.5,.5); auto p=e.p; p->kno=1; bool mom=vf_pick(vf_int("moment",0,1)); if(mom) e.c.kinematics(); for(auto& b: {e.c.b1,e.c.b2}) b->state->vel=Vector3r::Zero(); e.c.rotation(e.g.get()); if(mom) p->kso=0; else p->shearElastic=Vector3r(0,vf_double_in("fs",-3,3),0); p->usElastic=v3in("ue",-1,1); p->usTotal=v3in("ut",-1,1); p->momentBend=v3in("mb",-1,1); p->momentTwist=v3in("mt",-1,1); e.l.includeMoment=mom; p->kr=vf_double_in("kr",0,2); p->ktw=vf_double_in("ktw",0,2); Vector3r v=e.incident(), vs=v-e.c.n.dot(v)*e.c.n, w=(e.c.b2->state->angVel-e.c.b1->state->angVel)*e.dt, wt=e.c.n.dot(w)*e.c.n, ft=e.c.rotated(p->shearElastic)-p->kso*e.root*e.dt*vs, ue=e.c.rotated(p->usElastic)-e.dt*vs, ut=e.c.rotated(p->usTotal)-e.dt*vs, mb=e.c.rotated(p->momentBend)-p->kr*(w-wt), mt=e.c.rotated(p->momentTwist)-p->ktw*wt; vf_assume(ft.squaredNorm()<=sq(p->tangensOfFrictionAngle*.125));
	bool keep=e.go(); vf_assert(keep,"kept"); eq3(p->shearElastic,ft,"the shear force turns with the contact"); eq3(p->usElastic,ue,"the elastic slip turns with the contact"); eq3(p->usTotal,ut,"the slip turns with the contact"); Vector3r a1=(e.c.cp-e.c.x1).cross(e.c.F(0)), a2=(e.c.cp-e.c.x2).cross(e.c.F(1)); if(e.l.includeMoment){ eq3(p->momentBend,mb,"rolling moment resists the relative rotation"); eq3(p->momentTwist,mt,"twisting moment resists the relative rotation"); a1-=mb+mt; a2+=mb+mt; vf_reach("moment"); } eq3(e.c.M(0),a1,"torque on the first body"); eq3(e.c.M(1),a2,"torque on the second body"); vf_reach("end"); }
extern "C" void h_hm_roll(){ HM e(false,.25,.75); auto p=e.p; p->kno=vf_double_in("k",1,4); p->momentBend=Vector3r(0,vf_double_in("mb",-2,2),vf_double_in("mb",-2,2)); p->maxBendPl=vf_double_in("eta",0,2); e.l.includeMoment=true; Vector3r mb=p->momentBend; bool keep=e.go(); vf_assert(keep,"kept"); if(p->maxBendPl>0) coulomb(p->momentBend,mb,p->maxBendPl*p->kno*e.root*e.c.un,"rolling moment limit","rolling moment limit reached","rolling moment is elastic below the limit","rolling moment keeps its direction"); else eq3(p->momentBend,mb,"no limit by default"); eq3(e.c.M(0),-p->momentBend,"torque"); vf_reach("end"); }
// separated contacts: no force; and the history does not survive separation
extern "C" void h_hm_sep(){ int law=vf_pick(vf_int("law",0,2)); HM e(false,-.5,0); vf_assume(e.c.un<0); auto p=e.p; bool never=vf_pick(vf_int("never",0,1)); p->shearElastic=p->shearForce=v3in("fs",-3,3); p->usElastic=p->usTotal=v3in("us",-1,1); p->momentBend=v3in("mb",-1,1); p->momentTwist=v3in("mt",-1,1); p->normalForce=v3in("fn",-1,1); p->kr=p->ktw=1; Law2_ScGeom_MindlinPhys_HertzWithLinearShear lin; Law2_ScGeom_MindlinPhys_MindlinDeresiewitz der; lin.scene=der.scene=e.sc; LawFunctor* l=law==0?(LawFunctor*)&e.l:law==1?(LawFunctor*)&lin:&der; e.l.neverErase=lin.neverErase=der.neverErase=never; bool keep=l->go(e.c.I->geom,e.c.I->phys,e.c.I.get()); vf_assert(keep==never,"a separated contact is dropped unless it must be kept"); for(int i=0;i<2;i++){ eq3(e.c.F(i),Vector3r::Zero(),"no force without overlap"); eq3(e.c.M(i),Vector3r::Zero(),"no torque without overlap"); }
	if(keep){ eq3(p->normalForce,Vector3r::Zero(),"no normal force without overlap"); eq3(p->shearForce,Vector3r::Zero(),"no shear force without overlap"); vf_eq(p->kn,0,1e-6,"no stiffness"); vf_eq(p->ks,0,1e-6,"no stiffness"); e.g->penetrationDepth=.25; p->tangensOfFrictionAngle=1000; e.l.includeMoment=true; e.sc->forces.reset(0); l->go(e.c.I->geom,e.c.I->phys,e.c.I.get()); eq3(p->shearForce,Vector3r::Zero(),"a contact made again starts without shear force"); for(int i=0;i<2;i++) eq3(e.c.M(i),Vector3r::Zero(),"a contact made again starts without moment"); vf_reach("again"); } vf_reach("end"); }
extern "C" void h_hm_linear(){ // linear shear; partial slip
	HM e(false,.25,.75); auto p=e.p; e.c.kinematics(); Law2_ScGeom_MindlinPhys_HertzWithLinearShear l; l.scene=e.sc; l.nonLin=vf_pick(vf_int("nonlin",0,3)); e.l.preventGranularRatcheting=l.nonLin==3; p->shearForce=v3in("fs",-3,3); e.g->shearInc=v3in("ds",-1,1); Vector3r v=e.incident(), vs=v-e.c.n.dot(v)*e.c.n; Vector3r trial=p->shearForce-(l.nonLin>0?p->kso*e.root:p->kso)*(l.nonLin>1?Vector3r(vs*e.dt):e.g->shearInc); double fn=p->kno*e.root*e.c.un; bool keep=l.go(e.c.I->geom,e.c.I->phys,e.c.I.get()); vf_assert(keep,"kept"); eq3(p->normalForce,fn*e.c.n,"the normal force is that of Hertz"); coulomb(p->shearForce,trial,p->tangensOfFrictionAngle*fn); eq3(e.c.F(0),-p->normalForce-p->shearForce,"the force on the first body is minus the contact force"); e.c.balance(false); e.c.torquesAtContactPoint(); vf_reach("end"); }
extern "C" void h_hm_slip(){ HM e(true,.25,.75); auto p=e.p; p->shearForce=v3in("fs",-3,3); Law2_ScGeom_MindlinPhys_MindlinDeresiewitz l; l.scene=e.sc; bool keep=l.go(e.c.I->geom,e.c.I->phys,e.c.I.get()); vf_assert(keep,"kept"); eq3(p->normalForce,p->kno*e.root*e.c.un*e.c.n,"the normal force is that of Hertz"); eq3(e.c.F(0),-p->normalForce-p->shearForce,"the force on the first body is minus the contact force"); e.c.balance(false); e.c.torquesAtContactPoint(); vf_reach("end"); }
static shared_ptr<MatchMaker> mm(double v){ shared_ptr<MatchMaker> m(new MatchMaker("val")); m->val=v; return m; }
template<class IP,class PH> static void ip2(){ shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,0,.5); shared_ptr<FrictMat> m[2]; for(auto& a: m){ a=shared_ptr<FrictMat>(new FrictMat); a->young=vf_double_in("E",.5,9); a->poisson=vf_double_in("nu",0,.5); a->frictionAngle=vf_double_in("phi",0,1.2); } m[0]->id=0; m[1]->id=1; IP ip; ip.scene=vfScene().get(); ip.gamma=vf_double_in("gamma",0,2); ip.eta=vf_double_in("eta",0,2); ip.krot=vf_double_in("krot",0,2); ip.ktwist=vf_double_in("ktw",0,2); if(vf_pick(vf_int("wall",0,1))){ g->refR1=-1; c.r1=c.r2; } int mode=vf_pick(vf_int("damping",0,6)); double bn=vf_double_in("bn",.1,.9), bs=vf_double_in("bs",.1,.9); if(mode&1) ip.betan=mm(bn); if(mode&2) ip.betas=mm(bs); bool en=mode>3; if(en) ip.en=mm(.5); bool thrown=false; try{ ip.go(m[0],m[1],c.I); } catch(std::exception&){ thrown=true; } if(en&&(mode&1)){ vf_assert(thrown,"contradictory damping parameters are refused"); return; } vf_assert(!thrown,"no error");
	auto p=YADE_PTR_DYN_CAST<PH>(c.I->phys); vf_assert((bool)p,"contact physics is created"); double Ea=m[0]->young,Eb=m[1]->young,va=m[0]->poisson,vb=m[1]->poisson; double E=Ea*Eb/((1-va*va)*Eb+(1-vb*vb)*Ea), R=c.r1*c.r2/(c.r1+c.r2), G=.5*(Ea/(2*(1+va))+Eb/(2*(1+vb))), V=.5*(va+vb); vf_eq(9*sq(p->kno),16*E*E*R,1e-5,"Hertz normal coefficient"); vf_le(0,p->kno,1e-6,"positive"); vf_eq(sq(p->kso*(2-V)),16*R*G*G,1e-5,"Mindlin shear coefficient"); vf_le(0,p->kso,1e-6,"positive"); vf_eq(p->adhesionForce,4.*Mathr::PI*R*ip.gamma,1e-6,"adhesion force"); vf_eq(p->tangensOfFrictionAngle,std::tan(m[0]->frictionAngle<m[1]->frictionAngle?m[0]->frictionAngle:m[1]->frictionAngle),1e-6,"friction is that of the smoother body"); vf_eq(p->kr,ip.krot,1e-6,"rolling stiffness"); vf_eq(p->ktw,ip.ktwist,1e-6,"twisting stiffness"); vf_eq(p->maxBendPl,ip.eta*(c.r1+c.r2)*.5,1e-6,"rolling strength");
	vf_eq(p->betan,mode==1||mode==3?bn:0,1e-6,"normal damping ratio"); if(!en) vf_eq(p->betas,mode&2?bs:mode&1?bn:0,1e-6,"shear damping ratio"); if(en){ double lg=std::log(.5); vf_eq(p->alpha,-std::sqrt(5/6.)*2*lg/std::sqrt(lg*lg+Mathr::PI*Mathr::PI)*std::sqrt(2*E*std::sqrt(R)),1e-6,"damping coefficient from restitution"); } else vf_eq(p->alpha,0,1e-6,"no restitution given"); vf_reach("end"); }
extern "C" void h_hm_ip2(){ ip2<Ip2_FrictMat_FrictMat_MindlinPhys,MindlinPhys>(); }
extern "C" void h_hm_ip2cap(){ ip2<Ip2_FrictMat_FrictMat_MindlinCapillaryPhys,MindlinCapillaryPhys>(); }
extern "C" void h_hm_es(){ // shear restitution alone
	shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,0,.5); shared_ptr<FrictMat> m(new FrictMat); m->young=1; m->id=0; Ip2_FrictMat_FrictMat_MindlinPhys ip; ip.scene=vfScene().get(); ip.es=mm(.5); bool thrown=false; try{ ip.go(m,m,c.I); } catch(std::exception&){ thrown=true; } vf_assert(thrown||(bool)c.I->phys,"an unsupported set of damping parameters is refused"); vf_reach("end"); }
