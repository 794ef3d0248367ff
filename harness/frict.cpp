#include "laws.h"
#include <pkg/dem/ElasticContactLaw.hpp>
#include <pkg/dem/FrictPhys.hpp>
// C06: linear frictional contact law
static void law(bool general,bool energy,bool periodic,bool visco){
	shared_ptr<ScGeom> g(new ScGeom); Contact c(g,general,0,.5); c.kinematics();
	shared_ptr<ViscoFrictPhys> p(new ViscoFrictPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=v3in("fs",-3,3); p->normalForce=v3in("fn",-1,1); c.I->phys=p;
	g->shearInc=v3in("ds",-1,1);
	Scene* sc=vfScene().get(); sc->isPeriodic=periodic; sc->trackEnergy=energy;
	shared_ptr<Law2_ScGeom_ViscoFrictPhys_CundallStrack> l(new Law2_ScGeom_ViscoFrictPhys_CundallStrack); l->scene=sc; l->sphericalBodies=vf_pick(vf_int("sph",0,1)); l->neverErase=vf_pick(vf_int("never",0,1)); l->traceEnergy=energy?vf_pick(vf_int("trace",0,1)):false;
	Vector3r trial=p->shearForce; g->rotate(trial); trial-=p->ks*g->shearInc;
	bool keep=visco?l->go(c.I->geom,c.I->phys,c.I.get()):l->Law2_ScGeom_FrictPhys_CundallStrack::go(c.I->geom,c.I->phys,c.I.get());
	vf_assert(keep,"an overlapping contact is kept");
	eq3(p->normalForce,p->kn*c.un*c.n,"normal force is stiffness times overlap along the normal"); 
	coulomb(p->shearForce,trial,p->tangensOfFrictionAngle*p->kn*c.un);
	eq3(c.F(0),-p->normalForce-p->shearForce,"the force on the first body is minus the contact force"); c.balance(false); c.torquesAtContactPoint();
	if(energy){ double d=(trial-p->shearForce).dot(p->shearForce)/p->ks; if(l->traceEnergy) vf_eq(l->getPlasticDissipation(),d,1e-6,"plastic dissipation is the work of the shear force in sliding"); else if(sc->energy->names.count("plastDissip")) vf_eq(sc->energy->getItem_py("plastDissip"),d,1e-6,"plastic dissipation is the work of the shear force in sliding");
		double e=.5*(p->normalForce.squaredNorm()/p->kn+p->shearForce.squaredNorm()/p->ks); vf_eq(sc->energy->getItem_py("elastPotential"),e,1e-6,"elastic energy of the contact"); vf_eq(l->elasticEnergy(),e,1e-6,"elastic energy of all contacts"); }
	vf_reach("end");
}
extern "C" void h_frict_rot(){ // the shear force turns with the contact
	shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,.125,.5); c.rotation(g.get()); shared_ptr<FrictPhys> p(new FrictPhys); p->kn=1; p->ks=vf_double_in("ks",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=Vector3r(0,vf_double_in("fs",-3,3),0); c.I->phys=p; g->shearInc=Vector3r(0,vf_double_in("ds",-1,1),vf_double_in("ds",-1,1)); Law2_ScGeom_FrictPhys_CundallStrack l; l.scene=vfScene().get(); Vector3r trial=c.rotated(p->shearForce)-p->ks*g->shearInc; vf_assume(trial.squaredNorm()<=sq(p->tangensOfFrictionAngle*c.un)); bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); vf_assert(keep,"an overlapping contact is kept"); eq3(p->shearForce,trial,"the shear force turns with the contact"); vf_reach("end"); }
extern "C" void h_frict(){ law(true,false,false,false); }
extern "C" void h_frict_per(){ law(true,false,true,true); }
extern "C" void h_frict_energy(){ law(false,true,false,false); }
extern "C" void h_frict_sep(){ // separated bodies
	shared_ptr<ScGeom> g(new ScGeom); Contact c(g,true,-.5,0); vf_assume(c.un<0); shared_ptr<FrictPhys> p(new FrictPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=v3in("fs",-3,3); p->normalForce=v3in("fn",-1,1); c.I->phys=p; g->shearInc=v3in("ds",-1,1);
	Scene* sc=vfScene().get(); sc->trackEnergy=vf_pick(vf_int("energy",0,1)); Law2_ScGeom_FrictPhys_CundallStrack l; l.scene=sc; l.neverErase=vf_pick(vf_int("never",0,1)); l.sphericalBodies=vf_pick(vf_int("sph",0,1));
	bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); vf_assert(keep==l.neverErase,"a separated contact is dropped unless it must be kept");
	if(keep){ eq3(p->normalForce,Vector3r::Zero(),"no normal force without overlap"); eq3(p->shearForce,Vector3r::Zero(),"no shear force without overlap"); }
	for(int i=0;i<2;i++){ eq3(c.F(i),Vector3r::Zero(),"no force without overlap"); eq3(c.M(i),Vector3r::Zero(),"no torque without overlap"); }
	vf_reach("end");
}
extern "C" void h_frict_creep(){ // shear creep only relaxes towards the crept force, and the result still obeys Coulomb
	shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,0,.5); c.kinematics(); shared_ptr<ViscoFrictPhys> p(new ViscoFrictPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->shearForce=v3in("fs",-3,3); p->creepedShear=v3in("cs",-3,3); c.I->phys=p; g->shearInc=v3in("ds",-1,1);
	Law2_ScGeom_ViscoFrictPhys_CundallStrack l; l.scene=vfScene().get(); l.shearCreep=vf_pick(vf_int("creep",0,1)); l.viscosity=vf_double_in("visc",1,9); l.creepStiffness=vf_double_in("cks",0,2);
	Vector3r f0=p->shearForce,c0=p->creepedShear,f=f0,cs=c0; double dt=vfScene()->dt; if(l.shearCreep){ cs=c0+l.creepStiffness*p->ks*(f0-c0)*dt/l.viscosity; f=f0-p->ks*(f0-cs)*dt/l.viscosity; } f-=p->ks*g->shearInc;
	bool k=l.go(c.I->geom,c.I->phys,c.I.get()); vf_assert(k,"an overlapping contact is kept"); eq3(p->creepedShear,cs,"crept shear force follows the viscous law"); coulomb(p->shearForce,f,p->tangensOfFrictionAngle*p->kn*c.un); c.balance(false); c.torquesAtContactPoint(); vf_reach("end");
}
