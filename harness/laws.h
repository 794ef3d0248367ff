// Two bodies in contact, with a consistent sphere-sphere geometry and arbitrary values
#pragma once
#include "env.h"
#include <pkg/dem/ScGeom.hpp>
#include <pkg/common/Sphere.hpp>
#include <pkg/common/NormShearPhys.hpp>
#include <core/EnergyTracker.hpp>
static inline double sq(double a){ return a*a; }
static inline Vector3r unit(const char* n){ Vector3r v=v3in(n,-1,1); vf_assume_eq(v.squaredNorm(),1); return v; }
static inline shared_ptr<Body> addSphere(const Vector3r& pos,double r){ shared_ptr<Body> b(new Body); shared_ptr<Sphere> s(new Sphere); s->radius=r; b->shape=s; b->state->pos=pos; vfScene()->bodies->insert(b); return b; }
struct Contact{ shared_ptr<Body> b1,b2; shared_ptr<Interaction> I; Vector3r n,cp,x1,x2; double r1,r2,un;
	// general=true: any unit normal; otherwise along x (laws are checked with a general normal where the solver can)
	// square=true: the overlap is the square of a variable between the bounds
	Contact(const shared_ptr<ScGeom>& g,bool general,double unMin=-1,double unMax=.5,bool square=false){
		freshScene(); vfScene()->dt=vf_double_in("dt",1e-3,1); r1=vf_double_in("r1",.5,2); r2=vf_double_in("r2",.5,2); un=vf_double_in("un",unMin,unMax); if(square) un*=un;
		n=general?unit("n"):Vector3r(1,0,0); x1=v3in("x",-2,2); x2=x1+(r1+r2-un)*n; cp=x1+(r1-.5*un)*n;
		b1=addSphere(x1,r1); b2=addSphere(x2,r2); I=shared_ptr<Interaction>(new Interaction(0,1));
		g->normal=n; g->contactPoint=cp; g->penetrationDepth=un; g->radius1=r1; g->radius2=r2; I->geom=g; vfScene()->interactions->insert(I);
	}
	// rotation of the contact since the last step, and what it does to a vector attached to the contact
	Vector3r tilt=Vector3r::Zero(),spin=Vector3r::Zero();
	void rotation(ScGeom* g){ Vector3r m=n+v3in("oldNormal",-.5,.5), w=v3in("meanSpin",-1,1), inc=g->shearInc; State s1,s2; s1.angVel=w; s2.angVel=w; g->normal=m; g->precompute(s1,s2,vfScene().get(),I,n,false,Vector3r::Zero(),false); g->shearInc=inc; tilt=m.cross(n); spin=vfScene()->dt*m.dot(w)*m; }
	Vector3r rotated(Vector3r f) const { f-=f.cross(tilt); return f-f.cross(spin); }
	void kinematics(){ for(auto& b: {b1,b2}){ b->state->vel=v3in("vel",-5,5); b->state->angVel=v3in("angVel",-5,5); } }
	Vector3r F(int i){ vfScene()->forces.sync(); return vfScene()->forces.getForce(i); }
	Vector3r M(int i){ vfScene()->forces.sync(); return vfScene()->forces.getTorque(i); }
	// Newton's third law, and no net moment about the contact point (hence about any point)
	void balance(bool torques=true){ eq3(F(0)+F(1),Vector3r::Zero(),"the contact forces on the two bodies are opposite");
		if(torques) eq3(M(0)+M(1)+(x1-cp).cross(F(0))+(x2-cp).cross(F(1)),Vector3r::Zero(),"the contact exerts no net moment on the pair"); }
	void torquesAtContactPoint(){ eq3(M(0),(cp-x1).cross(F(0)),"the torque on the first body is that of the force at the contact point"); eq3(M(1),(cp-x2).cross(F(1)),"the torque on the second body is that of the force at the contact point"); }
};
// Coulomb: f is the trial force trial, scaled back onto the cone when it was outside
static inline void coulomb(const Vector3r& f,const Vector3r& trial,double maxF,const char* l1="the shear force never exceeds friction times the normal force",const char* l2="sliding scales the shear force back to the Coulomb limit",const char* l3="below the Coulomb limit the shear force is elastic",const char* l4="sliding keeps the direction of the shear force"){
	double t2=trial.squaredNorm(), m2=maxF*maxF; vf_le(f.squaredNorm(),m2,1e-6,l1);
	if(t2>m2){ vf_eq(f.squaredNorm(),m2,1e-6,l2); eq3(f.cross(trial),Vector3r::Zero(),l4); vf_le(0,f.dot(trial),1e-6,l4); vf_reach("slip"); } else { eq3(f,trial,l3); vf_reach("stick"); }
}
