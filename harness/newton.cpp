#include "laws.h"
#include <pkg/dem/NewtonIntegrator.hpp>
#include <pkg/common/Aabb.hpp>
// C05: motion of bodies
static double sgn(double x){ return x>0?1:(x<0?-1:0); }
struct W{ Scene* sc; NewtonIntegrator n; shared_ptr<Body> b; State* s; double dt; Vector3r f,m; int id;
	W(bool rot,bool pos=true){ freshScene(); sc=vfScene().get(); n.scene=sc; n.damping=0; sc->dt=dt=vf_double_in("dt",1e-3,1); b=addSphere(pos?v3in("pos",-5,5):Vector3r::Zero(),1); s=b->state.get(); id=b->id; s->isDamped=false; s->mass=vf_double_in("m",.5,5);
		s->vel=v3in("vel",-5,5); f=v3in("f",-9,9); sc->forces.addForce(id,f); m=Vector3r::Zero(); if(rot){ for(int i=0;i<3;i++) s->inertia[i]=vf_double_in("I",.5,5); s->angVel=v3in("w",-3,3); m=v3in("torque",-9,9); sc->forces.addTorque(id,m); } else s->inertia=Vector3r(1,1,1); }
};
static Vector3r damped(const Vector3r& a,const Vector3r& v,double dt,double d){ Vector3r r; for(int i=0;i<3;i++) r[i]=a[i]*(1-d*sgn(a[i]*(v[i]+.5*dt*a[i]))); return r; }
extern "C" void h_newton_lin(){ // blocked degrees of freedom and damping
	W w(false); Vector3r g=v3in("g",-10,10); w.n.gravity=g; int bl=vf_pick(vf_int("blocked",0,7))|(vf_pick(vf_int("rotBlocked",0,1))?56:0); w.s->blockedDOFs=bl; w.s->isDamped=true; w.n.damping=vf_double_in("damping",0,.9); Vector3r v0=w.s->vel,p0=w.s->pos;
	Vector3r a; for(int i=0;i<3;i++) a[i]=(bl>>i)&1?0:w.f[i]/w.s->mass+g[i]; a=damped(a,v0,w.dt,w.n.damping); w.n.action();
	for(int i=0;i<3;i++) if((bl>>i)&1) vf_eq(w.s->vel[i],v0[i],1e-6,"a blocked degree of freedom keeps its velocity"); else vf_eq(w.s->vel[i],v0[i]+w.dt*a[i],1e-6,"free velocity follows the damped Newton law"); eq3(w.s->pos,p0+w.dt*w.s->vel,"position follows the new velocity"); eq3(w.s->angVel,Vector3r::Zero(),"no torque, no rotation"); vf_reach("end");
}
extern "C" void h_newton_opts(){ // density scaling, damping switch, mask, prescribed moves, subdomains
	W w(false); Vector3r g=v3in("g",-10,10); w.n.gravity=g; w.n.damping=vf_double_in("damping",0,.9); if(vf_pick(vf_int("dscale",0,1))){ w.n.densityScaling=true; w.s->densityScaling=vf_double_in("scale",.1,4); } int mask=vf_pick(vf_int("mask",-1,2)); w.n.mask=mask; w.b->groupMask=vf_pick(vf_int("group",0,3)); Vector3r mv=Vector3r::Zero(); if(vf_pick(vf_int("move",0,1))){ mv=v3in("mv",-1,1); w.sc->forces.addMove(w.id,mv); }
	int sub=vf_pick(vf_int("sub",0,1)); w.b->subdomain=sub; w.sc->subdomain=vf_pick(vf_int("mySub",0,1)); Vector3r v0=w.s->vel,p0=w.s->pos; w.n.action();
	if(sub!=w.sc->subdomain){ eq3(w.s->vel,v0,"bodies of other subdomains are not touched"); eq3(w.s->pos,p0,"bodies of other subdomains are not touched"); vf_reach("other"); return; }
	double k=w.n.densityScaling?w.s->densityScaling:1; Vector3r v=v0+w.dt*k*(w.f/w.s->mass+g); eq3(w.s->vel,v,"velocity follows Newton's law"); bool moves=mask<=0||(mask&w.b->groupMask); eq3(w.s->pos,p0+mv+(moves?Vector3r(w.dt*v):Vector3r::Zero()),"bodies outside the mask do not move"); vf_reach("end");
}
static Quaternionr rotq(const Vector3r& a){ double t=a.norm(); if(t==0) return Quaternionr(1,0,0,0); Vector3r u=a/t*std::sin(.5*t); return Quaternionr(std::cos(.5*t),u[0],u[1],u[2]); }
static Quaternionr qmul(const Quaternionr& a,const Quaternionr& b){ return Quaternionr(a.w()*b.w()-a.x()*b.x()-a.y()*b.y()-a.z()*b.z(),a.w()*b.x()+a.x()*b.w()+a.y()*b.z()-a.z()*b.y(),a.w()*b.y()-a.x()*b.z()+a.y()*b.w()+a.z()*b.x(),a.w()*b.z()+a.x()*b.y()-a.y()*b.x()+a.z()*b.w()); }
static void eqq(const Quaternionr& a,const Quaternionr& b,const char* l){ vf_eq(a.w(),b.w(),1e-6,l); vf_eq(a.x(),b.x(),1e-6,l); vf_eq(a.y(),b.y(),1e-6,l); vf_eq(a.z(),b.z(),1e-6,l); }
static Quaternionr unitq(){ double q[4]; for(int i=0;i<4;i++) q[i]=vf_double_in("q",-1,1); vf_assume_eq(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3],1); return Quaternionr(q[0],q[1],q[2],q[3]); }
extern "C" void h_newton_rot(){ // rotation of bodies with spherical integration
	W w(true,false); int bl=vf_pick(vf_int("blocked",0,7))<<3; w.s->blockedDOFs=bl; if(vf_pick(vf_int("aspherical",0,1))){ w.b->setAspherical(true); if(!bl) w.n.exactAsphericalRot=false; } // aspherical bodies with a blocked axis, or on request, are integrated as spherical ones
	 if(vf_pick(vf_int("dscale",0,1))){ w.n.densityScaling=true; w.s->densityScaling=vf_double_in("scale",.1,4); } Vector3r w0=w.s->angVel,w1=w0; double k=w.n.densityScaling?w.s->densityScaling:1; for(int i=0;i<3;i++) if(!((bl>>(3+i))&1)) w1[i]+=w.dt*k*w.m[i]/w.s->inertia[i];
	w.n.action(); eq3(w.s->angVel,w1,"angular velocity follows the torque on free axes only"); vf_reach("end");
}
extern "C" void h_newton_rotdamp(){ W w(true,false); w.s->isDamped=true; w.n.damping=vf_double_in("damping",0,.9); w.s->vel=Vector3r::Zero(); w.sc->forces.reset(0); w.sc->forces.addTorque(w.id,w.m); Vector3r w0=w.s->angVel,a=w.m.cwiseQuotient(w.s->inertia); a=damped(a,w0,w.dt,w.n.damping); w.n.action(); eq3(w.s->angVel,w0+w.dt*a,"angular velocity follows the damped law"); vf_reach("end"); }
extern "C" void h_newton_ori(){ // orientation
	W w(false,false); w.s->angVel=v3in("w",-3,3); w.s->ori=unitq(); Quaternionr q0=w.s->ori; bool pr=vf_pick(vf_int("rot",0,1)); Vector3r r=Vector3r::Zero(); if(pr){ r=v3in("r",-1,1); w.sc->forces.addRot(w.id,r); } int mask=vf_pick(vf_int("mask",-1,1)); w.n.mask=mask; w.b->groupMask=vf_pick(vf_int("group",1,2));
	Quaternionr q=q0; if(mask<=0||w.b->groupMask==1){ q=qmul(rotq(w.dt*w.s->angVel),q); q=qmul(rotq(r),q); } Vector3r w0=w.s->angVel; w.n.action(); eq3(w.s->angVel,w0,"no torque: constant angular velocity"); eqq(w.s->ori,q,"orientation advances by the rotation vector of the step, then by the prescribed rotation"); vf_reach("end");
}
static Vector3r rotv(const Quaternionr& q,const Vector3r& v){ Vector3r u(q.x(),q.y(),q.z()); return v+2*q.w()*u.cross(v)+2*u.cross(u.cross(v)); }
static void asph(int which,bool scale,bool simple){ // aspherical leapfrog [Allen1989]; simple: no initial rotation, symbolic inertia and step
	W w(false,false); w.b->setAspherical(true); Quaternionr q0(1,0,0,0); if(!simple){ q0=which==0?Quaternionr(.5,.5,.5,.5):which==1?Quaternionr(.5,-.5,.5,.5):which==2?Quaternionr(0,1,0,0):Quaternionr(-.5,.5,.5,-.5); w.sc->dt=w.dt=.5; } w.s->ori=q0; for(int i=0;i<3;i++) w.s->inertia[i]=simple?vf_double_in("I",.5,5):1<<i; w.m[vf_pick(vf_int("torqueAxis",0,2))]=vf_double_in("torque",-3,3); w.sc->forces.addTorque(w.id,w.m); w.s->angMom=v3in("L",-3,3); Vector3r L0=w.s->angMom; double k=1; if(scale){ w.n.densityScaling=true; w.s->densityScaling=k=vf_double_in("scale",.1,4); } int mask=vf_pick(vf_int("mask",-1,1)); w.n.mask=mask; w.b->groupMask=vf_pick(vf_int("group",1,2)); w.n.action();
	Vector3r L1=L0+w.dt*w.m; eq3(w.s->angMom,L1,"angular momentum follows the torque"); Vector3r Ln=L0+.5*w.dt*w.m, wn=k*rotv(q0.conjugate(),Ln).cwiseQuotient(w.s->inertia), wh=k*rotv(q0.conjugate(),L1).cwiseQuotient(w.s->inertia); Quaternionr d=qmul(q0,Quaternionr(0,wn[0],wn[1],wn[2])), qh(q0.coeffs()+.25*w.dt*d.coeffs()), d2=qmul(qh,Quaternionr(0,wh[0],wh[1],wh[2])), q1(q0.coeffs()+.5*w.dt*d2.coeffs());
	if(mask>0&&w.b->groupMask!=1){ eqq(w.s->ori,q0,"bodies outside the mask do not rotate"); vf_reach("masked"); return; }
	double nn=std::sqrt(q1.coeffs().squaredNorm()); eqq(Quaternionr(w.s->ori.coeffs()*nn),q1,"orientation advances by the half-step angular velocity"); vf_eq(w.s->ori.coeffs().squaredNorm(),1,1e-6,"orientation stays a rotation"); vf_reach("end");
}
extern "C" void h_newton_asph_damp(){ W w(false,false); w.b->setAspherical(true); w.s->isDamped=true; w.s->vel=Vector3r::Zero(); w.sc->forces.reset(0); w.n.damping=vf_double_in("damping",0,.9); int ax=vf_pick(vf_int("axis",0,2)); Vector3r m=Vector3r::Zero(); m[ax]=vf_double_in("torque",-3,3); w.sc->forces.addTorque(w.id,m); w.s->angVel=Vector3r(1,1,1); w.s->angVel[ax]=vf_double_in("w",-3,3); Vector3r L0=w.s->angMom=Vector3r(1,2,-1); double d=m[ax]*(1-w.n.damping*sgn(m[ax]*w.s->angVel[ax])); w.n.action(); L0[ax]+=w.dt*d; eq3(w.s->angMom,L0,"the angular momentum of an aspherical body follows the damped torque"); vf_reach("end"); }
extern "C" void h_newton_asph_x(){ asph(vf_pick(vf_int("rotation",0,3)),false,false); }
extern "C" void h_newton_asph_y(){ asph(1,true,false); }
extern "C" void h_newton_asph_i(){ asph(2,false,true); }
static Matrix3r m3(const char* n,double r){ Matrix3r m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m(i,j)=vf_double_in(n,-r,r); return m; }
extern "C" void h_newton_per(){ // periodic cell: homothetic deformation
	W w(false); w.s->angVel=v3in("w",-3,3); w.sc->isPeriodic=true; auto cell=w.sc->cell; int h=vf_pick(vf_int("homo",0,3)); cell->homoDeform=h; Matrix3r pv=m3("pvg",1),vg=m3("vg",1); w.n.prevVelGrad=pv; cell->velGrad=vg; int how=vf_pick(vf_int("request",0,2)); Matrix3r nv=vg; if(how==1){ nv=m3("nvg",1); cell->setVelGrad(nv); } if(how==2){ nv=Matrix3r::Zero(); cell->setVelGrad(nv); } bool all=vf_pick(vf_int("fixed",0,1)); if(all) w.s->blockedDOFs=State::DOF_ALL; Vector3r v0=w.s->vel,p0=w.s->pos,w0=w.s->angVel; w.n.action();
	Vector3r v=v0; if(!all) v+=w.dt*w.f/w.s->mass; if(h>1) v+=w.dt*(pv*v0); if(h) v+=(nv-pv)*p0; eq3(w.s->vel,v,"velocity follows the mean field of the deforming cell"); eq3(w.s->pos,p0+w.dt*v,"position follows the new velocity");
	Matrix3r d=nv-pv; Vector3r spin(.5*(d(2,1)-d(1,2)),.5*(d(0,2)-d(2,0)),.5*(d(1,0)-d(0,1))); eq3(w.s->angVel,h?Vector3r(w0+spin):w0,"angular velocity follows the spin of the cell"); 
	for(int i=0;i<3;i++) for(int j=0;j<3;j++){ vf_eq(cell->velGrad(i,j),nv(i,j),1e-6,"a requested velocity gradient takes effect"); vf_eq(w.n.prevVelGrad(i,j),nv(i,j),1e-6,"the velocity gradient is remembered"); vf_eq(cell->prevVelGrad(i,j),nv(i,j),1e-6,"the velocity gradient is remembered"); vf_eq(cell->nextVelGrad(i,j),0,1e-6,"a request is consumed"); } vf_assert(!cell->velGradChanged,"a request is consumed"); vf_reach("end");
}
extern "C" void h_newton_perdamp(){ // damping acts on the fluctuation velocity
	W w(false); w.sc->isPeriodic=true; w.sc->cell->homoDeform=0; Matrix3r pv=Matrix3r::Zero(); pv(0,0)=vf_double_in("gxx",-1,1); pv(0,1)=vf_double_in("gxy",-1,1); w.n.prevVelGrad=pv; w.sc->cell->velGrad=pv; w.s->isDamped=true; w.n.damping=vf_double_in("damping",0,.9); w.s->vel[1]=w.s->vel[2]=0; w.sc->forces.reset(0); Vector3r f(w.f[0],0,0); w.sc->forces.addForce(w.id,f); Vector3r v0=w.s->vel,p0=w.s->pos; w.n.action(); eq3(w.s->vel,v0+w.dt*damped(f/w.s->mass,v0-pv*p0,w.dt,w.n.damping),"damping opposes the velocity relative to the mean field"); vf_reach("end");
}
extern "C" void h_newton_collide(){ // signals to the collider
	W w(false); shared_ptr<Aabb> bb(new Aabb); bb->refPos=v3in("ref",-5,5); bb->sweepLength=vf_double_in("sweep",0,2); bool has=vf_pick(vf_int("bound",0,1)); if(has) w.b->bound=bb; w.n.action(); Vector3r d=w.s->pos-bb->refPos; double m=0; for(int i=0;i<3;i++){ double x=d[i]<0?-d[i]:d[i]; if(x>m) m=x; }
	if(!has) vf_eq(w.n.maxVelocitySq,0,1e-6,"a body without bounds does not count"); else if(m!=0&&m>=bb->sweepLength) vf_assert(w.n.maxVelocitySq>1,"leaving the swept bound triggers collision detection"); else { vf_assert(w.n.maxVelocitySq>0,"a body inside its swept bound counts as updated"); vf_assert(w.n.maxVelocitySq<1,"a body inside its swept bound does not trigger collision detection"); } vf_reach("end");
}
extern "C" void h_newton_collide2(){ // the largest displacement of all bodies and threads counts
	freshScene(); Scene* sc=vfScene().get(); sc->dt=.5; vfMaxThreads=2; NewtonIntegrator n; n.scene=sc; n.damping=0; bool trig=false; int k=vf_pick(vf_int("n",1,3)); for(int i=0;i<k;i++){ auto b=addSphere(Vector3r::Zero(),1); b->state->mass=1; b->state->inertia=Vector3r(1,1,1); shared_ptr<Aabb> bb(new Aabb); bb->refPos=b->state->pos; bb->sweepLength=vf_double_in("sweep",.1,2); b->bound=bb; double v=vf_double_in("v",0,5); b->state->vel=Vector3r(0,0,v); if(v*.5>=bb->sweepLength) trig=true; }
	vfThread=vf_pick(vf_int("thread",0,1)); n.action(); vfThread=0; vfMaxThreads=1; vf_assert((n.maxVelocitySq>1)==trig,"any body leaving its swept bound triggers collision detection"); vf_reach("end");
}
extern "C" void h_newton_cellchange(){ W w(false,false); w.sc->isPeriodic=true; Vector3r a=v3in("old",1,3),b=v3in("new",1,3); w.sc->cell->setBox(a); w.n.action(); vf_eq(w.n.maxVelocitySq,0,1e-6,"unchanged cell"); w.sc->cell->setBox(b); w.n.action(); vf_eq(w.n.maxVelocitySq,(a-b).squaredNorm()/(w.dt*w.dt),1e-6,"a changed cell counts as motion"); w.n.action(); vf_eq(w.n.maxVelocitySq,0,1e-6,"the new cell size is remembered"); vf_reach("end"); }
extern "C" void h_newton_energy(){ // energies of one body
	W w(true,false); w.sc->trackEnergy=true; Vector3r g=v3in("g",-10,10); w.n.gravity=g; w.n.damping=0; bool as=vf_pick(vf_int("asph",0,1)); w.s->blockedDOFs=State::DOF_ALL; if(as){ w.b->setAspherical(true); double c=vf_double_in("qw",-1,1),s=vf_double_in("qv",-1,1); vf_assume_eq(c*c+s*s,1); int ax=vf_pick(vf_int("axis",0,2)); Vector3r u=Vector3r::Zero(); u[ax]=s; w.s->ori=Quaternionr(c,u[0],u[1],u[2]); } bool split=vf_pick(vf_int("split",0,1)); w.n.kinSplit=split;
	Vector3r wl=as?rotv(w.s->ori.conjugate(),w.s->angVel):w.s->angVel; double et=.5*w.s->mass*w.s->vel.squaredNorm(),er=.5*(w.s->inertia[0]*sq(wl[0])+w.s->inertia[1]*sq(wl[1])+w.s->inertia[2]*sq(wl[2])); w.n.action(); auto& E=*w.sc->energy; if(split){ vf_eq(E.getItem_py("kinTrans"),et,1e-6,"translational kinetic energy"); vf_eq(E.getItem_py("kinRot"),er,1e-6,"rotational kinetic energy"); } else vf_eq(E.getItem_py("kinetic"),et+er,1e-6,"kinetic energy"); vf_eq(E.getItem_py("gravWork"),-w.dt*w.s->mass*g.dot(w.s->vel),1e-6,"work of gravity"); vf_reach("end");
}
extern "C" void h_newton_dampenergy(){ W w(true,false); w.sc->trackEnergy=true; w.n.damping=vf_double_in("damping",.01,.9); w.s->isDamped=vf_pick(vf_int("damped",0,1)); w.s->blockedDOFs=State::DOF_ALL; double e=0; for(int i=0;i<3;i++){ double x=w.f[i]*w.s->vel[i],y=w.m[i]*w.s->angVel[i]; e+=(x<0?-x:x)+(y<0?-y:y); } w.n.action(); if(w.s->isDamped) vf_eq(w.sc->energy->getItem_py("nonviscDamp"),e*w.n.damping*w.dt,1e-6,"energy dissipated by damping"); else vf_assert(!w.sc->energy->names.count("nonviscDamp"),"undamped bodies dissipate nothing"); vf_reach("end"); }
extern "C" void h_newton_clump(){ // a clump moves as one rigid body driven by the forces on its members
	freshScene(); Scene* sc=vfScene().get(); sc->dt=vf_double_in("dt",1e-3,1); NewtonIntegrator n; n.scene=sc; n.damping=0; double dt=sc->dt; shared_ptr<Body> mb[2]; for(int i=0;i<2;i++) mb[i]=addSphere(v3in("mpos",-3,3),1); shared_ptr<Body> c(new Body); shared_ptr<Clump> cs(new Clump); c->shape=cs; c->state->pos=v3in("cpos",-3,3); sc->bodies->insert(c); c->clumpId=c->id; Quaternionr lo[2]; Vector3r lp[2]; for(int i=0;i<2;i++){ mb[i]->clumpId=c->id; lp[i]=v3in("lpos",-2,2); lo[i]=i?Quaternionr(0,1,0,0):Quaternionr(1,0,0,0); cs->members[mb[i]->id]=Se3r(lp[i],lo[i]); }
	State* s=c->state.get(); s->mass=vf_double_in("m",.5,5); for(int i=0;i<3;i++) s->inertia[i]=vf_double_in("I",.5,5); s->vel=v3in("vel",-3,3); s->angVel=Vector3r(0,0,vf_double_in("wz",-3,3)); s->blockedDOFs=State::DOF_RX|State::DOF_RY; Vector3r F=Vector3r::Zero(),T=Vector3r::Zero(); for(int i=0;i<2;i++){ Vector3r f=v3in("f",-5,5),t=v3in("t",-5,5); sc->forces.addForce(mb[i]->id,f); sc->forces.addTorque(mb[i]->id,t); F+=f; T+=t+(mb[i]->state->pos-s->pos).cross(f); } Vector3r fc=v3in("fc",-5,5); sc->forces.addForce(c->id,fc); Vector3r v0=s->vel,p0=s->pos,w0=s->angVel; n.action();
	eq3(s->vel,v0+dt*(F+fc)/s->mass,"the clump follows the sum of the forces on its members and on itself"); eq3(s->pos,p0+dt*s->vel,"the clump moves with its velocity"); eq3(s->angVel,w0+Vector3r(0,0,dt*T[2]/s->inertia[2]),"the clump follows the moments of the forces on its members"); eq3(sc->forces.getForce(c->id),F+fc,"force on the clump"); eq3(sc->forces.getTorque(c->id),T,"torque on the clump");
	for(int i=0;i<2;i++){ State* m=mb[i]->state.get(); eq3(m->pos,s->pos+rotv(s->ori,lp[i]),"members keep their place in the clump"); eqq(m->ori,qmul(s->ori,lo[i]),"members keep their orientation in the clump"); eq3(m->vel,s->vel+s->angVel.cross(m->pos-s->pos),"members have the rigid-body velocity"); eq3(m->angVel,s->angVel,"members rotate with the clump"); } vf_reach("end");
}
