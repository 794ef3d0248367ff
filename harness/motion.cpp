#include "laws.h"
#include <pkg/common/ForceEngine.hpp>
#include <pkg/common/TorqueEngine.hpp>
#include <pkg/common/GravityEngines.hpp>
#include <pkg/common/KinematicEngines.hpp>
#include <pkg/common/StepDisplacer.hpp>
#include <lib/smoothing/LinearInterpolate.hpp>
#include <pkg/dem/Shop.hpp>
// C16: engines that prescribe forces and motions
// three spheres, of which the middle one may have been erased; the engines act on a chosen list of ids
static std::vector<shared_ptr<Body>> B; static bool gone; static Scene* sc;
static void world(bool moving=true){ freshScene(); sc=vfScene().get(); B.clear(); for(int i=0;i<3;i++){ auto b=addSphere(v3in("pos",-2,2),vf_double_in("r",.5,2)); b->state->mass=vf_double_in("m",.5,4); if(moving){ b->state->vel=v3in("vel",-3,3); b->state->angVel=v3in("spin",-3,3); } B.push_back(b); } gone=vf_pick(vf_int("gone",0,1)); if(gone) vfScene()->bodies->erase(1,false); sc->dt=vf_double_in("dt",.001,1); }
static std::vector<int> someIds(){ int k=vf_pick(vf_int("ids",0,3)); std::vector<int> v; if(k&1) v.push_back(0); if(k==3) v.push_back(2); v.push_back(1); return v; }
static int times(const std::vector<int>& v,int i){ if(gone&&i==1) return 0; int n=0; for(int x: v) if(x==i) n++; return n; }
static Vector3r F(int i){ sc->forces.sync(); return sc->forces.getForce(i); }
static Vector3r M(int i){ sc->forces.sync(); return sc->forces.getTorque(i); }
extern "C" void h_me_force(){ world(false); auto ids=someIds(); Vector3r f=v3in("f",-5,5), t=v3in("t",-5,5); ForceEngine e; e.scene=sc; e.ids=ids; e.force=f; TorqueEngine q; q.scene=sc; q.ids=ids; q.moment=t; e.action(); q.action(); for(int i=0;i<3;i++) if(!(gone&&i==1)){ eq3(F(i),times(ids,i)*f,"the force acts on the listed bodies and on no other"); eq3(M(i),times(ids,i)*t,"the torque acts on the listed bodies and on no other"); } else eq3(F(i),Vector3r::Zero(),"an erased body gets no force"); vf_reach("end"); }
extern "C" void h_me_radial(){ world(false); auto ids=someIds(); RadialForceEngine e; e.scene=sc; e.ids=ids; e.axisPt=v3in("p",-2,2); e.axisDir=Vector3r(0,0,vf_double_in("d",.5,3)); e.postLoad(e); vf_eq(e.axisDir[2],1,1e-6,"the axis is normalized"); e.fNorm=vf_double_in("f",-3,3); e.action(); for(int i=0;i<3;i++){ Vector3r r=B[i]->state->pos-e.axisPt; r[2]=0; Vector3r f=F(i); if(!times(ids,i)||r.squaredNorm()==0){ eq3(f,Vector3r::Zero(),"no force on other bodies or on the axis"); continue; } vf_eq(f.squaredNorm(),sq(e.fNorm),1e-6,"the force has the given size"); eq3(f.cross(r),Vector3r::Zero(),"the force is radial"); vf_le(0,f.dot(r)*e.fNorm,1e-6,"a positive force points away from the axis"); } vf_reach("end"); }
extern "C" void h_me_drag(){ world(); auto ids=someIds(); int lin=vf_pick(vf_int("linear",0,1)); for(auto& b: B){ b->state->vel=Vector3r(vf_double_in("v",-2,2),vf_double_in("v",-2,2),0); } if(lin){ LinearDragEngine e; e.scene=sc; e.ids=ids; e.nu=vf_double_in("nu",.1,2); e.action(); for(int i=0;i<3;i++) eq3(F(i),times(ids,i)?Vector3r(-(6*Mathr::PI*e.nu*(gone&&i==1?0:B[i]->shape->cast<Sphere>().radius))*B[i]->state->vel):Vector3r(Vector3r::Zero()),"linear drag opposes the velocity"); } else { DragEngine e; e.scene=sc; e.ids=ids; e.Rho=vf_double_in("rho",.1,2); e.Cd=1; e.action(); for(int i=0;i<3;i++){ Vector3r f=F(i), v=B[i]->state->vel; if(!times(ids,i)){ eq3(f,Vector3r::Zero(),"no drag on other bodies"); continue; } double r=B[i]->shape->cast<Sphere>().radius, c=.5*e.Rho*(r*r*Mathr::PI); vf_eq(f.squaredNorm(),sq(c*v.squaredNorm()),1e-6,"drag grows with the square of the speed"); eq3(f.cross(v),Vector3r::Zero(),"drag is along the velocity"); vf_le(f.dot(v),0,1e-6,"drag opposes the velocity"); } } vf_reach("end"); }
static void gravity(int kind){ world(kind==0); int mask=vf_pick(vf_int("mask",0,1)); if(mask){ B[0]->groupMask=1; if(!gone) B[1]->groupMask=2; B[2]->groupMask=3; mask=vf_pick(vf_int("bit",1,2)); } auto on=[&](int i){ if(gone&&i==1) return false; return mask==0||(B[i]->groupMask&mask)!=0; };
	if(kind==0){ sc->trackEnergy=vf_pick(vf_int("energy",0,1)); bool cl=!gone&&vf_pick(vf_int("clump",0,1)); if(cl) B[1]->clumpId=1; GravityEngine e; e.scene=sc; e.warnOnce=false; e.mask=mask; e.gravity=v3in("g",-5,5); e.action(); double w=0; for(int i=0;i<3;i++){ bool a=on(i)&&!(cl&&i==1); eq3(F(i),a?Vector3r(e.gravity*B[i]->state->mass):Vector3r(Vector3r::Zero()),"weight of every body but clumps"); if(a) w-=e.gravity.dot(B[i]->state->vel)*B[i]->state->mass*sc->dt; } if(sc->trackEnergy&&sc->energy->names.count("gravWork")) vf_eq(sc->energy->getItem_py("gravWork"),w,1e-6,"work of gravity"); else vf_assert(!sc->trackEnergy||w==0,"work of gravity"); }
	if(kind==1){ CentralGravityEngine e; e.scene=sc; e.centralBody=0; e.mask=mask; e.accel=vf_double_in("a",-3,3); e.reciprocal=vf_pick(vf_int("reciprocal",0,1)); for(int i=1;i<3;i++) vf_assume((B[i]->state->pos-B[0]->state->pos).squaredNorm()>=.01); e.action(); Vector3r sum=Vector3r::Zero(); for(int i=1;i<3;i++){ Vector3r f=F(i), d=B[0]->state->pos-B[i]->state->pos; if(!on(i)){ eq3(f,Vector3r::Zero(),"no force on other bodies"); continue; } sum+=f; vf_eq(f.squaredNorm(),sq(e.accel*B[i]->state->mass),1e-6,"size of central gravity"); eq3(f.cross(d),Vector3r::Zero(),"central gravity points to the center"); vf_le(0,f.dot(d)*e.accel,1e-6,"central gravity points to the center"); } eq3(F(0),e.reciprocal?Vector3r(-sum):Vector3r(Vector3r::Zero()),"the central body gets the reaction on request"); }
	if(kind==2){ AxialGravityEngine e; e.scene=sc; e.mask=mask; e.axisPoint=v3in("p",-2,2); e.axisDirection=Vector3r(0,vf_double_in("d",.5,3),0); e.acceleration=vf_double_in("a",-3,3); e.action(); for(int i=0;i<3;i++){ Vector3r f=F(i), d=e.axisPoint-B[i]->state->pos; d[1]=0; if(!on(i)||d.squaredNorm()==0){ eq3(f,Vector3r::Zero(),"no force on other bodies or on the axis"); continue; } vf_eq(f.squaredNorm(),sq(e.acceleration*B[i]->state->mass),1e-6,"size of axial gravity"); eq3(f.cross(d),Vector3r::Zero(),"axial gravity points to the axis"); vf_le(0,f.dot(d)*e.acceleration,1e-6,"axial gravity points to the axis"); } }
	vf_reach("end"); }
extern "C" void h_me_gravity(){ gravity(0); }
extern "C" void h_me_central(){ gravity(1); }
extern "C" void h_me_axial(){ gravity(2); }
// kinematic engines: velocities of listed bodies are replaced, those of others kept; combined engines add up
static std::vector<Vector3r> v0,w0; static void keepState(){ v0.clear(); w0.clear(); for(auto& b: B){ v0.push_back(b->state->vel); w0.push_back(b->state->angVel); } }
static void others(const std::vector<int>& ids){ for(int i=0;i<3;i++) if(!times(ids,i)){ eq3(B[i]->state->vel,v0[i],"bodies not listed keep their velocity"); eq3(B[i]->state->angVel,w0[i],"bodies not listed keep their spin"); } }
extern "C" void h_me_translate(){ world(); keepState(); auto ids=someIds(); TranslationEngine e; e.scene=sc; e.ids=ids; e.velocity=vf_double_in("v",-3,3); e.translationAxis=unit("axis"); e.action(); others(ids); for(int i=0;i<3;i++) if(times(ids,i)){ eq3(B[i]->state->vel,e.velocity*e.translationAxis,"prescribed velocity"); eq3(B[i]->state->angVel,Vector3r::Zero(),"no spin"); } vf_reach("end"); }
extern "C" void h_me_rotate(){ world(); keepState(); auto ids=someIds(); int helix=vf_pick(vf_int("helix",0,1)); HelixEngine h; RotationEngine r; RotationEngine& e=helix?h:r; e.scene=sc; e.ids=ids; double w=e.angularVelocity=vf_double_in("w",-3,3); e.rotationAxis=Vector3r(0,0,1); e.zeroPoint=v3in("zero",-2,2); if(!helix) e.rotateAroundZero=vf_pick(vf_int("zero",0,1)); double lv=0,a0=h.angleTurned=vf_double_in("turned",-9,9); if(helix) lv=h.linearVelocity=vf_double_in("lv",-3,3); e.action(); others(ids); double th=w*sc->dt, c=std::cos(th), s=std::sin(th), ch=std::cos(th*.5), sh=std::sin(th*.5); c=1-2*sh*sh; s=2*sh*ch; for(int i=0;i<3;i++) if(times(ids,i)){ eq3(B[i]->state->angVel,Vector3r(0,0,w),"prescribed spin"); Vector3r v=Vector3r(0,0,lv)*sc->dt; Vector3r l=B[i]->state->pos-e.zeroPoint; if(helix||e.rotateAroundZero) v+=Vector3r(c*l[0]-s*l[1]-l[0],s*l[0]+c*l[1]-l[1],0); eq3(B[i]->state->vel*sc->dt,v,"the displacement of a step is a rotation about the axis, plus the translation of a helix"); } if(helix) vf_eq(h.angleTurned,a0+w*sc->dt,1e-6,"turned angle"); vf_reach("end"); }
extern "C" void h_me_combined(){ world(); keepState(); auto ids=someIds(); shared_ptr<TranslationEngine> a(new TranslationEngine), b(new TranslationEngine); shared_ptr<RotationEngine> r(new RotationEngine); a->ids=ids; a->velocity=vf_double_in("v",-3,3); a->translationAxis=v3in("axis",-1,1); b->velocity=vf_double_in("v",-3,3); b->translationAxis=v3in("axis",-1,1); r->angularVelocity=vf_double_in("w",-3,3); r->rotationAxis=Vector3r(0,1,0); auto e=CombinedKinematicEngine::fromTwo(a,b); vf_assert(e->ids==ids,"combined engines act on the bodies of the first"); e->comb.push_back(r); int dead=vf_pick(vf_int("dead",0,3)); if(dead<3) e->comb[dead]->dead=true; e->scene=sc; e->action(); others(ids); for(int i=0;i<3;i++) if(times(ids,i)){ Vector3r v=Vector3r::Zero(); if(dead!=0) v+=a->velocity*a->translationAxis; if(dead!=1) v+=b->velocity*b->translationAxis; eq3(B[i]->state->vel,v,"combined velocities add up"); eq3(B[i]->state->angVel,dead!=2?Vector3r(r->angularVelocity*r->rotationAxis):Vector3r(Vector3r::Zero()),"combined spins add up"); } vf_reach("end"); }
extern "C" void h_me_harmonic(){ world(); keepState(); auto ids=someIds(); sc->time=vf_double_in("t",0,9); if(vf_pick(vf_int("rot",0,1))){ HarmonicRotationEngine e; e.scene=sc; e.ids=ids; e.A=vf_double_in("A",0,2); e.f=vf_double_in("f",0,2); e.fi=vf_double_in("fi",-3,3); e.rotationAxis=Vector3r(1,0,0); e.action(); others(ids); double w=e.f*2.0*Mathr::PI; for(int i=0;i<3;i++) if(times(ids,i)) eq3(B[i]->state->angVel,Vector3r(-e.A*w*std::sin(w*sc->time+e.fi),0,0),"harmonic rotation"); } else { HarmonicMotionEngine e; e.scene=sc; e.ids=ids; e.A=v3in("A",0,2); e.f=v3in("f",0,2); e.fi=v3in("fi",-3,3); e.action(); others(ids); for(int i=0;i<3;i++) if(times(ids,i)) for(int k=0;k<3;k++){ double w=e.f[k]*2.0*Mathr::PI; vf_eq(B[i]->state->vel[k],-e.A[k]*w*std::sin(w*sc->time+e.fi[k]),1e-6,"harmonic motion"); } } vf_reach("end"); }
extern "C" void h_me_servo(){ // the servo moves along its axis at a speed that never exceeds the limit, corrected every period
	world(false); std::vector<int> ids={0,2}; ServoPIDController e; e.scene=sc; e.ids=ids; e.axis=Vector3r(0,vf_double_in("axis",.5,3),0); e.maxVelocity=vf_double_in("max",-2,2); e.target=vf_double_in("target",0,5); e.kP=vf_double_in("kP",0,2); e.kI=vf_double_in("kI",0,2); e.kD=vf_double_in("kD",0,2); e.iterPeriod=vf_pick(vf_int("period",1,3)); double it=0,prev=0,cur=0; long last=-1; for(int step=0;step<3;step++){ sc->iter=step; sc->forces.reset(step); double sg=step==0?vf_double_in("f",-5,5):vf_double_in("f",3,8); Vector3r f0=Vector3r(1,sg,2), f2=Vector3r(0,vf_double_in("f",step?-3:-5,step?3:5),0); sc->forces.addForce(0,f0); sc->forces.addForce(2,f2); sc->forces.addForce(1,Vector3r(7,7,7)); sc->forces.sync(); if(last<0||step-last>=e.iterPeriod){ double F=f0[1]+f2[1]; if(F<0) F=-F; double err=F-e.target; it+=err*e.kI; cur=err*e.kP+it+(err-prev)*e.kD; prev=err; double m=e.maxVelocity<0?-e.maxVelocity:e.maxVelocity; if(cur>m) cur=m; if(cur<-m) cur=-m; last=step; } e.action(); for(int i: ids){ eq3(B[i]->state->vel,Vector3r(0,cur,0),"servo velocity"); vf_le(B[i]->state->vel.squaredNorm(),sq(e.maxVelocity),1e-6,"the servo respects its speed limit"); } vf_eq(e.curVel,cur,1e-6,"reported velocity"); } vf_reach("end"); }
extern "C" void h_me_step(){ world(); keepState(); bool vel=vf_pick(vf_int("velocities",0,1)); StepDisplacer e; e.scene=sc; e.ids={0}; e.setVelocities=vel; e.mov=v3in("mov",-1,1); double a=vf_double_in("a",-1,1), b=vf_double_in("b",-1,1); vf_assume_eq(a*a+b*b,1); if(!vel) e.rot=Quaternionr(a,0,b,0); Vector3r p0=B[0]->state->pos; Quaternionr o0(.5,.5,-.5,.5); B[0]->state->ori=o0; e.action(); others({0}); if(vel){ eq3(B[0]->state->vel*sc->dt,e.mov,"the velocity makes the displacement in one step"); eq3(B[0]->state->angVel,Vector3r::Zero(),"no rotation"); eq3(B[0]->state->pos,p0,"positions are left to the integrator"); } else { eq3(B[0]->state->pos,p0+e.mov,"displacement"); Vector3r x=e.rot*(o0*Vector3r(1,2,3)); eq3(B[0]->state->ori*Vector3r(1,2,3),x,"rotation is applied after the present orientation"); eq3(B[0]->state->vel,v0[0],"velocity is kept"); } vf_reach("end"); }
// interpolation
static double ref(double t,const std::vector<double>& T,const std::vector<double>& V){ size_t n=T.size(); if(t<=T[0]) return V[0]; for(size_t i=0;i+1<n;i++) if(t<=T[i+1]) return V[i]+(V[i+1]-V[i])*((t-T[i])/(T[i+1]-T[i])); return V[n-1]; }
static void table(int n,std::vector<double>& T,std::vector<double>& V){ double t=vf_double_in("t0",-5,5); for(int i=0;i<n;i++){ T.push_back(t); V.push_back(vf_double_in("value",-9,9)); t+=vf_double_in("dt",.125,4); } }
extern "C" void h_me_interp(){ int n=vf_pick(vf_int("n",1,4)); std::vector<double> T,V; table(n,T,V); size_t pos=vf_pick(vf_int("pos",0,3)); for(int k=0;k<2;k++){ double t=vf_double_in("t",-9,25), x=linearInterpolate<double,double>(t,T,V,pos); vf_eq(x,ref(t,T,V),1e-6,"interpolated value, whatever was looked up before"); } vf_reach("end"); }
extern "C" void h_me_wrap(){ double x=vf_double_in("x",-20,20), a=vf_double_in("a",-5,5), L=vf_double_in("L",2,9); long p=99; double y=Shop::periodicWrap(x,a,a+L,&p); vf_le(a,y,1e-6,"wrapped value lies in the interval"); vf_assert(y<a+L,"wrapped value lies in the interval"); vf_eq(y+p*L,x,1e-6,"wrapping moves by whole periods"); vf_reach("end"); }
extern "C" void h_me_intforce(){ world(false); auto ids=someIds(); InterpolatingDirectedForceEngine e; e.scene=sc; e.ids=ids; std::vector<double> T,V; if(vf_pick(vf_int("fixed",0,1))){ T={1,2,4}; V={vf_double_in("a",-3,3),vf_double_in("b",-3,3),vf_double_in("c",-3,3)}; } else table(2,T,V); e.times=T; e.magnitudes=V; bool wrap=T.size()==3&&vf_pick(vf_int("wrap",0,1)); e.wrap=wrap; e.direction=Vector3r(vf_double_in("d",.5,3),0,0); for(int k=0;k<2;k++){ double t=sc->time=vf_double_in("t",0,9); sc->forces.reset(k); e.action(); if(wrap){ while(t>=4) t-=3; while(t<1) t+=3; } double f=ref(t,T,V); for(int i=0;i<3;i++) if(!(gone&&i==1)) eq3(F(i),Vector3r(times(ids,i)*f,0,0),"the force follows its table"); } vf_reach("end"); }
extern "C" void h_me_inthelix(){ world(); keepState(); std::vector<int> ids={0}; InterpolatingHelixEngine e; e.scene=sc; e.ids=ids; e.times={1,2,4}; std::vector<double> V={vf_double_in("a",-3,3),vf_double_in("b",-3,3),vf_double_in("c",-3,3)}; e.angularVelocities=V; e.slope=vf_double_in("slope",-2,2); e.rotationAxis=Vector3r(0,0,1); e.zeroPoint=B[0]->state->pos; e.wrap=vf_pick(vf_int("wrap",0,1)); double t=sc->time=vf_double_in("t",0,6); e.action(); others(ids); if(e.wrap){ if(t>=4) t-=3; if(t<1) t+=3; } double w=ref(t,e.times,V); eq3(B[0]->state->angVel,Vector3r(0,0,w),"the spin follows its table"); eq3(B[0]->state->vel,Vector3r(0,0,w*e.slope),"the helix advances with its slope"); vf_reach("end"); }
