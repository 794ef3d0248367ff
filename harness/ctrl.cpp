#include "laws.h"
#include <pkg/dem/TriaxialStressController.hpp>
#include <pkg/dem/PeriIsoCompressor.hpp>
#include <pkg/dem/FrictPhys.hpp>
#include <pkg/common/Box.hpp>
int vf_paused=0;
void Omega::pause(){ vf_paused++; }
// C25: stress and strain controllers
static Scene* sc; static std::vector<shared_ptr<Body>> B;
static const int LO[3]={0,2,4}, HI[3]={1,3,5};
static double L[3],th;
// six box walls around two spheres; the loaded axis is symbolic, the others are held
static void walls(bool sym=true){ freshScene(); sc=vfScene().get(); B.clear(); th=.125; sc->dt=vf_double_in("dt",.01,1); for(int i=0;i<6;i++){ shared_ptr<Body> b(new Body); shared_ptr<Box> x(new Box); x->extents=Vector3r(th/2,th/2,th/2); b->shape=x; b->setDynamic(false); sc->bodies->insert(b); B.push_back(b); } for(int a=0;a<3;a++){ double p=sym?vf_double_in("low",-2,2):0; L[a]=sym?vf_double_in("size",1,4):(a+1); B[LO[a]]->state->pos=B[HI[a]]->state->pos=Vector3r::Zero(); B[LO[a]]->state->pos[a]=p; B[HI[a]]->state->pos[a]=p+L[a]+th; } for(int i=0;i<2;i++){ auto b=addSphere(Vector3r::Zero(),1); B.push_back(b); } }
static shared_ptr<Interaction> touch(int a,int b,bool real,double kn,double fn){ shared_ptr<Interaction> I(new Interaction(a,b)); if(real){ shared_ptr<FrictPhys> p(new FrictPhys); p->kn=kn; p->ks=kn; p->normalForce=Vector3r(fn,0,0); p->shearForce=Vector3r::Zero(); I->phys=p; shared_ptr<ScGeom> g(new ScGeom); g->normal=Vector3r(1,0,0); g->refR1=g->refR2=g->radius1=g->radius2=1; I->geom=g; } sc->interactions->insert(I); return I; }
static int dir(TriaxialStressController& e,int wall){ return 0; }
static void setGoal(TriaxialStressController& e,int a,double g){ (a==0?e.goal1:a==1?e.goal2:e.goal3)=g; }
static void activate(TriaxialStressController& e,int w,bool on){ (w==0?e.wall_left_activated:w==1?e.wall_right_activated:w==2?e.wall_bottom_activated:w==3?e.wall_top_activated:w==4?e.wall_back_activated:e.wall_front_activated)=on; }
extern "C" void h_tc_stress(){ walls(); TriaxialStressController e; e.scene=sc; e.internalCompaction=false; e.computeStressStrainInterval=1; e.max_vel=vf_double_in("maxVel",.1,3); e.stressDamping=vf_double_in("damping",0,1); e.stressMask=7; int a=vf_pick(vf_int("axis",0,2)); for(int w=0;w<6;w++) activate(e,w,false); int w=vf_pick(vf_int("side",0,1))?HI[a]:LO[a]; activate(e,w,true); double goal=vf_double_in("goal",-5,5); setGoal(e,a,goal); double k=0; if(vf_pick(vf_int("contact",0,1))){ k=vf_double_in("kn",1,9); touch(w,6,true,k,1); touch(w,7,false,99,1); touch(6,7,true,77,1); touch((w+2)%6,7,true,55,1); if(vf_pick(vf_int("unloaded",0,1))){ shared_ptr<Interaction> I=touch(w,7,true,33,0); } } for(int i=0;i<6;i++) B[i]->state->vel=Vector3r(1,1,1); double f=vf_double_in("F",-9,9); Vector3r F=Vector3r::Zero(); F[a]=f; sc->forces.addForce(w,F); 
	e.action(); int s=w==LO[a]?1:-1; double area=L[(a+1)%3]*L[(a+2)%3], tot=L[0]+L[1]+L[2], vmax=3*L[a]/tot*e.max_vel; double t=s*f-goal*area; // force in excess along the inward normal
	if(t!=0){ if(k>0) t/=k; if(k==0){ t=t>0?vmax*sc->dt:-vmax*sc->dt; } else if(t>vmax*sc->dt) t=vmax*sc->dt; else if(t<-vmax*sc->dt) t=-vmax*sc->dt; } Vector3r v=Vector3r::Zero(); v[a]=s*(1-e.stressDamping)*t/sc->dt; for(int i=0;i<6;i++) eq3(B[i]->state->vel,i==w?v:Vector3r(Vector3r::Zero()),"the wall moves so as to approach the stress, others are held"); vf_le(sq(v[a]),sq(vmax),1e-6,"walls do not exceed their speed limit"); vf_eq(e.externalWork,v[a]*sc->dt*f,1e-6,"work of the wall");
	vf_eq(e.stress[e.wall_id[0]==w?0:e.wall_id[1]==w?1:e.wall_id[2]==w?2:e.wall_id[3]==w?3:e.wall_id[4]==w?4:5][a]*area,s*f,1e-6,"stress on the wall, positive in tension"); vf_eq(e.meanStress*6*area,s*f,1e-6,"mean stress"); vf_eq(e.width,L[0],1e-6,"width"); vf_eq(e.height,L[1],1e-6,"height"); vf_eq(e.depth,L[2],1e-6,"depth"); vf_reach("end"); }
extern "C" void h_tc_second(){ // the second step adds part of the first displacement
	walls(false); TriaxialStressController e; e.scene=sc; e.internalCompaction=false; e.max_vel=vf_double_in("maxVel",.1,3); e.stressDamping=.5; e.stressMask=7; for(int w=0;w<6;w++) activate(e,w,w==3); e.goal2=-1; double k=vf_double_in("kn",1,9); auto I=touch(3,6,true,k,1); double v=0; for(int step=0;step<2;step++){ sc->iter=step; sc->forces.reset(step); double f=vf_double_in("F",0,9); sc->forces.addForce(3,Vector3r(0,f,0)); double t=(-f+3)/k, m=3*L[1]/6*e.max_vel*sc->dt; if(t>m) t=m; if(t<-m) t=-m; v=.5*t+.8*v; e.action(); eq3(B[3]->state->vel*sc->dt,Vector3r(0,-v,0),"the displacement of a wall is smoothed over the steps"); } vf_reach("end"); }
extern "C" void h_tc_strain(){ walls(); TriaxialStressController e; e.scene=sc; e.internalCompaction=false; int a=vf_pick(vf_int("axis",0,2)); e.stressMask=7-(1<<a); e.strainDamping=vf_double_in("damping",0,1); for(int w=0;w<6;w++) activate(e,w,w==LO[a]||w==HI[a]); double g=vf_double_in("rate",-2,2), v0=vf_double_in("v",-1,1), v1=vf_double_in("v",-1,1), f0=vf_double_in("F",-3,3), f1=vf_double_in("F",-3,3); setGoal(e,a,g); B[LO[a]]->state->vel[a]=v0; B[HI[a]]->state->vel[a]=v1; Vector3r F=Vector3r::Zero(); F[a]=f0; sc->forces.addForce(LO[a],F); F[a]=f1; sc->forces.addForce(HI[a],F); e.action(); double d=1-e.strainDamping, n0=v0+(-.5*g*L[a]-v0)*d, n1=v1+(.5*g*L[a]-v1)*d; vf_eq(B[LO[a]]->state->vel[a],n0,1e-6,"the walls approach the prescribed strain rate"); vf_eq(B[HI[a]]->state->vel[a],n1,1e-6,"the walls approach the prescribed strain rate"); vf_eq(e.getStrainRate()[a]*L[a],n1-n0,1e-6,"strain rate of the box"); vf_eq(e.externalWork,(n0*f0+n1*f1)*sc->dt,1e-6,"work of the walls"); vf_reach("end"); }
extern "C" void h_tc_porosity(){ walls(); TriaxialStressController e; e.scene=sc; e.internalCompaction=false; for(int w=0;w<6;w++) activate(e,w,false); double r0=vf_double_in("r",.1,.5), r1=vf_double_in("r",.1,.5); B[6]->shape->cast<Sphere>().radius=r0; B[7]->shape->cast<Sphere>().radius=r1; bool fix=vf_pick(vf_int("fixed",0,1)); if(fix) B[7]->setDynamic(false); e.action(); double V=L[0]*L[1]*L[2], vs=4./3*Mathr::PI*(r0*r0*r0+(fix?0:r1*r1*r1)); vf_eq(e.porosity*V,V-vs,1e-5,"porosity of the box"); vf_eq(e.boxVolume,V,1e-6,"volume of the box"); vf_eq(e.particlesVolume,vs,1e-5,"volume of the particles"); vf_eq(e.max_vel1*(L[0]+L[1]+L[2]),3*L[0]*e.max_vel,1e-6,"speed limit in proportion to the size"); vf_eq(e.max_vel2*(L[0]+L[1]+L[2]),3*L[1]*e.max_vel,1e-6,"speed limit in proportion to the size"); vf_eq(e.max_vel3*(L[0]+L[1]+L[2]),3*L[2]*e.max_vel,1e-6,"speed limit in proportion to the size");
	for(int i=0;i<3;i++) vf_eq(e.strain[i],0,1e-6,"no strain at first"); double grow=vf_double_in("grow",.5,2); B[3]->state->pos[1]+=(grow-1)*L[1]; e.computeStressStrainInterval=1; e.action(); vf_eq(e.height,grow*L[1],1e-6,"height"); vf_reach("end"); }
extern "C" void h_tc_internal(){ // growth of the particles towards the mean stress; walls are held
	walls(false); TriaxialStressController e; e.scene=sc; e.internalCompaction=true; e.max_vel=1; for(int i=0;i<6;i++) B[i]->state->vel=Vector3r(1,2,3); int mask=vf_pick(vf_int("mask",1,7)); e.stressMask=mask; double g=vf_double_in("goal",-9,-1); e.goal1=e.goal2=e.goal3=g; e.maxMultiplier=1.5; e.finalMaxMultiplier=1.25; double p=vf_double_in("p",0,12); for(int a=0;a<3;a++){ double A=6./L[a]; Vector3r F=Vector3r::Zero(); F[a]=-p*A; sc->forces.addForce(LO[a],F); sc->forces.addForce(HI[a],-F); } bool ctl=vf_pick(vf_int("iter",0,1)); sc->iter=ctl?20:21; double r=B[6]->shape->cast<Sphere>().radius; e.action(); for(int i=0;i<6;i++) eq3(B[i]->state->vel,Vector3r::Zero(),"walls are held"); double m=1; if(ctl){ vf_eq(e.meanStress,-p,1e-6,"mean stress"); double mm=p>=-g?1.25:1.5; m=p==0?mm:1+(g+p)/g*(mm-1); } vf_eq(B[6]->shape->cast<Sphere>().radius,m*r,1e-6,"the particles grow or shrink towards the mean stress"); vf_reach("end"); }
// periodic cell
static Matrix3r H; static double A[3];
static void cell(bool contact=true){ freshScene(); sc=vfScene().get(); B.clear(); sc->isPeriodic=true; sc->dt=vf_double_in("dt",.01,1); H=Matrix3r::Zero(); for(int i=0;i<3;i++) H(i,i)=vf_double_in("edge",2,6); sc->cell->hSize=H; sc->cell->postLoad(*sc->cell); for(int i=0;i<3;i++) A[i]=H((i+1)%3,(i+1)%3)*H((i+2)%3,(i+2)%3); for(int i=0;i<2;i++){ auto b=addSphere(v3in("pos",-2,2),.25); b->state->mass=vf_double_in("m",1,3); B.push_back(b); } }
static void prep(PeriTriaxController& e){ e.scene=sc; e.maxBodySpan=Vector3r(.5,.5,.5); for(int i=0;i<3;i++) e.maxStrainRate[i]=vf_double_in("maxRate",.1,3); }
static double lim(double r,double m){ return r>m?m:r<-m?-m:r; }
extern "C" void h_pt_strain(){ cell(); PeriTriaxController e; prep(e); int a=vf_pick(vf_int("axis",0,2)); e.growDamping=0; e.stressMask=7-(1<<a); for(int i=0;i<3;i++) if(i!=a) e.maxStrainRate[i]=0; double F=vf_double_in("F",.5,2); sc->cell->trsf=Matrix3r::Identity(); sc->cell->trsf(a,a)=F; double g=e.goal[a]=vf_double_in("goal",-1,1); e.action(); double s0=std::log(F), r=(std::exp(g-s0)-1)/sc->dt; double lo=-(H(a,a)-2.1*.5)/H(a,a)/sc->dt; r=lim(r,e.maxStrainRate[a]); if(r<lo) r=lo; vf_eq(sc->cell->velGrad(a,a),r,1e-6,"the strain rate reaches the goal in one step, within the limits"); vf_le(2.1*.5,H(a,a)*(1+r*sc->dt),1e-6,"the cell stays larger than the bodies"); vf_eq(e.strainRate[a],r,1e-6,"reported rate"); vf_reach("end"); }
static Vector3r fc; static Vector3r br; static double kn,ks; static Vector3r nn;
static void contact(){ shared_ptr<Interaction> I=touch(0,1,true,1,0); nn=Vector3r(vf_double_in("nx",-1,1),vf_double_in("ny",0,1),0); vf_assume_eq(nn.squaredNorm(),1); I->geom->cast<ScGeom>().normal=nn; FrictPhys& p=I->phys->cast<FrictPhys>(); p.kn=kn=vf_double_in("kn",1,5); p.ks=ks=vf_double_in("ks",1,5); p.normalForce=v3in("fn",-3,3); p.shearForce=v3in("fs",-3,3); fc=p.normalForce+p.shearForce; I->cellDist=Vector3i(1,0,-1); br=B[1]->state->pos+H*Vector3r(1,0,-1)-B[0]->state->pos; touch(1,0,false,1,1); }
extern "C" void h_pt_measure(){ cell(); contact(); PeriTriaxController e; prep(e); e.strainStressStiffUpdate(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) vf_eq(e.stressTensor(i,j)*(H(0,0)*H(1,1)*H(2,2)),-fc[i]*br[j],1e-6,"stress of the cell"); for(int i=0;i<3;i++){ double n=nn[i]<0?-nn[i]:nn[i]; vf_eq(e.stiff[i],n*kn+(1-n)*ks,1e-6,"stiffness of the packing"); vf_eq(e.stress[i],e.stressTensor(i,i),1e-6,"stress of the cell"); } vf_reach("end"); }
extern "C" void h_pt_stress(){ cell(); PeriTriaxController e; prep(e); e.globUpdate=5; sc->iter=3; int a=vf_pick(vf_int("axis",0,2)); e.stressMask=1<<a; for(int i=0;i<3;i++) if(i!=a) e.maxStrainRate[i]=0; Vector3r st(vf_double_in("k",1,9),vf_double_in("k",1,9),vf_double_in("k",1,9)); e.stiff=st; double s=e.stress[a]=vf_double_in("stress",-5,5), g=e.goal[a]=vf_double_in("goal",-5,5); e.growDamping=vf_double_in("damping",0,1); double pg=e.prevGrow[a]=vf_double_in("prev",-1,1); e.action(); double r=(1-e.growDamping)*((g-s)*A[a]/(st[a]*sc->dt))+.8*pg; r=lim(r,e.maxStrainRate[a]); double lo=-(H(a,a)-2.1*.5)/H(a,a)/sc->dt; if(r<lo) r=lo; vf_eq(sc->cell->velGrad(a,a),r,1e-6,"the strain rate follows the missing stress, within the limits"); vf_eq(e.prevGrow[a],r,1e-6,"the rate is kept for the next step"); for(int i=0;i<3;i++) if(i!=a) vf_eq(sc->cell->velGrad(i,i),0,1e-6,"axes limited to no rate do not move"); vf_reach("end"); }
extern "C" void h_pt_dyn(){ cell(); int a=vf_pick(vf_int("axis",0,2)); shared_ptr<Interaction> I=touch(0,1,true,1,0); Vector3r f=Vector3r::Zero(); f[a]=vf_double_in("f",-5,5); I->phys->cast<FrictPhys>().normalForce=f; fc=f; B[0]->state->pos=Vector3r::Zero(); B[1]->state->pos=Vector3r(1,1,1); br=Vector3r(1,1,1); PeriTriaxController e; prep(e); e.dynCell=true; bool own=vf_pick(vf_int("own",0,1)); double M=own?vf_double_in("mass",1,5):B[0]->state->mass+B[1]->state->mass; if(own) e.mass=M; e.stressMask=7; for(int i=0;i<3;i++) if(i!=a) e.maxStrainRate[i]=0; double g=e.goal[a]=vf_double_in("goal",-5,5); e.growDamping=.25; double r0=sc->cell->velGrad(a,a)=vf_double_in("rate",-2,2); e.action(); double V=H(0,0)*H(1,1)*H(2,2), d=g*V+fc[a]*br[a]; double sg=r0*d, df=1-e.growDamping*(sg>0?1:sg<0?-1:0); double r=lim(r0+df*sc->dt*(d/(V*M)),e.maxStrainRate[a]); double lo=-(H(a,a)-2.1*.5)/H(a,a)/sc->dt; if(r<lo) r=lo; vf_eq(sc->cell->velGrad(a,a),r,1e-6,"the cell accelerates with the missing stress, damped"); vf_reach("end"); }
extern "C" void h_pt_work(){ cell(); contact(); PeriTriaxController e; prep(e); e.dynCell=true; e.mass=1; e.stressMask=0; e.goal=Vector3r::Zero(); e.maxStrainRate=Vector3r::Zero(); sc->trackEnergy=true; sc->cell->velGrad(0,1)=vf_double_in("L01",-1,1); sc->cell->velGrad(2,0)=vf_double_in("L20",-1,1); sc->cell->prevVelGrad(0,0)=vf_double_in("P00",-1,1); sc->cell->prevVelGrad(1,2)=vf_double_in("P12",-1,1); double w0=e.externalWork=vf_double_in("W",-1,1); e.action(); Matrix3r g=.5*(sc->cell->velGrad+sc->cell->prevVelGrad); double w=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) w-=g(i,j)*fc[j]*br[i]; vf_eq(e.externalWork,w0+w*sc->dt,1e-6,"work of the boundary"); vf_eq(sc->energy->getItem_py("velGradWork"),-w*sc->dt,1e-6,"work entered in the energy balance"); vf_reach("end"); }
extern "C" void h_pt_small(){ cell(); PeriTriaxController e; prep(e); e.maxBodySpan=v3in("span",.5,2); e.maxStrainRate=Vector3r::Zero(); bool bad=false,ex=false; for(int i=0;i<3;i++) if(2.1*e.maxBodySpan[i]>H(i,i)) bad=true; try{ e.action(); }catch(std::exception&){ ex=true; } vf_assert(ex==bad,"cells smaller than twice the bodies are refused"); vf_reach("end"); }
// path-controlled cell: strains follow their paths exactly
extern "C" void h_p3_path(){ cell(); Peri3dController e; e.scene=sc; e.nSteps=4; e.stressMask=0; e.maxStrainRate=1e6; int a=vf_pick(vf_int("component",0,5)); double g=vf_double_in("goal",-1,1); bool two=vf_pick(vf_int("parts",0,1)); double mid=vf_double_in("mid",-1,1), last=vf_double_in("last",.5,2); for(int i=0;i<6;i++) e.goal[i]=i==a?g:.25*(i+1); if(two){ std::vector<Vector2r> p; p.push_back(Vector2r(1,mid)); p.push_back(Vector2r(2,last)); (a==0?e.xxPath:a==1?e.yyPath:a==2?e.zzPath:a==3?e.yzPath:a==4?e.zxPath:e.xyPath)=p; } double acc=0; vf_paused=0; for(int step=1;step<=4;step++){ sc->cell->trsf=Matrix3r::Identity(); e.action(); double q=step/4.; double want=two?(step<=2?mid*g/last*q*2:mid*g/last+(g-mid*g/last)*(q-.5)*2):g*q; vf_eq(e.strain[a],want,1e-6,"a controlled strain follows its path"); for(int i=0;i<6;i++) if(i!=a) vf_eq(e.strain[i],e.goal[i]*q,1e-6,"the other strains follow theirs"); vf_eq(e.progress,q,1e-6,"progress"); double rate=(want-acc)/sc->dt; acc=want; int I[6]={0,1,2,1,2,0}, J[6]={0,1,2,2,0,1}; vf_eq(sc->cell->velGrad(I[a],J[a]),a<3?rate:.5*rate,1e-6,"the cell deforms at the rate of the strain"); vf_eq(sc->cell->velGrad(J[a],I[a]),a<3?rate:.5*rate,1e-6,"the cell deforms at the rate of the strain"); vf_assert(e.dead==(step==4)&&vf_paused==(step==4),"finished after the last step"); } vf_reach("end"); }
extern "C" void h_p3_limit(){ cell(); Peri3dController e; e.scene=sc; e.nSteps=4; e.stressMask=0; double m=e.maxStrainRate=vf_double_in("max",.1,3); for(int i=0;i<6;i++) e.goal[i]=0; double g=e.goal[0]=vf_double_in("goal",-2,2), h=e.goal[1]=vf_double_in("goal",-2,2); e.action(); vf_le(sq(sc->cell->velGrad(0,0)),sq(m),1e-6,"strain rates are limited"); vf_le(sq(sc->cell->velGrad(1,1)),sq(m),1e-6,"strain rates are limited"); vf_eq(sc->cell->velGrad(0,0)*h,sc->cell->velGrad(1,1)*g,1e-6,"limiting keeps the proportions"); vf_eq(e.progress*g,sc->cell->velGrad(0,0)*sc->dt,1e-6,"progress is slowed down as much"); vf_eq(e.progress*h,sc->cell->velGrad(1,1)*sc->dt,1e-6,"progress is slowed down as much"); vf_eq(e.strain[0],sc->cell->velGrad(0,0)*sc->dt,1e-6,"the strain reported is the one applied"); vf_eq(e.strain[1],sc->cell->velGrad(1,1)*sc->dt,1e-6,"the strain reported is the one applied"); vf_reach("end"); }
// stress-controlled components of the path-controlled cell: the ideal stress follows the path, the strain rate is corrected against the extrapolated error
extern "C" void h_p3_stress(){ cell(); Peri3dController e; e.scene=sc; e.nSteps=4; e.stressMask=1; e.maxStrainRate=1e6; for(int i=0;i<6;i++) e.goal[i]=0; double g=e.goal[0]=vf_double_in("goal",-3,3), h=e.goal[1]=vf_double_in("strain",-1,1); e.mod=vf_double_in("mod",.1,1); double E=e.youngEstimation=vf_double_in("young",1,9); B[0]->state->pos=Vector3r::Zero(); B[1]->state->pos=Vector3r(1,0,0); auto I=touch(0,1,true,1,0); double r=0, so=0, si=0, q=0; for(int step=1;step<=3;step++){ sc->cell->trsf=Matrix3r::Identity(); double f=vf_double_in("f",-3,3); I->phys->cast<FrictPhys>().normalForce=Vector3r(f,0,0); double s=-f/(H(0,0)*H(1,1)*H(2,2)); e.action(); si+=g/4; vf_eq(e.stressIdeal[0],si,1e-6,"the ideal stress follows its path"); vf_eq(e.stress[0],s,1e-6,"stress of the cell"); double rate=h/(4*sc->dt); if(step==1) r=g/(4*sc->dt)/E*2-g/(4*sc->dt)/E; else { double err=2*(s-si)-(so-(si-g/4)); double m=r<0?-r:r, n=rate<0?-rate:rate; if(n>m) m=n; r+=err>0?-m*e.mod:m*e.mod; } so=s; (void)q; vf_eq(sc->cell->velGrad(1,1),rate,1e-6,"prescribed strains are applied"); if(step>1) vf_eq(sc->cell->velGrad(0,0),r,1e-6,"the strain rate is corrected against the stress error"); else r=sc->cell->velGrad(0,0); } vf_reach("end"); }
extern "C" void h_pi(){ // isotropic compression in stages
	cell(); PeriIsoCompressor e; e.scene=sc; e.maxSpan=.5; e.charLen=1; sc->iter=20; bool keep=e.keepProportions=vf_pick(vf_int("keep",0,1)); if(keep){ H=Matrix3r::Zero(); for(int i=0;i<3;i++){ H(i,i)=2+i; A[i]=24./(2+i); } sc->cell->hSize=H; sc->cell->postLoad(*sc->cell); } else { sc->cell->hSize(1,1)=H(1,1)=3; sc->cell->hSize(2,2)=H(2,2)=4; sc->cell->postLoad(*sc->cell); A[0]=12; A[1]=4*H(0,0); A[2]=3*H(0,0); } double g=vf_double_in("goal",-900,-1); e.stresses.push_back(g); e.stresses.push_back(2*g); auto I=touch(0,1,true,vf_double_in("kn",1,9),0); FrictPhys& p=I->phys->cast<FrictPhys>(); p.ks=p.kn; double f=vf_double_in("f",.5,5); p.normalForce=keep?Vector3r(f,f,f):Vector3r(f,0,0); e.action(); double d=1e-2; if(!keep){ double c=1e-4*(g+f/A[0])*A[0]/p.kn; c=lim(c,d); vf_eq(sc->cell->velGrad(0,0)*sc->dt*H(0,0),c,1e-6,"the cell shrinks in proportion to the missing stress, within the limit"); } for(int i=0;i<3;i++){ double c=sc->cell->velGrad(i,i)*sc->dt*H(i,i); vf_le(sq(c),sq(d),1e-6,"displacement per step is limited"); if(keep) vf_eq(sc->cell->velGrad(i,i),sc->cell->velGrad(0,0),1e-6,"proportions are kept"); } vf_reach("end"); }
