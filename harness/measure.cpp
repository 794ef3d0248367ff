#include "laws.h"
#include <pkg/dem/Shop.hpp>
#include <pkg/dem/FrictPhys.hpp>
#include <pkg/dem/NewtonIntegrator.hpp>
#include <pkg/common/ElastMat.hpp>
#include <pkg/common/Box.hpp>
#include <pkg/common/InsertionSortCollider.hpp>
#ifdef YADE_OPENGL
#include <pkg/common/Gl1_NormPhys.hpp>
Real Gl1_NormPhys::maxWeakFn; // display parameter set on the side
#endif
// C24: measured quantities
static Scene* sc; static std::vector<shared_ptr<Body>> B;
static void world(int n=3){ freshScene(); sc=vfScene().get(); B.clear(); sc->dt=.5; for(int i=0;i<n;i++){ auto b=addSphere(v3in("pos",-4,4),vf_double_in("r",.5,2)); b->state->mass=vf_double_in("m",.5,4); B.push_back(b); } }
static void periodic(bool shear=false){ sc->isPeriodic=true; Matrix3r H; H<<vf_double_in("edge",2,6),0,0, 0,vf_double_in("edge",2,6),0, 0,0,vf_double_in("edge",2,6); if(shear) H(0,1)=vf_double_in("shear",-3,3); sc->cell->hSize=H; sc->cell->postLoad(*sc->cell); }
struct Ct{ shared_ptr<Interaction> I; Vector3r f,n,cp; Vector3i cd; double N; bool real;
	Ct(int a,int b,const Vector3r& _n,bool r,bool full=true): n(_n),cd(0,0,0),real(r){ I=shared_ptr<Interaction>(new Interaction(a,b)); vfScene()->interactions->insert(I); if(!real) return; shared_ptr<ScGeom> g(new ScGeom); shared_ptr<FrictPhys> p(new FrictPhys); g->normal=n; cp=g->contactPoint=v3in("cp",-4,4); g->radius1=g->refR1=vf_double_in("R1",.5,2); g->radius2=g->refR2=vf_double_in("R2",.5,2); N=vf_double_in("fn",-5,5); p->normalForce=N*n; p->shearForce=full?v3in("fs",-3,3):Vector3r(Vector3r::Zero()); p->kn=vf_double_in("kn",1,5); p->ks=vf_double_in("ks",1,5); f=p->normalForce+p->shearForce; I->geom=g; I->phys=p; if(sc->isPeriodic) cd=I->cellDist=Vector3i(vf_pick(vf_int("cd",-1,1)),0,1); }
	ScGeom* g(){ return (ScGeom*)I->geom.get(); } FrictPhys* p(){ return (FrictPhys*)I->phys.get(); } };
static void eqM(const Matrix3r& a,const Matrix3r& b,const char* l){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) vf_eq(a(i,j),b(i,j),1e-6,l); }
extern "C" void h_ms_stress(){ world(); bool per=vf_pick(vf_int("periodic",0,1)); if(per) periodic(true); Ct a(0,1,Vector3r(0,1,0),true), b(2,1,Vector3r(1,0,0),vf_pick(vf_int("real",0,1))); double V=vf_pick(vf_int("given",0,1))?vf_double_in("V",1,9):0; if(!per&&V==0) return;
	Matrix3r s=Matrix3r::Zero(); for(Ct* c: {&a,&b}) if(c->real){ Vector3r br=B[c==&a?0:2]->state->pos-B[1]->state->pos; if(per) br-=sc->cell->hSize*c->cd.cast<double>(); s+=c->f*br.transpose(); }
	double vol=V; if(V==0) vol=sc->cell->hSize(0,0)*sc->cell->hSize(1,1)*sc->cell->hSize(2,2); eqM(Shop::getStress(V)*vol,s,"the stress is the sum of contact forces times branch vectors per volume"); vf_reach("end"); }
extern "C" void h_ms_bodystress(){ world(); for(auto& b: B) b->state->pos[2]=1; bool per=vf_pick(vf_int("periodic",0,1)); if(per) periodic(true); Ct a(0,1,Vector3r(0,1,0),true), b(2,1,Vector3r(1,0,0),vf_pick(vf_int("real",0,1))); std::vector<Matrix3r> s; Shop::getStressLWForEachBody(s); vf_assert(s.size()==3,"one stress per body"); Matrix3r e[3]; for(auto& m: e) m=Matrix3r::Zero(); double k=4.0*Mathr::PI/3;
	for(Ct* c: {&a,&b}) if(c->real){ int i=c==&a?0:2; double R1=c->g()->refR1, R2=c->g()->refR2; Vector3r sh=per?Vector3r(sc->cell->hSize*c->cd.cast<double>()):Vector3r(Vector3r::Zero()); e[i]-=(1/(k*(R1*R1*R1)))*c->f*(c->cp-B[i]->state->pos).transpose(); e[1]+=(1/(k*(R2*R2*R2)))*c->f*(c->cp-B[1]->state->pos-sh).transpose(); }
	for(int i=0;i<3;i++) eqM(s[i],e[i],"the stress of a body comes from the forces at its contact points"); vf_reach("end"); }
extern "C" void h_ms_extrema(){ world(); for(auto& b: B){ b->state->pos[2]=1; b->shape->cast<Sphere>().radius=vf_pick(vf_int("r",1,2)); } bool gone=vf_pick(vf_int("gone",0,1)); if(gone) sc->bodies->erase(1,false); bool centers=vf_pick(vf_int("centers",0,1)); double cut=vf_double_in("cutoff",0,1); auto e=Shop::aabbExtrema(cut,centers); for(int k=0;k<3;k++){ double lo=1e9,hi=-1e9; for(int i=0;i<3;i++) if(!(gone&&i==1)){ double r=centers?0:B[i]->shape->cast<Sphere>().radius, x=B[i]->state->pos[k]; lo=std::min(lo,x-r); hi=std::max(hi,x+r); } vf_eq(e[0][k],lo+.5*cut*(hi-lo),1e-6,"lower corner of all spheres"); vf_eq(e[1][k],hi-.5*cut*(hi-lo),1e-6,"upper corner of all spheres"); } vf_reach("end"); }
extern "C" void h_ms_badcut(){ world(1); B[0]->state->pos=Vector3r(1,2,3); double c=vf_double_in("cutoff",-2,3); bool bad=false; try{ Shop::aabbExtrema(c,false); }catch(std::exception&){ bad=true; } vf_assert(bad==(c<0||c>1),"cutoffs outside 0-1 are refused"); vf_reach("end"); }
extern "C" void h_ms_volume(){ world(); bool gone=vf_pick(vf_int("gone",0,1)); if(gone) sc->bodies->erase(1,false); if(vf_pick(vf_int("box",0,1))) B[2]->shape=shared_ptr<Shape>(new Box); int mask=vf_pick(vf_int("mask",-1,2)); B[0]->groupMask=1; B[2]->groupMask=vf_pick(vf_int("gm",1,3)); if(!gone) B[1]->groupMask=2; double v=0,m=0,all=0; for(int i=0;i<3;i++) if(!(gone&&i==1)){ Sphere* s=dynamic_cast<Sphere*>(B[i]->shape.get()); if(!s) continue; double w=(4/3.)*Mathr::PI*(s->radius*s->radius*s->radius); all+=w; if(mask<=0||(B[i]->groupMask&mask)){ v+=w; m+=B[i]->state->mass; } }
	vf_eq(Shop::getSpheresVolume(vfScene(),mask),v,1e-6,"volume of the chosen spheres"); vf_eq(Shop::getSpheresMass(vfScene(),mask),m,1e-6,"mass of the chosen spheres"); double V=vf_double_in("V",1,99); if(vf_pick(vf_int("periodic",0,1))){ periodic(); V=sc->cell->hSize(0,0)*sc->cell->hSize(1,1)*sc->cell->hSize(2,2); vf_eq(Shop::getPorosity(vfScene(),-1)*V,V-all,1e-6,"porosity of the cell"); } else vf_eq(Shop::getPorosity(vfScene(),V)*V,V-all,1e-6,"porosity of the given volume"); vf_reach("end"); }
extern "C" void h_ms_kinetic(){ world(); bool gone=vf_pick(vf_int("gone",0,1)), per=vf_pick(vf_int("periodic",0,1)); int kind=vf_pick(vf_int("kind",0,3)); Matrix3r L=Matrix3r::Zero(); if(per){ periodic(); L(0,1)=vf_double_in("L01",-1,1); L(1,0)=vf_double_in("L10",-1,1); L(2,2)=vf_double_in("L22",-1,1); sc->cell->velGrad=L; } for(auto& b: B){ b->state->vel=v3in("vel",-3,3); b->state->angVel=v3in("spin",-3,3); b->state->inertia=v3in("inertia",.5,3); }
	if(kind==1) B[2]->setDynamic(false); if(kind==2) B[2]->clumpId=0; if(kind==3){ B[2]->setAspherical(true); B[2]->state->ori=Quaternionr(.5,.5,-.5,.5); } if(gone) sc->bodies->erase(1,false); Vector3r w0=per?Vector3r(0,0,.5*(L(1,0)-L(0,1))):Vector3r(Vector3r::Zero()); double E=0,mx=0,e[3]={0,0,0}; for(int i=0;i<3;i++){ if(gone&&i==1) continue; if(i==2&&(kind==1||kind==2)) continue; const State* s=B[i]->state.get(); Vector3r v=s->vel; if(per) v-=L*(s->pos-s->vel*sc->dt); Vector3r w=s->angVel-w0; if(kind==3&&i==2) w=s->ori.conjugate()*w; e[i]=.5*s->mass*v.squaredNorm()+.5*(s->inertia[0]*w[0]*w[0]+s->inertia[1]*w[1]*w[1]+s->inertia[2]*w[2]*w[2]); E+=e[i]; }
	Body::id_t id=-5; vf_eq(Shop::kineticEnergy(sc,NULL),E,1e-6,"kinetic energy of all dynamic bodies, relative to the mean flow"); vf_reach("end"); }
extern "C" void h_ms_kinmax(){ world(); for(auto& b: B){ b->state->vel=Vector3r(vf_double_in("v",-3,3),0,0); b->state->mass=2; } Body::id_t id=-5; double E=Shop::kineticEnergy(sc,&id); double e[3],t=0; int k=-1; double mx=0; for(int i=0;i<3;i++){ e[i]=sq(B[i]->state->vel[0]); t+=e[i]; if(e[i]>mx){ mx=e[i]; k=i; } } vf_assert(id==k,"the body with the largest energy"); vf_eq(E,t,1e-6,"total energy"); vf_reach("end"); }
extern "C" void h_ms_momentum(){ world(); bool gone=vf_pick(vf_int("gone",0,1)); Vector3r o=v3in("origin",-3,3); for(auto& b: B){ b->state->vel=v3in("vel",-3,3); b->state->angMom=v3in("L",-3,3); } if(gone) sc->bodies->erase(1,false); Vector3r P=Vector3r::Zero(), L=P; for(int i=0;i<3;i++) if(!(gone&&i==1)){ P+=B[i]->state->mass*B[i]->state->vel; L+=B[i]->state->mass*(B[i]->state->pos-o).cross(B[i]->state->vel)+B[i]->state->angMom; } eq3(Shop::momentum(),P,"momentum"); eq3(Shop::angularMomentum(o),L,"angular momentum"); vf_reach("end"); }
extern "C" void h_ms_calm(){ world(); int mask=vf_pick(vf_int("mask",-1,2)); for(int i=0;i<3;i++){ B[i]->state->vel=v3in("vel",-3,3); B[i]->state->angVel=v3in("spin",-3,3); B[i]->state->angMom=v3in("L",-3,3); B[i]->groupMask=i+1; } int fix=vf_pick(vf_int("fixed",0,3)); if(fix<3) B[fix]->setDynamic(false); Vector3r v[3],w[3]; for(int i=0;i<3;i++){ v[i]=B[i]->state->vel; w[i]=B[i]->state->angVel; } Shop::calm(vfScene(),mask); for(int i=0;i<3;i++){ bool c=i!=fix&&(mask<=0||((i+1)&mask)); eq3(B[i]->state->vel,c?Vector3r(Vector3r::Zero()):v[i],"exactly the chosen dynamic bodies are stopped"); eq3(B[i]->state->angVel,c?Vector3r(Vector3r::Zero()):w[i],"exactly the chosen dynamic bodies are stopped"); if(c) eq3(B[i]->state->angMom,Vector3r::Zero(),"stopped bodies have no angular momentum"); } vf_reach("end"); }
extern "C" void h_ms_unbalanced(){ world(); Vector3r g=Vector3r::Zero(); if(vf_pick(vf_int("gravity",0,1))){ shared_ptr<NewtonIntegrator> n(new NewtonIntegrator); g=n->gravity=Vector3r(vf_double_in("g",0,5),0,0); sc->engines.push_back(n); } int kind=vf_pick(vf_int("kind",0,2)); if(kind==1) B[2]->setDynamic(false); if(kind==2) B[2]->clumpId=0; double s=0,mx=0; int nb=0; for(int i=0;i<3;i++){ double f=vf_double_in("f",0,5); sc->forces.addForce(i,Vector3r(f,0,0)); if(i==2&&kind>0) continue; f+=B[i]->state->mass*g[0]; s+=f; mx=std::max(mx,f); nb++; } Ct a(0,1,Vector3r(0,1,0),true,false), b(2,1,Vector3r(1,0,0),vf_pick(vf_int("real",0,1)),false); vf_assume(a.N>=.1); if(b.real) vf_assume(b.N>=.1); double m=a.N; int ni=1; if(b.real){ m+=b.N; ni=2; } bool useMax=vf_pick(vf_int("max",0,1)); double u=Shop::unbalancedForce(useMax,sc); if(useMax) vf_eq(u*m,mx*ni,1e-6,"largest body force over mean contact force"); else vf_eq(u*m*nb,s*ni,1e-6,"mean body force over mean contact force"); vf_reach("end"); }
extern "C" void h_ms_unbclump(){ // a clump takes the forces of its members when called before the integrator
	world(4); for(auto& b: B) b->state->mass=1; shared_ptr<Clump> cl(new Clump); B[2]->shape=cl; B[2]->clumpId=2; B[2]->state->pos=Vector3r::Zero(); Clump::add(B[2],B[0]); Clump::add(B[2],B[1]); double f0=vf_double_in("f",.1,5), f1=vf_double_in("f",.1,5), f3=vf_double_in("f",.1,5); sc->forces.addForce(0,Vector3r(f0,0,0)); sc->forces.addForce(1,Vector3r(f1,0,0)); sc->forces.addForce(3,Vector3r(0,f3,0)); double g=0; if(vf_pick(vf_int("gravity",0,1))){ shared_ptr<NewtonIntegrator> n(new NewtonIntegrator); g=vf_double_in("g",.1,5); n->gravity=Vector3r(g,0,0); sc->engines.push_back(n); } B[2]->state->mass=2; B[3]->state->mass=1; double w3=g==0?f3:0; Ct a(0,3,Vector3r(0,1,0),true,false); vf_assume(a.N>=.1); double u=Shop::unbalancedForce(false,sc); if(g==0) vf_eq(u*a.N*2,f0+f1+w3,1e-6,"members act on their clump"); else vf_eq(sq(u*a.N*2-(f0+f1+2*g)),f3*f3+g*g,1e-6,"members act on their clump"); vf_reach("end"); }
extern "C" void h_ms_total(){ world(); Ct a(0,1,Vector3r(0,1,0),true), b(2,1,Vector3r(1,0,0),vf_pick(vf_int("real",0,1))); double k=0; Vector3r f=Shop::totalForceInVolume(k,sc), e; double ks=a.p()->kn+2*a.p()->ks; int n=1; if(b.real){ ks+=b.p()->kn+2*b.p()->ks; n=2; } for(int i=0;i<3;i++) e[i]=std::abs(a.f[i])+(b.real?std::abs(b.f[i]):0); eq3(f,e,"sum of absolute contact forces"); vf_eq(k*3*n,ks,1e-6,"mean stiffness"); vf_reach("end"); }
extern "C" void h_ms_fabric(){ world(); for(auto& b: B) b->state->pos=Vector3r::Zero(); B[0]->state->pos=Vector3r(-4,-4,-4); B[2]->state->pos=Vector3r(4,4,4); double c=vf_double_in("c",-.7,.7), s=vf_double_in("s",.1,1); vf_assume_eq(c*c+s*s,1); Ct a(0,1,Vector3r(c,s,0),true,false), b(2,1,Vector3r(0,c,s),true,false), d(0,2,Vector3r(0,0,1),vf_pick(vf_int("real",0,1)),false); double thr=vf_pick(vf_int("threshold",0,1))?vf_double_in("thr",-4,4):std::numeric_limits<double>::quiet_NaN(); bool out=vf_pick(vf_int("outside",0,1)); if(out) a.g()->contactPoint=Vector3r(0,99,0);
	double F; Matrix3r f,fs,fw; Shop::fabricTensor(F,f,fs,fw,0,true,thr); int n=0,ns=0,nw=0; double m=0; Matrix3r e=Matrix3r::Zero(),es=e,ew=e; for(Ct* k: {&a,&b,&d}) if(k->real&&!(out&&k==&a)){ e+=k->n*k->n.transpose(); n++; m-=k->N; } vf_eq(F*n,m,1e-6,"mean normal force"); double sp=std::isnan(thr)?F:thr; for(Ct* k: {&a,&b,&d}) if(k->real&&!(out&&k==&a)){ if(-k->p()->normalForce.dot(k->n)<sp){ es+=k->n*k->n.transpose(); ns++; } else { ew+=k->n*k->n.transpose(); nw++; } } eqM(f*n,e,"fabric tensor"); if(ns) eqM(fs*ns,es,"fabric of strong contacts"); if(nw) eqM(fw*nw,ew,"fabric of weak contacts"); vf_reach("end"); }
extern "C" void h_ms_grow(){ world(4); for(auto& b: B) b->state->inertia=v3in("inertia",.5,3); double k=vf_double_in("k",.5,2); bool um=vf_pick(vf_int("mass",0,1)), dyn=vf_pick(vf_int("dynamicOnly",0,1)); int kind=vf_pick(vf_int("kind",0,2)); if(kind==1) B[1]->setDynamic(false); shared_ptr<Clump> cl; Vector3r l0; if(kind==2){ cl.reset(new Clump); B[3]->shape=cl; B[3]->clumpId=3; B[3]->state->pos=Vector3r(0,0,0); Clump::add(B[3],B[2]); l0=cl->members[2].position; }
	Ct a(0,1,Vector3r(0,1,0),true), b(2,1,Vector3r(1,0,0),true); double r[4],m[4],kn=a.p()->kn,ks=b.p()->ks; Vector3r in[4],p[4]; for(int i=0;i<4;i++){ r[i]=(kind==2&&i==3)?0:B[i]->shape->cast<Sphere>().radius; m[i]=B[i]->state->mass; in[i]=B[i]->state->inertia; p[i]=B[i]->state->pos; } Shop::growParticles(k,um,dyn);
	for(int i=0;i<4;i++){ bool g=!(dyn&&(kind==1&&i==1)); double q=g?k:1; if(kind==2&&i==3){ eq3(cl->members[2].position,k*l0,"clump members move apart"); } else { vf_eq(B[i]->shape->cast<Sphere>().radius,q*r[i],1e-6,"radii grow"); eq3(B[i]->state->pos,kind==2&&i==2?Vector3r(k*p[i]):p[i],"members move with their clump, other bodies stay"); } double qm=um?q:1; vf_eq(B[i]->state->mass,m[i]*(qm*qm*qm),1e-6,"mass grows with the volume"); eq3(B[i]->state->inertia,in[i]*(qm*qm*qm*qm*qm),"inertia grows with the fifth power"); }
	vf_eq(a.g()->refR1,k*r[0],1e-6,"contact radii follow"); vf_eq(b.g()->refR1,k*r[2],1e-6,"contact radii follow"); if(!(dyn&&kind==1)){ vf_eq(a.g()->refR2,k*r[1],1e-6,"contact radii follow"); vf_eq(b.g()->refR2,k*r[1],1e-6,"contact radii follow"); } vf_eq(a.p()->kn,k*kn,1e-6,"contact stiffness follows"); vf_eq(b.p()->ks,k*ks,1e-6,"contact stiffness follows"); vf_reach("end"); }
extern "C" void h_ms_growone(){ world(); Ct a(0,1,Vector3r(0,1,0),true), b(2,1,Vector3r(1,0,0),true), c(0,2,Vector3r(1,0,0),vf_pick(vf_int("real",0,1))); int id=vf_pick(vf_int("id",0,2)); bool um=vf_pick(vf_int("mass",0,1)); double k=vf_double_in("k",.5,2), r[3],m[3]; for(int i=0;i<3;i++){ r[i]=B[i]->shape->cast<Sphere>().radius; m[i]=B[i]->state->mass; } double R[2][2]={{a.g()->refR1,a.g()->refR2},{b.g()->refR1,b.g()->refR2}}; Shop::growParticle(id,k,um); for(int i=0;i<3;i++){ vf_eq(B[i]->shape->cast<Sphere>().radius,i==id?k*r[i]:r[i],1e-6,"only the chosen sphere grows"); vf_eq(B[i]->state->mass,i==id&&um?m[i]*(k*k*k):m[i],1e-6,"only the chosen sphere gets heavier"); } int ids[2][2]={{0,1},{2,1}}; for(int j=0;j<2;j++){ Ct& x=j?b:a; for(int s=0;s<2;s++) vf_eq(s?x.g()->refR2:x.g()->refR1,ids[j][s]==id?k*r[id]:R[j][s],1e-6,"contact radii follow the grown sphere"); } vf_reach("end"); }
extern "C" void h_ms_friction(){ world(); std::vector<shared_ptr<FrictMat>> m; for(int i=0;i<3;i++){ m.push_back(shared_ptr<FrictMat>(new FrictMat)); m[i]->frictionAngle=vf_double_in("phi",0,1); B[i]->material=m[i]; } int fix=vf_pick(vf_int("fixed",0,3)); if(fix<3) B[fix]->setDynamic(false); double f0=fix<3?m[fix]->frictionAngle:0; Ct a(0,1,Vector3r(0,1,0),true), b(2,1,Vector3r(1,0,0),vf_pick(vf_int("real",0,1))); double phi=vf_double_in("new",0,1); Shop::setContactFriction(phi); double e[3]; for(int i=0;i<3;i++){ e[i]=i==fix?f0:phi; vf_eq(m[i]->frictionAngle,e[i],1e-6,"dynamic bodies take the new friction angle"); } double x=e[0]<e[1]?e[0]:e[1], y=e[2]<e[1]?e[2]:e[1]; vf_eq(a.p()->tangensOfFrictionAngle,std::tan(x),1e-6,"contacts take the smaller friction angle"); if(b.real) vf_eq(b.p()->tangensOfFrictionAngle,std::tan(y),1e-6,"contacts take the smaller friction angle"); vf_reach("end"); }
extern "C" void h_ms_create(){ freshScene(); shared_ptr<FrictMat> m(new FrictMat); m->density=vf_double_in("rho",1,5); Vector3r c=v3in("c",-2,2), h=v3in("h",.5,2); double r=vf_double_in("r",.5,2); auto s=Shop::sphere(c,r,m); double V=4.0/3.0*Mathr::PI*(r*r*r); vf_eq(s->state->mass,V*m->density,1e-6,"mass of a sphere"); for(int i=0;i<3;i++) vf_eq(s->state->inertia[i],2.0/5.0*(s->state->mass*r*r),1e-6,"inertia of a sphere"); eq3(s->state->pos,c,"position"); vf_eq(s->shape->cast<Sphere>().radius,r,1e-6,"radius"); auto b=Shop::box(c,h,m); double mb=8*h[0]*h[1]*h[2]*m->density; vf_eq(b->state->mass,mb,1e-6,"mass of a box"); for(int i=0;i<3;i++) vf_eq(b->state->inertia[i]*3,mb*(sq(h[(i+1)%3])+sq(h[(i+2)%3])),1e-6,"inertia of a box"); eq3(b->shape->cast<Box>().extents,h,"half sizes"); vf_reach("end"); }
struct Col: InsertionSortCollider{ };
static void flip(int kind){ world(2); sc->isPeriodic=true; Matrix3r H; double a=vf_double_in("a",2,4), b=vf_double_in("b",2,4); H<<a,0,0, 0,b,0, 0,0,3; if(kind==0) H(0,1)=vf_double_in("shear",-6,6); if(kind==1) H(1,0)=vf_double_in("shear",-6,6); if(kind==2){ H<<2,0,0, 0,3,0, 0,0,4; H(0,1)=vf_double_in("xy",-2,2); H(1,2)=vf_pick(vf_int("yz",-2,2)); } if(kind==3){ H(0,1)=vf_double_in("xy",-1,1); H(1,0)=vf_double_in("yx",-1,1); } sc->cell->hSize=H; sc->cell->postLoad(*sc->cell); shared_ptr<Interaction> I(new Interaction(0,1)); Vector3i cd(vf_pick(vf_int("cd",-1,1)),vf_pick(vf_int("cd",0,1)),1); I->cellDist=cd; sc->interactions->insert(I); shared_ptr<InsertionSortCollider> c(new InsertionSortCollider); sc->engines.push_back(c);
	Matrix3r F=Matrix3r::Zero(); if(kind==3){ F(0,1)=vf_pick(vf_int("flip",1,2)); F(1,2)=vf_pick(vf_int("flip",-1,1)); } Matrix3r R=Shop::flipCell(F); Matrix3r H2=sc->cell->hSize; if(kind==3) eqM(R,F,"the requested flip is made"); eqM(H2,H+H*R,"the cell is flipped as reported"); Matrix3r G=Matrix3r::Identity()+R; vf_eq(G.determinant(),1,1e-6,"flipping keeps the volume of the cell"); eq3(H2*I->cellDist.cast<double>(),H*cd.cast<double>(),"contacts keep the same image"); vf_eq(sc->cell->getVolume(),H.determinant(),1e-6,"the cell is updated"); if(kind==0){ vf_le(0,H2.col(0).dot(H2.col(1)),1e-6,"axes at no more than a right angle"); } vf_reach("end"); }
extern "C" void h_ms_flipxy(){ flip(0); }
extern "C" void h_ms_flipyx(){ flip(1); }
extern "C" void h_ms_flip3(){ flip(2); }
extern "C" void h_ms_flipgiven(){ flip(3); }
