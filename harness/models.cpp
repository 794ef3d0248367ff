#include "laws.h"
#include <pkg/dem/MortarMat.hpp>
#include <pkg/dem/WirePM.hpp>
#include <pkg/dem/FrictViscoPM.hpp>
#include <pkg/dem/JointedCohesiveFrictionalPM.hpp>
// C22: bonded and special contact models
static double mn(double a,double b){ return a<b?a:b; }
static double harm(double a,double b){ return 2*a*b/(a+b); }
static void zero(Contact& c,const char* l){ for(int i=0;i<2;i++){ eq3(c.F(i),Vector3r::Zero(),l); eq3(c.M(i),Vector3r::Zero(),l); } }
static void applied(Contact& c,const Vector3r& f){ eq3(c.F(0),-f,"force on the first body"); c.balance(false); c.torquesAtContactPoint(); }
// mortar: elastic inside the failure surface, dropped outside
extern "C" void h_mortar(){ shared_ptr<ScGeom> g(new ScGeom); bool periodic=vf_pick(vf_int("periodic",0,1)); Contact c(g,true,-.5,.5); vfScene()->isPeriodic=periodic; shared_ptr<MortarPhys> p(new MortarPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tangensOfFrictionAngle=vf_double_in("mu",0,2); p->crossSection=vf_double_in("A",.5,2); p->tensileStrength=vf_double_in("ft",.1,3); p->compressiveStrength=vf_double_in("fc",1,9); p->cohesion=vf_double_in("c",.1,3); p->ellAspect=vf_double_in("ell",1,3); p->neverDamage=vf_pick(vf_int("never",0,1)); p->shearForce=v3in("fs",-3,3); c.I->phys=p; g->shearInc=v3in("ds",-1,1); Vector3r t=p->shearForce; g->rotate(t); t-=p->ks*g->shearInc;
	Law2_ScGeom_MortarPhys_Lourenco l; l.scene=vfScene().get(); bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); double sn=-p->kn*c.un/p->crossSection, st=t.norm()/p->crossSection; bool fail=!p->neverDamage&&(sn>p->tensileStrength||st+sn*p->tangensOfFrictionAngle>p->cohesion||sn*sn+sq(p->ellAspect*st)>sq(p->compressiveStrength)); vf_assert(keep==!fail,"a mortar joint fails exactly outside its failure surface"); if(keep){ eq3(p->normalForce,p->kn*c.un*c.n,"elastic normal force"); eq3(p->shearForce,t,"elastic shear force"); applied(c,p->normalForce+p->shearForce); vf_reach("kept"); } else { zero(c,"a failed joint exerts nothing"); vf_reach("failed"); } vf_reach("end"); }
extern "C" void h_mortar_ip(){ freshScene(); auto I=shared_ptr<Interaction>(new Interaction(0,1)); shared_ptr<ScGeom> g(new ScGeom); bool wall=vf_pick(vf_int("wall",0,1)); double r1=g->refR1=vf_double_in("r",.5,2), r2=g->refR2=vf_double_in("r",.5,2); (void)wall; I->geom=g; shared_ptr<MortarMat> m[2]; bool same=vf_pick(vf_int("same",0,1)); for(int i=0;i<2;i++){ m[i]=shared_ptr<MortarMat>(new MortarMat); m[i]->id=same?3:i; m[i]->young=vf_double_in("E",1,9); m[i]->poisson=vf_double_in("nu",.1,1); m[i]->frictionAngle=vf_double_in("phi",0,1); m[i]->tensileStrength=vf_double_in("ft",1,9); m[i]->compressiveStrength=vf_double_in("fc",1,9); m[i]->cohesion=vf_double_in("c",1,9); m[i]->ellAspect=vf_double_in("ell",1,3); m[i]->neverDamage=vf_pick(vf_int("nd",0,1)); } if(same){ double E=m[0]->young; int id=m[1]->id; *m[1]=*m[0]; (void)E;(void)id; } Ip2_MortarMat_MortarMat_MortarPhys f; f.scene=vfScene().get(); f.go(m[0],m[1],I); MortarPhys& p=I->phys->cast<MortarPhys>(); vf_eq(p.kn,harm(m[0]->young*r1,m[1]->young*r2),1e-6,"normal stiffness"); vf_eq(p.ks,harm(m[0]->young*r1*m[0]->poisson,m[1]->young*r2*m[1]->poisson),1e-6,"shear stiffness"); vf_eq(p.crossSection,sq(mn(r1,r2)),1e-6,"cross section of the smaller body"); vf_eq(p.tensileStrength,mn(m[0]->tensileStrength,m[1]->tensileStrength),1e-6,"the weaker material decides"); vf_eq(p.compressiveStrength,mn(m[0]->compressiveStrength,m[1]->compressiveStrength),1e-6,"the weaker material decides"); vf_eq(p.cohesion,mn(m[0]->cohesion,m[1]->cohesion),1e-6,"the weaker material decides"); vf_eq(p.ellAspect,same?m[0]->ellAspect:.5*(m[0]->ellAspect+m[1]->ellAspect),1e-6,"mean shape of the cap"); vf_assert(p.neverDamage==(m[0]->neverDamage||m[1]->neverDamage),"undamageable if one is"); vf_eq(p.tangensOfFrictionAngle,std::tan(same?m[0]->frictionAngle:.5*(m[0]->frictionAngle+m[1]->frictionAngle)),1e-6,"mean friction angle"); MortarPhys* q=&p; f.go(m[1],m[0],I); vf_assert(I->phys.get()==q,"existing properties are kept"); vf_reach("end"); }
// frictional-viscous law
static void fv(bool energy,bool general){ shared_ptr<ScGeom> g(new ScGeom); Contact c(g,general,-.25,.5); if(general) c.b2->state->vel=vf_double_in("vel",-5,5)*c.n; else { c.b1->state->vel=v3in("vel",-5,5); c.b2->state->vel=v3in("vel",-5,5); } Scene* sc=vfScene().get(); sc->trackEnergy=energy; shared_ptr<FrictViscoPhys> p(new FrictViscoPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->cn=vf_double_in("cn",0,5); p->tangensOfFrictionAngle=general?0:vf_double_in("mu",0,2); p->shearForce=v3in("fs",-3,3); p->normalForce=v3in("fn",-1,1); c.I->phys=p; g->shearInc=v3in("ds",-1,1); Vector3r t=p->shearForce; g->rotate(t); t-=p->ks*g->shearInc; Law2_ScGeom_FrictViscoPhys_CundallStrackVisco l; l.scene=sc; l.neverErase=vf_pick(vf_int("never",0,1)); l.sphericalBodies=vf_pick(vf_int("sph",0,1)); bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); if(c.un<0){ vf_assert(keep==l.neverErase,"a separated contact is dropped unless it must be kept"); zero(c,"no force without overlap"); if(keep){ eq3(p->normalForce,Vector3r::Zero(),"no force without overlap"); eq3(p->shearForce,Vector3r::Zero(),"no force without overlap"); } return; }
	vf_assert(keep,"an overlapping contact is kept"); double vn=c.n.dot(c.b2->state->vel-c.b1->state->vel)*((c.r1+c.r2)/(c.r1+c.r2-c.un)), N=p->kn*c.un-p->cn*vn; eq3(p->normalForce,N*c.n,"elastic and viscous normal force"); coulomb(p->shearForce,t,p->tangensOfFrictionAngle*(N<0?-N:N)); applied(c,p->normalForce+p->shearForce); if(energy){ if(sc->energy->names.count("plastDissip")) vf_eq(sc->energy->getItem_py("plastDissip"),(t-p->shearForce).dot(p->shearForce)/p->ks,1e-6,"plastic dissipation"); } vf_reach("end"); }
extern "C" void h_fv(){ fv(false,false); }
extern "C" void h_fv_dir(){ fv(false,true); }
extern "C" void h_fv_energy(){ fv(true,false); }
extern "C" void h_fv_ip(){ freshScene(); for(int i=0;i<2;i++){ auto b=addSphere(Vector3r::Zero(),1); b->state->mass=vf_double_in("m",1,9); } int fixd=vf_pick(vf_int("fixed",0,3)); for(int i=0;i<2;i++) if((fixd>>i)&1) Body::byId(i,vfScene())->setDynamic(false); auto I=shared_ptr<Interaction>(new Interaction(0,1)); shared_ptr<ScGeom> g(new ScGeom); double r1=vf_double_in("r",.5,2), r2=vf_double_in("r",.5,2); g->refR1=r1; g->refR2=r2; int wall=vf_pick(vf_int("wall",0,1)); if(wall){ g->refR1=-1; r1=r2; } I->geom=g; bool mixed=vf_pick(vf_int("mixed",0,1)); double b[2]; shared_ptr<FrictMat> m[2]; for(int i=0;i<2;i++){ if(mixed&&i==0) m[i]=shared_ptr<FrictMat>(new FrictMat); else { shared_ptr<FrictViscoMat> f(new FrictViscoMat); f->betan=vf_pick(vf_int("damped",0,1))?vf_double_in("beta",.1,.9):0; b[i]=f->betan; m[i]=f; } m[i]->id=i; m[i]->young=vf_double_in("E",1,9); m[i]->poisson=vf_double_in("nu",.1,1); m[i]->frictionAngle=vf_double_in("phi",0,1); } if(mixed){ Ip2_FrictMat_FrictViscoMat_FrictViscoPhys f; f.scene=vfScene().get(); f.go(m[0],m[1],I); b[0]=0; } else { Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys f; f.scene=vfScene().get(); f.go(m[0],m[1],I); } FrictViscoPhys& p=I->phys->cast<FrictViscoPhys>(); double kn=harm(m[0]->young*r1,m[1]->young*r2); vf_eq(p.kn,kn,1e-6,"normal stiffness"); vf_eq(p.ks,harm(m[0]->young*r1*m[0]->poisson,m[1]->young*r2*m[1]->poisson),1e-6,"shear stiffness"); vf_eq(p.tangensOfFrictionAngle,std::tan(mn(m[0]->frictionAngle,m[1]->frictionAngle)),1e-6,"smaller friction angle"); double m1=Body::byId(0,vfScene())->state->mass, m2=Body::byId(1,vfScene())->state->mass, mm=fixd==1?m2:fixd==2?m1:m1*m2/(m1+m2), be=b[0]==0?b[1]:b[1]==0?b[0]:.5*(b[0]+b[1]); vf_eq(p.cn*p.cn,be*be*4*mm*p.kn,1e-6,"damping is the fraction of critical damping"); vf_le(0,p.cn,1e-9,"damping dissipates"); vf_reach("end"); }
// wires: force along the stress-strain curve, elastic unloading, no compression, failure at the last point
static shared_ptr<WireMat> wireMat(int id,int n){ shared_ptr<WireMat> m(new WireMat); m->id=id; m->type=1; m->as=vf_double_in("area",.5,2); double e=0,s=0; for(int i=0;i<n;i++){ e+=vf_double_in("strain",.03125,.5); s+=vf_double_in("stress",.5,4); m->strainStressValues.push_back(Vector2r(e,s)); } return m; }
static void wire(int n,int steps,bool periodic){ shared_ptr<ScGeom> g(new ScGeom); Contact c(g,steps==1,-1,0); for(auto& b:{c.b1,c.b2}){ shared_ptr<State> s(new WireState); s->pos=b->state->pos; b->state=s; } Scene* sc=vfScene().get(); sc->isPeriodic=periodic; auto m=wireMat(1,n); Ip2_WireMat_WireMat_WirePhys f; f.scene=sc; double d0=g->penetrationDepth, l0=c.r1+c.r2-d0; f.go(m,m,c.I); WirePhys& p=c.I->phys->cast<WirePhys>(); std::vector<Vector2r>& ss=m->strainStressValues; vf_assert(p.isLinked&&!p.isDoubleTwist,"linked in the first step"); vf_eq(p.kn*ss[0][0]*l0,ss[0][1]*m->as,1e-6,"elastic stiffness is the first slope of the curve"); Law2_ScGeom_WirePhys_WirePM l; l.scene=sc; double umax=0,fmax=0,kn=ss[0][1]*m->as/(ss[0][0]*l0); 
	for(int k=0;k<steps;k++){ sc->forces.reset(k); double u=vf_double_in("elongation",-1,3); g->penetrationDepth=d0-u; vf_assume(u!=ss[n-1][0]*l0&&u!=umax); bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); if(u>ss[n-1][0]*l0){ vf_assert(!keep&&!p.isLinked,"the wire breaks beyond the last point"); for(auto& b:{c.b1,c.b2}) vf_assert(static_cast<WireState*>(b->state.get())->numBrokenLinks==1,"the broken link is counted once for both bodies"); zero(c,"a broken wire exerts nothing"); bool again=l.go(c.I->geom,c.I->phys,c.I.get()); vf_assert(!again&&static_cast<WireState*>(c.b1->state.get())->numBrokenLinks==1,"and stays broken"); vf_reach("broken"); return; } vf_assert(keep,"unbroken wires are kept"); double T; if(u>umax){ // along the curve
			double e0=0,s0=0; T=0; for(int i=0;i<n;i++){ double e1=ss[i][0]*l0,s1=ss[i][1]*m->as; if(u<e1){ T=s0+(u-e0)*((s1-s0)/(e1-e0)); break; } e0=e1; s0=s1; } umax=u; fmax=T; } else { T=fmax-kn*(umax-u); if(T<0) T=0; } eq3(p.normalForce,-T*c.n,"tension follows the curve, unloading is elastic, no compression"); eq3(p.shearForce,Vector3r::Zero(),"no shear"); eq3(c.F(0),T*c.n,"wires pull the bodies together"); eq3(c.F(1),-T*c.n,"wires pull the bodies together"); for(int i=0;i<2;i++) eq3(c.M(i),Vector3r::Zero(),"no torque"); vf_le(0,T,1e-9,"no compression"); } vf_reach("end"); }
extern "C" void h_wire_load(){ wire(3,1,vf_pick(vf_int("periodic",0,1))); }
extern "C" void h_wire_cycle(){ wire(2,3,false); }
extern "C" void h_wire_ip(){ freshScene(); int d=vf_pick(vf_int("idDifference",1,2)); auto I=shared_ptr<Interaction>(new Interaction(d,0)); shared_ptr<ScGeom> g(new ScGeom); g->radius1=vf_double_in("r",.5,2); g->radius2=vf_double_in("r",.5,2); g->penetrationDepth=vf_double_in("un",-2,0); double l0=g->radius1+g->radius2-g->penetrationDepth; I->geom=g; bool same=vf_pick(vf_int("same",0,1)); auto a=wireMat(1,2), b=wireMat(2,2); a->diameter=vf_double_in("d",1,2); b->diameter=vf_double_in("d",1,2); a->isDoubleTwist=vf_pick(vf_int("twist",0,1)); b->isDoubleTwist=vf_pick(vf_int("twist",0,1)); a->strainStressValuesDT.push_back(Vector2r(vf_double_in("dt",.1,.5),vf_double_in("dts",1,2))); a->strainStressValuesDT.push_back(Vector2r(1,4)); vfScene()->iter=vf_pick(vf_int("iter",0,1)); Ip2_WireMat_WireMat_WirePhys f; f.scene=vfScene().get(); f.go(a,same?a:b,I); WirePhys& p=I->phys->cast<WirePhys>(); bool dt=same&&a->isDoubleTwist&&d==1; WireMat* w=same||a->diameter<=b->diameter?a.get():b.get(); auto& ss=dt?w->strainStressValuesDT:w->strainStressValues; double A=dt?2*w->as:w->as; vf_assert(p.isDoubleTwist==dt,"neighbouring bodies of one material are double twisted"); vf_assert(p.isLinked==(vfScene()->iter<1),"links are created at the beginning"); vf_eq(p.initD,g->penetrationDepth,1e-6,"stress-free length"); vf_assert(p.displForceValues.size()==3,"points of the curve"); vf_eq(p.displForceValues[0].norm(),0,1e-9,"the curve starts at zero"); for(int i=0;i<2;i++){ vf_eq(p.displForceValues[i+1][0],-ss[i][0]*l0,1e-6,"displacement is strain times length"); vf_eq(p.displForceValues[i+1][1],-ss[i][1]*A,1e-6,"force is stress times area (of both wires when twisted)"); } vf_eq(p.ks,0,1e-9,"no shear stiffness"); vf_reach("end"); }
// jointed cohesive-frictional rock
static void jcf(bool general){ shared_ptr<ScGeom> g(new ScGeom); Contact c(g,general,-.5,.5); for(auto& b:{c.b1,c.b2}){ shared_ptr<JCFpmState> s(new JCFpmState); s->pos=b->state->pos; s->nbInitBonds=4; b->state=s; } Scene* sc=vfScene().get(); sc->isPeriodic=vf_pick(vf_int("periodic",0,1)); bool fresh=vf_pick(vf_int("fresh",0,1)); sc->iter=7; c.I->iterMadeReal=fresh?7:2; shared_ptr<JCFpmPhys> p(new JCFpmPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tanFrictionAngle=vf_double_in("mu",0,2); bool coh=p->isCohesive=vf_pick(vf_int("cohesive",0,1)); double FN=p->FnMax=coh?vf_double_in("FnMax",0,3):0, FS=p->FsMax=coh?vf_double_in("FsMax",0,3):0; p->initD=vf_double_in("initD",-.25,.25); p->crossSection=vf_double_in("A",1,2); p->shearForce=v3in("fs",-3,3); p->normalForce=v3in("fn",-1,1); p->isOnJoint=vf_pick(vf_int("joint",0,1)); c.I->phys=p; g->shearInc=v3in("ds",-1,1); double D=fresh?0:c.un-p->initD; Vector3r t=fresh?Vector3r(Vector3r::Zero()):p->shearForce; g->rotate(t); t-=p->ks*g->shearInc; Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM l; l.scene=sc; l.neverErase=vf_pick(vf_int("never",0,1)); bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); if(fresh) vf_eq(p->initD,c.un,1e-6,"the distance at first contact is the equilibrium distance"); double N=p->kn*D, mx=FS+N*p->tanFrictionAngle; bool tens=D<0&&coh&&FN>0&&-N>FN, slip=t.norm()>mx, shear=!tens&&coh&&slip&&!(D<0&&!coh); bool gone=D<0&&(!coh||tens||shear); bool broke=tens||shear; vf_assert(l.nbTensCracks==tens&&l.nbShearCracks==shear,"cracks are counted by kind"); for(auto& b:{c.b1,c.b2}){ JCFpmState* s=static_cast<JCFpmState*>(b->state.get()); vf_assert(s->nbBrokenBonds==broke,"broken bonds are counted for both bodies"); vf_eq(s->damageIndex,broke?.25:0,1e-6,"damage is the share of broken bonds"); } vf_eq(l.totalCracksSurface,broke?p->crossSection:0,1e-6,"surface of the cracks"); if(broke) vf_assert(!p->isCohesive&&p->FnMax==0&&p->FsMax==0&&p->isBroken,"a broken bond has no cohesion left"); else vf_assert(p->isCohesive==coh,"other bonds keep their cohesion"); if(gone){ vf_assert(keep==l.neverErase,"contacts in tension without cohesion are dropped unless they must be kept"); zero(c,"and exert nothing"); if(keep){ eq3(p->normalForce,Vector3r::Zero(),"and exert nothing"); eq3(p->shearForce,Vector3r::Zero(),"and exert nothing"); } vf_reach("gone"); return; } vf_assert(keep,"other contacts are kept"); eq3(p->normalForce,N*c.n,"normal force from the equilibrium distance"); if(slip){ vf_eq(p->shearForce.squaredNorm(),mx*mx,1e-6,"sliding at the Mohr-Coulomb limit"); eq3(p->shearForce.cross(t),Vector3r::Zero(),"sliding keeps the direction"); vf_reach("slip"); } else { eq3(p->shearForce,t,"elastic shear force"); vf_reach("stick"); } applied(c,p->normalForce+p->shearForce); vf_reach("end"); }
extern "C" void h_jcf(){ jcf(false); }
extern "C" void h_jcf_joint(){ // smooth joints: forces along the joint normal, no torques
	shared_ptr<ScGeom> g(new ScGeom); Contact c(g,false,-.5,.5); for(auto& b:{c.b1,c.b2}){ shared_ptr<JCFpmState> s(new JCFpmState); s->pos=b->state->pos; s->vel=v3in("vel",-2,2); s->nbInitBonds=1; b->state=s; } Scene* sc=vfScene().get(); sc->iter=7; c.I->iterMadeReal=2; shared_ptr<JCFpmPhys> p(new JCFpmPhys); p->kn=vf_double_in("kn",.1,10); p->ks=vf_double_in("ks",.1,10); p->tanFrictionAngle=vf_double_in("mu",0,2); p->tanDilationAngle=vf_double_in("dil",0,1); bool coh=p->isCohesive=vf_pick(vf_int("cohesive",0,1)); double FN=p->FnMax=coh?vf_double_in("FnMax",.1,3):0, FS=p->FsMax=coh?vf_double_in("FsMax",0,3):0; double d0=p->initD=vf_double_in("initD",1,4); p->jointCumulativeSliding=vf_double_in("slid",0,6); double sl=p->jointCumulativeSliding; Vector3r jn=vf_pick(vf_int("normal",0,1))?Vector3r(.6,.8,0):Vector3r(0,0,1); p->jointNormal=jn; p->isOnJoint=true; p->more=vf_pick(vf_int("more",0,1)); p->shearForce=v3in("fs",-3,3); c.I->phys=p; Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM l; l.scene=sc; l.smoothJoint=true; l.neverErase=vf_pick(vf_int("never",0,1)); double h=(c.x1-c.x2).dot(jn); if(h<0) h=-h; double D=d0-h; Vector3r v=c.b2->state->vel-c.b1->state->vel; v-=jn.dot(v)*jn; Vector3r t=p->shearForce-p->ks*v*sc->dt; bool keep=l.go(c.I->geom,c.I->phys,c.I.get()); bool out=p->more||sl>2*mn(c.r1,c.r2); double N=p->kn*D, mx=FS+N*p->tanFrictionAngle; bool tens=!out&&D<0&&coh&&-N>FN, slip=t.norm()>mx, shear=!out&&!tens&&coh&&slip; if(out||(D<0&&(!coh||tens||shear))){ vf_assert(keep==l.neverErase,"joint contacts that slid too far, or opened, are dropped unless they must be kept"); zero(c,"and exert nothing"); vf_assert(l.nbTensCracks==tens&&l.nbShearCracks==shear,"cracks are counted by kind"); vf_reach("gone"); return; } vf_assert(keep,"other contacts are kept"); vf_assert(l.nbTensCracks==tens&&l.nbShearCracks==shear,"cracks are counted by kind"); eq3(p->normalForce,N*jn,"normal force along the joint normal"); double sl2=sq(sc->dt)*v.squaredNorm(); vf_eq(sq(p->jointCumulativeSliding-sl),sl2,1e-6,"sliding is accumulated"); vf_le(sl,p->jointCumulativeSliding,1e-9,"sliding is accumulated"); if(slip){ vf_eq(p->shearForce.squaredNorm(),mx*mx,1e-6,"sliding at the Mohr-Coulomb limit"); vf_eq(sq(p->initD-d0),sq(p->tanDilationAngle)*sl2,1e-6,"sliding dilates the joint"); vf_le(d0,p->initD,1e-9,"sliding dilates the joint"); } else { eq3(p->shearForce,t,"elastic shear force along the joint"); vf_eq(p->initD,d0,1e-6,"no dilation without sliding"); } eq3(c.F(0),-p->normalForce-p->shearForce,"force on the first body"); c.balance(false); for(int i=0;i<2;i++) eq3(c.M(i),Vector3r::Zero(),"no torque on smooth joints"); vf_reach("end"); }
static void jcfip(int kind){ freshScene(); bool J=kind==1; shared_ptr<JCFpmState> s[2]; for(int i=0;i<2;i++){ auto b=addSphere(Vector3r::Zero(),1); s[i]=shared_ptr<JCFpmState>(new JCFpmState); b->state=s[i]; } auto I=shared_ptr<Interaction>(new Interaction(0,1)); shared_ptr<ScGeom> g(new ScGeom); double r1=g->radius1=vf_double_in("r",.5,2), r2=g->radius2=vf_double_in("r",.5,2); I->geom=g; shared_ptr<JCFpmMat> m[2]; for(int i=0;i<2;i++){ m[i]=shared_ptr<JCFpmMat>(new JCFpmMat); m[i]->young=J?.5:vf_double_in("E",1,9); m[i]->poisson=J?.5:vf_double_in("nu",.1,1); m[i]->frictionAngle=J?.5:vf_double_in("phi",0,1); m[i]->residualFrictionAngle=J?.5:vf_double_in("res",-1,1); m[i]->tensileStrength=J?.5:vf_double_in("ft",0,9); m[i]->cohesion=J?.5:vf_double_in("c",0,9); m[i]->jointNormalStiffness=J?vf_double_in("jkn",1,9):.5; m[i]->jointShearStiffness=J?vf_double_in("jks",1,9):.5; m[i]->jointTensileStrength=J?vf_double_in("jft",0,9):.5; m[i]->jointCohesion=J?vf_double_in("jc",0,9):.5; m[i]->jointFrictionAngle=J?vf_double_in("jphi",0,1):.5; m[i]->jointDilationAngle=J?vf_double_in("jdil",0,1):.5; } int weak=vf_pick(vf_int("weaker",1,2)); vf_assume((r1<=r2)==(weak==1)); if(!J) vf_assume((m[0]->residualFrictionAngle<0)==(weak==1)); if(!J) vf_assume((m[0]->residualFrictionAngle<=m[1]->residualFrictionAngle)==(weak==1)); vf_assume(m[(weak>>0)&1]->frictionAngle<=m[!((weak>>0)&1)]->frictionAngle); vf_assume(m[(weak>>1)&1]->tensileStrength<=m[!((weak>>1)&1)]->tensileStrength); vf_assume(m[(weak>>0)&1]->cohesion<=m[!((weak>>0)&1)]->cohesion); vf_assume(m[(weak>>1)&1]->jointTensileStrength<=m[!((weak>>1)&1)]->jointTensileStrength); vf_assume(m[(weak>>0)&1]->jointCohesion<=m[!((weak>>0)&1)]->jointCohesion); vf_assume(m[(weak>>1)&1]->jointFrictionAngle<=m[!((weak>>1)&1)]->jointFrictionAngle); vf_assume(m[(weak>>0)&1]->jointDilationAngle<=m[!((weak>>0)&1)]->jointDilationAngle); bool types=kind==3||(kind<2&&vf_pick(vf_int("types",0,1))); m[1]->type=types; Vector3r n1(0,0,1); if(kind>0){ s[0]->onJoint=true; s[1]->onJoint=kind!=3; s[0]->jointNormal1=n1; s[1]->jointNormal2=kind==1?Vector3r(-n1):n1; } bool joint=kind==1; vfScene()->iter=vf_pick(vf_int("iter",0,1)); Ip2_JCFpmMat_JCFpmMat_JCFpmPhys f; f.scene=vfScene().get(); f.cohesiveTresholdIteration=vfScene()->iter==1||vf_pick(vf_int("threshold",0,1))?1:-1; bool time=f.cohesiveTresholdIteration<0||vfScene()->iter<1; f.go(m[0],m[1],I); JCFpmPhys& p=I->phys->cast<JCFpmPhys>(); double A=p.crossSection, ft=joint?mn(m[0]->jointTensileStrength,m[1]->jointTensileStrength):mn(m[0]->tensileStrength,m[1]->tensileStrength), co=joint?mn(m[0]->jointCohesion,m[1]->jointCohesion):mn(m[0]->cohesion,m[1]->cohesion); vf_eq(A,Mathr::PI*sq(mn(r1,r2)),1e-6,"cross section of the smaller body"); vf_assert(p.isOnJoint==joint,"contacts of opposite sides of a joint are on the joint"); bool coh=time&&(ft>0||co>0)&&(joint||!types); vf_assert(p.isCohesive==coh,"contacts are cohesive as long as bonds are created, between bodies of one type"); vf_eq(p.FnMax,coh?ft*A:0,1e-6,"tensile strength of the weaker material"); vf_eq(p.FsMax,coh?co*A:0,1e-6,"cohesion of the weaker material"); for(int i=0;i<2;i++) vf_assert(s[i]->nbInitBonds==coh,"every bond is counted once for both bodies"); if(joint){ vf_eq(p.kn*2,(m[0]->jointNormalStiffness+m[1]->jointNormalStiffness)*A,1e-6,"stiffness of the joint"); vf_eq(p.ks*2,(m[0]->jointShearStiffness+m[1]->jointShearStiffness)*A,1e-6,"stiffness of the joint"); eq3(p.jointNormal,n1,"normal of the joint"); vf_eq(p.tanFrictionAngle,std::tan(mn(m[0]->jointFrictionAngle,m[1]->jointFrictionAngle)),1e-6,"friction of the joint"); vf_eq(p.tanDilationAngle,std::tan(mn(m[0]->jointDilationAngle,m[1]->jointDilationAngle)),1e-6,"dilation of the joint"); } else { vf_eq(p.kn,harm(m[0]->young*r1,m[1]->young*r2),1e-6,"normal stiffness"); vf_eq(p.ks,harm(m[0]->young*r1*m[0]->poisson,m[1]->young*r2*m[1]->poisson),1e-6,"shear stiffness"); double a=coh||m[0]->residualFrictionAngle<0?m[0]->frictionAngle:m[0]->residualFrictionAngle, b=coh||m[1]->residualFrictionAngle<0?m[1]->frictionAngle:m[1]->residualFrictionAngle; vf_eq(p.tanFrictionAngle,std::tan(mn(a,b)),1e-6,"friction, residual without cohesion"); } vf_reach("end"); }
extern "C" void h_jcf_ip(){ jcfip(vf_pick(vf_int("kind",0,1))?(vf_pick(vf_int("sides",0,1))?2:3):0); }
extern "C" void h_jcf_ipj(){ jcfip(1); }
