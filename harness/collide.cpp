// C04: collision detection. Bodies are spheres; the collider runs once or twice, with other positions.
#include "laws.h"
#include <core/Cell.hpp>
#include <core/Clump.hpp>
#include <pkg/common/Bo1_Aabb.hpp>
#include <pkg/common/InsertionSortCollider.hpp>
#include <pkg/dem/NewtonIntegrator.hpp>
static InteractionContainer& IC(){ return *vfScene()->interactions; }
// contacts listed for a pair (what the interaction loop goes through)
static int listed(int i,int j){ int n=0; for(size_t k=0;k<IC().size();k++){ const shared_ptr<Interaction>& I=IC()[k]; if((I->getId1()==i&&I->getId2()==j)||(I->getId1()==j&&I->getId2()==i)) n++; } return n; }
static Body* B(int i){ return (*vfScene()->bodies)[i].get(); }
static shared_ptr<InsertionSortCollider> collider(double verlet=0){ shared_ptr<InsertionSortCollider> c(new InsertionSortCollider); c->scene=vfScene().get(); c->boundDispatcher->add(shared_ptr<BoundFunctor>(new Bo1_Sphere_Aabb)); for(auto& f: c->boundDispatcher->functors) f->scene=c->scene; c->verletDist=verlet; c->targetInterv=-1; return c; }
// every pair whose bounds overlap has a contact (bounds that only touch are left open), every virtual contact has overlapping bounds
static void pairs(int n,bool (*ok)(int,int)=nullptr){ for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ Body *a=B(i),*b=B(j); bool able=a&&b&&a->bound&&b->bound&&(!ok||ok(i,j)); int in=listed(i,j); if(!able){ vf_assert(!in,"bodies that may not collide have no contact"); continue; }
	bool strict=true,touch=true; for(int k=0;k<3;k++){ strict=strict&(a->bound->min[k]<b->bound->max[k])&(b->bound->min[k]<a->bound->max[k]); touch=touch&(a->bound->min[k]<=b->bound->max[k])&(b->bound->min[k]<=a->bound->max[k]); }
	if(strict){ vf_assert(in,"bodies whose bounds overlap are in contact or potential contact"); vf_reach("overlap"); } if(!touch){ vf_assert(!in||IC().found(i,j)&&IC().find(i,j)->isReal(),"potential contacts of separated bounds are removed"); vf_reach("apart"); } } 
	int cnt=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(listed(i,j)) cnt++; vf_assert((int)IC().size()==cnt,"no contact is listed twice or between other bodies"); }
static void place(int i,int axes,const char* nm){ Vector3r& p=B(i)->state->pos; for(int k=0;k<3;k++) if(axes&(1<<k)) p[k]=vf_double_in(nm,-9,9); }
static void runs(int n,int axes,int nRuns,bool late=false,bool radii=true){ freshScene(); for(int i=0;i<n;i++) addSphere(Vector3r::Zero(),radii?vf_double_in("r",.5,2):1+i*.25); auto c=collider(); if(late) c->sortThenCollide=true; if(axes==7) c->sortAxis=vf_pick(vf_int("sortAxis",0,2)); for(int t=0;t<nRuns;t++){ for(int i=0;i<n;i++) place(i,axes,"pos"); vfScene()->iter=t; c->action(); pairs(n); } vf_assert(c->numReinit==1,"sorted from scratch once"); vf_reach("end"); }
extern "C" void h_coll_2init(){ runs(2,7,1); }
static void noTies(int n,int axes){ for(int i=0;i<n;i++) for(int j=0;j<i;j++) for(int k=0;k<3;k++) if(axes&(1<<k)) for(int s=0;s<4;s++){ double d=B(i)->state->pos[k]-B(j)->state->pos[k],ri=static_cast<Sphere*>(B(i)->shape.get())->radius,rj=static_cast<Sphere*>(B(j)->shape.get())->radius; vf_assume(d+(s&1?ri:-ri)-(s&2?rj:-rj)!=0); } }
// a history: some first order of the bounds along the axes, then any other positions
static void hist(int n,int axes,bool sep){ freshScene(); int big=n==2&&(axes==3||axes==5||axes==6)?1:vf_pick(vf_int("bigger",0,1)); for(int i=0;i<n;i++) addSphere(Vector3r::Zero(),(i==0)==big?2:1); auto c=collider(); if(sep) c->sortThenCollide=true; const double where[]={-4,-2,0,2,4}; const double where3[]={-5,-2.5,0,2.5,5};
	for(int i=1;i<n;i++) for(int k=0;k<3;k++) if(axes&(1<<k)) B(i)->state->pos[k]=i==1?where[vf_pick(vf_int("first",0,4))]:where3[vf_pick(vf_int("first",0,4))]; c->action(); pairs(n); for(int i=0;i<n;i++) place(i,axes,"pos"); if(axes==3||axes==5||axes==6||n>2) noTies(n,axes); vfScene()->iter=1; c->action(); pairs(n); vf_assert(c->numReinit==1,"sorted from scratch once"); vf_reach("end"); }
extern "C" void h_coll_2xy(){ hist(2,3,false); }
extern "C" void h_coll_2xz(){ hist(2,5,false); }
extern "C" void h_coll_2yz(){ hist(2,6,false); }
extern "C" void h_coll_3x(){ hist(3,1,false); }
extern "C" void h_coll_3y(){ hist(3,2,false); }
extern "C" void h_coll_3z(){ hist(3,4,false); }
extern "C" void h_coll_then(){ hist(2,1<<vf_pick(vf_int("axis",0,2)),true); }
extern "C" void h_coll_real(){ // contacts that became real are kept when the bounds separate; an existing contact is not created again
	freshScene(); for(int i=0;i<2;i++) addSphere(Vector3r::Zero(),1); auto c=collider(); c->action(); auto I=IC().find(0,1); vf_assert(bool(I),"bodies whose bounds overlap are in contact or potential contact"); bool real=vf_pick(vf_int("real",0,1)); if(real){ I->geom=shared_ptr<IGeom>(new ScGeom); I->phys=shared_ptr<IPhys>(new NormShearPhys); } place(1,7,"pos"); vfScene()->iter=1; if(vf_pick(vf_int("resort",0,1))) vfScene()->interactions->dirty=true; c->action(); if(real) vf_assert(IC().found(0,1)&&IC().find(0,1)==I&&I->isReal(),"real contacts are not removed by collision detection"); pairs(2); vf_assert(!vfScene()->interactions->dirty,"the request to sort again is honoured once"); vf_reach("end"); }
static bool okIds[3][3]; static bool okPair(int i,int j){ return okIds[i][j]; }
extern "C" void h_coll_filter(){ // which pairs may collide
	freshScene(); for(int i=0;i<3;i++) addSphere(Vector3r(.5*i,0,0),1); int m[3],cl[3]; for(int i=0;i<3;i++){ m[i]=vf_pick(vf_int("mask",i==2?1:0,i==2?1:3)); B(i)->groupMask=m[i]; cl[i]=i==2?-1:vf_pick(vf_int("clump",-1,2)); B(i)->clumpId=cl[i]; } int avoid=vf_pick(vf_int("avoid",0,3)); bool bd=vf_pick(vf_int("bounded",0,1)); B(1)->setBounded(bd); Collider::avoidSelfInteractionMask=avoid; auto c=collider();
	for(int i=0;i<3;i++) for(int j=i+1;j<3;j++){ bool ok=(m[i]&m[j])!=0; if(m[i]==m[j]&&(m[i]&avoid)) ok=false; if(cl[i]==i||cl[j]==j) ok=false; if(cl[i]!=-1&&cl[i]==cl[j]) ok=false; vf_assert(Collider::mayCollide(B(i),B(j),0)==ok&&Collider::mayCollide(B(j),B(i),0)==ok,"who may collide"); if(!bd&&(i==1||j==1)) ok=false; okIds[i][j]=ok; } c->action(); pairs(3,okPair); Collider::avoidSelfInteractionMask=0; vf_reach("end"); }
extern "C" void h_coll_subdomain(){ freshScene(); int s[2]; bool is[2]; for(int i=0;i<2;i++){ addSphere(Vector3r(.5*i,0,0),1); s[i]=vf_pick(vf_int("subdomain",0,2)); B(i)->subdomain=s[i]; is[i]=vf_pick(vf_int("issub",0,1)); B(i)->setIsSubdomain(is[i]); } int rank=vf_pick(vf_int("rank",0,2)); vfScene()->subdomain=rank; auto c=collider(); c->action(); okIds[0][1]=(s[0]==rank||s[1]==rank)&&!(s[0]==s[1]&&(is[0]||is[1])); pairs(2,okPair); vf_reach("end"); }
extern "C" void h_coll_change(){ // bodies are erased, added or all replaced between two runs
	freshScene(); for(int i=0;i<3;i++) addSphere(Vector3r(1.5*i,0,0),1); auto c=collider(); c->action(); pairs(3); int op=vf_pick(vf_int("op",0,4)); int n=3; if(op==0) vfScene()->bodies->erase(vf_pick(vf_int("id",0,2)),false); if(op==1){ addSphere(Vector3r::Zero(),1); place(3,1,"pos"); n=4; } if(op==2){ int id=vf_pick(vf_int("id",0,2)); vfScene()->bodies->erase(id,false); shared_ptr<Body> b(new Body); shared_ptr<Sphere> s(new Sphere); s->radius=1; b->shape=s; vfScene()->bodies->insertAtId(b,id); place(id,1,"pos"); } if(op==3||op==4){ int k=op==3?vf_pick(vf_int("fewer",1,2)):4; vfScene()->interactions->clear(); vfScene()->bodies->clear(); for(int i=0;i<k;i++){ addSphere(Vector3r::Zero(),1); place(i,i==0?0:1,"pos"); } n=k; } vf_assert(c->isActivated(),"collision detection runs after bodies changed"); vfScene()->iter=1; c->action(); pairs(n); vf_reach("end"); }
extern "C" void h_coll_active(){ freshScene(); Scene* sc=vfScene().get(); for(int i=0;i<2;i++) addSphere(v3in("pos",-9,9),i+1); shared_ptr<NewtonIntegrator> nw(new NewtonIntegrator); sc->engines.push_back(nw); auto c=collider(-.5); double f=vf_double_in("verlet",-1,1); vf_assume(f!=0); c->verletDist=f; vf_assert(c->isActivated(),"collision detection runs at the first step"); c->action(); vf_eq(c->verletDist,f<0?-f:f,1e-6,"a negative sweep distance is relative to the smallest sphere"); double v=c->verletDist; for(int i=0;i<2;i++) for(int k=0;k<3;k++){ vf_eq(B(i)->bound->max[k]-B(i)->state->pos[k],i+1+v,1e-6,"bounds are enlarged by the sweep distance"); vf_eq(B(i)->state->pos[k]-B(i)->bound->min[k],i+1+v,1e-6,"bounds are enlarged by the sweep distance"); } pairs(2); double m=vf_double_in("disp",0,2); nw->maxVelocitySq=m; int why=vf_pick(vf_int("why",0,3)); sc->doSort=why==1; sc->interactions->dirty=why==2; if(why==3) sc->bodies->insert(shared_ptr<Body>(new Body)), sc->doSort=false; vf_assert(c->isActivated()==(why!=0||m>=1||m==0),"collision detection is skipped exactly while no body can have left its bound"); vf_reach("end"); }
extern "C" void h_coll_probe(){ freshScene(); Scene* sc=vfScene().get(); for(int i=0;i<2;i++) addSphere(Vector3r::Zero(),i+1); int ax=1<<vf_pick(vf_int("axis",0,2)); place(0,ax,"pos"); place(1,ax,"pos"); shared_ptr<NewtonIntegrator> nw(new NewtonIntegrator); sc->engines.push_back(nw); auto c=collider(0); c->verletDist=vf_pick(vf_int("sweep",0,1)); c->action(); Aabb q; for(int k=0;k<3;k++){ q.min[k]=-.5; q.max[k]=.5; if(ax&(1<<k)){ q.min[k]=vf_double_in("qmin",-9,9); q.max[k]=vf_double_in("qmax",-9,9); vf_assume(q.min[k]<=q.max[k]); } } int got[2]={0,0}; for(auto id: c->probeBoundingVolume(q)){ vf_assert(id==0||id==1,"a probe returns existing bodies"); got[id]++; } for(int i=0;i<2;i++){ bool hit=true; for(int k=0;k<3;k++){ double p=B(i)->state->pos[k],r=i+1; hit=hit&(p-r<=q.max[k])&(q.min[k]<=p+r); } vf_assert(got[i]==(hit?1:0),"a probe returns exactly the bodies whose box meets the volume"); } vf_reach("end"); }
// ---- periodic cells
static bool perOverlap(int i,int j,const Vector3i& k,const Vector3r& size,double slack){ bool r=true; for(int a=0;a<3;a++){ double s=k[a]*size[a]; r=r&(B(i)->bound->min[a]-B(j)->bound->max[a]-s<slack)&(B(j)->bound->min[a]+s-B(i)->bound->max[a]<slack); } return r; }
static void perPairs(int n,int axis,const Vector3r& size,int span){ for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ bool in=IC().found(i,j); if(in){ auto I=IC().find(i,j); Vector3i k=I->cellDist; if(I->getId1()!=i) k=-k; vf_assert(perOverlap(i,j,k,size,1e-5),"the recorded period makes the bounds overlap"); vf_reach("overlap"); } else { bool any=false; for(int s=-span;s<=span;s++){ Vector3i k=Vector3i::Zero(); k[axis]=s; any=any|perOverlap(i,j,k,size,0); } vf_assert(!any,"bodies whose bounds overlap through the periodic boundary are in contact or potential contact"); vf_reach("apart"); } } }
static void peri(int n,int axis,int nRuns,double reach,bool sep){ freshScene(); Scene* sc=vfScene().get(); sc->isPeriodic=true; Vector3r size(8,8,8); sc->cell->setBox(size); for(int i=0;i<n;i++) addSphere(Vector3r(1,1,1),1); auto c=collider(); c->sortThenCollide=sep; for(int t=0;t<nRuns;t++){ for(int i=0;i<n;i++) B(i)->state->pos[axis]=t==0&&nRuns>1?(vf_pick(vf_int("first",-1,3))*3.):vf_double_in("pos",-reach,reach); sc->iter=t; c->action(); perPairs(n,axis,size,4); } vf_reach("end"); }
extern "C" void h_coll_peri_init(){ peri(2,vf_pick(vf_int("axis",0,2)),1,12,false); }
extern "C" void h_coll_peri_x(){ peri(2,0,2,9,false); }
extern "C" void h_coll_peri_y(){ peri(2,1,2,9,false); }
extern "C" void h_coll_peri_z(){ peri(2,2,2,9,false); }
extern "C" void h_coll_peri_then(){ peri(2,0,2,9,true); }
extern "C" void h_coll_peri3(){ peri(3,0,2,5,false); }
extern "C" void h_coll_peri_cell(){ // the cell changes size between the runs
	freshScene(); Scene* sc=vfScene().get(); sc->isPeriodic=true; Vector3r size(8,8,8); sc->cell->setBox(size); for(int i=0;i<2;i++) addSphere(Vector3r(1,1,1),1); auto c=collider(); B(0)->state->pos[0]=0; B(1)->state->pos[0]=vf_pick(vf_int("first",-1,3))*3.; c->action(); size[0]=vf_double_in("size",6,10); sc->cell->setBox(size); for(int i=0;i<2;i++) B(i)->state->pos[0]=vf_double_in("pos",-6,6); sc->iter=1; c->action(); perPairs(2,0,size,4); vf_reach("end"); }
extern "C" void h_coll_switch(){ // the simulation becomes periodic, or is not any more
	freshScene(); Scene* sc=vfScene().get(); sc->cell->setBox(Vector3r(8,8,8)); bool first=vf_pick(vf_int("first",0,1)); sc->isPeriodic=first; for(int i=0;i<2;i++) addSphere(Vector3r(1+5*i,1,1),1); auto c=collider(); c->action(); sc->isPeriodic=!first; for(int i=0;i<2;i++) B(i)->state->pos[0]=vf_double_in("pos",-6,6); sc->iter=1; c->action(); if(first) pairs(2); else perPairs(2,0,Vector3r(8,8,8),3); vf_reach("end"); }
extern "C" void h_coll_gain(){ // a body gets its bound late
	freshScene(); for(int i=0;i<2;i++) addSphere(Vector3r::Zero(),1+i); B(0)->setBounded(false); place(0,1,"pos"); auto c=collider(); c->action(); pairs(2); B(0)->setBounded(true); if(vf_pick(vf_int("move",0,1))) place(0,1,"pos"); vfScene()->iter=1; c->action(); pairs(2); vf_reach("end"); }
