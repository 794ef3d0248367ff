// C07: contact geometry of spheres with spheres, boxes, facets and walls
#include "laws.h"
#include <pkg/dem/Ig2_Sphere_Sphere_ScGeom.hpp>
#include <pkg/dem/Ig2_Box_Sphere_ScGeom.hpp>
#include <pkg/dem/Ig2_Facet_Sphere_ScGeom.hpp>
#include <pkg/common/Box.hpp>
#include <pkg/common/Facet.hpp>
#include <pkg/common/Wall.hpp>
static Vector3r rotv(const Quaternionr& q,const Vector3r& v){ Vector3r u(q.x(),q.y(),q.z()); return v+2*q.w()*u.cross(v)+2*u.cross(u.cross(v)); }
static Quaternionr qmul(const Quaternionr& a,const Quaternionr& b){ return Quaternionr(a.w()*b.w()-a.x()*b.x()-a.y()*b.y()-a.z()*b.z(),a.w()*b.x()+a.x()*b.w()+a.y()*b.z()-a.z()*b.y(),a.w()*b.y()-a.x()*b.z()+a.y()*b.w()+a.z()*b.x(),a.w()*b.z()+a.x()*b.y()-a.y()*b.x()+a.z()*b.w()); }
static Quaternionr inv(const Quaternionr& q){ return Quaternionr(q.w(),-q.x(),-q.y(),-q.z()); }
// One pair: the first body carries `shape`, the second is a sphere
struct Pair{ Scene* sc; shared_ptr<Body> b1,b2; State *s1,*s2; shared_ptr<Interaction> I; shared_ptr<ScGeom> old; Vector3r shift,shiftVel,n0; double r,dt;
	Pair(const shared_ptr<Shape>& shape,bool per,const Vector3r& x1){ freshScene(); sc=vfScene().get(); dt=sc->dt=vf_double_in("dt",1e-3,1); r=vf_double_in("r",.5,2); b1=shared_ptr<Body>(new Body); b1->shape=shape; b1->state->pos=x1; sc->bodies->insert(b1); b2=addSphere(Vector3r::Zero(),r); s1=b1->state.get(); s2=b2->state.get(); I=shared_ptr<Interaction>(new Interaction(0,1)); shift=shiftVel=Vector3r::Zero();
		if(per){ sc->isPeriodic=true; Vector3r h=v3in("cell",3,9); sc->cell->setBox(h); Matrix3r g; for(int i=0;i<3;i++) for(int j=0;j<3;j++) g(i,j)=vf_double_in("velGrad",-1,1); sc->cell->velGrad=g; sc->cell->integrateAndUpdate(0); I->cellDist=Vector3i(vf_pick(vf_int("period",-1,1)),0,1); for(int i=0;i<3;i++) shift[i]=h[i]*I->cellDist[i]; shiftVel=g*shift; } }
	void moving(){ for(State* s: {s1,s2}){ s->vel=v3in("vel",-5,5); s->angVel=v3in("angVel",-5,5); } }
	// an existing contact (with the old normal any vector), or a virtual one
	void existing(const shared_ptr<ScGeom>& g,bool real){ old=g; g->normal=n0=v3in("oldNormal",-1,1); I->geom=g; if(real) I->phys=shared_ptr<IPhys>(new NormShearPhys); }
	ScGeom* g(){ return static_cast<ScGeom*>(I->geom.get()); }
	// shear increment and rotation axes of the contact, from the positions just computed
	void kinematics(bool isNew,bool noRatch){ ScGeom* q=g(); Vector3r n=q->normal,x2=s2->pos+shift; Vector3r v; if(noRatch){ double a=(q->radius1+q->radius2)/(q->radius1+q->radius2-q->penetrationDepth); v=a*(s2->vel-s1->vel+shiftVel)-q->radius2*s2->angVel.cross(n)-q->radius1*s1->angVel.cross(n); } else v=s2->vel+shiftVel+s2->angVel.cross(q->contactPoint-x2)-s1->vel-s1->angVel.cross(q->contactPoint-s1->pos);
		eq3(q->shearInc,dt*(v-v.dot(n)*n),"the shear increment is the tangential relative velocity at the contact point times the step"); Vector3r t=v3in("t",-1,1),u=t; if(!isNew){ u-=u.cross(n0.cross(n)); u-=u.cross(.5*dt*n0.dot(s1->angVel+s2->angVel)*n0); } eq3(q->rotate(t),u,isNew?"a new contact has not rotated":"tangent vectors follow the rotation of the normal and the mean spin"); }
};
static void ss(bool per,bool motion,int kind){ shared_ptr<Sphere> sp(new Sphere); double R=vf_double_in("R",.5,2); sp->radius=R; Pair p(sp,per,v3in("x",-2,2)); Vector3r d=v3in("d",-5,5); vf_assume(d.squaredNorm()>=.01); p.s2->pos=p.s1->pos+d-p.shift; if(motion) p.moving(); Ig2_Sphere_Sphere_ScGeom f; f.scene=p.sc; bool noR=f.avoidGranularRatcheting=vf_pick(vf_int("noRatch",0,1)); double fac=vf_double_in("factor",.5,2); f.interactionDetectionFactor=fac; bool force=vf_pick(vf_int("force",0,1)); if(kind) p.existing(shared_ptr<ScGeom>(new ScGeom),kind==2);
	bool near=d.squaredNorm()<=sq(fac*(R+p.r)); bool ok=f.go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,p.shift,force,p.I); if(kind!=2&&!force&&!near){ vf_assert(!ok,"spheres further apart than the detection distance make no contact"); vf_assert(p.I->geom==p.old,"spheres further apart than the detection distance make no contact"); vf_reach("far"); return; }
	vf_assert(ok,"touching spheres and existing contacts get a geometry"); ScGeom* g=p.g(); if(kind) vf_assert(g==p.old.get(),"an existing geometry is updated in place"); double L=R+p.r-g->penetrationDepth; vf_assert(L>0,"overlap is the sum of the radii minus the distance of the centres"); vf_eq(L*L,d.squaredNorm(),1e-6,"overlap is the sum of the radii minus the distance of the centres"); eq3(L*g->normal,d,"the normal is the unit vector from the first to the second centre"); eq3(g->contactPoint,p.s1->pos+(R-.5*g->penetrationDepth)*g->normal,"the contact point is in the middle of the overlap"); vf_eq(g->radius1,R,1e-6,"radii are those of the bodies"); vf_eq(g->radius2,p.r,1e-6,"radii are those of the bodies"); if(motion) p.kinematics(!kind,noR); vf_reach("end");
}
extern "C" void h_ig_ss(){ ss(false,false,vf_pick(vf_int("kind",0,2))); }
extern "C" void h_ig_ss_per(){ ss(true,false,vf_pick(vf_int("kind",0,2))); }
extern "C" void h_ig_ss_kin(){ ss(false,true,vf_pick(vf_int("kind",0,1))*2); }
extern "C" void h_ig_ss_kinper(){ ss(true,true,vf_pick(vf_int("kind",0,1))*2); }
static void dist(Pair& p,bool ok,const Vector3r& q,double outside,const char* what){ // contact with the point q of the first body that is nearest to the sphere (relative to the first body, world axes)
	(void)outside; ScGeom* g=p.g(); Vector3r c=p.s2->pos+p.shift-p.s1->pos; double L=p.r-g->penetrationDepth; vf_assert(L>=0,"overlap is the radius minus the distance to the surface"); vf_eq(L*L,(c-q).squaredNorm(),1e-6,"overlap is the radius minus the distance to the surface"); eq3(L*g->normal,c-q,"the normal points from the nearest point of the surface to the centre of the sphere"); vf_eq(g->normal.squaredNorm(),1,1e-6,"the normal is a unit vector"); eq3(g->contactPoint,p.s2->pos+p.shift-(p.r-.5*g->penetrationDepth)*g->normal,"the contact point is in the middle of the overlap"); vf_eq(g->radius2,p.r,1e-6,"the radius is that of the sphere"); }
static Quaternionr someOri(int k){ return k==0?Quaternionr(1,0,0,0):k==1?Quaternionr(.5,.5,.5,.5):k==2?Quaternionr(.5,-.5,.5,.5):Quaternionr(0,0,1,0); }
static void box(bool per,bool motion,bool rot,int kind,bool rev=false){ shared_ptr<Box> bx(new Box); Vector3r e=v3in("e",.25,2); bx->extents=e; Pair p(bx,per,v3in("x",-2,2)); Quaternionr o=someOri(rot?vf_pick(vf_int("ori",0,3)):0); p.s1->ori=o; Vector3r l=v3in("l",-5,5); p.s2->pos=p.s1->pos+rotv(o,l)-p.shift; if(motion) p.moving(); Ig2_Box_Sphere_ScGeom f; f.scene=p.sc; bool force=vf_pick(vf_int("force",0,1)); if(kind) p.existing(shared_ptr<ScGeom>(new ScGeom),true);
	bool in=true; Vector3r q=l; for(int i=0;i<3;i++){ if(l[i]>e[i]){ q[i]=e[i]; in=false; } if(l[i]<-e[i]){ q[i]=-e[i]; in=false; } } bool ok; if(rev){ p.I=shared_ptr<Interaction>(new Interaction(1,0)); p.I->cellDist=Vector3i(-1,0,0); if(per){ p.I->cellDist=Vector3i(1,0,0); p.shift=Vector3r(-p.sc->cell->getSize()[0],0,0); p.shiftVel=p.sc->cell->velGrad*p.shift; p.s2->pos=p.s1->pos+rotv(o,l)-p.shift; } ok=f.goReverse(p.b2->shape,p.b1->shape,*p.s2,*p.s1,-p.shift,force,p.I); vf_assert(p.I->getId1()==0&&p.I->getId2()==1,"the bodies are put in the order box, sphere"); vf_assert(p.I->cellDist[0]==(per?-1:1),"the period offset follows the order of the bodies"); } else ok=f.go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,p.shift,force,p.I);
	if(!in&&(l-q).squaredNorm()>p.r*p.r&&!force&&!kind){ vf_assert(!ok,"a sphere that does not reach the surface makes no contact"); vf_assert(!p.I->geom,"a sphere that does not reach the surface makes no contact"); vf_reach("far"); return; } vf_assert(ok,"touching bodies and existing contacts get a geometry"); ScGeom* g=p.g(); if(kind) vf_assert(g==p.old.get(),"an existing geometry is updated in place");
	if(in){ int k=0; double m=e[0]-(l[0]<0?-l[0]:l[0]); for(int i=1;i<3;i++){ double t=e[i]-(l[i]<0?-l[i]:l[i]); if(t<m){ m=t; k=i; } } Vector3r nn=Vector3r::Zero(); nn[k]=l[k]>0?1:-1; nn=rotv(o,nn); eq3(g->normal,nn,"a sphere whose centre is inside the box is pushed out through the nearest face"); vf_eq(g->penetrationDepth,p.r+m,1e-6,"overlap of a sphere whose centre is inside the box"); eq3(g->contactPoint,p.s2->pos+p.shift+.5*(m-p.r)*nn,"the contact point is in the middle of the overlap"); if(motion) p.kinematics(!kind,true); vf_reach("inside"); } else { dist(p,ok,rotv(o,q),0,""); if(motion) p.kinematics(!kind,false); vf_reach("outside"); } vf_reach("end");
}
extern "C" void h_ig_box(){ box(false,false,true,vf_pick(vf_int("kind",0,1))); }
extern "C" void h_ig_box_per(){ box(true,false,false,0); }
extern "C" void h_ig_box_rev(){ box(vf_pick(vf_int("periodic",0,1)),false,false,0,true); }
extern "C" void h_ig_box_kin(){ box(false,true,false,vf_pick(vf_int("kind",0,1))); }
static void facet(int which,bool per,bool motion,int ori,int kind,bool sixD=false){ shared_ptr<Facet> fc(new Facet); double s=vf_double_in("size",.5,2); Vector3r v[3]; // triangles with rational edges, origin in the centre of the inscribed circle
	if(which==0){ v[0]=Vector3r(-1,-1,0); v[1]=Vector3r(3,-1,0); v[2]=Vector3r(-1,2,0); } else if(which==1){ v[0]=Vector3r(-4.,-1.5,0); v[1]=Vector3r(4.,-1.5,0); v[2]=Vector3r(0,1.5,0); v[0][1]=v[1][1]=-4./3; v[2][1]=5./3; } else { v[0]=Vector3r(-1.5,-1,0); v[1]=Vector3r(1.5,-1,0); v[2]=Vector3r(0,1,0); }
	if(which==1){ v[0]=Vector3r(-12,-4,0); v[1]=Vector3r(12,-4,0); v[2]=Vector3r(0,5,0); } // 15,15,24, obtuse: area 108, perimeter 54, inscribed radius 4
	double k=which==1?.25:1; for(int i=0;i<3;i++) v[i]*=s*k; Pair p(fc,per,v3in("x",-2,2)); fc->setVertices(v[0],v[1],v[2]); Quaternionr o=someOri(ori); p.s1->ori=o; Vector3r l=v3in("l",-5,5); p.s2->pos=p.s1->pos+rotv(o,l)-p.shift; if(motion) p.moving(); shared_ptr<Ig2_Facet_Sphere_ScGeom> f(sixD?(Ig2_Facet_Sphere_ScGeom*)new Ig2_Facet_Sphere_ScGeom6D:new Ig2_Facet_Sphere_ScGeom); f->scene=p.sc; f->shrinkFactor=0; if(kind) p.existing(shared_ptr<ScGeom>(new ScGeom),true);
	vf_assume(l[2]*l[2]>=.0001||l[0]*l[0]+l[1]*l[1]>=100*s*s); bool ok=f->go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,p.shift,false,p.I); if(kind==2){ shared_ptr<Interaction> J(new Interaction(0,1)); J->cellDist=p.I->cellDist; bool ok2=f->go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,p.shift,false,J); vf_assert(ok2==(p.g()->penetrationDepth>0),"a contact is created exactly when the sphere reaches the surface"); vf_assert(ok2==bool(J->geom),"a contact is created exactly when the sphere reaches the surface"); }
	vf_assert(ok,"existing contacts get a geometry"); Vector3r c=p.s2->pos+p.shift-p.s1->pos; Vector3r q=c-(p.r-p.g()->penetrationDepth)*p.g()->normal; dist(p,ok,q,0,""); q=rotv(inv(o),q); // q is the nearest point of the triangle: in it, and no vertex is on the near side of the plane through q normal to the line to the centre
	vf_eq(q[2],0,1e-6,"the nearest point is on the facet"); for(int i=0;i<3;i++){ Vector3r e=v[(i+1)%3]-v[i]; vf_le(0,e[0]*(q[1]-v[i][1])-e[1]*(q[0]-v[i][0]),1e-6,"the nearest point is on the facet"); vf_le((l-q).dot(v[i]-q),0,1e-6,"no point of the facet is nearer to the sphere"); } if(motion) p.kinematics(!kind,false); vf_reach("end"); }
extern "C" void h_ig_facet0(){ facet(0,false,true,0,2); }
extern "C" void h_ig_facet1(){ facet(1,false,false,0,2); }
extern "C" void h_ig_facet_rot(){ facet(0,true,false,2,1); }
extern "C" void h_ig_facet_rot4(){ facet(0,true,false,vf_pick(vf_int("ori",0,3)),1); }
extern "C" void h_ig_facetdata(){ // a triangle centred on its inscribed circle: data derived from the vertices
	Facet f; double s=vf_double_in("size",.5,2); Vector3r v[3]={Vector3r(-1,-1,0),Vector3r(3,-1,0),Vector3r(-1,2,0)}; int k=vf_pick(vf_int("first",0,2)); bool flip=vf_pick(vf_int("flip",0,1)); Quaternionr o=someOri(vf_pick(vf_int("ori",0,3))); Vector3r w[3]; for(int i=0;i<3;i++) w[i]=rotv(o,v[(k+(flip?3-i:i))%3]*s); f.setVertices(w[0],w[1],w[2]); vf_eq(f.area,6*s*s,1e-6,"area of a facet"); eq3(f.normal,rotv(o,Vector3r(0,0,flip?-1:1)),"normal of a facet"); vf_eq(f.icr,s,1e-6,"inscribed radius"); vf_reach("end"); }
extern "C" void h_ig_wall(){ shared_ptr<Wall> w(new Wall); int ax=vf_pick(vf_int("axis",0,2)), se=vf_pick(vf_int("sense",-1,1)); w->axis=ax; w->sense=se; bool per=vf_pick(vf_int("periodic",0,1)), kind=vf_pick(vf_int("kind",0,1)), force=vf_pick(vf_int("force",0,1)); Pair p(w,per,v3in("x",-2,2)); p.s2->pos=v3in("y",-5,5); p.moving(); Ig2_Wall_Sphere_ScGeom f; f.scene=p.sc; bool nr=f.noRatch=vf_pick(vf_int("noRatch",0,1)); if(kind) p.existing(shared_ptr<ScGeom>(new ScGeom),true); double d=p.s2->pos[ax]+p.shift[ax]-p.s1->pos[ax],a=d<0?-d:d; bool ok=f.go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,p.shift,force,p.I);
	if(a>p.r&&!kind&&!force){ vf_assert(!ok,"a sphere that does not reach the surface makes no contact"); vf_assert(!p.I->geom,"a sphere that does not reach the surface makes no contact"); vf_reach("far"); return; } vf_assert(ok,"touching bodies and existing contacts get a geometry"); ScGeom* g=p.g(); vf_eq(g->penetrationDepth,p.r-a,1e-6,"overlap is the radius minus the distance to the wall"); Vector3r n=Vector3r::Zero(),c=p.s2->pos+p.shift; n[ax]=se?se:d>0?1:-1; c[ax]=p.s1->pos[ax]; eq3(g->normal,n,"the normal of a wall follows its axis and sense"); eq3(g->contactPoint,c,"the contact point is the projection of the centre on the wall"); vf_eq(g->radius1,p.r,1e-6,"radius"); vf_eq(g->radius2,p.r,1e-6,"radius"); p.kinematics(!kind,nr); vf_reach("end"); }
// relative rotation of the two bodies since the contact was created
static void rot6(bool creep){ shared_ptr<Sphere> sp(new Sphere); sp->radius=1; Pair p(sp,false,Vector3r::Zero()); p.s2->pos=Vector3r(0,0,1); Ig2_Sphere_Sphere_ScGeom6D f; f.scene=p.sc; f.creep=creep; Quaternionr a=someOri(vf_pick(vf_int("ori1",0,3))),b=someOri(vf_pick(vf_int("ori2",0,3))); p.s1->ori=a; p.s2->ori=b; vf_assert(f.go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,Vector3r::Zero(),false,p.I),"contact"); ScGeom6D* g=dynamic_cast<ScGeom6D*>(p.I->geom.get()); vf_assert(g!=0,"a geometry with rotations is created"); vf_eq(g->twist,0,1e-6,"a new contact has no relative rotation"); eq3(g->bending,Vector3r::Zero(),"a new contact has no relative rotation"); p.I->phys=shared_ptr<IPhys>(new NormShearPhys);
	int ax=vf_pick(vf_int("axis",0,2)); double c=vf_double_in("c",.1,.99),s=vf_double_in("s",-.99,.99); vf_assume_eq(c*c+s*s,1); Vector3r u=Vector3r::Zero(); u[ax]=s; bool second=vf_pick(vf_int("which",0,1)); Quaternionr q(c,u[0],u[1],u[2]); if(second) p.s2->ori=qmul(q,b); else p.s1->ori=qmul(q,a); double half=std::atan2(std::sqrt(s*s),c); vf_assume(half>=0); vf_assume(half<=1.5); // c is at least .1
	 vf_assert(f.go(p.b1->shape,p.b2->shape,*p.s1,*p.s2,Vector3r::Zero(),false,p.I),"contact"); vf_assert(p.I->geom.get()==g,"an existing geometry is updated in place"); double ang=2*half*(s<0?-1:1)*(second?-1:1); // rotation of the first body relative to the second
	vf_eq(g->twist,ax==2?ang:0,1e-6,"twist is the relative rotation about the normal"); for(int i=0;i<3;i++) vf_eq(g->bending[i],i==ax&&ax!=2?ang:0,1e-6,"bending is the relative rotation about the tangent axes"); vf_reach("end"); }
extern "C" void h_ig_rot(){ rot6(false); }
