// C08: bounds of bodies. C09: the periodic cell
#include "laws.h"
#include <core/Cell.hpp>
#include <pkg/common/Bo1_Aabb.hpp>
#include <pkg/common/Wall.hpp>
#include <pkg/common/Dispatching.hpp>
static Matrix3r m3(const char* n,double r){ Matrix3r m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m(i,j)=vf_double_in(n,-r,r); return m; }
static void eqm(const Matrix3r& a,const Matrix3r& b,const char* l){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) vf_eq(a(i,j),b(i,j),1e-6,l); }
static double det(const Matrix3r& m){ return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1))-m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0))+m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0)); }
// sheared cells: edge vectors of rational direction, any length, or a general upper triangular matrix
static Matrix3r shearedH(int kind){ Matrix3r h=Matrix3r::Zero(); Vector3r s=v3in("cell",3,9); for(int i=0;i<3;i++) h(i,i)=s[i]; if(kind==1){ h(0,1)=vf_double_in("hxy",-3,3); } if(kind==2){ h(0,1)=vf_double_in("hxy",-3,3); h(0,2)=vf_double_in("hxz",-3,3); h(1,2)=vf_double_in("hyz",-3,3); } if(kind==3) h(2,1)=vf_double_in("hzy",-3,3); return h; }
extern "C" void h_cell_integrate(){ Cell c; Matrix3r h=m3("h",3),t=m3("trsf",2),g=m3("velGrad",1); double dt=vf_double_in("dt",0,1); double d0=det(h); vf_assume(d0>=1); vf_assume(det(t)>=.1); c.setHSize(h); c.setTrsf(t); eqm(c.getTrsf(),t,"setting the transformation"); eqm(c.getHSize(),h,"setting the cell vectors"); eqm(c.refHSize,h,"the reference follows the cell vectors that are set"); c.velGrad=g; Matrix3r G=Matrix3r::Identity()+dt*g,h1=G*h; vf_assume(det(h1)>=.1); vf_assume(det(G)>=.1);
	c.integrateAndUpdate(dt); eqm(c.hSize,h1,"the cell deforms with the velocity gradient"); eqm(c.trsf,G*t,"the transformation accumulates the deformation"); eqm(c.prevHSize,h,"the previous cell is remembered"); eqm(c.refHSize,h,"deformation does not change the reference"); Vector3i k(vf_pick(vf_int("k",-1,2)),vf_pick(vf_int("k",-1,1)),1); Vector3r kr(k[0],k[1],k[2]); eq3(c.intrShiftPos(k),h1*kr,"periodic offset of positions"); eq3(c.intrShiftVel(k),g*(h*kr),"periodic offset of velocities"); vf_eq(c.getVolume(),det(h1),1e-6,"volume of the cell");
	for(int i=0;i<3;i++){ vf_eq(sq(c.getSize()[i]),h1.col(i).squaredNorm(),1e-6,"sizes are the lengths of the cell vectors"); vf_assert(c.getSize()[i]>0,"sizes are the lengths of the cell vectors"); } vf_reach("end"); }
extern "C" void h_cell_measures(){ Cell c; Matrix3r t=m3("trsf",2); vf_assume(det(t)>=.1); c.setTrsf(t); c.velGrad=m3("velGrad",1); Matrix3r I=Matrix3r::Identity(); eqm(c.getDefGrad(),t,"deformation gradient"); eqm(c.getSmallStrain(),.5*(t+t.transpose())-I,"small strain"); eqm(c.getRCauchyGreenDef(),t.transpose()*t,"right Cauchy-Green tensor"); eqm(c.getLCauchyGreenDef(),t*t.transpose(),"left Cauchy-Green tensor"); eqm(c.getLagrangianStrain(),.5*(t.transpose()*t-I),"Lagrangian strain"); Matrix3r& g=c.velGrad; eq3(c.getSpin(),Vector3r(.5*(g(2,1)-g(1,2)),.5*(g(0,2)-g(2,0)),.5*(g(1,0)-g(0,1))),"spin"); eqm(c.trsf*c.getHSize0(),c.hSize,"undeformed cell vectors"); vf_reach("end"); }
extern "C" void h_cell_shear(){ Cell c; Matrix3r h=shearedH(vf_pick(vf_int("shear",0,3))); c.setHSize(h); bool s=h(0,1)!=0||h(0,2)!=0||h(1,2)!=0||h(2,1)!=0; vf_assert(c.hasShear()==s,"a cell has shear when its vectors are not along the axes"); Vector3r p=v3in("p",-20,20); eq3(c.shearPt(c.unshearPt(p)),p,"shearing undoes unshearing"); eq3(c.unshearPt(c.shearPt(p)),p,"unshearing undoes shearing"); for(int i=0;i<3;i++){ Vector3r e=Vector3r::Zero(); e[i]=c.getSize()[i]; eq3(c.shearPt(e),h.col(i),"the sheared cell axes are the cell vectors"); } vf_reach("end"); }
static void wrap(int kind){ Cell c; Matrix3r h=shearedH(kind); double k=h(0,0); if(kind){ h=Matrix3r::Zero(); h(0,0)=k; h(1,1)=4*k; h(2,2)=k; h(0,1)=3*k; } c.setHSize(h); Vector3r p=kind?Vector3r(vf_double_in("px",-9,9),vf_double_in("py",-20,20),1):v3in("p",-9,9); Vector3i per; Vector3r w=kind?c.wrapShearedPt(p,per):c.wrapPt(p,per); eq3(w+c.intrShiftPos(per),p,"a wrapped point differs from the point by whole periods"); Vector3r u=c.unshearPt(w); for(int i=0;i<3;i++){ vf_le(0,u[i],1e-6,"a wrapped point is inside the cell"); if(kind) vf_le(u[i],c.getSize()[i],1e-6,"a wrapped point is inside the cell"); else vf_assert(u[i]<c.getSize()[i],"a wrapped point is inside the cell"); } eq3(kind?c.wrapShearedPt(p):c.wrapPt(p),w,"wrapping with and without the period agree"); vf_reach("end"); }
extern "C" void h_cell_wrap(){ wrap(0); }
extern "C" void h_cell_wrapsheared(){ wrap(1); }
extern "C" void h_cell_set(){ Cell c; c.setTrsf(m3("trsf0",.3)+Matrix3r::Identity()); Vector3r s=v3in("size",1,9); c.setBox(s); Matrix3r d=Matrix3r::Zero(); for(int i=0;i<3;i++) d(i,i)=s[i]; eqm(c.hSize,d,"a box cell"); eqm(c.trsf,Matrix3r::Identity(),"setting a box resets the transformation"); eq3(c.getSize(),s,"size of a box cell"); vf_assert(!c.hasShear(),"a box cell has no shear"); Matrix3r h=shearedH(1); c.setHSize(h); Vector3r n=v3in("new",1,9); c.setSize(n); for(int i=0;i<3;i++){ vf_eq(c.getSize()[i],n[i],1e-6,"setting the size"); eq3(Vector3r(c.hSize.col(i)).cross(Vector3r(h.col(i))),Vector3r::Zero(),"setting the size keeps the directions"); vf_assert(Vector3r(c.hSize.col(i)).dot(Vector3r(h.col(i)))>0,"setting the size keeps the directions"); } eqm(c.refHSize,c.hSize,"setting the size sets the reference"); Matrix3r g=m3("velGrad",1); Matrix3r g0=c.velGrad; c.setVelGrad(g); eqm(c.velGrad,g0,"a requested velocity gradient waits for the next step"); eqm(c.nextVelGrad,g,"a requested velocity gradient waits for the next step"); vf_assert(c.velGradChanged,"a requested velocity gradient waits for the next step"); vf_reach("end"); }
extern "C" void h_cell_degenerate(){ Cell c; Matrix3r h=Matrix3r::Zero(); h(0,0)=vf_double_in("a",1,2); h(1,1)=vf_double_in("b",1,2); h(0,2)=vf_double_in("c",1,2); bool thrown=false; try{ c.setHSize(h); } catch(const std::runtime_error&){ thrown=true; } vf_assert(thrown,"a cell without volume is refused"); vf_reach("end"); }
// ---- bounds
static Vector3r rotv(const Quaternionr& q,const Vector3r& v){ Vector3r u(q.x(),q.y(),q.z()); return v+2*q.w()*u.cross(v)+2*u.cross(u.cross(v)); }
static Quaternionr someOri(int k){ return k==0?Quaternionr(1,0,0,0):k==1?Quaternionr(.5,.5,.5,.5):k==2?Quaternionr(.5,-.5,.5,.5):Quaternionr(0,0,1,0); }
static void cover(const Aabb* a,const Vector3r& c,const Vector3r& half,const char* l){ for(int i=0;i<3;i++){ vf_le(a->min[i],c[i]-half[i],1e-6,l); vf_le(c[i]+half[i],a->max[i],1e-6,l); } }
extern "C" void h_bound_sphere(){ freshScene(); auto b=addSphere(v3in("pos",-20,20),vf_double_in("r",.1,5)); Bo1_Sphere_Aabb f; f.scene=vfScene().get(); double fac=1; int e=vf_pick(vf_int("enlarge",0,1)); if(e) f.aabbEnlargeFactor=fac=vf_double_in("factor",.5,2); bool per=vf_pick(vf_int("periodic",0,1)); if(per){ f.scene->isPeriodic=true; f.scene->cell->setBox(v3in("cell",3,9)); } bool had=vf_pick(vf_int("had",0,1)); if(had) b->bound=shared_ptr<Bound>(new Aabb); Bound* o=b->bound.get(); f.go(b->shape,b->bound,b->state->se3,b.get()); vf_assert(b->bound&&(!had||b->bound.get()==o),"a bound is created or updated in place"); double r=static_cast<Sphere*>(b->shape.get())->radius*fac; const Vector3r& p=b->state->pos; for(int i=0;i<3;i++){ vf_eq(b->bound->min[i],p[i]-r,1e-6,"the bound of a sphere is its box, enlarged by the factor"); vf_eq(b->bound->max[i],p[i]+r,1e-6,"the bound of a sphere is its box, enlarged by the factor"); } vf_reach("end"); }
static void sheared(int kind){ freshScene(); double r=vf_double_in("r",.1,1); auto b=addSphere(v3in("pos",-9,9),r); Bo1_Sphere_Aabb f; f.scene=vfScene().get(); f.scene->isPeriodic=true; double fac=1; if(vf_pick(vf_int("enlarge",0,1))) f.aabbEnlargeFactor=fac=vf_double_in("factor",1,2); Cell* c=f.scene->cell.get(); c->setHSize(shearedH(kind)); f.go(b->shape,b->bound,b->state->se3,b.get()); Vector3r u=c->unshearPt(b->state->pos); Matrix3r U; for(int j=0;j<3;j++) U.col(j)=c->unshearPt(Vector3r(j==0,j==1,j==2)); 
	for(int i=0;i<3;i++){ double hi=b->bound->max[i]-u[i],lo=u[i]-b->bound->min[i]; double need=sq(fac*r)*(sq(U(i,0))+sq(U(i,1))+sq(U(i,2))); vf_assert(hi>0&&lo>0,"the bound contains the centre"); vf_le(need,hi*hi,1e-6,"the bound of a sphere in a sheared cell contains the sheared sphere"); vf_le(need,lo*lo,1e-6,"the bound of a sphere in a sheared cell contains the sheared sphere"); } vf_reach("end"); }
extern "C" void h_bound_sheared1(){ sheared(vf_pick(vf_int("which",0,1))?1:3); }
extern "C" void h_bound_sheared2(){ sheared(2); }
extern "C" void h_bound_facet(){ freshScene(); shared_ptr<Body> b(new Body); shared_ptr<Facet> fc(new Facet); b->shape=fc; vfScene()->bodies->insert(b); for(int i=0;i<3;i++) fc->vertices[i]=v3in("v",-3,3); b->state->pos=v3in("pos",-9,9); int per=vf_pick(vf_int("periodic",0,2)); Quaternionr o=someOri(per==0?2:per==2?1:0); b->state->ori=o; Bo1_Facet_Aabb f; f.scene=vfScene().get(); Cell* c=f.scene->cell.get(); if(per){ f.scene->isPeriodic=true; c->setHSize(shearedH(per-1)); } f.go(b->shape,b->bound,b->state->se3,b.get()); Aabb* a=static_cast<Aabb*>(b->bound.get()); for(int i=0;i<3;i++){ bool lo=false,hi=false; for(int k=0;k<3;k++){ Vector3r w=b->state->pos+rotv(o,fc->vertices[k]); if(per) w=c->unshearPt(w); vf_le(a->min[i],w[i],1e-6,"the bound contains every vertex of a facet"); vf_le(w[i],a->max[i],1e-6,"the bound contains every vertex of a facet"); } (void)lo; (void)hi; } vf_reach("end"); }
extern "C" void h_bound_box(){ freshScene(); shared_ptr<Body> b(new Body); shared_ptr<Box> bx(new Box); b->shape=bx; vfScene()->bodies->insert(b); Vector3r e=v3in("e",.1,3); bx->extents=e; b->state->pos=v3in("pos",-9,9); int k=vf_pick(vf_int("ori",0,4)); Quaternionr o=someOri(k&3); if(k==4){ double c=vf_double_in("qw",-1,1),s=vf_double_in("qz",-1,1); vf_assume_eq(c*c+s*s,1); o=Quaternionr(c,0,0,s); } b->state->ori=o; Bo1_Box_Aabb f; f.scene=vfScene().get(); int per=vf_pick(vf_int("periodic",0,2)); if(per){ f.scene->isPeriodic=true; f.scene->cell->setHSize(shearedH(per==1?0:1)); } if(per==2){ vf_assume(f.scene->cell->hSize(0,1)!=0); bool th=false; try{ f.go(b->shape,b->bound,b->state->se3,b.get()); } catch(const std::logic_error&){ th=true; } vf_assert(th,"boxes in a sheared cell are refused"); vf_reach("sheared"); return; }
	f.go(b->shape,b->bound,b->state->se3,b.get()); Aabb* a=static_cast<Aabb*>(b->bound.get()); for(int q=0;q<8;q++){ Vector3r w=b->state->pos+rotv(o,Vector3r(q&1?e[0]:-e[0],q&2?e[1]:-e[1],q&4?e[2]:-e[2])); for(int i=0;i<3;i++){ vf_le(a->min[i],w[i],1e-6,"the bound contains every corner of a box"); vf_le(w[i],a->max[i],1e-6,"the bound contains every corner of a box"); } } vf_reach("end"); }
extern "C" void h_bound_wall(){ freshScene(); shared_ptr<Body> b(new Body); shared_ptr<Wall> w(new Wall); b->shape=w; vfScene()->bodies->insert(b); int ax=vf_pick(vf_int("axis",0,2)); w->axis=ax; b->state->pos=v3in("pos",-9,9); Bo1_Wall_Aabb f; f.scene=vfScene().get(); f.go(b->shape,b->bound,b->state->se3,b.get()); for(int i=0;i<3;i++) if(i==ax){ vf_eq(b->bound->min[i],b->state->pos[i],1e-6,"the bound of a wall is its plane"); vf_eq(b->bound->max[i],b->state->pos[i],1e-6,"the bound of a wall is its plane"); } else vf_assert(b->bound->min[i]<-1e300&&b->bound->max[i]>1e300,"a wall is unlimited in its plane"); vf_reach("end"); }
extern "C" void h_bound_sweep(){ // the dispatcher bounds every bounded body and enlarges the bound by the distance it may travel before the next update
	freshScene(); Scene* sc=vfScene().get(); double r=vf_double_in("r",.1,2); auto b0=addSphere(v3in("pos",-9,9),r); shared_ptr<Body> hole(new Body); sc->bodies->insert(hole); sc->bodies->erase(1,false); auto b2=addSphere(v3in("pos2",-9,9),r); bool bounded=vf_pick(vf_int("bounded",0,1)); b2->setBounded(bounded); BoundDispatcher d; d.scene=sc; d.add(shared_ptr<BoundFunctor>(new Bo1_Sphere_Aabb)); for(auto& f: d.functors) f->scene=sc; double sw=d.sweepDist=vf_double_in("sweep",0,1); bool adapt=vf_pick(vf_int("adapt",0,1)); double ms=0; if(adapt){ d.targetInterv=10; d.minSweepDistFactor=ms=vf_double_in("minFactor",0,1); } else d.targetInterv=-1; sc->iter=4; bool had=vf_pick(vf_int("had",0,1)); double len=sw; if(had){ shared_ptr<Aabb> a(new Aabb); a->lastUpdateIter=2; Vector3r ref=v3in("ref",-9,9); a->refPos=ref; double old=a->sweepLength=vf_double_in("oldSweep",0,1); b0->bound=a; if(adapt){ double dist=0; for(int i=0;i<3;i++){ double x=b0->state->pos[i]-ref[i]; if(x<0) x=-x; if(x>dist) dist=x; } if(dist==0) len=0; else { double nl=dist*10/2; if(nl<.9*old) nl=.9*old; if(nl>sw) nl=sw; if(nl<ms*sw) nl=ms*sw; len=nl; } } } else if(adapt) len=-1;
	d.action(); vf_assert(bool(b2->bound)==bounded,"exactly the bounded bodies get bounds"); vf_assert(bool(b0->bound),"bodies are bounded"); const Vector3r& p=b0->state->pos; if(len>=0){ vf_eq(b0->bound->sweepLength,len,1e-6,"the sweep length follows the recent displacement within its limits"); for(int i=0;i<3;i++){ vf_eq(b0->bound->min[i],p[i]-r-len,1e-6,"the bound is enlarged by the sweep length"); vf_eq(b0->bound->max[i],p[i]+r+len,1e-6,"the bound is enlarged by the sweep length"); } } eq3(b0->bound->refPos,p,"the position at the update is remembered"); vf_assert(b0->bound->lastUpdateIter==4,"the step of the update is remembered"); vf_reach("end"); }
