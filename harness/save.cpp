// C10: a saved and reloaded simulation is the same simulation. The archive of boost is replaced by a tape; the serialization code of the classes (what is saved, in which order, hooks before and after) is the real one.
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/serialization.hpp>
#undef BOOST_SERIALIZATION_BASE_OBJECT_NVP
#define BOOST_SERIALIZATION_BASE_OBJECT_NVP(B) boost::serialization::make_nvp(#B,static_cast<B&>(*this))
#include "laws.h"
#include <pkg/common/InteractionLoop.hpp>
#include <pkg/common/ForceResetter.hpp>
#include <pkg/common/PeriodicEngines.hpp>
#include <pkg/common/ElastMat.hpp>
#include <pkg/common/Aabb.hpp>
#include <pkg/common/Box.hpp>
#include <pkg/common/Facet.hpp>
#include <pkg/common/Wall.hpp>
#include <pkg/dem/FrictPhys.hpp>
#include <pkg/dem/ElasticContactLaw.hpp>
#include <pkg/dem/CohesiveFrictionalContactLaw.hpp>
#include <pkg/dem/Ig2_Sphere_Sphere_ScGeom.hpp>
#include <pkg/dem/Ip2_ElastMat.hpp>
#include <pkg/dem/NewtonIntegrator.hpp>
#include <pkg/dem/GlobalStiffnessTimeStepper.hpp>
#include <sys/time.h>
static long vfClock=1000;
extern "C" int gettimeofday(struct timeval* t,void*) noexcept { t->tv_sec=vfClock; t->tv_usec=0; return 0; }
#define KNOWN(X) X(Body) X(State) X(Sphere) X(Box) X(Facet) X(Wall) X(Aabb) X(Bound) X(Material) X(ElastMat) X(FrictMat) X(CohFrictMat) X(Interaction) X(ScGeom) X(ScGeom6D) X(FrictPhys) X(CohFrictPhys) X(Cell) X(BodyContainer) X(InteractionContainer) X(EnergyTracker) X(Clump) \
	X(ForceResetter) X(InteractionLoop) X(IGeomDispatcher) X(IPhysDispatcher) X(LawDispatcher) X(Ig2_Sphere_Sphere_ScGeom) X(Ip2_FrictMat_FrictMat_FrictPhys) X(Law2_ScGeom_FrictPhys_CundallStrack) X(NewtonIntegrator) X(GlobalStiffnessTimeStepper) X(Scene) X(PeriodicEngine)
struct Tape{ std::vector<double> d; std::vector<long> l; std::vector<std::string> s; std::vector<shared_ptr<Serializable>> obj; size_t id=0,il=0,is=0; };
template<bool L> struct Ar{ typedef boost::mpl::bool_<L> is_loading; typedef boost::mpl::bool_<!L> is_saving; Tape& t; Ar(Tape& t_): t(t_){}
	template<class T> Ar& operator&(const boost::serialization::nvp<T>& p){ io(const_cast<T&>(p.const_value())); return *this; }
	template<class T> Ar& operator<<(const boost::serialization::nvp<T>& p){ return *this&p; } template<class T> Ar& operator>>(const boost::serialization::nvp<T>& p){ return *this&p; }
	void io(double& x){ if(L) x=t.d[t.id++]; else t.d.push_back(x); }
	template<class T> void num(T& x){ if(L) x=(T)t.l[t.il++]; else t.l.push_back((long)x); }
	void io(int& x){ num(x); } void io(long& x){ num(x); } void io(unsigned& x){ num(x); } void io(bool& x){ num(x); } void io(unsigned long& x){ num(x); } void io(short& x){ num(x); } void io(signed char& x){ num(x); } void io(unsigned short& x){ num(x); } void io(unsigned char& x){ num(x); } 
	void io(std::string& x){ if(L) x=t.s[t.is++]; else t.s.push_back(x); }
	template<class T> void io(std::vector<T>& v){ long n=v.size(); num(n); if(L) v.resize(n); for(long i=0;i<n;i++) io(v[i]); }
	void io(std::vector<bool>& v){ long n=v.size(); num(n); if(L) v.resize(n); for(long i=0;i<n;i++){ bool b=v[i]; num(b); v[i]=b; } }
	template<class K,class V> void io(std::map<K,V>& m){ long n=m.size(); num(n); if(L){ m.clear(); for(long i=0;i<n;i++){ K k; V v; io(k); io(v); m[k]=v; } } else for(auto& x:m){ K k=x.first; io(k); io(x.second); } }
	template<class T> void io(shared_ptr<T>& p){ if(L){ long k=t.l[t.il++]; if(k<0){ p.reset(); return; } if(k<(long)t.obj.size()){ p=boost::dynamic_pointer_cast<T>(t.obj[k]); return; } std::string c=t.s[t.is++]; shared_ptr<Serializable> o;
			#define X(C) if(c==#C){ shared_ptr<C> n(new C); o=n; t.obj.push_back(o); io(*n); }
			KNOWN(X)
			#undef X
			vf_assert((bool)o,"known class"); p=boost::dynamic_pointer_cast<T>(o); vf_assert((bool)p,"class fits");
		} else { if(!p){ t.l.push_back(-1); return; } for(size_t i=0;i<t.obj.size();i++) if(t.obj[i].get()==static_cast<Serializable*>(p.get())){ t.l.push_back(i); return; } t.l.push_back(t.obj.size()); t.obj.push_back(p); std::string c=p->getClassName(); t.s.push_back(c); bool done=false;
			#define X(C) if(c==#C){ done=true; io(*dynamic_cast<C*>(static_cast<Serializable*>(p.get()))); }
			KNOWN(X)
			#undef X
			vf_assert(done,"known class"); } }
	template<class T> void io(T& x){ boost::serialization::serialize_adl(*this,x,0); } };
template<class T> static shared_ptr<T> reload(const shared_ptr<T>& o){ Tape t; { Ar<false> a(t); shared_ptr<T> p=o; a.io(p); } t.obj.clear(); shared_ptr<T> n; Ar<true> b(t); b.io(n); vf_assert(t.id==t.d.size()&&t.il==t.l.size()&&t.is==t.s.size(),"everything saved is read again"); return n; }
template<class T> static T again(T x){ Tape t; { Ar<false> a(t); a.io(x); } T y; Ar<true> b(t); b.io(y); return y; }
static Matrix3r m3(const char* n){ Matrix3r m; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m(i,j)=vf_double_in(n,-9,9); return m; }
static Quaternionr q4(const char* n){ double w=vf_double_in(n,-1,1),x=vf_double_in(n,-1,1),y=vf_double_in(n,-1,1),z=vf_double_in(n,-1,1); return Quaternionr(w,x,y,z); }
static void eqm(const Matrix3r& a,const Matrix3r& b,const char* l){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) vf_eq(a(i,j),b(i,j),0,l); }
static void eqv(const Vector3r& a,const Vector3r& b,const char* l){ for(int i=0;i<3;i++) vf_eq(a[i],b[i],0,l); }
static void eqq(const Quaternionr& a,const Quaternionr& b,const char* l){ vf_eq(a.w(),b.w(),0,l); vf_eq(a.x(),b.x(),0,l); vf_eq(a.y(),b.y(),0,l); vf_eq(a.z(),b.z(),0,l); }
extern "C" void h_math(){ const char* l="vectors, rotations and matrices are restored"; Vector3r v=v3in("v",-9,9); eqv(again(v),v,l); Vector2r w(vf_double("w"),vf_double("w")); Vector2r w2=again(w); vf_eq(w2[0],w[0],0,l); vf_eq(w2[1],w[1],0,l); Vector3i i3(vf_int("i",-9,9),vf_int("i",-9,9),vf_int("i",-9,9)), j3=again(i3); for(int k=0;k<3;k++) vf_assert(i3[k]==j3[k],l); Vector2i i2(i3[1],i3[2]), j2=again(i2); for(int k=0;k<2;k++) vf_assert(i2[k]==j2[k],l); Matrix3r m=m3("m"); eqm(again(m),m,l); Quaternionr q=q4("q"); eqq(again(q),q,l); Se3r s(v,q), t=again(s); eqv(t.position,v,l); eqq(t.orientation,q,l);
	Vector6r v6; for(int k=0;k<6;k++) v6[k]=vf_double("v6"); Vector6r u6=again(v6); for(int k=0;k<6;k++) vf_eq(u6[k],v6[k],0,l); Vector6i vi; for(int k=0;k<6;k++) vi[k]=vf_int("vi",-9,9); Vector6i ui=again(vi); for(int k=0;k<6;k++) vf_assert(ui[k]==vi[k],l); Matrix6r m6; for(int i=0;i<6;i++) for(int j=0;j<6;j++) m6(i,j)=vf_double("m6"); Matrix6r n6=again(m6); for(int i=0;i<6;i++) for(int j=0;j<6;j++) vf_eq(n6(i,j),m6(i,j),0,l); vf_reach("end"); }
extern "C" void h_accu(){ vfMaxThreads=2; EnergyTracker e; OpenMPArrayAccumulator<Real> a; a.resize(3); double x[3]; for(int i=0;i<3;i++){ x[i]=0; for(int k=0;k<2;k++){ vfThread=k; double d=vf_double("d"); a.add(i,d); x[i]+=d; } } vfThread=0; Tape t; { Ar<false> s(t); s.io(a); } OpenMPArrayAccumulator<Real> b; Ar<true> r(t); r.io(b); vf_assert(b.size()==3,"size of the array"); for(int i=0;i<3;i++) vf_eq(b.get(i),x[i],1e-9,"sums of all threads are restored"); 
	OpenMPAccumulator<Real> c; double y=0; for(int k=0;k<2;k++){ vfThread=k; double d=vf_double("d"); c+=d; y+=d; } vfThread=0; Tape u; { Ar<false> s(u); s.io(c); } OpenMPAccumulator<Real> f; f+=vf_double("old"); Ar<true> q(u); q.io(f); vf_eq(f.get(),y,1e-9,"sums of all threads are restored"); vf_reach("end"); }
static void fillBody(const shared_ptr<Body>& b){ State& s=*b->state; s.ori=q4("ori"); s.vel=v3("vel"); s.angVel=v3("angVel"); s.angMom=v3("angMom"); s.mass=vf_double_in("mass",1,9); s.inertia=v3in("inertia",1,9); s.refPos=v3("refPos"); s.refOri=q4("refOri"); s.blockedDOFs=vf_int("blocked",0,63); s.isDamped=vf_pick(vf_int("damped",0,1)); s.densityScaling=vf_double("ds"); b->groupMask=vf_int("mask",0,15); b->setAspherical(vf_pick(vf_int("asph",0,1))); b->subdomain=vf_int("sub",0,3); b->iterBorn=vf_int("born",0,9); b->timeBorn=vf_double("tborn"); b->chain=vf_int("chain",-1,3); }
static void eqBody(const Body& a,const Body& b){ const char* l="the body is restored"; vf_assert(a.id==b.id&&a.groupMask==b.groupMask&&a.flags==b.flags&&a.subdomain==b.subdomain&&a.clumpId==b.clumpId&&a.chain==b.chain&&a.iterBorn==b.iterBorn,l); vf_eq(a.timeBorn,b.timeBorn,0,l); const State &s=*a.state,&t=*b.state; l="the state is restored"; eqv(s.pos,t.pos,l); eqq(s.ori,t.ori,l); eqv(s.vel,t.vel,l); eqv(s.angVel,t.angVel,l); eqv(s.angMom,t.angMom,l); eqv(s.inertia,t.inertia,l); eqv(s.refPos,t.refPos,l); eqq(s.refOri,t.refOri,l); vf_eq(s.mass,t.mass,0,l); vf_eq(s.densityScaling,t.densityScaling,0,l); vf_assert(s.blockedDOFs==t.blockedDOFs&&s.isDamped==t.isDamped,l); }
static shared_ptr<FrictMat> fmat(){ shared_ptr<FrictMat> m(new FrictMat); m->young=vf_double_in("E",1,9); m->poisson=vf_double_in("nu",.1,1); m->frictionAngle=vf_double_in("phi",0,1); m->density=vf_double_in("rho",1,9); m->label="m"; return m; }
static void eqMat(const FrictMat& a,const FrictMat& b){ const char* l="the material is restored"; vf_assert(a.id==b.id&&a.label==b.label,l); vf_eq(a.young,b.young,0,l); vf_eq(a.poisson,b.poisson,0,l); vf_eq(a.frictionAngle,b.frictionAngle,0,l); vf_eq(a.density,b.density,0,l); }
extern "C" void h_body(){ freshScene(); auto b=addSphere(v3("pos"),vf_double_in("r",.5,2)); b->shape->color=v3("color"); b->shape->wire=vf_pick(vf_int("wire",0,1)); b->shape->highlight=vf_pick(vf_int("hl",0,1)); fillBody(b); auto m=fmat(); b->material=m; shared_ptr<Aabb> a(new Aabb); a->refPos=v3("refPos"); a->sweepLength=vf_double("sweep"); a->lastUpdateIter=vf_int("upd",0,9); b->bound=a; auto n=reload(b); eqBody(*b,*n); Sphere* s=dynamic_cast<Sphere*>(n->shape.get()); vf_assert((bool)s,"the shape is restored"); vf_eq(s->radius,static_cast<Sphere*>(b->shape.get())->radius,0,"the shape is restored"); eqv(s->color,b->shape->color,"the shape is restored"); vf_assert(s->wire==b->shape->wire&&s->highlight==b->shape->highlight,"the shape is restored"); FrictMat* fm=dynamic_cast<FrictMat*>(n->material.get()); vf_assert((bool)fm,"the material is restored"); eqMat(*m,*fm); Aabb* c=dynamic_cast<Aabb*>(n->bound.get()); vf_assert((bool)c,"the bound is restored"); eqv(c->refPos,a->refPos,"the bound is restored"); vf_eq(c->sweepLength,a->sweepLength,0,"the bound is restored"); vf_assert(c->lastUpdateIter==a->lastUpdateIter,"the bound is restored"); vf_reach("end"); }
extern "C" void h_shapes(){ shared_ptr<Facet> f(new Facet); double a=vf_double_in("a",.5,2),h=vf_double_in("h",.5,2); f->setVertices(Vector3r(-a,-h,0),Vector3r(a,-h,0),Vector3r(0,2*h,0)); auto g=reload(f); for(int i=0;i<3;i++) eqv(g->vertices[i],f->vertices[i],"vertices of the facet"); eqv(g->normal,f->normal,"the normal of the facet is computed again"); vf_eq(g->area,f->area,1e-9,"the area of the facet is computed again"); for(int i=0;i<3;i++){ eqv(g->ne[i],f->ne[i],"edge normals of the facet"); vf_eq(g->vl[i],f->vl[i],1e-9,"the facet"); } vf_eq(g->icr,f->icr,1e-9,"inscribed circle of the facet"); shared_ptr<Box> b(new Box); b->extents=v3("ext"); eqv(reload(b)->extents,b->extents,"box"); shared_ptr<Wall> w(new Wall); w->axis=vf_pick(vf_int("axis",0,2)); w->sense=vf_pick(vf_int("sense",-1,1)); auto v=reload(w); vf_assert(v->axis==w->axis&&v->sense==w->sense,"wall"); vf_reach("end"); }
extern "C" void h_cell(){ shared_ptr<Cell> c(new Cell); Matrix3r h=Matrix3r::Zero(); for(int i=0;i<3;i++) h(i,i)=vf_double_in("h",1,5); h(0,1)=vf_double_in("shear",-.5,.5); c->setHSize(h); c->refHSize(1,1)=vf_double_in("ref",1,3); c->trsf=Matrix3r::Identity(); c->trsf(0,1)=vf_double_in("t",-.5,.5); c->trsf(1,1)=vf_double_in("t1",.5,2); c->velGrad=m3("L"); c->nextVelGrad=m3("N"); c->velGradChanged=vf_pick(vf_int("changed",0,1)); c->homoDeform=vf_pick(vf_int("homo",0,2)); auto n=reload(c); eqm(n->hSize,c->hSize,"the cell is restored"); eqm(n->trsf,c->trsf,"the transformation is restored"); eqm(n->refHSize,c->refHSize,"the reference cell is restored"); eqm(n->velGrad,c->velGrad,"the velocity gradient is restored"); eqm(n->nextVelGrad,c->nextVelGrad,"the velocity gradient of the next step is restored"); vf_assert(n->velGradChanged==c->velGradChanged&&n->homoDeform==c->homoDeform,"flags of the cell"); eqv(n->getSize(),c->getSize(),"derived values are computed again"); Vector3r p=v3("p"); eqv(n->unshearPt(p),c->unshearPt(p),"derived values are computed again"); eqv(n->shearPt(p),c->shearPt(p),"derived values are computed again"); vf_assert(n->hasShear()==c->hasShear(),"derived values are computed again");
	double dt=vf_double_in("dt",.001,.1); c->integrateAndUpdate(dt); n->integrateAndUpdate(dt); eqm(n->hSize,c->hSize,"the next step gives the same cell"); eqm(n->trsf,c->trsf,"the next step gives the same cell"); eqm(n->prevHSize,c->prevHSize,"the next step gives the same cell"); Vector3i d(1,-1,2); eqv(n->intrShiftVel(d),c->intrShiftVel(d),"the next step gives the same cell"); vf_reach("end"); }
// a scene with a slot that may be empty, shared materials and contacts of every kind
static void world(int n){ freshScene(); Scene& s=*vfScene(); s.iter=vf_int("iter",10,99); s.dt=vf_double_in("dt",.001,1); s.time=vf_double_in("time",0,9); for(int i=0;i<2;i++){ auto m=fmat(); m->id=i; s.materials.push_back(m); } for(int i=0;i<n;i++){ auto b=addSphere(v3("pos"),vf_double_in("r",.5,2)); b->state->vel=v3("vel"); b->state->mass=1; b->material=s.materials[i>0]; } }
static shared_ptr<Interaction> link(int i,int j,bool real){ shared_ptr<Interaction> I(new Interaction(i,j)); if(real){ shared_ptr<ScGeom> g(new ScGeom); g->normal=v3("n"); g->contactPoint=v3("cp"); g->radius1=vf_double_in("r1",.5,2); g->radius2=vf_double_in("r2",.5,2); I->geom=g; shared_ptr<FrictPhys> p(new FrictPhys); p->kn=vf_double("kn"); p->ks=vf_double("ks"); p->normalForce=v3("fn"); p->shearForce=v3("fs"); p->tangensOfFrictionAngle=vf_double("mu"); I->phys=p; I->iterMadeReal=vf_int("made",0,9); } I->cellDist=Vector3i(vf_int("cd",-2,2),vf_int("cd",-2,2),0); vfScene()->interactions->insert(I); I->iterBorn=vf_int("iborn",0,9); I->isActive=i!=0||vf_pick(vf_int("active",0,1)); return I; }
extern "C" void h_scene(){ world(4); Scene& s=*vfScene(); shared_ptr<Interaction> I[3]; bool real[3]; for(int k=0;k<3;k++){ real[k]=vf_pick(vf_int("real",0,1)); I[k]=k==2?link(2,1,real[k]):k?link(1,3,real[k]):link(0,1,real[k]); } int gone=vf_pick(vf_int("erased",0,2)); if(gone) s.bodies->erase(gone==1?3:1,false); s.interactions->serializeSorted=vf_pick(vf_int("sorted",0,1)); s.isPeriodic=!s.interactions->serializeSorted; s.trackEnergy=true; { int ix=-1; s.energy->add(vf_double("e"),"work",ix,false); ix=-1; s.energy->add(vf_double("e"),"pot",ix,true); } s.subStep=vf_int("substep",-1,2); s.stopAtIter=vf_int("stop",0,9); s.stopAtTime=vf_double("stopT"); s.tags.push_back("x=1"); double dt=s.dt,tm=s.time; 
	shared_ptr<Scene> old=vfScene(); size_t nI=s.interactions->size(); auto other=shared_ptr<Scene>(new Scene); other->iter=3; vfScene()=other; auto n=reload(old); vfScene()=n; vf_assert(s.interactions->size()==nI,"saving does not change the simulation"); vf_eq(n->dt,dt,0,"time step and time"); vf_eq(n->time,tm,0,"time step and time"); vf_assert(n->iter==s.iter&&n->subStep==s.subStep&&n->subStepping==s.subStepping&&n->stopAtIter==s.stopAtIter&&n->isPeriodic==s.isPeriodic&&n->trackEnergy==s.trackEnergy&&n->doSort==s.doSort,"step number and options"); vf_eq(n->stopAtTime,s.stopAtTime,0,"options"); vf_assert(n->tags==s.tags,"tags"); for(const char* e:{"work","pot"}) vf_eq(n->energy->getItem_py(e),s.energy->getItem_py(e),1e-9,"energies"); { int ix=-1; n->energy->findId("pot",ix,false); n->energy->resetResettables(); vf_eq(n->energy->getItem_py("work"),s.energy->getItem_py("work"),1e-9,"energies that accumulate"); vf_eq(n->energy->getItem_py("pot"),0,1e-9,"energies of one step"); }
	vf_assert(n->bodies->size()==s.bodies->size(),"number of bodies"); for(size_t i=0;i<s.bodies->size();i++){ auto &a=(*s.bodies)[i],&b=(*n->bodies)[i]; vf_assert((bool)a==(bool)b,"erased bodies stay erased"); if(!a||!b) continue; vf_assert(a!=b,"a copy"); eqBody(*a,*b); vf_assert(b->material==n->materials[i>0],"materials stay shared"); eqMat(static_cast<FrictMat&>(*a->material),static_cast<FrictMat&>(*b->material)); }
	size_t cnt=0; for(int k=0;k<3;k++){ int i=I[k]->getId1(),j=I[k]->getId2(); bool alive=real[k]&&s.bodies->exists(i)&&s.bodies->exists(j); const shared_ptr<Interaction> c=n->interactions->find(i,j); vf_assert((bool)c==alive,"real contacts are restored"); if(!alive) continue; cnt++; vf_assert(c->getId1()==i&&c->getId2()==j,"order of the bodies in the contact"); vf_assert(c->isReal(),"real contacts stay real"); vf_assert((*n->bodies)[i]->intrs[j]==c&&(*n->bodies)[j]->intrs[i]==c,"both bodies know the contact"); vf_assert(c->linIx>=0&&c->linIx<(int)n->interactions->size()&&(*n->interactions)[c->linIx]==c,"the contact list knows the contact"); vf_assert(c->iterMadeReal==I[k]->iterMadeReal,"age of the contact"); vf_assert(c->iterBorn==I[k]->iterBorn,"step in which the contact was created"); vf_assert(c->isActive==I[k]->isActive,"inactive contacts stay inactive"); for(int q=0;q<3;q++) vf_assert(c->cellDist[q]==I[k]->cellDist[q],"periods between the bodies"); FrictPhys &p=static_cast<FrictPhys&>(*I[k]->phys),&r=static_cast<FrictPhys&>(*c->phys); vf_eq(p.kn,r.kn,0,"contact stiffness"); vf_eq(p.ks,r.ks,0,"contact stiffness"); vf_eq(p.tangensOfFrictionAngle,r.tangensOfFrictionAngle,0,"contact friction"); eqv(p.normalForce,r.normalForce,"contact forces"); eqv(p.shearForce,r.shearForce,"contact forces"); ScGeom &g=static_cast<ScGeom&>(*I[k]->geom),&h=static_cast<ScGeom&>(*c->geom); eqv(g.normal,h.normal,"contact normal"); eqv(g.contactPoint,h.contactPoint,"contact point"); vf_eq(g.radius1,h.radius1,0,"radii"); vf_eq(g.radius2,h.radius2,0,"radii"); } vf_assert(n->interactions->size()==cnt,"nothing else is in the contact list"); size_t m=0; for(auto& b:*n->bodies) m+=b->intrs.size(); vf_assert(m==2*cnt,"bodies know no other contacts"); vf_reach("end"); }
static void engines(Scene& s){ shared_ptr<InteractionLoop> l(new InteractionLoop); l->geomDispatcher->add(shared_ptr<IGeomFunctor>(new Ig2_Sphere_Sphere_ScGeom)); l->physDispatcher->add(shared_ptr<IPhysFunctor>(new Ip2_FrictMat_FrictMat_FrictPhys)); l->lawDispatcher->add(shared_ptr<LawFunctor>(new Law2_ScGeom_FrictPhys_CundallStrack)); shared_ptr<NewtonIntegrator> n(new NewtonIntegrator); n->damping=0; n->gravity=Vector3r(0,vf_double_in("g",-9,9),0); n->densityScaling=vf_pick(vf_int("densityScaling",0,1)); s.engines={shared_ptr<Engine>(new ForceResetter),l,n}; }
// a step after reloading gives what it would have given without saving
static void cont(bool periodic){ freshScene(); Scene& s=*vfScene(); s.runInternalConsistencyChecks=false; s.iter=5; s.dt=vf_double_in("dt",.001,1); s.isPeriodic=periodic; auto m=fmat(); m->id=0; s.materials.push_back(m); double r=vf_double_in("r",1,2); for(int i=0;i<2;i++){ auto b=addSphere(Vector3r(i?2.:0.,0,0),r+.5); b->state->vel=Vector3r(i?0:vf_double_in("vel",-1,1),i?vf_double_in("vel",-1,1):0,0); b->state->mass=vf_double_in("mass",1,9); b->state->inertia=Vector3r(1,1,1); b->state->densityScaling=vf_double_in("ds",.5,1); b->material=m; } if(periodic){ s.cell->setBox(Vector3r(20,20,20)); s.cell->velGrad(0,1)=vf_double_in("L",-.1,.1); } shared_ptr<Interaction> I(new Interaction(0,1)); shared_ptr<ScGeom> g(new ScGeom); g->normal=Vector3r(1,0,0); g->radius1=g->radius2=r+.5; I->geom=g; shared_ptr<FrictPhys> p(new FrictPhys); p->kn=vf_double_in("kn",1,9); p->ks=vf_double_in("ks",1,9); p->tangensOfFrictionAngle=vf_double_in("mu",0,1); p->shearForce=Vector3r(0,vf_double_in("fs",-1,1),0); I->phys=p; I->iterMadeReal=2; s.interactions->insert(I); engines(s); 
	shared_ptr<Scene> old=vfScene(); vfScene()=shared_ptr<Scene>(new Scene); auto n=reload(old); Vector3r x[2],v[2],w[2],f; for(int k=0;k<2;k++){ vfScene()=k?n:old; Scene& c=*vfScene(); if(c.isPeriodic) c.cell->integrateAndUpdate(c.dt); for(auto& e:c.engines){ e->scene=&c; if(!e->dead&&e->isActivated()) e->action(); } const shared_ptr<Interaction> J=c.interactions->find(0,1); vf_assert((bool)(J&&J->isReal()),"the contact persists"); Vector3r sf=static_cast<FrictPhys&>(*J->phys).shearForce; if(k) eqv(sf,f,"same contact force"); f=sf; for(int i=0;i<2;i++){ State& t=*(*c.bodies)[i]->state; if(k){ eqv(t.pos,x[i],"same positions after the next step"); eqv(t.vel,v[i],"same velocities after the next step"); eqv(t.angVel,w[i],"same spins after the next step"); } x[i]=t.pos; v[i]=t.vel; w[i]=t.angVel; } } vf_reach("end"); }
extern "C" void h_continue(){ cont(false); }
extern "C" void h_continue_periodic(){ cont(true); }
class Per: public PeriodicEngine{ public: };
extern "C" void h_engines(){ freshScene(); shared_ptr<PeriodicEngine> p(new PeriodicEngine); p->virtPeriod=vf_double("vp"); p->iterPeriod=vf_int("ip",0,9); p->nDo=vf_int("nDo",-1,9); p->nDone=vf_int("nDone",0,9); p->virtLast=vf_double("vl"); p->iterLast=vf_int("il",0,9); p->realLast=vf_double("rl"); p->realPeriod=vf_double("rp"); p->initRun=vf_pick(vf_int("init",0,1)); p->firstIterRun=vf_int("first",0,9); p->dead=vf_pick(vf_int("dead",0,1)); p->label="p"; auto q=reload(p); const char* l="counters of a periodic engine"; vf_eq(q->virtPeriod,p->virtPeriod,0,l); vf_eq(q->realPeriod,p->realPeriod,0,l); vf_eq(q->virtLast,p->virtLast,0,l); vf_eq(q->realLast,p->realLast,0,l); vf_assert(q->iterPeriod==p->iterPeriod&&q->nDo==p->nDo&&q->nDone==p->nDone&&q->iterLast==p->iterLast&&q->initRun==p->initRun&&q->firstIterRun==p->firstIterRun&&q->dead==p->dead&&q->label==p->label,l); 
	shared_ptr<NewtonIntegrator> n(new NewtonIntegrator); n->damping=vf_double("damp"); n->gravity=v3("g"); n->prevVelGrad=m3("L"); n->mask=vf_int("mask",0,9); n->exactAsphericalRot=vf_pick(vf_int("exact",0,1)); n->prevCellSize=v3("cs"); n->densityScaling=vf_pick(vf_int("scaling",0,1)); auto k=reload(n); l="motion integrator"; vf_eq(k->damping,n->damping,0,l); eqv(k->gravity,n->gravity,l); eqm(k->prevVelGrad,n->prevVelGrad,l); eqv(k->prevCellSize,n->prevCellSize,l); vf_assert(k->mask==n->mask&&k->exactAsphericalRot==n->exactAsphericalRot,l); vf_assert(k->densityScaling==n->densityScaling,"density scaling stays switched on");
	shared_ptr<GlobalStiffnessTimeStepper> g(new GlobalStiffnessTimeStepper); g->defaultDt=vf_double("dd"); g->maxDt=vf_double("md"); g->timestepSafetyCoefficient=vf_double("sc"); g->timeStepUpdateInterval=vf_int("ui",1,9); g->active=vf_pick(vf_int("act",0,1)); g->densityScaling=vf_pick(vf_int("gds",0,1)); g->targetDt=vf_double("td"); auto h=reload(g); l="time stepper"; vf_eq(h->defaultDt,g->defaultDt,0,l); vf_eq(h->maxDt,g->maxDt,0,l); vf_eq(h->timestepSafetyCoefficient,g->timestepSafetyCoefficient,0,l); vf_eq(h->targetDt,g->targetDt,0,l); vf_assert(h->timeStepUpdateInterval==g->timeStepUpdateInterval&&h->active==g->active&&h->densityScaling==g->densityScaling,l); vf_reach("end"); }
extern "C" void h_coh(){ shared_ptr<Interaction> I(new Interaction(1,0)); shared_ptr<ScGeom6D> g(new ScGeom6D); g->initialOrientation1=q4("o"); g->initialOrientation2=q4("o"); g->twistCreep=q4("tc"); g->twist=vf_double("twist"); g->bending=v3("bending"); g->normal=v3("n"); I->geom=g; shared_ptr<CohFrictPhys> p(new CohFrictPhys); p->cohesionBroken=vf_pick(vf_int("broken",0,1)); p->fragile=vf_pick(vf_int("fragile",0,1)); p->cohesionDisablesFriction=vf_pick(vf_int("cdf",0,1)); p->normalAdhesion=vf_double("na"); p->shearAdhesion=vf_double("sa"); p->unp=vf_double("unp"); p->unpMax=vf_double("unpMax"); p->moment_twist=v3("mt"); p->moment_bending=v3("mb"); p->kr=vf_double("kr"); p->ktw=vf_double("ktw"); p->maxRollPl=vf_double("mr"); p->maxTwistPl=vf_double("mtp"); p->momentRotationLaw=vf_pick(vf_int("mrl",0,1)); p->initCohesion=vf_pick(vf_int("ic",0,1)); p->creep_viscosity=vf_double("cv"); I->phys=p; auto J=reload(I); ScGeom6D* h=dynamic_cast<ScGeom6D*>(J->geom.get()); CohFrictPhys* q=dynamic_cast<CohFrictPhys*>(J->phys.get()); vf_assert((bool)(h&&q),"geometry and physics of the contact"); const char* l="rotations of the contact"; eqq(h->initialOrientation1,g->initialOrientation1,l); eqq(h->initialOrientation2,g->initialOrientation2,l); eqq(h->twistCreep,g->twistCreep,l); vf_eq(h->twist,g->twist,0,l); eqv(h->bending,g->bending,l); l="bond"; vf_assert(q->cohesionBroken==p->cohesionBroken&&q->fragile==p->fragile&&q->cohesionDisablesFriction==p->cohesionDisablesFriction&&q->momentRotationLaw==p->momentRotationLaw&&q->initCohesion==p->initCohesion,l); vf_eq(q->normalAdhesion,p->normalAdhesion,0,l); vf_eq(q->shearAdhesion,p->shearAdhesion,0,l); vf_eq(q->unp,p->unp,0,l); vf_eq(q->unpMax,p->unpMax,0,l); eqv(q->moment_twist,p->moment_twist,l); eqv(q->moment_bending,p->moment_bending,l); vf_eq(q->kr,p->kr,0,l); vf_eq(q->ktw,p->ktw,0,l); vf_eq(q->maxRollPl,p->maxRollPl,0,l); vf_eq(q->maxTwistPl,p->maxTwistPl,0,l); vf_eq(q->creep_viscosity,p->creep_viscosity,0,l); vf_reach("end"); }
extern "C" void h_clump(){ freshScene(); shared_ptr<Clump> c(new Clump); for(int i=0;i<2;i++){ Se3r s(v3("rel"),q4("q")); c->members[3+i]=s; } for(int i=0;i<2;i++) c->ids.push_back(3+i); auto n=reload(c); vf_assert(n->members.size()==2,"members of a clump"); for(int i=0;i<2;i++){ vf_assert(n->members.count(3+i)==1,"members of a clump"); eqv(n->members[3+i].position,c->members[3+i].position,"members of a clump"); eqq(n->members[3+i].orientation,c->members[3+i].orientation,"members of a clump"); } vf_reach("end"); }
