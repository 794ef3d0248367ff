#include "laws.h"
#include <pkg/common/Box.hpp>
#include <pkg/dem/NewtonIntegrator.hpp>
// C11: clumps
static shared_ptr<Body> clumpBody(){ shared_ptr<Body> c(new Body); c->shape=shared_ptr<Shape>(new Clump); c->setBounded(false); vfScene()->bodies->insert(c); return c; }
static Matrix3r diag(const Vector3r& v){ Matrix3r m=Matrix3r::Zero(); for(int i=0;i<3;i++) m(i,i)=v[i]; return m; }
static Matrix3r rotm(const Quaternionr& q){ double w=q.w(),x=q.x(),y=q.y(),z=q.z(); Matrix3r m; m<<w*w+x*x-y*y-z*z,2*(x*y-w*z),2*(x*z+w*y),2*(x*y+w*z),w*w-x*x+y*y-z*z,2*(y*z-w*x),2*(x*z-w*y),2*(y*z+w*x),w*w-x*x-y*y+z*z; return m; }
static Matrix3r steiner(double m,const Vector3r& d){ Matrix3r r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) r(i,j)=m*((i==j?d.dot(d):0)-d[i]*d[j]); return r; }
static void eqm(const Matrix3r& a,const Matrix3r& b,const char* l){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) vf_eq(a(i,j),b(i,j),1e-6,l); }
struct Ref{ double M=0; Vector3r S=Vector3r::Zero(); std::vector<std::pair<std::pair<double,Vector3r>,Matrix3r>> parts; void add(double m,const Vector3r& p,const Matrix3r& I){ M+=m; S+=m*p; parts.push_back({{m,p},I}); }
	void check(const shared_ptr<Body>& c){ State* s=c->state.get(); Vector3r g=S/M; vf_eq(s->mass,M,1e-6,"the clump has the mass of its members"); eq3(s->pos,g,"the clump is at the centroid of its members"); Matrix3r I=Matrix3r::Zero(); for(auto& p: parts) I+=p.second+steiner(p.first.first,p.first.second-g); Matrix3r R=rotm(s->ori); eqm(R*diag(s->inertia)*R.transpose(),I,"the principal inertia and orientation of the clump are those of its members together"); eqm(R*R.transpose(),diag(Vector3r(1,1,1)),"the orientation is a rotation"); eq3(s->vel,Vector3r::Zero(),"at rest"); eq3(s->angVel,Vector3r::Zero(),"at rest"); }
};
static void same(const Quaternionr& a,const Quaternionr& b,const char* l){ eqm(rotm(a),rotm(b),l); }
static void rigid(const shared_ptr<Body>& c){ // moving the members of a clump that has not moved leaves them in place
	std::vector<Vector3r> p; std::vector<Quaternionr> q; auto& mm=c->shape->cast<Clump>().members; for(auto& m: mm){ p.push_back(Body::byId(m.first)->state->pos); q.push_back(Body::byId(m.first)->state->ori); } Clump::moveMembers<NewtonIntegrator>(c,vfScene().get(),NULL); int i=0; for(auto& m: mm){ State* s=Body::byId(m.first)->state.get(); eq3(s->pos,p[i],"members keep their position"); same(s->ori,q[i],"members keep their orientation"); i++; } }
static shared_ptr<Body> sphere(const Vector3r& p,double r,double rho){ auto b=addSphere(p,r); shared_ptr<Material> m(new Material); m->density=rho; b->material=m; return b; }
extern "C" void h_clump_spheres(){ // separate spheres on a line along an axis, anywhere
	freshScene(); int ax=vf_pick(vf_int("axis",0,2)), disc=vf_pick(vf_int("disc",0,1)); Vector3r o=Vector3r::Zero(); o[ax]=vf_double_in("x",-3,3); Ref R; auto c=clumpBody(); double r[2]; r[0]=1; r[1]=vf_pick(vf_int("r2",1,2)); double gap=vf_pick(vf_int("gap",0,1)); for(int i=0;i<2;i++){ Vector3r p=o; if(i) p[ax]+=r[0]+r[1]+gap; double v=(4./3.)*Mathr::PI*std::pow(r[i],3.), m=i?vf_double_in("m",.5,5):2, rho=m/v; auto b=sphere(p,r[i],rho); Clump::add(c,b); R.add(m,p,diag(Vector3r::Constant((2/5.)*m*r[i]*r[i]))); }
	Clump::updateProperties(c,disc); R.check(c); vf_assert(c->isAspherical(),"a line of spheres is not isotropic"); rigid(c); vf_reach("end"); }
static void bodies(bool single){ freshScene(); int ax=vf_pick(vf_int("axis",0,2)); Vector3r o=Vector3r::Zero(); Ref R; auto c=clumpBody(); int q0=0; for(int i=0;i<(single?1:2);i++){ Vector3r p=o; if(i) p[ax]+=vf_double_in("d",.5,3); shared_ptr<Body> b(new Body); b->shape=shared_ptr<Shape>(new Box); b->material=shared_ptr<Material>(new Material); b->state->pos=p; double m=b->state->mass=vf_double_in("m",.5,5); for(int k=0;k<3;k++) b->state->inertia[k]=vf_double_in("I",.5,5); int q=i==0?vf_pick(vf_int("ori",0,3)):0; if(!i) q0=q; b->state->ori=q==0?Quaternionr(1,0,0,0):q==1?Quaternionr(.5,.5,.5,.5):q==2?Quaternionr(.5,-.5,-.5,-.5):Quaternionr(0,0,1,0); vfScene()->bodies->insert(b); Clump::add(c,b); Matrix3r T=rotm(b->state->ori); R.add(m,p,T*diag(b->state->inertia)*T.transpose()); }
	int how=q0==1?vf_pick(vf_int("how",0,2)):0; if(how==0) Clump::updateProperties(c,0); else if(how==1) Clump::updatePropertiesNonSpherical(c,false); else Clump::updatePropertiesNonSpherical(c,false,vfScene()); R.check(c); rigid(c); vf_reach("end"); }
extern "C" void h_clump_bodies(){ bodies(false); }
extern "C" void h_clump_single(){ bodies(true); }
extern "C" void h_clump_overlap(){ // overlapping spheres: the union, sampled by a grid
	freshScene(); auto c=clumpBody(); double r=vf_double_in("r",.5,2), rho=vf_double_in("rho",.5,5); Vector3r o=v3in("x",-3,3); int ax=vf_pick(vf_int("axis",0,2)); Vector3r p2=o; p2[ax]+=r; Clump::add(c,sphere(o,r,rho)); Clump::add(c,sphere(p2,r,rho)); Clump::updateProperties(c,2); double m=rho*r*r*r; // cells of size r: 3x2x2 
	Ref R; Matrix3r I=diag(Vector3r::Constant(m*r*r/6)); for(int i=0;i<3;i++) for(int j=0;j<2;j++) for(int k=0;k<2;k++){ Vector3r p=o; p[ax]+=r*(i-.5); p[(ax+1)%3]+=r*(j-.5); p[(ax+2)%3]+=r*(k-.5); R.add(m,p,I); } R.check(c); rigid(c); vf_reach("end"); }
static void members(int N){ // histories of additions, removals and merging on two clumps and three bodies
	freshScene(); shared_ptr<Body> b[3],cl[2]; for(auto& x: b) x=addSphere(Vector3r::Zero(),1); for(auto& x: cl) x=clumpBody(); int own[3]={0,1,-1}; bool merged=false; Clump::add(cl[0],b[0]); Clump::add(cl[1],b[1]);
	for(int step=0;step<N;step++){ int op=vf_pick(vf_int("op",0,merged?1:2)), c=merged?0:vf_pick(vf_int("clump",0,1)), k=op==2?0:vf_pick(vf_int("body",0,2)); bool threw=false; try{ if(op==0) Clump::add(cl[c],b[k]); else if(op==1) Clump::del(cl[c],b[k]); else { Clump::add(cl[c],cl[1-c]); if(c==1) std::swap(cl[0],cl[1]); } }catch(std::invalid_argument&){ threw=true; }
		bool bad=false; if(op==0){ bad=own[k]>=0; if(!bad) own[k]=c; } else if(op==1){ bad=own[k]!=c; if(!bad) own[k]=-1; } else { for(int& o: own) if(o>=0) o=0; merged=true; } vf_assert(threw==bad,"adding a member of a clump and removing a non-member are refused, everything else is done");
		for(int i=0;i<3;i++){ int o=own[i]; vf_assert(b[i]->clumpId==(o<0?(int)Body::ID_NONE:cl[o]->id),"a body knows the clump it is in"); vf_assert(b[i]->isClumpMember()==(o>=0)&&b[i]->isStandalone()==(o<0)&&!b[i]->isClump(),"a body is a member or stands alone"); for(int q=0;q<(merged?1:2);q++) vf_assert(cl[q]->shape->cast<Clump>().members.count(b[i]->id)==size_t(o==q),"a clump knows its members"); }
		for(int q=0;q<(merged?1:2);q++){ int n=0; for(int o: own) n+=o==q; vf_assert((int)cl[q]->shape->cast<Clump>().members.size()==n,"a clump has no other members"); vf_assert(cl[q]->isClump()&&!cl[q]->isClumpMember()&&!cl[q]->isBounded(),"a clump is a clump, without bound of its own"); } }
	vf_reach("end"); }
extern "C" void h_clump_members(){ members(3); }
extern "C" void h_clump_members4(){ members(4); }
extern "C" void h_clump_move(){ // members follow the clump rigidly
	freshScene(); auto c=clumpBody(); State* s=c->state.get(); shared_ptr<Body> b[2]; Vector3r l[2]; Quaternionr lo[2]; for(int i=0;i<2;i++){ b[i]=addSphere(v3in("old",-1,1),1); Clump::add(c,b[i]); l[i]=v3in("rel",-2,2); double q[4]; for(double& x: q) x=vf_double_in("lq",-1,1); lo[i]=Quaternionr(q[0],q[1],q[2],q[3]); auto& m=c->shape->cast<Clump>().members[b[i]->id]; m.position=l[i]; m.orientation=lo[i]; } double q[4]; for(double& x: q) x=vf_double_in("q",-1,1); vf_assume_eq(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3],1); s->pos=v3in("pos",-3,3); s->ori=Quaternionr(q[0],q[1],q[2],q[3]); s->vel=v3in("vel",-3,3); s->angVel=v3in("w",-3,3);
	Clump::moveMembers<NewtonIntegrator>(c,vfScene().get(),NULL); Matrix3r R=rotm(s->ori); for(int i=0;i<2;i++){ State* m=b[i]->state.get(); Vector3r d=R*l[i]; eq3(m->pos,s->pos+d,"members turn and move with the clump"); eq3(m->vel,s->vel+s->angVel.cross(d),"members have the velocity of the rigid body"); eq3(m->angVel,s->angVel,"members rotate with the clump"); const Quaternionr& a=s->ori,&e=lo[i]; Vector3r av(a.x(),a.y(),a.z()),ev(e.x(),e.y(),e.z()); Vector3r v=a.w()*ev+e.w()*av+av.cross(ev); vf_eq(m->ori.w(),a.w()*e.w()-av.dot(ev),1e-6,"member orientation"); eq3(Vector3r(m->ori.x(),m->ori.y(),m->ori.z()),v,"member orientation"); } vf_reach("end"); }
