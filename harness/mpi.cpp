#include "laws.h"
#include <lib/base/openmp-accu.hpp>
#include <core/Subdomain.hpp>
#include <pkg/dem/NewtonIntegrator.hpp>
#include <cstring>
// C17: accumulators written by several threads.  The thread of every operation is chosen by the solver.
static void thread(){ vfThread=vf_pick(vf_int("thread",0,vfMaxThreads-1)); }
static void threads(){ vfMaxThreads=vf_pick(vf_int("threads",1,3)); vfThread=0; }
extern "C" void h_acc_scalar(){ threads(); OpenMPAccumulator<Real> a; double s=0; vf_eq(a.get(),0,1e-9,"starts from zero"); for(int i=0;i<3;i++){ thread(); double v=vf_double_in("v",-9,9); switch(vf_pick(vf_int("op",0,3))){ case 0: a+=v; s+=v; break; case 1: a-=v; s-=v; break; case 2: a.set(v); s=v; break; case 3: a.reset(); s=0; } vf_eq((Real)a,s,1e-6,"the value is the sum of what all threads added since it was set"); } double t=0; auto d=a.getPerThreadData(); for(double x: d) t+=x; vf_assert((int)d.size()==vfMaxThreads,"one value per thread"); vf_eq(t,s,1e-6,"per-thread values add up"); vf_reach("end"); }
extern "C" void h_acc_int(){ threads(); OpenMPAccumulator<int> a; int s=0; for(int i=0;i<3;i++){ thread(); int v=vf_pick(vf_int("v",-1,2)); if(v<0) a-=v; else a+=v; s+=v<0?-v:v; vf_assert(a.get()==s,"integer counters count all threads"); } a.reset(); vf_assert(a.get()==0,"reset"); vf_reach("end"); }
extern "C" void h_acc_vec3(){ threads(); OpenMPAccumulator<Vector3r> a; Vector3r s=Vector3r::Zero(); for(int i=0;i<2;i++){ thread(); Vector3r v=v3in("v",-9,9); a+=v; s+=v; eq3(a.get(),s,"vectors are summed over all threads"); } a.set(s*2); eq3(a.get(),s*2,"set"); vf_reach("end"); }
// arrays: any history of resizing (up to three cache lines), adding, setting and resetting
extern "C" void h_acc_array(){ threads(); OpenMPArrayAccumulator<Real> a; static const int N[4]={1,8,9,18}; double m[18]; int n=0; for(int step=0;step<2;step++){ int k=N[vf_pick(vf_int("size",0,3))]; a.resize(k); for(int i=n;i<k;i++) m[i]=0; n=k; vf_assert((int)a.size()==k,"size"); for(int q=0;q<2;q++){ thread(); int ix=q==0?n-1:0; double v=vf_double_in("v",-9,9); if(step==1&&q==1) switch(vf_pick(vf_int("op",0,2))){ case 0: a.add(ix,v); m[ix]+=v; break; case 1: a.set(ix,v); m[ix]=v; break; case 2: a.reset(ix); m[ix]=0; } else { a.add(ix,v); m[ix]+=v; } } } 
	for(int i=0;i<n;i++) vf_eq(a[i],m[i],1e-6,"each element is the sum over threads, elements kept when resizing, added elements zero"); vf_reach("end"); }
extern "C" void h_acc_clear(){ vfMaxThreads=2; OpenMPArrayAccumulator<Real> a(3); vfThread=vf_pick(vf_int("thread",0,1)); a.add(2,vf_double_in("v",1,2)); a.clear(); vf_assert(a.size()==0,"cleared"); a.resize(3); for(int i=0;i<3;i++) vf_eq(a.get(i),0,1e-9,"cleared elements start from zero again"); vf_reach("end"); }
extern "C" void h_acc_vector(){ threads(); OpenMPVector<int> v; int cnt[3]={0,0,0}; for(int i=0;i<4;i++){ thread(); v.push_back(10*vfThread+cnt[vfThread]); cnt[vfThread]++; } vf_assert(v.size()==4&&(int)v.sizeT()==vfMaxThreads,"size"); int at=0; for(int t=0;t<vfMaxThreads;t++){ vf_assert((int)v.size(t)==cnt[t],"size per thread"); for(int i=0;i<cnt[t];i++) vf_assert(v[at++]==10*t+i,"all elements of all threads, in order"); } v.clear(); vf_assert(v.size()==0,"cleared"); vf_reach("end"); }
// energy tracker: named energies, resettable or not, total, clearing
extern "C" void h_acc_energy(){ vfMaxThreads=2; EnergyTracker e; static const char* nm[3]={"a","b","c"}; int id[3]={-1,-1,-1}; bool has[3]={0,0,0}, rs[3]={0,0,0}; double val[3]={0,0,0}; for(int i=0;i<3;i++){ vfThread=i%2; int k=i==0?0:i==1?vf_pick(vf_int("name",0,1)):vf_pick(vf_int("name",0,2)); double v=vf_double_in("v",-9,9); int op=vf_pick(vf_int("op",0,2)); if(op==2){ e.resetResettables(); for(int j=0;j<3;j++) if(rs[j]) val[j]=0; continue; } bool r=vf_pick(vf_int("resettable",0,1)); if(op==0){ if(!has[k]){ has[k]=true; rs[k]=r; } e.add(v,nm[k],id[k],r); val[k]+=v; } else { if(!has[k]) has[k]=true; e.set(v,nm[k],id[k]); val[k]=v; } } 
	double t=0; for(int k=0;k<3;k++){ t+=val[k]; if(has[k]) vf_eq(e.getItem_py(nm[k]),val[k],1e-6,"a named energy is the sum added since it was set or reset"); vf_assert(e.names.count(nm[k])==(size_t)has[k],"exactly the energies used exist"); } vf_eq(e.total(),t,1e-6,"the total is the sum of all"); for(int k=0;k<3;k++){ int other=-1; if(has[k]){ e.findId(nm[k],other,false,false); vf_assert(e.energies.size()>(size_t)other&&other>=0,"known names are found"); e.add(1,nm[k],other); vf_eq(e.getItem_py(nm[k]),val[k]+1,1e-6,"another caller adds to the same energy"); } else { e.findId(nm[k],other,false,false); vf_assert(other<0,"unknown names are not created by asking"); } } vf_reach("end"); }
extern "C" void h_acc_reuse(){ threads(); EnergyTracker e; int a=-1,b=-1; e.add(vf_double_in("v",1,2),"a",a,true); e.add(vf_double_in("v",1,2),"b",b,false); e.clear(); vf_assert(e.names.empty()&&e.energies.size()==0,"cleared"); vf_eq(e.total(),0,1e-9,"cleared"); a=-1; b=-1; thread(); double v=vf_double_in("v",1,2); e.add(v,"b",b,false); e.add(v,"a",a,true); e.resetResettables(); vf_eq(e.total(),v,1e-6,"only resettable energies are reset"); e.setItem_py("b",3*v); vf_eq(e.getItem_py("b"),3*v,1e-6,"set by name"); vf_reach("end"); }
// C30: subdomains.  Messages go through a queue that stands for the network.
struct ompi_predefined_communicator_t{ int x; }; struct ompi_predefined_communicator_t ompi_mpi_comm_world;
struct ompi_predefined_datatype_t{ int x; }; struct ompi_predefined_datatype_t ompi_mpi_double;
struct Msg{ int from,to,tag; std::vector<double> v; }; static std::vector<Msg> net; static int rank_; struct Pend{ void* buf; int n,from,tag,at; }; static std::vector<Pend> pend; static int badMsg;
static int take(void* buf,int n,int from,int tag){ for(size_t i=0;i<net.size();i++) if(net[i].from==from&&net[i].to==rank_&&net[i].tag==tag){ int k=net[i].v.size(); if(k>n) { badMsg++; k=n; } for(int j=0;j<k;j++) ((double*)buf)[j]=net[i].v[j]; net.erase(net.begin()+i); return k; } badMsg++; return 0; }
static int lastCount;
extern "C" int MPI_Send(const void* b,int n,MPI_Datatype t,int to,int tag,MPI_Comm c){ if(t!=MPI_DOUBLE||c!=MPI_COMM_WORLD) badMsg++; Msg m; m.from=rank_; m.to=to; m.tag=tag; for(int i=0;i<n;i++) m.v.push_back(((const double*)b)[i]); net.push_back(m); return 0; }
extern "C" int MPI_Recv(void* b,int n,MPI_Datatype t,int from,int tag,MPI_Comm c,MPI_Status* s){ if(t!=MPI_DOUBLE||c!=MPI_COMM_WORLD) badMsg++; lastCount=take(b,n,from,tag); return 0; }
extern "C" int MPI_Get_count(const MPI_Status* s,MPI_Datatype t,int* n){ *n=lastCount; return 0; }
extern "C" int MPI_Irecv(void* b,int n,MPI_Datatype t,int from,int tag,MPI_Comm c,MPI_Request* r){ if(t!=MPI_DOUBLE||c!=MPI_COMM_WORLD) badMsg++; Pend p; p.buf=b; p.n=n; p.from=from; p.tag=tag; p.at=rank_; pend.push_back(p); *r=(MPI_Request)(size_t)pend.size(); return 0; }
extern "C" int MPI_Wait(MPI_Request* r,MPI_Status* s){ size_t i=(size_t)*r; if(i<1||i>pend.size()||pend[i-1].at!=rank_){ badMsg++; return 0; } Pend& p=pend[i-1]; take(p.buf,p.n,p.from,p.tag); return 0; }
struct World{ shared_ptr<Scene> s; std::vector<shared_ptr<Body>> b; };
static World make(int sub,int n,bool bounds=false){ freshScene(); World w; w.s=vfScene(); w.s->subdomain=sub; for(int i=0;i<n;i++){ auto b=addSphere(Vector3r(i,i+.5,-i),1); b->state->vel=Vector3r(-1,i,0); b->state->mass=1; b->state->isDamped=false; b->state->inertia=Vector3r(1,1,1); b->subdomain=0; if(bounds&&i!=1){ b->bound=shared_ptr<Bound>(new Aabb); b->bound->min=Vector3r(-9,-9,-9); b->bound->max=Vector3r(9,9,9); } w.b.push_back(b); } return w; }
static void at(World& w,int rank){ vfScene()=w.s; rank_=rank; }
static void randomize(State& s){ s.pos=v3in("pos",-9,9); s.vel=v3in("vel",-9,9); s.angVel=v3in("angVel",-9,9); double q[4]; for(int i=0;i<4;i++) q[i]=vf_double_in("q",-1,1); s.ori=Quaternionr(q[0],q[1],q[2],q[3]); }
static void same(const State& a,const State& b,const char* l){ eq3(a.pos,b.pos,l); eq3(a.vel,b.vel,l); eq3(a.angVel,b.angVel,l); for(int i=0;i<4;i++) vf_eq(a.ori.coeffs()[i],b.ori.coeffs()[i],1e-6,l); }
static std::vector<Body::id_t> pick(int n){ std::vector<Body::id_t> ids; int k=vf_pick(vf_int("count",0,2)); for(int i=0;i<k;i++){ int c=vf_pick(vf_int("id",0,n-1)); for(auto j: ids) vf_assume(j!=c); ids.push_back(c); } return ids; }
static void compare(World& A,World& B,World& old,const std::vector<Body::id_t>& ids,const char* l){ for(size_t i=0;i<A.b.size(); i++){ bool in=false; for(auto j: ids) if(j==(int)i) in=true; same(*B.b[i]->state,in?*A.b[i]->state:*old.b[i]->state,l); } }
extern "C" void h_sd_ids(){ World A=make(0,3), B=make(1,3), O=make(1,3); for(auto& b: A.b) randomize(*b->state); auto ids=pick(3); Subdomain d; at(A,0); auto v=d.getStateValuesFromIds(ids); vf_assert(v.size()==13*ids.size(),"length of the message"); at(B,1); d.setStateValuesFromIds(ids,v); compare(A,B,O,ids,"exactly the listed bodies get the state they were read from"); vf_reach("end"); }
extern "C" void h_sd_bounds(){ World A=make(0,3,true), B=make(1,3,true), O=make(1,3,true); for(auto& b: A.b){ randomize(*b->state); if(b->bound){ b->bound->min=v3in("min",-9,9); b->bound->max=v3in("max",-9,9); } } auto ids=pick(3); Subdomain d; at(A,0); auto v=d.getStateBoundsValuesFromIds(ids); at(B,1); d.setStateBoundsValuesFromIds(ids,v); compare(A,B,O,ids,"exactly the listed bodies get the state they were read from"); for(int i=0;i<3;i++){ bool in=false; for(auto j: ids) if(j==i) in=true; if(!in){ vf_assert((bool)B.b[i]->bound==(i!=1),"other bodies keep their bound"); if(i!=1) eq3(B.b[i]->bound->min,Vector3r(-9,-9,-9),"other bodies keep their bound"); } else { vf_assert((bool)B.b[i]->bound,"listed bodies are bounded"); eq3(B.b[i]->bound->min,i==1?Vector3r(0,0,0):A.b[i]->bound->min,"listed bodies get the bound"); eq3(B.b[i]->bound->max,i==1?Vector3r(0,0,0):A.b[i]->bound->max,"listed bodies get the bound"); } } vf_reach("end"); }
// two neighbours send, the third receives (blocking or not), any order of the receptions
extern "C" void h_sd_exchange(){ net.clear(); pend.clear(); badMsg=0; World A=make(0,3), B=make(1,3), C=make(2,3), O=make(2,3); for(int i=0;i<2;i++) randomize(*A.b[i]->state); randomize(*B.b[2]->state); std::vector<Body::id_t> ia=pick(2), ib; ib.push_back(2); Subdomain a,b,c; a.intersections.resize(3); b.intersections.resize(3); c.mirrorIntersections.resize(3); a.intersections[2]=ia; a.intersections[1]=ib; b.intersections[2]=ib; c.mirrorIntersections[0]=ia; c.mirrorIntersections[1]=ib; bool block=vf_pick(vf_int("blocking",0,1)), rev=vf_pick(vf_int("reverse",0,1)); int f=rev?1:0, g=rev?0:1;
	if(!block){ at(C,2); c.mpiIrecvStates(f); c.mpiIrecvStates(g); } at(A,0); a.mpiSendStates(2); at(B,1); b.mpiSendStates(2); at(C,2); if(block){ c.mpiRecvStates(f); c.mpiRecvStates(g); } else { c.mpiWaitReceived(g); c.mpiWaitReceived(f); } same(*C.b[2]->state,*O.b[2]->state,"received states are applied only when asked"); c.setStateValuesFromBuffer(0); c.setStateValuesFromBuffer(1); vf_assert(badMsg==0&&net.empty(),"every message is received, with its length"); for(int i=0;i<3;i++){ bool in=i==2; for(auto j: ia) if(j==i) in=true; same(*C.b[i]->state,!in?*O.b[i]->state:i==2?*B.b[i]->state:*A.b[i]->state,"bodies get the state held by their owner"); } at(A,0); vf_assert(a.getStateValues(0).empty()&&a.getStateValues(7).empty(),"no message to itself or to unknown subdomains"); vf_reach("end"); }
// the box of a subdomain is that of its existing, bounded members
extern "C" void h_sd_box(){ World A=make(1,4); for(auto& b: A.b) b->subdomain=1; A.b[3]->subdomain=0; std::vector<Body::id_t> ids; bool mem[4]; for(int i=0;i<4;i++){ mem[i]=i<3?vf_pick(vf_int("member",0,1)):false; if(mem[i]) ids.push_back(i); } int odd=vf_pick(vf_int("odd",0,2)); double lo=1e9,hi=-1e9; bool any=false; for(int i=0;i<4;i++){ double a=vf_double_in("min",-9,0), b=vf_double_in("max",0,9); if(i==0&&odd==2) continue; A.b[i]->bound=shared_ptr<Bound>(new Aabb); A.b[i]->bound->min=Vector3r(a,a-1,2*a); A.b[i]->bound->max=Vector3r(b,b+1,2*b); if(!mem[i]||(odd==1&&i==0)) continue; any=true; lo=std::min(lo,a); hi=std::max(hi,b); } if(odd==1) A.s->bodies->erase(0,false); at(A,1); shared_ptr<Subdomain> d(new Subdomain); d->ids=ids; d->setMinMax(); if(any){ eq3(d->boundsMin,Vector3r(lo,lo-1,2*lo),"lower corner of the members"); eq3(d->boundsMax,Vector3r(hi,hi+1,2*hi),"upper corner of the members"); Bo1_Subdomain_Aabb f; f.scene=A.s.get(); shared_ptr<Bound> bv; f.go(d,bv,A.b[3]->state->se3,A.b[3].get()); eq3(bv->min,d->boundsMin,"bound of the subdomain"); eq3(bv->max,d->boundsMax,"bound of the subdomain"); } vf_reach("end"); }
// a step in two subdomains, with an exchange of states, gives every copy the state of a step in one scene
extern "C" void h_sd_step(){ net.clear(); pend.clear(); badMsg=0; World S=make(0,2), A=make(0,2), B=make(1,2); double dt=vf_double_in("dt",.01,1); Vector3r f[2]; World* W[3]={&S,&A,&B}; for(int i=0;i<2;i++){ f[i]=v3in("f",-9,9); Vector3r x=v3in("pos",-9,9), v=v3in("vel",-9,9), t=v3in("torque",-1,1); double m=vf_double_in("m",.5,5); for(int k=0;k<3;k++){ World& w=*W[k]; w.b[i]->state->pos=x; w.b[i]->state->vel=v; w.b[i]->state->mass=m; w.b[i]->subdomain=k==0?0:i; w.s->dt=dt; (void)t; if(k==0||k-1==i) w.s->forces.addForce(i,f[i]); else w.s->forces.addForce(i,v3in("partial",-9,9)); } }
	for(int k=0;k<3;k++){ at(*W[k],k==2); NewtonIntegrator n; n.scene=W[k]->s.get(); n.damping=0; n.gravity=Vector3r(0,0,-10); n.action(); } Subdomain a,b; a.intersections.resize(2); b.intersections.resize(2); a.mirrorIntersections.resize(2); b.mirrorIntersections.resize(2); a.intersections[1].push_back(0); b.intersections[0].push_back(1); a.mirrorIntersections[1].push_back(1); b.mirrorIntersections[0].push_back(0); at(A,0); a.mpiSendStates(1); at(B,1); b.mpiSendStates(0); at(A,0); a.mpiRecvStates(1); a.setStateValuesFromBuffer(1); at(B,1); b.mpiRecvStates(0); b.setStateValuesFromBuffer(0); for(int i=0;i<2;i++){ same(*A.b[i]->state,*S.b[i]->state,"a distributed step moves bodies as a step in one scene"); same(*B.b[i]->state,*S.b[i]->state,"a distributed step moves bodies as a step in one scene"); } vf_reach("end"); }
