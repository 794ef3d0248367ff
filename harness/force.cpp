// Force accumulation: what getForce & co. return is the sum of everything added since the last reset, by any thread, plus the
// persistent part, for every history of operations within the bounds.
#include <core/ForceContainerParallel.cpp>
#include "vf.h"
static int curThread=0, maxThreads=2;
extern "C" int omp_get_thread_num(){ return curThread; }
extern "C" int omp_get_max_threads(){ return maxThreads; }
extern "C" int omp_get_num_threads(){ return 1; }
static Vector3r v3(const char* n){ double a=vf_double(n),b=vf_double(n),c=vf_double(n); return Vector3r(a,b,c); }
static void eq3(const Vector3r& a,const Vector3r& b,const char* l){ for(int i=0;i<3;i++) vf_eq(a[i],b[i],1e-6,l); }
static const int NID=3; static const int ids[NID]={0,4,170};
struct Model{ Vector3r f[NID],t[NID],m[NID],r[NID],pf[NID],pt[NID]; Model(){ for(int i=0;i<NID;i++) f[i]=t[i]=m[i]=r[i]=pf[i]=pt[i]=Vector3r::Zero(); } };
static void checkAll(ForceContainer& fc,Model& md){
	fc.sync();
	for(int i=0;i<NID;i++){ eq3(fc.getForce(ids[i]),md.f[i]+md.pf[i],"force is the sum over threads plus the permanent force"); eq3(fc.getTorque(ids[i]),md.t[i]+md.pt[i],"torque is the sum over threads plus the permanent torque");
		eq3(fc.getForceSingle(ids[i]),md.f[i]+md.pf[i],"force read without synchronisation"); eq3(fc.getTorqueSingle(ids[i]),md.t[i]+md.pt[i],"torque read without synchronisation");
		eq3(fc.getPermForce(ids[i]),md.pf[i],"permanent force is kept"); eq3(fc.getPermTorque(ids[i]),md.pt[i],"permanent torque is kept"); 
		eq3(fc.getForce(2),Vector3r::Zero(),"untouched body has no force"); eq3(fc.getTorque(2),Vector3r::Zero(),"untouched body has no torque"); }
	if(fc.getMoveRotUsed()) for(int i=0;i<NID;i++){ eq3(fc.getMove(ids[i]),md.m[i],"prescribed move is the sum over threads"); eq3(fc.getRot(ids[i]),md.r[i],"prescribed rotation is the sum over threads"); }
}
static void readUnsynced(ForceContainer& fc,Model& md){
	for(int i=0;i<NID;i++){ eq3(fc.getForceSingle(ids[i]),md.f[i]+md.pf[i],"force read without synchronisation"); eq3(fc.getTorqueSingle(ids[i]),md.t[i]+md.pt[i],"torque read without synchronisation"); }
	if(fc.getMoveRotUsed()) for(int i=0;i<NID;i++){ eq3(fc.getMoveSingle(ids[i]),md.m[i],"move read without synchronisation"); eq3(fc.getRotSingle(ids[i]),md.r[i],"rotation read without synchronisation"); }
}
static void step(ForceContainer& fc,Model& md,bool withMove){
	int op=vf_pick(vf_int("op",0,5));
	if(op==0){ curThread=vf_pick(vf_int("thread",0,maxThreads-1)); int i=vf_pick(vf_int("id",0,NID-1)); Vector3r f=v3("f"),t=v3("t"); fc.addForce(ids[i],f); fc.addTorque(ids[i],t); md.f[i]+=f; md.t[i]+=t; if(withMove){ fc.addMove(ids[i],t); fc.addRot(ids[i],f); md.m[i]+=t; md.r[i]+=f; } curThread=0; }
	else if(op==1){ int i=vf_pick(vf_int("id",0,NID-1)); Vector3r f=v3("pf"),t=v3("pt"); fc.setPermForce(ids[i],f); fc.setPermTorque(ids[i],t); md.pf[i]=f; md.pt[i]=t; }
	else if(op==2){ checkAll(fc,md); }
	else if(op==3){ int all=vf_pick(vf_int("all",0,1)); fc.reset(1,all); for(int i=0;i<NID;i++){ md.f[i]=md.t[i]=md.m[i]=md.r[i]=Vector3r::Zero(); if(all) md.pf[i]=md.pt[i]=Vector3r::Zero(); } }
	else if(op==4) readUnsynced(fc,md);
	else { curThread=vf_pick(vf_int("thread",0,maxThreads-1)); fc.addMaxId(ids[NID-1]); curThread=0; }
}
#define BODY(n,mv) { ForceContainer fc; Model md; for(int k=0;k<n;k++) step(fc,md,mv); checkAll(fc,md); vf_reach("end"); }
extern "C" void h_force3() BODY(3,true)
extern "C" void h_force4() BODY(4,false)
