#include "env.h"
// C01/C02: histories of body and interaction operations against reference models
static const int NB=4; // bodies at most
struct Keep{ bool keep[8][8]; bool shouldBeErased(Body::id_t a,Body::id_t b,Scene*) const { return !keep[a][b]; } };
static void checkBodies(const std::vector<Body*>& model){
	BodyContainer& bc=*vfScene()->bodies;
	vf_assert(bc.size()==model.size(),"number of body slots");
	size_t alive=0; for(size_t i=0;i<model.size();i++){ vf_assert(bc.exists(i)==(model[i]!=nullptr),"a body exists until it is erased"); if(i<bc.size()) vf_assert(bc[i].get()==model[i],"ids keep designating the same body"); if(model[i]){ alive++; vf_assert(model[i]->getId()==(int)i,"a body knows its id"); } }
	vf_assert(!bc.exists(-1)&&!bc.exists((int)model.size()),"no body outside the range of ids");
	size_t n=0; int last=-1; for(const auto& b: bc){ vf_assert((bool)b,"iteration skips erased bodies"); if(!b) continue; vf_assert(b->getId()>last,"iteration visits bodies once, in order"); last=b->getId(); if(++n>10) break; }
	vf_assert(n==alive,"iteration visits every body");
}
static void bodyHistory(int nops){
	freshScene(); BodyContainer& bc=*vfScene()->bodies; std::vector<Body*> model; std::vector<shared_ptr<Body> > hold;
	for(int k=0;k<nops;k++){
		int op=vf_pick(vf_int("op",0,3)); vfScene()->iter=10+k; vfScene()->time=.5*k; vfScene()->doSort=false;
		if(op==0){ shared_ptr<Body> b(new Body); hold.push_back(b); int id=bc.insert(b); vf_assert(id==(int)model.size(),"a new body gets the next id"); model.push_back(b.get()); vf_assert(b->iterBorn==10+k,"birth step is recorded"); vf_eq(b->timeBorn,.5*k,1e-9,"birth time is recorded"); vf_assert(vfScene()->doSort,"collider is told about the new body"); }
		else if(op==1){ int id=vf_pick(vf_int("id",-1,model.size())); bool was=id>=0&&id<(int)model.size()&&model[id]; bool ok=bc.erase(id,false); vf_assert(ok==was,"erase reports whether there was a body"); if(was){ vf_assert(model[id]->getId()==Body::ID_NONE,"an erased body has no id"); model[id]=nullptr; } }
		else if(op==2){ int id=vf_pick(vf_int("id",-1,model.size())); shared_ptr<Body> b(new Body); hold.push_back(b); bool free=id>=0&&id<(int)model.size()&&!model[id]; int r=bc.insertAtId(b,id); vf_assert(r==(free?id:-1),"insertion at an id succeeds exactly when the id is free"); if(free){ model[id]=b.get(); vf_assert(b->iterBorn==10+k,"birth step is recorded"); vf_assert(vfScene()->doSort,"collider is told about the new body"); } }
		else { bc.clear(); model.clear(); }
		checkBodies(model);
	}
	vf_reach("end");
}
extern "C" void h_bodies4(){ bodyHistory(4); }
extern "C" void h_bodies5(){ bodyHistory(5); }
// ---------------------------------------------------------------- interactions
struct MI{ int a,b; bool real; Interaction* p; int ga,gb; };
struct IM{ std::vector<MI> l; bool alive[4]; int nb; int gen[4];
	int find(int a,int b){ for(size_t i=0;i<l.size();i++) if((l[i].a==a&&l[i].b==b)||(l[i].a==b&&l[i].b==a)) return i; return -1; }
	int lost(const MI& m){ return (!alive[m.a]||gen[m.a]!=m.ga)+(!alive[m.b]||gen[m.b]!=m.gb); } bool gone(const MI& m){ return lost(m)>0; } };
static void checkIntrs(IM& m){
	InteractionContainer& ic=*vfScene()->interactions; BodyContainer& bc=*vfScene()->bodies;
	vf_assert(ic.size()==m.l.size(),"number of contacts"); size_t n=0; std::vector<int> seen(m.l.size(),0);
	for(const auto& I: ic){ vf_assert((bool)I,"no hole in the list of contacts"); if(!I) continue; n++; int k=m.find(I->getId1(),I->getId2()); vf_assert(k>=0,"only contacts that were created are listed"); if(k>=0){ seen[k]++; vf_assert(I.get()==m.l[k].p,"the listed contact is the one that was created"); vf_assert(I->isReal()==m.l[k].real,"a contact stays real until its removal is requested"); } if(n>12) break; }
	for(size_t k=0;k<m.l.size();k++){ vf_assert(seen[k]==1,"every contact is listed exactly once"); if(m.gone(m.l[k])) continue; MI& x=m.l[k];
		vf_assert(ic.find(x.a,x.b).get()==x.p&&ic.find(x.b,x.a).get()==x.p,"a contact is found from its two bodies, in either order"); vf_assert(ic.found(x.a,x.b)&&ic.found(x.b,x.a),"a contact is known to exist, in either order"); }
	for(int a=0;a<m.nb;a++) if(m.alive[a]){ unsigned cnt=0; for(auto& x: m.l) if((x.a==a||x.b==a)&&x.real) cnt++; vf_assert(bc[a]->coordNumber()==cnt,"number of real contacts of a body");
		for(int b=0;b<m.nb;b++) if(b!=a&&m.alive[b]&&m.find(a,b)<0){ vf_assert(!ic.find(a,b),"no contact between bodies that have none"); vf_assert(!ic.found(a,b),"no contact known between bodies that have none"); }
		for(const auto& e: bc[a]->intrs){ int k=m.find(a,e.first); vf_assert(k>=0&&m.l[k].p==e.second.get(),"the contacts of a body are the listed ones"); } }
}
static void addIntr(IM& m,int a,int b,bool real){
	shared_ptr<Interaction> I(new Interaction(a,b)); bool fresh=m.find(a,b)<0; bool ok=vfScene()->interactions->insert(I); vf_assert(ok==fresh,"inserting a contact succeeds exactly when the pair has none");
	if(fresh){ vf_assert(I->iterBorn==vfScene()->iter,"birth step of a contact is recorded"); if(real){ I->geom=shared_ptr<IGeom>(new IGeom); I->phys=shared_ptr<IPhys>(new IPhys); } MI x={a,b,real,I.get(),m.gen[a],m.gen[b]}; m.l.push_back(x); }
}
static void drop(IM& m,int k){ m.l.erase(m.l.begin()+k); }
static int pickBody(IM& m,bool alive){ int n=0,id[8]; for(int i=0;i<m.nb;i++) if(m.alive[i]==alive) id[n++]=i; vf_assume(n>0); return id[vf_pick(vf_int("body",0,n-1))]; }
static void pickPair(IM& m,int& a,int& b,bool order){ int n=0,pa[8],pb[8]; for(int i=0;i<m.nb;i++) for(int j=i+1;j<m.nb;j++) if(m.alive[i]&&m.alive[j]){ pa[n]=i; pb[n]=j; n++; } vf_assume(n>0); int k=vf_pick(vf_int("pair",0,n-1)); a=pa[k]; b=pb[k]; if(order&&vf_pick(vf_int("swap",0,1))) std::swap(a,b); }
static void intrHistory(int nb,int nops,int maxInit){
	freshScene(); vfScene()->iter=7; IM m; m.nb=nb; InteractionContainer& ic=*vfScene()->interactions; BodyContainer& bc=*vfScene()->bodies; std::vector<shared_ptr<Body> > hb;
	for(int i=0;i<nb;i++){ shared_ptr<Body> b(new Body); hb.push_back(b); bc.insert(b); m.alive[i]=true; m.gen[i]=0; }
	int c=0; for(int a=0;a<nb;a++) for(int b=a+1;b<nb;b++){ if(c++>=maxInit) continue; int s=vf_pick(vf_int("pair",0,2)); if(s) addIntr(m,b,a,s==2); } // contacts may be stored with either body first
	for(int k=0;k<nops;k++){
		int op=vf_pick(vf_int("op",0,7));
		if(op==0){ int a,b; pickPair(m,a,b,true); { int k2=m.find(a,b); vf_assume(k2<0||m.lost(m.l[k2])<2); } addIntr(m,a,b,vf_pick(vf_int("real",0,1))); }
		else if(op==1){ int a,b; pickPair(m,a,b,false); ic.requestErase(a,b); int i=m.find(a,b); if(i>=0&&!m.gone(m.l[i])) m.l[i].real=false; }
		else if(op==2){ vfMaxThreads=vf_pick(vf_int("threads",1,2)); Keep kp; for(int a=0;a<nb;a++) for(int b=0;b<nb;b++) kp.keep[a][b]=false; for(auto& x: m.l){ bool kk=!x.real&&!m.gone(x)?vf_pick(vf_int("keep",0,1)):false; kp.keep[x.a][x.b]=kp.keep[x.b][x.a]=kk; }
			size_t before=m.l.size(); size_t n=ic.conditionalyEraseNonReal(kp,vfScene().get()); vfMaxThreads=1; for(int i=(int)m.l.size()-1;i>=0;i--) if(!m.l[i].real&&!kp.keep[m.l[i].a][m.l[i].b]) drop(m,i); vf_assert(n==before-m.l.size(),"number of contacts purged"); }
		else if(op==3){ ic.eraseNonReal(); for(int i=(int)m.l.size()-1;i>=0;i--) if(!m.l[i].real) drop(m,i); }
		else if(op==4){ int a=pickBody(m,true); bc.erase(a,false); m.alive[a]=false; for(auto& x: m.l) if(x.a==a||x.b==a) x.real=false; }
		else if(op==5){ int a=pickBody(m,false); m.gen[a]++; shared_ptr<Body> b(new Body); hb.push_back(b); bc.insertAtId(b,a); m.alive[a]=true; }
		else if(op==6){ ic.clear(); m.l.clear(); }
		else { // save and load: the real contacts of existing bodies come back, potential ones are dropped
			ic.preSave(ic); ic.postLoad__calledFromScene(vfScene()->bodies); ic.postSave(ic); for(int i=(int)m.l.size()-1;i>=0;i--) if(!m.l[i].real) drop(m,i); }
		checkIntrs(m);
	}
	vf_reach("end");
}
extern "C" void h_intrs3(){ intrHistory(3,2,3); }
extern "C" void h_intrs4(){ intrHistory(4,1,5); }
extern "C" void h_intrs3_3(){ intrHistory(3,3,3); }
extern "C" void h_intrs4_2(){ intrHistory(4,2,4); }
