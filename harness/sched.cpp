// C12: the interaction loop and its dispatchers. C13: the step of a simulation. C15: periodic engines
#include "laws.h"
#include <sys/time.h>
#include <core/Cell.hpp>
#include <core/TimeStepper.hpp>
#include <pkg/common/PeriodicEngines.hpp>
#include <pkg/common/InteractionLoop.hpp>
#include <pkg/common/ForceResetter.hpp>
#include <pkg/common/ElastMat.hpp>
#include <pkg/common/Facet.hpp>
#include <pkg/common/Box.hpp>
static long vfClock; // seconds; the wall clock of the harness
extern "C" int gettimeofday(struct timeval* t,void*) noexcept { t->tv_sec=vfClock; t->tv_usec=0; return 0; }
// ---- C13
static int tr[40]; static int ntr;
static void ev(int k){ if(ntr<40) tr[ntr]=k; ntr++; }
static vector<shared_ptr<Engine> > replacement; static int replaceAt; 
class Tick: public Engine{ public: int k; bool on; virtual bool isActivated(){ vf_assert(scene==vfScene().get(),"an engine knows its simulation before it is asked"); return on; } virtual void action(){ vf_assert(scene==vfScene().get(),"an engine knows its simulation before it runs"); ev(k); if(k==replaceAt){ scene->_nextEngines=replacement; replaceAt=-1; } } };
static shared_ptr<Tick> tick(int k,bool on,bool dead){ shared_ptr<Tick> t(new Tick); t->k=k; t->on=on; t->dead=dead; t->scene=nullptr; return t; }
extern "C" void h_scene_step(){ // which engines run, in what order, and what a step changes; stepping may switch between whole steps and engine by engine at any point
	freshScene(); Scene* sc=vfScene().get(); ntr=0; replaceAt=-1; bool per=vf_pick(vf_int("periodic",0,1)); double dt=vf_double_in("dt",.01,1); sc->dt=dt; double t0=vf_double_in("time",0,5); sc->time=t0; long it0=vf_int("iter",1,100); sc->iter=it0; Matrix3r g=Matrix3r::Zero(),h=Matrix3r::Zero(); double gx=0,hx=1; if(per){ sc->isPeriodic=true; hx=vf_double_in("cell",1,9); for(int i=0;i<3;i++) h(i,i)=hx; sc->cell->setHSize(h); gx=vf_double_in("grad",-.5,.5); g(0,0)=gx; sc->cell->velGrad=g; }
	int runs[3]; int odd=vf_pick(vf_int("odd",0,6)); for(int i=0;i<3;i++){ int st=odd&&(odd-1)/2==i?1+(odd-1)%2:0; sc->engines.push_back(tick(i,st!=1,st==2)); runs[i]=st==0; }
	bool nx=vf_pick(vf_int("replace",0,1)); int nextRuns[2]={1,1}; if(nx){ replacement.clear(); for(int i=0;i<2;i++) replacement.push_back(tick(10+i,true,false)); replaceAt=1; if(!runs[1]) nx=false; }
	// reference: position in the step (-1: before it), the trace and the number of finished steps
	int at=-1, done=0, e=0; int exp[40]; bool second=false; double cx=hx; 
	for(int call=0;call<5;call++){ bool sub=vf_pick(vf_int("substepping",0,1)); sc->subStepping=sub; sc->moveToNextTimeStep(); 
		do{ if(at==-1&&second) second=false; int n=(int)(done&&nx?2:3); // engines replaced during the first step are used from the next one
			if(at==-1){ if(per) cx=cx*(1+dt*gx); } else if(at<n){ if(done&&nx) exp[e++]=10+at; else if(runs[at]) exp[e++]=at; } else { done++; at=-2; } at++; if(at==-1&&!sub) break; } while(!sub); 
		vf_assert(ntr==e,"the number of engines that ran"); for(int i=0;i<e&&i<ntr;i++) vf_assert(tr[i]==exp[i],"engines run in order, except dead and inactive ones"); vf_assert(sc->iter==it0+done,"the step number advances once per step"); vf_eq(sc->time,t0+done*dt,1e-6,"the time advances once per step"); if(per) vf_eq(sc->cell->hSize(0,0),cx,1e-6,"the cell deforms once per step"); if(done>=2&&at==-1) break; }
	(void)nextRuns; vf_reach("end"); }
class Stepper: public TimeStepper{ public: int calls; virtual void computeTimeStep(Scene*){ calls++; } };
extern "C" void h_scene_misc(){ freshScene(); Scene* sc=vfScene().get(); int n=vf_pick(vf_int("steppers",0,2)); shared_ptr<Stepper> st[2]; for(int i=0;i<n;i++){ st[i]=shared_ptr<Stepper>(new Stepper); st[i]->calls=0; st[i]->active=vf_pick(vf_int("active",0,1)); sc->engines.push_back(st[i]); } sc->engines.push_back(tick(0,true,false)); bool thrown=false,p=false,a=false; bool act=n>0&&st[0]->active; try{ p=sc->timeStepperPresent(); a=sc->timeStepperActive(); } catch(const std::runtime_error&){ thrown=true; } vf_assert(thrown==(n>1),"two time steppers are refused"); if(n<2){ vf_assert(p==(n==1),"presence of a time stepper"); vf_assert(a==act,"activity of the time stepper"); bool want=vf_pick(vf_int("want",0,1)); vf_assert(sc->timeStepperActivate(want)==(n==1),"activation reports whether there is a time stepper"); if(n) vf_assert(st[0]->active==want,"activation of the time stepper"); }
	// bounding box of the simulation
	for(int i=0;i<2;i++){ auto b=addSphere(v3in("pos",-5,5),1); if(i==0&&vf_pick(vf_int("bound",0,1))){ shared_ptr<Bound> bd(new Bound); bd->min=v3in("min",-9,0); bd->max=v3in("max",0,9); b->bound=bd; } } sc->updateBound(); for(int k=0;k<3;k++){ double lo[2],hi[2]; for(int i=0;i<2;i++){ Body* b=(*sc->bodies)[i].get(); lo[i]=b->bound?b->bound->min[k]:b->state->pos[k]; hi[i]=b->bound?b->bound->max[k]:b->state->pos[k]; vf_le(sc->bound->min[k],lo[i],1e-6,"the bound of the simulation contains every body"); vf_le(hi[i],sc->bound->max[k],1e-6,"the bound of the simulation contains every body"); } vf_assert((sc->bound->min[k]==lo[0])|(sc->bound->min[k]==lo[1]),"the bound of the simulation is tight"); vf_assert((sc->bound->max[k]==hi[0])|(sc->bound->max[k]==hi[1]),"the bound of the simulation is tight"); } vf_reach("end"); }
// ---- C15
class Per: public PeriodicEngine{ public: virtual void action(){} };
static void periodic(int kind){ freshScene(); Scene* sc=vfScene().get(); vfClock=1000; Per p; p.scene=sc; p.virtLast=0; double vp=0; long rp=0,ip=0; if(kind&1) p.virtPeriod=vp=vf_double_in("virtPeriod",.01,5); if(kind&2) p.realPeriod=rp=vf_int("realPeriod",1,5); if(kind&4) p.iterPeriod=ip=vf_int("iterPeriod",1,5); bool init=vf_pick(vf_int("initRun",0,1)); p.initRun=init; long nDo=vf_pick(vf_int("nDo",-1,2)); p.nDo=nDo; if(nDo==0) nDo=p.nDo=-1;
	double tl=0; long rl=0,il=0; long counted=0; long it=vf_int("iter0",0,3); double t=0; for(int s=0;s<3;s++){ if(s){ t+=vf_double_in("dt",0,3); it+=vf_int("steps",1,4); vfClock+=vf_int("clock",0,4); } sc->iter=it; sc->time=t; bool r=p.isActivated(); bool want;
		if(s==0){ bool due=((vp>0)&(t>=vp))|((ip>0)&(it>=ip)); want=init|due; counted=1; tl=t; rl=vfClock; il=it; } else { bool due=((vp>0)&(t-tl>=vp))|((rp>0)&(vfClock-rl>=rp))|((ip>0)&(it-il>=ip)); want=due&&(nDo<0||counted<nDo); if(want){ counted++; tl=t; rl=vfClock; il=it; } } vf_assert(r==want,"the engine runs at the first step if asked to, then whenever a period has elapsed since it last ran, up to the number of times requested"); } vf_reach("end"); }
extern "C" void h_periodic_one(){ int k=vf_pick(vf_int("kind",0,3)); periodic(k==3?4:k); }
extern "C" void h_periodic_vi(){ periodic(5); }
extern "C" void h_periodic_ri(){ periodic(6); }
extern "C" void h_periodic_all(){ periodic(7); }
extern "C" void h_periodic_first(){ freshScene(); Scene* sc=vfScene().get(); vfClock=1000; Per p; p.scene=sc; long first=vf_int("firstIterRun",1,5); p.firstIterRun=first; long ip=vf_int("iterPeriod",1,3); p.iterPeriod=ip; int last=-1; for(int it=0;it<8;it++){ sc->iter=it; bool r=p.isActivated(); bool want=it>=first&&(it-first)%ip==0; vf_assert(r==want,"with a first step given, the engine runs at that step and then periodically"); (void)last; } vf_reach("end"); }
extern "C" void h_periodic_reset(){ // the step number goes back: counting starts again
	freshScene(); Scene* sc=vfScene().get(); vfClock=1000; Per p; p.scene=sc; p.iterPeriod=2; p.nDo=2; sc->iter=0; vf_assert(!p.isActivated(),"first call"); sc->iter=50; vf_assert(p.isActivated(),"period elapsed"); sc->iter=60; vf_assert(!p.isActivated(),"the number of runs is limited"); sc->iter=0; p.isActivated(); sc->iter=vf_int("next",2,9); vf_assert(p.isActivated(),"after the step number went back the engine runs periodically again"); vf_reach("end"); }
// ---- C12
static int geomCalls,physCalls,lawCalls,cbCalls; static bool geomRet,lawRet; static Shape *gs1,*gs2; static const State *gst1,*gst2; static Vector3r gshift; static bool gforce; static Interaction* gI; static Scene* fscene; static Material *pm1,*pm2; static const void *lg,*lp;
struct GSS: public IGeomFunctor{ int k; GSS(int k_=0):k(k_){} virtual bool go(const shared_ptr<Shape>& a,const shared_ptr<Shape>& b,const State& x,const State& y,const Vector3r& s,const bool& f,const shared_ptr<Interaction>& I){ geomCalls++; gs1=a.get(); gs2=b.get(); gst1=&x; gst2=&y; gshift=s; gforce=f; gI=I.get(); vf_assert(scene==fscene,"functors know their simulation"); if(geomRet&&!I->geom) I->geom=shared_ptr<IGeom>(new ScGeom); return geomRet; } FUNCTOR2D(Sphere,Sphere) DEFINE_FUNCTOR_ORDER_2D(Sphere,Sphere) };
struct GFS: public GSS{ virtual string getClassName() const { return "GFS"; } FUNCTOR2D(Facet,Sphere) DEFINE_FUNCTOR_ORDER_2D(Facet,Sphere) };
struct PFF: public IPhysFunctor{ virtual void go(const shared_ptr<Material>& a,const shared_ptr<Material>& b,const shared_ptr<Interaction>& I){ physCalls++; pm1=a.get(); pm2=b.get(); vf_assert(I.get()==gI,"the same contact goes through all functors"); vf_assert(bool(I->geom),"geometry comes before physics"); vf_assert(scene==fscene,"functors know their simulation"); if(!I->phys) I->phys=shared_ptr<IPhys>(new NormShearPhys); } FUNCTOR2D(FrictMat,FrictMat) };
struct LSN: public LawFunctor{ virtual bool go(shared_ptr<IGeom>& g,shared_ptr<IPhys>& p,Interaction* I){ lawCalls++; lg=g.get(); lp=p.get(); vf_assert(I==gI,"the same contact goes through all functors"); vf_assert(scene==fscene,"functors know their simulation"); return lawRet; } FUNCTOR2D(ScGeom,NormShearPhys) };
struct CB: public IntrCallback{ bool on; static void call(IntrCallback*,Interaction* I){ cbCalls++; vf_assert(I==gI,"callbacks get the contact"); } virtual FuncPtr stepInit(){ return on?call:nullptr; } };
static void zeroCalls(){ geomCalls=physCalls=lawCalls=cbCalls=0; gs1=gs2=nullptr; }
static shared_ptr<InteractionLoop> loop(){ shared_ptr<InteractionLoop> L(new InteractionLoop); L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSS)); L->physDispatcher->add(shared_ptr<IPhysFunctor>(new PFF)); L->lawDispatcher->add(shared_ptr<LawFunctor>(new LSN)); fscene=L->scene=vfScene().get(); return L; }
static shared_ptr<Body> matSphere(){ auto b=addSphere(v3in("pos",-3,3),1); b->material=shared_ptr<Material>(new FrictMat); return b; }
extern "C" void h_loop(){ // one contact through two steps
	freshScene(); Scene* sc=vfScene().get(); { Facet f; Box x; (void)f; (void)x; } auto a=matSphere(),b=matSphere(); auto L=loop(); shared_ptr<CB> cb(new CB); cb->on=vf_pick(vf_int("callback",0,1)); L->callbacks.push_back(cb); int odd=vf_pick(vf_int("odd",0,6)); bool per=vf_pick(vf_int("periodic",0,1)); Matrix3r h=Matrix3r::Zero(); if(per){ sc->isPeriodic=true; for(int i=0;i<3;i++) h(i,i)=vf_double_in("cell",3,9); h(0,1)=vf_double_in("shear",-1,1); sc->cell->setHSize(h); } shared_ptr<Interaction> I(new Interaction(0,1)); Vector3i cd(1,-2,3); if(per) I->cellDist=cd; sc->interactions->insert(I); sc->iter=7; bool real=false; long made=-1; bool thrown=false; bool gone=false;
	if(odd==1) a->clumpId=0; if(odd==2) b->clumpId=1; if(odd==3) b->shape=shared_ptr<Shape>(); if(odd==4) b->shape=shared_ptr<Shape>(new Facet); if(odd==5){ sc->subdomain=3; a->subdomain=vf_pick(vf_int("sub",2,3)); } if(odd==6) a->shape=shared_ptr<Shape>();
	bool handled=odd==0||(odd==5&&a->subdomain==3);
	for(int t=0;t<2&&!gone;t++){ zeroCalls(); geomRet=vf_pick(vf_int("geom",0,1)); lawRet=vf_pick(vf_int("law",0,1)); sc->iter=7+t; if(t==1&&vf_pick(vf_int("erase",0,1))&&odd==0){ sc->bodies->erase(1,false); gone=true; } try{ L->action(); } catch(const std::runtime_error&){ thrown=true; }
		if(!handled||gone){ vf_assert(geomCalls==0&&physCalls==0&&lawCalls==0&&cbCalls==0,"contacts of clumps, of bodies without shape or without functor, of other subdomains or of erased bodies are not processed"); vf_assert(!I->isReal(),"such contacts are not real"); continue; }
		vf_assert(geomCalls==1&&gs1==a->shape.get()&&gs2==b->shape.get()&&gst1==a->state.get()&&gst2==b->state.get()&&gI==I.get()&&!gforce,"the geometry functor gets both bodies in the order of the contact"); eq3(gshift,per?Vector3r(h*Vector3r(cd[0],cd[1],cd[2])):Vector3r::Zero(),"the second body is shifted by the periods of the contact");
		if(!geomRet){ vf_assert(physCalls==0&&lawCalls==0&&cbCalls==0,"without geometry there is neither physics nor law"); vf_assert(!I->isReal(),"a contact that lost its geometry is not real"); real=false; vf_reach("nogeom"); }
		else { vf_assert(physCalls==1&&pm1==a->material.get()&&pm2==b->material.get(),"the physics functor gets both materials"); vf_assert(lawCalls==1,"the law runs once"); if(!real) made=7+t; if(lawRet){ vf_assert(I->isReal()&&lg==I->geom.get()&&lp==I->phys.get(),"the law gets geometry and physics"); vf_assert(I->iterMadeReal==made,"the step at which a contact became real is remembered"); vf_assert(cbCalls==(cb->on?1:0),"callbacks run for real contacts"); real=true; vf_reach("real"); } else { vf_assert(!I->isReal()&&cbCalls==0,"a law can end the contact"); real=false; vf_reach("ended"); } } }
	vf_assert(!thrown,"no error"); vf_assert(sc->interactions->size()==1,"the loop does not unlist contacts"); vf_reach("end"); }
extern "C" void h_loop_swap(){ // functors written for (facet,sphere) get the facet first
	freshScene(); Scene* sc=vfScene().get(); auto L=loop(); L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GFS)); bool facetFirst=vf_pick(vf_int("facetFirst",0,1)); shared_ptr<Body> f,s; for(int i=0;i<2;i++){ auto b=matSphere(); if((i==0)==facetFirst){ b->shape=shared_ptr<Shape>(new Facet); f=b; } else s=b; } sc->isPeriodic=true; Matrix3r h=Matrix3r::Zero(); for(int i=0;i<3;i++) h(i,i)=vf_double_in("cell",3,9); sc->cell->setHSize(h); shared_ptr<Interaction> I(new Interaction(0,1)); Vector3i cd(2,-1,0); I->cellDist=cd; sc->interactions->insert(I); lawRet=true; geomRet=vf_pick(vf_int("geom",0,1)); for(int t=0;t<2;t++){ zeroCalls(); L->action(); Vector3i want=facetFirst?cd:Vector3i(-cd); vf_assert(gs1==f->shape.get()&&gs2==s->shape.get()&&gst1==f->state.get(),"the facet comes first"); vf_assert(I->getId1()==f->id&&I->getId2()==s->id,"the contact takes the order of the functor"); vf_assert(I->cellDist==want,"the periods follow the order"); eq3(gshift,h*Vector3r(want[0],want[1],want[2]),"the second body is shifted by the periods of the contact"); if(geomRet) vf_assert(pm1==f->material.get()&&pm2==s->material.get(),"materials follow the order"); vf_assert(sc->interactions->found(0,1)&&sc->interactions->find(1,0)==I,"the contact stays findable"); geomRet=true; } vf_reach("end"); }
extern "C" void h_loop_unseen(){ // colliders that mark the contacts they see: unseen virtual contacts go, seen or real ones stay
	freshScene(); Scene* sc=vfScene().get(); auto L=loop(); for(int i=0;i<3;i++) matSphere(); sc->iter=5; bool seen[2],real[2]; shared_ptr<Interaction> I[2]; int mode=vf_pick(vf_int("mode",0,2)); sc->interactions->iterColliderLastRun=mode==0?-1:mode==1?5:4; geomRet=lawRet=true; for(int i=0;i<2;i++){ I[i]=shared_ptr<Interaction>(new Interaction(i,i+1)); sc->interactions->insert(I[i]); seen[i]=vf_pick(vf_int("seen",0,1)); I[i]->iterLastSeen=seen[i]?5:4; real[i]=vf_pick(vf_int("real",0,1)); if(real[i]){ I[i]->geom=shared_ptr<IGeom>(new ScGeom); I[i]->phys=shared_ptr<IPhys>(new NormShearPhys); } } zeroCalls(); int n=vf_pick(vf_int("steps",1,2)); for(int t=0;t<n;t++){ L->action(); } for(int i=0;i<2;i++){ bool keep=mode!=1||seen[i]||real[i]; vf_assert(sc->interactions->found(i,i+1)==keep,"contacts the collider did not see are removed unless they are real"); if(keep) vf_assert(I[i]->isReal(),"other contacts are processed"); } vf_reach("end"); }
struct MatA: public FrictMat{ MatA(){ createIndex(); } REGISTER_CLASS_INDEX(MatA,FrictMat); };
struct MatB: public ElastMat{ MatB(){ createIndex(); } REGISTER_CLASS_INDEX(MatB,ElastMat); };
struct PEE: public PFF{ virtual string getClassName() const { return "PEE"; } FUNCTOR2D(ElastMat,ElastMat) }; struct PEF: public PFF{ virtual string getClassName() const { return "PEF"; } FUNCTOR2D(ElastMat,FrictMat) };
extern "C" void h_dispatch(){ // the functor for the nearest base classes is chosen
	freshScene(); shared_ptr<Material> m[5]={shared_ptr<Material>(new Material),shared_ptr<Material>(new ElastMat),shared_ptr<Material>(new FrictMat),shared_ptr<Material>(new MatA),shared_ptr<Material>(new MatB)}; const int toElast[5]={-1,0,1,2,1},toFrict[5]={-1,-1,0,1,-1}; IPhysDispatcher d; shared_ptr<IPhysFunctor> f[3]={shared_ptr<IPhysFunctor>(new PEE),shared_ptr<IPhysFunctor>(new PFF),shared_ptr<IPhysFunctor>(new PEF)}; int have=vf_pick(vf_int("functors",0,3)); for(int i=0;i<2;i++) if(have&(1<<i)) d.add(f[i]); bool mixed=vf_pick(vf_int("mixed",0,1)); if(mixed) d.add(f[2]);
	for(int q=0;q<2;q++){ int i=vf_pick(vf_int("first",1,4)),j=vf_pick(vf_int("second",1,4)); int best=99,which=-1; bool sw=false; if(have&1){ best=toElast[i]+toElast[j]; which=0; } if(have&2) if(toFrict[i]>=0&&toFrict[j]>=0&&toFrict[i]+toFrict[j]<best){ best=toFrict[i]+toFrict[j]; which=1; } bool amb=false; if(mixed){ for(int r=0;r<2;r++){ int x=r?j:i,y=r?i:j; if(toFrict[y]<0) continue; int dd=toElast[x]+toFrict[y]; if(dd<best){ best=dd; which=2; sw=r; } else if(dd==best&&which!=2) amb=true; } } if(amb) continue; bool swap=false; auto g=d.getFunctor2D(m[i],m[j],swap); vf_assert(which<0?!g:g==f[which],"the functor of the nearest base classes is chosen"); if(g&&which==2&&toFrict[i]!=toFrict[j]&&(toFrict[i]<0||toFrict[j]<0)) vf_assert(swap==sw,"arguments are swapped when the functor expects them in the other order"); } vf_reach("end"); }
