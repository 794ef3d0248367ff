#include "laws.h"
#include <pkg/dem/FrictPhys.hpp>
#include <pkg/dem/Ip2_ElastMat.hpp>
#include <pkg/common/MatchMaker.hpp>
#include <pkg/common/ElastMat.hpp>
// C32: contact parameters follow from the two materials and radii
static shared_ptr<Interaction> contact(double& Ra,double& Rb,bool wall=true){ shared_ptr<ScGeom> g(new ScGeom); g->refR1=vf_double_in("R1",.1,10); g->refR2=vf_double_in("R2",.1,10); int w=wall?vf_pick(vf_int("wall",0,2)):0; if(w==1) g->refR1=-vf_double_in("neg",0,1); if(w==2) g->refR2=-vf_double_in("neg",0,1); Ra=w==1?g->refR2:g->refR1; Rb=w==2?g->refR1:g->refR2; shared_ptr<Interaction> I(new Interaction(0,1)); I->geom=g; return I; }
template<class M> static shared_ptr<M> elast(int id,const char* n="E"){ shared_ptr<M> m(new M); m->id=id; m->young=vf_double_in(n,.1,100); m->poisson=vf_double_in("nu",.05,.95); return m; }
static double harm(double a,double b){ return 2*a*b/(a+b); }
template<class IP,class PH> static void frict(){
	double Ra,Rb; auto I=contact(Ra,Rb); auto a=elast<FrictMat>(0),b=elast<FrictMat>(1); a->frictionAngle=vf_double_in("phi",0,1.2); b->frictionAngle=vf_double_in("phi",0,1.2); IP ip; double phi; int m=vf_pick(vf_int("matcher",0,2));
	if(m==0) phi=a->frictionAngle<b->frictionAngle?a->frictionAngle:b->frictionAngle; else { ip.frictAngle=shared_ptr<MatchMaker>(new MatchMaker("avg")); phi=.5*(a->frictionAngle+b->frictionAngle); if(m==2){ phi=vf_double_in("match",0,1.2); bool sw=vf_pick(vf_int("swap",0,1)); ip.frictAngle->matches.push_back(Vector3r(sw?1:0,sw?0:1,phi)); ip.frictAngle->postLoad(*ip.frictAngle); } }
	ip.go(a,b,I); auto p=YADE_PTR_DYN_CAST<PH>(I->phys); vf_assert((bool)p,"contact physics is created"); 
	vf_eq(p->kn,harm(a->young*Ra,b->young*Rb),1e-6,"normal stiffness is the harmonic mean of the two bodies' stiffnesses"); vf_eq(p->ks,harm(a->young*Ra*a->poisson,b->young*Rb*b->poisson),1e-6,"shear stiffness is the harmonic mean of the two bodies' shear stiffnesses"); vf_eq(p->tangensOfFrictionAngle,std::tan(phi),1e-6,"friction coefficient of the pair");
	double kn=p->kn; a->young=vf_double_in("E2",.1,100); ip.go(a,b,I); vf_assert(I->phys==p,"physics of an existing contact is not recreated"); vf_eq(p->kn,kn,1e-6,"physics of an existing contact is not changed"); vf_reach("end");
}
extern "C" void h_ip2_frict(){ frict<Ip2_FrictMat_FrictMat_FrictPhys,FrictPhys>(); }
extern "C" void h_ip2_viscofrict(){ frict<Ip2_FrictMat_FrictMat_ViscoFrictPhys,ViscoFrictPhys>(); }
struct OtherGeom: public IGeom{ virtual ~OtherGeom(){} };
extern "C" void h_ip2_elast(){
	bool sph=vf_pick(vf_int("sph",0,1)); double Ra=1,Rb=1; shared_ptr<Interaction> I; if(sph) I=contact(Ra,Rb); else { I=shared_ptr<Interaction>(new Interaction(0,1)); I->geom=shared_ptr<IGeom>(new OtherGeom); } auto a=elast<ElastMat>(0),b=elast<ElastMat>(1);
	double kn=harm(a->young*Ra,b->young*Rb),ks=harm(a->young*Ra*a->poisson,b->young*Rb*b->poisson);
	{ Ip2_ElastMat_ElastMat_NormPhys ip; ip.go(a,b,I); auto p=YADE_PTR_DYN_CAST<NormPhys>(I->phys); vf_eq(p->kn,kn,1e-6,"normal stiffness is the harmonic mean of the two bodies' stiffnesses"); }
	I->phys=shared_ptr<IPhys>(); Ip2_ElastMat_ElastMat_NormShearPhys ip; ip.go(a,b,I); auto p=YADE_PTR_DYN_CAST<NormShearPhys>(I->phys); vf_eq(p->kn,kn,1e-6,"normal stiffness is the harmonic mean of the two bodies' stiffnesses"); vf_eq(p->ks,ks,1e-6,"shear stiffness is the harmonic mean of the two bodies' shear stiffnesses"); vf_reach("end");
}
extern "C" void h_matchmaker(){
	const char* algos[]={"avg","min","max","harmAvg","zero","val"}; int k=vf_pick(vf_int("algo",0,5)); MatchMaker m((std::string(algos[k]))); double val=vf_double_in("val",-5,5); m.val=val; double v1=vf_double_in("v1",.1,9),v2=vf_double_in("v2",.1,9),w=vf_double_in("w",-9,9),w2=vf_double_in("w2",-9,9);
	int i=vf_pick(vf_int("i",0,2)),j=vf_pick(vf_int("j",0,2)),p=vf_pick(vf_int("p",0,2)),q=vf_pick(vf_int("q",0,2)); m.matches.push_back(Vector3r(p,q,w)); m.matches.push_back(Vector3r(3,p,w2)); m.postLoad(m);
	bool hit=(i==p&&j==q)||(i==q&&j==p); double fb[]={.5*(v1+v2),v1<v2?v1:v2,v1<v2?v2:v1,2*v1*v2/(v1+v2),0,val}; double r=m(i,j,v1,v2); vf_eq(r,hit?w:fb[k],1e-6,"pair value: the listed match in either order, otherwise the fallback rule"); vf_eq(m(j,i,v2,v1),r,1e-6,"pair value does not depend on the order of the pair"); vf_eq(m(p,3,v1,v2),w2,1e-6,"pair value: the listed match in either order, otherwise the fallback rule"); vf_eq(m.computeFallback(v1,v2),fb[k],1e-6,"fallback rule");
	if(k>=4) vf_eq(m(7,8),fb[k],1e-6,"constant fallback needs no values"); vf_reach("end");
}
