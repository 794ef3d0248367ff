// Minimal simulation environment for harnesses: a Scene reachable through Omega, number-of-threads control, small helpers.
#pragma once
#include <core/Omega.hpp>
#include <core/Scene.hpp>
#include <core/Clump.hpp>
#include "vf.h"
extern int vfThread, vfMaxThreads;
shared_ptr<Scene>& vfScene();                       // what Omega::instance().getScene() returns
static inline Vector3r v3(const char* n){ double a=vf_double(n),b=vf_double(n),c=vf_double(n); return Vector3r(a,b,c); }
static inline Vector3r v3in(const char* n,double lo,double hi){ double a=vf_double_in(n,lo,hi),b=vf_double_in(n,lo,hi),c=vf_double_in(n,lo,hi); return Vector3r(a,b,c); }
static inline void eq3(const Vector3r& a,const Vector3r& b,const char* l,double tol=1e-6){ for(int i=0;i<3;i++) vf_eq(a[i],b[i],tol,l); }
static inline void obs3(const char* n,const Vector3r& a){ for(int i=0;i<3;i++) vf_observe(n,a[i]); }
static inline void freshScene(){ vfScene()=shared_ptr<Scene>(new Scene); }
