#include "env.h"
int vfThread=0, vfMaxThreads=1;
extern "C" int omp_get_thread_num(){ return vfThread; }
extern "C" int omp_get_max_threads(){ return vfMaxThreads; }
extern "C" int omp_get_num_threads(){ return 1; }
shared_ptr<Scene>& vfScene(){ static shared_ptr<Scene> s; return s; }
static char omegaStorage[sizeof(Omega)] __attribute__((aligned(16)));
template<> Omega* Singleton<Omega>::self=(Omega*)omegaStorage;
const shared_ptr<Scene>& Omega::getScene(){ return vfScene(); }
