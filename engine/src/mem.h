// Memory of the interpreted program: real host addresses inside one arena, with object bounds (per 16-byte granule) and a
// byte-wise shadow that says which bytes hold symbolic values.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <string>
#include <sys/mman.h>
typedef uint64_t u64; typedef uint8_t u8; typedef uint32_t u32; typedef int64_t i64;
namespace vf{
static const u64 ARENA=0x100000000000ull, ARENA_SZ=6ull<<30;
static const u64 HEAP0=ARENA, HEAP1=ARENA+(4ull<<30);
static const u64 STACK0=HEAP1, STACK1=ARENA+ARENA_SZ;
static const u64 CODE=0x180000000000ull; // fake function addresses: CODE+16*k
inline bool inArena(u64 a){ return a-ARENA<ARENA_SZ; }
struct Obj{ u64 base,size; u8 kind; bool alive; };
enum{OK_GLOBAL=1,OK_HEAP=2,OK_STACK=3};
struct Mem{
	u8* shadow=nullptr; u32* gran=nullptr; std::vector<Obj> objs; std::vector<u32> freeIds; u64 heapTop=HEAP0+4096, stackTop=STACK0+4096;
	void init(){
		void* p=mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
		if(p!=(void*)ARENA){ fprintf(stderr,"vfsym: cannot map arena\n"); exit(3);} 
		shadow=(u8*)mmap(nullptr,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
		gran=(u32*)mmap(nullptr,ARENA_SZ/16*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
		if(shadow==MAP_FAILED||gran==MAP_FAILED){ fprintf(stderr,"vfsym: cannot map shadow\n"); exit(3);} 
		objs.push_back(Obj{0,0,0,false});
	}
	void setGran(u64 base,u64 size,u32 id){ u64 g0=(base-ARENA)>>4,g1=(base+(size?size:1)-1-ARENA)>>4; for(u64 g=g0;g<=g1;g++) gran[g]=id; }
	u64 allocHeap(u64 size,u8 kind,u64 align=16){
		if(align<16)align=16;
		heapTop=(heapTop+align-1)/align*align; u64 b=heapTop; if(b+size+64>HEAP1) return 0;
		heapTop=(b+size+15)/16*16+32; // red zone
		u32 id=objs.size(); objs.push_back(Obj{b,size,kind,true}); setGran(b,size,id); return b;
	}
	u64 allocStack(u64 size,u64 align=16){
		if(align<16)align=16;
		stackTop=(stackTop+align-1)/align*align; u64 b=stackTop; if(b+size+64>STACK1) return 0;
		stackTop=(b+size+15)/16*16+16;
		u32 id; if(!freeIds.empty()){ id=freeIds.back(); freeIds.pop_back(); objs[id]=Obj{b,size,OK_STACK,true}; } else { id=objs.size(); objs.push_back(Obj{b,size,OK_STACK,true}); }
		setGran(b,size,id); return b;
	}
	void popStack(u64 mark){ // free everything above mark
		u64 a=mark; if(stackTop<=mark) return;
		u64 g0=(mark-ARENA)>>4,g1=(stackTop-ARENA)>>4; u32 last=0;
		for(u64 g=g0;g<g1;g++){ u32 id=gran[g]; if(id&&id!=last){ objs[id].alive=false; freeIds.push_back(id); last=id; } gran[g]=0; }
		memset(shadow+(mark-ARENA),0,stackTop-mark); (void)a; stackTop=mark;
	}
	Obj* find(u64 a){ if(!inArena(a)) return nullptr; u32 id=gran[(a-ARENA)>>4]; if(!id) return nullptr; return &objs[id]; }
};
}
