// hlcsa - an interprocedural, context-sensitive abstract interpreter over LLVM IR.
//
// Domain (per value):  Set  - finite set of integers / (object+offset) pointers
//                      Sym  - a hash-consed symbolic (Herbrand) expression over named inputs
//                      Num  - known bits + unsigned range, otherwise unknown ("top")
// Memory:              object -> offset -> cell, strong updates on singleton pointers.
// Control:             conditional propagation, a worklist in weak topological order, joins at merge
//                      points, loop headers partitioned by iteration while the loop is decided,
//                      widening otherwise.
// Calls:               analysed per calling context (call string); no path enumeration, no solver.
//
// usage: hlcsa module.bc jobs.json   (results on stdout, one JSON line per job)
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/FixIrreducible.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <chrono>
using namespace llvm;
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32;

static u64 maskw(unsigned w){ return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static s64 sextw(u64 v, unsigned w){ if(w >= 64) return (s64)v; u64 m = 1ull << (w-1); v &= maskw(w); return (s64)((v ^ m) - m); }

// ---------------------------------------------------------------- expressions
enum EOp { E_CONST, E_LEAF, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
  E_ZEXT, E_SEXT, E_TRUNC, E_ICMP, E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FNEG, E_FCMP, E_FPTOSI, E_FPTOUI, E_SITOFP, E_UITOFP,
  E_FPEXT, E_FPTRUNC, E_SELECT, E_CALL };
static const char *ename[] = {"const","leaf","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor",
  "zext","sext","trunc","icmp","fadd","fsub","fmul","fdiv","frem","fneg","fcmp","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","select","call"};
struct Expr { int op; int w; int aux; u64 imm; int a,b,c; };
struct KB { u64 z=0,o=0; };
struct Range { u64 lo,hi; };
static std::vector<Expr> EX;
static std::vector<KB> EKB; static std::vector<Range> ERG;
struct EK { int op,w,aux; u64 imm; int a,b,c; bool operator<(const EK&k)const{ return std::tie(op,w,aux,imm,a,b,c)<std::tie(k.op,k.w,k.aux,k.imm,k.a,k.b,k.c);} };
static std::map<EK,int> EMAP;
static std::map<int,Range> leafRange; // leaf id -> range
static KB kbAdd(KB a, KB b, bool carry, unsigned w){
  // ripple
  KB r; int c = carry; // 0,1, -1 unknown
  for(unsigned i=0;i<w&&i<64;i++){
    int x = (a.o>>i&1)?1:((a.z>>i&1)?0:-1), y = (b.o>>i&1)?1:((b.z>>i&1)?0:-1);
    int ones=(x==1)+(y==1)+(c==1), unk=(x<0)+(y<0)+(c<0);
    if(!unk){ if(ones&1) r.o|=1ull<<i; else r.z|=1ull<<i; c = ones>=2; }
    else { int mn=ones, mx=ones+unk; if(mn>=2) c=1; else if(mx<2) c=0; else c=-1; }
  }
  return r;
}
static KB kbConst(u64 v, unsigned w){ KB k; v&=maskw(w); k.o=v; k.z=~v&maskw(w); return k; }
static int mkE(int op,int w,int aux,u64 imm,int a=-1,int b=-1,int c=-1);
static int eConst(u64 v,int w){ return mkE(E_CONST,w,0,w<=64?(v&maskw(w)):v); }
static bool isC(int e,u64&v){ if(EX[e].op==E_CONST){v=EX[e].imm;return true;} return false; }
static void computeKB(int id){
  const Expr &e=EX[id]; KB k; u64 M=maskw(e.w); Range r{0,M};
  auto ka=[&](int x){return EKB[x];};
  if(e.w<=64) switch(e.op){
    case E_CONST: k=kbConst(e.imm,e.w); r={e.imm,e.imm}; break;
    case E_LEAF: { auto it=leafRange.find((int)e.imm); if(it!=leafRange.end()){ r=it->second; u64 h=r.hi; int top=h?64-__builtin_clzll(h):0; k.z = M & ~maskw(top?top:0); if(!top) k.z=M; 
        if(r.lo==r.hi) k=kbConst(r.lo,e.w); } } break;
    case E_AND: k.z=ka(e.a).z|ka(e.b).z; k.o=ka(e.a).o&ka(e.b).o; r.hi=std::min(ERG[e.a].hi,ERG[e.b].hi); break;
    case E_OR: k.z=ka(e.a).z&ka(e.b).z; k.o=ka(e.a).o|ka(e.b).o; r.lo=std::max(ERG[e.a].lo,ERG[e.b].lo); break;
    case E_XOR: k.z=(ka(e.a).z&ka(e.b).z)|(ka(e.a).o&ka(e.b).o); k.o=(ka(e.a).z&ka(e.b).o)|(ka(e.a).o&ka(e.b).z); break;
    case E_ADD: { k=kbAdd(ka(e.a),ka(e.b),false,e.w); unsigned __int128 h=(unsigned __int128)ERG[e.a].hi+ERG[e.b].hi; if(h<=M){ r={ERG[e.a].lo+ERG[e.b].lo,(u64)h}; }
        else { // adding a (negative) constant
          u64 v; if(isC(e.b,v)||isC(e.a,v)){ int o=isC(e.b,v)?e.a:e.b; isC(o==e.a?e.b:e.a,v); u64 lo=(ERG[o].lo+v)&M, hi=(ERG[o].hi+v)&M; if(lo<=hi && (ERG[o].hi-ERG[o].lo)==(hi-lo)) r={lo,hi}; } } } break;
    case E_SUB: { KB nb; nb.z=ka(e.b).o; nb.o=ka(e.b).z; k=kbAdd(ka(e.a),nb,true,e.w); if(ERG[e.a].lo>=ERG[e.b].hi) r={ERG[e.a].lo-ERG[e.b].hi,ERG[e.a].hi-ERG[e.b].lo}; } break;
    case E_SHL: { u64 s; if(isC(e.b,s)&&s<(u64)e.w){ k.z=((ka(e.a).z<<s)|maskw(s))&M; k.o=(ka(e.a).o<<s)&M; if(ERG[e.a].hi<=(M>>s)) r={ERG[e.a].lo<<s,ERG[e.a].hi<<s}; } } break;
    case E_LSHR: { u64 s; if(isC(e.b,s)&&s<(u64)e.w){ k.z=((ka(e.a).z>>s)|~(M>>s))&M; k.o=ka(e.a).o>>s; r={ERG[e.a].lo>>s,ERG[e.a].hi>>s}; } } break;
    case E_ZEXT: { u64 m=maskw(EX[e.a].w); k=ka(e.a); k.z|=M&~m; r=ERG[e.a]; } break;
    case E_SEXT: { int aw=EX[e.a].w; k=ka(e.a); u64 up=M&~maskw(aw); if(k.z>>(aw-1)&1) {k.z|=up; r=ERG[e.a];} else if(k.o>>(aw-1)&1) {k.o|=up; r={ERG[e.a].lo|up,ERG[e.a].hi|up};} } break;
    case E_TRUNC: k.z=ka(e.a).z&M; k.o=ka(e.a).o&M; if(EX[e.a].w<=64&&(ERG[e.a].hi&~M)==(ERG[e.a].lo&~M)) r={ERG[e.a].lo&M,ERG[e.a].hi&M}; break;
    case E_MUL: { unsigned __int128 h=(unsigned __int128)ERG[e.a].hi*ERG[e.b].hi; if(h<=M) r={ERG[e.a].lo*ERG[e.b].lo,(u64)h}; } break;
    case E_UREM: { u64 v; if(isC(e.b,v)&&v) r.hi=v-1; } break;
    case E_UDIV: { u64 v; if(isC(e.b,v)&&v) r={ERG[e.a].lo/v,ERG[e.a].hi/v}; } break;
    case E_ICMP: case E_FCMP: r.hi=1; break;
    case E_SELECT: k.z=ka(e.b).z&ka(e.c).z; k.o=ka(e.b).o&ka(e.c).o; r={std::min(ERG[e.b].lo,ERG[e.c].lo),std::max(ERG[e.b].hi,ERG[e.c].hi)}; break;
    default: break;
  }
  if(e.w<=64){ // combine
    u64 lo=k.o, hi=M&~k.z; r.lo=std::max(r.lo,lo); r.hi=std::min(r.hi,hi);
    if(r.lo>r.hi){ r.lo=lo; r.hi=hi; }
    u64 df=r.lo^r.hi; u64 pm=M&~(df?maskw(64-__builtin_clzll(df)):0); k.o|=r.lo&pm; k.z|=~r.lo&pm;
  }
  EKB.push_back(k); ERG.push_back(r);
}
static u64 foldBin(int op,int w,u64 a,u64 b,bool&ok){
  ok=true; u64 M=maskw(w); a&=M;b&=M;
  switch(op){
    case E_ADD:return (a+b)&M; case E_SUB:return (a-b)&M; case E_MUL:return (a*b)&M;
    case E_UDIV: if(!b){ok=false;return 0;} return a/b;
    case E_UREM: if(!b){ok=false;return 0;} return a%b;
    case E_SDIV: case E_SREM: { s64 x=sextw(a,w),y=sextw(b,w); if(!y||(y==-1&&(u64)x==((w>=64)?1ull<<63:(u64)sextw(1ull<<(w-1),w)))){ok=false;return 0;} return (op==E_SDIV?(u64)(x/y):(u64)(x%y))&M; }
    case E_SHL: if(b>=(u64)w){ok=false;return 0;} return (a<<b)&M;
    case E_LSHR: if(b>=(u64)w){ok=false;return 0;} return a>>b;
    case E_ASHR: if(b>=(u64)w){ok=false;return 0;} return (u64)(sextw(a,w)>>b)&M;
    case E_AND:return a&b; case E_OR:return a|b; case E_XOR:return a^b;
  }
  ok=false; return 0;
}
static bool foldCmp(int pred,int w,u64 a,u64 b){
  u64 M=maskw(w); a&=M;b&=M; s64 x=sextw(a,w),y=sextw(b,w);
  switch(pred){ case CmpInst::ICMP_EQ:return a==b; case CmpInst::ICMP_NE:return a!=b; case CmpInst::ICMP_UGT:return a>b; case CmpInst::ICMP_UGE:return a>=b;
    case CmpInst::ICMP_ULT:return a<b; case CmpInst::ICMP_ULE:return a<=b; case CmpInst::ICMP_SGT:return x>y; case CmpInst::ICMP_SGE:return x>=y;
    case CmpInst::ICMP_SLT:return x<y; case CmpInst::ICMP_SLE:return x<=y; }
  return false;
}
static int mkE(int op,int w,int aux,u64 imm,int a,int b,int c){
  u64 x,y; bool ok;
  // canonicalise
  if(op>=E_ADD&&op<=E_XOR){
    bool ca=isC(a,x), cb=isC(b,y);
    if(w<=64){
      if(ca&&cb){ u64 r=foldBin(op,w,x,y,ok); if(ok) return eConst(r,w); }
      bool comm=(op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR);
      if(comm){ if(ca&&!cb){ std::swap(a,b); std::swap(ca,cb); std::swap(x,y);} else if(!ca&&!cb&&a>b) std::swap(a,b); }
      if(op==E_SUB&&cb){ return mkE(E_ADD,w,0,0,a,eConst(-y,w)); }
      if(cb){
        if(y==0){ if(op==E_ADD||op==E_OR||op==E_XOR||op==E_SHL||op==E_LSHR||op==E_ASHR) return a; if(op==E_AND||op==E_MUL) return eConst(0,w); }
        if(op==E_MUL&&y==1) return a;
        if(op==E_AND){ if(((~EKB[a].z)&maskw(w)&~y)==0) return a;   // mask clears nothing
          if((y&(y+1))==0 && y!=maskw(w)){ int nb=64-__builtin_clzll(y); if(EX[a].op==E_OR||EX[a].op==E_SHL||EX[a].op==E_ADD){} if(nb==8||nb==16||nb==32||nb==1) return mkE(E_ZEXT,w,0,0,mkE(E_TRUNC,nb,0,0,a)); } }
        if(op==E_OR&&y==maskw(w)) return eConst(y,w);
        if(op==E_ADD&&EX[a].op==E_ADD){ u64 z; if(isC(EX[a].b,z)) return mkE(E_ADD,w,0,0,EX[a].a,eConst(y+z,w)); }
        if(op==E_AND&&EX[a].op==E_AND){ u64 z; if(isC(EX[a].b,z)) return mkE(E_AND,w,0,0,EX[a].a,eConst(y&z,w)); }
        if(op==E_LSHR&&EX[a].op==E_OR){ // extract from composite
          int p=EX[a].a,q=EX[a].b; int e1=mkE(E_LSHR,w,0,0,p,b), e2=mkE(E_LSHR,w,0,0,q,b); u64 t; if(isC(e1,t)&&t==0) return e2; if(isC(e2,t)&&t==0) return e1; }
        if(op==E_LSHR&&EX[a].op==E_SHL){ u64 z; if(isC(EX[a].b,z)&&z==y&&EX[a].a>=0){ int in=EX[a].a; if((EKB[in].z|maskw(w-z))==(u64)maskw(w)) return in; } }
        if(op==E_LSHR && ((~EKB[a].z&maskw(w))>>y)==0) return eConst(0,w);
        if(op==E_LSHR&&EX[a].op==E_LSHR){ u64 z; if(isC(EX[a].b,z)&&z+y<(u64)w) return mkE(E_LSHR,w,0,0,EX[a].a,eConst(z+y,w)); }
      }
      if(a==b){ if(op==E_SUB||op==E_XOR) return eConst(0,w); if(op==E_AND||op==E_OR) return a; }
    }
  }
  if(op==E_ZEXT||op==E_SEXT||op==E_TRUNC){
    if(EX[a].w==w) return a;
    if(w<=64&&EX[a].w<=64&&isC(a,x)) return eConst(op==E_SEXT?(u64)sextw(x,EX[a].w):x,w);
    if(op==E_ZEXT&&EX[a].op==E_ZEXT) return mkE(E_ZEXT,w,0,0,EX[a].a);
    if(op==E_SEXT&&EX[a].op==E_SEXT) return mkE(E_SEXT,w,0,0,EX[a].a);
    if(op==E_SEXT&&EX[a].op==E_ZEXT) return mkE(E_ZEXT,w,0,0,EX[a].a);
    if(op==E_SEXT&&EX[a].w<=64&&(EKB[a].z>>(EX[a].w-1)&1)) return mkE(E_ZEXT,w,0,0,a);
    if(op==E_TRUNC){
      if(EX[a].op==E_TRUNC) return mkE(E_TRUNC,w,0,0,EX[a].a);
      if(EX[a].op==E_ZEXT||EX[a].op==E_SEXT){ int in=EX[a].a; if(EX[in].w==w) return in; if(EX[in].w>w) return mkE(E_TRUNC,w,0,0,in); return mkE(EX[a].op,w,0,0,in); }
      if(w<=64&&EX[a].w<=64&&(EX[a].op==E_OR||EX[a].op==E_AND||EX[a].op==E_XOR||EX[a].op==E_ADD||EX[a].op==E_SUB||EX[a].op==E_MUL)){
        Expr t=EX[a]; int p=mkE(E_TRUNC,w,0,0,t.a), q=mkE(E_TRUNC,w,0,0,t.b); return mkE(t.op,w,0,0,p,q); }
      if(w<=64&&EX[a].w<=64&&EX[a].op==E_SHL){ u64 s; Expr t=EX[a]; if(isC(t.b,s)){ if(s>=(u64)w) return eConst(0,w); return mkE(E_SHL,w,0,0,mkE(E_TRUNC,w,0,0,t.a),eConst(s,w)); } }
      if(w<=64&&EX[a].w<=64&&(((EKB[a].z|EKB[a].o)&maskw(w))==maskw(w))) return eConst(EKB[a].o,w);
    }
  }
  if(op==E_ICMP){
    int cw=EX[a].w;
    if(cw<=64){
      if(isC(a,x)&&isC(b,y)) return eConst(foldCmp(aux,cw,x,y),1);
      if(isC(a,x)&&!isC(b,y)){ std::swap(a,b); aux=CmpInst::getSwappedPredicate((CmpInst::Predicate)aux); }
      if(aux==CmpInst::ICMP_NE||aux==CmpInst::ICMP_EQ){ // (zext i1 c) != 0
        if(isC(b,y)&&y==0&&(EX[a].op==E_ZEXT)&&EX[EX[a].a].w==1){ int in=EX[a].a; if(aux==CmpInst::ICMP_NE) return in; return mkE(E_XOR,1,0,0,in,eConst(1,1)); }
        if(isC(b,y)&&(EX[a].op==E_ZEXT||EX[a].op==E_SEXT)){ int in=EX[a].a; u64 tv=y&maskw(EX[in].w); u64 back=EX[a].op==E_ZEXT?tv:((u64)sextw(tv,EX[in].w)&maskw(cw)); if(back==y) return mkE(E_ICMP,1,aux,0,in,eConst(tv,EX[in].w)); return eConst(aux==CmpInst::ICMP_NE,1); }
        if(cw==1&&isC(b,y)) { if((y==1)==(aux==CmpInst::ICMP_EQ)) return a; return mkE(E_XOR,1,0,0,a,eConst(1,1)); }
        if(a>b&&!isC(b,y)) std::swap(a,b);
      }
      if(EX[a].op==E_ZEXT&&EX[b].op==E_ZEXT&&EX[EX[a].a].w==EX[EX[b].a].w){ int p=aux; if(CmpInst::isSigned((CmpInst::Predicate)p)) p=CmpInst::getUnsignedPredicate((CmpInst::Predicate)p); return mkE(E_ICMP,1,p,0,EX[a].a,EX[b].a); }
      if(EX[a].op==E_SEXT&&EX[b].op==E_SEXT&&EX[EX[a].a].w==EX[EX[b].a].w) return mkE(E_ICMP,1,aux,0,EX[a].a,EX[b].a);
      // range
      Range ra=ERG[a], rb=ERG[b]; u64 sgn=1ull<<(cw-1); bool sOK=ra.hi<sgn&&rb.hi<sgn;
      int p=aux; if(CmpInst::isSigned((CmpInst::Predicate)p)){ if(sOK) p=CmpInst::getUnsignedPredicate((CmpInst::Predicate)p);
        else { auto fl=[&](Range q){ return (q.lo^q.hi)&sgn ? Range{0,maskw(cw)} : Range{q.lo^sgn,q.hi^sgn}; }; ra=fl(ra); rb=fl(rb); p=CmpInst::getUnsignedPredicate((CmpInst::Predicate)p); } }
      if(p==CmpInst::ICMP_ULT){ if(ra.hi<rb.lo) return eConst(1,1); if(ra.lo>=rb.hi) return eConst(0,1); }
      if(p==CmpInst::ICMP_ULE){ if(ra.hi<=rb.lo) return eConst(1,1); if(ra.lo>rb.hi) return eConst(0,1); }
      if(p==CmpInst::ICMP_UGT){ if(ra.lo>rb.hi) return eConst(1,1); if(ra.hi<=rb.lo) return eConst(0,1); }
      if(p==CmpInst::ICMP_UGE){ if(ra.lo>=rb.hi) return eConst(1,1); if(ra.hi<rb.lo) return eConst(0,1); }
      if(p==CmpInst::ICMP_EQ){ if(ra.hi<rb.lo||ra.lo>rb.hi||((EKB[a].z&EKB[b].o)|(EKB[a].o&EKB[b].z))) return eConst(0,1); }
      if(p==CmpInst::ICMP_NE){ if(ra.hi<rb.lo||ra.lo>rb.hi||((EKB[a].z&EKB[b].o)|(EKB[a].o&EKB[b].z))) return eConst(1,1); }
      if(a==b) return eConst(CmpInst::isTrueWhenEqual((CmpInst::Predicate)aux),1);
    }
  }
  if(op==E_XOR&&w==1&&isC(b,y)&&y==1&&EX[a].op==E_ICMP){ return mkE(E_ICMP,1,CmpInst::getInversePredicate((CmpInst::Predicate)EX[a].aux),0,EX[a].a,EX[a].b); }
  if(op==E_XOR&&w==1&&isC(b,y)&&y==1&&EX[a].op==E_XOR){ u64 z; if(isC(EX[a].b,z)&&z==1) return EX[a].a; }
  if(op==E_SELECT){ if(isC(a,x)) return x?b:c; if(b==c) return b;
    if(w==1&&isC(b,x)&&isC(c,y)) return x?a:mkE(E_XOR,1,0,0,a,eConst(1,1));
    if(EX[a].op==E_XOR&&EX[a].w==1&&isC(EX[a].b,x)&&x==1) return mkE(E_SELECT,w,0,0,EX[a].a,c,b);
    if(EX[b].op==E_SELECT&&EX[b].a==a) return mkE(E_SELECT,w,0,0,a,EX[b].b,c);
    if(EX[c].op==E_SELECT&&EX[c].a==a) return mkE(E_SELECT,w,0,0,a,b,EX[c].c); }
  if(w<=64){ // distribute over selections between constants
    auto selC=[&](int e){ return e>=0&&EX[e].op==E_SELECT&&EX[EX[e].b].op==E_CONST&&EX[EX[e].c].op==E_CONST; };
    if((op==E_ZEXT||op==E_SEXT||op==E_TRUNC)&&selC(a)){ Expr t=EX[a]; return mkE(E_SELECT,w,0,0,t.a,mkE(op,w,0,0,t.b),mkE(op,w,0,0,t.c)); }
    if(((op>=E_ADD&&op<=E_XOR&&op!=E_UDIV&&op!=E_SDIV&&op!=E_UREM&&op!=E_SREM)||op==E_ICMP)&&b>=0&&((selC(a)&&isC(b,y))||(selC(b)&&isC(a,x)))){ bool l=selC(a); Expr t=l?EX[a]:EX[b]; int o=l?b:a; return mkE(E_SELECT,w,0,0,t.a,l?mkE(op,w,aux,0,t.b,o):mkE(op,w,aux,0,o,t.b),l?mkE(op,w,aux,0,t.c,o):mkE(op,w,aux,0,o,t.c)); } }
  if(w==1&&(op==E_AND||op==E_OR)){ // boolean conditions
    if(a>b) std::swap(a,b); u64 z; if(isC(b,z)||isC(a,z)){ int o=isC(b,z)?a:b; isC(o==a?b:a,z); if(op==E_AND) return z?o:eConst(0,1); return z?eConst(1,1):o; } }
  EK k{op,w,aux,imm,a,b,c}; auto it=EMAP.find(k); if(it!=EMAP.end()) return it->second;
  int id=EX.size(); EX.push_back({op,w,aux,imm,a,b,c}); computeKB(id); EMAP[k]=id;
  if(op!=E_CONST&&op!=E_LEAF&&w<=64&&ERG[id].lo==ERG[id].hi){ int ce=eConst(ERG[id].lo,w); EMAP[k]=ce; return ce; }
  return id;
}
static std::vector<std::string> leafNames;
static int eLeaf(const std::string&n,int w,bool hasR=false,u64 lo=0,u64 hi=0){
  int id=-1; for(size_t i=0;i<leafNames.size();i++) if(leafNames[i]==n) id=i;
  if(id<0){ id=leafNames.size(); leafNames.push_back(n); if(hasR) leafRange[id]={lo,hi}; }
  return mkE(E_LEAF,w,0,id);
}
static json::Value eJson(int e){
  const Expr x=EX[e]; json::Array a; 
  if(x.op==E_CONST){ a.push_back("const"); a.push_back(x.w); a.push_back((x.w<=64)?std::to_string(x.imm):std::to_string(x.imm)); return a; }
  if(x.op==E_LEAF){ a.push_back("leaf"); a.push_back(x.w); a.push_back(leafNames[x.imm]); return a; }
  std::string n=ename[x.op];
  if(x.op==E_ICMP||x.op==E_FCMP) n+="."+CmpInst::getPredicateName((CmpInst::Predicate)x.aux).str();
  if(x.op==E_CALL) n+="."+leafNames[x.imm];
  a.push_back(n); a.push_back(x.w);
  if(x.a>=0) a.push_back(eJson(x.a)); if(x.b>=0) a.push_back(eJson(x.b)); if(x.c>=0) a.push_back(eJson(x.c));
  return a;
}
// ---------------------------------------------------------------- values
struct Atom { int obj; s64 off; bool unk; 
  bool operator<(const Atom&o)const{ return std::tie(obj,unk,off)<std::tie(o.obj,o.unk,o.off);} bool operator==(const Atom&o)const{return obj==o.obj&&off==o.off&&unk==o.unk;} };
enum VK { V_BOT, V_SET, V_SYM, V_NUM };
struct AV { VK k=V_BOT; int w=0; std::vector<Atom> s; int e=-1; KB kb; Range r{0,~0ull}; 
  bool operator==(const AV&o)const{ if(k!=o.k||w!=o.w) return false; switch(k){case V_BOT:return true; case V_SET:return s==o.s&&e==o.e; case V_SYM:return e==o.e; case V_NUM: return kb.z==o.kb.z&&kb.o==o.kb.o&&r.lo==o.r.lo&&r.hi==o.r.hi;} return false; } };
static AV top(int w){ AV v; v.k=V_NUM; v.w=w; v.r={0,maskw(w)}; return v; }
static AV cst(u64 x,int w){ AV v; v.k=V_SET; v.w=w; v.s.push_back({0,(s64)(x&maskw(w)),false}); return v; }
static AV ptr(int o,s64 off){ AV v; v.k=V_SET; v.w=64; v.s.push_back({o,off,false}); return v; }
static AV sym(int e){ u64 x; if(EX[e].w<=64&&isC(e,x)) return cst(x,EX[e].w); AV v; v.k=V_SYM; v.w=EX[e].w; v.e=e; return v; }
static AV num(int w,KB k,Range r){ u64 M=maskw(w); AV v=top(w); v.kb.z=k.z&M; v.kb.o=k.o&M; u64 lo=v.kb.o,hi=M&~v.kb.z; r.lo=std::max(r.lo,lo); r.hi=std::min(r.hi,hi); if(r.lo>r.hi) r={lo,hi}; v.r=r; 
  if(r.lo==r.hi) return cst(r.lo,w);
  int t=r.hi?64-__builtin_clzll(r.hi):0; v.kb.z|=M&~(t?maskw(t):0); return v; }
static bool isTop(const AV&v){ return v.k==V_NUM&&!v.kb.z&&!v.kb.o&&v.r.lo==0&&v.r.hi==maskw(v.w); }
static bool single(const AV&v,u64&x){ if(v.k==V_SET&&v.s.size()==1&&v.s[0].obj==0&&!v.s[0].unk){x=(u64)v.s[0].off;return true;} return false; }
static bool allInt(const AV&v){ if(v.k!=V_SET) return false; for(auto&a:v.s) if(a.obj||a.unk) return false; return true; }
static bool hull(const AV&v,KB&k,Range&r){ // numeric hull
  switch(v.k){
    case V_SET:{ if(!allInt(v)) return false; k=kbConst(v.s[0].off,v.w); r={(u64)v.s[0].off,(u64)v.s[0].off}; for(auto&a:v.s){ KB t=kbConst(a.off,v.w); k.z&=t.z;k.o&=t.o; r.lo=std::min(r.lo,(u64)a.off); r.hi=std::max(r.hi,(u64)a.off);} return true; }
    case V_SYM: k=EKB[v.e]; r=ERG[v.e]; if(EX[v.e].w>64) return false; return true;
    case V_NUM: if(v.w>64) return false; k=v.kb; r=v.r; return true;
    default: return false; }
}
static const size_t SETCAP=48;
static int GATE=-1; // while joining at an acyclic merge: an expression that is true in b's state and false in a's
static int toE(const AV&v);
static int EXSIZE(int e);
static AV join(const AV&a,const AV&b){
  if(a.k==V_BOT) return b; if(b.k==V_BOT) return a; if(a==b) return a;
  if(a.w!=b.w) return top(a.w);
  int ge=-1; if(GATE>=0){ int x=toE(a),y=toE(b); if(x>=0&&y>=0&&EXSIZE(x)+EXSIZE(y)<600) ge=mkE(E_SELECT,a.w,0,0,GATE,y,x); }
  if(ge>=0&&!(a.k==V_SET&&b.k==V_SET)) return sym(ge);
  if(a.k==V_SET&&b.k==V_SET){ AV v=a; v.e=-1; for(auto&x:b.s){ auto it=std::lower_bound(v.s.begin(),v.s.end(),x); if(it==v.s.end()||!(*it==x)) v.s.insert(it,x);} 
    // collapse offsets of one object
    if(v.s.size()<=SETCAP){ if(ge>=0&&v.s.size()>1&&allInt(v)) v.e=ge; return v; } 
    if(allInt(v)){ KB k;Range r; hull(v,k,r); return num(v.w,k,r);} 
    std::set<int> objs; for(auto&x:v.s) objs.insert(x.obj); if(objs.size()<=8){ AV r; r.k=V_SET;r.w=v.w; for(int o:objs){ if(o==0){ return top(v.w);} r.s.push_back({o,0,true}); } return r; }
    return top(v.w); }
  KB k1,k2;Range r1,r2; if(hull(a,k1,r1)&&hull(b,k2,r2)){ KB k{k1.z&k2.z,k1.o&k2.o}; return num(a.w,k,{std::min(r1.lo,r2.lo),std::max(r1.hi,r2.hi)}); }
  return top(a.w);
}
static int toE(const AV&v){ // expression or -1
  u64 x; if(v.k==V_SYM) return v.e; if(single(v,x)) return eConst(x,v.w); if(v.k==V_SET&&v.e>=0) return v.e; return -1; }
static AV withE(AV v,int e){ if(v.k==V_SET&&v.s.size()>1&&v.e<0) v.e=e; return v; }
static std::vector<int> EXS; static int EXSIZE(int e){ while((int)EXS.size()<(int)EX.size()){ const Expr&x=EX[EXS.size()]; long n=1; for(int k:{x.a,x.b,x.c}) if(k>=0) n+=EXS[k]; EXS.push_back(n>100000?100000:(int)n); } return EXS[e]; }

// ---------------------------------------------------------------- objects and memory
struct Obj { std::string name; const GlobalVariable*gv=nullptr; const Function*fn=nullptr; s64 size=-1; bool code=false; bool local=false; bool heap=false; };
static std::vector<Obj> OBJ(1); // 0 = integers
struct Cell { u32 size; AV v; };
struct ObjState { std::map<s64,Cell> c; std::vector<std::pair<s64,s64>> zero; bool init=true; };
typedef std::map<int,std::shared_ptr<ObjState>> MemMap;
struct Graph; 
struct State { std::shared_ptr<MemMap> mem; std::shared_ptr<std::map<const Value*,AV>> env; std::shared_ptr<std::map<int,bool>> facts; std::shared_ptr<std::set<int>> last; int pc=-1; /* path condition, -1: true */ };
static int pcAnd(int p,int c){ return p<0?c:mkE(E_AND,1,0,0,p,c); }
static int pcNot(int c){ return mkE(E_XOR,1,0,0,c,eConst(1,1)); }
static void conj(int e,std::set<int>&o){ if(e<0) return; if(EX[e].op==E_AND&&EX[e].w==1){ conj(EX[e].a,o); conj(EX[e].b,o); } else o.insert(e); }
static int pcOr(int a,int b){ if(a==b) return a; if(a<0||b<0) return -1; std::set<int> x,y,c,dx,dy; conj(a,x); conj(b,y); for(int e:x) (y.count(e)?c:dx).insert(e); for(int e:y) if(!x.count(e)) dy.insert(e);
  auto mk=[&](std::set<int>&s){ int r=-1; for(int e:s) r=pcAnd(r,e); return r; };
  if(dx.empty()||dy.empty()) return mk(c);
  for(int e:std::vector<int>(dx.begin(),dx.end())) if(dy.size()==1&&*dy.begin()==pcNot(e)&&dx.size()>1){ dx.erase(e); }
  for(int e:std::vector<int>(dy.begin(),dy.end())) if(dx.size()==1&&*dx.begin()==pcNot(e)&&dy.size()>1){ dy.erase(e); }
  if(dx.size()==1&&dy.size()==1&&*dx.begin()==pcNot(*dy.begin())) return mk(c);
  int o=mkE(E_OR,1,0,0,mk(dx),mk(dy)); return pcAnd(mk(c),o); }
static const Module*MOD; static const DataLayout*DL;
static std::unordered_map<const GlobalValue*,int> gobj;
static int objOf(const GlobalValue*g){ auto it=gobj.find(g); if(it!=gobj.end()) return it->second; Obj o; o.name=g->getName().str(); o.gv=dyn_cast<GlobalVariable>(g); o.fn=dyn_cast<Function>(g); if(o.gv) o.size=DL->getTypeAllocSize(o.gv->getValueType()); int id=OBJ.size(); OBJ.push_back(o); gobj[g]=id; return id; }
static std::map<std::pair<int,const Value*>,int> aobj; 

// ---------------------------------------------------------------- job-level results
struct ObsRec { std::string tag; AV v; int order; };
struct Node { std::string kind; std::string tag; std::vector<AV> a; std::string loc; int order; int pc=-1; };
struct Job { std::set<std::string> prune, skip; std::map<std::string,std::string> stub; std::set<std::string> pure; std::map<std::string,bool> assume; };
static std::vector<std::string> symBranches; static std::set<std::string> symSeen;
static Job JOB;
typedef std::tuple<int,const Value*,int,int> SiteKey; // callstring, inst, iterctx, sub
static std::map<SiteKey,int> nodeOf; static std::vector<Node> NODES; static std::set<std::pair<int,int>> EDGES;
static std::map<std::string,long> STAT; static std::set<const Function*> VISITED; static std::set<const BasicBlock*> VBLK;
static std::set<std::string> unkStores, unkCalls, topBranches; static std::set<std::string> diags;
static long steps=0, maxSteps=40000000; static bool outOfBudget=false;

static std::string locOf(const Instruction*I){ std::string s=I->getFunction()->getName().str(); if(auto&d=I->getDebugLoc()){ s+="@"; if(auto*sc=d->getScope()) s+=cast<DIScope>(sc)->getFilename().str().substr(cast<DIScope>(sc)->getFilename().str().find_last_of("/\\")+1); s+=":"+std::to_string(d.getLine()); } return s; }

struct CtxTab { std::map<std::tuple<int,const Value*,int>,int> m; std::vector<std::pair<int,int>> v; } CS; // callstring ids
static int csId(int parent,const Value*call,int it){ auto k=std::make_tuple(parent,call,it); auto f=CS.m.find(k); if(f!=CS.m.end()) return f->second; int id=CS.m.size()+1; CS.m[k]=id; return id; }

static void cowMem(State&s){ if(s.mem.use_count()>1) s.mem=std::make_shared<MemMap>(*s.mem); }
static ObjState&wObj(State&s,int o){ cowMem(s); auto&p=(*s.mem)[o]; if(!p) p=std::make_shared<ObjState>(); else if(p.use_count()>1) p=std::make_shared<ObjState>(*p); return *p; }
static const ObjState*rObj(const State&s,int o){ auto it=s.mem->find(o); return it==s.mem->end()?nullptr:it->second.get(); }

static AV constAV(const Constant*c);
static bool initBytes(const Constant*c,s64 off,s64 size,AV&out); 
static bool initBytes(const Constant*c,s64 off,s64 size,AV&out){
  Type*T=c->getType(); s64 ts=DL->getTypeAllocSize(T);
  if(off<0||off+size>ts) return false;
  if(isa<ConstantAggregateZero>(c)||c->isNullValue()){ out=cst(0,size*8); return true; }
  if(isa<UndefValue>(c)){ out=top(size*8); return true; }
  if(auto*st=dyn_cast<StructType>(T)){ const StructLayout*L=DL->getStructLayout(st); unsigned i=L->getElementContainingOffset(off); s64 eo=L->getElementOffset(i); Constant*el=c->getAggregateElement(i); if(!el) return false; s64 es=DL->getTypeAllocSize(el->getType()); 
    if(off-eo+size<=es) return initBytes(el,off-eo,size,out); 
    if(off-eo>=es){ out=cst(0,size*8); return true; } /*padding*/ }
  else if(auto*at=dyn_cast<ArrayType>(T)){ s64 es=DL->getTypeAllocSize(at->getElementType()); u64 i=off/es; Constant*el=c->getAggregateElement((unsigned)i); if(!el) return false; if(off-(s64)i*es+size<=es) return initBytes(el,off-i*es,size,out); }
  else if(off==0){ AV v=constAV(c); s64 vs=DL->getTypeStoreSize(T); if(vs==size){ if(v.w<size*8&&v.k==V_SET) v.w=size*8; out=v; return true; } u64 x; if(size<vs&&single(v,x)){ out=cst(x,size*8); return true; } return false; }
  else { AV v=constAV(c); u64 x; if(single(v,x)&&off+size<=8){ out=cst(x>>(off*8),size*8); return true; } return false; }
  // composite
  if(size<=8&&size>1){ u64 acc=0; for(s64 i=0;i<size;i++){ AV b; u64 x; if(!initBytes(c,off+i,1,b)||!single(b,x)) return false; acc|=x<<(8*i);} out=cst(acc,size*8); return true; }
  return false;
}
static AV binAV(int op,const AV&a,const AV&b);
static AV constAV(const Constant*c){
  Type*T=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ if(ci->getValue().getActiveBits()<=64){ AV v; v.k=V_SET; v.w=ci->getBitWidth(); v.s.push_back({0,(s64)ci->getValue().getZExtValue(),false}); return v;} return top(ci->getBitWidth()); } return cst(ci->getZExtValue(),ci->getBitWidth()); }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); if(b.getBitWidth()>64) return top(b.getBitWidth()); return cst(b.getZExtValue(),b.getBitWidth()); }
  if(isa<ConstantPointerNull>(c)) return cst(0,64);
  if(auto*f=dyn_cast<GlobalValue>(c)) return ptr(objOf(f),0);
  if(isa<UndefValue>(c)) return top(T->isPointerTy()?64:DL->getTypeSizeInBits(T).getFixedValue());
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); if(cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)){ AV b=constAV(ce->getOperand(0)); if(b.k==V_SET){ for(auto&a:b.s) a.off+=off.getSExtValue(); return b; } } return top(64); }
    if(ce->getOpcode()==Instruction::PtrToInt||ce->getOpcode()==Instruction::IntToPtr||ce->getOpcode()==Instruction::BitCast){ AV b=constAV(ce->getOperand(0)); int w=T->isPointerTy()?64:DL->getTypeSizeInBits(T).getFixedValue(); if(b.w==w) return b; u64 x; if(single(b,x)) return cst(x,w); return top(w); }
    if(ce->getOpcode()==Instruction::Sub||ce->getOpcode()==Instruction::Add) return binAV(ce->getOpcode()==Instruction::Sub?E_SUB:E_ADD,constAV(ce->getOperand(0)),constAV(ce->getOperand(1)));
    if(ce->getOpcode()==Instruction::Trunc){ AV b=constAV(ce->getOperand(0)); u64 x; int w=DL->getTypeSizeInBits(T).getFixedValue(); if(single(b,x)) return cst(x,w); return top(w);} 
  }
  int w = T->isSized()?(T->isPointerTy()?64:DL->getTypeSizeInBits(T).getFixedValue()):64;
  if(c->isNullValue()&&w<=64) return cst(0,w);
  return top(w);
}
static AV castE(int op,const AV&a,int w){
  if(a.w==w) return a;
  if(a.k==V_SET){ bool okk=allInt(a); if(okk&&a.w<=64&&w<=64){ AV v; v.k=V_SET; v.w=w; std::set<Atom> s; for(auto&x:a.s){ u64 t=op==E_SEXT?(u64)sextw(x.off,a.w):(u64)x.off; s.insert({0,(s64)(t&maskw(w)),false}); } v.s.assign(s.begin(),s.end()); if(a.e>=0) v=withE(v,mkE(op,w,0,0,a.e)); return v; } 
    if(okk&&a.s.size()==1&&w>64&&op==E_ZEXT){ AV v=a; v.w=w; return v; }
    if(okk&&a.s.size()==1&&a.w>64&&w<=64&&op==E_TRUNC) return cst(a.s[0].off,w);
    return top(w); }
  if(a.k==V_SYM) return sym(mkE(op,w,0,0,a.e));
  if(a.k==V_NUM&&a.w<=64&&w<=64){ u64 M=maskw(w); if(op==E_ZEXT){ KB k=a.kb; k.z|=M&~maskw(a.w); return num(w,k,a.r);} if(op==E_TRUNC){ KB k{a.kb.z&M,a.kb.o&M}; return num(w,k,a.r.hi<=M?a.r:Range{0,M}); }
    if(op==E_SEXT){ KB k=a.kb; u64 up=M&~maskw(a.w); if(k.z>>(a.w-1)&1){k.z|=up; return num(w,k,a.r);} if(k.o>>(a.w-1)&1) k.o|=up; return num(w,k,{0,M}); } }
  return top(w);
}
static AV binAV0(int op,const AV&a,const AV&b);
static AV binAV(int op,const AV&a,const AV&b){
  AV v=binAV0(op,a,b);
  if(op==E_OR&&v.k==V_NUM&&v.r.lo==0){ // something or-ed with what is not zero (an address, say) is not zero
    auto some=[](const AV&x){ if(x.k==V_NUM) return x.r.lo>=1; if(x.k!=V_SET||x.s.empty()) return false; for(auto&y:x.s) if(!y.obj&&!y.off) return false; return true; };
    if(some(a)||some(b)) v.r.lo=1; }
  return v;
}
static AV binAV0(int op,const AV&a,const AV&b){
  int w=a.w;
  if(a.k==V_BOT||b.k==V_BOT) return AV();
  if(a.k==V_SET&&b.k==V_SET&&w<=64){
    if(a.s.size()*b.s.size()<=1024){
      std::set<Atom> out; bool bad=false;
      for(auto&x:a.s){ for(auto&y:b.s){
        if(!x.obj&&!y.obj){ bool ok; u64 r=foldBin(op,w,x.off,y.off,ok); if(!ok){ bad=true; break;} out.insert({0,(s64)r,false}); }
        else if(op==E_ADD&&(!x.obj||!y.obj)){ Atom p=x.obj?x:y; s64 o=x.obj?y.off:x.off; p.off+=o; if(p.unk) p.off=0; out.insert(p); }
        else if(op==E_SUB&&x.obj&&!y.obj){ Atom p=x; p.off-=y.off; if(p.unk) p.off=0; out.insert(p); }
        else if(op==E_SUB&&x.obj==y.obj&&!x.unk&&!y.unk) out.insert({0,x.off-y.off,false});
        else if(op==E_AND&&x.obj&&!y.obj&&!x.unk){ // alignment masks: objects are assumed maximally aligned
          u64 m=y.off; if((s64)m<0){ out.insert({x.obj,x.off&(s64)m,false}); } else if(m<=0xffff){ out.insert({0,(s64)(x.off&m),false}); } else bad=true; }
        else if(op==E_OR&&x.obj&&!y.obj&&y.off==0) out.insert(x);
        else if(op==E_OR&&y.obj&&!x.obj&&x.off==0) out.insert(y);
        else if(op==E_OR&&x.obj&&!y.obj&&!x.unk&&(u64)y.off<=0xffff){ out.insert({x.obj,x.off|y.off,false}); }
        else { bad=true; break; } } if(bad) break; }
      if(!bad){ AV v; v.k=V_SET; v.w=w; v.s.assign(out.begin(),out.end()); 
        if(v.s.size()>SETCAP){ if(allInt(v)){ KB k;Range r; hull(v,k,r); return num(w,k,r);} return top(w);} if(v.s.size()>1&&(a.e>=0||b.e>=0)&&allInt(v)){ int x=toE(a),y=toE(b); if(x>=0&&y>=0) v=withE(v,mkE(op,w,0,0,x,y)); } return v; }
    }
    // pointer plus many
    if(op==E_ADD){ std::set<int> objs; bool ok=true; for(auto&x:a.s) if(x.obj) objs.insert(x.obj); for(auto&x:b.s) if(x.obj) objs.insert(x.obj); if(objs.size()&&objs.size()<=8){ AV v; v.k=V_SET;v.w=w; for(int o:objs) v.s.push_back({o,0,true}); return v; } }
  }
  // pointer + unknown number -> unknown offset in the same object
  auto ptrUnk=[&](const AV&p)->AV{ std::set<int> objs; for(auto&x:p.s){ if(!x.obj) return top(w); objs.insert(x.obj);} AV v; v.k=V_SET; v.w=w; for(int o:objs) v.s.push_back({o,0,true}); return v; };
  auto enumE=[&](int e,auto&&self,std::set<u64>&o)->bool{ u64 x; if(isC(e,x)){ o.insert(x); return o.size()<=32; } if(EX[e].op==E_SELECT) return self(EX[e].b,self,o)&&self(EX[e].c,self,o); return false; };
  if((op==E_ADD||op==E_SUB)&&(a.k==V_SYM||b.k==V_SYM)&&w==64){ const AV&pp=a.k==V_SYM?b:a; const AV&ss=a.k==V_SYM?a:b; std::set<u64> o; if(pp.k==V_SET&&!allInt(pp)&&enumE(ss.e,enumE,o)){ AV n; n.k=V_SET;n.w=64; for(u64 x:o) n.s.push_back({0,(s64)x,false}); std::sort(n.s.begin(),n.s.end()); return a.k==V_SYM?binAV(op,n,b):binAV(op,a,n); } }
  if((op==E_ADD||op==E_SUB)&&a.k==V_SET&&!allInt(a)&&(b.k==V_NUM||b.k==V_SYM)) return ptrUnk(a);
  if(op==E_ADD&&b.k==V_SET&&!allInt(b)&&(a.k==V_NUM||a.k==V_SYM)) return ptrUnk(b);
  int ea=toE(a),eb=toE(b);
  if(ea>=0&&eb>=0&&(a.k==V_SYM||b.k==V_SYM||a.e>=0||b.e>=0||w>64)) return sym(mkE(op,w,0,0,ea,eb));
  if(w>64) return top(w);
  KB k1,k2;Range r1,r2; if(!hull(a,k1,r1)||!hull(b,k2,r2)) return top(w);
  // evaluate transfer through a throw-away computation
  KB k;Range r{0,maskw(w)}; u64 M=maskw(w); u64 cb; bool isb=single(b,cb);
  switch(op){
    case E_AND: k.z=k1.z|k2.z;k.o=k1.o&k2.o;r.hi=std::min(r1.hi,r2.hi);break;
    case E_OR: k.z=k1.z&k2.z;k.o=k1.o|k2.o;break;
    case E_XOR: k.z=(k1.z&k2.z)|(k1.o&k2.o);k.o=(k1.z&k2.o)|(k1.o&k2.z);break;
    case E_ADD: {k=kbAdd(k1,k2,false,w); unsigned __int128 h=(unsigned __int128)r1.hi+r2.hi; if(h<=M) r={r1.lo+r2.lo,(u64)h};}break;
    case E_SUB: {KB nb{k2.o,k2.z};k=kbAdd(k1,nb,true,w); if(r1.lo>=r2.hi) r={r1.lo-r2.hi,r1.hi-r2.lo};}break;
    case E_SHL: if(isb&&cb<(u64)w){k.z=((k1.z<<cb)|maskw(cb?cb:0)*(cb?1:0))&M;k.o=(k1.o<<cb)&M;if(r1.hi<=(M>>cb)) r={r1.lo<<cb,r1.hi<<cb};}break;
    case E_LSHR: if(isb&&cb<(u64)w){k.z=((k1.z>>cb)|~(M>>cb))&M;k.o=k1.o>>cb;r={r1.lo>>cb,r1.hi>>cb};} else r={0,r1.hi};break;
    case E_UREM: if(isb&&cb) r={0,cb-1}; break;
    case E_UDIV: if(isb&&cb) r={r1.lo/cb,r1.hi/cb}; break;
    case E_MUL: {unsigned __int128 h=(unsigned __int128)r1.hi*r2.hi; if(h<=M) r={r1.lo*r2.lo,(u64)h};}break;
    default:break; }
  return num(w,k,r);
}
static AV cmpAV(int pred,const AV&a,const AV&b){
  if(a.k==V_BOT||b.k==V_BOT) return AV();
  if(a.k==V_SET&&b.k==V_SET&&a.w<=64){
    bool t=false,f=false;
    for(auto&x:a.s) for(auto&y:b.s){
      if(x.obj==y.obj&&!x.unk&&!y.unk){ (foldCmp(pred,a.w,x.off,y.off)?t:f)=true; }
      else if(x.obj==y.obj){ t=f=true; }
      else if(pred==CmpInst::ICMP_EQ) f=true; else if(pred==CmpInst::ICMP_NE) t=true;
      else if(x.obj==0||y.obj==0){ // object address vs integer: objects are above small integers
        int p=pred; bool xo=x.obj!=0; s64 iv=xo?y.off:x.off; if(iv>=0&&iv<0x10000){ u64 A=xo?1ull<<40:iv,B=xo?iv:1ull<<40; (foldCmp(p,64,A,B)?t:f)=true; } else t=f=true; }
      else if((OBJ[x.obj].gv!=nullptr&&OBJ[y.obj].heap)||(OBJ[y.obj].gv!=nullptr&&OBJ[x.obj].heap)){ // the heap lies above the globals
        bool yo=OBJ[y.obj].heap; u64 A=yo?0:1,B=yo?1:0; (foldCmp(pred,64,A,B)?t:f)=true; }
      else t=f=true;
    }
    if(t&&f){ if(a.e>=0||b.e>=0){ int x=toE(a),y=toE(b); if(x>=0&&y>=0) return sym(mkE(E_ICMP,1,pred,0,x,y)); } return num(1,{},{0,1}); } return cst(t,1);
  }
  auto hasPtr=[](const AV&v){ if(v.k!=V_SET) return false; for(auto&x:v.s) if(x.obj) return true; return false; };
  if(hasPtr(a)||hasPtr(b)) return num(1,{},{0,1});
  int ea=toE(a),eb=toE(b); if(ea>=0&&eb>=0&&(a.k==V_SYM||b.k==V_SYM)) return sym(mkE(E_ICMP,1,pred,0,ea,eb));
  KB k1,k2;Range r1,r2; if(a.w<=64&&hull(a,k1,r1)&&hull(b,k2,r2)){
    u64 sgn=1ull<<(a.w-1); int p=pred; if(CmpInst::isSigned((CmpInst::Predicate)p)){ if(r1.hi<sgn&&r2.hi<sgn) p=CmpInst::getUnsignedPredicate((CmpInst::Predicate)p); else if(r1.lo>=sgn&&r2.lo>=sgn) p=CmpInst::getUnsignedPredicate((CmpInst::Predicate)p); else {
        // opposite signs
        if(r1.hi<sgn&&r2.lo>=sgn){ if(p==CmpInst::ICMP_SGT||p==CmpInst::ICMP_SGE) return cst(1,1); return cst(0,1);} if(r1.lo>=sgn&&r2.hi<sgn){ if(p==CmpInst::ICMP_SLT||p==CmpInst::ICMP_SLE) return cst(1,1); return cst(0,1);} } }
    switch(p){ case CmpInst::ICMP_ULT: if(r1.hi<r2.lo) return cst(1,1); if(r1.lo>=r2.hi) return cst(0,1); break;
      case CmpInst::ICMP_ULE: if(r1.hi<=r2.lo) return cst(1,1); if(r1.lo>r2.hi) return cst(0,1); break;
      case CmpInst::ICMP_UGT: if(r1.lo>r2.hi) return cst(1,1); if(r1.hi<=r2.lo) return cst(0,1); break;
      case CmpInst::ICMP_UGE: if(r1.lo>=r2.hi) return cst(1,1); if(r1.hi<r2.lo) return cst(0,1); break;
      case CmpInst::ICMP_EQ: if(r1.hi<r2.lo||r1.lo>r2.hi||((k1.z&k2.o)|(k1.o&k2.z))) return cst(0,1); 
        if(b.k==V_SET&&b.s.size()>1){} break;
      case CmpInst::ICMP_NE: if(r1.hi<r2.lo||r1.lo>r2.hi||((k1.z&k2.o)|(k1.o&k2.z))) return cst(1,1); break; } }
  return num(1,{},{0,1});
}
// ---------------------------------------------------------------- memory access
static void eraseRange(ObjState&o,s64 off,s64 size){
  auto it=o.c.lower_bound(off-32); 
  while(it!=o.c.end()&&it->first<off+size){
    s64 b=it->first,e=b+it->second.size; 
    if(e<=off){ ++it; continue; }
    AV v=it->second.v; it=o.c.erase(it);
    // keep the remaining pieces
    if(b<off&&v.w<=64&&v.w==(e-b)*8){ AV lo=castE(E_TRUNC,v,(off-b)*8); if(!isTop(lo)) o.c[b]={(u32)(off-b),lo}; }
    if(e>off+size&&v.w<=64&&v.w==(e-b)*8){ AV hi=castE(E_TRUNC,binAV(E_LSHR,v,cst((off+size-b)*8,v.w)),(e-off-size)*8); o.c[off+size]={(u32)(e-off-size),hi}; it=o.c.lower_bound(off+size); }
  }
}
static AV readCell(const State&s,int obj,s64 off,s64 size,int depth=0){
  const ObjState*o=rObj(s,obj); int w=size*8;
  if(o){
    auto it=o->c.upper_bound(off); 
    if(it!=o->c.begin()){ auto p=std::prev(it); s64 b=p->first,e=b+p->second.size; if(off>=b&&off<e){ // begins inside p
        if(b==off&&e==off+size) return p->second.v;
        if(off+size<=e){ const AV&v=p->second.v; if(v.w>64||v.w!=(e-b)*8) return top(w); AV t=off==b?v:binAV(E_LSHR,v,cst((off-b)*8,v.w)); return castE(E_TRUNC,t,w); }
        goto compose; } }
    if(it!=o->c.end()&&it->first<off+size) goto compose;
    for(auto&z:o->zero) if(z.first<=off&&off+size<=z.second) { if(w<=64) return cst(0,w); AV v; v.k=V_SET;v.w=w;v.s.push_back({0,0,false}); return v; }
    // composite over zero + init not handled: byte compose if partially zero
    for(auto&z:o->zero) if(z.first<off+size&&off<z.second) goto compose;
    if(!o->init) return top(w);
  }
  if(OBJ[obj].gv&&OBJ[obj].gv->hasInitializer()){ AV v; if(initBytes(OBJ[obj].gv->getInitializer(),off,size,v)) return v; }
  return top(w);
compose:
  if(size==1||size>8||depth) { if(size==1||size>8) return top(w); }
  { // gather byte-wise maximal pieces
    AV acc=cst(0,w); s64 at=off; 
    while(at<off+size){
      // piece: largest sub-range starting at `at` that is inside one cell or in no cell
      s64 n=1; auto it=o->c.upper_bound(at); bool inCell=false; s64 ce=0; if(it!=o->c.begin()){ auto p=std::prev(it); if(at<p->first+(s64)p->second.size){ inCell=true; ce=p->first+p->second.size; } }
      if(inCell) n=std::min(ce,off+size)-at; else { n=1; }
      AV piece=readCell(s,obj,at,n,1);
      acc=binAV(E_OR,acc,binAV(E_SHL,castE(E_ZEXT,piece,w),cst((at-off)*8,w)));
      at+=n;
    }
    return acc; }
}
static int NODE(int cs,const Instruction*I,int it,int sub,const std::string&kind,const std::string&tag,std::vector<AV> a,State&s){
  SiteKey k(cs,I,it,sub); auto f=nodeOf.find(k); int id;
  if(f==nodeOf.end()){ id=NODES.size(); nodeOf[k]=id; NODES.push_back({kind,tag,a,locOf(I),id,s.pc}); }
  else { id=f->second; NODES[id].pc=pcOr(NODES[id].pc,s.pc); for(size_t i=0;i<a.size()&&i<NODES[id].a.size();i++) NODES[id].a[i]=join(NODES[id].a[i],a[i]); }
  for(int l:*s.last) EDGES.insert({l,id}); s.last=std::make_shared<std::set<int>>(); s.last->insert(id); return id;
}
static int SNODE(int cs,const Instruction*I,int it,int sub,const std::string&kind,const std::string&tag,std::vector<AV> a,State&s){ // side node, terminal
  SiteKey k(cs,I,it,sub); auto f=nodeOf.find(k); int id;
  if(f==nodeOf.end()){ id=NODES.size(); nodeOf[k]=id; NODES.push_back({kind,tag,a,locOf(I),id,s.pc}); } else { id=f->second; NODES[id].pc=pcOr(NODES[id].pc,s.pc); for(size_t i=0;i<a.size()&&i<NODES[id].a.size();i++) NODES[id].a[i]=join(NODES[id].a[i],a[i]); }
  for(int l:*s.last) EDGES.insert({l,id}); return id; }
static void storeAt(State&s,const AV&p,const AV&v0,s64 size,int cs,const Instruction*I,int it){
  AV v=v0; if(v.w<size*8) { v=castE(E_ZEXT,v,size*8); }
  if(p.k!=V_SET){ STAT["unknown_stores"]++; unkStores.insert(locOf(I)); return; }
  int sub=0;
  for(auto&a:p.s){
    if(a.obj==0){ continue; }
    if(OBJ[a.obj].fn) continue;
    if(OBJ[a.obj].code){ std::vector<AV> args{v,cst(size,32)}; AV po; po.k=V_SET;po.w=64;po.s.push_back(a); args.push_back(po); NODE(cs,I,it,sub++,"code","",args,s); }
    ObjState&o=wObj(s,a.obj);
    if(a.unk){ o.c.clear(); o.zero.clear(); o.init=false; continue; }
    if(p.s.size()==1){ eraseRange(o,a.off,size); o.c[a.off]={(u32)size,v}; }
    else { AV old=readCell(s,a.obj,a.off,size); AV j=join(old,v); ObjState&o2=wObj(s,a.obj); eraseRange(o2,a.off,size); o2.c[a.off]={(u32)size,j}; }
  }
}
static AV loadAt(const State&s,const AV&p,s64 size,const Instruction*I){
  int w=size*8; if(p.k!=V_SET){ STAT["unknown_loads"]++; return top(w); }
  AV r; int n=0; for(auto&a:p.s){ if(a.obj==0){ continue; /* null dereference: no value */ } n++; if(a.unk||OBJ[a.obj].fn){ 
      // unknown offset into a constant table: join of all aligned elements
      if(a.unk&&OBJ[a.obj].gv&&OBJ[a.obj].gv->isConstant()&&OBJ[a.obj].size<=2048&&OBJ[a.obj].size%size==0){ for(s64 o=0;o<OBJ[a.obj].size;o+=size) r=join(r,readCell(s,a.obj,o,size)); continue; }
      return top(w);} r=join(r,readCell(s,a.obj,a.off,size)); }
  if(!n) return top(w); return r;
}
static void copyMem(State&s,const AV&d,const AV&q,s64 n,int cs,const Instruction*I,int it){
  if(d.k!=V_SET){ STAT["unknown_stores"]++; unkStores.insert(locOf(I)); return; }
  if(n<=0) return;
  if(d.s.size()==1&&q.k==V_SET&&q.s.size()==1&&!d.s[0].unk&&!q.s[0].unk&&d.s[0].obj&&q.s[0].obj&&!OBJ[d.s[0].obj].code){
    int so=q.s[0].obj; s64 sb=q.s[0].off; int dobj=d.s[0].obj; s64 db=d.s[0].off;
    // source cells
    std::vector<std::pair<s64,Cell>> cells; std::vector<std::pair<s64,s64>> zr; const ObjState*o=rObj(s,so); bool useInit=(!o||o->init)&&OBJ[so].gv&&OBJ[so].gv->hasInitializer();
    if(o){ auto it2=o->c.lower_bound(sb-32); for(;it2!=o->c.end()&&it2->first<sb+n;++it2){ s64 b=it2->first,e=b+it2->second.size; if(e<=sb) continue; s64 lo=std::max(b,sb),hi=std::min(e,sb+n); if(lo==b&&hi==e) cells.push_back({b-sb,it2->second}); else { AV v=readCell(s,so,lo,hi-lo); cells.push_back({lo-sb,{(u32)(hi-lo),v}}); } }
      for(auto&z:o->zero){ s64 lo=std::max(z.first,sb),hi=std::min(z.second,sb+n); if(lo<hi) zr.push_back({lo-sb,hi-sb}); } }
    if(useInit&&n<=4096){ // materialise initializer in the gaps, 8/4/1-byte granularity at aligned offsets
      s64 at=0; while(at<n){ bool cov=false; for(auto&c:cells) if(at>=c.first&&at<c.first+(s64)c.second.size){ at=c.first+c.second.size; cov=true; break; } if(cov) continue; for(auto&z:zr) if(at>=z.first&&at<z.second){ at=z.second; cov=true; break;} if(cov) continue;
        bool done=false; for(s64 g:{8,4,2,1}){ if(at+g>n||(sb+at)%g) continue; bool ov=false; for(auto&c:cells) if(c.first<at+g&&at<c.first+(s64)c.second.size) ov=true; if(ov) continue; AV v; if(initBytes(OBJ[so].gv->getInitializer(),sb+at,g,v)){ cells.push_back({at,{(u32)g,v}}); at+=g; done=true; break; } } if(!done) at+=1; } }
    ObjState&w=wObj(s,dobj); eraseRange(w,db,n);
    // remove zero ranges overlapped
    std::vector<std::pair<s64,s64>> nz; for(auto&z:w.zero){ if(z.second<=db||z.first>=db+n) nz.push_back(z); else { if(z.first<db) nz.push_back({z.first,db}); if(z.second>db+n) nz.push_back({db+n,z.second}); } } w.zero=nz;
    if(OBJ[dobj].gv&&w.init){ /* initializer bytes under the destination would show through unset gaps: mark unknown */ bool full=false; s64 cov=0; for(auto&c:cells) cov+=c.second.size; for(auto&z:zr) cov+=z.second-z.first; full=cov>=n; if(!full) { for(s64 b=0;b<n;b++){ bool in=false; for(auto&c:cells) if(b>=c.first&&b<c.first+(s64)c.second.size) in=true; if(!in) w.c[db+b]={1,top(8)}; } } }
    for(auto&c:cells) w.c[db+c.first]=c.second; for(auto&z:zr) w.zero.push_back({db+z.first,db+z.second});
    return; }
  if(n<=8||n==16){ if(n==16){ AV d2=binAV(E_ADD,d,cst(8,64)),q2=binAV(E_ADD,q,cst(8,64)); AV v1=loadAt(s,q,8,I),v2=loadAt(s,q2,8,I); storeAt(s,d,v1,8,cs,I,it); storeAt(s,d2,v2,8,cs,I,it); } else { AV v=loadAt(s,q,n,I); storeAt(s,d,v,n,cs,I,it);} return; }
  // weak / large: piecewise by 8
  if(n<=512){ s64 at=0; while(at<n){ s64 g=std::min<s64>(8,n-at); if(g!=8&&g!=4&&g!=2) g=1; AV v=loadAt(s,binAV(E_ADD,q,cst(at,64)),g,I); storeAt(s,binAV(E_ADD,d,cst(at,64)),v,g,cs,I,it); at+=g; } return; }
  for(auto&a:d.s) if(a.obj){ ObjState&o=wObj(s,a.obj); if(a.unk){ o.c.clear();o.zero.clear();o.init=false; } else { eraseRange(o,a.off,n); o.zero.clear(); o.init=false; } }
}
static void setMem(State&s,const AV&d,const AV&v,const AV&nv,int cs,const Instruction*I,int it){
  u64 n,x; if(d.k!=V_SET){ STAT["unknown_stores"]++; unkStores.insert(locOf(I)); return; }
  if(!single(nv,n)){ for(auto&a:d.s) if(a.obj&&!OBJ[a.obj].fn){ if(nv.k==V_SET){ /* several sizes: clobber up to the largest */ s64 mx=0; for(auto&t:nv.s) mx=std::max(mx,t.off); if(!a.unk){ ObjState&o=wObj(s,a.obj); 
          u64 z0; bool isz=single(v,z0)&&z0==0; 
          if(!isz){ eraseRange(o,a.off,mx); std::vector<std::pair<s64,s64>> nz; for(auto&z:o.zero){ if(z.second<=a.off||z.first>=a.off+mx) nz.push_back(z); else { if(z.first<a.off) nz.push_back({z.first,a.off}); if(z.second>a.off+mx) nz.push_back({a.off+mx,z.second}); } } o.zero=nz; }
          else { // zeroing: cells in range become join(old,0)
            for(auto&c:o.c) if(c.first>=a.off&&c.first<a.off+mx) c.second.v=join(c.second.v,cst(0,c.second.v.w)); }
          continue; } } ObjState&o=wObj(s,a.obj); o.c.clear(); o.zero.clear(); o.init=false; } return; }
  if(n==0) return; 
  for(auto&a:d.s) if(a.obj&&!OBJ[a.obj].fn){ 
    if(OBJ[a.obj].code) STAT["code_memset"]++;
    if(a.unk||d.s.size()>1){ ObjState&o=wObj(s,a.obj); if(a.unk){ o.c.clear(); o.zero.clear(); o.init=false; } else { for(auto&c:o.c) if(c.first>=a.off&&c.first<a.off+(s64)n) c.second.v=join(c.second.v,top(c.second.v.w)); } continue; }
    ObjState&o=wObj(s,a.obj); eraseRange(o,a.off,n);
    std::vector<std::pair<s64,s64>> nz; for(auto&z:o.zero){ if(z.second<=a.off||z.first>=a.off+(s64)n) nz.push_back(z); else { if(z.first<a.off) nz.push_back({z.first,a.off}); if(z.second>a.off+(s64)n) nz.push_back({a.off+(s64)n,z.second}); } } o.zero=nz;
    if(single(v,x)&&(x&0xff)==0){ // merge adjacent
      s64 lo=a.off,hi=a.off+n; std::vector<std::pair<s64,s64>> m; for(auto&z:o.zero){ if(z.second==lo) lo=z.first; else if(z.first==hi) hi=z.second; else m.push_back(z);} m.push_back({lo,hi}); o.zero=m; }
    else if(single(v,x)&&n<=4096){ for(u64 i=0;i<n;i++) o.c[a.off+i]={1,cst(x,8)}; }
    else { if(OBJ[a.obj].gv) for(u64 i=0;i<n&&i<65536;i++) o.c[a.off+i]={1,top(8)}; }
  }
}
// ---------------------------------------------------------------- state join
static std::shared_ptr<ObjState> joinObj(const std::shared_ptr<ObjState>&A,const std::shared_ptr<ObjState>&B,int obj,const State&sa,const State&sb,bool widen){
  auto R=std::make_shared<ObjState>(); R->init=A->init&&B->init;
  // zero ranges: intersection
  for(auto&x:A->zero) for(auto&y:B->zero){ s64 lo=std::max(x.first,y.first),hi=std::min(x.second,y.second); if(lo<hi) R->zero.push_back({lo,hi}); }
  auto add=[&](const std::map<s64,Cell>&C){ for(auto&kv:C){ s64 off=kv.first; u32 sz=kv.second.size; auto f=R->c.find(off); if(f!=R->c.end()&&f->second.size==sz) continue;
      // overlapping cell of another shape already placed?
      bool ov=false; auto it=R->c.lower_bound(off-32); for(;it!=R->c.end()&&it->first<off+(s64)sz;++it) if(it->first+(s64)it->second.size>off) ov=true; if(ov) continue;
      AV a=readCell(sa,obj,off,sz),b=readCell(sb,obj,off,sz); AV j=(widen&&!(a==b))?top(a.w):join(a,b);
      R->c[off]={sz,j}; } };
  add(A->c); add(B->c);
  return R;
}
static bool sameObj(const ObjState&a,const ObjState&b){ if(a.init!=b.init||a.zero!=b.zero||a.c.size()!=b.c.size()) return false; auto i=a.c.begin(),j=b.c.begin(); for(;i!=a.c.end();++i,++j) if(i->first!=j->first||i->second.size!=j->second.size||!(i->second.v==j->second.v)) return false; return true; }
static std::map<int,bool> HASQ; static bool hasQ(int e){ if(e<0) return false; auto f=HASQ.find(e); if(f!=HASQ.end()) return f->second; bool r=false; if(EX[e].op==E_LEAF) r=leafNames[EX[e].imm][0]=='?'; else if(EX[e].op!=E_CONST) r=hasQ(EX[e].a)||hasQ(EX[e].b)||hasQ(EX[e].c); return HASQ[e]=r; }
static bool disjoint(int p,int q,int d=0){ if(p<0||q<0||d>6) return false; 
  if(EX[p].op==E_OR&&EX[p].w==1) return disjoint(EX[p].a,q,d+1)&&disjoint(EX[p].b,q,d+1);
  if(EX[q].op==E_OR&&EX[q].w==1) return disjoint(p,EX[q].a,d+1)&&disjoint(p,EX[q].b,d+1);
  std::set<int> x,y; conj(p,x); conj(q,y); for(int e:x) if(!hasQ(e)&&y.count(pcNot(e))) return true;
  for(int e:x) if(EX[e].op==E_OR&&x.size()>1&&disjoint(e,q,d+1)) return true; for(int e:y) if(EX[e].op==E_OR&&y.size()>1&&disjoint(p,e,d+1)) return true;
  return false; }
static int gateOf(const State&A,const State&B){
  if(A.facts!=B.facts) for(auto&kv:*B.facts){ auto f=A.facts->find(kv.first); if(f!=A.facts->end()&&f->second!=kv.second) return kv.second?kv.first:pcNot(kv.first); }
  if(B.pc>=0&&A.pc>=0&&!hasQ(B.pc)&&EXSIZE(B.pc)<200&&disjoint(A.pc,B.pc)) return B.pc;
  return -1; }
// returns true if A changed
static bool joinInto(State&A,const State&B,bool widen,bool gated=false){
  bool ch=false; GATE=gated&&!widen?gateOf(A,B):-1; struct Z{~Z(){GATE=-1;}} z;
  { int p=pcOr(A.pc,B.pc); if(p>=0&&EXSIZE(p)>400) p=-1; if(p!=A.pc){ A.pc=p; } }
  if(A.mem!=B.mem){
    auto R=std::make_shared<MemMap>(); static std::shared_ptr<ObjState> empty=std::make_shared<ObjState>();
    auto i=A.mem->begin(); auto j=B.mem->begin();
    while(i!=A.mem->end()||j!=B.mem->end()){
      int o; std::shared_ptr<ObjState> a,b; 
      if(j==B.mem->end()||(i!=A.mem->end()&&i->first<j->first)){ o=i->first;a=i->second;++i; if(OBJ[o].local){ (*R)[o]=a; continue; } }
      else if(i==A.mem->end()||j->first<i->first){ o=j->first;b=j->second;++j; if(OBJ[o].local){ (*R)[o]=b; ch=true; continue; } }
      else { o=i->first;a=i->second;b=j->second;++i;++j; }
      if(a==b){ (*R)[o]=a; continue; }
      if(!a) a=empty; if(!b) b=empty;
      if(sameObj(*a,*b)){ (*R)[o]=a; continue; }
      auto r=joinObj(a,b,o,A,B,widen); if(!sameObj(*r,*a)) ch=true; else r=a; (*R)[o]=r;
    }
    if(ch) A.mem=R;
  }
  if(A.env!=B.env){ auto R=std::make_shared<std::map<const Value*,AV>>(*A.env); bool c2=false; for(auto&kv:*B.env){ auto f=R->find(kv.first); if(f==R->end()){ (*R)[kv.first]=kv.second; c2=true; } else { AV j=(widen&&!(f->second==kv.second))?top(f->second.w):join(f->second,kv.second); if(!(j==f->second)){ f->second=j; c2=true; } } } if(c2){ A.env=R; ch=true; } }
  if(A.facts!=B.facts){ std::map<int,bool> r; for(auto&kv:*A.facts){ auto f=B.facts->find(kv.first); if(f!=B.facts->end()&&f->second==kv.second) r.insert(kv);} if(r.size()!=A.facts->size()){ A.facts=std::make_shared<std::map<int,bool>>(r); ch=true; } }
  if(A.last!=B.last){ auto r=std::make_shared<std::set<int>>(*A.last); r->insert(B.last->begin(),B.last->end()); if(r->size()!=A.last->size()){ A.last=r; ch=true; } }
  return ch;
}
// ---------------------------------------------------------------- per function info
struct FInfo { DominatorTree DT; LoopInfo LI; std::unordered_map<const BasicBlock*,std::vector<int>> pos; std::unordered_map<const BasicBlock*,std::vector<const Loop*>> loops; std::set<const Value*> cross; };
static std::unordered_map<const Function*,std::unique_ptr<FInfo>> FI;
static void layout(FInfo&F,const Function&Fn,const Loop*L,std::vector<int> prefix){
  std::vector<const BasicBlock*> blocks; if(L) blocks.assign(L->block_begin(),L->block_end()); else for(auto&b:Fn) blocks.push_back(&b);
  // representative of block in this region: direct block or child loop header
  auto rep=[&](const BasicBlock*b)->const BasicBlock*{ const Loop*l=F.LI.getLoopFor(b); if(l==L) return b; while(l&&l->getParentLoop()!=L) l=l->getParentLoop(); return l?l->getHeader():nullptr; };
  std::set<const BasicBlock*> in(blocks.begin(),blocks.end());
  std::map<const BasicBlock*,std::vector<const BasicBlock*>> succ; 
  for(auto*b:blocks){ auto*r=rep(b); if(!r) continue; auto&v=succ[r]; for(auto*s:successors(b)){ if(!in.count(s)) continue; if(L&&s==L->getHeader()) continue; auto*q=rep(s); if(q&&q!=r) v.push_back(q); } }
  const BasicBlock*entry=L?L->getHeader():&Fn.getEntryBlock(); std::vector<const BasicBlock*> po; std::set<const BasicBlock*> seen; 
  std::vector<std::pair<const BasicBlock*,size_t>> st; auto*e=rep(entry); st.push_back({e,0}); seen.insert(e);
  while(!st.empty()){ auto&t=st.back(); auto&v=succ[t.first]; if(t.second<v.size()){ auto*n=v[t.second++]; if(seen.insert(n).second) st.push_back({n,0}); } else { po.push_back(t.first); st.pop_back(); } }
  int n=0; for(auto it=po.rbegin();it!=po.rend();++it){ auto*b=*it; const Loop*l=F.LI.getLoopFor(b); std::vector<int> p=prefix; p.push_back(n++); if(l==L){ F.pos[b]=p; } else { const Loop*c=l; while(c->getParentLoop()!=L) c=c->getParentLoop(); layout(F,Fn,c,p); } }
}
static FInfo&finfo(const Function*f){ auto&p=FI[f]; if(!p){ p=std::make_unique<FInfo>(); Function&F=*const_cast<Function*>(f); p->DT.recalculate(F); p->LI.analyze(p->DT); layout(*p,F,nullptr,{}); for(auto&b:F){ std::vector<const Loop*> ls; for(const Loop*l=p->LI.getLoopFor(&b);l;l=l->getParentLoop()) ls.push_back(l); std::reverse(ls.begin(),ls.end()); p->loops[&b]=ls; for(auto&i:b) for(auto*u:i.users()){ auto*ui=dyn_cast<Instruction>(u); if(ui&&(ui->getParent()!=&b||isa<PHINode>(ui))) p->cross.insert(&i); } } } return *p; }

// ---------------------------------------------------------------- the interpreter
struct Frame { const Function*F; int cs; std::vector<AV> args; int depth; };
static std::vector<const Function*> STACK;
static bool callFn(const Function*F,const std::vector<AV>&args,State in,int cs,State&out,AV&ret);
static int widthOf(Type*T){ if(T->isPointerTy()) return 64; if(T->isVoidTy()) return 0; return DL->getTypeSizeInBits(T).getFixedValue(); }
static std::map<std::vector<int>,int> ICTX; static int ictx(const std::vector<int>&v){ auto it=ICTX.find(v); if(it!=ICTX.end()) return it->second; int id=ICTX.size(); ICTX[v]=id; return id; }

struct Activation {
  Frame fr; FInfo*fi;
  typedef std::pair<const BasicBlock*,std::vector<int>> Key;
  struct Cmp { Activation*A; bool operator()(const Key&a,const Key&b)const{
      auto&pa=A->fi->pos[a.first]; auto&pb=A->fi->pos[b.first];
      // interleave: position of the component, then iteration
      size_t n=std::min(pa.size(),pb.size()); for(size_t i=0;i<n;i++){ if(pa[i]!=pb[i]) return pa[i]<pb[i]; bool la=i<a.second.size()&&i+1<pa.size(), lb=i<b.second.size()&&i+1<pb.size(); if(la&&lb&&a.second[i]!=b.second[i]) return a.second[i]<b.second[i]; }
      if(pa.size()!=pb.size()) return pa.size()<pb.size(); return a.first<b.first; } };
  std::map<Key,State> in; std::map<Key,int> visits; std::set<Key,Cmp> work;
  std::map<std::pair<const Loop*,std::vector<int>>,int> undecided;
  bool hasOut=false; State out; AV ret; 
  Activation(Frame f):fr(f),fi(&finfo(f.F)),work(Cmp{this}){}
  static const int UNDECIDED_LIMIT=3; int MAXIT=getenv("HLCSA_MAXIT")?atoi(getenv("HLCSA_MAXIT")):20000;

  AV val(const State&s,const Value*v){
    if(auto*c=dyn_cast<Constant>(v)) return constAV(c);
    if(auto*a=dyn_cast<Argument>(v)){ if(a->getArgNo()<fr.args.size()) return fr.args[a->getArgNo()]; return top(widthOf(a->getType())); }
    auto l=local.find(v); if(l!=local.end()) return l->second;
    auto it=s.env->find(v); if(it!=s.env->end()) return it->second; return top(widthOf(v->getType()));
  }
  std::unordered_map<const Value*,AV> local; 
  void setv(State&s,const Instruction*i,const AV&v){ local[i]=v; if(fi->cross.count(i)){ if(s.env.use_count()>1) s.env=std::make_shared<std::map<const Value*,AV>>(*s.env); (*s.env)[i]=v; } }
  std::vector<int> nextCtx(const BasicBlock*from,const std::vector<int>&ctx,const BasicBlock*to,bool&back,const Loop*&bl){
    back=false; bl=nullptr; auto&lf=fi->loops[from]; auto&lt=fi->loops[to]; std::vector<int> r; 
    for(size_t i=0;i<lt.size();i++){ bool shared=i<lf.size()&&lf[i]==lt[i]; if(shared){ int it=ctx[i]; if(to==lt[i]->getHeader()&&i+1==lt.size()){ back=true; bl=lt[i]; it++; } r.push_back(it); } else r.push_back(0); }
    return r; }
  void flow(const BasicBlock*from,const std::vector<int>&ctx,const BasicBlock*to,State s){
    // phis
    bool back;const Loop*bl; std::vector<int> c=nextCtx(from,ctx,to,back,bl);
    std::vector<std::pair<const PHINode*,AV>> ph; for(auto&i:*to){ auto*p=dyn_cast<PHINode>(&i); if(!p) break; ph.push_back({p,val(s,p->getIncomingValueForBlock(from))}); }
    if(!ph.empty()){ s.env=std::make_shared<std::map<const Value*,AV>>(*s.env); for(auto&x:ph) (*s.env)[x.first]=x.second; }
    bool widen=false;
    if(back){ std::vector<int> outer(c.begin(),c.end()-1); int u=undecided[{bl,outer}]; 
      if(c.back()>MAXIT){ outOfBudget=true; diags.insert("loop iteration cap in "+from->getParent()->getName().str()); return; }
      // subsumption by the previous iteration's header state
      Key pk(to,ctxWith(c,c.back()-1)); auto f=in.find(pk);
      if(u>0&&f!=in.end()){ State t=f->second; if(!joinInto(t,s,false)) return; }
      if(u>=UNDECIDED_LIMIT){ // collapse onto the previous iteration key, with widening
        c.back()=c.back()-1; widen=true; } }
    Key k(to,c); auto f=in.find(k); 
    if(f==in.end()){ in[k]=s; work.insert(k); }
    else { int&v=visits[k]; v++; if(joinInto(f->second,s,widen&&v>3,!fi->LI.isLoopHeader(to))) work.insert(k); }
  }
  std::vector<int> ctxWith(std::vector<int> c,int last){ c.back()=last; return c; }
  void run(State s0){
    s0.env=std::make_shared<std::map<const Value*,AV>>(); Key k(&fr.F->getEntryBlock(),{}); 
    // entry might itself be in no loop
    in[k]=s0; work.insert(k);
    while(!work.empty()&&!outOfBudget){ Key b=*work.begin(); work.erase(work.begin()); block(b); }
  }
  AV evalFact(State&s,AV c){ if(c.k==V_SET&&c.s.size()>1&&c.e>=0) c=sym(c.e); if(c.k==V_SYM){ auto f=s.facts->find(c.e); if(f!=s.facts->end()) return cst(f->second,1); 
      // complement
      int ne=mkE(E_XOR,1,0,0,c.e,eConst(1,1)); f=s.facts->find(ne); if(f!=s.facts->end()) return cst(!f->second,1);
      // range facts on icmp x, const
      Expr x=EX[c.e]; u64 cv; if(x.op==E_ICMP&&EX[x.a].w<=64&&isC(x.b,cv)){ Range r=ERG[x.a]; bool any=false; u64 M=maskw(EX[x.a].w); u64 sgn=1ull<<(EX[x.a].w-1);
          std::set<u64> ne2; 
          for(auto&kv:*s.facts){ Expr y=EX[kv.first]; u64 yv; if(y.op!=E_ICMP||y.a!=x.a||!isC(y.b,yv)) continue; int p=y.aux; if(!kv.second) p=CmpInst::getInversePredicate((CmpInst::Predicate)p);
            if(CmpInst::isSigned((CmpInst::Predicate)p)){ if(p==CmpInst::ICMP_SGE&&yv==0){ r.hi=std::min(r.hi,sgn-1); any=true; } else if(p==CmpInst::ICMP_SGT&&(yv==M)){ r.hi=std::min(r.hi,sgn-1); any=true; } else if(p==CmpInst::ICMP_SLT&&yv==0){ r.lo=std::max(r.lo,sgn); any=true; } else if((p==CmpInst::ICMP_SLE||p==CmpInst::ICMP_SLT)&&r.hi<sgn&&yv<sgn){ r.hi=std::min(r.hi,p==CmpInst::ICMP_SLE?yv:yv-1); any=true; } else if((p==CmpInst::ICMP_SGE||p==CmpInst::ICMP_SGT)&&yv<sgn){ r.lo=std::max(r.lo,p==CmpInst::ICMP_SGE?yv:yv+1); r.hi=std::min(r.hi,sgn-1); any=true; } continue; }
            switch(p){ case CmpInst::ICMP_EQ: r={yv,yv}; any=true; break; case CmpInst::ICMP_ULT: if(yv){r.hi=std::min(r.hi,yv-1);any=true;} break; case CmpInst::ICMP_ULE: r.hi=std::min(r.hi,yv);any=true;break; case CmpInst::ICMP_UGT: r.lo=std::max(r.lo,yv+1);any=true;break; case CmpInst::ICMP_UGE: r.lo=std::max(r.lo,yv);any=true;break; case CmpInst::ICMP_NE: ne2.insert(yv); any=true; break; } }
          while(ne2.count(r.lo)&&r.lo<r.hi) r.lo++; while(ne2.count(r.hi)&&r.hi>r.lo) r.hi--;
          if(any&&r.lo<=r.hi){ AV t=num(EX[x.a].w,{},r); AV q=cmpAV(x.aux,t,cst(cv,EX[x.a].w)); u64 z; if(single(q,z)) return q; 
            if(x.aux==CmpInst::ICMP_EQ&&ne2.count(cv)) return cst(0,1); if(x.aux==CmpInst::ICMP_NE&&ne2.count(cv)) return cst(1,1); } }
    } return c; }
  // condition refinement of memory: `load p` compared with constants
  void refine(State&s,const Value*cond,bool truth){
    auto*ic=dyn_cast<ICmpInst>(cond); if(!ic) { return; }
    for(int side=0;side<2;side++){
      const Value*l=ic->getOperand(side),*r=ic->getOperand(1-side); 
      // look through zext/sext/trunc-free loads only
      auto*ld=dyn_cast<LoadInst>(l); if(!ld||ld->getParent()!=ic->getParent()) continue; 
      AV p=val(s,ld->getPointerOperand()); if(p.k!=V_SET||p.s.size()!=1||p.s[0].unk||!p.s[0].obj) continue;
      s64 sz=DL->getTypeStoreSize(ld->getType()); AV cur=readCell(s,p.s[0].obj,p.s[0].off,sz); AV lv=val(s,ld); if(!(cur==lv)) continue; AV rv=val(s,r); 
      int pred=side==0?ic->getPredicate():ic->getSwappedPredicate(); if(!truth) pred=CmpInst::getInversePredicate((CmpInst::Predicate)pred);
      AV nv=refineVal(cur,pred,rv); if(nv.k!=V_BOT&&!(nv==cur)){ ObjState&o=wObj(s,p.s[0].obj); eraseRange(o,p.s[0].off,sz); o.c[p.s[0].off]={(u32)sz,nv}; }
    } }
  AV refineVal(const AV&cur,int pred,const AV&rv){
    if(cur.k==V_SET&&rv.k==V_SET){ AV n; n.k=V_SET;n.w=cur.w; for(auto&x:cur.s){ AV one; one.k=V_SET;one.w=cur.w;one.s.push_back(x); AV c=cmpAV(pred,one,rv); u64 z; if(single(c,z)&&z==0) continue; n.s.push_back(x);} if(n.s.empty()) return AV(); if(n.s.size()>1) n.e=cur.e; return n; }
    u64 c; if(cur.k==V_NUM&&single(rv,c)&&cur.w<=64){ if(pred==CmpInst::ICMP_EQ) return cst(c,cur.w); Range r=cur.r; u64 sgn=1ull<<(cur.w-1); int p=pred; if(CmpInst::isSigned((CmpInst::Predicate)p)){ if(cur.r.hi<sgn&&c<sgn) p=CmpInst::getUnsignedPredicate((CmpInst::Predicate)p); else return cur; }
      switch(p){ case CmpInst::ICMP_ULT: if(c) r.hi=std::min(r.hi,c-1); break; case CmpInst::ICMP_ULE: r.hi=std::min(r.hi,c); break; case CmpInst::ICMP_UGT: r.lo=std::max(r.lo,c+1);break; case CmpInst::ICMP_UGE: r.lo=std::max(r.lo,c);break; case CmpInst::ICMP_NE: if(r.lo==c&&r.lo<r.hi) r.lo++; else if(r.hi==c&&r.lo<r.hi) r.hi--; break; default: return cur; } if(r.lo>r.hi) return AV(); return num(cur.w,cur.kb,r); }
    if(cur.k==V_NUM&&rv.k==V_SET&&pred==CmpInst::ICMP_EQ&&rv.s.size()==1) return rv;
    return cur; }
  void block(const Key&k){
    const BasicBlock*B=k.first; State s=in[k]; local.clear(); VBLK.insert(B); int it=ictx(k.second);
    for(auto&I:*B){
      if(isa<PHINode>(I)) continue; if(++steps>maxSteps){ outOfBudget=true; diags.insert("step budget"); return; }
      if(I.isTerminator()){ term(k,&I,s); return; }
      if(!inst(&I,s,it)) return; // path ends
    }
  }
  void markLoops(const Key&k,const std::vector<const BasicBlock*>&feas){ auto&ls=fi->loops[k.first]; for(size_t i=0;i<ls.size();i++){ bool stay=false,leave=false; for(auto*f:feas) (ls[i]->contains(f)?stay:leave)=true; if(stay&&leave){ std::vector<int> outer(k.second.begin(),k.second.begin()+i); undecided[{ls[i],outer}]++; } } 
    // loops that never exit but branch undecidedly inside are caught by MAXIT
  }
  void term(const Key&k,const Instruction*I,State&s){
    const BasicBlock*B=k.first;
    if(auto*br=dyn_cast<BranchInst>(I)){
      if(br->isUnconditional()){ flow(B,k.second,br->getSuccessor(0),s); return; }
      AV c=evalFact(s,val(s,br->getCondition())); u64 x; 
      if(single(c,x)){ flow(B,k.second,br->getSuccessor(x?0:1),s); return; }
      if(c.k==V_BOT) return;
      if(c.k==V_SYM){ std::string t; { raw_string_ostream os(t); os<<eJson(c.e); os.flush(); } auto f=JOB.assume.find(t); if(f!=JOB.assume.end()){ State n=s; n.facts=std::make_shared<std::map<int,bool>>(*s.facts); (*n.facts)[c.e]=f->second; n.pc=pcAnd(n.pc,f->second?c.e:pcNot(c.e)); refine(n,br->getCondition(),f->second); flow(B,k.second,br->getSuccessor(f->second?0:1),n); return; } if(t.size()<20000&&symSeen.insert(t).second) symBranches.push_back(t); }
      STAT["undecided_branches"]++;
      markLoops(k,{br->getSuccessor(0),br->getSuccessor(1)});
      for(int t=1;t>=0;t--){ State n=s; if(c.k==V_SYM){ n.facts=std::make_shared<std::map<int,bool>>(*s.facts); (*n.facts)[c.e]=t; n.pc=pcAnd(n.pc,t?c.e:pcNot(c.e)); } else { topBranches.insert(locOf(br)); int q=eLeaf("?"+std::to_string(fr.cs)+locOf(br)+"#"+std::to_string(ictx(k.second)),1); n.pc=pcAnd(n.pc,t?q:pcNot(q)); } refine(n,br->getCondition(),t); flow(B,k.second,br->getSuccessor(t?0:1),n); }
      return; }
    if(auto*sw=dyn_cast<SwitchInst>(I)){
      AV c=val(s,sw->getCondition()); u64 x; if(single(c,x)){ const BasicBlock*d=sw->getDefaultDest(); for(auto&cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==x) d=cs.getCaseSuccessor(); flow(B,k.second,d,s); return; }
      if(c.k==V_SET&&c.s.size()>1&&c.e>=0) c.e=c.e; if(allInt(c)){ std::map<const BasicBlock*,std::vector<u64>> t; for(auto&a:c.s){ const BasicBlock*d=sw->getDefaultDest(); for(auto&cs:sw->cases()) if((s64)cs.getCaseValue()->getZExtValue()==a.off) d=cs.getCaseSuccessor(); t[d].push_back(a.off);} std::vector<const BasicBlock*> f; for(auto&p:t) f.push_back(p.first); markLoops(k,f); for(auto&p:t){ State n=s; auto*ld=dyn_cast<LoadInst>(sw->getCondition()); if(ld&&ld->getParent()==B){ AV pp=val(s,ld->getPointerOperand()); if(pp.k==V_SET&&pp.s.size()==1&&pp.s[0].obj&&!pp.s[0].unk){ AV nv; nv.k=V_SET; nv.w=c.w; for(u64 q:p.second) nv.s.push_back({0,(s64)q,false}); std::sort(nv.s.begin(),nv.s.end()); if(nv.s.size()>1) nv.e=c.e; s64 sz=DL->getTypeStoreSize(ld->getType()); if(nv.w==sz*8){ ObjState&o=wObj(n,pp.s[0].obj); eraseRange(o,pp.s[0].off,sz); o.c[pp.s[0].off]={(u32)sz,nv}; } } } { int q=-1; bool def=p.first==sw->getDefaultDest(); if(c.e>=0){ for(auto&o:t){ if(def?o.first!=p.first:o.first==p.first) for(u64 z:o.second){ int e=mkE(E_ICMP,1,CmpInst::ICMP_EQ,0,c.e,eConst(z,c.w)); q=q<0?e:mkE(E_OR,1,0,0,q,e); } } if(def&&q>=0) q=pcNot(q); } else q=eLeaf("?"+std::to_string(fr.cs)+locOf(sw)+"#"+std::to_string(ictx(k.second))+"="+std::to_string(p.second[0]),1); if(q>=0){ u64 cq; if(isC(q,cq)){ if(!cq) continue; } else { n.pc=pcAnd(n.pc,q); if(c.e>=0){ n.facts=std::make_shared<std::map<int,bool>>(*n.facts); (*n.facts)[q]=true; } } } } flow(B,k.second,p.first,n);} STAT["undecided_branches"]++; return; }
      std::set<const BasicBlock*> d; d.insert(sw->getDefaultDest()); KB kb;Range r; bool h=hull(c,kb,r); for(auto&cs:sw->cases()){ u64 cv=cs.getCaseValue()->getZExtValue(); if(h&&(cv<r.lo||cv>r.hi||(cv&kb.z)||(~cv&kb.o&maskw(c.w)))) continue; d.insert(cs.getCaseSuccessor()); } std::vector<const BasicBlock*> f(d.begin(),d.end()); markLoops(k,f); STAT["undecided_branches"]++; topBranches.insert(locOf(sw));
      for(auto*b:f){ State n=s; if(c.k==V_SYM){ int q=-1; bool def=b==sw->getDefaultDest(); for(auto&cs:sw->cases()) if((cs.getCaseSuccessor()==b)!=def){ int e=mkE(E_ICMP,1,CmpInst::ICMP_EQ,0,c.e,eConst(cs.getCaseValue()->getZExtValue(),c.w)); q=q<0?e:mkE(E_OR,1,0,0,q,e); } if(q>=0&&def) q=pcNot(q); u64 cq; if(q>=0){ if(isC(q,cq)){ if(!cq) continue; } else { n.pc=pcAnd(n.pc,q); n.facts=std::make_shared<std::map<int,bool>>(*n.facts); (*n.facts)[q]=true; } } }
        else { int q=eLeaf("?"+std::to_string(fr.cs)+locOf(sw)+"#"+std::to_string(ictx(k.second))+"="+std::to_string(std::find(f.begin(),f.end(),b)-f.begin()),1); n.pc=pcAnd(n.pc,q); }
        flow(B,k.second,b,n); } return; }
    if(auto*r=dyn_cast<ReturnInst>(I)){ AV v; if(r->getReturnValue()) v=val(s,r->getReturnValue()); if(!hasOut){ out=s; ret=v; hasOut=true; } else { GATE=gateOf(out,s); ret=join(ret,v); joinInto(out,s,false,true); } return; }
    // unreachable and others: path ends
  }
  bool inst(const Instruction*I,State&s,int it){
    if(isa<DbgInfoIntrinsic>(I)) return true;
    int w=widthOf(I->getType());
    switch(I->getOpcode()){
      case Instruction::Alloca:{ auto*a=cast<AllocaInst>(I); auto k=std::make_pair(fr.cs,(const Value*)I); auto f=aobj.find(k); int id; if(f==aobj.end()){ Obj o; o.name=fr.F->getName().str()+"."+I->getName().str(); o.local=true; if(a->isStaticAlloca()||isa<ConstantInt>(a->getArraySize())) o.size=DL->getTypeAllocSize(a->getAllocatedType()); id=OBJ.size(); OBJ.push_back(o); aobj[k]=id; } else id=f->second; setv(s,I,ptr(id,0)); return true; }
      case Instruction::Load:{ s64 sz=DL->getTypeStoreSize(I->getType()); AV p=val(s,I->getOperand(0)); AV v=loadAt(s,p,sz,I); if(v.k==V_BOT) v=top(sz*8); if(v.w>w) v=castE(E_TRUNC,v,w); setv(s,I,v); return true; }
      case Instruction::Store:{ s64 sz=DL->getTypeStoreSize(I->getOperand(0)->getType()); storeAt(s,val(s,I->getOperand(1)),val(s,I->getOperand(0)),sz,fr.cs,I,it); return true; }
      case Instruction::GetElementPtr:{ auto*g=cast<GetElementPtrInst>(I); AV p=val(s,g->getPointerOperand()); for(auto gi=gep_type_begin(g);gi!=gep_type_end(g);++gi){ AV off; if(auto*st=gi.getStructTypeOrNull()){ off=cst(DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()),64); } else { AV ix=val(s,gi.getOperand()); ix=castE(E_SEXT,ix,64); u64 es=DL->getTypeAllocSize(gi.getIndexedType()); off=binAV(E_MUL,ix,cst(es,64)); } p=binAV(E_ADD,p,off); } setv(s,I,p); return true; }
      case Instruction::ZExt: setv(s,I,castE(E_ZEXT,val(s,I->getOperand(0)),w)); return true;
      case Instruction::SExt: setv(s,I,castE(E_SEXT,val(s,I->getOperand(0)),w)); return true;
      case Instruction::Trunc: { AV a=val(s,I->getOperand(0)); setv(s,I,castE(E_TRUNC,a,w)); return true; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { AV a=val(s,I->getOperand(0)); if(a.w<w) a=castE(E_ZEXT,a,w); else if(a.w>w) a=castE(E_TRUNC,a,w); setv(s,I,a); return true; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { AV a=val(s,I->getOperand(0)); if(a.w!=w) a=top(w); setv(s,I,a); return true; }
      case Instruction::ICmp: { AV a=val(s,I->getOperand(0)),b=val(s,I->getOperand(1)); AV c=cmpAV(cast<ICmpInst>(I)->getPredicate(),a,b); setv(s,I,evalFact(s,c)); return true; }
      case Instruction::FCmp: { int a=toE(val(s,I->getOperand(0))),b=toE(val(s,I->getOperand(1))); setv(s,I,a>=0&&b>=0?sym(mkE(E_FCMP,1,cast<FCmpInst>(I)->getPredicate(),0,a,b)):top(1)); return true; }
      case Instruction::Select: { AV c=evalFact(s,val(s,I->getOperand(0))); u64 x; AV a=val(s,I->getOperand(1)),b=val(s,I->getOperand(2)); if(single(c,x)) setv(s,I,x?a:b); else { int ea=toE(a),eb=toE(b); if(c.k==V_SYM&&ea>=0&&eb>=0) setv(s,I,sym(mkE(E_SELECT,w,0,0,c.e,ea,eb))); else setv(s,I,join(a,b)); } return true; }
      case Instruction::FNeg: { int a=toE(val(s,I->getOperand(0))); setv(s,I,a>=0?sym(mkE(E_FNEG,w,0,0,a)):top(w)); return true; }
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: { static std::map<unsigned,int> m{{Instruction::FPToSI,E_FPTOSI},{Instruction::FPToUI,E_FPTOUI},{Instruction::SIToFP,E_SITOFP},{Instruction::UIToFP,E_UITOFP},{Instruction::FPExt,E_FPEXT},{Instruction::FPTrunc,E_FPTRUNC}};
        static bool fold=getenv("HLCSA_FOLD_FLOAT"); u64 x; int ow=I->getOperand(0)->getType()->getPrimitiveSizeInBits();
        if(fold&&single(val(s,I->getOperand(0)),x)){ double d=0; bool ok=true; u64 r=0; auto bits=[&](double d){ if(w==64) memcpy(&r,&d,8); else { float f=(float)d; unsigned u; memcpy(&u,&f,4); r=u; } }; auto from=[&]{ if(ow==64) memcpy(&d,&x,8); else { unsigned u=x; float f; memcpy(&f,&u,4); d=f; } };
          switch(I->getOpcode()){ case Instruction::SIToFP: bits((double)((s64)(x<<(64-ow))>>(64-ow))); break; case Instruction::UIToFP: bits((double)x); break; case Instruction::FPExt: case Instruction::FPTrunc: from(); bits(d); break;
            default: from(); if(!(d>-9e18&&d<9e18)) ok=false; else r=(u64)(s64)d; }
          if(ok){ setv(s,I,cst(r,w)); return true; } }
        int a=toE(val(s,I->getOperand(0))); setv(s,I,a>=0?sym(mkE(m[I->getOpcode()],w,0,0,a)):top(w)); return true; }
      case Instruction::ExtractValue: { auto*ev=cast<ExtractValueInst>(I); auto f=agg.find(ev->getAggregateOperand()); if(f!=agg.end()&&ev->getNumIndices()==1&&ev->getIndices()[0]<f->second.size()) setv(s,I,f->second[ev->getIndices()[0]]); else setv(s,I,top(w)); return true; }
      case Instruction::AtomicCmpXchg: { auto*cx=cast<AtomicCmpXchgInst>(I); s64 sz=DL->getTypeStoreSize(cx->getCompareOperand()->getType()); AV p=val(s,cx->getPointerOperand()); AV old=loadAt(s,p,sz,I); AV cmp=val(s,cx->getCompareOperand()); AV eq=cmpAV(CmpInst::ICMP_EQ,old,cmp); u64 x; if(single(eq,x)){ if(x) storeAt(s,p,val(s,cx->getNewValOperand()),sz,fr.cs,I,it); } else storeAt(s,p,join(old,val(s,cx->getNewValOperand())),sz,fr.cs,I,it); agg[I]={old,eq}; return true; }
      case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(I); s64 sz=DL->getTypeStoreSize(rm->getType()); AV p=val(s,rm->getPointerOperand()); AV old=loadAt(s,p,sz,I); AV v=val(s,rm->getValOperand()); AV n; switch(rm->getOperation()){ case AtomicRMWInst::Add: n=binAV(E_ADD,old,v);break; case AtomicRMWInst::Sub:n=binAV(E_SUB,old,v);break; case AtomicRMWInst::And:n=binAV(E_AND,old,v);break; case AtomicRMWInst::Or:n=binAV(E_OR,old,v);break; case AtomicRMWInst::Xor:n=binAV(E_XOR,old,v);break; case AtomicRMWInst::Xchg:n=v;break; default:n=top(v.w);} storeAt(s,p,n,sz,fr.cs,I,it); setv(s,I,old); return true; }
      case Instruction::Fence: return true;
      case Instruction::Call: return call(cast<CallInst>(I),s,it);
      default: break; }
    if(I->isBinaryOp()&&I->getType()->isDoubleTy()){ static bool fold=getenv("HLCSA_FOLD_FLOAT"); u64 x,y; if(fold&&single(val(s,I->getOperand(0)),x)&&single(val(s,I->getOperand(1)),y)){ double a,b,r; memcpy(&a,&x,8); memcpy(&b,&y,8); bool ok=true; switch(I->getOpcode()){ case Instruction::FAdd: r=a+b; break; case Instruction::FSub: r=a-b; break; case Instruction::FMul: r=a*b; break; case Instruction::FDiv: r=a/b; break; default: ok=false; } if(ok){ u64 z; memcpy(&z,&r,8); setv(s,I,cst(z,64)); return true; } } }
    if(I->isBinaryOp()){ static std::map<unsigned,int> m{{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::Mul,E_MUL},{Instruction::UDiv,E_UDIV},{Instruction::SDiv,E_SDIV},{Instruction::URem,E_UREM},{Instruction::SRem,E_SREM},{Instruction::Shl,E_SHL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::FAdd,E_FADD},{Instruction::FSub,E_FSUB},{Instruction::FMul,E_FMUL},{Instruction::FDiv,E_FDIV},{Instruction::FRem,E_FREM}};
      int op=m[I->getOpcode()]; AV a=val(s,I->getOperand(0)),b=val(s,I->getOperand(1)); if(op>=E_FADD){ int ea=toE(a),eb=toE(b); setv(s,I,ea>=0&&eb>=0?sym(mkE(op,w,0,0,ea,eb)):top(w)); return true; }
      if(op==E_SDIV||op==E_UDIV||op==E_SREM||op==E_UREM){ // record division obligations when symbolic
        if(a.k==V_SYM||b.k==V_SYM){ std::vector<AV> args{a,b,evalFact(s,cmpAV(CmpInst::ICMP_NE,b,cst(0,b.w)))}; 
          u64 smin=1ull<<(b.w-1); AV g1=evalFact(s,cmpAV(CmpInst::ICMP_NE,b,cst(maskw(b.w),b.w))), g2=evalFact(s,cmpAV(CmpInst::ICMP_NE,a,cst(smin,a.w))); u64 z; bool ok=(single(g1,z)&&z)||(single(g2,z)&&z); args.push_back(cst(ok||op==E_UDIV||op==E_UREM,1)); SNODE(fr.cs,I,it,0,"div",ename[op],args,s); } }
      setv(s,I,binAV(op,a,b)); return true; }
    setv(s,I,top(w?w:1)); STAT["unknown_insts"]++; return true;
  }
  std::unordered_map<const Value*,std::vector<AV>> agg;
  std::string cstr(const State&s,const AV&p){ if(p.k!=V_SET||p.s.size()!=1||!p.s[0].obj||p.s[0].unk) return "?"; std::string r; for(s64 i=0;i<256;i++){ AV c=readCell(s,p.s[0].obj,p.s[0].off+i,1); u64 x; if(!single(c,x)) return r+"?"; if(!x) break; r+=(char)x; } return r; }
  bool call(const CallInst*C,State&s,int it){
    int w=widthOf(C->getType());
    std::vector<AV> args; for(unsigned i=0;i<C->arg_size();i++){ if(C->getArgOperand(i)->getType()->isMetadataTy()) return true; args.push_back(val(s,C->getArgOperand(i))); }
    if(C->isInlineAsm()){ STAT["inline_asm"]++; unkCalls.insert("asm "+locOf(C)); if(w) setv(s,C,top(w)); return true; }
    std::vector<const Function*> tg; if(auto*f=C->getCalledFunction()) tg.push_back(f); else { AV p=val(s,C->getCalledOperand()); if(p.k==V_SET) for(auto&a:p.s) if(a.obj&&OBJ[a.obj].fn) tg.push_back(OBJ[a.obj].fn); if(tg.empty()){ unkCalls.insert("indirect "+locOf(C)); if(w) setv(s,C,top(w)); return true; } }
    if(tg.size()==1) return callOne(tg[0],C,args,s,it,w);
    bool any=false; State acc; AV rv; for(auto*f:tg){ State t=s; if(callOne(f,C,args,t,it,w)){ AV r=w?val(t,C):AV(); if(!any){ acc=t; rv=r; any=true; } else { joinInto(acc,t,false); rv=join(rv,r);} } } if(!any) return false; s=acc; if(w) setv(s,C,rv); return true;
  }
  bool callOne(const Function*F,const CallInst*C,std::vector<AV>&args,State&s,int it,int w){
    StringRef n=F->getName(); std::string nm=n.str(); u64 x,y;
    if(F->isIntrinsic()){
      switch(F->getIntrinsicID()){
        case Intrinsic::memcpy: case Intrinsic::memmove: if(single(args[2],x)) copyMem(s,args[0],args[1],x,fr.cs,C,it); else { STAT["unknown_memcpy"]++; } return true;
        case Intrinsic::memset: setMem(s,args[0],args[1],args[2],fr.cs,C,it); return true;
        case Intrinsic::ctpop: if(single(args[0],x)) setv(s,C,cst(__builtin_popcountll(x),w)); else if(allInt(args[0])){ AV r; for(auto&a:args[0].s) r=join(r,cst(__builtin_popcountll(a.off),w)); setv(s,C,r);} else setv(s,C,num(w,{},{0,64})); return true;
        case Intrinsic::ctlz: if(single(args[0],x)&&x) setv(s,C,cst(__builtin_clzll(x)-(64-w),w)); else if(args[0].k==V_SYM&&w<=64&&ERG[args[0].e].lo&&__builtin_clzll(ERG[args[0].e].lo)==__builtin_clzll(ERG[args[0].e].hi)) setv(s,C,cst(__builtin_clzll(ERG[args[0].e].lo)-(64-w),w)); else setv(s,C,num(w,{},{0,(u64)w})); return true;
        case Intrinsic::cttz: if(single(args[0],x)&&x) setv(s,C,cst(__builtin_ctzll(x),w)); else setv(s,C,num(w,{},{0,(u64)w})); return true;
        case Intrinsic::debugtrap: case Intrinsic::trap: return false;
        default: if(w) setv(s,C,top(w)); return true; }
    }
    if(n.starts_with("__sa_")&&!n.starts_with("__sa_stub__")&&F->isDeclaration()){ return primitive(nm,C,args,s,it,w); }
    bool fromHarness=fr.F->getName().starts_with("__sa_stub__")||fr.F->getName().starts_with("h_");
    if(JOB.stub.count(nm)&&!fromHarness){ const Function*G=MOD->getFunction(JOB.stub[nm]); if(G&&!G->isDeclaration()) F=G,n=F->getName(),nm=n.str(); }
    if(JOB.prune.count(nm)){ std::vector<AV> a; std::string tag=nm; std::string str; for(auto&v:args){ std::string t=cstr(s,v); if(t!="?"&&t.size()>3) { str=t; break; } } json::Array fa; SNODE(fr.cs,C,it,0,"prune",nm+"|"+str,factArgs(s),s); return false; }
    if(JOB.skip.count(nm)){ std::string str; for(auto&v:args){ std::string t=cstr(s,v); if(t!="?"&&t.size()>3){ str=t; break; } } NODE(fr.cs,C,it,0,"skip",nm+"|"+str,factArgs(s),s); if(w) setv(s,C,top(w)); return true; }
    if(nm=="memset"){ setMem(s,args[0],args[1],args[2],fr.cs,C,it); if(w) setv(s,C,args[0]); return true; }
    if(nm=="memcpy"||nm=="memmove"){ if(single(args[2],x)) copyMem(s,args[0],args[1],x,fr.cs,C,it); else { STAT["unknown_memcpy"]++; if(args[0].k==V_SET) for(auto&a:args[0].s) if(a.obj&&!OBJ[a.obj].fn){ if(OBJ[a.obj].code){ NODE(fr.cs,C,it,0,"code","memcpy-unknown",{top(64),top(32)},s);} ObjState&o=wObj(s,a.obj); o.c.clear(); o.zero.clear(); o.init=false; } } if(w) setv(s,C,args[0]); return true; }
    if(nm=="memcmp"){ if(single(args[2],x)&&x<=4096){ int r=2; for(u64 i=0;i<x&&r==2;i++){ AV a=loadAt(s,binAV(E_ADD,args[0],cst(i,64)),1,C),b=loadAt(s,binAV(E_ADD,args[1],cst(i,64)),1,C); u64 p,q; if(single(a,p)&&single(b,q)){ if(p!=q) r=p<q?-1:1; } else { AV e=cmpAV(CmpInst::ICMP_EQ,a,b); u64 z; if(single(e,z)&&z==0){ r=5; } else r=9; } } if(r==2) setv(s,C,cst(0,w)); else if(r==-1||r==1) setv(s,C,cst((u64)r,w)); else if(r==5) setv(s,C,num(w,{},{1,maskw(w)})); else setv(s,C,top(w)); } else setv(s,C,top(w)); return true; }
    if(nm=="__do_assert"){ std::string e=args.size()>2?cstr(s,args[2]):""; SNODE(fr.cs,C,it,0,"assert",e,factArgs(s),s); return false; }
    if(nm=="os_panic"||nm=="ExitProcess"||nm=="exit"||nm=="abort"||nm=="os_debug_break"){ SNODE(fr.cs,C,it,0,"panic",nm,factArgs(s),s); return false; }
    if(F->isDeclaration()){ unkCalls.insert(nm); if(w) setv(s,C,top(w)); return !C->doesNotReturn(); }
    if(STACK.size()>120||std::count(STACK.begin(),STACK.end(),F)>14){ unkCalls.insert("recursion "+nm); STAT["recursion_cut"]++; if(w) setv(s,C,top(w)); return true; }
    int cs=csId(fr.cs,C,it); State out; AV ret; State in2=s; auto env=s.env; 
    if(!callFn(F,args,in2,cs,out,ret)) return false;
    out.env=env; s=out; if(w){ if(ret.k==V_BOT) ret=top(w); setv(s,C,ret);} return true;
  }
  std::vector<AV> factArgs(State&s){ std::vector<AV> r; for(auto&kv:*s.facts){ AV v; v.k=V_SYM; v.e=kv.second?kv.first:mkE(E_XOR,1,0,0,kv.first,eConst(1,1)); v.w=1; if(EX[v.e].op==E_CONST) continue; r.push_back(v);} return r; }
  bool primitive(const std::string&nm,const CallInst*C,std::vector<AV>&args,State&s,int it,int w){
    u64 x;
    if(nm=="__sa_sym"){ std::string t=cstr(s,args[0]); u64 wd=64; single(args[1],wd); int e=eLeaf(t,wd); AV v=sym(e); if((int)wd<w) v=castE(E_ZEXT,v,w); setv(s,C,v); return true; }
    if(nm=="__sa_range"){ std::string t=cstr(s,args[0]); u64 wd=64,lo=0,hi=0; single(args[1],wd); single(args[2],lo); single(args[3],hi); int e=eLeaf(t,wd,true,lo&maskw(wd),hi&maskw(wd)); AV v=sym(e); if((int)wd<w) v=castE(E_ZEXT,v,w); setv(s,C,v); return true; }
    if(nm=="__sa_top"){ setv(s,C,top(w)); return true; }
    if(nm=="__sa_any_of"){ AV r; for(auto&a:args) r=join(r,a); setv(s,C,r); return true; } // non-variadic use
    if(nm=="__sa_obs"){ std::string t=cstr(s,args[0]); std::vector<AV> a; for(size_t i=1;i<args.size();i++) a.push_back(args[i]); NODE(fr.cs,C,it,0,"obs",t,a,s); return true; }
    if(nm=="__sa_str"){ std::string t=cstr(s,args[0]); std::string v=cstr(s,args[1]); NODE(fr.cs,C,it,0,"obs",t+"="+v,{},s); return true; }
    if(nm=="__sa_facts"){ std::string t=cstr(s,args[0]); NODE(fr.cs,C,it,0,"facts",t,factArgs(s),s); return true; }
    if(nm=="__sa_end"){ std::string t=cstr(s,args[0]); std::vector<AV> a; for(size_t i=1;i<args.size();i++) a.push_back(args[i]); SNODE(fr.cs,C,it,0,"end",t,a,s); return false; }
    if(nm=="__sa_alloc"){ auto k=std::make_pair(fr.cs*1000003+it,(const Value*)C); auto f=aobj.find(k); int id; if(f==aobj.end()){ Obj o; o.heap=true; o.name="heap@"+locOf(C); if(single(args[0],x)) o.size=x; id=OBJ.size(); OBJ.push_back(o); aobj[k]=id; ObjState&os=wObj(s,id); os.init=false; } else id=f->second; setv(s,C,ptr(id,0)); return true; }
    if(nm=="__sa_code"){ if(args[0].k==V_SET) for(auto&a:args[0].s) OBJ[a.obj].code=true; return true; }
    if(nm=="__sa_havoc"){ if(args[0].k==V_SET) for(auto&a:args[0].s){ ObjState&o=wObj(s,a.obj); if(single(args[1],x)) { for(u64 i=0;i<x;){ o.c[a.off+i]={1,top(8)}; i++; } } } return true; }
    diags.insert("unknown primitive "+nm); if(w) setv(s,C,top(w)); return true;
  }
};
static bool callFn(const Function*F,const std::vector<AV>&args,State in,int cs,State&out,AV&ret){
  VISITED.insert(F); STACK.push_back(F); STAT["calls"]++;
  Activation A({F,cs,args,(int)STACK.size()}); A.run(in); STACK.pop_back();
  if(!A.hasOut) return false; out=A.out; ret=A.ret;
  // drop the frame's locals
  cowMem(out); for(auto it=aobj.lower_bound({cs,nullptr});it!=aobj.end()&&it->first.first==cs;++it) if(OBJ[it->second].local) out.mem->erase(it->second);
  return true;
}
static json::Value avJson(const AV&v){
  switch(v.k){ case V_BOT: return "bot";
    case V_SET:{ json::Array a; for(auto&x:v.s){ if(!x.obj) a.push_back(std::to_string((u64)x.off)); else a.push_back("&"+OBJ[x.obj].name+(x.unk?"+?":(x.off?"+"+std::to_string(x.off):""))); } if(v.e>=0) return json::Object{{"set",std::move(a)},{"w",v.w},{"sym",eJson(v.e)}}; return json::Object{{"set",std::move(a)},{"w",v.w}}; }
    case V_SYM: return json::Object{{"sym",eJson(v.e)},{"w",v.w}};
    default: if(isTop(v)) return json::Object{{"top",true},{"w",v.w}}; return json::Object{{"z",std::to_string(v.kb.z)},{"o",std::to_string(v.kb.o)},{"lo",std::to_string(v.r.lo)},{"hi",std::to_string(v.r.hi)},{"w",v.w}}; }
}
// ---- queries over the module that need no interpretation
static u64 sizeBits(const DIType*t){ while(t&&!t->getSizeInBits()){ auto*d=dyn_cast<DIDerivedType>(t); if(!d) break; t=d->getBaseType(); } return t?t->getSizeInBits():0; }
static std::string tyName(const DIType*t){ if(!t) return "void"; if(auto*d=dyn_cast<DIDerivedType>(t)){ if(d->getTag()==dwarf::DW_TAG_pointer_type) return tyName(d->getBaseType())+"*"; if(!d->getName().empty()) return d->getName().str(); return tyName(d->getBaseType()); }
  if(auto*c=dyn_cast<DICompositeType>(t)){ if(c->getTag()==dwarf::DW_TAG_array_type){ std::string s=tyName(c->getBaseType()); for(auto*e:c->getElements()) if(auto*sr=dyn_cast<DISubrange>(e)){ if(auto*ci=dyn_cast_if_present<ConstantInt*>(sr->getCount())) s+="["+std::to_string(ci->getSExtValue())+"]"; } return s; } } return t->getName().str(); }
static json::Value members(const DICompositeType*c){ json::Array m; for(auto*e:c->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)){ if(d->getTag()!=dwarf::DW_TAG_member) continue; json::Object o{{"n",d->getName().str()},{"o",(s64)d->getOffsetInBits()/8},{"s",(s64)sizeBits(d->getBaseType())/8},{"t",tyName(d->getBaseType())}}; 
    if(d->isBitField()){ o["bit"]=(s64)d->getOffsetInBits(); o["bits"]=(s64)d->getSizeInBits(); }
    if(auto*in=dyn_cast_or_null<DICompositeType>(d->getBaseType())) if(in->getName().empty()&&(in->getTag()==dwarf::DW_TAG_structure_type||in->getTag()==dwarf::DW_TAG_union_type)) o["m"]=members(in); m.push_back(std::move(o)); } return m; }
static json::Value dumpTypes(){
  DebugInfoFinder fi; fi.processModule(*MOD); json::Object en,st; 
  auto addE=[&](const DICompositeType*c){ json::Object v; for(auto*e:c->getElements()) if(auto*x=dyn_cast<DIEnumerator>(e)) v[x->getName()]=x->getValue().getSExtValue(); std::string n=c->getName().str(); if(n.empty()) n="anon@"+std::to_string(c->getLine()); en[n]=std::move(v); };
  for(auto*t:fi.types()) if(auto*c=dyn_cast<DICompositeType>(t)){ if(c->getTag()==dwarf::DW_TAG_enumeration_type) addE(c); else if((c->getTag()==dwarf::DW_TAG_structure_type||c->getTag()==dwarf::DW_TAG_union_type)&&!c->isForwardDecl()){ std::string n=c->getName().str(); if(n.empty()) continue; st[n]=json::Object{{"size",(s64)c->getSizeInBits()/8},{"m",members(c)}}; } }
  for(auto*cu:fi.compile_units()) for(auto*e:cu->getEnumTypes()) addE(e);
  return json::Object{{"enums",std::move(en)},{"structs",std::move(st)}};
}
// constant stores of a function: [object, offset, size, value, line]
static json::Value constStores(const Function*F){
  json::Array a; for(auto&B:*F) for(auto&I:B){ 
    if(auto*S=dyn_cast<StoreInst>(&I)){ APInt off(64,0); const Value*b=S->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL,off,true); if(auto*g=dyn_cast<GlobalVariable>(b)) if(auto*c=dyn_cast<ConstantInt>(S->getValueOperand())) a.push_back(json::Array{g->getName().str(),off.getSExtValue(),(s64)DL->getTypeStoreSize(c->getType()),c->getSExtValue(),locOf(&I)}); 
      else if(auto*g2=dyn_cast<GlobalVariable>(b)) if(auto*k=dyn_cast<Constant>(S->getValueOperand())){ APInt o2(64,0); const Value*b2=k->stripAndAccumulateConstantOffsets(*DL,o2,true); if(auto*gv=dyn_cast<GlobalValue>(b2)) a.push_back(json::Array{g2->getName().str(),off.getSExtValue(),8,"&"+gv->getName().str()+"+"+std::to_string(o2.getSExtValue()),locOf(&I)}); } } }
  return a;
}
static json::Value constJson(const Constant*c,int depth=0){ // initialisers as nested arrays
  if(auto*ci=dyn_cast<ConstantInt>(c)) return json::Value(std::to_string(ci->getValue().getZExtValue()));
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return nullptr;
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ if(cd->isString()||cd->getElementByteSize()==1&&cd->isString(8)) return json::Object{{"str",json::fixUTF8(cd->getRawDataValues())}}; json::Array a; for(unsigned i=0;i<cd->getNumElements();i++) a.push_back(constJson(cd->getElementAsConstant(i),depth+1)); return a; }
  if(isa<ConstantAggregateZero>(c)){ if(isa<StructType>(c->getType())||c->getType()->isArrayTy()) { unsigned n=c->getType()->isArrayTy()?c->getType()->getArrayNumElements():c->getType()->getStructNumElements(); if(n>0x4000) return "zero"; json::Array a; for(unsigned i=0;i<n;i++) a.push_back(constJson(c->getAggregateElement(i),depth+1)); return a; } return "0"; }
  if(isa<ConstantAggregate>(c)){ json::Array a; for(auto&o:c->operands()) a.push_back(constJson(cast<Constant>(o),depth+1)); return a; }
  if(c->getType()->isPointerTy()){ APInt off(64,0); const Value*b=c->stripAndAccumulateConstantOffsets(*DL,off,true); if(auto*g=dyn_cast<GlobalVariable>(b)){ if(g->hasInitializer()&&g->isConstant()) if(auto*cd=dyn_cast<ConstantDataSequential>(g->getInitializer())) if(cd->isString()) return json::Object{{"str",json::fixUTF8(cd->getRawDataValues().substr(off.getSExtValue()))}}; if(g->hasInitializer()&&isa<ConstantAggregateZero>(g->getInitializer())&&g->isConstant()) return json::Object{{"str",""}}; return json::Object{{"ref",g->getName().str()},{"off",off.getSExtValue()}}; } if(auto*f=dyn_cast<Function>(b)) return json::Object{{"fn",f->getName().str()}}; }
  if(auto*cf=dyn_cast<ConstantFP>(c)) return std::to_string(cf->getValueAPF().convertToDouble());
  return "?";
}
static json::Value runJob(const json::Object&j){
  if(auto q=j.getString("query")){ json::Object R; R["id"]=j.getString("id").value_or("").str();
    if(*q=="types") R["result"]=dumpTypes();
    else if(*q=="conststores"){ auto*F=MOD->getFunction(*j.getString("fn")); if(!F) R["error"]="no such function"; else R["result"]=constStores(F); }
    else if(*q=="global"){ std::string n=j.getString("name")->str(); json::Object all; for(auto&g:MOD->globals()) if(g.getName()==n||(g.getName().ends_with(n)&&g.getName().size()>n.size()&&g.getName()[g.getName().size()-n.size()-1]=='.')) if(g.hasInitializer()) all[g.getName()]=constJson(g.getInitializer()); R["result"]=std::move(all); }
    else R["error"]="unknown query"; return R; }
  JOB=Job(); auto rd=[&](const char*n,std::set<std::string>&s){ if(auto*a=j.getArray(n)) for(auto&x:*a) s.insert(x.getAsString()->str()); }; rd("prune",JOB.prune); rd("skip",JOB.skip); if(auto*o=j.getObject("stub")) for(auto&kv:*o) JOB.stub[kv.first.str()]=kv.second.getAsString()->str();
  if(auto m=j.getInteger("max_steps")) maxSteps=*m; if(auto*o=j.getObject("assume")) for(auto&kv:*o) JOB.assume[kv.first.str()]=*kv.second.getAsBoolean();
  json::Object R; std::string fn=j.getString("fn")->str(); R["id"]=j.getString("id").value_or(fn).str();
  const Function*F=MOD->getFunction(fn); if(!F||F->isDeclaration()){ R["error"]="no such function "+fn; return R; }
  std::vector<AV> args; if(auto*a=j.getArray("args")){ unsigned i=0; for(auto&x:*a){ int w=i<F->arg_size()?widthOf(F->getArg(i)->getType()):64; args.push_back(cst((u64)*x.getAsInteger(),w)); i++; } }
  State s; s.mem=std::make_shared<MemMap>(); s.env=std::make_shared<std::map<const Value*,AV>>(); s.facts=std::make_shared<std::map<int,bool>>(); s.last=std::make_shared<std::set<int>>(); s.last->insert(-1);
  // "init": {"global array": [integers]} gives the elements of a global array of the harness their values
  if(auto*o=j.getObject("init")) for(auto&kv:*o){ auto*g=MOD->getGlobalVariable(kv.first.str(),true); if(!g){ R["error"]="no such global "+kv.first.str(); return R; } Type*et=g->getValueType(); while(et->isArrayTy()) et=et->getArrayElementType(); s64 sz=DL->getTypeStoreSize(et); s64 off=0; for(auto&x:*kv.second.getAsArray()){ storeAt(s,ptr(objOf(g),off),cst((u64)*x.getAsInteger(),sz*8),sz,0,nullptr,0); off+=sz; } if(off>(s64)DL->getTypeAllocSize(g->getValueType())){ R["error"]="template too long"; return R; } }
  State out; AV ret; auto t0=std::chrono::steady_clock::now(); bool ok=callFn(F,args,s,0,out,ret);
  R["returns"]=ok; R["ret"]=avJson(ret); if(outOfBudget) R["budget"]=true;
  json::Array N; for(auto&n:NODES){ json::Array a; for(auto&v:n.a) a.push_back(avJson(v)); N.push_back(json::Object{{"k",n.kind},{"t",json::fixUTF8(n.tag)},{"a",std::move(a)},{"l",n.loc},{"pc",n.pc<0?json::Value(nullptr):eJson(n.pc)}}); } R["nodes"]=std::move(N);
  json::Array E; for(auto&e:EDGES) E.push_back(json::Array{e.first,e.second}); if(ok) for(int l:*out.last) E.push_back(json::Array{l,-2}); R["edges"]=std::move(E);
  json::Object S; for(auto&kv:STAT) S[kv.first]=kv.second; S["steps"]=steps; S["functions"]=(s64)VISITED.size(); S["blocks"]=(s64)VBLK.size(); S["ms"]=(s64)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now()-t0).count(); R["stat"]=std::move(S);
  auto arr=[&](const std::set<std::string>&x){ json::Array a; for(auto&y:x) a.push_back(json::fixUTF8(y)); return a; };
  R["unk_stores"]=arr(unkStores); R["unk_calls"]=arr(unkCalls); R["top_branches"]=arr(topBranches); R["diag"]=arr(diags); { json::Array b; for(auto&x:symBranches) b.push_back(x); R["sym_branches"]=std::move(b); }
  json::Array V; for(auto*f:VISITED) V.push_back(f->getName().str()); R["visited"]=std::move(V);
  if(j.getBoolean("blocks").value_or(false)){ std::set<std::string> ls; for(auto*b:VBLK) for(auto&i:*b) if(i.getDebugLoc()) { ls.insert(locOf(&i)); } R["lines"]=arr(ls); }
  return R;
}
int main(int argc,char**argv){
  LLVMContext ctx; SMDiagnostic err; auto M=parseIRFile(argv[1],err,ctx); if(!M){ err.print("hlcsa",errs()); return 2; } MOD=M.get(); DL=&M->getDataLayout();
  if(getenv("HLCSA_IRREDUCIBLE")){ // loops entered by goto become loops with one header
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
    for(auto&f:*M){ if(f.isDeclaration()) continue; DominatorTree dt(f); LoopInfo li(dt); ReversePostOrderTraversal<const Function*> rpo(&f);
      if(!containsIrreducibleCFG<const BasicBlock*>(rpo,li)) continue;
      FunctionPassManager FPM; FPM.addPass(LowerSwitchPass()); FPM.addPass(FixIrreduciblePass()); FPM.run(f,FAM); } }

  auto buf=MemoryBuffer::getFileOrSTDIN(argc>2?argv[2]:"-"); auto J=json::parse((*buf)->getBuffer()); if(!J){ errs()<<"bad jobs json: "<<toString(J.takeError())<<"\n"; return 2; }
  auto*arr=J->getAsArray(); size_t n=arr->size(); int P=argc>3?atoi(argv[3]):8;
  // each job in its own forked process group: chunked round robin over P workers, results through temp files
  std::vector<std::string> outFiles; std::vector<pid_t> pids; char tmpl[]="/tmp/hlcsaXXXXXX"; char*dir=mkdtemp(tmpl);
  int*next=(int*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *next=0;
  for(int p=0;p<P&&p<(int)n;p++){ std::string of=std::string(dir)+"/"+std::to_string(p); outFiles.push_back(of); pid_t c=fork(); if(c==0){ FILE*f=fopen(of.c_str(),"w"); while(true){ int i=__sync_fetch_and_add(next,1); if(i>=(int)n) break; int fd[2]; fflush(f); pid_t g=fork(); if(g==0){ json::Value r=runJob(*(*arr)[i].getAsObject()); (*r.getAsObject())["index"]=i; std::string s; raw_string_ostream os(s); os<<r<<"\n"; os.flush(); fwrite(s.data(),1,s.size(),f); fflush(f); _exit(0); } int st; waitpid(g,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)){ fprintf(f,"{\"index\":%d,\"error\":\"analysis crashed\"}\n",i); fflush(f); } (void)fd; } fclose(f); _exit(0); } pids.push_back(c); }
  for(auto c:pids){ int st; waitpid(c,&st,0); }
  for(auto&o:outFiles){ auto b=MemoryBuffer::getFile(o); if(b) outs().write((*b)->getBufferStart(),(*b)->getBufferSize()); unlink(o.c_str()); } rmdir(dir);
  return 0;
}
