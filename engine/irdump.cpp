// Dumps the compiler's LLVM IR (after promotion of local variables to registers) as JSON for the dataflow checks.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
static const DataLayout*DL; static std::map<std::string,const DICompositeType*> DI;
static std::string loc(const Instruction*I){ if(auto d=I->getDebugLoc()){ std::string f=d->getFilename().str(); auto p=f.rfind('/'); if(p!=std::string::npos) f=f.substr(p+1); return f+":"+std::to_string(d.getLine()); } return ""; }
static std::string structName(Type*t){ auto*s=dyn_cast<StructType>(t); if(!s||!s->hasName()) return ""; StringRef n=s->getName(); n.consume_front("struct."); n.consume_front("union."); return n.str(); }
static std::string fieldAt(const std::string&s,uint64_t off){ auto it=DI.find(s); if(it==DI.end()) return "+"+std::to_string(off);
  for(auto*e:it->second->getElements()) if(auto*m=dyn_cast<DIDerivedType>(e)) if(m->getTag()==dwarf::DW_TAG_member&&m->getOffsetInBits()==off*8&&!m->isBitField()) return m->getName().empty()?"+"+std::to_string(off):m->getName().str();
  return "+"+std::to_string(off); }
static const DIType*strip(const DIType*t){ while(auto*d=dyn_cast_or_null<DIDerivedType>(t)){ if(d->getTag()!=dwarf::DW_TAG_typedef&&d->getTag()!=dwarf::DW_TAG_const_type&&d->getTag()!=dwarf::DW_TAG_volatile_type) break; t=d->getBaseType(); } return t; }
// the member at an offset; within arrays only the array is named
static std::string within(const DIType*t,uint64_t off){ t=strip(t); auto*c=dyn_cast_or_null<DICompositeType>(t); if(!c||c->getTag()!=dwarf::DW_TAG_structure_type) return "";
  for(auto*x:c->getElements()) if(auto*m=dyn_cast<DIDerivedType>(x)) if(m->getTag()==dwarf::DW_TAG_member&&!m->isBitField()&&m->getOffsetInBits()<=off*8&&(m->getOffsetInBits()+m->getSizeInBits()>off*8)){ std::string r=within(m->getBaseType(),off-m->getOffsetInBits()/8); std::string n=m->getName().str(); if(m->getOffsetInBits()==off*8) return n; if(n.empty()) return r; return r.empty()?n:n+"."+r; }
  return ""; }
static std::string globalField(const GlobalVariable*g,uint64_t off){ SmallVector<DIGlobalVariableExpression*,1> gs; g->getDebugInfo(gs); for(auto*e:gs) { std::string r=within(e->getVariable()->getType(),off); if(!r.empty()) return r; } return off?"+"+std::to_string(off):""; }
static std::string str(Type*t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return s; }
static std::map<const Value*,int> ids;
static json::Value val(const Value*v,int depth=0){
  if(auto it=ids.find(v);it!=ids.end()) return it->second;
  if(auto*c=dyn_cast<ConstantInt>(v)) return json::Array{"c",c->getBitWidth()<=64?json::Value(std::to_string(c->getSExtValue())):json::Value("big")};
  if(auto*x=dyn_cast<ConstantExpr>(v)) if(x->getOpcode()==Instruction::IntToPtr) if(auto*c=dyn_cast<ConstantInt>(x->getOperand(0))) return json::Array{"c",std::to_string(c->getSExtValue())};
  if(isa<ConstantPointerNull>(v)) return json::Array{"c","0"};
  if(auto*a=dyn_cast<Argument>(v)) return json::Array{"a",(int64_t)a->getArgNo()};
  if(auto*f=dyn_cast<Function>(v)) return json::Array{"f",f->getName().str()};
  if(auto*c=dyn_cast<Constant>(v)) if(c->getType()->isPointerTy()){ APInt off(64,0); const Value*b=c->stripAndAccumulateConstantOffsets(*DL,off,true);
    if(auto*g=dyn_cast<GlobalVariable>(b)){ if(g->isConstant()&&g->hasInitializer()){ if(auto*cd=dyn_cast<ConstantDataSequential>(g->getInitializer())) if(cd->isString()) return json::Array{"s",json::fixUTF8(cd->getRawDataValues().substr(off.getZExtValue()))}; if(isa<ConstantAggregateZero>(g->getInitializer())) return json::Array{"s",std::string(1,0)}; }
      std::string n=g->getName().str(); std::string f; if(off.getSExtValue()>=0) f=globalField(g,off.getZExtValue()); return json::Array{"g",n,off.getSExtValue(),f}; } }
  if(isa<UndefValue>(v)) return json::Array{"u"};
  return json::Array{"?"}; }
static json::Value inst(const Instruction&I){ json::Array a; a.push_back(ids[&I]); a.push_back(loc(&I));
  if(auto*c=dyn_cast<CallBase>(&I)){ if(isa<DbgInfoIntrinsic>(c)) return nullptr; a.push_back("call"); auto*f=c->getCalledFunction(); std::string n; bool ia=c->isInlineAsm(); if(f) n=f->getName().str(); a.push_back(ia?json::Value(json::Array{"asm"}):f?json::Value(n):val(c->getCalledOperand())); a.push_back(str(c->getFunctionType())); json::Array ar,ty; for(auto&o:c->args()){ ar.push_back(val(o)); ty.push_back(str(o->getType())); } a.push_back(std::move(ar)); a.push_back(std::move(ty)); return a; }
  if(auto*l=dyn_cast<LoadInst>(&I)){ a.push_back("load"); a.push_back(val(l->getPointerOperand())); a.push_back(str(l->getType())); a.push_back(l->isVolatile()||l->isAtomic()); return a; }
  if(auto*s=dyn_cast<StoreInst>(&I)){ a.push_back("store"); a.push_back(val(s->getPointerOperand())); a.push_back(val(s->getValueOperand())); a.push_back(str(s->getValueOperand()->getType())); a.push_back(s->isVolatile()||s->isAtomic()); return a; }
  if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ a.push_back("gep"); a.push_back(val(g->getPointerOperand())); APInt off(64,0); std::string f,sn; if(auto*st=dyn_cast<StructType>(g->getSourceElementType())){ sn=structName(st); if(g->getNumIndices()>=2) if(auto*k=dyn_cast<ConstantInt>(g->getOperand(2))) f=fieldAt(sn,DL->getStructLayout(st)->getElementOffset(k->getZExtValue())); } bool co=g->accumulateConstantOffset(*DL,off); a.push_back(sn); a.push_back(f); a.push_back(co?json::Value(off.getSExtValue()):json::Value(nullptr)); return a; }
  if(auto*c=dyn_cast<CmpInst>(&I)){ a.push_back("cmp"); a.push_back(CmpInst::getPredicateName(c->getPredicate()).str()); a.push_back(val(c->getOperand(0))); a.push_back(val(c->getOperand(1))); return a; }
  if(auto*p=dyn_cast<PHINode>(&I)){ a.push_back("phi"); json::Array in; for(unsigned i=0;i<p->getNumIncomingValues();i++) in.push_back(json::Array{val(p->getIncomingValue(i)),ids[p->getIncomingBlock(i)]}); a.push_back(std::move(in)); return a; }
  if(auto*r=dyn_cast<AtomicRMWInst>(&I)){ a.push_back("rmw"); a.push_back(AtomicRMWInst::getOperationName(r->getOperation()).str()); a.push_back(val(r->getPointerOperand())); a.push_back(val(r->getValOperand())); return a; }
  if(auto*x=dyn_cast<AtomicCmpXchgInst>(&I)){ a.push_back("cas"); a.push_back(val(x->getPointerOperand())); a.push_back(val(x->getCompareOperand())); a.push_back(val(x->getNewValOperand())); return a; }
  a.push_back(I.getOpcodeName()); for(auto&o:I.operands()) if(!isa<BasicBlock>(o)&&!isa<MetadataAsValue>(o)) a.push_back(val(o)); return a; }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic e; auto M=parseIRFile(argv[1],e,C); if(!M){ errs()<<"cannot read the module\n"; return 1; } DL=&M->getDataLayout();
  DebugInfoFinder fi; fi.processModule(*M); for(auto*t:fi.types()) if(auto*c=dyn_cast<DICompositeType>(t)) if(!c->isForwardDecl()&&!c->getName().empty()) DI[c->getName().str()]=c;
  for(auto&F:*M){ F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  ModulePassManager MPM,MP2; std::string after=argc>2?argv[2]:""; std::set<std::string> keep,trigger; { SmallVector<StringRef,64> x; if(argc>3) StringRef(argv[3]).split(x,','); for(auto k:x) keep.insert(k.str()); x.clear(); if(argc>4) StringRef(argv[4]).split(x,','); for(auto k:x) trigger.insert(k.str()); }
  if(auto er=PB.parsePassPipeline(MPM,"function(sroa)")){ errs()<<"pipeline\n"; return 1; } MPM.run(*M,MAM);
  // small helpers around what the rules are about become part of their users
  for(auto&F:*M){ if(F.isDeclaration()||F.isVarArg()||F.hasAddressTaken()||keep.count(F.getName().str())||!F.getReturnType()) continue; unsigned n=0; bool t=false; for(auto&B:F) for(auto&I:B){ if(isa<DbgInfoIntrinsic>(&I)) continue; n++;
      if(auto*c=dyn_cast<CallBase>(&I)) if(auto*g=c->getCalledFunction()) if(trigger.count(g->getName().str())) t=true;
      if(auto*l=dyn_cast<LoadInst>(&I)) t|=l->isVolatile(); if(auto*l=dyn_cast<StoreInst>(&I)) t|=l->isVolatile();
      if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) t=true;
      if(auto*l=dyn_cast<LoadInst>(&I)) if(isa<GlobalVariable>(l->getPointerOperand()->stripInBoundsOffsets())&&F.arg_empty()&&!F.getReturnType()->isVoidTy()) t=true; }
    if(t&&n<=24){ F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); if(argc>5) errs()<<"inlined: "<<F.getName()<<" "<<n<<"\n"; } }
  if(auto er=PB.parsePassPipeline(MP2,"always-inline,function(sroa"+(after.empty()?"":","+after)+")")){ errs()<<"pipeline\n"; return 1; } MP2.run(*M,MAM);
  json::Object fs;
  for(auto&F:*M){ if(F.isDeclaration()) continue; ids.clear(); int n=0; for(auto&B:F){ ids[&B]=n++; } for(auto&B:F) for(auto&I:B) ids[&I]=n++;
    json::Array bl; for(auto&B:F){ json::Array is; for(auto&I:B) if(!I.isTerminator()){ auto v=inst(I); if(v.kind()!=json::Value::Null) is.push_back(std::move(v)); }
      auto*T=B.getTerminator(); json::Array t; if(auto*br=dyn_cast<BranchInst>(T)){ if(br->isConditional()) t=json::Array{"br",val(br->getCondition()),ids[br->getSuccessor(0)],ids[br->getSuccessor(1)]}; else t=json::Array{"jmp",ids[br->getSuccessor(0)]}; }
      else if(auto*s=dyn_cast<SwitchInst>(T)){ json::Array cs; for(auto c:s->cases()) cs.push_back(json::Array{std::to_string(c.getCaseValue()->getSExtValue()),ids[c.getCaseSuccessor()]}); t=json::Array{"switch",val(s->getCondition()),ids[s->getDefaultDest()],std::move(cs)}; }
      else if(auto*r=dyn_cast<ReturnInst>(T)) t=json::Array{"ret",r->getReturnValue()?val(r->getReturnValue()):json::Value(nullptr)}; else t=json::Array{"dead"};
      t.push_back(loc(T)); bl.push_back(json::Object{{"i",std::move(is)},{"t",std::move(t)}}); }
    std::string file; int line=0; if(auto*sp=F.getSubprogram()){ file=sp->getFilename().str(); auto p=file.rfind('/'); if(p!=std::string::npos) file=file.substr(p+1); line=sp->getLine(); }
    fs[F.getName()]=json::Object{{"file",file},{"line",line},{"ty",str(F.getFunctionType())},{"taken",F.hasAddressTaken()},{"b",std::move(bl)}}; }
  outs()<<json::Value(std::move(fs)); return 0; }
