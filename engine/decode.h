// LLVM IR -> compact register code.
#pragma once
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <set>
#include <map>

enum Op : u8 { OP_BIN, OP_ICMP, OP_ZEXT, OP_SEXT, OP_TRUNC, OP_MOV, OP_MOVN, OP_SELECT, OP_LOAD, OP_STORE, OP_GEP0, OP_GEP1, OP_GEPN, OP_ALLOCA,
  OP_BR, OP_CBR, OP_SWITCH, OP_CALL, OP_RET, OP_UNREACH, OP_INSV, OP_FP, OP_NOP };
enum FPOp : u8 { F_UITOFP,F_SITOFP,F_FPTOUI,F_FPTOSI,F_ADD,F_SUB,F_MUL,F_DIV,F_CMP,F_NEG };

struct Inst { Op op; u8 sub; u8 w; u8 w2; i32 dst,a,b,c; u32 x; u32 line; u64 k; };
struct Copy { i32 dst, src; };
struct Edge { u32 pc, blk, ninst, cstart, ccount; };
struct GepIx { i32 op; u8 w; u64 scale; };
struct SwitchInfo { std::vector<std::pair<u64,u32>> cases; u32 def; };
struct Func;
struct Arg { i32 op; u8 n; u64 byval; };
struct CallInfo { Func* fn; int bi; i32 ind; std::vector<Arg> args; u8 retn; u8 retw; std::string name; };
struct LoadTy { u8 n; struct El{u8 off,w,bytes;} el[4]; };
struct Func { std::string name, file; bool lib=false, vararg=false, defined=false; u32 nargs=0, nregs=0, entryBlk=0, entryN=0, nblk=0; std::vector<Inst> code; std::vector<Val> consts; llvm::Function* lf=nullptr; u32 idx=0; std::vector<u64> byval; };

enum Builtin { B_NONE=0, B_alloc,B_free,B_objsize,B_memcpy,B_memset,B_memcmp,B_sym,B_in,B_text,B_param,B_assume,B_assert,B_conc,B_trace,B_live,B_reach,B_setjmp,B_longjmp,B_assertfail,B_abort,B_done,B_log10,B_native,
  B_iabs,B_smax,B_smin,B_umax,B_umin,B_usubsat,B_uaddsat,B_ovf,B_trap,B_nop,B_vastart,B_vacopy,B_ident,B_ctlz,B_cttz,B_ctpop,B_bswap,B_zero,B_strlen,B_nvars,B_isheap,B_nparams,B_freeze };

struct Program {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL=nullptr; ExprPool& P;
  std::vector<Func*> funcs; std::map<llvm::Function*,Func*> fmap; std::map<std::string,Func*> byName;
  std::vector<Copy> copies; std::vector<Edge> edges; std::vector<std::vector<GepIx>> geps; std::vector<SwitchInfo> switches; std::vector<CallInfo> calls; std::vector<LoadTy> ltys;
  std::map<const llvm::GlobalVariable*,u64> gaddr; std::map<std::string,int> bnames; u32 nblocks=0; std::vector<std::pair<u32,u32>> blkInfo; // func idx, first line
  std::set<std::string> libFuncs, libGlobals; std::set<std::string> unknownExt;
  Program(ExprPool&p):P(p){
    bnames={{"sx_alloc",B_alloc},{"sx_free",B_free},{"sx_objsize",B_objsize},{"memcpy",B_memcpy},{"memmove",B_memcpy},{"memset",B_memset},{"sx_sym",B_sym},{"sx_in",B_in},{"sx_text",B_text},{"sx_param",B_param},{"sx_nparams",B_nparams},
     {"sx_assume",B_assume},{"sx_assert",B_assert},{"sx_conc",B_conc},{"sx_trace",B_trace},{"sx_live",B_live},{"sx_reach",B_reach},{"__sigsetjmp",B_setjmp},{"_setjmp",B_setjmp},{"setjmp",B_setjmp},{"sigsetjmp",B_setjmp},{"siglongjmp",B_longjmp},{"longjmp",B_longjmp},{"_longjmp",B_longjmp},
     {"__assert_fail",B_assertfail},{"abort",B_abort},{"sx_done",B_done},{"log10",B_log10},{"sx_native",B_native},{"strlen",B_strlen},{"sx_nvars",B_nvars},{"sx_isheap",B_isheap},{"sx_freeze",B_freeze}};
  }
  static u64 slotAddr(u32 slot,u32 gen,i64 off){ return (1ull<<62)|((u64)(gen&0x3fff)<<48)|((u64)slot<<28)|(u64)(off+(1ll<<27)); }
  static u64 fnAddr(u32 idx){ return (1ull<<61)|((u64)idx<<4); }
  int flat(llvm::Type*t){ if(t->isVoidTy()) return 0; if(auto*s=llvm::dyn_cast<llvm::StructType>(t)){ int n=0; for(auto*e:s->elements()) n+=flat(e); return n; } if(auto*a=llvm::dyn_cast<llvm::ArrayType>(t)) return a->getNumElements()*flat(a->getElementType()); return 1; }
  u8 width(llvm::Type*t){ if(t->isIntegerTy()) { unsigned w=t->getIntegerBitWidth(); if(w>64){ fprintf(stderr,"wide int i%u\n",w); exit(3);} return w; } if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(t->isAggregateType()) return 0; if(t->isVoidTy()) return 0; std::string s; llvm::raw_string_ostream o(s); t->print(o); fprintf(stderr,"bad type %s\n",o.str().c_str()); exit(3); }
  void flatEls(llvm::Type*t,u64 off,std::vector<LoadTy::El>&o){ if(auto*s=llvm::dyn_cast<llvm::StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flatEls(s->getElementType(i),off+sl->getElementOffset(i),o); return; }
    if(auto*a=llvm::dyn_cast<llvm::ArrayType>(t)){ for(unsigned i=0;i<a->getNumElements();i++) flatEls(a->getElementType(),off+i*DL->getTypeAllocSize(a->getElementType()),o); return; }
    o.push_back({(u8)off,width(t),(u8)DL->getTypeStoreSize(t)}); }
  u32 loadTy(llvm::Type*t){ std::vector<LoadTy::El> v; flatEls(t,0,v); if(v.size()>4){ fprintf(stderr,"large first-class aggregate\n"); exit(3);} LoadTy l; l.n=v.size(); for(size_t i=0;i<v.size();i++) l.el[i]=v[i]; ltys.push_back(l); return ltys.size()-1; }
  // constants
  void constVals(llvm::Constant*c,std::vector<Val>&out){ using namespace llvm;
    Type*t=c->getType();
    if(isa<UndefValue>(c)){ if(t->isAggregateType()){ int n=flat(t); for(int i=0;i<n;i++) out.push_back(P.uninit(64)); } else out.push_back(P.uninit(width(t))); return; }
    if(t->isAggregateType()){ if(isa<ConstantAggregateZero>(c)){ int n=flat(t); for(int i=0;i<n;i++) out.push_back(Val{0,nullptr}); return; }
      for(unsigned i=0;;i++){ Constant*e=c->getAggregateElement(i); if(!e) break; constVals(e,out);} return; }
    out.push_back(Val{constInt(c),nullptr}); }
  u64 constInt(llvm::Constant*c){ using namespace llvm;
    if(auto*i=dyn_cast<ConstantInt>(c)) return i->getZExtValue();
    if(isa<ConstantPointerNull>(c)||isa<ConstantAggregateZero>(c)) return 0;
    if(auto*f=dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
    if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gaddr.find(g); if(it==gaddr.end()){ fprintf(stderr,"undefined global %s\n",g->getName().str().c_str()); exit(3);} return it->second; }
    if(auto*fn=dyn_cast<Function>(c)) return fnAddr(getF(fn)->idx);
    if(auto*ga=dyn_cast<GlobalAlias>(c)) return constInt(ga->getAliasee());
    if(isa<UndefValue>(c)) return 0;
    if(auto*e=dyn_cast<ConstantExpr>(c)){ switch(e->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); auto*g=cast<GEPOperator>(e); if(!g->accumulateConstantOffset(*DL,off)){ fprintf(stderr,"gep const\n"); exit(3);} return constInt(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constInt(e->getOperand(0));
      case Instruction::Sub: return constInt(e->getOperand(0))-constInt(e->getOperand(1));
      case Instruction::Add: return constInt(e->getOperand(0))+constInt(e->getOperand(1));
      case Instruction::Trunc: return constInt(e->getOperand(0))&maskw(width(e->getType()));
      default: break; } }
    std::string s; raw_string_ostream o(s); c->print(o); fprintf(stderr,"const? %s\n",o.str().c_str()); exit(3); }
  Func* getF(llvm::Function*f){ auto it=fmap.find(f); if(it!=fmap.end()) return it->second; Func*n=new Func(); n->idx=funcs.size(); n->name=f->getName().str(); n->lf=f; funcs.push_back(n); fmap[f]=n; byName[n->name]=n; return n; }
  void initBytes(llvm::Constant*c,u8*dst){ using namespace llvm; Type*t=c->getType(); 
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(dst,r.data(),r.size()); return; }
    if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initBytes(s->getOperand(i),dst+sl->getElementOffset(i)); return; }
    if(auto*a=dyn_cast<ConstantArray>(c)){ u64 sz=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) initBytes(a->getOperand(i),dst+i*sz); return; }
    u64 v=constInt(c); memcpy(dst,&v,DL->getTypeStoreSize(t)); }

  struct FB { Func*f; std::map<llvm::Value*,i32> regs; std::map<llvm::Constant*,i32> cs; std::map<llvm::BasicBlock*,u32> pc,blk,cnt; };
  i32 opnd(FB&b,llvm::Value*v){ if(auto*c=llvm::dyn_cast<llvm::Constant>(v)){ auto it=b.cs.find(c); if(it!=b.cs.end()) return it->second; std::vector<Val> o; constVals(c,o); i32 id=~(i32)b.f->consts.size(); for(auto&x:o) b.f->consts.push_back(x); if(o.empty()) b.f->consts.push_back(Val{0,nullptr}); b.cs[c]=id; return id; }
    auto it=b.regs.find(v); if(it==b.regs.end()){ if(llvm::isa<llvm::MetadataAsValue>(v)) return 0; fprintf(stderr,"no reg\n"); v->print(llvm::errs()); exit(3);} return it->second; }
  // element k of an aggregate operand; constants are stored at descending ids
  static i32 el(i32 op,int k){ return op>=0? op+k : ~(~op+k); }
  u32 mkEdge(FB&b,llvm::BasicBlock*from,llvm::BasicBlock*to){ Edge e; e.cstart=copies.size(); std::vector<Copy> cs; for(auto&phi:to->phis()){ i32 d=b.regs[&phi]; i32 s=opnd(b,phi.getIncomingValueForBlock(from)); int n=flat(phi.getType()); for(int i=0;i<n;i++) if(d+i!=el(s,i)) cs.push_back({d+i,el(s,i)}); }
    // no temporaries needed when no source is an earlier destination
    copies.insert(copies.end(),cs.begin(),cs.end()); e.ccount=cs.size(); e.pc=b.pc[to]; e.blk=b.blk[to]; e.ninst=b.cnt[to]; edges.push_back(e); return edges.size()-1; }
  int intrinsic(llvm::Function*f){ using namespace llvm; switch(f->getIntrinsicID()){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: return B_nop;
    case Intrinsic::stacksave: return B_zero;
    case Intrinsic::memcpy: case Intrinsic::memmove: return B_memcpy; case Intrinsic::memset: return B_memset;
    case Intrinsic::smax: return B_smax; case Intrinsic::smin: return B_smin; case Intrinsic::umax: return B_umax; case Intrinsic::umin: return B_umin; case Intrinsic::abs: return B_iabs;
    case Intrinsic::usub_sat: return B_usubsat; case Intrinsic::uadd_sat: return B_uaddsat;
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: return B_ovf;
    case Intrinsic::ubsantrap: case Intrinsic::trap: return B_trap; case Intrinsic::vastart: return B_vastart; case Intrinsic::vacopy: return B_vacopy;
    case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: return B_ident; case Intrinsic::is_constant: return B_zero;
    case Intrinsic::ctlz: return B_ctlz; case Intrinsic::cttz: return B_cttz; case Intrinsic::ctpop: return B_ctpop; case Intrinsic::bswap: return B_bswap;
    default: return B_NONE; } }
  void decode(Func*F){ using namespace llvm; llvm::Function*f=F->lf; if(f->isDeclaration()) return; F->defined=true; F->vararg=f->isVarArg(); F->lib=libFuncs.count(F->name)>0;
    FB b; b.f=F; u32 r=0; for(auto&a:f->args()){ b.regs[&a]=r; r+=flat(a.getType()); F->byval.push_back(a.hasByValAttr()? (u64)DL->getTypeAllocSize(a.getParamByValType()):0); } F->nargs=r;
    for(auto&B:*f) for(auto&I:B) if(!I.getType()->isVoidTy()){ b.regs[&I]=r; r+=std::max(1,flat(I.getType())); }
    F->nregs=r+1;
    if(auto*sp=f->getSubprogram()) F->file=sp->getFilename().str();
    // layout: count instructions per block
    u32 pc=0; for(auto&B:*f){ b.pc[&B]=pc; b.blk[&B]=nblocks++; u32 line=0; u32 n=0; for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue; if(!line&&I.getDebugLoc()) line=I.getDebugLoc().getLine(); n++; } b.cnt[&B]=n; pc+=n; blkInfo.push_back({F->idx,line}); F->nblk++; }
    F->entryBlk=b.blk[&f->getEntryBlock()]; F->entryN=b.cnt[&f->getEntryBlock()];
    F->code.reserve(pc);
    for(auto&B:*f) for(auto&I:B){ if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue; Inst n; memset(&n,0,sizeof n); n.line=I.getDebugLoc()?I.getDebugLoc().getLine():0; auto dit=b.regs.find(&I); n.dst=dit==b.regs.end()?-1:dit->second; n.w=I.getType()->isVoidTy()?0:width(I.getType());
      auto O=[&](unsigned i){ return opnd(b,I.getOperand(i)); };
      switch(I.getOpcode()){
        case Instruction::Add: n.op=OP_BIN;n.sub=E_ADD;goto bin; case Instruction::Sub: n.op=OP_BIN;n.sub=E_SUB;goto bin; case Instruction::Mul: n.op=OP_BIN;n.sub=E_MUL;goto bin;
        case Instruction::UDiv: n.op=OP_BIN;n.sub=E_UDIV;goto bin; case Instruction::SDiv: n.op=OP_BIN;n.sub=E_SDIV;goto bin; case Instruction::URem: n.op=OP_BIN;n.sub=E_UREM;goto bin; case Instruction::SRem: n.op=OP_BIN;n.sub=E_SREM;goto bin;
        case Instruction::Shl: n.op=OP_BIN;n.sub=E_SHL;goto bin; case Instruction::LShr: n.op=OP_BIN;n.sub=E_LSHR;goto bin; case Instruction::AShr: n.op=OP_BIN;n.sub=E_ASHR;goto bin;
        case Instruction::And: n.op=OP_BIN;n.sub=E_AND;goto bin; case Instruction::Or: n.op=OP_BIN;n.sub=E_OR;goto bin; case Instruction::Xor: n.op=OP_BIN;n.sub=E_XOR; bin: n.a=O(0);n.b=O(1); break;
        case Instruction::ICmp: { n.op=OP_ICMP; auto p=cast<ICmpInst>(I).getPredicate(); n.sub=p; n.w=width(I.getOperand(0)->getType()); n.a=O(0); n.b=O(1); break; }
        case Instruction::ZExt: n.op=OP_ZEXT; goto cast; case Instruction::SExt: n.op=OP_SEXT; goto cast; case Instruction::Trunc: n.op=OP_TRUNC; goto cast;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { u8 wf=width(I.getOperand(0)->getType()); n.op= wf==n.w?OP_MOV: wf<n.w?OP_ZEXT:OP_TRUNC; goto cast; }
        case Instruction::BitCast: n.op=OP_MOV; cast: n.w2=width(I.getOperand(0)->getType()); n.a=O(0); break;
        case Instruction::Freeze: { int k=flat(I.getType()); n.op=k==1?OP_MOV:OP_MOVN; n.a=O(0); n.x=k; break; }
        case Instruction::Select: { n.op=OP_SELECT; n.a=O(0);n.b=O(1);n.c=O(2); n.x=flat(I.getType()); break; }
        case Instruction::Load: { n.op=OP_LOAD; n.a=O(0); if(I.getType()->isAggregateType()){ n.sub=1; n.x=loadTy(I.getType()); } else { n.k=DL->getTypeStoreSize(I.getType()); } break; }
        case Instruction::Store: { n.op=OP_STORE; n.a=O(0); n.b=O(1); Type*t=I.getOperand(0)->getType(); n.w=width(t); if(t->isAggregateType()){ n.sub=1; n.x=loadTy(t);} else n.k=DL->getTypeStoreSize(t); break; }
        case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(&I); u64 off=0; std::vector<GepIx> ix; for(gep_type_iterator gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*op=gi.getOperand(); if(StructType*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; } u64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(op)){ off+=(u64)ci->getSExtValue()*sc; continue; } ix.push_back({opnd(b,op),width(op->getType()),sc}); }
          n.a=opnd(b,g->getPointerOperand()); n.k=off; if(ix.empty()) n.op=OP_GEP0; else if(ix.size()==1){ n.op=OP_GEP1; n.b=ix[0].op; n.w2=ix[0].w; n.x=geps.size(); geps.push_back(ix);} else { n.op=OP_GEPN; n.x=geps.size(); geps.push_back(ix);} break; }
        case Instruction::Alloca: { auto&al=cast<AllocaInst>(I); n.op=OP_ALLOCA; n.k=DL->getTypeAllocSize(al.getAllocatedType()); n.a=opnd(b,al.getArraySize()); break; }
        case Instruction::Br: { auto&br=cast<BranchInst>(I); if(br.isConditional()){ n.op=OP_CBR; n.a=O(0); n.b=mkEdge(b,&B,br.getSuccessor(0)); n.c=mkEdge(b,&B,br.getSuccessor(1)); } else { n.op=OP_BR; n.b=mkEdge(b,&B,br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto&sw=cast<SwitchInst>(I); n.op=OP_SWITCH; n.a=opnd(b,sw.getCondition()); n.w=width(sw.getCondition()->getType()); SwitchInfo si; for(auto c:sw.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(),mkEdge(b,&B,c.getCaseSuccessor())}); si.def=mkEdge(b,&B,sw.getDefaultDest()); std::sort(si.cases.begin(),si.cases.end()); n.x=switches.size(); switches.push_back(si); break; }
        case Instruction::Ret: { n.op=OP_RET; auto&rt=cast<ReturnInst>(I); if(rt.getReturnValue()){ n.a=opnd(b,rt.getReturnValue()); n.x=flat(rt.getReturnValue()->getType()); } break; }
        case Instruction::Unreachable: n.op=OP_UNREACH; break;
        case Instruction::ExtractValue: { auto&ev=cast<ExtractValueInst>(I); int idx=0; Type*t=ev.getAggregateOperand()->getType(); for(unsigned q:ev.indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<q;i++) idx+=flat(s->getElementType(i)); t=s->getElementType(q);} else { auto*a=cast<ArrayType>(t); idx+=q*flat(a->getElementType()); t=a->getElementType(); } } n.op=flat(t)==1?OP_MOV:OP_MOVN; n.x=flat(t); n.a=el(O(0),idx); break; }
        case Instruction::InsertValue: { auto&iv=cast<InsertValueInst>(I); int idx=0; Type*t=iv.getType(); int tot=flat(t); for(unsigned q:iv.indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<q;i++) idx+=flat(s->getElementType(i)); t=s->getElementType(q);} else { auto*a=cast<ArrayType>(t); idx+=q*flat(a->getElementType()); t=a->getElementType(); } } n.op=OP_INSV; n.a=O(0); n.b=O(1); n.c=idx; n.x=tot; n.k=flat(t); break; }
        case Instruction::UIToFP: n.op=OP_FP;n.sub=F_UITOFP;goto fp1; case Instruction::SIToFP: n.op=OP_FP;n.sub=F_SITOFP;goto fp1; case Instruction::FPToUI: n.op=OP_FP;n.sub=F_FPTOUI;goto fp1; case Instruction::FPToSI: n.op=OP_FP;n.sub=F_FPTOSI;goto fp1; case Instruction::FNeg: n.op=OP_FP;n.sub=F_NEG; fp1: n.w2=width(I.getOperand(0)->getType()); n.a=O(0); n.b=n.a; break;
        case Instruction::FAdd: n.op=OP_FP;n.sub=F_ADD;goto fp2; case Instruction::FSub: n.op=OP_FP;n.sub=F_SUB;goto fp2; case Instruction::FMul: n.op=OP_FP;n.sub=F_MUL;goto fp2; case Instruction::FDiv: n.op=OP_FP;n.sub=F_DIV; fp2: n.a=O(0); n.b=O(1); break;
        case Instruction::FCmp: n.op=OP_FP;n.sub=F_CMP; n.c=cast<FCmpInst>(I).getPredicate(); n.a=O(0); n.b=O(1); break;
        case Instruction::Call: { auto&c=cast<CallInst>(I); n.op=OP_CALL; CallInfo ci; ci.fn=nullptr; ci.bi=0; ci.ind=0; ci.retn=flat(I.getType()); ci.retw=n.w;
          Value*cv=c.getCalledOperand()->stripPointerCasts(); if(auto*cf=dyn_cast<llvm::Function>(cv)){ ci.name=cf->getName().str(); if(cf->isIntrinsic()){ ci.bi=intrinsic(cf); if(!ci.bi){ fprintf(stderr,"intrinsic %s\n",ci.name.c_str()); exit(3);} } else { auto bn=bnames.find(ci.name); if(bn!=bnames.end()) ci.bi=bn->second; else ci.fn=getF(cf); } } else ci.ind=opnd(b,cv);
          if(ci.bi!=B_nop) for(unsigned i=0;i<c.arg_size();i++){ Value*av=c.getArgOperand(i); Arg a; a.op=opnd(b,av); a.n=flat(av->getType()); a.byval=c.isByValArgument(i)? (u64)DL->getTypeAllocSize(c.getParamByValType(i)):0; ci.args.push_back(a); }
          n.k = ci.bi? (c.arg_size()? (isa<ConstantInt>(c.getArgOperand(c.arg_size()-1))?0:0):0):0; if(ci.bi==B_ovf){ auto id=cast<IntrinsicInst>(c).getIntrinsicID(); n.w=width(c.getArgOperand(0)->getType()); n.sub= id==Intrinsic::sadd_with_overflow?0:id==Intrinsic::ssub_with_overflow?1:id==Intrinsic::smul_with_overflow?2:id==Intrinsic::uadd_with_overflow?3:id==Intrinsic::usub_with_overflow?4:5; }
          n.x=calls.size(); calls.push_back(ci); break; }
        default: { fprintf(stderr,"unsupported instruction\n"); I.print(errs()); exit(3); } }
      F->code.push_back(n); }
  }
  bool load(const std::vector<std::string>&libs,const std::vector<std::string>&others){ using namespace llvm; SMDiagnostic err; 
    for(size_t i=0;i<libs.size()+others.size();i++){ const std::string&fn=i<libs.size()?libs[i]:others[i-libs.size()]; auto m=parseIRFile(fn,err,ctx); if(!m){ err.print("symx",errs()); return false; }
      if(i<libs.size()){ for(auto&f:*m) if(!f.isDeclaration()) libFuncs.insert(f.getName().str()); for(auto&g:m->globals()) if(!g.isDeclaration()&&!g.isThreadLocal()) libGlobals.insert(g.getName().str()); }
      if(!M) M=std::move(m); else { if(Linker::linkModules(*M,std::move(m))) return false; } }
    DL=&M->getDataLayout(); return true; }
};
