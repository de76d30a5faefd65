// Symbolic executor for LLVM IR.
#include "expr.h"
#include "smt.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <set>
#include <list>
#include <algorithm>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
using namespace sx;
static const DataLayout* DL; static Module* M;

struct Val { E e=nullptr; std::shared_ptr<std::vector<Val>> v; Val(){} Val(E x):e(x){} };
struct Cell { E e; uint8_t idx; };
struct Obj { uint64_t base=0,size=0; std::vector<Cell> c; bool alive=true; char kind='h'; std::string name; };
typedef std::shared_ptr<Obj> ObjP;
struct FnInfo { DenseMap<const Value*,unsigned> idx; unsigned n=0; };
struct Frame { Function* f; FnInfo* fi; BasicBlock* bb; BasicBlock* prev=nullptr; BasicBlock::iterator it; std::vector<Val> regs; std::vector<uint64_t> allocas; CallBase* call=nullptr; std::vector<Val> varargs; };
struct Group { int active=0; size_t pc0=0; std::vector<struct State*> arrived; };
struct State {
  std::vector<Frame> fr; std::map<uint64_t,ObjP> objs; std::vector<E> pc; Model m; bool mv=true; uint64_t next=0;
  std::vector<std::pair<uint32_t,std::string>> inputs; std::vector<std::shared_ptr<Group>> groups; bool expectCheck=false; std::set<std::string> seen; uint64_t steps=0; int lastForkDepth=0; std::map<std::string,int> seqs;
};
static std::vector<State*> g_work;
static DenseMap<const Function*,FnInfo*> g_fi;
static std::map<const GlobalValue*,uint64_t> g_gaddr; static std::map<uint64_t,const GlobalValue*> g_addrg; static std::map<uint64_t,Function*> g_fnaddr;
static uint64_t g_nextG=1ull<<41;
static const uint64_t HEAP0=1ull<<42, GAP=1<<16, PTRMIN=1ull<<40;
static double g_deadline, g_t0; static double g_budget=300; static int g_jobs=2; static double g_perJob=120; static uint64_t g_maxStates=200000; 
static std::string g_out; static uint64_t g_instr=0,g_paths=0,g_forks=0,g_merges=0,g_asserts=0,g_trivial=0,g_obl=0,g_checkfail=0,g_prunedUnknown=0,g_safety=0;
static std::set<std::string> g_reached, g_reachUnk, g_funcs; static std::vector<std::string> g_incomplete; static std::map<std::string,int> g_unsupported;
struct Viol { std::string msg,site; std::vector<std::pair<std::string,std::string>> in; };
static std::vector<Viol> g_viol; static int g_maxViol=6; static std::map<std::string,int> g_violCount;
struct Obl { std::vector<E> cs; std::string msg,site; std::vector<std::pair<uint32_t,std::string>> inputs; HardJob job; bool reach=false; Model base; };
static std::list<Obl> g_obls; static std::set<std::string> g_oblKeys; static std::vector<std::string> g_undecided;
static bool g_trace=false;
static void incomplete(const std::string& s){ for(auto& x:g_incomplete) if(x==s) return; g_incomplete.push_back(s); }

// ------------------------------------------------------------------ helpers
static unsigned ptrW=64;
static SortK fsk(Type* t){ return t->isFloatTy()?S_F32:S_F64; }
static bool isScalar(Type* t){ return t->isIntegerTy()||t->isPointerTy()||t->isFloatTy()||t->isDoubleTy(); }
static unsigned tw(Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 0; }
static uint64_t szStore(Type* t){ return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t szAlloc(Type* t){ return DL->getTypeAllocSize(t).getFixedValue(); }
static E freshUndef(Type* t){ E v=mkVar(tw(t),"undef"+std::to_string(g_vars.size()),1); return (t->isFloatTy()||t->isDoubleTy())?mkBitsF(v,fsk(t)):v; }
static Val mkAgg(std::vector<Val> v){ Val r; r.v=std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static unsigned nElems(Type* t){ if(auto*s=dyn_cast<StructType>(t)) return s->getNumElements(); if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements(); if(auto*v=dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 0; }
static Type* elemTy(Type* t,unsigned i){ if(auto*s=dyn_cast<StructType>(t)) return s->getElementType(i); if(auto*a=dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static Val undefVal(Type* t){ if(isScalar(t)) return Val(); std::vector<Val> v(nElems(t)); for(unsigned i=0;i<v.size();i++) v[i]=undefVal(elemTy(t,i)); return mkAgg(v); }
static E need(const Val& v,Type* t){ if(v.e) return v.e; return freshUndef(t); }
static Val iteVal(E c,const Val& a,const Val& b,Type* t){ if(c->isTrue()) return a; if(c->isFalse()) return b;
  if(isScalar(t)){ if(!a.e) return b; if(!b.e) return a; return mkIte(c,a.e,b.e); }
  std::vector<Val> r(nElems(t)); for(unsigned i=0;i<r.size();i++) r[i]=iteVal(c,(*a.v)[i],(*b.v)[i],elemTy(t,i)); return mkAgg(r); }
static FnInfo* fnInfo(Function* f){ auto& p=g_fi[f]; if(p) return p; p=new FnInfo; for(auto& a:f->args()) p->idx[&a]=p->n++; for(auto& b:*f) for(auto& i:b) if(!i.getType()->isVoidTy()) p->idx[&i]=p->n++; return p; }
static std::string locOf(const Instruction* i){ std::string s; if(!i) return s; if(const DILocation* l=i->getDebugLoc()){ s=l->getFilename().str()+":"+std::to_string(l->getLine()); int d=0; while((l=l->getInlinedAt())&&d++<4) s+=" <- "+l->getFilename().str()+":"+std::to_string(l->getLine()); } else s=i->getFunction()->getName().str(); return s; }

static uint64_t addrOf(const GlobalValue* g){
  if(auto*a=dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
  auto it=g_gaddr.find(g); if(it!=g_gaddr.end()) return it->second;
  uint64_t sz=16; if(auto*v=dyn_cast<GlobalVariable>(g)) sz=std::max<uint64_t>(1,v->getValueType()->isSized()?szAlloc(v->getValueType()):16);
  uint64_t a=(g_nextG+63)&~63ull; g_nextG=a+sz+GAP; g_gaddr[g]=a; g_addrg[a]=g; if(auto*f=dyn_cast<Function>(g)) g_fnaddr[a]=const_cast<Function*>(f); return a; }
static Val evalConst(const Constant* c);
static E constGEP(const GEPOperator* g,std::function<E(const Value*)> get){
  E p=get(g->getPointerOperand());
  for(auto ti=gep_type_begin(g),te=gep_type_end(g);ti!=te;++ti){
    const Value* ix=ti.getOperand();
    if(StructType* st=ti.getStructTypeOrNull()){ uint64_t o=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); p=mkBin(O_ADD,p,mkConst(64,o)); }
    else { uint64_t s=szAlloc(ti.getIndexedType()); E i=get(ix); i=i->w<64?mkSExt(i,64):i->w>64?mkExtract(i,0,64):i; p=mkBin(O_ADD,p,mkBin(O_MUL,i,mkConst(64,s))); } }
  return p; }
static u128 apInt(const APInt& a){ u128 v=a.getRawData()[0]; if(a.getBitWidth()>64) v|=(u128)a.getRawData()[1]<<64; return v; }
static E castOp(unsigned op,E a,Type* st,Type* dt);
static Val evalConst(const Constant* c){
  Type* t=c->getType();
  if(auto*i=dyn_cast<ConstantInt>(c)) return mkConst(i->getBitWidth(),apInt(i->getValue()));
  if(auto*f=dyn_cast<ConstantFP>(c)){ APInt b=f->getValueAPF().bitcastToAPInt(); return mkFBitsConst(fsk(t),b.getZExtValue()); }
  if(isa<ConstantPointerNull>(c)) return mkConst(64,0);
  if(isa<UndefValue>(c)) return undefVal(t);
  if(isa<ConstantAggregateZero>(c)){ std::vector<Val> v(nElems(t)); for(unsigned i=0;i<v.size();i++) v[i]=evalConst(Constant::getNullValue(elemTy(t,i))); return mkAgg(v); }
  if(auto*g=dyn_cast<GlobalValue>(c)) return mkConst(64,addrOf(g));
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ std::vector<Val> v(d->getNumElements()); for(unsigned i=0;i<v.size();i++) v[i]=evalConst(d->getElementAsConstant(i)); return mkAgg(v); }
  if(isa<ConstantAggregate>(c)){ std::vector<Val> v(c->getNumOperands()); for(unsigned i=0;i<v.size();i++) v[i]=evalConst(cast<Constant>(c->getOperand(i))); return mkAgg(v); }
  if(auto*x=dyn_cast<ConstantExpr>(c)){
    auto get=[&](const Value* v){ return need(evalConst(cast<Constant>(v)),v->getType()); };
    if(x->getOpcode()==Instruction::GetElementPtr) return constGEP(cast<GEPOperator>(x),get);
    if(x->isCast()) return castOp(x->getOpcode(),get(x->getOperand(0)),x->getOperand(0)->getType(),t);
    if(x->getOpcode()==Instruction::Sub) return mkBin(O_SUB,get(x->getOperand(0)),get(x->getOperand(1)));
    if(x->getOpcode()==Instruction::Add) return mkBin(O_ADD,get(x->getOperand(0)),get(x->getOperand(1)));
    if(x->getOpcode()==Instruction::Xor) return mkBin(O_XOR,get(x->getOperand(0)),get(x->getOperand(1)));
    if(x->getOpcode()==Instruction::ICmp){ auto p=(CmpInst::Predicate)x->getPredicate(); E a=get(x->getOperand(0)),b=get(x->getOperand(1)); if(p==CmpInst::ICMP_EQ) return mkEq(a,b); if(p==CmpInst::ICMP_NE) return mkNot(mkEq(a,b)); }
  }
  if(auto*b=dyn_cast<BlockAddress>(c)) return mkConst(64,1);
  std::string s; raw_string_ostream o(s); c->print(o); fprintf(stderr,"unsupported constant %s\n",o.str().c_str()); return undefVal(t);
}
static E castOp(unsigned op,E a,Type* st,Type* dt){
  unsigned w=tw(dt);
  switch(op){
    case Instruction::Trunc: return mkExtract(a,0,w); case Instruction::ZExt: return mkZExt(a,w); case Instruction::SExt: return mkSExt(a,w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a->w>w?mkExtract(a,0,w):mkZExt(a,w);
    case Instruction::BitCast: if(a->isFP()&&!(dt->isFloatTy()||dt->isDoubleTy())) return mkFBits(a); if(!a->isFP()&&(dt->isFloatTy()||dt->isDoubleTy())) return mkBitsF(a,fsk(dt)); return a;
    case Instruction::FPExt: return mkFConv(O_FPEXT,a,S_F64); case Instruction::FPTrunc: return mkFConv(O_FPTRUNC,a,S_F32);
    case Instruction::SIToFP: return mkFConv(O_SITOFP,a,fsk(dt)); case Instruction::UIToFP: return mkFConv(O_UITOFP,a,fsk(dt));
    case Instruction::FPToSI: return mkFToI(O_FPTOSI,a,w); case Instruction::FPToUI: return mkFToI(O_FPTOUI,a,w);
    case Instruction::AddrSpaceCast: return a; }
  fprintf(stderr,"cast %u\n",op); abort();
}
// ------------------------------------------------------------------ constraints
static std::vector<E> slice(const std::vector<E>& pc,const std::vector<E>& extra){
  std::vector<uint32_t> vs; for(E x:extra){ std::vector<uint32_t> t; auto& v=varsOf(x); std::set_union(vs.begin(),vs.end(),v.begin(),v.end(),std::back_inserter(t)); vs.swap(t);} 
  std::vector<char> used(pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ auto& v=varsOf(pc[i]); bool hit=false; size_t a=0,b=0; while(a<v.size()&&b<vs.size()){ if(v[a]==vs[b]){hit=true;break;} if(v[a]<vs[b]) a++; else b++; }
      if(hit){ used[i]=1; std::vector<uint32_t> t; std::set_union(vs.begin(),vs.end(),v.begin(),v.end(),std::back_inserter(t)); if(t.size()!=vs.size()) ch=true; vs.swap(t);} } }
  std::vector<E> r; for(size_t i=0;i<pc.size();i++) if(used[i]) r.push_back(pc[i]); for(E x:extra) r.push_back(x); return r; }
static void addPC(State& s,E c){ if(c->isTrue()) return; if(c->op==O_AND&&c->isBool()){ addPC(s,c->k[0]); addPC(s,c->k[1]); return; } for(E x:s.pc) if(x==c) return; s.pc.push_back(c); }
static bool inPC(State& s,E c){ for(E x:s.pc) if(x==c) return true; return false; }
static bool holds(State& s,E c){ if(!s.mv) return false; return evalBool(c,s.m); }
static Res feasible(State& s,E c,Model* out,int ms=0){
  if(c->isConst()) return c->c?R_SAT:R_UNSAT;
  E n=mkNot(c); for(E x:s.pc){ if(x==n) return R_UNSAT; }
  Model m; Res r=quickCheck(slice(s.pc,{c}),&m,ms?ms:g_quickMs);
  if(r==R_SAT&&out){ *out=s.m; out->memo.clear(); for(auto&kv:m.var) out->var[kv.first]=kv.second; }
  return r; }
static std::vector<std::pair<std::string,std::string>> dumpInputs(const std::vector<std::pair<uint32_t,std::string>>& in,const Model& m){
  std::vector<std::pair<std::string,std::string>> r; for(auto&[v,n]:in){ u128 x=evalExpr(g_vars[v].e,m); char b[64]; snprintf(b,64,"%llx",(unsigned long long)x); r.push_back({n,b}); } return r; }
static void report(const std::string& msg,const std::string& site,const std::vector<std::pair<uint32_t,std::string>>& in,const Model& m){
  std::string key=msg+"@"+site; if(g_violCount[key]++>=2) return; fprintf(stderr,"[viol] %s at %s\n",msg.c_str(),site.c_str());
  g_viol.push_back({msg,site,dumpInputs(in,m)}); }
static void defer(State& s,std::vector<E> cs,const std::string& msg,const std::string& site,bool reach=false){
  std::vector<uint32_t> ids; for(E c:cs) ids.push_back(c->id); std::sort(ids.begin(),ids.end()); std::string k=reach?"r":""; k.append((char*)ids.data(),ids.size()*4); if(!g_oblKeys.insert(k).second) return;
  g_obls.emplace_back(); Obl& o=g_obls.back(); o.cs=cs; o.msg=msg; o.site=site; o.inputs=s.inputs; o.reach=reach; o.job.cs=cs; if(s.mv){ o.base=s.m; o.base.memo=std::unordered_map<uint32_t,u128>(); } }
// full confirmation that the current path is feasible, then report
static void violate(State& s,const std::string& msg,const Instruction* at){
  std::string site=locOf(at);
  if(!s.mv){ Model m; Res r=quickCheck(s.pc,&m,3000); if(r==R_UNSAT) return; if(r==R_UNKNOWN){ defer(s,s.pc,msg,site); return; } s.m=m; s.mv=true; }
  report(msg,site,s.inputs,s.m); }
// assertion-like obligation: c must hold. Returns false when the path cannot continue.
static bool oblige(State& s,E c,const std::string& msg,const Instruction* at){
  if(c->isTrue()) return true;
  if(inPC(s,c)) return true;
  g_obl++;
  if(s.mv&&!evalBool(c,s.m)){ report(msg,locOf(at),s.inputs,s.m); }
  else { Model m; Res r=feasible(s,mkNot(c),&m);
    if(r==R_SAT){ if(s.mv) report(msg,locOf(at),s.inputs,m); else { auto cs=s.pc; cs.push_back(mkNot(c)); defer(s,cs,msg,locOf(at)); } }
    else if(r==R_UNKNOWN){ auto cs=slice(s.pc,{mkNot(c)}); if(!s.mv){ cs=s.pc; cs.push_back(mkNot(c)); } defer(s,cs,msg,locOf(at)); }
    else { return true; } }
  if(c->isFalse()) return false;
  // continue under the assumption
  if(!(s.mv&&evalBool(c,s.m))){ Model m; Res r=feasible(s,c,&m); if(r==R_UNSAT) return false; if(r==R_SAT&&s.mv) s.m=m; else s.mv=false; }
  addPC(s,c); return true; }

// ------------------------------------------------------------------ forking
static State* forkState(State& s){ State* n=new State(s); n->m.memo.clear(); g_forks++; for(auto&g:n->groups) g->active++; return n; }
static void doMerge(std::shared_ptr<Group> g);
static void endState(State* s){ for(size_t i=s->groups.size();i-->0;){ auto g=s->groups[i]; g->active--; } auto gs=s->groups; delete s; for(size_t i=gs.size();i-->0;) if(gs[i]->active==0&&!gs[i]->arrived.empty()) doMerge(gs[i]); }
// branch on c: returns +1 true only, 0 false only, 2 both (other state pushed with ¬c), -1 dead
static int branch(State& s,E c,State** other){
  if(c->isConst()) return c->c?1:0;
  if(inPC(s,c)) return 1; E n=mkNot(c); if(inPC(s,n)) return 0;
  Model mt,mf; Res rt,rf;
  if(s.mv){ bool v=evalBool(c,s.m); if(v){ rt=R_SAT; mt=s.m; rf=feasible(s,n,&mf); } else { rf=R_SAT; mf=s.m; rt=feasible(s,c,&mt); } }
  else { rt=feasible(s,c,nullptr); rf=rt==R_UNSAT?R_UNKNOWN:feasible(s,n,nullptr); if(rt==R_UNSAT&&rf==R_UNSAT) return -1; }
  if(rt==R_UNSAT){ if(!s.mv) addPC(s,n); return 0; } if(rf==R_UNSAT){ if(!s.mv) addPC(s,c); return 1; }
  bool mv=s.mv;
  State* o=forkState(s); addPC(*o,n); addPC(s,c);
  if(mv){ if(rf==R_SAT){ o->m=mf; o->mv=true; } else { o->mv=false; g_prunedUnknown++; } if(rt==R_SAT){ s.m=mt; s.mv=true; } else { s.mv=false; g_prunedUnknown++; } }
  *other=o; return 2; }
// enumerate values of e by forking; the re-executed state is pushed
static u128 concretize(State& s,E e,bool& dead){
  dead=false; if(e->isConst()) return e->c;
  if(!s.mv){ Model m; Res r=quickCheck(s.pc,&m,5000); if(r==R_UNSAT){ dead=true; return 0; } if(r==R_UNKNOWN){ incomplete("concretization with unknown model"); dead=true; return 0; } s.m=m; s.mv=true; }
  u128 v=evalExpr(e,s.m); E eq=mkEq(e,mkConst(e->w,v)); Model m; Res r=feasible(s,mkNot(eq),&m,5000);
  if(r!=R_UNSAT){ State* o=forkState(s); addPC(*o,mkNot(eq)); if(r==R_SAT){ o->m=m; } else o->mv=false; g_work.push_back(o); }
  addPC(s,eq); return v; }

// ------------------------------------------------------------------ memory
static void storeConst(std::vector<Cell>& c,uint64_t off,const Constant* k);
static void putE(std::vector<Cell>& c,uint64_t off,E e,unsigned n){ for(unsigned i=0;i<n;i++) c[off+i]={e,(uint8_t)i}; }
static void putVal(std::vector<Cell>& c,uint64_t off,const Val& v,Type* t){
  if(isScalar(t)){ unsigned n=szStore(t); if(!v.e){ for(unsigned i=0;i<n;i++) c[off+i]={nullptr,0}; return; } E e=v.e; if(!e->isFP()&&e->w%8) e=mkZExt(e,n*8); putE(c,off,e,n); return; }
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) putVal(c,off+sl->getElementOffset(i),(*v.v)[i],st->getElementType(i)); return; }
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ unsigned bw=tw(vt->getElementType()); if(bw%8){ E acc=nullptr; for(unsigned i=0;i<vt->getNumElements();i++){ E x=need((*v.v)[i],vt->getElementType()); acc=acc?mkConcat(x,acc):x; } unsigned n=szStore(t); putE(c,off,mkZExt(acc,n*8),n); return; } }
  Type* et=elemTy(t,0); uint64_t es=isa<FixedVectorType>(t)?tw(et)/8:szAlloc(et); for(unsigned i=0;i<nElems(t);i++) putVal(c,off+i*es,(*v.v)[i],et); }
static E byteOf(const Cell& c){ if(!c.e) return mkVar(8,"undefb"+std::to_string(g_vars.size()),1); E e=c.e->isFP()?mkFBits(c.e):c.e; return mkExtract(e,c.idx*8,8); }
static Val getVal(std::vector<Cell>& c,uint64_t off,Type* t){
  if(isScalar(t)){ unsigned n=szStore(t); Cell& f=c[off]; bool undef=true; for(unsigned i=0;i<n;i++) if(c[off+i].e) undef=false; if(undef) return Val();
    bool fast=f.e&&f.idx==0&&f.e->w==n*8; for(unsigned i=1;i<n&&fast;i++) fast=c[off+i].e==f.e&&c[off+i].idx==i;
    E e; if(fast) e=f.e; else { // contiguous part of a larger value?
      bool part=f.e!=nullptr; for(unsigned i=1;i<n&&part;i++) part=c[off+i].e==f.e&&c[off+i].idx==f.idx+i;
      if(part){ E b=f.e->isFP()?mkFBits(f.e):f.e; e=mkExtract(b,f.idx*8,n*8); }
      else { e=nullptr; for(unsigned i=0;i<n;i++){ if(!c[off+i].e){ // stable undef byte
              E u=mkVar(8,"undefb"+std::to_string(g_vars.size()),1); c[off+i]={u,0}; } E b=byteOf(c[off+i]); e=e?mkConcat(b,e):b; } } }
    if(t->isFloatTy()||t->isDoubleTy()) return e->isFP()?e:mkBitsF(e,fsk(t));
    if(e->isFP()) e=mkFBits(e); if(e->w>tw(t)) e=mkExtract(e,0,tw(t)); return e; }
  std::vector<Val> r(nElems(t));
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<r.size();i++) r[i]=getVal(c,off+sl->getElementOffset(i),st->getElementType(i)); return mkAgg(r); }
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ unsigned bw=tw(vt->getElementType()); if(bw%8){ unsigned n=szStore(t); E acc=nullptr; for(unsigned i=0;i<n;i++){ E b=byteOf(c[off+i]); acc=acc?mkConcat(b,acc):b; } for(unsigned i=0;i<r.size();i++) r[i]=mkExtract(acc,i*bw,bw); return mkAgg(r);} }
  Type* et=elemTy(t,0); uint64_t es=isa<FixedVectorType>(t)?tw(et)/8:szAlloc(et); for(unsigned i=0;i<r.size();i++) r[i]=getVal(c,off+i*es,et); return mkAgg(r); }

static ObjP materialize(State& s,const GlobalValue* g){
  auto*v=dyn_cast<GlobalVariable>(g); if(!v) return nullptr; auto o=std::make_shared<Obj>(); o->base=addrOf(g); o->size=std::max<uint64_t>(1,szAlloc(v->getValueType())); o->kind='g'; o->name=g->getName().str(); o->c.assign(o->size,Cell{nullptr,0});
  if(v->hasInitializer()){ // padding of initialised globals is zero
    for(auto& c:o->c) c={mkConst(8,0),0}; putVal(o->c,0,evalConst(v->getInitializer()),v->getValueType()); }
  else { std::string n=o->name; if(n=="__libc_single_threaded") o->c[0]={mkConst(8,1),0}; else for(auto& c:o->c) c={mkConst(8,0),0}; }
  s.objs[o->base]=o; return o; }
static ObjP findObj(State& s,uint64_t a){ // object containing a (or one past the end)
  auto it=s.objs.upper_bound(a); if(it!=s.objs.begin()){ --it; if(a<=it->second->base+it->second->size) return it->second; }
  if(a<HEAP0){ auto g=g_addrg.upper_bound(a); if(g!=g_addrg.begin()){ --g; auto*v=dyn_cast<GlobalVariable>(g->second); if(v&&a<=g->first+std::max<uint64_t>(1,szAlloc(v->getValueType()))) return materialize(s,v); } }
  return nullptr; }
static Obj& writable(State& s,ObjP& o){ uint64_t b=o->base; o.reset(); auto& p=s.objs[b]; if(p.use_count()>1) p=std::make_shared<Obj>(*p); return *p; }
static ObjP allocObj(State& s,uint64_t size,char kind,const std::string& name,unsigned align=16){
  uint64_t a=(s.next+std::max(64u,align)-1)/std::max(64u,align)*std::max(64u,align); s.next=a+size+GAP; s.next=(s.next+63)&~63ull; auto o=std::make_shared<Obj>(); o->base=a; o->size=size; o->kind=kind; o->name=name; o->c.assign(size,Cell{nullptr,0}); s.objs[a]=o; return o; }
struct Acc { E guard; ObjP o; E off; };
static int tz(E e){ switch(e->op){ case O_CONST:{ if(!e->c) return 60; int n=0; while(!((e->c>>n)&1)) n++; return n; } case O_SHL: if(e->k[1]->isConst()) return std::min<int>(60,tz(e->k[0])+(int)e->k[1]->c); return 0; case O_MUL: return std::min(60,tz(e->k[0])+tz(e->k[1])); case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(tz(e->k[0]),tz(e->k[1])); case O_AND: return std::max(tz(e->k[0]),tz(e->k[1])); case O_ITE: return std::min(tz(e->k[1]),tz(e->k[2])); case O_CONCAT: { int t=tz(e->k[1]); if(e->k[1]->isConst()&&e->k[1]->c==0) return std::min<int>(60,e->k[1]->w+tz(e->k[0])); return std::min<int>(t,e->k[1]->w); } case O_ZEXT: case O_SEXT: return tz(e->k[0]); default: return 0; } }
static int64_t strideOf(E e){ // a divisor of every value of e
  switch(e->op){ case O_CONST: return e->c==0?0:(int64_t)e->c<0?-(int64_t)e->c:(int64_t)e->c; case O_MUL: { int64_t a=strideOf(e->k[0]),b=strideOf(e->k[1]); if(!a||!b) return 0; if((i128)a*b>(1<<28)) return std::max(a,b); return a*b; } case O_ADD: case O_SUB: return std::__gcd(strideOf(e->k[0]),strideOf(e->k[1])); case O_ITE: return std::__gcd(strideOf(e->k[1]),strideOf(e->k[2])); case O_ZEXT: case O_SEXT: return strideOf(e->k[0]); default: return (int64_t)1<<std::min(20,tz(e)); } }
static bool split(E p,E g,std::vector<std::pair<E,E>>& out,int depth=0){ // leaves (guard, pointer expr)
  if(p->op==O_ITE&&depth<64&&p->w==64){ if(!split(p->k[1],mkAnd(g,p->k[0]),out,depth+1)) return false; return split(p->k[2],mkAnd(g,mkNot(p->k[0])),out,depth+1); }
  if(p->op==O_ADD){ for(int i=0;i<2;i++){ E x=p->k[i]; bool base=false; if(x->op==O_ITE){ std::vector<E> st{x}; while(!st.empty()){ E y=st.back(); st.pop_back(); if(y->op==O_ITE){ st.push_back(y->k[1]); st.push_back(y->k[2]); } else if(y->op==O_ADD){ st.push_back(y->k[0]); st.push_back(y->k[1]); } else if(y->isConst()&&y->c>=PTRMIN) { base=true; break; } } }
      if(base){ std::vector<std::pair<E,E>> t; if(!split(x,g,t,depth+1)) return false; for(auto&q:t) out.push_back({q.first,mkBin(O_ADD,q.second,p->k[1-i])}); return out.size()<600; } } }
  if(!g->isFalse()) out.push_back({g,p}); return out.size()<600; }
static void candidates(E off,uint64_t size,uint64_t n,std::vector<uint64_t>& out){
  std::vector<E> st{off}; std::set<uint64_t> ks; bool leaf=true; int cnt=0;
  while(!st.empty()&&leaf){ E y=st.back(); st.pop_back(); if(++cnt>2000){leaf=false;break;} if(y->op==O_ITE){ st.push_back(y->k[1]); st.push_back(y->k[2]); } else if(y->isConst()) ks.insert((uint64_t)y->c); else leaf=false; }
  if(leaf){ for(uint64_t k:ks) if(k+n<=size&&k<=size) out.push_back(k); return; }
  // shape const + stride*x
  uint64_t c0=0; E v=off; if(off->op==O_ADD&&off->k[1]->isConst()){ c0=(uint64_t)off->k[1]->c; v=off->k[0]; }
  int64_t sd=strideOf(v); if(sd<=0) sd=1; if(sd&(sd-1)){ if((off->smin<0||off->smax>(1ll<<40))) {} } 
  uint64_t lo=0,hi=size-n; if(off->umin<=off->umax){ lo=std::max<uint64_t>(lo,off->umin); hi=std::min<uint64_t>(hi,off->umax);} 
  // non power-of-two strides are only exact when the arithmetic does not wrap; accept when the value range is small
  if((sd&(sd-1))&&!(v->smin>=-(1ll<<40)&&v->smax<=(1ll<<40))){ int64_t q=1; while(sd%(q*2)==0) q*=2; sd=q; }
  for(uint64_t k=lo;k<=hi;k++) if(((int64_t)(k-c0))%sd==0) out.push_back(k); }
static std::string objDesc(const ObjP& o){ return std::string(1,o->kind)+":"+o->name+"["+std::to_string(o->size)+"]"; }
// resolve pointer p for an access of n bytes. false -> path dead / re-queued
static bool resolve(State& s,E p,uint64_t n,std::vector<Acc>& out,const Instruction* at,bool write){
  std::vector<std::pair<E,E>> leaves; if(!split(p,mkBool(true),leaves)){ incomplete("pointer with too many targets"); return false; }
  for(auto&[g,q]:leaves){
    if(!g->isTrue()&&!q->isConst()==false&&false) continue;
    uint64_t a; 
    if(q->isConst()) a=(uint64_t)q->c; else {
      Model* mp=nullptr; Model gm; bool have=s.mv&&evalBool(g,s.m); if(have) mp=&s.m; else { Res r=feasible(s,g,&gm); if(r==R_UNSAT) continue; if(r==R_SAT) mp=&gm; else { mp=&s.m; } }
      a=(uint64_t)evalExpr(q,*mp); 
      // prefer the constant base inside the expression
      std::vector<E> st{q}; int cnt=0; while(!st.empty()&&cnt++<200){ E y=st.back(); st.pop_back(); if(y->op==O_ADD){ st.push_back(y->k[0]); st.push_back(y->k[1]); } else if(y->isConst()&&y->c>=PTRMIN&&y->c<((u128)1<<62)){ ObjP t=findObj(s,(uint64_t)y->c); ObjP t2=findObj(s,a); if(t&&!t2) a=(uint64_t)y->c; break; } } }
    ObjP o=findObj(s,a);
    if(o&&n>0&&q->isConst()&&a==o->base+o->size&&o->size>0){ /* one past */ }
    std::string bad; E inb=nullptr,off=nullptr;
    if(!o||!o->alive){ bad=!o?(a<65536?"null pointer dereference":"access outside any object"):"use after free of "+objDesc(o); }
    else { off=mkBin(O_SUB,q,mkConst(64,o->base)); if(o->size<n) inb=mkBool(false); else inb=mkBin(O_ULE,off,mkConst(64,o->size-n)); if(write&&o->kind=='g'){ auto*gv=dyn_cast_or_null<GlobalVariable>(g_addrg[o->base]); if(gv&&gv->isConstant()&&gv->hasInitializer()&&!gv->getInitializer()->isNullValue()&&!isa<UndefValue>(gv->getInitializer())) { bad="write to constant"; } } }
    if(!bad.empty()){
      if(g->isTrue()){ violate(s,bad,at); return false; }
      if(!oblige(s,mkNot(g),bad,at)) return false; continue; }
    if(!inb->isTrue()){
      E c=mkOr(mkNot(g),inb); g_safety++;
      if(!oblige(s,c,std::string(write?"out-of-bounds write to ":"out-of-bounds read from ")+objDesc(o),at)) return false;
      if(inb->isFalse()) continue; }
    out.push_back({g,o,off}); }
  return !out.empty(); }
static Val doLoad(State& s,E p,Type* t,const Instruction* at,bool& ok){
  uint64_t n=szStore(t); std::vector<Acc> as; ok=resolve(s,p,n,as,at,false); if(!ok) return Val();
  Val r; bool first=true;
  for(size_t i=as.size();i-->0;){ Acc& a=as[i]; Val x;
    if(a.off->isConst()) { ObjP o=a.o; x=getVal(o->c,(uint64_t)a.off->c,t); }
    else { std::vector<uint64_t> ks; candidates(a.off,a.o->size,n,ks); if(ks.size()>5000||ks.empty()){ incomplete("symbolic offset with too many candidates"); ok=false; return Val(); }
      x=getVal(a.o->c,ks.back(),t); for(size_t k=ks.size()-1;k-->0;) x=iteVal(mkEq(a.off,mkConst(64,ks[k])),getVal(a.o->c,ks[k],t),x,t); }
    if(first){ r=x; first=false; } else r=iteVal(a.guard,x,r,t); }
  return r; }
static bool doStore(State& s,E p,const Val& v,Type* t,const Instruction* at){
  uint64_t n=szStore(t); std::vector<Acc> as; if(!resolve(s,p,n,as,at,true)) return false;
  for(Acc& a:as){ ObjP o=a.o; a.o.reset(); Obj& w=writable(s,o);
    if(a.off->isConst()){ uint64_t k=(uint64_t)a.off->c; if(a.guard->isTrue()||as.size()==1) putVal(w.c,k,v,t); else putVal(w.c,k,iteVal(a.guard,v,getVal(w.c,k,t),t),t); }
    else { std::vector<uint64_t> ks; candidates(a.off,w.size,n,ks); if(ks.size()>5000||ks.empty()){ incomplete("symbolic offset with too many candidates"); return false; }
      for(uint64_t k:ks){ E c=mkAnd(as.size()==1?mkBool(true):a.guard,mkEq(a.off,mkConst(64,k))); putVal(w.c,k,iteVal(c,v,getVal(w.c,k,t),t),t); } } }
  return true; }
// single concrete object/offset (forks when symbolic)
static bool conc(State& s,E p,uint64_t n,ObjP& o,uint64_t& off,const Instruction* at,bool write,bool& requeue){
  requeue=false; bool dead; u128 a=concretize(s,p,dead); if(dead) return false;
  if(n==0){ o=nullptr; return true; }
  std::vector<Acc> as; if(!resolve(s,mkConst(64,a),n,as,at,write)) return false; o=as[0].o; off=(uint64_t)as[0].off->c; return true; }

// ------------------------------------------------------------------ merging
static Val mergeCells(E c,Val a,Val b); 
static bool mergeObj(const std::vector<State*>& ss,const std::vector<E>& conds,const std::vector<ObjP>& os,Obj& r){
  size_t n=os.size(); uint64_t sz=os[0]->size; for(auto&o:os) if(o->size!=sz||o->alive!=os[0]->alive||o->kind!=os[0]->kind) return false;
  r=*os[0]; 
  for(uint64_t i=0;i<sz;){
    bool same=true; for(size_t k=1;k<n;k++) if(os[k]->c[i].e!=os[0]->c[i].e||os[k]->c[i].idx!=os[0]->c[i].idx){ same=false; break; }
    if(same){ r.c[i]=os[0]->c[i]; i++; continue; }
    // widest common value
    unsigned w=0; bool typed=true; for(size_t k=0;k<n&&typed;k++){ Cell& c=os[k]->c[i]; if(!c.e) continue; if(c.idx!=0){typed=false;break;} unsigned cw=c.e->w/8; if(w&&w!=cw) {typed=false;break;} w=cw; for(unsigned j=1;j<cw;j++) if(i+j>=sz||os[k]->c[i+j].e!=c.e||os[k]->c[i+j].idx!=j){ typed=false; break; } }
    if(typed&&w) for(size_t k=0;k<n&&typed;k++) if(!os[k]->c[i].e) for(unsigned j=1;j<w;j++) if(i+j>=sz||os[k]->c[i+j].e) typed=false;
    if(typed&&w){ bool anyfp=false,allfp=true; SortK sk=S_BV; for(size_t k=0;k<n;k++){ E e=os[k]->c[i].e; if(!e) continue; if(e->isFP()){ anyfp=true; sk=e->sk; } else allfp=false; }
      E v=nullptr; for(size_t k=n;k-->0;){ E e=os[k]->c[i].e; if(!e) continue; if(anyfp&&!e->isFP()) e=mkBitsF(e,sk); v=v?mkIte(conds[k],e,v):e; } putE(r.c,i,v,w); i+=w; }
    else { // values of different widths: fall back to aligned pieces
      unsigned pw=1; for(unsigned q: {8u,4u,2u}) if(i%q==0&&i+q<=sz){ bool full=true; for(size_t k=0;k<n&&full;k++){ int nu=0; for(unsigned j=0;j<q;j++) if(!os[k]->c[i+j].e) nu++; if(nu!=0&&nu!=(int)q) full=false; } if(full){ pw=q; break; } }
      E v=nullptr; Type* t=IntegerType::get(M->getContext(),pw*8); for(size_t k=n;k-->0;){ Val x=getVal(os[k]->c,i,t); if(!x.e) continue; v=v?mkIte(conds[k],x.e,v):x.e; } if(v) putE(r.c,i,v,pw); else for(unsigned j=0;j<pw;j++) r.c[i+j]={nullptr,0}; i+=pw; } }
  return true; }
static State* tryMerge(std::vector<State*> ss,size_t pc0){
  State& a=*ss[0]; 
  for(auto*s:ss){ if(s->fr.size()!=a.fr.size()) return nullptr; for(size_t i=0;i<a.fr.size();i++) if(s->fr[i].f!=a.fr[i].f||s->fr[i].bb!=a.fr[i].bb||s->fr[i].it!=a.fr[i].it||s->fr[i].allocas.size()!=a.fr[i].allocas.size()) return nullptr; if(s->inputs.size()!=a.inputs.size()||s->inputs!=a.inputs||s->expectCheck!=a.expectCheck) return nullptr; }
  std::vector<E> conds; for(auto*s:ss){ E c=mkBool(true); for(size_t i=pc0;i<s->pc.size();i++) c=mkAnd(c,s->pc[i]); conds.push_back(c); }
  State* r=new State(a); r->m.memo.clear(); 
  // memory
  std::map<uint64_t,std::vector<size_t>> addrs; for(size_t k=0;k<ss.size();k++) for(auto&kv:ss[k]->objs) addrs[kv.first].push_back(k);
  for(auto&[ad,ks]:addrs){ ObjP first=ss[ks[0]]->objs[ad]; bool same=true; for(size_t k:ks) if(ss[k]->objs[ad]!=first) same=false; 
    if(same){ r->objs[ad]=first; continue; }
    std::vector<ObjP> os; std::vector<E> cs; for(size_t k:ks){ os.push_back(ss[k]->objs[ad]); cs.push_back(conds[k]); }
    bool dead=true; for(auto&o:os) if(o->alive) dead=false; 
    if(dead){ auto o=std::make_shared<Obj>(*os[0]); r->objs[ad]=o; continue; }
    auto o=std::make_shared<Obj>(); std::vector<State*> sub; if(!mergeObj(ss,cs,os,*o)){ delete r; return nullptr; } r->objs[ad]=o; }
  // overlapping differently-sized allocations at different addresses
  { uint64_t end=0; for(auto&kv:r->objs){ if(kv.first<end){ delete r; return nullptr; } end=kv.second->base+kv.second->size; } }
  for(auto*s:ss) r->next=std::max(r->next,s->next);
  for(size_t f=0;f<r->fr.size();f++){ Frame& F=r->fr[f]; for(auto&kv:F.fi->idx){ unsigned i=kv.second; Val v=ss.back()->fr[f].regs[i]; Type* t=kv.first->getType();
      for(size_t k=ss.size()-1;k-->0;){ const Val& x=ss[k]->fr[f].regs[i]; if(x.e==v.e&&x.v==v.v) continue; if(isScalar(t)) v=iteVal(conds[k],x,v,t); else { if(!x.v) continue; if(!v.v){ v=x; continue; } v=iteVal(conds[k],x,v,t); } } F.regs[i]=v; }
    std::set<uint64_t> al; for(auto*s:ss) for(auto x:s->fr[f].allocas) al.insert(x); F.allocas.assign(al.begin(),al.end()); }
  r->pc.resize(pc0); E d=mkBool(false); for(E c:conds) d=mkOr(d,c); addPC(*r,d);
  r->mv=false; for(auto*s:ss) if(s->mv){ r->m=s->m; r->m.memo.clear(); r->mv=true; break; }
  for(auto*s:ss) for(auto&x:s->seen) r->seen.insert(x);
  g_merges++; return r; }
static void doMerge(std::shared_ptr<Group> g){
  std::vector<State*> v; v.swap(g->arrived); std::vector<State*> res; 
  std::vector<bool> used(v.size(),false);
  for(size_t i=0;i<v.size();i++){ if(used[i]) continue; std::vector<State*> c{v[i]}; used[i]=true;
    // gather everything mergeable with v[i]
    std::vector<State*> rest; for(size_t j=i+1;j<v.size();j++) if(!used[j]) rest.push_back(v[j]);
    if(!rest.empty()){ std::vector<State*> all=c; all.insert(all.end(),rest.begin(),rest.end()); if(State* m=tryMerge(all,g->pc0)){ for(size_t j=0;j<v.size();j++) used[j]=true; res.push_back(m); for(auto*s:all){ delete s; } break; }
      State* cur=nullptr; std::vector<State*> acc=c; for(size_t j=i+1;j<v.size();j++) if(!used[j]){ auto t=acc; t.push_back(v[j]); if(State* m=tryMerge(t,g->pc0)){ if(cur) delete cur; cur=m; acc=t; used[j]=true; } }
      if(cur){ res.push_back(cur); for(auto*s:acc) delete s; continue; } }
    res.push_back(v[i]); }
  int delta=(int)v.size()-(int)res.size();
  for(State* s:res){ s->m.memo.clear(); }
  if(!res.empty()) for(auto&o:res[0]->groups) o->active-=delta;
  for(State* s:res) g_work.push_back(s);
}

// ------------------------------------------------------------------ interpreter
enum Step { ST_OK, ST_DEAD, ST_SUSP };
static Val getOp(State& s,const Value* v){
  if(auto*c=dyn_cast<Constant>(v)) { return evalConst(c); }
  Frame& f=s.fr.back(); auto it=f.fi->idx.find(v); if(it==f.fi->idx.end()){ return undefVal(v->getType()); } return f.regs[it->second]; }
static E getE(State& s,const Value* v){ Val x=getOp(s,v); if(x.e) return x.e; E e=freshUndef(v->getType()); if(!isa<Constant>(v)){ Frame& f=s.fr.back(); f.regs[f.fi->idx[v]]=Val(e); } return e; }
static void setR(State& s,const Value* v,const Val& x){ Frame& f=s.fr.back(); f.regs[f.fi->idx[v]]=x; }
static E fcmp(CmpInst::Predicate p,E a,E b){
  auto uno=[&]{ return mkOr(mkFIsNan(a),mkFIsNan(b)); };
  switch(p){ case CmpInst::FCMP_FALSE: return mkBool(false); case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return mkFEq(a,b); case CmpInst::FCMP_OGT: return mkFLt(b,a); case CmpInst::FCMP_OGE: return mkFLe(b,a); case CmpInst::FCMP_OLT: return mkFLt(a,b); case CmpInst::FCMP_OLE: return mkFLe(a,b);
    case CmpInst::FCMP_ONE: return mkOr(mkFLt(a,b),mkFLt(b,a)); case CmpInst::FCMP_ORD: return mkNot(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkNot(mkOr(mkFLt(a,b),mkFLt(b,a))); case CmpInst::FCMP_UGT: return mkNot(mkFLe(a,b)); case CmpInst::FCMP_UGE: return mkNot(mkFLt(a,b)); case CmpInst::FCMP_ULT: return mkNot(mkFLe(b,a)); case CmpInst::FCMP_ULE: return mkNot(mkFLt(b,a)); case CmpInst::FCMP_UNE: return mkNot(mkFEq(a,b));
    default: abort(); } }
static E icmp(CmpInst::Predicate p,E a,E b){ switch(p){ case CmpInst::ICMP_EQ: return mkEq(a,b); case CmpInst::ICMP_NE: return mkNot(mkEq(a,b)); case CmpInst::ICMP_UGT: return mkBin(O_ULT,b,a); case CmpInst::ICMP_UGE: return mkBin(O_ULE,b,a); case CmpInst::ICMP_ULT: return mkBin(O_ULT,a,b); case CmpInst::ICMP_ULE: return mkBin(O_ULE,a,b); case CmpInst::ICMP_SGT: return mkBin(O_SLT,b,a); case CmpInst::ICMP_SGE: return mkBin(O_SLE,b,a); case CmpInst::ICMP_SLT: return mkBin(O_SLT,a,b); case CmpInst::ICMP_SLE: return mkBin(O_SLE,a,b); default: abort(); } }
static Val mapV(Type* t,const std::function<Val(unsigned)>& f){ std::vector<Val> r(nElems(t)); for(unsigned i=0;i<r.size();i++) r[i]=f(i); return mkAgg(r); }
static void enterFn(State& s,Function* f,const std::vector<Val>& args,CallBase* call){
  Frame n; n.f=f; n.fi=fnInfo(f); n.bb=&f->getEntryBlock(); n.it=n.bb->begin(); n.regs.resize(n.fi->n); for(unsigned i=0;i<f->arg_size();i++) n.regs[i]=args[i]; for(size_t i=f->arg_size();i<args.size();i++) n.varargs.push_back(args[i]); n.call=call; 
  // by-value aggregates
  s.fr.push_back(std::move(n));
  for(unsigned i=0;i<f->arg_size();i++) if(call&&f->getArg(i)->hasByValAttr()){ Type* bt=f->getParamByValType(i); uint64_t sz=szAlloc(bt); ObjP o=allocObj(s,sz,'s',"byval"); std::vector<Acc> as; E p=need(args[i],f->getArg(i)->getType()); if(p->isConst()&&resolve(s,p,sz,as,call,false)){ for(uint64_t k=0;k<sz;k++) o->c[k]=as[0].o->c[(uint64_t)as[0].off->c+k]; } else incomplete("byval from symbolic pointer"); s.fr.back().regs[i]=Val(mkConst(64,o->base)); s.fr.back().allocas.push_back(o->base); } }
static void jump(State& s,BasicBlock* to){ Frame& f=s.fr.back(); f.prev=f.bb; f.bb=to; f.it=to->begin(); 
  std::vector<std::pair<const Value*,Val>> up; while(auto*p=dyn_cast<PHINode>(&*f.it)){ up.push_back({p,getOp(s,p->getIncomingValueForBlock(f.prev))}); ++f.it; } for(auto&u:up) setR(s,u.first,u.second); }
static std::string cstr(State& s,E p){ std::string r; if(!p->isConst()) return "?"; ObjP o=findObj(s,(uint64_t)p->c); if(!o) return "?"; for(uint64_t i=(uint64_t)p->c-o->base;i<o->size;i++){ E b=byteOf(o->c[i]); if(!b->isConst()) return r+"?"; char c=(char)(uint64_t)b->c; if(!c) break; r+=c; } return r; }
static Step pushOther(State* o,BasicBlock* to){ jump(*o,to); g_work.push_back(o); return ST_OK; }
static E mkF(SortK k,double d){ return k==S_F32?mkF32((float)d):mkF64(d); }
static E fminmax(E a,E b,bool mx){ E r=mx?mkIte(mkFLt(a,b),b,a):mkIte(mkFLt(b,a),b,a); return mkIte(mkFIsNan(a),b,mkIte(mkFIsNan(b),a,r)); }
static E copysign_(E a,E b){ unsigned w=a->w; E ab=mkFUn(O_FABS,a); E neg=mkEq(mkExtract(mkFBits(b),w-1,1),mkConst(1,1)); return mkIte(neg,mkFUn(O_FNEG,ab),ab); }
static Step callFn(State& s,CallBase* cb,Function* f,std::vector<Val> args,Val& ret);

static void finish(State& s){ if(s.fr.empty()) return; }
static void noteFn(const Instruction* i){ const DILocation* l=i->getDebugLoc(); int d=0; while(l&&d++<12){ if(auto*sp=l->getScope()->getSubprogram()){ StringRef fn=sp->getFilename(); size_t k=fn.find("/ink/"); if(fn.contains("/repo/")||(!fn.starts_with("/"))) { if(fn.contains("ink/")&&!fn.contains("verif")){ g_funcs.insert(fn.substr(fn.find("ink/")).str()+":"+sp->getName().str()); } } (void)k; } l=l->getInlinedAt(); } }
static DenseSet<const Instruction*> g_noted;

static Step execIntrinsic(State& s,IntrinsicInst* ii,Val& ret,bool& handled){
  handled=true; Intrinsic::ID id=ii->getIntrinsicID(); Type* t=ii->getType();
  auto vec1=[&](std::function<E(E)> fn)->Val{ Val a=getOp(s,ii->getArgOperand(0)); if(t->isVectorTy()) return mapV(t,[&](unsigned i){ return Val(fn(need((*a.v)[i],elemTy(t,i)))); }); return fn(need(a,t)); };
  auto vec2=[&](std::function<E(E,E)> fn)->Val{ Val a=getOp(s,ii->getArgOperand(0)),b=getOp(s,ii->getArgOperand(1)); if(t->isVectorTy()) return mapV(t,[&](unsigned i){ return Val(fn(need((*a.v)[i],elemTy(t,i)),need((*b.v)[i],elemTy(t,i)))); }); return fn(need(a,t),need(b,ii->getArgOperand(1)->getType())); };
  auto vec3=[&](std::function<E(E,E,E)> fn)->Val{ Val a=getOp(s,ii->getArgOperand(0)),b=getOp(s,ii->getArgOperand(1)),c=getOp(s,ii->getArgOperand(2)); if(t->isVectorTy()) return mapV(t,[&](unsigned i){ Type* et=elemTy(t,i); return Val(fn(need((*a.v)[i],et),need((*b.v)[i],et),need((*c.v)[i],et))); }); return fn(need(a,t),need(b,t),need(c,t)); };
  auto ovf=[&](Op op,bool sg)->Val{ E a=getE(s,ii->getArgOperand(0)),b=getE(s,ii->getArgOperand(1)); unsigned w=a->w; unsigned W=op==O_MUL?2*w:w+2; 
    if(W>128) W=128; E x=sg?mkSExt(a,W):mkZExt(a,W),y=sg?mkSExt(b,W):mkZExt(b,W); E r=mkBin(op,x,y); E n=mkExtract(r,0,w); E back=sg?mkSExt(n,W):mkZExt(n,W); return mkAgg({Val(mkBin(op,a,b)),Val(mkNot(mkEq(back,r)))}); };
  switch(id){
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe: case Intrinsic::vaend: return ST_OK;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: ret=mkConst(64,0); return ST_OK;
    case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: ret=getOp(s,ii->getArgOperand(0)); return ST_OK;
    case Intrinsic::is_constant: ret=mkBool(false); return ST_OK;
    case Intrinsic::objectsize: ret=mkConst(64,cast<ConstantInt>(ii->getArgOperand(1))->isZero()?~0ull:0); return ST_OK;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate(s,"trap (undefined behaviour detected by instrumentation)",ii); return ST_DEAD;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      bool dead; uint64_t n=(uint64_t)concretize(s,getE(s,ii->getArgOperand(2)),dead); if(dead) return ST_DEAD; if(n==0) return ST_OK;
      ObjP d,sr; uint64_t od,os; bool rq; if(!conc(s,getE(s,ii->getArgOperand(0)),n,d,od,ii,true,rq)) return ST_DEAD; if(!conc(s,getE(s,ii->getArgOperand(1)),n,sr,os,ii,false,rq)) return ST_DEAD;
      std::vector<Cell> tmp(sr->c.begin()+os,sr->c.begin()+os+n); if(id!=Intrinsic::memmove&&d==sr&&od!=os&&od<os+n&&os<od+n){ violate(s,"overlapping memcpy",ii); return ST_DEAD; } sr.reset(); Obj& w=writable(s,d); std::copy(tmp.begin(),tmp.end(),w.c.begin()+od); return ST_OK; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      bool dead; uint64_t n=(uint64_t)concretize(s,getE(s,ii->getArgOperand(2)),dead); if(dead) return ST_DEAD; if(n==0) return ST_OK;
      ObjP d; uint64_t od; bool rq; if(!conc(s,getE(s,ii->getArgOperand(0)),n,d,od,ii,true,rq)) return ST_DEAD; E b=getE(s,ii->getArgOperand(1)); Obj& w=writable(s,d); for(uint64_t i=0;i<n;i++) w.c[od+i]={b,0}; return ST_OK; }
    case Intrinsic::fabs: ret=vec1([](E a){return mkFUn(O_FABS,a);}); return ST_OK;
    case Intrinsic::sqrt: ret=vec1([](E a){return mkFUn(O_FSQRT,a);}); return ST_OK;
    case Intrinsic::floor: ret=vec1([](E a){return mkFRint(a,RM_DN);}); return ST_OK;
    case Intrinsic::ceil: ret=vec1([](E a){return mkFRint(a,RM_UP);}); return ST_OK;
    case Intrinsic::trunc: ret=vec1([](E a){return mkFRint(a,RM_TZ);}); return ST_OK;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret=vec1([](E a){return mkFRint(a,RM_NE);}); return ST_OK;
    case Intrinsic::round: ret=vec1([](E a){return mkFRint(a,RM_NA);}); return ST_OK;
    case Intrinsic::lround: case Intrinsic::llround: ret=mkFToI(O_FPTOSI,mkFRint(getE(s,ii->getArgOperand(0)),RM_NA),64); return ST_OK;
    case Intrinsic::lrint: case Intrinsic::llrint: ret=mkFToI(O_FPTOSI,mkFRint(getE(s,ii->getArgOperand(0)),RM_NE),64); return ST_OK;
    case Intrinsic::copysign: ret=vec2(copysign_); return ST_OK;
    case Intrinsic::minnum: ret=vec2([](E a,E b){return fminmax(a,b,false);}); return ST_OK;
    case Intrinsic::maxnum: ret=vec2([](E a,E b){return fminmax(a,b,true);}); return ST_OK;
    case Intrinsic::fma: case Intrinsic::fmuladd: if(id==Intrinsic::fmuladd) ret=vec3([](E a,E b,E c){return mkFBin(O_FADD,mkFBin(O_FMUL,a,b),c);}); else ret=vec3([](E a,E b,E c){return mkFma(a,b,c);}); return ST_OK;
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: { const char* n=id==Intrinsic::sin?"sin":id==Intrinsic::cos?"cos":id==Intrinsic::exp?"exp":id==Intrinsic::exp2?"exp2":id==Intrinsic::log?"log":id==Intrinsic::log2?"log2":"log10"; ret=vec1([&](E a){return mkUF(n,a->sk,a,nullptr);}); return ST_OK; }
    case Intrinsic::pow: ret=vec2([](E a,E b){return mkUF("pow",a->sk,a,b);}); return ST_OK;
    case Intrinsic::umin: ret=vec2([](E a,E b){return mkIte(mkBin(O_ULT,a,b),a,b);}); return ST_OK;
    case Intrinsic::umax: ret=vec2([](E a,E b){return mkIte(mkBin(O_ULT,a,b),b,a);}); return ST_OK;
    case Intrinsic::smin: ret=vec2([](E a,E b){return mkIte(mkBin(O_SLT,a,b),a,b);}); return ST_OK;
    case Intrinsic::smax: ret=vec2([](E a,E b){return mkIte(mkBin(O_SLT,a,b),b,a);}); return ST_OK;
    case Intrinsic::abs: { Val a=getOp(s,ii->getArgOperand(0)); auto fn=[](E a){ return mkIte(mkBin(O_SLT,a,mkConst(a->w,0)),mkBin(O_SUB,mkConst(a->w,0),a),a); }; if(t->isVectorTy()) ret=mapV(t,[&](unsigned i){ return Val(fn(need((*a.v)[i],elemTy(t,i)))); }); else ret=fn(need(a,t)); return ST_OK; }
    case Intrinsic::ctpop: ret=vec1([](E a){ E r=mkConst(a->w,0); for(unsigned i=0;i<a->w;i++) r=mkBin(O_ADD,r,mkZExt(mkExtract(a,i,1),a->w)); return r; }); return ST_OK;
    case Intrinsic::ctlz: case Intrinsic::cttz: { E a=getE(s,ii->getArgOperand(0)); unsigned w=a->w; E r=mkConst(w,w); if(id==Intrinsic::ctlz) for(unsigned i=0;i<w;i++) r=mkIte(mkEq(mkExtract(a,i,1),mkConst(1,1)),mkConst(w,w-1-i),r); else for(unsigned i=w;i-->0;) r=mkIte(mkEq(mkExtract(a,i,1),mkConst(1,1)),mkConst(w,i),r); ret=r; return ST_OK; }
    case Intrinsic::bswap: ret=vec1([](E a){ E r=nullptr; for(unsigned i=0;i<a->w;i+=8){ E b=mkExtract(a,i,8); r=r?mkConcat(r,b):b; } return r; }); return ST_OK;
    case Intrinsic::fshl: case Intrinsic::fshr: ret=vec3([&](E a,E b,E c){ unsigned w=a->w; E m=mkBin(O_UREM,c,mkConst(w,w)); E z=mkEq(m,mkConst(w,0)); E inv=mkBin(O_SUB,mkConst(w,w),m); if(id==Intrinsic::fshl) return mkIte(z,a,mkBin(O_OR,mkBin(O_SHL,a,m),mkBin(O_LSHR,b,inv))); return mkIte(z,b,mkBin(O_OR,mkBin(O_SHL,a,inv),mkBin(O_LSHR,b,m))); }); return ST_OK;
    case Intrinsic::uadd_with_overflow: ret=ovf(O_ADD,false); return ST_OK; case Intrinsic::sadd_with_overflow: ret=ovf(O_ADD,true); return ST_OK;
    case Intrinsic::usub_with_overflow: { E a=getE(s,ii->getArgOperand(0)),b=getE(s,ii->getArgOperand(1)); ret=mkAgg({Val(mkBin(O_SUB,a,b)),Val(mkBin(O_ULT,a,b))}); return ST_OK; }
    case Intrinsic::ssub_with_overflow: ret=ovf(O_SUB,true); return ST_OK; case Intrinsic::umul_with_overflow: ret=ovf(O_MUL,false); return ST_OK; case Intrinsic::smul_with_overflow: ret=ovf(O_MUL,true); return ST_OK;
    case Intrinsic::uadd_sat: ret=vec2([](E a,E b){ E r=mkBin(O_ADD,a,b); return mkIte(mkBin(O_ULT,r,a),mkConst(a->w,maskw(a->w)),r); }); return ST_OK;
    case Intrinsic::usub_sat: ret=vec2([](E a,E b){ return mkIte(mkBin(O_ULT,a,b),mkConst(a->w,0),mkBin(O_SUB,a,b)); }); return ST_OK;
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: ret=vec2([&](E a,E b){ unsigned w=a->w; E x=mkSExt(a,w+1),y=mkSExt(b,w+1); E r=mkBin(id==Intrinsic::sadd_sat?O_ADD:O_SUB,x,y); E mx=mkConst(w+1,((u128)1<<(w-1))-1),mn=mkConst(w+1,(u128)0-((u128)1<<(w-1))); return mkExtract(mkIte(mkBin(O_SLT,mx,r),mx,mkIte(mkBin(O_SLT,r,mn),mn,r)),0,w); }); return ST_OK;
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: { E a=getE(s,ii->getArgOperand(0)); unsigned w=tw(t); bool sg=id==Intrinsic::fptosi_sat; double hi=std::ldexp(1.0,sg?w-1:w), lo=sg?-std::ldexp(1.0,w-1):0; E r=mkFToI(sg?O_FPTOSI:O_FPTOUI,a,w); E big=mkFLe(mkF(a->sk,hi),a),small=mkFLt(a,mkF(a->sk,lo)); u128 mx=sg?((u128)1<<(w-1))-1:maskw(w), mn=sg?((u128)1<<(w-1)):0; ret=mkIte(mkFIsNan(a),mkConst(w,0),mkIte(big,mkConst(w,mx),mkIte(small,mkConst(w,mn),r))); return ST_OK; }
    case Intrinsic::is_fpclass: { Val av=getOp(s,ii->getArgOperand(0)); unsigned m=cast<ConstantInt>(ii->getArgOperand(1))->getZExtValue();
      auto fn=[&](E a){ unsigned w=a->w; unsigned mb=a->sk==S_F32?23:52; E b=mkFBits(a); E sg=mkEq(mkExtract(b,w-1,1),mkConst(1,1)); E mag=mkFUn(O_FABS,a); E inf=mkFEq(mag,mkF(a->sk,INFINITY)); E nan=mkFIsNan(a); E zero=mkFEq(a,mkF(a->sk,0)); double mn=a->sk==S_F32?1.17549435e-38:2.2250738585072014e-308; E sub=mkAnd(mkNot(zero),mkFLt(mag,mkF(a->sk,mn))); E nor=mkAnd(mkFLe(mkF(a->sk,mn),mag),mkAnd(mkNot(inf),mkNot(nan))); E r=mkBool(false);
        E quiet=mkEq(mkExtract(b,mb-1,1),mkConst(1,1)); if((m&3)==3) r=mkOr(r,nan); else { if(m&1) r=mkOr(r,mkAnd(nan,mkNot(quiet))); if(m&2) r=mkOr(r,mkAnd(nan,quiet)); }
        auto both=[&](unsigned nb,unsigned pb,E c){ bool n=m&nb,p=m&pb; if(n&&p) r=mkOr(r,c); else if(n) r=mkOr(r,mkAnd(c,sg)); else if(p) r=mkOr(r,mkAnd(c,mkNot(sg))); };
        both(4,512,inf); both(8,256,nor); both(16,128,sub); both(32,64,zero); return r; };
      Type* at=ii->getArgOperand(0)->getType(); if(at->isVectorTy()) ret=mapV(t,[&](unsigned i){ return Val(fn(need((*av.v)[i],elemTy(at,i)))); }); else ret=fn(need(av,at)); return ST_OK; }
    case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
      Val a=getOp(s,ii->getArgOperand(0)); Type* vt=ii->getArgOperand(0)->getType(); E r=need((*a.v)[0],elemTy(vt,0)); for(unsigned i=1;i<nElems(vt);i++){ E x=need((*a.v)[i],elemTy(vt,i)); switch(id){ case Intrinsic::vector_reduce_and: r=mkBin(O_AND,r,x);break; case Intrinsic::vector_reduce_or: r=mkBin(O_OR,r,x);break; case Intrinsic::vector_reduce_add: r=mkBin(O_ADD,r,x);break; case Intrinsic::vector_reduce_mul: r=mkBin(O_MUL,r,x);break; case Intrinsic::vector_reduce_xor: r=mkBin(O_XOR,r,x);break; case Intrinsic::vector_reduce_umax: r=mkIte(mkBin(O_ULT,r,x),x,r);break; case Intrinsic::vector_reduce_umin: r=mkIte(mkBin(O_ULT,x,r),x,r);break; case Intrinsic::vector_reduce_smax: r=mkIte(mkBin(O_SLT,r,x),x,r);break; default: r=mkIte(mkBin(O_SLT,x,r),x,r); } } ret=r; return ST_OK; }
    case Intrinsic::ldexp: { E a=getE(s,ii->getArgOperand(0)),b=getE(s,ii->getArgOperand(1)); if(b->isConst()){ int k=(int)(int32_t)(uint32_t)b->c; if(k>-120&&k<120){ ret=mkFBin(O_FMUL,a,mkF(a->sk,std::ldexp(1.0,k))); return ST_OK; } } handled=false; return ST_OK; }
    case Intrinsic::bitreverse: ret=vec1([](E a){ E r=nullptr; for(unsigned i=0;i<a->w;i++){ E b=mkExtract(a,i,1); r=r?mkConcat(r,b):b; } return r; }); return ST_OK;
    default: handled=false; return ST_OK; }
}
static uint64_t allocSize(State& s,E e,bool& dead){ return (uint64_t)concretize(s,e,dead); }
static int g_undefSeq=0;
static E input(State& s,unsigned w,const std::string& name,int64_t lo=1,int64_t hi=0){
  // reuse the same variable for the same creation index/name so that sibling paths share it
  static std::map<std::string,uint32_t> tab; std::string k=std::to_string(s.inputs.size())+"/"+name+"/"+std::to_string(w)+"/"+std::to_string(lo)+"/"+std::to_string(hi);
  auto it=tab.find(k); uint32_t v; if(it==tab.end()){ v=g_vars.size(); mkVarRange(w,name,0,lo,hi); tab[k]=v; } else v=it->second; 
  s.inputs.push_back({v,name}); 
  if(s.mv&&!s.m.var.count(v)){ E e=g_vars[v].e; u128 d=0; if(lo<=hi&&!(lo<=0&&hi>=0)) d=(u128)(i128)lo&maskw(w); s.m.var[v]=d; s.m.memo.clear(); (void)e; }
  return g_vars[v].e; }

static Step callFn(State& s,CallBase* cb,Function* f,std::vector<Val> args,Val& ret){
  StringRef n=f->getName(); Type* t=f->getReturnType();
  auto A=[&](unsigned i){ Val& v=args[i]; if(!v.e) v.e=freshUndef(cb->getArgOperand(i)->getType()); return v.e; };
  if(n.starts_with("__vp_")){
    if(n=="__vp_assume"){ E c=A(0); if(c->w!=1) c=mkNot(mkEq(c,mkConst(c->w,0))); if(c->isFalse()) return ST_DEAD; if(c->isTrue()) return ST_OK;
      if(s.mv&&evalBool(c,s.m)){ addPC(s,c); return ST_OK; } Model m; Res r=feasible(s,c,&m,6000); if(r==R_UNSAT) return ST_DEAD; if(r==R_SAT&&s.mv) s.m=m; else { s.mv=false; if(r==R_UNKNOWN) g_prunedUnknown++; } addPC(s,c); 
      if(!s.mv){ Model mm; std::vector<E> cs=s.pc; if(searchModel(cs,&mm,1.0,7)){ for(auto&kv:mm.var) s.m.var[kv.first]=kv.second; s.m.memo.clear(); s.mv=validModel(s.pc,s.m); } }
      return ST_OK; }
    if(n=="__vp_assert"){ g_asserts++; E c=A(0); if(c->w!=1) c=mkNot(mkEq(c,mkConst(c->w,0))); if(c->isTrue()) g_trivial++; std::string msg="assertion: "+cstr(s,A(1)); if(!oblige(s,c,msg,cb)) return ST_DEAD; return ST_OK; }
    if(n=="__vp_reach"){ std::string l=cstr(s,A(0)); if(g_reached.count(l)) return ST_OK; if(!s.mv){ Model m; Res r=quickCheck(s.pc,&m,4000); if(r==R_UNSAT) return ST_DEAD; if(r==R_SAT){ s.m=m; s.mv=true; } else { Model mm; if(searchModel(s.pc,&mm,1.0,11)){ s.m=mm; s.mv=true; } else { defer(s,s.pc,l,"",true); return ST_OK; } } } g_reached.insert(l); return ST_OK; }
    if(n=="__vp_bool"){ E v=input(s,1,cstr(s,A(0))); ret=t->isIntegerTy(1)?v:mkZExt(v,tw(t)); return ST_OK; }
    if(n=="__vp_u8"||n=="__vp_u16"||n=="__vp_u32"||n=="__vp_u64"||n=="__vp_i32"||n=="__vp_i64"){ ret=input(s,tw(t),cstr(s,A(0))); return ST_OK; }
    if(n=="__vp_f32"){ ret=mkBitsF(input(s,32,cstr(s,A(0))),S_F32); return ST_OK; }
    if(n=="__vp_f64"){ ret=mkBitsF(input(s,64,cstr(s,A(0))),S_F64); return ST_OK; }
    if(n=="__vp_range"){ E lo=A(1),hi=A(2); if(!lo->isConst()||!hi->isConst()){ fprintf(stderr,"range bounds must be constant\n"); exit(4); } ret=input(s,32,cstr(s,A(0)),lo->smin,hi->smin); return ST_OK; }
    if(n=="__vp_range64"){ E lo=A(1),hi=A(2); ret=input(s,64,cstr(s,A(0)),lo->smin,hi->smin); return ST_OK; }
    if(n=="__vp_f32_range"){ float lo=asF32(A(1)->c),hi=asF32(A(2)->c); E b; 
      if(lo>=0&&!std::signbit(lo)) b=input(s,32,cstr(s,A(0)),(int64_t)bitsF32(lo),(int64_t)bitsF32(hi));
      else { b=input(s,32,cstr(s,A(0))); E c=mkOr(mkBin(O_ULE,b,mkConst(32,bitsF32(hi<0?0.0f:hi))),mkBool(false)); if(hi<0||std::signbit(hi)) c=mkBool(false); E ng=mkAnd(mkBin(O_ULE,mkConst(32,hi<0?bitsF32(hi):0x80000000u),b),mkBin(O_ULE,b,mkConst(32,bitsF32(lo)))); E cc=mkOr(c,ng); 
        if(s.mv&&!evalBool(cc,s.m)){ s.m.var[b->imm0]=bitsF32(hi); s.m.memo.clear(); } addPC(s,cc); }
      ret=mkRangedFloat(b,S_F32,lo,hi); return ST_OK; }
    if(n=="__vp_expect_check_fail"){ s.expectCheck=true; return ST_OK; }
    if(n=="__vp_check_failed"){ if(s.expectCheck){ g_checkfail++; g_reached.insert("check-failed"); return ST_DEAD; } violate(s,"CHECK failed: "+cstr(s,A(0)),cb); return ST_DEAD; }
    if(n=="__vp_merge_begin"){ auto g=std::make_shared<Group>(); g->active=1; g->pc0=s.pc.size(); s.groups.push_back(g); return ST_OK; }
    if(n=="__vp_merge_end"){ if(s.groups.empty()){ fprintf(stderr,"merge_end without begin\n"); exit(4);} return ST_SUSP; }
    if(n=="__vp_print"){ fprintf(stderr,"[print] %s %s\n",cstr(s,A(0)).c_str(),args.size()>1?show(A(1),9).c_str():""); return ST_OK; }
    if(n=="__vp_concretize"){ bool dead; u128 v=concretize(s,A(0),dead); if(dead) return ST_DEAD; ret=mkConst(tw(t),v); return ST_OK; }
    if(n=="__vp_native"){ ret=mkConst(tw(t),0); return ST_OK; }
    if(n=="__vp_same"){ ret=mkZExt(mkFIdent(A(0),A(1)),tw(t)); if(tw(t)==1) ret=mkFIdent(A(0),A(1)); return ST_OK; }
  }
  auto isN=[&](std::initializer_list<const char*> l){ for(auto x:l) if(n==x) return true; return false; };
  if(isN({"malloc","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","_ZnwmSt11align_val_t","_ZnamSt11align_val_t","valloc"})){ bool dead; uint64_t sz=allocSize(s,A(0),dead); if(dead) return ST_DEAD; if(sz>(1u<<24)){ violate(s,"allocation of "+std::to_string(sz)+" bytes",cb); return ST_DEAD; } ret=mkConst(64,allocObj(s,sz,'h',"alloc")->base); return ST_OK; }
  if(n=="calloc"){ bool dead; uint64_t a=allocSize(s,A(0),dead); if(dead) return ST_DEAD; uint64_t b=allocSize(s,A(1),dead); if(dead) return ST_DEAD; if(a*b>(1u<<24)){ violate(s,"allocation too large",cb); return ST_DEAD; } ObjP o=allocObj(s,a*b,'h',"calloc"); for(auto&c:o->c) c={mkConst(8,0),0}; ret=mkConst(64,o->base); return ST_OK; }
  if(n=="aligned_alloc"){ bool dead; uint64_t b=allocSize(s,A(1),dead); if(dead) return ST_DEAD; ret=mkConst(64,allocObj(s,b,'h',"alloc")->base); return ST_OK; }
  if(isN({"free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdaPvmSt11align_val_t"})){ bool dead; uint64_t a=(uint64_t)concretize(s,A(0),dead); if(dead) return ST_DEAD; if(!a) return ST_OK; ObjP o=findObj(s,a); if(!o||o->base!=a||o->kind!='h'){ violate(s,"invalid free",cb); return ST_DEAD; } if(!o->alive){ violate(s,"double free",cb); return ST_DEAD; } Obj& w=writable(s,o); w.alive=false; return ST_OK; }
  if(isN({"memcpy","memmove"})){ bool dead; uint64_t nn=(uint64_t)concretize(s,A(2),dead); if(dead) return ST_DEAD; ret=A(0); if(!nn) return ST_OK; ObjP d,sr; uint64_t od,os; bool rq; if(!conc(s,A(0),nn,d,od,cb,true,rq)) return ST_DEAD; if(!conc(s,A(1),nn,sr,os,cb,false,rq)) return ST_DEAD; std::vector<Cell> tmp(sr->c.begin()+os,sr->c.begin()+os+nn); sr.reset(); Obj& w=writable(s,d); std::copy(tmp.begin(),tmp.end(),w.c.begin()+od); return ST_OK; }
  if(n=="memset"){ bool dead; uint64_t nn=(uint64_t)concretize(s,A(2),dead); if(dead) return ST_DEAD; ret=A(0); if(!nn) return ST_OK; ObjP d; uint64_t od; bool rq; if(!conc(s,A(0),nn,d,od,cb,true,rq)) return ST_DEAD; Obj& w=writable(s,d); E b=mkExtract(A(1),0,8); for(uint64_t i=0;i<nn;i++) w.c[od+i]={b,0}; return ST_OK; }
  if(isN({"memcmp","bcmp"})){ bool dead; uint64_t nn=(uint64_t)concretize(s,A(2),dead); if(dead) return ST_DEAD; if(!nn){ ret=mkConst(32,0); return ST_OK; } ObjP x,y; uint64_t ox,oy; bool rq; if(!conc(s,A(0),nn,x,ox,cb,false,rq)) return ST_DEAD; if(!conc(s,A(1),nn,y,oy,cb,false,rq)) return ST_DEAD; E r=mkConst(32,0); for(uint64_t i=nn;i-->0;){ E a=byteOf(x->c[ox+i]),b=byteOf(y->c[oy+i]); r=mkIte(mkEq(a,b),r,mkIte(mkBin(O_ULT,a,b),mkConst(32,0xffffffffu),mkConst(32,1))); } ret=r; return ST_OK; }
  if(isN({"abort","exit","_exit","__assert_fail","_ZSt9terminatev","__cxa_pure_virtual","__stack_chk_fail"})||n.starts_with("_ZSt17__throw")||n.starts_with("_ZSt16__throw")||n.contains("__throw_")||n.contains("__glibcxx_assert")){ violate(s,"call to "+n.str(),cb); return ST_DEAD; }
  if(isN({"__cxa_atexit","__cxa_thread_atexit","__cxa_guard_acquire","__cxa_guard_release","__cxa_guard_abort","pthread_once","atexit"})){ if(n=="__cxa_guard_acquire"){ bool ok; Val v=doLoad(s,A(0),IntegerType::get(M->getContext(),8),cb,ok); if(!ok) return ST_DEAD; ret=mkZExt(mkEq(need(v,IntegerType::get(M->getContext(),8)),mkConst(8,0)),32); return ST_OK; } if(n=="__cxa_guard_release"){ return doStore(s,A(0),Val(mkConst(8,1)),IntegerType::get(M->getContext(),8),cb)?ST_OK:ST_DEAD; } if(!t->isVoidTy()) ret=mkConst(tw(t),0); return ST_OK; }
  // libm
  bool dbl=true; std::string b=n.str(); static const std::set<std::string> L1={"sin","cos","tan","asin","acos","atan","exp","exp2","log","log2","log10","cbrt","expm1"},L2={"atan2","hypot","fmod","pow","remainder"};
  if(t->isFloatTy()&&b.size()>1&&b.back()=='f'){ b.pop_back(); dbl=false; }
  if((t->isFloatTy()||t->isDoubleTy())&&(dbl==t->isDoubleTy())){
    if(L1.count(b)) { ret=mkUF(b,fsk(t),A(0),nullptr); return ST_OK; }
    if(L2.count(b)) { ret=mkUF(b,fsk(t),A(0),A(1)); return ST_OK; }
    if(b=="sqrt"){ ret=mkFUn(O_FSQRT,A(0)); return ST_OK; } if(b=="fabs"){ ret=mkFUn(O_FABS,A(0)); return ST_OK; }
    if(b=="floor"){ ret=mkFRint(A(0),RM_DN); return ST_OK; } if(b=="ceil"){ ret=mkFRint(A(0),RM_UP); return ST_OK; } if(b=="trunc"){ ret=mkFRint(A(0),RM_TZ); return ST_OK; } if(b=="round"){ ret=mkFRint(A(0),RM_NA); return ST_OK; } if(b=="rint"||b=="nearbyint"){ ret=mkFRint(A(0),RM_NE); return ST_OK; }
    if(b=="fmin"){ ret=fminmax(A(0),A(1),false); return ST_OK; } if(b=="fmax"){ ret=fminmax(A(0),A(1),true); return ST_OK; } if(b=="copysign"){ ret=copysign_(A(0),A(1)); return ST_OK; } if(b=="fma"){ ret=mkFma(A(0),A(1),A(2)); return ST_OK; }
    if(b=="nextafter"&&!(A(0)->isConst()&&A(1)->isConst())){ E a=A(0),to=A(1); unsigned w=a->w; E x=mkFBits(a); E neg=mkEq(mkExtract(x,w-1,1),mkConst(1,1)); E zero=mkFEq(a,mkF(a->sk,0)); E inc=mkBin(O_ADD,x,mkConst(w,1)),dec=mkBin(O_SUB,x,mkConst(w,1)); E tp=mkConst(w,1),tn=mkConst(w,((u128)1<<(w-1))|1);
      E rup=mkIte(zero,tp,mkIte(neg,dec,inc)),rdn=mkIte(zero,tn,mkIte(neg,inc,dec)); E r=mkBitsF(mkIte(mkFLt(a,to),rup,rdn),a->sk); ret=mkIte(mkOr(mkFIsNan(a),mkFEq(a,to)),mkIte(mkFIsNan(a),a,to),mkIte(mkFIsNan(to),to,r)); return ST_OK; }
    if(b=="nextafter"&&A(0)->isConst()&&A(1)->isConst()){ ret=mkUF("nextafter",fsk(t),A(0),A(1)); return ST_OK; }
  }
  if(isN({"lround","llround","lroundf","llroundf"})){ ret=mkFToI(O_FPTOSI,mkFRint(A(0),RM_NA),64); return ST_OK; }
  if(!f->isDeclaration()){ if(s.fr.size()>200){ incomplete("recursion depth"); return ST_DEAD; } enterFn(s,f,args,cb); return ST_OK; }
  g_unsupported[n.str()]++; return ST_DEAD;
}

static Step step(State& s){
  Frame& f=s.fr.back(); Instruction* I=&*f.it; g_instr++; s.steps++;
  if(g_noted.insert(I).second) noteFn(I);
  Type* t=I->getType();
  switch(I->getOpcode()){
    case Instruction::Ret: { Val r; auto*ri=cast<ReturnInst>(I); if(ri->getReturnValue()) r=getOp(s,ri->getReturnValue()); for(uint64_t a:f.allocas) s.objs.erase(a); CallBase* cb=f.call; s.fr.pop_back(); if(s.fr.empty()) return ST_DEAD; if(cb){ if(!cb->getType()->isVoidTy()) setR(s,cb,r); ++s.fr.back().it; } return ST_OK; }
    case Instruction::Br: { auto*b=cast<BranchInst>(I); if(b->isUnconditional()){ jump(s,b->getSuccessor(0)); return ST_OK; } 
      if(b->getSuccessor(0)==b->getSuccessor(1)){ jump(s,b->getSuccessor(0)); return ST_OK; }
      State* o=nullptr; int r=branch(s,getE(s,b->getCondition()),&o); if(r<0) return ST_DEAD; if(r==2){ pushOther(o,b->getSuccessor(1)); jump(s,b->getSuccessor(0)); } else jump(s,b->getSuccessor(r==1?0:1)); return ST_OK; }
    case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); E c=getE(s,sw->getCondition()); std::map<BasicBlock*,E> by; std::vector<BasicBlock*> ord; E def=mkBool(true); for(auto&cs:sw->cases()){ E e=mkEq(c,mkConst(c->w,apInt(cs.getCaseValue()->getValue()))); def=mkAnd(def,mkNot(e)); BasicBlock* bb=cs.getCaseSuccessor(); if(!by.count(bb)){ by[bb]=e; ord.push_back(bb);} else by[bb]=mkOr(by[bb],e); }
      BasicBlock* db=sw->getDefaultDest(); if(by.count(db)) by[db]=mkOr(by[db],def); else { by[db]=def; ord.push_back(db); }
      // sequentially branch
      for(size_t i=0;i<ord.size();i++){ if(i+1==ord.size()){ E cc=by[ord[i]]; if(cc->isFalse()) return ST_DEAD; jump(s,ord[i]); return ST_OK; } State* o=nullptr; int r=branch(s,by[ord[i]],&o); if(r<0) return ST_DEAD; if(r==1){ jump(s,ord[i]); return ST_OK; } if(r==2){ // s takes the case; o continues at the switch (re-executed under the negated constraint)
          g_work.push_back(o); jump(s,ord[i]); return ST_OK; } }
      return ST_DEAD; }
    case Instruction::Unreachable: violate(s,"unreachable code reached",I); return ST_DEAD;
    case Instruction::Alloca: { auto*a=cast<AllocaInst>(I); uint64_t n=szAlloc(a->getAllocatedType()); if(a->isArrayAllocation()){ bool dead; n*=(uint64_t)concretize(s,getE(s,a->getArraySize()),dead); if(dead) return ST_DEAD; } ObjP o=allocObj(s,n,'s',a->getName().str(),a->getAlign().value()); s.fr.back().allocas.push_back(o->base); setR(s,I,mkConst(64,o->base)); ++s.fr.back().it; return ST_OK; }
    case Instruction::Load: { bool ok; Val v=doLoad(s,getE(s,I->getOperand(0)),t,I,ok); if(!ok) return ST_DEAD; setR(s,I,v); ++s.fr.back().it; return ST_OK; }
    case Instruction::Store: { if(!doStore(s,getE(s,I->getOperand(1)),getOp(s,I->getOperand(0)),I->getOperand(0)->getType(),I)) return ST_DEAD; ++s.fr.back().it; return ST_OK; }
    case Instruction::AtomicRMW: { auto*a=cast<AtomicRMWInst>(I); bool ok; E p=getE(s,a->getPointerOperand()); Val v=doLoad(s,p,t,I,ok); if(!ok) return ST_DEAD; E x=need(v,t),y=getE(s,a->getValOperand()),r=nullptr; switch(a->getOperation()){ case AtomicRMWInst::Add: r=mkBin(O_ADD,x,y);break; case AtomicRMWInst::Sub: r=mkBin(O_SUB,x,y);break; case AtomicRMWInst::Xchg: r=y;break; case AtomicRMWInst::Or: r=mkBin(O_OR,x,y);break; case AtomicRMWInst::And: r=mkBin(O_AND,x,y);break; default: incomplete("atomicrmw"); return ST_DEAD; } if(!doStore(s,p,r,t,I)) return ST_DEAD; setR(s,I,x); ++s.fr.back().it; return ST_OK; }
    case Instruction::AtomicCmpXchg: { auto*a=cast<AtomicCmpXchgInst>(I); bool ok; E p=getE(s,a->getPointerOperand()); Type* vt=a->getCompareOperand()->getType(); Val v=doLoad(s,p,vt,I,ok); if(!ok) return ST_DEAD; E x=need(v,vt); E eq=mkEq(x,getE(s,a->getCompareOperand())); if(!doStore(s,p,mkIte(eq,getE(s,a->getNewValOperand()),x),vt,I)) return ST_DEAD; setR(s,I,mkAgg({Val(x),Val(eq)})); ++s.fr.back().it; return ST_OK; }
    case Instruction::Fence: ++f.it; return ST_OK;
    case Instruction::GetElementPtr: { if(t->isVectorTy()){ incomplete("vector gep"); return ST_DEAD; } E p=constGEP(cast<GEPOperator>(I),[&](const Value* v){ return getE(s,v); }); setR(s,I,p); ++f.it; return ST_OK; }
    case Instruction::Call: { auto*cb=cast<CallInst>(I); Val ret; 
      if(auto*ii=dyn_cast<IntrinsicInst>(cb)){ bool h; Step r=execIntrinsic(s,ii,ret,h); if(!h){ g_unsupported[ii->getCalledFunction()->getName().str()]++; return ST_DEAD; } if(r!=ST_OK) return r; if(!t->isVoidTy()) setR(s,I,ret); ++s.fr.back().it; return ST_OK; }
      if(cb->isInlineAsm()){ ++f.it; if(!t->isVoidTy()){ if(cb->arg_size()==1) setR(s,I,getOp(s,cb->getArgOperand(0))); else setR(s,I,undefVal(t)); } return ST_OK; }
      Function* callee=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
      if(!callee){ bool dead; E fp=getE(s,cb->getCalledOperand()); uint64_t a=(uint64_t)concretize(s,fp,dead); if(dead) return ST_DEAD; auto it=g_fnaddr.find(a); if(it==g_fnaddr.end()){ violate(s,"indirect call to a non-function",I); return ST_DEAD; } callee=it->second; }
      std::vector<Val> args; for(auto&a:cb->args()) args.push_back(getOp(s,a.get())); size_t depth=s.fr.size(); Step r=callFn(s,cb,callee,args,ret); if(r==ST_SUSP){ ++s.fr.back().it; return ST_SUSP; } if(r!=ST_OK) return r; if(s.fr.size()>depth) return ST_OK; if(!t->isVoidTy()) setR(s,I,ret); ++s.fr.back().it; return ST_OK; }
    case Instruction::PHI: ++f.it; return ST_OK;
    case Instruction::Select: { auto*si=cast<SelectInst>(I); if(si->getCondition()->getType()->isVectorTy()){ Val c=getOp(s,si->getCondition()),a=getOp(s,si->getTrueValue()),b=getOp(s,si->getFalseValue()); setR(s,I,mapV(t,[&](unsigned i){ return iteVal(need((*c.v)[i],Type::getInt1Ty(M->getContext())),(*a.v)[i],(*b.v)[i],elemTy(t,i)); })); } else setR(s,I,iteVal(getE(s,si->getCondition()),getOp(s,si->getTrueValue()),getOp(s,si->getFalseValue()),t)); ++f.it; return ST_OK; }
    case Instruction::Freeze: { Val v=getOp(s,I->getOperand(0)); std::function<Val(const Val&,Type*)> fz=[&](const Val& x,Type* ty)->Val{ if(isScalar(ty)) return Val(need(x,ty)); return mapV(ty,[&](unsigned i){ return fz((*x.v)[i],elemTy(ty,i)); }); }; setR(s,I,fz(v,t)); ++f.it; return ST_OK; }
    case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(I); Val v=getOp(s,e->getAggregateOperand()); for(unsigned i:e->indices()) v=(*v.v)[i]; setR(s,I,v); ++f.it; return ST_OK; }
    case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(I); Val v=getOp(s,e->getAggregateOperand()); Val x=getOp(s,e->getInsertedValueOperand()); ArrayRef<unsigned> ix=e->getIndices(); std::function<Val(const Val&,unsigned)> ins=[&](const Val& a,unsigned d)->Val{ if(d==ix.size()) return x; Val r=mkAgg(*a.v); (*r.v)[ix[d]]=ins((*a.v)[ix[d]],d+1); return r; }; setR(s,I,ins(v,0)); ++f.it; return ST_OK; }
    case Instruction::ExtractElement: { Val v=getOp(s,I->getOperand(0)); E i=getE(s,I->getOperand(1)); if(i->isConst()){ if(i->c>=v.v->size()) setR(s,I,undefVal(t)); else setR(s,I,(*v.v)[(size_t)i->c]); } else { Val r=v.v->back(); for(size_t k=v.v->size()-1;k-->0;) r=iteVal(mkEq(i,mkConst(i->w,k)),(*v.v)[k],r,t); setR(s,I,r); } ++f.it; return ST_OK; }
    case Instruction::InsertElement: { Val v=getOp(s,I->getOperand(0)); E i=getE(s,I->getOperand(2)); Val x=getOp(s,I->getOperand(1)); Val r=mkAgg(*v.v); if(i->isConst()){ if(i->c<r.v->size()) (*r.v)[(size_t)i->c]=x; } else for(size_t k=0;k<r.v->size();k++) (*r.v)[k]=iteVal(mkEq(i,mkConst(i->w,k)),x,(*r.v)[k],elemTy(t,k)); setR(s,I,r); ++f.it; return ST_OK; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(I); Val a=getOp(s,sv->getOperand(0)),b=getOp(s,sv->getOperand(1)); int n=a.v->size(); std::vector<Val> r; for(int m:sv->getShuffleMask()) r.push_back(m<0?undefVal(elemTy(t,0)):m<n?(*a.v)[m]:(*b.v)[m-n]); setR(s,I,mkAgg(r)); ++f.it; return ST_OK; }
    case Instruction::ICmp: case Instruction::FCmp: { auto*c=cast<CmpInst>(I); Type* ot=c->getOperand(0)->getType(); Val a=getOp(s,c->getOperand(0)),b=getOp(s,c->getOperand(1)); bool fp=I->getOpcode()==Instruction::FCmp; auto fn=[&](E x,E y){ return fp?fcmp(c->getPredicate(),x,y):icmp(c->getPredicate(),x,y); }; if(ot->isVectorTy()) setR(s,I,mapV(ot,[&](unsigned i){ return Val(fn(need((*a.v)[i],elemTy(ot,i)),need((*b.v)[i],elemTy(ot,i)))); })); else setR(s,I,fn(getE(s,c->getOperand(0)),getE(s,c->getOperand(1)))); ++f.it; return ST_OK; }
    case Instruction::FNeg: { Val a=getOp(s,I->getOperand(0)); if(t->isVectorTy()) setR(s,I,mapV(t,[&](unsigned i){ return Val(mkFUn(O_FNEG,need((*a.v)[i],elemTy(t,i)))); })); else setR(s,I,mkFUn(O_FNEG,need(a,t))); ++f.it; return ST_OK; }
    case Instruction::VAArg: incomplete("va_arg"); return ST_DEAD;
    default: break;
  }
  if(auto*bo=dyn_cast<BinaryOperator>(I)){
    Val a=getOp(s,bo->getOperand(0)),b=getOp(s,bo->getOperand(1)); unsigned op=bo->getOpcode();
    if(op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem){ if(!t->isVectorTy()){ E d=getE(s,bo->getOperand(1)); if(!oblige(s,mkNot(mkEq(d,mkConst(d->w,0))),"integer division by zero",I)) return ST_DEAD; if(op==Instruction::SDiv||op==Instruction::SRem){ E x=getE(s,bo->getOperand(0)); E ov=mkAnd(mkEq(d,mkConst(d->w,maskw(d->w))),mkEq(x,mkConst(x->w,(u128)1<<(x->w-1)))); if(!oblige(s,mkNot(ov),"integer division overflow",I)) return ST_DEAD; } } }
    auto fn=[&](E x,E y)->E{ switch(op){ case Instruction::Add: return mkBin(O_ADD,x,y); case Instruction::Sub: return mkBin(O_SUB,x,y); case Instruction::Mul: return mkBin(O_MUL,x,y); case Instruction::UDiv: return mkBin(O_UDIV,x,y); case Instruction::SDiv: return mkBin(O_SDIV,x,y); case Instruction::URem: return mkBin(O_UREM,x,y); case Instruction::SRem: return mkBin(O_SREM,x,y); case Instruction::And: return mkBin(O_AND,x,y); case Instruction::Or: return mkBin(O_OR,x,y); case Instruction::Xor: return mkBin(O_XOR,x,y); case Instruction::Shl: return mkBin(O_SHL,x,y); case Instruction::LShr: return mkBin(O_LSHR,x,y); case Instruction::AShr: return mkBin(O_ASHR,x,y);
        case Instruction::FAdd: return mkFBin(O_FADD,x,y); case Instruction::FSub: return mkFBin(O_FSUB,x,y); case Instruction::FMul: return mkFBin(O_FMUL,x,y); case Instruction::FDiv: return mkFBin(O_FDIV,x,y); case Instruction::FRem: return mkUF("fmod",x->sk,x,y); default: abort(); } };
    if(t->isVectorTy()) setR(s,I,mapV(t,[&](unsigned i){ return Val(fn(need((*a.v)[i],elemTy(t,i)),need((*b.v)[i],elemTy(t,i)))); })); else setR(s,I,fn(getE(s,bo->getOperand(0)),getE(s,bo->getOperand(1)))); ++s.fr.back().it; return ST_OK; }
  if(auto*ci=dyn_cast<CastInst>(I)){
    Type* st=ci->getSrcTy(); Val a=getOp(s,ci->getOperand(0)); unsigned op=ci->getOpcode();
    if(op==Instruction::BitCast&&(st->isVectorTy()||t->isVectorTy())){ std::vector<Cell> buf(szStore(st)+16,Cell{nullptr,0}); putVal(buf,0,a,st); setR(s,I,getVal(buf,0,t)); ++f.it; return ST_OK; }
    if(t->isVectorTy()) setR(s,I,mapV(t,[&](unsigned i){ return Val(castOp(op,need((*a.v)[i],elemTy(st,i)),elemTy(st,i),elemTy(t,i))); })); else if(!a.e&&(op==Instruction::BitCast)) setR(s,I,Val()); else setR(s,I,castOp(op,getE(s,ci->getOperand(0)),st,t)); ++f.it; return ST_OK; }
  std::string d; raw_string_ostream o(d); I->print(o); g_unsupported["instr: "+d]++; return ST_DEAD;
}
static void memGuard(){ static int k=0; if(++k%5000) return; struct rusage ru; getrusage(RUSAGE_SELF,&ru); if(ru.ru_maxrss>7000000){ incomplete("memory limit"); g_deadline=0; } }
static uint64_t g_maxSteps=6000000,g_maxStepsSeen=0;
static void run(){
  while(!g_work.empty()){
    State* s=g_work.back(); g_work.pop_back(); bool stop=false;
    while(true){
      if((g_instr&1023)==0&&nowS()>g_deadline){ incomplete("time budget"); stop=true; if(s->steps>300000&&!s->fr.empty()) violate(*s,"still running after "+std::to_string(s->steps)+" steps (possible non-termination)",&*s->fr.back().it); break; }
      if(s->steps>g_maxSteps){ incomplete("step limit"); violate(*s,"does not terminate within "+std::to_string(g_maxSteps)+" steps",&*s->fr.back().it); s->fr.clear(); endState(s); break; }
      if((int)g_viol.size()>=g_maxViol){ incomplete("stopped after violations"); stop=true; break; }
      memGuard();
      if(s->m.memo.size()>400000) s->m.memo.clear();
      Step r=step(*s);
      if(r==ST_OK) continue;
      if(r==ST_DEAD){ if(s->fr.empty()) g_paths++; if(s->steps>g_maxStepsSeen) g_maxStepsSeen=s->steps; endState(s); break; }
      if(r==ST_SUSP){ auto g=s->groups.back(); s->groups.pop_back(); g->active--; g->arrived.push_back(s); if(g->active==0) doMerge(g); break; } }
    if(stop) break; }
}
static std::string jesc(const std::string& s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32||(unsigned char)c>126) r+='?'; else r+=c; } return r; }
static void collectLabels(Function* f,std::set<Function*>& seen,std::set<std::string>& out){
  if(!seen.insert(f).second) return; for(auto&b:*f) for(auto&i:b) if(auto*c=dyn_cast<CallBase>(&i)){ Function* g=c->getCalledFunction(); if(!g) continue; if(g->getName()=="__vp_reach"){ if(auto*gv=dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts())) if(gv->hasInitializer()) if(auto*d=dyn_cast<ConstantDataSequential>(gv->getInitializer())) out.insert(d->getAsCString().str()); } else if(g->getName()=="__vp_expect_check_fail") out.insert("check-failed"); else if(!g->isDeclaration()) collectLabels(g,seen,out); } }
int main(int argc,char** argv){
  std::string bc,entry,out; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="-e") entry=nx(); else if(a=="-o") out=nx(); else if(a=="-t") g_budget=atof(argv[++i]); else if(a=="-j") g_jobs=atoi(argv[++i]); else if(a=="-q") g_quickMs=atoi(argv[++i]); else if(a=="-p") g_perJob=atof(argv[++i]); else if(a=="--tmp") g_tmp=nx(); else if(a=="--tools") g_tooldir=nx(); else if(a=="--trace") g_trace=true; else bc=a; }
  LLVMContext ctx; SMDiagnostic err; auto m=parseIRFile(bc,err,ctx); if(!m){ err.print("inksym",errs()); return 3; } M=m.get(); DL=&M->getDataLayout();
  for(auto&f:*M) addrOf(&f);
  Function* F=M->getFunction(entry); if(!F||F->isDeclaration()){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
  g_t0=nowS(); double solveShare=0.45; g_deadline=g_t0+g_budget*(1-solveShare);
  State* s=new State; s->next=HEAP0; 
  // constructors run first: chain frames so that the entry runs last
  { std::vector<Function*> ctors; if(auto*g=M->getGlobalVariable("llvm.global_ctors")) if(g->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<uint64_t,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) ctors.push_back(p.second); }
    std::vector<Val> args; 
    for(Function* c:ctors){ enterFn(*s,c,{},nullptr); while(!s->fr.empty()){ Step r=step(*s); if(r!=ST_OK&&!s->fr.empty()){ fprintf(stderr,"global constructor failed\n"); for(auto&u:g_unsupported) fprintf(stderr," unsupported %s\n",u.first.c_str()); incomplete("global constructor"); s->fr.clear(); } } if(!g_work.empty()) incomplete("symbolic global constructor"); }
    enterFn(*s,F,args,nullptr); }
  g_work.push_back(s); run();
  double execS=nowS()-g_t0; size_t dropped=g_work.size();
  // deferred obligations
  std::vector<HardJob*> jobs; for(auto&o:g_obls) if(!(o.reach&&g_reached.count(o.msg))) jobs.push_back(&o.job);
  double left=g_budget-(nowS()-g_t0); if(left<5) left=5;
  if((int)g_viol.size()<g_maxViol) hardCheckAll(jobs,g_jobs,g_perJob,left);
  uint64_t dunsat=0; for(auto&o:g_obls){ if(o.reach){ if(o.job.res==R_SAT) g_reached.insert(o.msg); continue; } if(o.job.res==R_SAT){ Model mm=o.base; for(auto&kv:o.job.model.var) mm.var[kv.first]=kv.second; report(o.msg,o.site,o.inputs,mm); } else if(o.job.res==R_UNKNOWN) g_undecided.push_back(o.msg+" @ "+o.site); else dunsat++; }
  std::set<std::string> labels; { std::set<Function*> seen; collectLabels(F,seen,labels); }
  std::ostringstream j; j<<"{\n \"entry\":\""<<entry<<"\",\n \"paths\":"<<g_paths<<",\"forks\":"<<g_forks<<",\"merges\":"<<g_merges<<",\"instructions\":"<<g_instr<<",\"asserts\":"<<g_asserts<<",\"asserts_folded\":"<<g_trivial<<",\"obligations\":"<<g_obl<<",\"safety_obligations\":"<<g_safety<<",\n \"check_failures_expected\":"<<g_checkfail<<",\"unknown_branches\":"<<g_prunedUnknown<<",\"deferred\":"<<g_obls.size()<<",\"deferred_unsat\":"<<dunsat<<",\n \"queries\":"<<g_stats.queries<<",\"sat\":"<<g_stats.sat<<",\"unsat\":"<<g_stats.unsat<<",\"unknown\":"<<g_stats.unknown<<",\"cached\":"<<g_stats.cached<<",\"cegar\":"<<g_stats.cegar<<",\"solver_s\":"<<g_stats.solver_s<<",\"exec_s\":"<<execS<<",\"wall_s\":"<<nowS()-g_t0<<",\"exprs\":"<<g_nexprs<<",\"dropped_states\":"<<dropped<<",\n";
  auto arr=[&](const char* k,const std::vector<std::string>& v){ j<<" \""<<k<<"\":["; for(size_t i=0;i<v.size();i++) j<<(i?",":"")<<"\""<<jesc(v[i])<<"\""; j<<"],\n"; };
  arr("incomplete",g_incomplete); arr("undecided",g_undecided); { std::vector<std::string> u; for(auto&k:g_unsupported) u.push_back(k.first); arr("unsupported",u); }
  arr("labels",std::vector<std::string>(labels.begin(),labels.end())); arr("reached",std::vector<std::string>(g_reached.begin(),g_reached.end())); arr("functions",std::vector<std::string>(g_funcs.begin(),g_funcs.end()));
  { std::map<std::string,int> by; for(auto&b:g_stats.by) by[b]++; j<<" \"decided_by\":{"; bool f=true; for(auto&b:by){ j<<(f?"":",")<<"\""<<(b.first.empty()?"none":b.first)<<"\":"<<b.second; f=false; } j<<"},\n"; }
  j<<" \"longest_path_steps\":"<<g_maxStepsSeen<<",\n"; j<<" \"violations\":["; for(size_t i=0;i<g_viol.size();i++){ auto&v=g_viol[i]; j<<(i?",":"")<<"\n  {\"msg\":\""<<jesc(v.msg)<<"\",\"site\":\""<<jesc(v.site)<<"\",\"inputs\":["; for(size_t k=0;k<v.in.size();k++) j<<(k?",":"")<<"[\""<<jesc(v.in[k].first)<<"\",\""<<v.in[k].second<<"\"]"; j<<"]}"; } j<<"]\n}\n";
  if(out.empty()) std::cout<<j.str(); else { std::ofstream(out)<<j.str(); }
  fflush(stdout); _exit(0);
}
