// Symbolic executor for LLVM IR.
#include "solver.hpp"
#include "omptrack.hpp"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/APFloat.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <chrono>
#include <random>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <sys/resource.h>
#include <unistd.h>
#include <thread>
#include <pthread.h>
using namespace llvm;

static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { uint64_t b=0; Expr* e=nullptr; std::vector<Val>* agg=nullptr; };
struct Cell { Expr* e; uint32_t size; };
struct Obj { uint64_t base=0,size=0; std::vector<uint8_t> data, init; std::map<uint32_t,Cell> sym; bool alive=true; int kind=0; std::string name; };
struct PathEnd { std::string why; };          // normal termination of a path (assume false, reported failure)
struct Infeasible {};

struct OpRef { int slot=-1; Val c; };
struct CInst { Instruction* I; std::vector<OpRef> ops; int dst=-1; };
struct CFn { Function* F; std::vector<std::vector<CInst>> blocks; std::map<BasicBlock*,int> bid; int nslots=0; std::vector<int> argSlots; bool stub=false; };
struct Frame { CFn* f; std::vector<Val> r; int bb=0,ip=0,prev=-1; std::vector<uint64_t> allocas; CInst* call=nullptr; };

struct Decision { bool val; bool forced; };
struct Oblig { std::string label; Expr* l; Expr* r; int kind; };

static Module* M; static const DataLayout* DL;
static std::map<Function*,CFn*> cfns;
static std::map<uint64_t,Function*> fnByAddr; static std::map<Function*,uint64_t> fnAddr;
static std::map<std::string,Function*> fnByName;

// options
static double budget=60; static int branchTmo=1500, proveTmo=20000; static long maxPaths=20000; static long maxSteps=200000000; static unsigned seed=1; static bool verbose=false;
static std::string outFile; static std::map<std::string,double> fixedReal; static std::map<std::string,long> params; static int nWitness=3; static bool checkDivGlobal=false;
static double tStart;

// ---- results
struct Cand { std::string label, kind; Model m; std::string note; bool confirmed; };
struct Wit { Model m; std::vector<std::pair<std::string,double>> obs; };
static std::vector<Cand> cands; static std::vector<Wit> wits; static std::map<std::string,long> unsupported; static std::vector<std::string> unknowns;
static long nDone=0,maxDone=0; static long nObl=0,nIdent=0,nConfirmed=0,nUnsat=0,nTriv=0,nUnknown=0,nPaths=0,nInfeasible=0,nSteps=0,nAsserts=0; static bool incomplete=false; static std::string incompleteWhy;
static std::set<std::string> execFns; static std::map<std::string,std::vector<long>> labelStats; // label -> {count, proven}
static long nForks=0,nModulo=0;

static std::string onlyLabel;   // only assertions whose label starts with this
struct Machine {
  OmpTrack omp;
  std::map<uint64_t,Obj*> objs; uint64_t next=0x10000000; 
  std::vector<Frame> stack; 
  std::vector<Decision> prefix; std::vector<Decision> trace; 
  std::vector<Expr*> pc; 
  std::vector<std::pair<std::string,Expr*>> obs; 
  std::map<GlobalVariable*,uint64_t> gaddr; 
  std::vector<std::vector<Decision>>* work=nullptr;
  int undefCount=0; bool checkDiv=false; long steps=0;
  std::map<std::string,int> nameCount;
  // exceptions
  uint64_t errnoAddr=0; uint64_t excObj=0; uint64_t excType=0; std::map<uint64_t,uint64_t> excTypes; 
  std::vector<uint64_t> caught;
  std::set<std::string> ints; 
  Obj* lastObj=nullptr; 
  std::vector<Val*> dummy;
  std::map<std::string,std::pair<long,long>> intRange;
  std::map<Expr*,std::pair<Expr*,Expr*>> halfWords;
  long nAllocs=0; bool assumeCheck=false;
  std::string stackStr(){ std::string s; int n=0; for(int i=(int)stack.size()-1;i>=0&&n<8;i--,n++) s+=demangle(stack[i].f->F->getName().str())+" <- "; return s; }

  ~Machine(){ for(auto&o:objs) delete o.second; }
  // out of time: a path much longer than those that ended may never end; the native replay decides
  void outOfTime(){ incomplete=true; incompleteWhy=outOfMemory()?"memory":"time budget"; tStart-=2*budget; if(nDone==0||steps>std::max(1000000l,4*maxDone)) { std::string at=stackStr(); budget+=60; try { fail("execution ends","hang","still running after "+std::to_string(steps)+" steps at "+at); } catch(...){} budget-=60; } throw PathEnd{"budget"}; }
  bool outOfMemory(){ static long calls=0; static bool full=false; if(!(++calls&63)){ FILE*f=fopen("/proc/self/statm","r"); long a=0,b=0; if(f){ if(fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f); } full=b*4096>4500000000l; } return full; }
  bool replaying(){ return trace.size()<prefix.size(); }

  // ---------------- memory
  uint64_t alloc(uint64_t size,int kind,const std::string&nm="",bool init=false){ Obj*o=new Obj; o->base=next; o->size=size; if(size>(1ull<<28)) throw Unsupported("huge allocation"); o->data.assign(size,0); o->init.assign(size,init?1:0); o->kind=kind; o->name=nm; next+=((size+63)/64+1)*64; objs[o->base]=o; return o->base; }
  Obj* find(uint64_t a,uint64_t n,const char*what){
    if(lastObj&&lastObj->alive&&a>=lastObj->base&&a+n<=lastObj->base+lastObj->size) return lastObj;
    auto it=objs.upper_bound(a); if(it!=objs.begin()){ --it; Obj*o=it->second; if(a>=o->base&&a+n<=o->base+o->size){ if(!o->alive) memErr(std::string("use after free: ")+what); lastObj=o; return o; } if(a<o->base+o->size+64) memErr(std::string("out-of-bounds ")+what+" of "+std::to_string(n)+" bytes at offset "+std::to_string((long)(a-o->base))+" of object of size "+std::to_string(o->size)); }
    memErr(std::string("invalid ")+what+" at address "+std::to_string(a)); return nullptr; }
  [[noreturn]] void memErr(const std::string&s){ fail("memory:"+s,"memory",s+" in "+stackStr()); throw PathEnd{"memory error"}; }
  static void killCells(Obj*o,uint32_t off,uint32_t n,bool partial=true){ if(o->sym.empty()) return; auto it=o->sym.lower_bound(off>16?off-16:0); while(it!=o->sym.end()&&it->first<off+n){ uint32_t s=it->first,e=s+it->second.size; if(e<=off){++it;continue;} if((s<off||e>off+n)){ // partial overlap
        materialize(o,it->first,it->second); }
      it=o->sym.erase(it);} }
  static uint64_t toBits(Expr*e,uint32_t size){ if(e->isReal()){ if(!e->varfree) throw Unsupported("bits of symbolic real"); if(size==4){ float f=(float)e->dval; uint32_t u; memcpy(&u,&f,4); return u;} double d=e->dval; uint64_t u; memcpy(&u,&d,8); return u; } if(e->k==ICONST) return e->iv; throw Unsupported("bits of symbolic value"); }
  static void materialize(Obj*o,uint32_t off,const Cell&c){ if((c.e->k==IVAR||c.e->k==RVAR)&&c.e->name.rfind("undef!",0)==0){ for(uint32_t i=0;i<c.size;i++) o->init[off+i]=0; return; } uint64_t u=toBits(c.e,c.size); for(uint32_t i=0;i<c.size&&i<8;i++) o->data[off+i]=(u>>(8*i))&255; }
  void store(uint64_t a,const Val&v,Type*T){
    if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ unsigned n=nElem(T); for(unsigned i=0;i<n;i++) store(a+elemOff(T,i),elem(v,i),elemTy(T,i)); return; }
    uint32_t n=DL->getTypeStoreSize(T); Obj*o=find(a,n,"write"); uint32_t off=a-o->base; killCells(o,off,n);
    if(v.e){ Expr*e=v.e; if(e->isBool()){ bool t=decide(e); for(uint32_t i=0;i<n;i++){o->data[off+i]=0;o->init[off+i]=1;} o->data[off]=t; return; } if(e->k==ICONST){ for(uint32_t i=0;i<n;i++){o->data[off+i]=(e->iv>>(8*i))&255;o->init[off+i]=1;} return; } if(n==8){ auto hw=halfWords.find(e); if(hw!=halfWords.end()){ Type*I=Type::getInt32Ty(T->getContext()); Val l,h; l.e=hw->second.first; h.e=hw->second.second; store(a,l,I); store(a+4,h,I); return; } } o->sym[off]=Cell{e,n}; for(uint32_t i=0;i<n;i++)o->init[off+i]=1; return; }
    uint64_t b=v.b; for(uint32_t i=0;i<n;i++){ o->data[off+i]=i<8?(b>>(8*i))&255:0; o->init[off+i]=1; } }
  Val load(uint64_t a,Type*T){
    if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ Val v; v.agg=new std::vector<Val>; unsigned n=nElem(T); for(unsigned i=0;i<n;i++) v.agg->push_back(load(a+elemOff(T,i),elemTy(T,i))); return v; }
    uint32_t n=DL->getTypeStoreSize(T); Obj*o=find(a,n,"read"); uint32_t off=a-o->base; Val v;
    if(!o->sym.empty()){ auto it=o->sym.find(off); if(it!=o->sym.end()&&it->second.size==n){ v.e=it->second.e; if(T->isFloatingPointTy()&&!v.e->isReal()) throw Unsupported("int bits as real"); return norm(v,T); }
      if(it!=o->sym.end()&&it->second.size>n&&it->second.e->isInt()){ v.e=mkICast(2,n*8,it->second.e); return norm(v,T); }
      if(n==8&&T->isIntegerTy(64)){ bool halves=false; for(uint32_t h=0;h<8;h+=4){ auto ht=o->sym.find(off+h); if(ht!=o->sym.end()&&ht->second.size==4&&ht->second.e->isInt()&&ht->second.e->k!=ICONST&&ht->second.e->name.rfind("undef!",0)!=0) halves=true; } // two 32-bit members read (and copied) as one word
        if(halves&&(!o->sym.count(off)||o->sym[off].size==4)){ Type*I=Type::getInt32Ty(T->getContext()); Val lo=load(a,I),hi=load(a+4,I); Expr*l=lo.e?lo.e:mkIConst(lo.b&0xffffffffull,32),*h=hi.e?hi.e:mkIConst(hi.b&0xffffffffull,32); v.e=mkIBin(11,64,mkICast(0,64,l),mkIBin(7,64,mkICast(0,64,h),mkIConst(32,64))); halfWords[v.e]={l,h}; return norm(v,T); } }
      auto jt=o->sym.lower_bound(off>16?off-16:0); for(;jt!=o->sym.end()&&jt->first<off+n;){ if(jt->first+jt->second.size<=off){++jt;continue;} materialize(o,jt->first,jt->second); jt=o->sym.erase(jt);} }
    if(n==8&&T->isIntegerTy(64)){ auto all=[&](uint32_t h,bool x){ for(uint32_t i=h;i<h+4;i++) if((bool)o->init[off+i]!=x) return false; return true; }; // one member set, the other not
      if((all(0,true)&&all(4,false))||(all(0,false)&&all(4,true))){ Type*I=Type::getInt32Ty(T->getContext()); Val lo=load(a,I),hi=load(a+4,I); Expr*l=lo.e?lo.e:mkIConst(lo.b&0xffffffffull,32),*h=hi.e?hi.e:mkIConst(hi.b&0xffffffffull,32); v.e=mkIBin(11,64,mkICast(0,64,l),mkIBin(7,64,mkICast(0,64,h),mkIConst(32,64))); halfWords[v.e]={l,h}; return norm(v,T); } }
    bool un=false,allun=true; for(uint32_t i=0;i<n;i++) if(!o->init[off+i]) un=true; else allun=false;
    if(un){ std::string nm="undef!"+std::to_string(undefCount++); if(T->isFloatingPointTy()){ v.e=mkVar(nm); if(allun) o->sym[off]=Cell{v.e,n}; } else if(T->isPointerTy()) { v.b=0xdeadbeef00; } else { v.e=mkIVar(nm,n*8); if(allun) o->sym[off]=Cell{v.e,n}; else if(n<=8){ uint64_t mu=0,kv=0; for(uint32_t i=0;i<n;i++) if(!o->init[off+i]) mu|=0xffull<<(8*i); else kv|=(uint64_t)o->data[off+i]<<(8*i); v.e=mkIBin(11,n*8,mkIBin(10,n*8,v.e,mkIConst(mu,n*8)),mkIConst(kv,n*8)); } if(T->getIntegerBitWidth()!=n*8) v.e=mkICast(2,T->getIntegerBitWidth(),v.e);} return norm(v,T); }
    uint64_t b=0; for(uint32_t i=0;i<n&&i<8;i++) b|=(uint64_t)o->data[off+i]<<(8*i);
    if(T->isDoubleTy()){ double d; memcpy(&d,&b,8); v.e=fp(d); return v; } if(T->isFloatTy()){ float f; uint32_t u=b; memcpy(&f,&u,4); v.e=fp(f); return v; } if(T->isX86_FP80Ty()){ if(b==0){ v.e=mkInt(0); return v;} throw Unsupported("x86_fp80 bytes"); }
    v.b=b; if(T->isIntegerTy()&&T->getIntegerBitWidth()<64) v.b&=(1ull<<T->getIntegerBitWidth())-1; return v; }
  Val norm(Val v,Type*T){ if(v.e&&T->isIntegerTy()){ if(v.e->k==ICONST){ v.b=v.e->iv; v.e=nullptr; } else if(v.e->k==BCONST){ v.b=v.e->op; v.e=nullptr;} } return v; }
  Expr* fp(double d){ if(std::isinf(d)) return mkVar(d>0?"inf!":"ninf!"); if(std::isnan(d)) return mkVar("nan!"); 
    // a constant that is the double nearest to a simple fraction (1/3, 0.7) stands for that fraction
    double x=std::fabs(d); if(x>1e-6&&x<1e6){ double h0=0,h1=1,k0=1,k1=0,y=x; for(int i=0;i<20;i++){ double f=std::floor(y),h2=f*h1+h0,k2=f*k1+k0; h0=h1;h1=h2;k0=k1;k1=k2; if(k1>1000) break; if(h1/k1==x) return mkQ(mpq_class((long)(d<0?-h1:h1),(long)k1)); if(y==f) break; y=1/(y-f); } }
    return mkD(d); }
  static unsigned nElem(Type*T){ if(auto*S=dyn_cast<StructType>(T)) return S->getNumElements(); if(auto*A=dyn_cast<ArrayType>(T)) return A->getNumElements(); return cast<FixedVectorType>(T)->getNumElements(); }
  static Type* elemTy(Type*T,unsigned i){ if(auto*S=dyn_cast<StructType>(T)) return S->getElementType(i); if(auto*A=dyn_cast<ArrayType>(T)) return A->getElementType(); return cast<VectorType>(T)->getElementType(); }
  static uint64_t elemOff(Type*T,unsigned i){ if(auto*S=dyn_cast<StructType>(T)) return DL->getStructLayout(S)->getElementOffset(i); return i*DL->getTypeAllocSize(elemTy(T,i)).getFixedValue(); }
  static Val elem(const Val&v,unsigned i){ if(!v.agg) return Val(); return (*v.agg)[i]; }
  void copyMem(uint64_t d,uint64_t s,uint64_t n){ if(!n) return; Obj*so=find(s,n,"read(memcpy)"); Obj*dO=find(d,n,"write(memcpy)"); uint32_t so_=s-so->base, d_=d-dO->base; std::vector<uint8_t> b(so->data.begin()+so_,so->data.begin()+so_+n), in(so->init.begin()+so_,so->init.begin()+so_+n); std::vector<std::pair<uint32_t,Cell>> cs; for(auto it=so->sym.lower_bound(so_>16?so_-16:0);it!=so->sym.end()&&it->first<so_+n;++it){ if(it->first+it->second.size<=so_) continue; if(it->first<so_||it->first+it->second.size>so_+n){ throw Unsupported("partial copy of symbolic cell"); } cs.push_back({it->first-so_,it->second}); }
    killCells(dO,d_,n); std::copy(b.begin(),b.end(),dO->data.begin()+d_); std::copy(in.begin(),in.end(),dO->init.begin()+d_); for(auto&c:cs) dO->sym[d_+c.first]=c.second; }
  void setMem(uint64_t d,uint8_t v,uint64_t n){ if(!n) return; Obj*o=find(d,n,"write(memset)"); uint32_t off=d-o->base; killCells(o,off,n); std::fill(o->data.begin()+off,o->data.begin()+off+n,v); std::fill(o->init.begin()+off,o->init.begin()+off+n,1); }
  std::string cstr(uint64_t a){ std::string s; for(;;){ Obj*o=find(a,1,"read(string)"); uint32_t off=a-o->base; char c=o->data[off]; if(!c) break; s+=c; a++; if(s.size()>4096) break; } return s; }

  // ---------------- constants
  Val constant(Constant*C){
    Val v;
    if(auto*I=dyn_cast<ConstantInt>(C)){ if(I->getBitWidth()<=64) v.b=I->getZExtValue(); else v.b=I->getValue().getLoBits(64).getLimitedValue(); return v; }
    if(auto*F=dyn_cast<ConstantFP>(C)){ APFloat f=F->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); v.e=fp(f.convertToDouble()); return v; }
    Type*T=C->getType();
    if(isa<ConstantPointerNull>(C)) return v;
    if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)){ if(T->isFloatingPointTy()) v.e=mkInt(0); else if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ v.agg=new std::vector<Val>; for(unsigned i=0;i<nElem(T);i++){ Type*E=elemTy(T,i); v.agg->push_back(constant(Constant::getNullValue(E))); } } return v; }
    if(auto*F=dyn_cast<Function>(C)){ v.b=fnAddr.at(F); return v; }
    if(auto*G=dyn_cast<GlobalVariable>(C)){ auto it=gaddr.find(G); if(it==gaddr.end()) throw Unsupported("global "+G->getName().str()); v.b=it->second; return v; }
    if(auto*A=dyn_cast<GlobalAlias>(C)) return constant(A->getAliasee());
    if(auto*A=dyn_cast<ConstantAggregate>(C)){ v.agg=new std::vector<Val>; for(unsigned i=0;i<A->getNumOperands();i++) v.agg->push_back(constant(A->getOperand(i))); return v; }
    if(auto*A=dyn_cast<ConstantDataSequential>(C)){ v.agg=new std::vector<Val>; for(unsigned i=0;i<A->getNumElements();i++) v.agg->push_back(constant(A->getElementAsConstant(i))); return v; }
    if(auto*E=dyn_cast<ConstantExpr>(C)){
      switch(E->getOpcode()){
        case Instruction::GetElementPtr: { Val b=constant(E->getOperand(0)); APInt off(64,0); if(!cast<GEPOperator>(E)->accumulateConstantOffset(*DL,off)) throw Unsupported("const gep"); v.b=b.b+off.getSExtValue(); return v; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constant(E->getOperand(0));
        case Instruction::Trunc: { v=constant(E->getOperand(0)); v.b&=(E->getType()->getIntegerBitWidth()>=64?~0ull:(1ull<<E->getType()->getIntegerBitWidth())-1); return v; }
        case Instruction::Add: { v.b=constant(E->getOperand(0)).b+constant(E->getOperand(1)).b; return v; }
        case Instruction::Sub: { v.b=constant(E->getOperand(0)).b-constant(E->getOperand(1)).b; return v; }
        case Instruction::ICmp: { uint64_t x=constant(E->getOperand(0)).b,y=constant(E->getOperand(1)).b; v.b= E->getPredicate()==CmpInst::ICMP_EQ? x==y : x!=y; return v; }
        default: { std::string s; raw_string_ostream o(s); E->print(o); throw Unsupported("constexpr "+o.str()); } } }
    std::string s; raw_string_ostream o(s); C->print(o); throw Unsupported("constant "+o.str());
  }
  // library exception classes: a table whose every entry is std::exception::what (their constructors are not in the module)
  uint64_t excVt=0,whatStr=0;
  void excVtable(uint64_t o){ if(!excVt){ excVt=alloc(64,2,"exception vtable",true); uint64_t f=fnAddr.at(fnByName.at("_ZNKSt9exception4whatEv")); Obj*t=find(excVt,64,"init"); for(int i=0;i<8;i++) memcpy(&t->data[8*i],&f,8); } Obj*x=find(o,8,"exception"); memcpy(&x->data[o-x->base],&excVt,8); memset(&x->init[o-x->base],1,8); }
  void initGlobals(){
    for(auto&G:M->globals()){ uint64_t sz=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()).getFixedValue():8; if(G.isDeclaration()) sz=std::max<uint64_t>(sz,512); gaddr[&G]=alloc(sz,2,G.getName().str(),true); }
    for(auto&G:M->globals()) if(G.hasInitializer()&&!isa<ConstantAggregateZero>(G.getInitializer())&&!isa<UndefValue>(G.getInitializer())) initConst(gaddr[&G],G.getInitializer());
  }
  void initConst(uint64_t a,Constant*C){ Type*T=C->getType(); if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return; 
    if(auto*D=dyn_cast<ConstantDataSequential>(C)){ if(D->getElementType()->isIntegerTy(8)){ Obj*o=find(a,D->getNumElements(),"init"); StringRef s=D->getRawDataValues(); memcpy(&o->data[a-o->base],s.data(),s.size()); return; } for(unsigned i=0;i<D->getNumElements();i++) initConst(a+elemOff(T,i),D->getElementAsConstant(i)); return; }
    if(auto*A=dyn_cast<ConstantAggregate>(C)){ for(unsigned i=0;i<A->getNumOperands();i++) initConst(a+elemOff(T,i),A->getOperand(i)); return; }
    try { store(a,constant(C),T); } catch(Unsupported&){ } }

  // ---------------- decisions
  std::unordered_map<int,int> smask; std::vector<Poly> zeros; // known signs of canonical polynomials: 1 negative, 2 zero, 4 positive
  void addPc(Expr*c){ pc.push_back(c); note(c); }
  static bool condKey(Expr*c,int&id,int&want){ // c  <=>  sign(keyPoly[id]) in want
    int o; try { if(c->k==BLT){ id=signKey(mkSub(c->b,c->a),o); want=o>0?4:1; } else if(c->k==BLE){ id=signKey(mkSub(c->b,c->a),o); want=o>0?6:3; } else if(c->k==BEQ){ id=signKey(mkSub(c->a,c->b),o); want=2; } else if(c->k==BNOT&&c->a->k==BEQ){ id=signKey(mkSub(c->a->a,c->a->b),o); want=5; } else return false; } catch(TooBig&){ return false; } catch(Unsupported&){ return false; } return id>=0; }
  void note(Expr*c){ if(c->k==BAND){ note(c->a); note(c->b); return; } int id,w; if(!condKey(c,id,w)) return; auto it=smask.find(id); int m=it==smask.end()?7:it->second; int n=m&w; if(n==2&&m!=2) zeros.push_back(signPoly(id)); smask[id]=n; }
  // -1 unknown
  int known(Expr*c){ if(c->k==BAND){ int x=known(c->a),y=known(c->b); if(x==0||y==0) return 0; return x==1&&y==1?1:-1; } if(c->k==BOR){ int x=known(c->a),y=known(c->b); if(x==1||y==1) return 1; return x==0&&y==0?0:-1; } int id,w; if(!condKey(c,id,w)) return -1; auto it=smask.find(id); if(it==smask.end()) return -1; if(!(it->second&w)) return 0; if(!(it->second&~w)) return 1; return -1; }
  bool nonzeroPoly(const Poly&p){ int o; int id=polyKey(p,o); if(id<0) return false; auto it=smask.find(id); return it!=smask.end()&&!(it->second&2); }
  bool decide(Expr*c){
    if(outOfMemory()) outOfTime();
    if(c->k==BCONST) return c->op;
    // cheap sign reasoning
    if(c->k==BLT||c->k==BLE||c->k==BEQ){ try { RF*r=rfOf(mkSub(c->b,c->a)); int s=rfSign(*r); if(c->k==BLT){ if(s==2) return true; if(s==3||s==-1||s==-2) return false; } else if(c->k==BLE){ if(s==2||s==1||s==3) return true; if(s==-2) return false; } else { if(s==3) return true; if(s==2||s==-2) return false; } mpq_class q; if(rfConst(r,q)) return c->k==BLT?q>0:c->k==BLE?q>=0:q==0; } catch(TooBig&){} }
    // syntactic occurrence in the path condition
    Expr*nc=mkNot(c); for(Expr*p:pc){ if(p==c) return true; if(p==nc) return false; }
    { int kn=known(c); if(kn>=0) return kn; }
    size_t pos=trace.size();
    if(pos<prefix.size()){ Decision d=prefix[pos]; trace.push_back(d); if(!d.forced) addPc(d.val?c:nc); else note(d.val?c:nc); return d.val; }
    if(now()-tStart>budget) outOfTime();
    pc.push_back(c); Res rt=solve(pc,branchTmo); pc.pop_back();
    Decision d{true,false};
    if(rt==UNSAT){ d={false,true}; trace.push_back(d); note(nc); return false; }
    pc.push_back(nc); Res rf=solve(pc,branchTmo); pc.pop_back();
    if(rf==UNSAT){ d={true,true}; trace.push_back(d); note(c); return true; }
    if(verbose) fprintf(stderr,"fork@%zu %s  [%s]\n",trace.size(),toStr(c,8).c_str(),stackStr().c_str());
    nForks++;
    // push the alternative
    std::vector<Decision> alt=trace; alt.push_back({false,false}); work->push_back(alt);
    trace.push_back(d); addPc(c); return true;
  }
  // both outcomes are known to be possible (a variable that occurs nowhere else yet)
  bool decideFree(Expr*c){
    Expr*nc=mkNot(c); size_t pos=trace.size(); if(pos<prefix.size()){ Decision d=prefix[pos]; trace.push_back(d); addPc(d.val?c:nc); return d.val; }
    if(now()-tStart>budget) outOfTime();
    nForks++; std::vector<Decision> alt=trace; alt.push_back({false,false}); work->push_back(alt); trace.push_back({true,false}); addPc(c); return true;
  }
  uint64_t concretize(Expr*e,int w){
    if(e->k==ICONST) return e->iv;
    if(e->isReal()) return toBits(e,8);
    if(e->isBool()) return decide(e);
    for(int guard=0;guard<4096;guard++){
      // candidate value
      uint64_t v=0; bool have=false; std::string key="cz"+std::to_string(trace.size());
      // reuse the value recorded on replay: deterministic enumeration from the model is not stable, so enumerate the smallest value
      auto it=czMemo.find({e,trace.size(),pcHash()}); if(it!=czMemo.end()){ v=it->second; have=true; }
      if(!have){ Model m; Expr*t=mkIVar("cz!"+std::to_string(w),w); std::vector<Expr*> q=pc; q.push_back(mkICmp(0,t,e)); Res r=solve(q,5000,&m); if(r==UNSAT) throw Infeasible(); if(r!=SAT) throw Unsupported("concretization undecided"); v=m.ints[t->name]; czMemo[{e,trace.size(),pcHash()}]=v; }
      if(decide(mkICmp(0,e,mkIConst(v,e->width)))) return v;
    }
    throw Unsupported("too many concretizations");
  }
  uint64_t pcHash(){ uint64_t h=1469598103934665603ull; for(Expr*p:pc) h=(h^p->id)*1099511628211ull; return h; }
  static std::map<std::tuple<Expr*,size_t,uint64_t>,uint64_t> czMemo;
  uint64_t cint(const Val&v,int w=64){ if(!v.e) return v.b; return concretize(v.e,w); }
  bool cbool(const Val&v){ if(!v.e) return v.b&1; if(v.e->isBool()) return decide(v.e); return decide(mkICmp(1,v.e,mkIConst(0,v.e->width))); }
  Expr* bexpr(const Val&v){ if(!v.e) return mkB(v.b&1); if(v.e->isBool()) return v.e; return mkICmp(1,v.e,mkIConst(0,v.e->width)); }
  Expr* iexpr(const Val&v,int w){ if(!v.e) return mkIConst(v.b,w); if(v.e->isBool()) return mkIConst(decide(v.e),w); if(v.e->isReal()) return mkIConst(toBits(v.e,8),w); return v.e; }

  // ---------------- obligations
  void fail(const std::string&label,const std::string&kind,const std::string&note){ // reached unconditionally on this path
    if(replaying()) return; nObl++;
    Model m; bool ok=false; if(findPoint(pc,nullptr,m)) ok=true; else { Res r=solve(pc,proveTmo,&m); if(r==UNSAT){ nUnsat++; throw Infeasible(); } ok=r==SAT; }
    fillInts(m); addCand({label,kind,m,note,ok}); }
  void addCand(Cand c){ int n=0; for(auto&x:cands) if(x.label==c.label) n++; if(n<3) cands.push_back(c); if(verbose) fprintf(stderr,"CAND %s %s %s\n",c.label.c_str(),c.kind.c_str(),c.note.c_str()); }
  void fillInts(Model&m){ fillReals(m); for(auto&x:intRange) if(!m.ints.count(x.first)) m.ints[x.first]=x.second.first; }
  void stat(const std::string&l,bool ok){ auto&v=labelStats[l]; if(v.empty()) v={0,0}; v[0]++; if(ok) v[1]++; }
  void assertEq(Expr*a,Expr*b,const std::string&label){ if(label.compare(0,onlyLabel.size(),onlyLabel)) return;
    obs.push_back({label+".l",a}); obs.push_back({label+".r",b}); nAsserts++;
    if(replaying()) return; nObl++;
    if(now()-tStart>budget)outOfTime();
    if(a==b){ nTriv++; stat(label,true); return; }
    bool big=false; 
    try { RF*r=rfOf(mkSub(a,b)); if(rfIsZero(r)){ nIdent++; Res c=confirmEq(a,b,1000); if(c==UNSAT) nConfirmed++; else if(c==SAT){ unsupported["solver disagrees with normaliser: "+label]++; } stat(label,true); return; }
      if(!zeros.empty()&&zeroModulo(r->n,zeros,[this](const Poly&p){return nonzeroPoly(p);})){ nIdent++; nModulo++; std::vector<Expr*> q; for(Expr*p:pc) q.push_back(p); q.push_back(mkNot(mkEQ(a,b))); if(r->n.size()<300&&solve(q,500)==UNSAT) nConfirmed++; stat(label,true); return; }
      int s=rfSign(*r); mpq_class q; if(s==2||s==-2||rfConst(r,q)) { Model m; if(!findPoint(pc,mkNot(mkEQ(a,b)),m)) solve(pc,proveTmo,&m); fillInts(m); addCand({label,"eq",m,"difference is nonzero",true}); stat(label,false); return; } } catch(TooBig&){ big=true; }
    if(verbose){ try { RF*r=rfOf(mkSub(a,b)); std::string s=polySmt(r->n); fprintf(stderr,"NONZERO %s: %s (terms %zu)\n",label.c_str(),s.substr(0,600).c_str(),r->n.size()); } catch(TooBig&){ fprintf(stderr,"TOOBIG %s\n",label.c_str()); } }
    Model m; std::vector<Expr*> q=pc; q.push_back(mkNot(mkEQ(a,b)));
    if(findPoint(pc,mkNot(mkEQ(a,b)),m,a,b)){ fillInts(m); bool conf=confirmPoint(q,m); addCand({label,"eq",m,"lhs="+std::to_string(lastL)+" rhs="+std::to_string(lastR),conf}); stat(label,false); return; }
    if(!big){ Res r=solve(q,proveTmo,&m); if(r==UNSAT){ nUnsat++; stat(label,true); return; } if(r==SAT){ fillInts(m); addCand({label,"eq",m,"solver model",true}); stat(label,false); return; } }
    nUnknown++; unknowns.push_back(label+(big?" (too big)":"")); stat(label,false);
  }
  void assertB(Expr*c,const std::string&label){ if(label.compare(0,onlyLabel.size(),onlyLabel)) return;
    nAsserts++; if(replaying()) return; nObl++; 
    if(c->k==BCONST){ if(c->op){ nTriv++; stat(label,true); return; } stat(label,false); nObl--; fail(label,"bool","assertion is false on this path"); return; }
    if(now()-tStart>budget)outOfTime();
    if(c->k==BLE||c->k==BLT){ try { RF*r=rfOf(mkSub(c->b,c->a)); int s=rfSign(*r); if(s==2||(c->k==BLE&&(s==1||s==3))){ nIdent++; stat(label,true); return; } } catch(TooBig&){} }
    Model m; Expr*nc=mkNot(c); std::vector<Expr*> q=pc; q.push_back(nc);
    Res r=solve(q,proveTmo,&m); if(r==UNSAT){ nUnsat++; stat(label,true); return; }
    Model m2; if(findPoint(pc,nc,m2)){ fillInts(m2); addCand({label,"bool",m2,"",confirmPoint(q,m2)}); stat(label,false); return; }
    if(r==SAT){ fillInts(m); addCand({label,"bool",m,"solver model",true}); stat(label,false); return; }
    nUnknown++; unknowns.push_back(label); stat(label,false);
  }
  double lastL=0,lastR=0;
  bool confirmPoint(const std::vector<Expr*>&q,const Model&m){ std::vector<std::string> ex; for(auto&x:m.real){ bool used=false; for(auto&a:atoms) if(a.input&&a.name==x.first&&!a.alg) used=true; if(!used) continue; mpq_class v(x.second); std::string s=mpz_class(abs(v.get_num())).get_str()+".0"; s="(/ "+s+" "+v.get_den().get_str()+".0)"; if(sgn(v)<0) s="(- "+s+")"; ex.push_back("(assert (= |"+x.first+"| "+s+"))"); }
    // only constrain variables that the query declares: retried without on error
    (void)q; std::vector<Expr*> all=q; for(auto&x:m.real){ Expr*v=mkVar(x.first); if(atoms[v->atom].alg) continue; mpq_class qv(x.second); all.push_back(mkEQ(v,mkQ(qv))); }
    for(auto&x:m.ints){ int w=64; for(auto&r:intRange) if(r.first==x.first) w=64; all.push_back(mkICmp(0,mkIVar(x.first,w),mkIConst(x.second,w))); }
    return solve(all,5000)==SAT; }
  // randomised choice of a concrete point satisfying the conditions (the solver confirms it afterwards)
  bool findPoint(const std::vector<Expr*>&conds,Expr*goal,Model&out,Expr*l=nullptr,Expr*r=nullptr){
    static std::mt19937 rng(seed*7919+13); 
    // free inputs
    Model base; { bool anyInt=false; for(Expr*c:conds) if(hasInt(c)) anyInt=true; if(goal&&hasInt(goal)) anyInt=true; if(anyInt){ std::vector<Expr*> q; for(Expr*c:conds) if(hasInt(c)&&!hasReal(c)) q.push_back(c); if(goal&&hasInt(goal)&&!hasReal(goal)) q.push_back(goal); if(solve(q,5000,&base)!=SAT) return false; } fillInts(base); }
    std::vector<int> in; for(size_t i=0;i<atoms.size();i++) if(atoms[i].input) in.push_back(i);
    double best=-1; Model bm; double t0=now();
    for(int it=0;it<1500&&now()-t0<3.0;it++){
      Env env; for(auto&x:base.ints) env.ival[x.first]=x.second;
      for(int i:in){ Atom&a=atoms[i]; double v; if(a.alg) continue; double lo=a.hasLo?a.lo.get_d():-4, hi=a.hasHi?a.hi.get_d():std::max(4.0,lo+4); if(a.pos) lo=std::max(lo,0.0625); if(!a.hasLo&&a.hasHi) lo=std::min(lo,hi-8); if(it%3==1&&a.pos&&!a.hasLo) { hi=2; lo=0.5; } int k=(int)(rng()%65); v=lo+(hi-lo)*k/64.0; if(it%5==4&&!a.pos&&!a.hasLo) v=(int)(rng()%9)-4; env.val[a.name]=v; }
      for(int i:in){ Atom&a=atoms[i]; if(!a.alg) continue; // unit partner: the related atom is the previous one
        int p=i-1; static const double cs[][2]={{3,4},{-3,4},{4,-3},{5,12},{-12,-5},{8,15},{-4,-3},{7,24}}; auto&c=cs[rng()%8]; double h=std::sqrt(c[0]*c[0]+c[1]*c[1]); env.val[atoms[p].name]=c[0]/h; env.val[a.name]=c[1]/h; }
      try { bool ok=true; for(Expr*c:conds) if(!(hasInt(c)?env.boolean(c):robust(env,c))){ok=false;break;} if(!ok) continue;
        double q=1; if(l){ double x=env.real(l),y=env.real(r); if(!(std::isfinite(x)&&std::isfinite(y))) continue; double s=std::max(1e-3,std::max(std::fabs(x),std::fabs(y))); q=std::fabs(x-y)/s; if(q<1e-7) continue; lastL=x; lastR=y; } else if(goal&&!(hasInt(goal)?env.boolean(goal):robust(env,goal))) continue;
        if(q>best){ best=q; bm.real.clear(); for(auto&x:env.val) bm.real[x.first]=x.second; bm.ints=base.ints; if(q>1e-3) break; } } catch(EvalError&){ }
    }
    if(best<0) return false; out=bm; return true; }
  static bool robust(Env&env,Expr*c){ switch(c->k){ case BLT: case BLE: { double x=env.real(c->a),y=env.real(c->b); if(std::isnan(x)||std::isnan(y)) return false; return y-x>1e-9*std::max(1e-3,std::max(std::fabs(x),std::fabs(y))); } case BEQ: { double x=env.real(c->a),y=env.real(c->b); return std::fabs(x-y)<=1e-12*std::max(1.0,std::fabs(x)); } case BNOT: if(c->a->k==BEQ){ double x=env.real(c->a->a),y=env.real(c->a->b); return std::fabs(x-y)>1e-9*std::max(1e-3,std::max(std::fabs(x),std::fabs(y))); } return !env.boolean(c->a); case BAND: return robust(env,c->a)&&robust(env,c->b); case BOR: return robust(env,c->a)||robust(env,c->b); default: return env.boolean(c);} }
  static bool hasInt(Expr*c){ if(!c) return false; if(c->k==BICMP) return true; if(c->k==BNOT) return hasInt(c->a); if(c->k==BAND||c->k==BOR) return hasInt(c->a)||hasInt(c->b); return false; }
  static bool hasReal(Expr*c){ if(!c) return false; if(c->k==BLT||c->k==BLE||c->k==BEQ) return true; if(c->k==BNOT) return hasReal(c->a); if(c->k==BAND||c->k==BOR) return hasReal(c->a)||hasReal(c->b); return false; }
  // inputs the query did not mention are free: any admissible value will do (the partner of a unit vector is determined)
  static void fillReals(Model&m){ for(size_t i=0;i<atoms.size();i++){ Atom&a=atoms[i]; if(!a.input) continue; if(a.alg){ Atom&x=atoms[i-1]; double q=m.real.count(x.name)?m.real[x.name]:0.6; m.real[x.name]=q; double y=std::sqrt(std::max(0.0,1-q*q)); if(m.real.count(a.name)&&m.real[a.name]<0) y=-y; m.real[a.name]=y; } }
    for(auto&a:atoms) if(a.input&&!m.real.count(a.name)) m.real[a.name]=a.pos?1:(a.hasLo?a.lo.get_d():(a.hasHi?a.hi.get_d():0.5)); }
  void recordWitness(){
    if((int)wits.size()>=nWitness) return; Model m; std::vector<Expr*> conds=pc; bool ok=findPoint(conds,nullptr,m); if(!ok){ Res r=solve(pc,5000,&m); ok=r==SAT; if(ok) fillReals(m); } if(!ok) return; fillInts(m);
    Wit w; w.m=m; Env env; env.val.insert(m.real.begin(),m.real.end()); env.ival.insert(m.ints.begin(),m.ints.end());
    try { for(auto&o:obs) w.obs.push_back({o.first,env.real(o.second)}); } catch(EvalError&e){ return; }
    wits.push_back(w); }

  // ---------------- execution
  CFn* compile(Function*F){ auto it=cfns.find(F); if(it!=cfns.end()) return it->second; CFn*c=new CFn; c->F=F; cfns[F]=c; std::map<Value*,int> slot; int n=0; for(auto&A:F->args()){ slot[&A]=n; c->argSlots.push_back(n++); } int b=0; for(auto&B:*F){ c->bid[&B]=b++; for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++; } c->nslots=n; for(auto&B:*F){ c->blocks.emplace_back(); for(auto&I:B){ CInst ci; ci.I=&I; if(!I.getType()->isVoidTy()) ci.dst=slot[&I]; for(auto&U:I.operands()){ OpRef o; Value*v=U.get(); auto s=slot.find(v); if(s!=slot.end()) o.slot=s->second; else if(auto*C=dyn_cast<Constant>(v)){ o.slot=-2; try { o.c=constant(C); } catch(Unsupported&){ o.slot=-3; } } else o.slot=-4; ci.ops.push_back(o);} c->blocks.back().push_back(ci);} } return c; }
  Val op(Frame&f,const CInst&ci,unsigned i){ const OpRef&o=ci.ops[i]; if(o.slot>=0) return f.r[o.slot]; if(o.slot==-2) return o.c; if(o.slot==-3) return constant(cast<Constant>(ci.I->getOperand(i))); return Val(); }
  Expr* rop(Frame&f,const CInst&ci,unsigned i){ Val v=op(f,ci,i); if(!v.e) { if(v.b==0) return mkInt(0); throw Unsupported("real operand missing"); } return v.e; }

  void pushFrame(Function*F,const std::vector<Val>&args,CInst*call){ if(stack.size()>2000) throw Unsupported("recursion depth"); Frame f; f.f=compile(F); f.r.resize(f.f->nslots); for(size_t i=0;i<f.f->argSlots.size()&&i<args.size();i++) f.r[f.f->argSlots[i]]=args[i]; f.call=call; execFns.insert(F->getName().str()); stack.push_back(std::move(f)); }
  void popFrame(){ for(uint64_t a:stack.back().allocas){ auto it=objs.find(a); if(it!=objs.end()){ if(lastObj==it->second) lastObj=nullptr; delete it->second; objs.erase(it);} } stack.pop_back(); }
  void setRes(const Val&v){ Frame&f=stack.back(); CInst&ci=f.f->blocks[f.bb][f.ip]; if(ci.dst>=0) f.r[ci.dst]=v; }
  void advance(){ Frame&f=stack.back(); CInst&ci=f.f->blocks[f.bb][f.ip]; if(auto*I=dyn_cast<InvokeInst>(ci.I)) jump(I->getNormalDest()); else f.ip++; }
  void jump(BasicBlock*B){ Frame&f=stack.back(); int nb=f.f->bid[B]; f.prev=f.bb; BasicBlock*P=f.f->blocks[f.bb][0].I->getParent(); f.bb=nb; f.ip=0; // phis
    auto&bl=f.f->blocks[nb]; std::vector<std::pair<int,Val>> vals; size_t k=0; for(;k<bl.size();k++){ auto*P2=dyn_cast<PHINode>(bl[k].I); if(!P2) break; int idx=P2->getBasicBlockIndex(P); vals.push_back({bl[k].dst,op(f,bl[k],idx)}); } for(auto&v:vals) f.r[v.first]=v.second; f.ip=k; }

  void run(Function*entry){ pushFrame(entry,{},nullptr); size_t base=stack.size(); while(stack.size()>=base) step(); }
  void call(Function*F){ pushFrame(F,{},nullptr); size_t base=stack.size(); while(stack.size()>=base) step(); }

  void throwExc(uint64_t obj,uint64_t type){
    excObj=obj; excType=type; 
    // unwind
    while(!stack.empty()){
      Frame&f=stack.back(); if(f.ip<(int)f.f->blocks[f.bb].size()){ CInst&ci=f.f->blocks[f.bb][f.ip]; if(auto*I=dyn_cast<InvokeInst>(ci.I)){ BasicBlock*U=I->getUnwindDest(); LandingPadInst*L=U->getLandingPadInst(); 
          // does it catch or clean up?
          bool enter=L->isCleanup(); int sel=0; for(unsigned i=0;i<L->getNumClauses();i++) if(L->isCatch(i)){ uint64_t ti=constant(cast<Constant>(L->getClause(i))).b; if(ti==0||typeMatch(type,ti)){ sel=ti==0?1000000:(int)(ti&0x7fffffff); enter=true; break; } }
          if(enter){ jump(U); Frame&g=stack.back(); // landingpad instruction
            CInst&lp=g.f->blocks[g.bb][g.ip]; Val v; v.agg=new std::vector<Val>(2); (*v.agg)[0].b=obj; (*v.agg)[1].b=(uint32_t)sel; g.r[lp.dst]=v; g.ip++; return; } } }
      popFrame();
    }
    std::string tn="?"; for(auto&g:gaddr) if(g.second==type) tn=g.first->getName().str();
    // a harness catches nothing: uncaught
    fail("uncaught exception "+demangle(tn),"exception","uncaught exception "+tn); throw PathEnd{"uncaught exception"};
  }
  std::string tiName(uint64_t ti){ for(auto&g:gaddr) if(g.second==ti) return g.first->getName().str(); return ""; }
  bool typeMatch(uint64_t thrown,uint64_t want){ if(thrown==want) return true; std::string t=tiName(thrown),w=tiName(want); static const std::map<std::string,std::string> base={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"}};
    auto it=base.find(t); if(it!=base.end()){ if(it->second==w) return true; for(auto&g:gaddr) if(g.first->getName()==it->second) return typeMatch(g.second,want); // base typeinfo not in module
      std::string b=it->second; while(base.count(b)){ b=base.at(b); if(b==w) return true; } return false; }
    // __si_class_type_info: {vptr,name,base}; __vmi: {vptr,name,flags,count,(base,off)*}
    for(auto&g:gaddr) if(g.second==thrown&&g.first->hasInitializer()){ auto*C=dyn_cast<ConstantStruct>(g.first->getInitializer()); if(!C) return false; if(C->getNumOperands()==3) return typeMatch(constant(C->getOperand(2)).b,want); if(C->getNumOperands()>4) for(unsigned i=4;i<C->getNumOperands();i+=2) if(typeMatch(constant(C->getOperand(i)).b,want)) return true; }
    return false; }

  void step(){
    Frame&f=stack.back(); CInst&ci=f.f->blocks[f.bb][f.ip]; Instruction*I=ci.I; 
    if(++steps>maxSteps) { outOfTime(); } if(!(steps&0xfffff)&&now()-tStart>1.25*budget+10) outOfTime();
    switch(I->getOpcode()){
      case Instruction::Ret: { Val v; if(I->getNumOperands()) v=op(f,ci,0); popFrame(); if(!stack.empty()&&!(atBase())){ setRes(v); advance(); } break; }
      case Instruction::Br: { auto*B=cast<BranchInst>(I); if(B->isUnconditional()) jump(B->getSuccessor(0)); else { bool c=cbool(op(f,ci,0)); jump(B->getSuccessor(c?0:1)); } break; }
      case Instruction::Switch: { auto*S=cast<SwitchInst>(I); Val v=op(f,ci,0); BasicBlock*d=S->getDefaultDest(); if(!v.e){ for(auto&c:S->cases()) if(c.getCaseValue()->getZExtValue()==v.b){ d=c.getCaseSuccessor(); break; } } else { for(auto&c:S->cases()) if(decide(mkICmp(0,v.e,mkIConst(c.getCaseValue()->getZExtValue(),v.e->width)))){ d=c.getCaseSuccessor(); break; } } jump(d); break; }
      case Instruction::Unreachable: { fail("unreachable executed","abort","unreachable in "+stackStr()); throw PathEnd{"unreachable"}; }
      case Instruction::Alloca: { auto*A=cast<AllocaInst>(I); uint64_t n=cint(op(f,ci,0)); uint64_t a=alloc(n*DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(),0,A->getName().str()); f.allocas.push_back(a); f.r[ci.dst]=Val{a}; f.ip++; break; }
      case Instruction::Load: { Val v=load(cint(op(f,ci,0)),I->getType()); Frame&g=stack.back(); g.r[ci.dst]=v; g.ip++; break; }
      case Instruction::Store: { store(cint(op(f,ci,1)),op(f,ci,0),I->getOperand(0)->getType()); f.ip++; break; }
      case Instruction::GetElementPtr: { uint64_t a=cint(op(f,ci,0)); auto*G=cast<GEPOperator>(I); unsigned k=1; for(auto gi=gep_type_begin(G);gi!=gep_type_end(G);++gi,++k){ Val iv=op(f,ci,k); if(StructType*S=gi.getStructTypeOrNull()) a+=DL->getStructLayout(S)->getElementOffset(iv.b); else { int w=G->getOperand(k)->getType()->getIntegerBitWidth(); uint64_t x=cint(iv,w); if(w<64){ uint64_t s=1ull<<(w-1); x&=(1ull<<w)-1; x=(x^s)-s; } a+=x*DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue(); } } f.r[ci.dst]=Val{a}; f.ip++; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { f.r[ci.dst]=fbin(I->getOpcode(),op(f,ci,0),op(f,ci,1),I->getType()); f.ip++; break; }
      case Instruction::FNeg: { Val a=op(f,ci,0); Val v; if(a.agg){ v.agg=new std::vector<Val>; for(auto&x:*a.agg){ Val y; y.e=mkNeg(x.e); v.agg->push_back(y);} } else v.e=mkNeg(a.e); f.r[ci.dst]=v; f.ip++; break; }
      case Instruction::FCmp: { auto*C=cast<FCmpInst>(I); Expr*a=rop(f,ci,0),*b=rop(f,ci,1); Expr*r; switch(C->getPredicate()){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r=mkEQ(a,b); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r=mkNot(mkEQ(a,b)); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r=mkLT(a,b); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r=mkLE(a,b); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r=mkLT(b,a); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r=mkLE(b,a); break; case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: r=mkB(true); break; default: r=mkB(false); } 
        if(isInf(a)||isInf(b)) r=infCmp(C->getPredicate(),a,b);
        Val v; if(r->k==BCONST) v.b=r->op; else v.e=r; f.r[ci.dst]=v; f.ip++; break; }
      case Instruction::ICmp: { auto*C=cast<ICmpInst>(I); Val a=op(f,ci,0),b=op(f,ci,1); Val v; Type*T=I->getOperand(0)->getType(); if(T->isVectorTy()) throw Unsupported("vector icmp"); int w=T->isPointerTy()?64:T->getIntegerBitWidth(); auto p=C->getPredicate();
        if(!a.e&&!b.e){ uint64_t x=a.b,y=b.b; int64_t sx=sx_(x,w),sy=sx_(y,w); bool r=false; switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_SLT:r=sx<sy;break;case CmpInst::ICMP_SLE:r=sx<=sy;break;case CmpInst::ICMP_SGT:r=sx>sy;break;case CmpInst::ICMP_SGE:r=sx>=sy;break;default:break;} v.b=r; }
        else if(w==1){ bool x=cbool(a); bool y=cbool(b); bool r; switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_UGT:r=x>y;break;default:throw Unsupported("i1 icmp");} v.b=r; }
        else { if((a.e&&a.e->isReal())||(b.e&&b.e->isReal())){ Val r=bitsCmp(p,a,b,w); stack.back().r[ci.dst]=r; stack.back().ip++; break; } Expr*x=iexpr(a,w),*y=iexpr(b,w); Expr*r; switch(p){case CmpInst::ICMP_EQ:r=mkICmp(0,x,y);break;case CmpInst::ICMP_NE:r=mkICmp(1,x,y);break;case CmpInst::ICMP_ULT:r=mkICmp(2,x,y);break;case CmpInst::ICMP_ULE:r=mkICmp(3,x,y);break;case CmpInst::ICMP_UGT:r=mkICmp(2,y,x);break;case CmpInst::ICMP_UGE:r=mkICmp(3,y,x);break;case CmpInst::ICMP_SLT:r=mkICmp(4,x,y);break;case CmpInst::ICMP_SLE:r=mkICmp(5,x,y);break;case CmpInst::ICMP_SGT:r=mkICmp(4,y,x);break;default:r=mkICmp(5,y,x);} if(r->k==BCONST) v.b=r->op; else v.e=r; }
        f.r[ci.dst]=v; f.ip++; break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: { Val r=ibin(I->getOpcode(),op(f,ci,0),op(f,ci,1),I->getType()); stack.back().r[ci.dst]=r; stack.back().ip++; break; }
      case Instruction::Select: { Val c=op(f,ci,0); if(I->getOperand(0)->getType()->isVectorTy()) throw Unsupported("vector select"); bool t; 
          if(c.e&&c.e->isBool()&&I->getType()->isIntegerTy(1)){ // boolean select as logic
            Expr*ce=c.e,*x=bexpr(op(f,ci,1)),*y=bexpr(op(f,ci,2)); Expr*r=mkOr(mkAnd(ce,x),mkAnd(mkNot(ce),y)); Val v; if(r->k==BCONST) v.b=r->op; else v.e=r; f.r[ci.dst]=v; f.ip++; break; }
          t=cbool(c); f.r[ci.dst]=op(f,ci,t?1:2); f.ip++; break; }
      case Instruction::PHI: throw Unsupported("stray phi");
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { Val a=op(f,ci,0); if(I->getType()->isVectorTy()) throw Unsupported("vector cast"); int ws=I->getOperand(0)->getType()->getIntegerBitWidth(), w=I->getType()->getIntegerBitWidth(); Val v; if(a.e&&a.e->isBool()){ bool t=decide(a.e); a=Val{(uint64_t)t}; } if(a.e&&a.e->isReal()){ if(I->getOpcode()!=Instruction::Trunc||!a.e->varfree) throw Unsupported("cast of real bits"); a=Val{toBits(a.e,8)}; }
          if(!a.e){ uint64_t x=a.b; if(I->getOpcode()==Instruction::SExt) x=(uint64_t)sx_(x,ws); v.b=w>=64?x:x&((1ull<<w)-1); } else { if(w>64) throw Unsupported("wide int"); if(w==1&&I->getOpcode()==Instruction::Trunc){ v.e=mkICmp(1,mkIBin(10,a.e->width,a.e,mkIConst(1,a.e->width)),mkIConst(0,a.e->width)); if(v.e->k==BCONST){ v.b=v.e->op; v.e=nullptr;} } else { v.e=mkICast(I->getOpcode()==Instruction::ZExt?0:I->getOpcode()==Instruction::SExt?1:2,w,a.e); if(v.e->k==ICONST){v.b=v.e->iv;v.e=nullptr;} } }
          f.r[ci.dst]=v; f.ip++; break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { Val a=op(f,ci,0); if(I->getOpcode()==Instruction::BitCast){ Type*S=I->getOperand(0)->getType(),*T=I->getType(); if(T->isFloatingPointTy()&&S->isIntegerTy()&&!a.e){ if(T->isDoubleTy()){ double d; memcpy(&d,&a.b,8); a.e=fp(d);} else { float d; uint32_t u=a.b; memcpy(&d,&u,4); a.e=fp(d);} } else if(S->isVectorTy()||T->isVectorTy()) throw Unsupported("vector bitcast"); } f.r[ci.dst]=a; f.ip++; break; }
      case Instruction::SIToFP: case Instruction::UIToFP: { Val a=op(f,ci,0); int w=I->getOperand(0)->getType()->getIntegerBitWidth(); uint64_t x=cint(a,w); Frame&g=stack.back(); Val v; v.e= I->getOpcode()==Instruction::SIToFP? mkQ(mpq_class((long)sx_(x,w))) : mkQ(mpq_class((unsigned long)x)); g.r[ci.dst]=v; g.ip++; break; }
      case Instruction::FPToSI: case Instruction::FPToUI: { Expr*a=rop(f,ci,0); if(a->k!=RCONST){ mpq_class q; bool c=false; try{ c=rfConst(rfOf(a),q);}catch(TooBig&){} if(c) a=mkQ(q); } long x; if(a->k==RCONST){ mpz_class t; mpz_tdiv_q(t.get_mpz_t(),a->q.get_num_mpz_t(),a->q.get_den_mpz_t()); x=t.get_si(); } else if(a->varfree) x=(long)a->dval; else throw Unsupported("fptosi of symbolic"); int w=I->getType()->getIntegerBitWidth(); f.r[ci.dst]=Val{w>=64?(uint64_t)x:((uint64_t)x&((1ull<<w)-1))}; f.ip++; break; }
      case Instruction::FPExt: case Instruction::FPTrunc: { f.r[ci.dst]=op(f,ci,0); f.ip++; break; }
      case Instruction::ExtractValue: { auto*E=cast<ExtractValueInst>(I); Val v=op(f,ci,0); for(unsigned i:E->indices()) v=elem(v,i); f.r[ci.dst]=v; f.ip++; break; }
      case Instruction::InsertValue: { auto*E=cast<InsertValueInst>(I); Val v=op(f,ci,0); Val x=op(f,ci,1); f.r[ci.dst]=insert(v,E->getIndices(),0,x,I->getType()); f.ip++; break; }
      case Instruction::ExtractElement: { Val v=op(f,ci,0); f.r[ci.dst]=elem(v,cint(op(f,ci,1))); f.ip++; break; }
      case Instruction::InsertElement: { Val v=op(f,ci,0); Val r; r.agg=new std::vector<Val>(v.agg?*v.agg:std::vector<Val>(nElem(I->getType()))); (*r.agg)[cint(op(f,ci,2))]=op(f,ci,1); f.r[ci.dst]=r; f.ip++; break; }
      case Instruction::ShuffleVector: { auto*S=cast<ShuffleVectorInst>(I); Val a=op(f,ci,0),b=op(f,ci,1); int n=nElem(S->getOperand(0)->getType()); Val r; r.agg=new std::vector<Val>; for(int m:S->getShuffleMask()) r.agg->push_back(m<0?Val{0,mkInt(0)}:m<n?elem(a,m):elem(b,m-n)); f.r[ci.dst]=r; f.ip++; break; }
      case Instruction::Call: case Instruction::Invoke: doCall(f,ci); break;
      case Instruction::Resume: { uint64_t obj=elem(op(f,ci,0),0).b; uint64_t t=excTypes.count(obj)?excTypes[obj]:excType; popFrame(); throwExc(obj,t); break; }
      case Instruction::LandingPad: f.ip++; break;
      case Instruction::Fence: f.ip++; break;
      case Instruction::AtomicRMW: { auto*A=cast<AtomicRMWInst>(I); uint64_t p=cint(op(f,ci,0)); Type*T=I->getType(); Val old=load(p,T),x=op(f,ci,1),nv; switch(A->getOperation()){ case AtomicRMWInst::Add: nv=ibin(Instruction::Add,old,x,T); break; case AtomicRMWInst::Sub: nv=ibin(Instruction::Sub,old,x,T); break; case AtomicRMWInst::Xchg: nv=x; break; case AtomicRMWInst::FAdd: nv.e=mkAdd(old.e,x.e); break; case AtomicRMWInst::FSub: nv.e=mkSub(old.e,x.e); break; default: throw Unsupported("atomicrmw"); } store(p,nv,T); f.r[ci.dst]=old; f.ip++; break; }
      case Instruction::AtomicCmpXchg: { uint64_t p=cint(op(f,ci,0)); Type*T=I->getOperand(1)->getType(); Val old=load(p,T); Val cmp=op(f,ci,1); bool eq= (!old.e&&!cmp.e)? old.b==cmp.b : old.e==cmp.e; if(eq) store(p,op(f,ci,2),T); Val r; r.agg=new std::vector<Val>(2); (*r.agg)[0]=old; (*r.agg)[1].b=eq; f.r[ci.dst]=r; f.ip++; break; }
      default: { std::string s; raw_string_ostream o(s); I->print(o); throw Unsupported("instruction "+o.str()); }
    }
  }
  bool atBase(){ return stack.back().f==nullptr; }
  static int64_t sx_(uint64_t v,int w){ if(w>=64) return (int64_t)v; uint64_t s=1ull<<(w-1); v&=(1ull<<w)-1; return (int64_t)((v^s)-s); }
  Val insert(const Val&v,ArrayRef<unsigned> idx,unsigned k,const Val&x,Type*T){ if(k==idx.size()) return x; Val r; r.agg=new std::vector<Val>(v.agg?*v.agg:std::vector<Val>(nElem(T))); (*r.agg)[idx[k]]=insert((*r.agg)[idx[k]],idx,k+1,x,elemTy(T,idx[k])); return r; }
  bool isInf(Expr*e){ return e->k==RVAR&&(e->name=="inf!"||e->name=="ninf!"||e->name=="nan!"); }
  Expr* infCmp(CmpInst::Predicate p,Expr*a,Expr*b){ auto v=[&](Expr*e){ return e->name=="inf!"&&e->k==RVAR?1e300*1e300:e->name=="ninf!"&&e->k==RVAR?-1e300*1e300:e->k==RVAR&&e->name=="nan!"?NAN:0.0; }; double x=v(a),y=v(b); switch(p){ case CmpInst::FCMP_OEQ: return mkB(x==y); case CmpInst::FCMP_UEQ: return mkB(!(x<y)&&!(x>y)); case CmpInst::FCMP_ONE: return mkB(x<y||x>y); case CmpInst::FCMP_UNE: return mkB(x!=y); case CmpInst::FCMP_OLT: return mkB(x<y); case CmpInst::FCMP_OLE: return mkB(x<=y); case CmpInst::FCMP_OGT: return mkB(x>y); case CmpInst::FCMP_OGE: return mkB(x>=y); case CmpInst::FCMP_ULT: return mkB(!(x>=y)); case CmpInst::FCMP_ULE: return mkB(!(x>y)); case CmpInst::FCMP_UGT: return mkB(!(x<=y)); case CmpInst::FCMP_UGE: return mkB(!(x<y)); case CmpInst::FCMP_ORD: return mkB(x==x&&y==y); case CmpInst::FCMP_UNO: return mkB(x!=x||y!=y); default: return mkB(p==CmpInst::FCMP_TRUE);} }
  Val fbin(unsigned o,const Val&a,const Val&b,Type*T){ Val v; if(T->isVectorTy()){ v.agg=new std::vector<Val>; for(unsigned i=0;i<nElem(T);i++) v.agg->push_back(fbin(o,elem(a,i),elem(b,i),elemTy(T,i))); return v; }
    Expr*x=a.e?a.e:mkInt(0),*y=b.e?b.e:mkInt(0); 
    if(isInf(x)||isInf(y)){ if(o==Instruction::FDiv&&isInf(y)&&!isInf(x)){ v.e=mkInt(0); return v; } throw Unsupported("arithmetic on infinity"); }
    switch(o){ case Instruction::FAdd: v.e=mkAdd(x,y); break; case Instruction::FSub: v.e=mkSub(x,y); break; case Instruction::FMul: v.e=mkMul(x,y); break; case Instruction::FDiv: v.e=fdiv(x,y); break; default: if(x->varfree&&y->varfree){ v.e=mkD(std::fmod(x->dval,y->dval)); break; } throw Unsupported("frem"); } return v; }
  Expr* fdiv(Expr*x,Expr*y){
    bool zero=y->k==RCONST&&y->q==0; if(!zero&&y->k!=RCONST&&y->varfree&&std::fabs(y->dval)<1e-9) { try{ zero=rfIsZero(rfOf(y)); }catch(TooBig&){} }
    if(!zero&&!y->varfree){ try { zero=rfIsZero(rfOf(y)); if(!zero&&checkDiv){ int s=rfSign(*rfOf(y)); if(s!=2&&s!=-2){ std::vector<Expr*> q; Expr*c=mkEQ(y,mkInt(0)); if(decide(c)) zero=true; } } } catch(TooBig&){} }
    if(zero){ fail("division by zero","div0","division by zero in "+stackStr()); throw PathEnd{"division by zero"}; }
    return mkDiv(x,y); }
  Val bitsCmp(CmpInst::Predicate p,Val a,Val b,int w){ if(a.e&&a.e->isReal()&&a.e->varfree) a=Val{toBits(a.e,8)}; if(b.e&&b.e->isReal()&&b.e->varfree) b=Val{toBits(b.e,8)}; if(a.e||b.e) throw Unsupported("comparison of real bits"); bool r; switch(p){case CmpInst::ICMP_EQ:r=a.b==b.b;break;case CmpInst::ICMP_NE:r=a.b!=b.b;break;case CmpInst::ICMP_ULT:r=a.b<b.b;break;case CmpInst::ICMP_UGT:r=a.b>b.b;break;case CmpInst::ICMP_SLT:r=(int64_t)a.b<(int64_t)b.b;break;case CmpInst::ICMP_SGT:r=(int64_t)a.b>(int64_t)b.b;break;default:throw Unsupported("bitsCmp");} (void)w; return Val{(uint64_t)r}; }
  Val ibin(unsigned o,Val a,Val b,Type*T){ if(T->isVectorTy()){ Val v; v.agg=new std::vector<Val>; for(unsigned i=0;i<nElem(T);i++) v.agg->push_back(ibin(o,elem(a,i),elem(b,i),elemTy(T,i))); return v; }
    int w=T->getIntegerBitWidth(); Val v;
    if(w==1){ Expr*x=bexpr(a),*y=bexpr(b); Expr*r; switch(o){ case Instruction::And: case Instruction::Mul: r=mkAnd(x,y); break; case Instruction::Or: r=mkOr(x,y); break; case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if(y->k==BCONST) r=y->op?mkNot(x):x; else if(x->k==BCONST) r=x->op?mkNot(y):y; else r=mkOr(mkAnd(x,mkNot(y)),mkAnd(mkNot(x),y)); break; default: throw Unsupported("i1 op"); } if(r->k==BCONST) v.b=r->op; else v.e=r; return v; }
    if(w>64){ if(!a.e&&!b.e){ throw Unsupported("i128"); } throw Unsupported("i128"); }
    if((a.e&&a.e->isReal())||(b.e&&b.e->isReal())){ // sign-bit tricks
      if(a.e&&a.e->isReal()&&!b.e){ if(o==Instruction::And&&b.b==0x7fffffffffffffffull){ v.e=fabsE(a.e); return v; } if(o==Instruction::Xor&&b.b==0x8000000000000000ull){ v.e=mkNeg(a.e); return v; } }
      if(a.e&&a.e->isReal()) a=Val{toBits(a.e,8)}; if(b.e&&b.e->isReal()) b=Val{toBits(b.e,8)}; }
    if(a.e&&a.e->isBool()) a=Val{(uint64_t)decide(a.e)}; if(b.e&&b.e->isBool()) b=Val{(uint64_t)decide(b.e)};
    int oo; switch(o){case Instruction::Add:oo=0;break;case Instruction::Sub:oo=1;break;case Instruction::Mul:oo=2;break;case Instruction::UDiv:oo=3;break;case Instruction::SDiv:oo=4;break;case Instruction::URem:oo=5;break;case Instruction::SRem:oo=6;break;case Instruction::Shl:oo=7;break;case Instruction::LShr:oo=8;break;case Instruction::AShr:oo=9;break;case Instruction::And:oo=10;break;case Instruction::Or:oo=11;break;default:oo=12;}
    if((oo>=3&&oo<=6)){ bool z= !b.e? (w>=64?b.b:b.b&((1ull<<w)-1))==0 : decide(mkICmp(0,b.e,mkIConst(0,w))); if(z){ fail("integer division by zero","div0","in "+stackStr()); throw PathEnd{"div0"}; } }
    if(!a.e&&!b.e){ Expr*r=nullptr; uint64_t m=w>=64?~0ull:(1ull<<w)-1; uint64_t x=a.b&m,y=b.b&m; int64_t sx=sx_(x,w),sy=sx_(y,w); uint64_t z=0; (void)r; switch(oo){case 0:z=x+y;break;case 1:z=x-y;break;case 2:z=x*y;break;case 3:z=x/y;break;case 4:z=(sy==-1)?(uint64_t)-sx:(uint64_t)(sx/sy);break;case 5:z=x%y;break;case 6:z=sy==-1?0:(uint64_t)(sx%sy);break;case 7:z=y>=(uint64_t)w?0:x<<y;break;case 8:z=y>=(uint64_t)w?0:x>>y;break;case 9:z=(uint64_t)(sx>>(y>=(uint64_t)w?w-1:y));break;case 10:z=x&y;break;case 11:z=x|y;break;case 12:z=x^y;break;} v.b=z&m; return v; }
    Expr*r=mkIBin(oo,w,iexpr(a,w),iexpr(b,w)); if(r->k==ICONST) v.b=r->iv; else v.e=r; return v; }
  Expr* fabsE(Expr*x){ if(x->k==RCONST) return mkQ(abs(x->q)); if(isInf(x)) return mkVar("inf!"); static int lazy=-1; if(lazy<0) lazy=params.count("lazyabs")&&params["lazyabs"]; if(lazy) if(Expr*e=exAbs(x)) return e; return decide(mkLE(mkInt(0),x))?x:mkNeg(x); }
  Expr* sqrtE(Expr*x){ 
    if(x->k==RCONST&&sgn(x->q)<0){ fail("sqrt of negative","domain","in "+stackStr()); throw PathEnd{"sqrt"}; }
    if(checkDiv){ try{ int s=rfSign(*rfOf(x)); if(s!=2&&s!=1&&s!=3){ if(decide(mkLT(x,mkInt(0)))){ fail("sqrt of negative","domain","in "+stackStr()); throw PathEnd{"sqrt"}; } } } catch(TooBig&){} }
    SqrtRes r=exSqrt(x); if(!r.perfect) return r.value; return decide(mkLE(mkInt(0),r.value))?r.value:mkNeg(r.value); }

  void doCall(Frame&f,CInst&ci){
    auto*C=cast<CallBase>(ci.I); unsigned na=C->arg_size(); Function*F=C->getCalledFunction();
    if(!F){ if(C->isInlineAsm()){ if(!C->getType()->isVoidTy()) throw Unsupported("inline asm"); advance(); return; }
      // last operand is the callee
      uint64_t a=cint(op(f,ci,C->getNumOperands()-1)); auto it=fnByAddr.find(a); if(it==fnByAddr.end()) memErr("call through invalid pointer "+std::to_string(a)); F=it->second; }
    if(F->isIntrinsic()){ intrinsic(f,ci,F,C); return; }
    std::vector<Val> args; for(unsigned i=0;i<na;i++) args.push_back(op(f,ci,i));
    StringRef nm=F->getName();
    auto h=handlers.find(nm.str()); if(h!=handlers.end()){ Val r; if(h->second(*this,args,C,r)){ setRes(r); advance(); } return; }
    if(isStub(nm)){ Val r; if(C->getType()->isPointerTy()&&na) r=args[0]; else if(C->getType()->isFloatingPointTy()) r.e=mkInt(0); setRes(r); advance(); return; }
    if(F->isDeclaration()) throw Unsupported("external function "+demangle(nm.str())+" ["+nm.str()+"]");
    pushFrame(F,args,&ci);
  }
  static bool isStub(StringRef n){ return n.find("se_ofstream")==StringRef::npos&&(n.starts_with("_ZNSo")||n.starts_with("_ZStls")||n.starts_with("_ZNSt8ios_base")||n.starts_with("_ZSt4endl")||n.starts_with("_ZSt5flush")||n.starts_with("_ZNSolsE")||n.starts_with("_ZSt16__ostream_insert")||n.starts_with("_ZNSt9basic_ios")||n.starts_with("_ZNSt14basic_ofstream")||n.starts_with("_ZNSt14basic_ifstream")||n.starts_with("_ZNSt13basic_filebuf")||n.starts_with("_ZNSt13basic_ostream")||n.starts_with("_ZNSt6locale")||n.starts_with("_ZNSt15basic_streambuf")); }

  typedef std::function<bool(Machine&,std::vector<Val>&,CallBase*,Val&)> H;
  static std::map<std::string,H> handlers;
  static void setupHandlers();

  void intrinsic(Frame&f,CInst&ci,Function*F,CallBase*C){
    Val r; auto A=[&](unsigned i){return op(f,ci,i);} ;
    switch(F->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(cint(A(0)),cint(A(1)),cint(A(2))); break;
      case Intrinsic::memset: setMem(cint(A(0)),cint(A(1)),cint(A(2))); break;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: break;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: break;
      case Intrinsic::expect: r=A(0); break; case Intrinsic::is_constant: r.b=0; break;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: r=A(0); break;
      case Intrinsic::objectsize: r.b=~0ull; break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: fail("trap","abort","trap in "+stackStr()); throw PathEnd{"trap"};
      case Intrinsic::eh_typeid_for: r.b=(uint32_t)(A(0).b&0x7fffffff); break;
      case Intrinsic::sqrt: r.e=sqrtE(A(0).e); break;
      case Intrinsic::fabs: r.e=fabsE(A(0).e); break;
      case Intrinsic::pow: r.e=powE(A(0).e,A(1).e); break;
      case Intrinsic::powi: r.e=exPow(A(0).e,mkInt((long)(int32_t)cint(A(1)))); break;
      case Intrinsic::exp: r.e=exTrig("exp",A(0).e); break; case Intrinsic::log: r.e=exTrig("log",A(0).e); break; case Intrinsic::sin: r.e=exTrig("sin",A(0).e); break; case Intrinsic::cos: r.e=exTrig("cos",A(0).e); break;
      case Intrinsic::log10: r.e=mkDiv(exTrig("log",A(0).e),exTrig("log",mkInt(10))); break;
      case Intrinsic::exp2: case Intrinsic::log2: throw Unsupported("exp2/log2");
      case Intrinsic::fma: case Intrinsic::fmuladd: { if(C->getType()->isVectorTy()) throw Unsupported("vec fma"); r.e=mkAdd(mkMul(A(0).e,A(1).e),A(2).e); break; }
      case Intrinsic::minnum: case Intrinsic::minimum: r.e=fmin_(A(0).e,A(1).e,true); break; case Intrinsic::maxnum: case Intrinsic::maximum: r.e=fmin_(A(0).e,A(1).e,false); break;
      case Intrinsic::copysign: { Expr*x=fabsE(A(0).e); r.e=decide(mkLE(mkInt(0),A(1).e))?x:mkNeg(x); break; }
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: { Expr*x=A(0).e; if(!x->varfree) throw Unsupported("floor of symbolic"); double d=x->dval; auto id=F->getIntrinsicID(); if(x->k==RCONST&&x->q.get_den()==1) r.e=x; else r.e=mkD(id==Intrinsic::floor?std::floor(d):id==Intrinsic::ceil?std::ceil(d):id==Intrinsic::trunc?std::trunc(d):id==Intrinsic::rint?std::rint(d):std::round(d)); break; }
      case Intrinsic::is_fpclass: { Expr*x=A(0).e; unsigned m=A(1).b; bool t=false; if(isInf(x)){ if(x->name=="nan!") t=m&3; else if(x->name=="inf!") t=m&512; else t=m&4; } else { // finite value: zero / normal
            bool fin=(m&(8|16|32|64|128|256)); if((m&(8|256))==(8|256)) t=true; else if(!fin) t=false; else throw Unsupported("is_fpclass mask"); } r.b=t; break; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { Val a=A(0),b=A(1); if(C->getType()->isVectorTy()) throw Unsupported("vec minmax"); int w=C->getType()->getIntegerBitWidth(); auto id=F->getIntrinsicID(); bool sg=id==Intrinsic::smax||id==Intrinsic::smin; Expr*lt=mkICmp(sg?4:2,iexpr(a,w),iexpr(b,w)); bool t=decide(lt); r=(id==Intrinsic::smax||id==Intrinsic::umax)?(t?b:a):(t?a:b); break; }
      case Intrinsic::abs: { Val a=A(0); int w=C->getType()->getIntegerBitWidth(); if(!a.e){ int64_t x=sx_(a.b,w); r.b=(uint64_t)(x<0?-x:x)&(w>=64?~0ull:(1ull<<w)-1);} else r = decide(mkICmp(4,a.e,mkIConst(0,w)))? ibin(Instruction::Sub,Val{0},a,C->getType()):a; break; }
      case Intrinsic::ctpop: r.b=__builtin_popcountll(cint(A(0))); break;
      case Intrinsic::ctlz: { int w=C->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w); r.b= x? __builtin_clzll(x)-(64-w):w; break; }
      case Intrinsic::cttz: { int w=C->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w); r.b= x? __builtin_ctzll(x):w; break; }
      case Intrinsic::bswap: { int w=C->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w); r.b=__builtin_bswap64(x)>>(64-w); break; }
      case Intrinsic::fshl: case Intrinsic::fshr: { int w=C->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w),y=cint(A(1),w),s=cint(A(2),w)%w; uint64_t m=w>=64?~0ull:(1ull<<w)-1; if(F->getIntrinsicID()==Intrinsic::fshl) r.b=s?((x<<s)|(y>>(w-s)))&m:x; else r.b=s?((y>>s)|(x<<(w-s)))&m:y; break; }
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { int w=C->getArgOperand(0)->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w),y=cint(A(1),w); __int128 z; auto id=F->getIntrinsicID(); bool sg=id==Intrinsic::smul_with_overflow||id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow; __int128 X=sg?(__int128)sx_(x,w):(__int128)(unsigned __int128)x, Y=sg?(__int128)sx_(y,w):(__int128)(unsigned __int128)y; if(id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow) z=X*Y; else if(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow) z=X+Y; else z=X-Y; uint64_t m=w>=64?~0ull:(1ull<<w)-1; uint64_t lo=(uint64_t)z&m; bool ov= sg? ((__int128)sx_(lo,w)!=z) : (z<0||(unsigned __int128)z>m); r.agg=new std::vector<Val>(2); (*r.agg)[0].b=lo; (*r.agg)[1].b=ov; break; }
      case Intrinsic::usub_sat: { int w=C->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w),y=cint(A(1),w); r.b=x>y?x-y:0; break; }
      case Intrinsic::uadd_sat: { int w=C->getType()->getIntegerBitWidth(); uint64_t x=cint(A(0),w),y=cint(A(1),w); uint64_t m=w>=64?~0ull:(1ull<<w)-1; uint64_t z=(x+y)&m; r.b=z<x?m:z; break; }
      default: throw Unsupported("intrinsic "+F->getName().str());
    }
    setRes(r); advance();
  }
  Expr* powE(Expr*x,Expr*e){ mpq_class q; if(e->k==RCONST){ q=e->q; if(q.get_den()==2){ mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return mkMul(exPow(x,mkQ(mpq_class(fl))),sqrtE(x)); } if(q.get_den()==1&&q<0){ fdiv(mkInt(1),x); } } return exPow(x,e); }
  Expr* fmin_(Expr*a,Expr*b,bool mn){ if(isInf(a)||isInf(b)){ auto big=[&](Expr*e){return isInf(e);} ; if(big(a)&&big(b)) return a; Expr*i=big(a)?a:b,*o=big(a)?b:a; bool pos=i->name=="inf!"; if(i->name=="nan!") return o; return mn==pos? o : i; } bool lt=decide(mkLT(a,b)); return mn?(lt?a:b):(lt?b:a); }
};
std::map<std::tuple<Expr*,size_t,uint64_t>,uint64_t> Machine::czMemo;
std::map<std::string,Machine::H> Machine::handlers;


void Machine::setupHandlers(){
  auto&h=handlers;
  auto mallocH=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.b=m.alloc(m.cint(a[0]),1,"heap"); return true; };
  for(const char*n:{"malloc","_Znwm","_Znam","_ZnwmSt11align_val_t","_ZnamSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","__cxa_allocate_exception"}) h[n]=mallocH;
  h["calloc"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ uint64_t n=m.cint(a[0])*m.cint(a[1]); r.b=m.alloc(n,1,"heap",true); return true; };
  h["posix_memalign"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ uint64_t p=m.alloc(m.cint(a[2]),1,"heap"); m.store(m.cint(a[0]),Val{p},C->getArgOperand(0)->getType()); r.b=0; return true; };
  h["aligned_alloc"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.b=m.alloc(m.cint(a[1]),1,"heap"); return true; };
  h["realloc"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ uint64_t n=m.cint(a[1]),p=m.cint(a[0]); r.b=m.alloc(n,1,"heap"); if(p){ uint64_t o=m.objs.at(p)->size; m.copyMem(r.b,p,std::min(n,o)); m.objs.at(p)->alive=false; } return true; };
  auto freeH=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ uint64_t p=m.cint(a[0]); if(!p) return true; auto it=m.objs.find(p); if(it==m.objs.end()||it->second->kind!=1) m.memErr("invalid free"); if(!it->second->alive) m.memErr("double free"); it->second->alive=false; if(m.lastObj==it->second) m.lastObj=nullptr; it->second->sym.clear(); it->second->data.clear(); it->second->init.clear(); it->second->data.shrink_to_fit(); return true; };
  for(const char*n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvmSt11align_val_t"}) h[n]=freeH;
  auto nop=[](Machine&,std::vector<Val>&,CallBase*,Val&){ return true; };
  for(const char*n:{"__cxa_atexit","__cxa_free_exception","puts","printf","putchar","fflush","fprintf","fwrite","fputc","fputs","srand","__cxa_guard_release","__cxa_guard_abort","omp_set_num_threads","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","_ZNSt13runtime_errorD1Ev","_ZNSt13runtime_errorD2Ev","_ZNSt9exceptionD2Ev","_ZNSt11logic_errorD2Ev","_ZNSt11logic_errorD1Ev","_ZNSt16invalid_argumentD1Ev","_ZNSt12domain_errorD1Ev","_ZNSt12domain_errorD2Ev","_ZNSt12out_of_rangeD1Ev","_ZNSt12length_errorD1Ev","_ZNSt9bad_allocD1Ev","_ZNSt9exceptionD1Ev"}) h[n]=nop;
  for(const char*n:{"_ZNSt13runtime_errorC1EPKc","_ZNSt13runtime_errorC2EPKc","_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt11logic_errorC1EPKc","_ZNSt11logic_errorC2EPKc","_ZNSt16invalid_argumentC1EPKc","_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt12out_of_rangeC1EPKc","_ZNSt12domain_errorC1EPKc","_ZNSt12domain_errorC2EPKc","_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt12length_errorC1EPKc"}) h[n]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.excVtable(m.cint(a[0])); return true; };
  for(const char*n:{"_ZNKSt9exception4whatEv","_ZNKSt11logic_error4whatEv","_ZNKSt13runtime_error4whatEv"}) h[n]=[](Machine&m,std::vector<Val>&,CallBase*,Val&r){ if(!m.whatStr) m.whatStr=m.alloc(8,2,"what",true); r.b=m.whatStr; return true; };
  h["__cxa_guard_acquire"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ Obj*o=m.find(m.cint(a[0]),1,"guard"); uint32_t off=m.cint(a[0])-o->base; r.b=o->data[off]==0; o->data[off]=1; return true; };
  h["__cxa_throw"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ uint64_t o=m.cint(a[0]),t=m.cint(a[1]); m.excTypes[o]=t; m.throwExc(o,t); return false; };
  h["__cxa_begin_catch"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.b=m.cint(a[0]); m.caught.push_back(r.b); return true; };
  h["__cxa_end_catch"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&){ if(!m.caught.empty()) m.caught.pop_back(); return true; };
  h["__cxa_rethrow"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&){ uint64_t o=m.caught.empty()?0:m.caught.back(); m.throwExc(o,m.excTypes[o]); return false; };
  h["_Unwind_Resume"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ uint64_t o=m.cint(a[0]); m.throwExc(o,m.excTypes[o]); return false; };
  h["__clang_call_terminate"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&)->bool{ m.fail("terminate","abort","std::terminate in "+m.stackStr()); throw PathEnd{"terminate"}; };
  auto abortH=[](Machine&m,std::vector<Val>&,CallBase*C,Val&)->bool{ m.fail("abort","abort","abort/exit in "+m.stackStr()); throw PathEnd{"abort"}; };
  for(const char*n:{"abort","_ZSt9terminatev","exit","__cxa_pure_virtual","_ZSt20__throw_length_errorPKc","_ZSt24__throw_invalid_argumentPKc","_ZSt17__throw_bad_allocv","_ZSt19__throw_logic_errorPKc","_ZSt24__throw_out_of_range_fmtPKcz","_ZSt28__throw_bad_array_new_lengthv","_ZSt25__throw_bad_function_callv","_ZSt20__throw_out_of_rangePKc","_ZSt16__throw_bad_castv","__cxa_throw_bad_array_new_length"}) h[n]=abortH;
  h["__assert_fail"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&)->bool{ std::string s=m.cstr(m.cint(a[0])); m.fail("assert("+s+")","abort","assertion in code: "+s+" in "+m.stackStr()); throw PathEnd{"assert"}; };
  h["__dynamic_cast"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ uint64_t o=m.cint(a[0]); uint64_t vp=m.load(o,C->getType()).b; uint64_t ti=m.load(vp-8,C->getType()).b; int64_t top=(int64_t)m.load(vp-16,Type::getInt64Ty(C->getContext())).b; r.b=m.typeMatch(ti,m.cint(a[2]))?o+top:0; return true; };
  // libc
  h["strlen"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.b=m.cstr(m.cint(a[0])).size(); return true; };
  h["strcpy"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ uint64_t d=m.cint(a[0]),p=m.cint(a[1]); m.copyMem(d,p,m.cstr(p).size()+1); r.b=d; return true; };
  h["stpcpy"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ uint64_t d=m.cint(a[0]),p=m.cint(a[1]),n=m.cstr(p).size(); m.copyMem(d,p,n+1); r.b=d+n; return true; };
  h["strcmp"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ int c=m.cstr(m.cint(a[0])).compare(m.cstr(m.cint(a[1]))); r.b=(uint32_t)(c<0?-1:c>0); return true; };
  auto memcmpH=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ uint64_t n=m.cint(a[2]); int c=0; Type*T=Type::getInt8Ty(M->getContext()); for(uint64_t i=0;i<n&&!c;i++){ uint8_t x=m.cint(m.load(m.cint(a[0])+i,T)),y=m.cint(m.load(m.cint(a[1])+i,T)); c=x<y?-1:x>y; } r.b=(uint32_t)c; return true; };
  h["memcmp"]=memcmpH; h["bcmp"]=memcmpH;
  h["memchr"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ uint64_t n=m.cint(a[2]),p=m.cint(a[0]); uint8_t c=m.cint(a[1]); Type*T=Type::getInt8Ty(M->getContext()); for(uint64_t i=0;i<n;i++) if((uint8_t)m.load(p+i,T).b==c){ r.b=p+i; return true; } r.b=0; return true; };
  h["__errno_location"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&r){ if(!m.errnoAddr) m.errnoAddr=m.alloc(8,2,"errno",true); r.b=m.errnoAddr; return true; };
  auto strtolH=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ uint64_t p=m.cint(a[0]),e=m.cint(a[1]); std::string s=m.cstr(p); char*q; long v=strtol(s.c_str(),&q,(int)m.cint(a[2])); if(e) m.store(e,Val{p+(uint64_t)(q-s.c_str())},C->getArgOperand(0)->getType()); r.b=(uint64_t)v; return true; };
  for(const char*n:{"strtol","__isoc23_strtol","strtoll","__isoc23_strtoll"}) h[n]=strtolH;
  h["memcpy"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ m.copyMem(m.cint(a[0]),m.cint(a[1]),m.cint(a[2])); r=a[0]; return true; }; h["memmove"]=h["memcpy"];
  h["memset"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ m.setMem(m.cint(a[0]),m.cint(a[1]),m.cint(a[2])); r=a[0]; return true; };
  h["rand"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&r){ r.b=42; return true; };
  h["time"]=h["rand"]; h["clock"]=h["rand"]; h["gettimeofday"]=nop; h["omp_get_wtime"]=[](Machine&,std::vector<Val>&,CallBase*,Val&r){ r.e=mkInt(1); return true; };
  h["_ZNSt6chrono3_V212system_clock3nowEv"]=h["rand"]; h["_ZNSt6chrono3_V212steady_clock3nowEv"]=h["rand"];
  h["omp_get_max_threads"]=[](Machine&,std::vector<Val>&,CallBase*,Val&r){ r.b=1; return true; }; h["omp_get_num_threads"]=h["omp_get_max_threads"]; h["omp_get_thread_num"]=[](Machine&,std::vector<Val>&,CallBase*,Val&r){ r.b=0; return true; };
  // math
  h["sqrt"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=m.sqrtE(a[0].e); return true; };
  h["pow"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=m.powE(a[0].e,a[1].e); return true; };
  h["fabs"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=m.fabsE(a[0].e); return true; };
  h["fmin"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=m.fmin_(a[0].e,a[1].e,true); return true; }; h["fmax"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=m.fmin_(a[0].e,a[1].e,false); return true; };
  for(const char*n:{"exp","log","sin","cos","tan","atan","tanh"}){ std::string s=n; h[n]=[s](Machine&,std::vector<Val>&a,CallBase*,Val&r){ r.e=exTrig(s,a[0].e); return true; }; }
  h["log10"]=[](Machine&,std::vector<Val>&a,CallBase*,Val&r){ r.e=mkDiv(exTrig("log",a[0].e),exTrig("log",mkInt(10))); return true; };
  // ---- harness interface
  h["se_symbolic"]=[](Machine&,std::vector<Val>&,CallBase*,Val&r){ r.b=1; return true; };
  auto mk=[](Machine&m,std::vector<Val>&a)->std::pair<Expr*,std::string>{ std::string n=m.cstr(m.cint(a[0])); auto it=fixedReal.find(n); if(it!=fixedReal.end()) return {mkD(it->second),n}; return {mkVar(n),n}; };
  h["se_real"]=[mk](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=mk(m,a).first; return true; };
  h["se_pos"]=[mk](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=mk(m,a).first; if(r.e->k==RVAR) atoms[r.e->atom].pos=true; return true; };
  h["se_range"]=[mk](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=mk(m,a).first; if(r.e->k==RVAR){ Atom&t=atoms[r.e->atom]; t.hasLo=t.hasHi=true; t.lo=a[1].e->q; t.hi=a[2].e->q; if(t.lo>0) t.pos=true; else if(t.lo==0) t.nonnegFlag=true; } return true; };
  h["se_unit2"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ std::string n=m.cstr(m.cint(a[0])); Expr*x,*y; auto it=fixedReal.find(n+"x"); if(it!=fixedReal.end()){ x=mkD(it->second); y=mkD(fixedReal.at(n+"y")); } else { x=mkVar(n+"x"); y=mkVar(n+"y"); Atom&t=atoms[y->atom]; if(!t.alg){ t.alg=true; Poly px=pMul(pAtom(x->atom),pAtom(x->atom)); for(auto&q:px) q.c=-q.c; atoms[y->atom].rel=pAdd(pConst(1),px); } } Type*D=Type::getDoubleTy(C->getContext()); m.store(m.cint(a[1]),Val{0,x},D); m.store(m.cint(a[2]),Val{0,y},D); return true; };
  h["se_int"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ std::string n=m.cstr(m.cint(a[0])); long lo=(long)a[1].b,hi=(long)a[2].b; int w=64; auto it=params.find(n); if(it!=params.end()){ r.b=it->second; return true; } r.e=mkIVar(n,w); if(!m.intRange.count(n)){ m.intRange[n]={lo,hi}; m.addPc(mkICmp(5,mkIConst(lo,w),r.e)); m.addPc(mkICmp(5,r.e,mkIConst(hi,w))); } return true; };
  h["se_choose"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ std::string n=m.cstr(m.cint(a[0])); long lo=(long)a[1].b,hi=(long)a[2].b; int w=64; auto it=params.find(n); if(it!=params.end()){ r.b=it->second; return true; } Expr*e=mkIVar(n,w); bool fr=!m.intRange.count(n); if(fr){ m.intRange[n]={lo,hi}; m.addPc(mkICmp(5,mkIConst(lo,w),e)); m.addPc(mkICmp(5,e,mkIConst(hi,w))); } for(long v=lo;v<hi;v++) if(fr? m.decideFree(mkICmp(0,e,mkIConst(v,w))) : m.decide(mkICmp(0,e,mkIConst(v,w)))){ r.b=v; return true; } r.b=hi; return true; };
  h["se_concretize"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ r.b=m.cint(a[0]); return true; };
  h["se_param"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ std::string n=m.cstr(m.cint(a[0])); auto it=params.find(n); r.b= it==params.end()? a[1].b : (uint64_t)it->second; return true; };
  h["se_assume"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ Expr*c=m.bexpr(a[0]); if(c->k==BCONST){ if(!c->op) throw Infeasible(); return true; } m.addPc(c); m.assumeCheck=true; return true; };
  h["se_assume_lt"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ Expr*c=mkLT(a[0].e,a[1].e); if(c->k==BCONST){ if(!c->op) throw Infeasible(); return true; } m.addPc(c); return true; };
  h["se_assume_le"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ Expr*c=mkLE(a[0].e,a[1].e); if(c->k==BCONST){ if(!c->op) throw Infeasible(); return true; } m.addPc(c); return true; };
  h["se_assert"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.assertB(m.bexpr(a[0]),m.cstr(m.cint(a[1]))); return true; };
  h["se_assert_eq"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.assertEq(a[0].e,a[1].e,m.cstr(m.cint(a[2]))); return true; };
  h["se_assert_le"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.assertB(mkLE(a[0].e,a[1].e),m.cstr(m.cint(a[2]))); return true; };
  h["se_assert_lt"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.assertB(mkLT(a[0].e,a[1].e),m.cstr(m.cint(a[2]))); return true; };
  h["se_assert_ieq"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.assertB(mkICmp(0,m.iexpr(a[0],64),m.iexpr(a[1],64)),m.cstr(m.cint(a[2]))); return true; };
  h["se_observe"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.obs.push_back({m.cstr(m.cint(a[1])),a[0].e}); return true; };
  h["se_check_div"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.checkDiv=a[0].b; return true; };
  h["se_uf"]=[](Machine&m,std::vector<Val>&a,CallBase*C,Val&r){ std::string n=m.cstr(m.cint(a[0])); uint64_t k=m.cint(a[1]),p=m.cint(a[2]); std::vector<Expr*> x; Type*D=Type::getDoubleTy(C->getContext()); for(uint64_t i=0;i<k;i++) x.push_back(m.load(p+8*i,D).e); r.e=mkUF(n,x); return true; };
  h["se_diff"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ if(a[1].e->k!=RVAR) throw Unsupported("se_diff: not a variable"); std::unordered_map<Expr*,Expr*> memo; r.e=diffExpr(a[0].e,a[1].e,memo); return true; };
  // ---- footprints of parallel loops (P30)
  h["__se_fork"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.omp.fork(m.cstr(m.cint(a[0])).c_str()); return true; };
  h["__se_join"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&r){ r.b=m.omp.join(); if(verbose&&r.b) fprintf(stderr,"OMP %s: %s\n",m.omp.name.c_str(),m.omp.first.c_str()); return true; };
  h["__se_iter_begin"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&){ m.omp.begin(); return true; }; h["__se_iter_end"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&){ m.omp.end(); return true; };
  h["__se_barrier"]=[](Machine&m,std::vector<Val>&,CallBase*,Val&){ m.omp.barrier(); return true; };
  h["__se_lock"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.omp.lock(m.cint(a[0])); return true; }; h["__se_unlock"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.omp.unlock(m.cint(a[0])); return true; };
  h["__se_reduced"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ m.omp.reduced(m.cint(a[0]),m.cint(a[1])); return true; };
  h["__se_mem"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ if(m.omp.on) m.omp.access(m.cint(a[0]),m.cint(a[1]),m.cint(a[2])&1,m.cint(a[2])&2); return true; };
  h["__se_stackvar"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ if(m.omp.on) m.omp.stackvar(m.cint(a[0]),m.cint(a[1])); return true; };
  h["__se_heapvar"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ if(m.omp.on) m.omp.heap(m.cint(a[0]),m.cint(a[1])); return true; };
  h["__se_scope"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ if(m.omp.on) m.omp.scope(m.cint(a[0]),m.cint(a[1])); return true; };
  h["se_print"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&){ if(verbose){ std::string s; try { RF*r=rfOf(a[0].e); s=polySmt(r->n); for(auto&f:r->d) s+=" / ("+polySmt(factors[f.first])+")^"+std::to_string(f.second);} catch(TooBig&){ s="TooBig"; } fprintf(stderr,"PRINT %s = %s\n",m.cstr(m.cint(a[1])).c_str(),s.substr(0,2000).c_str()); } return true; };
  h["se_simplify"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ try { r.e=rfToExpr(*rfOf(a[0].e)); } catch(TooBig&){ r=a[0]; } return true; };
  // replaces a value by a fresh variable constrained only by what the harness assumes about it
  h["se_abstract"]=[](Machine&m,std::vector<Val>&a,CallBase*,Val&r){ r.e=mkVar(m.cstr(m.cint(a[1]))); return true; };
}
static std::string jstr(const std::string&s){ std::string o="\""; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32) o+=' '; else o+=c; } return o+"\""; }
static std::string jnum(double d){ if(std::isnan(d)) return "\"nan\""; if(std::isinf(d)) return d>0?"\"inf\"":"\"-inf\""; char b[64]; snprintf(b,64,"%.17g",d); return b; }
static std::string jmodel(const Model&m){ std::string s="{"; bool f=true; for(auto&x:m.real){ if(!f)s+=","; f=false; s+=jstr(x.first)+":"+jnum(x.second);} for(auto&x:m.ints){ if(!f)s+=","; f=false; s+=jstr(x.first)+":"+std::to_string((long)x.second);} return s+"}"; }

// OpenMP: a parallel region becomes a call of its outlined body, marked iteration by iteration; every access is then reported to the tracker
static bool ompSkip(StringRef n){ return n.starts_with("__kmpc")||n.starts_with("__se")||n.starts_with("se_")||n.starts_with("omp_"); }
static void ompLower(Module&mod){ LLVMContext&C=mod.getContext(); Type*V=Type::getVoidTy(C),*P=PointerType::get(C,0),*I32=Type::getInt32Ty(C);
  auto fork=mod.getOrInsertFunction("__se_fork",V,P), joined=mod.getOrInsertFunction("__se_joined",V,P), ib=mod.getOrInsertFunction("__se_iter_begin",V), ie=mod.getOrInsertFunction("__se_iter_end",V);
  Constant*tid=mod.getOrInsertGlobal("__se_tid",I32); std::vector<CallBase*> calls;
  for(auto&F:mod){ bool outl=F.getName().contains(".omp_outlined")&&!F.getName().contains("reduction"); if(outl&&!F.isDeclaration()){ F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::OptimizeNone); }
    for(auto&B:F){ if(outl&&B.getName().starts_with("omp.inner.for.body")) CallInst::Create(ib,"",&*B.getFirstInsertionPt()); else if(outl&&B.getName().starts_with("omp.inner.for.inc")) CallInst::Create(ie,"",&*B.getFirstInsertionPt());
      for(auto&I:B) if(auto*X=dyn_cast<CallBase>(&I)) if(auto*G=X->getCalledFunction()) if(G->getName()=="__kmpc_fork_call") calls.push_back(X); } }
  for(auto*X:calls){ IRBuilder<> b(X); auto*fn=cast<Function>(X->getArgOperand(2)->stripPointerCasts()); std::string nm=demangle(fn->getName().substr(0,fn->getName().find(".omp_outlined")).str()); nm=nm.substr(0,nm.find('(')); { size_t p=nm.find(' '); if(p!=std::string::npos&&nm.compare(0,5,"void ")==0) nm=nm.substr(5); }
    b.CreateCall(fork,{b.CreateGlobalStringPtr(nm)}); std::vector<Value*> a{tid,tid}; for(unsigned i=3;i<X->arg_size();i++){ Value*v=X->getArgOperand(i); Type*T=fn->getFunctionType()->getParamType(i-1); if(v->getType()!=T) v= T->isPointerTy()? b.CreateIntToPtr(v,T) : b.CreateBitCast(v,T); a.push_back(v); }
    b.CreateCall(fn->getFunctionType(),fn,a); b.CreateCall(joined,{b.CreateGlobalStringPtr("iterations of the parallel loops are independent: "+nm)}); if(auto*N=dyn_cast<InvokeInst>(X)) b.CreateBr(N->getNormalDest()); X->eraseFromParent(); } }
static void ompInstrument(Module&mod){ LLVMContext&C=mod.getContext(); Type*V=Type::getVoidTy(C),*P=PointerType::get(C,0),*L=Type::getInt64Ty(C); const DataLayout&D=mod.getDataLayout();
  auto mem=mod.getOrInsertFunction("__se_mem",V,P,L,L), sv=mod.getOrInsertFunction("__se_stackvar",V,P,L), hv=mod.getOrInsertFunction("__se_heapvar",V,P,L), sc=mod.getOrInsertFunction("__se_scope",V,P,L);
  for(auto&F:mod){ if(F.isDeclaration()||ompSkip(F.getName())) continue; std::vector<Instruction*> v; for(auto&B:F) for(auto&I:B) v.push_back(&I);
    for(auto*I:v){ auto num=[&](uint64_t x)->Value*{ return ConstantInt::get(L,x); }; auto acc=[&](Value*p,Value*n,int fl){ IRBuilder<> b(I); b.CreateCall(mem,{p,b.CreateZExtOrTrunc(n,L),num(fl)}); };
      if(auto*X=dyn_cast<LoadInst>(I)) acc(X->getPointerOperand(),num(D.getTypeStoreSize(X->getType())),X->isAtomic()?2:0);
      else if(auto*X=dyn_cast<StoreInst>(I)) acc(X->getPointerOperand(),num(D.getTypeStoreSize(X->getValueOperand()->getType())),X->isAtomic()?3:1);
      else if(auto*X=dyn_cast<AtomicRMWInst>(I)) acc(X->getPointerOperand(),num(D.getTypeStoreSize(X->getType())),3);
      else if(auto*X=dyn_cast<AtomicCmpXchgInst>(I)) acc(X->getPointerOperand(),num(D.getTypeStoreSize(X->getNewValOperand()->getType())),3);
      else if(auto*X=dyn_cast<AllocaInst>(I)){ Instruction*at=I->getNextNode(); while(isa<AllocaInst>(at)) at=at->getNextNode(); IRBuilder<> b(at); Value*n=num(D.getTypeAllocSize(X->getAllocatedType())); if(X->isArrayAllocation()) n=b.CreateMul(n,b.CreateZExtOrTrunc(X->getArraySize(),L)); b.CreateCall(sv,{X,n}); }
      else if(auto*X=dyn_cast<MemTransferInst>(I)){ acc(X->getRawSource(),X->getLength(),0); acc(X->getRawDest(),X->getLength(),1); }
      else if(auto*X=dyn_cast<MemSetInst>(I)) acc(X->getRawDest(),X->getLength(),1);
      else if(auto*X=dyn_cast<IntrinsicInst>(I)){ if(X->getIntrinsicID()==Intrinsic::lifetime_start){ IRBuilder<> b(I); b.CreateCall(sc,{X->getArgOperand(1),X->getArgOperand(0)}); } }
      else if(auto*X=dyn_cast<CallBase>(I)){ auto*G=X->getCalledFunction(); if(!G) continue; StringRef n=G->getName(); Value*sz=nullptr; if(n=="malloc"||n=="_Znwm"||n=="_Znam") sz=X->getArgOperand(0); else if(n=="aligned_alloc") sz=X->getArgOperand(1); if(!sz) continue; Instruction*at=nullptr; if(auto*N=dyn_cast<InvokeInst>(X)){ if(N->getNormalDest()->getSinglePredecessor()) at=&*N->getNormalDest()->getFirstInsertionPt(); } else at=I->getNextNode(); if(at){ IRBuilder<> b(at); b.CreateCall(hv,{X,sz}); } } } } }
static int mainAsan(int argc,char**argv){ // symex asan in.bc out.bc: marks every function for AddressSanitizer
  if(argc<4) return 2; LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod=parseIRFile(argv[2],err,ctx); if(!mod) return 2; for(auto&F:*mod) if(!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress);
  std::error_code ec; raw_fd_ostream out(argv[3],ec); WriteBitcodeToFile(*mod,out); return 0; }
static int mainLink(int argc,char**argv){ // symex link out.bc entry1,entry2 in1.bc ...
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod=parseIRFile(argv[4],err,ctx); if(!mod){ err.print("symex",errs()); return 2; } Linker L(*mod);
  for(int i=5;i<argc;i++){ auto m2=parseIRFile(argv[i],err,ctx); if(!m2){ err.print("symex",errs()); return 2; } if(L.linkInModule(std::move(m2))) return 2; }
  std::set<std::string> keep; { std::stringstream ss(argv[3]); std::string t; while(std::getline(ss,t,',')) keep.insert(t); }
  bool all=keep.count("*");
  for(auto&F:*mod){ if(Machine::isStub(F.getName())){ if(!F.isDeclaration()&&F.hasAvailableExternallyLinkage()) F.deleteBody(); else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);} } F.removeFnAttr(Attribute::OptimizeNone); if(!F.hasFnAttribute(Attribute::NoInline)||!Machine::isStub(F.getName())) if(F.hasFnAttribute(Attribute::NoInline)&&!Machine::isStub(F.getName())&&false) F.removeFnAttr(Attribute::NoInline); F.removeFnAttr("target-features"); }
  const bool ompMode=keep.count("omp!"); if(ompMode) ompLower(*mod);
  internalizeModule(*mod,[&](const GlobalValue&G){ if(all) return true; if(keep.count(G.getName().str())) return true; return G.getName().starts_with("harness_")||G.getName()=="llvm.global_ctors"; });
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM=PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); { ModulePassManager P0; P0.addPass(GlobalDCEPass()); P0.run(*mod,MAM);} 
  // a guarded division must stay guarded: hide divisions behind calls that LLVM may not speculate
  std::map<Type*,Function*> guard; { std::vector<BinaryOperator*> v; for(auto&F:*mod) for(auto&B:F) for(auto&I:B) if(auto*O=dyn_cast<BinaryOperator>(&I)) if(O->getOpcode()==Instruction::FDiv&&!isa<Constant>(O->getOperand(1))) v.push_back(O);
    for(auto*O:v){ Type*T=O->getType(); Function*&G=guard[T]; if(!G){ G=Function::Create(FunctionType::get(T,{T,T},false),GlobalValue::ExternalLinkage,"__se_fdiv_"+std::to_string(guard.size()),mod.get()); G->setDoesNotThrow(); G->setDoesNotAccessMemory(); G->setWillReturn(); } CallInst*C=CallInst::Create(G->getFunctionType(),G,{O->getOperand(0),O->getOperand(1)},"",O); C->setDebugLoc(O->getDebugLoc()); O->replaceAllUsesWith(C); O->eraseFromParent(); } }
  MPM.run(*mod,MAM);
  for(auto&g:guard){ Function*G=g.second; while(!G->use_empty()){ auto*C=cast<CallInst>(G->user_back()); auto*O=BinaryOperator::CreateFDiv(C->getArgOperand(0),C->getArgOperand(1),"",C); O->setDebugLoc(C->getDebugLoc()); C->replaceAllUsesWith(O); C->eraseFromParent(); } }
  if(ompMode) ompInstrument(*mod);
  std::error_code ec; raw_fd_ostream out(argv[2],ec); WriteBitcodeToFile(*mod,out); return 0;
}
static int mainRun(int argc,char**argv){
  std::string bc=argv[2]; std::vector<std::string> entries; 
  for(int i=3;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--entry") entries.push_back(nx()); else if(a=="--budget") budget=atof(nx().c_str()); else if(a=="--out") outFile=nx(); else if(a=="--seed") seed=atoi(nx().c_str()); else if(a=="--branch-ms") branchTmo=atoi(nx().c_str()); else if(a=="--prove-ms") proveTmo=atoi(nx().c_str()); else if(a=="--max-paths") maxPaths=atol(nx().c_str()); else if(a=="--max-steps") maxSteps=atol(nx().c_str()); else if(a=="--poly-limit") polyLimit=atol(nx().c_str()); else if(a=="--solver") solverCmd=nx(); else if(a=="--dump") dumpDir=nx(); else if(a=="-v") verbose=true; else if(a=="--only") onlyLabel=nx(); else if(a=="--witnesses") nWitness=atoi(nx().c_str()); else if(a=="--fix"){ std::string s=nx(); size_t p=s.find('='); fixedReal[s.substr(0,p)]=atof(s.c_str()+p+1); } else if(a=="--param"){ std::string s=nx(); size_t p=s.find('='); params[s.substr(0,p)]=atol(s.c_str()+p+1); } else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; } }
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod=parseIRFile(bc,err,ctx); if(!mod){ err.print("symex",errs()); return 2; } M=mod.get(); DL=&M->getDataLayout();
  M->getOrInsertFunction("_ZNKSt9exception4whatEv",FunctionType::get(PointerType::get(M->getContext(),0),{PointerType::get(M->getContext(),0)},false));
  uint64_t fa=0x1000; for(auto&F:*M){ fnAddr[&F]=fa; fnByAddr[fa]=&F; fnByName[F.getName().str()]=&F; fa+=16; }
  Machine::setupHandlers(); tStart=now();
  Function*E=M->getFunction(entries.at(0)); if(!E||E->isDeclaration()){ fprintf(stderr,"no function %s\n",entries[0].c_str()); return 2; }
  std::vector<std::vector<Decision>> work; work.push_back({}); 
  while(!work.empty()){
    if(now()-tStart>budget){ incomplete=true; incompleteWhy="time budget ("+std::to_string(work.size())+" paths left)"; break; } if(nPaths>=maxPaths){ incomplete=true; incompleteWhy="path limit"; break; }
    std::vector<Decision> pre=work.back(); work.pop_back();
    Machine m; m.prefix=pre; m.work=&work; bool completed=false; 
    try { m.initGlobals(); 
      if(auto*G=M->getGlobalVariable("llvm.global_ctors")) if(G->hasInitializer()) if(auto*A=dyn_cast<ConstantArray>(G->getInitializer())){ std::vector<std::pair<uint64_t,Function*>> v; for(auto&o:A->operands()){ auto*S=cast<ConstantStruct>(o.get()); if(auto*F=dyn_cast<Function>(S->getOperand(1))) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&x,auto&y){return x.first<y.first;}); for(auto&x:v) m.run(x.second); }
      m.run(E); completed=true; nDone++; maxDone=std::max(maxDone,m.steps); nPaths++; m.recordWitness(); }
    catch(PathEnd&p){ nPaths++; if(verbose) fprintf(stderr,"path end: %s\n",p.why.c_str()); }
    catch(Infeasible&){ nInfeasible++; }
    catch(Unsupported&u){ unsupported[std::string(u.what())+" @ "+m.stackStr()]++; if(verbose) fprintf(stderr,"UNSUPPORTED %s @ %s\n",u.what(),m.stackStr().c_str()); nPaths++; }
    catch(TooBig&u){ unsupported[std::string("too big @ ")+m.stackStr()]++; nPaths++; }
    catch(std::exception&u){ unsupported[std::string("engine: ")+u.what()+" @ "+m.stackStr()]++; nPaths++; }
    nSteps+=m.steps; (void)completed;
    // free CFns
    if(unsupported.size()>20) { incomplete=true; incompleteWhy="too many unsupported paths"; break; }
    if(cands.size()>=30){ incomplete=true; incompleteWhy="enough counterexample candidates"; break; }
  }
  std::ostringstream o; o<<"{\"entry\":"<<jstr(entries[0])<<",\"paths\":"<<nPaths<<",\"infeasible\":"<<nInfeasible<<",\"forks\":"<<nForks<<",\"steps\":"<<nSteps<<",\"obligations\":"<<nObl<<",\"asserts_seen\":"<<nAsserts<<",\"identity\":"<<nIdent<<",\"confirmed\":"<<nConfirmed<<",\"modulo\":"<<nModulo<<",\"unsat\":"<<nUnsat<<",\"trivial\":"<<nTriv<<",\"unknown\":"<<nUnknown<<",\"complete\":"<<(incomplete?"false":"true")<<",\"why\":"<<jstr(incompleteWhy)<<",\"queries\":"<<sstats.queries<<",\"q_sat\":"<<sstats.sat<<",\"q_unsat\":"<<sstats.unsat<<",\"q_unknown\":"<<sstats.unknown<<",\"solver_s\":"<<sstats.time<<",\"wall_s\":"<<now()-tStart;
  o<<",\"candidates\":["; for(size_t i=0;i<cands.size();i++){ if(i)o<<","; o<<"{\"label\":"<<jstr(cands[i].label)<<",\"kind\":"<<jstr(cands[i].kind)<<",\"note\":"<<jstr(cands[i].note)<<",\"confirmed\":"<<(cands[i].confirmed?"true":"false")<<",\"inputs\":"<<jmodel(cands[i].m)<<"}"; } o<<"]";
  o<<",\"witnesses\":["; for(size_t i=0;i<wits.size();i++){ if(i)o<<","; o<<"{\"inputs\":"<<jmodel(wits[i].m)<<",\"obs\":["; for(size_t j=0;j<wits[i].obs.size();j++){ if(j)o<<","; o<<"["<<jstr(wits[i].obs[j].first)<<","<<jnum(wits[i].obs[j].second)<<"]"; } o<<"]}"; } o<<"]";
  o<<",\"unsupported\":["; { bool f=true; for(auto&x:unsupported){ if(!f)o<<","; f=false; o<<jstr(x.first); } } o<<"],\"unknowns\":["; for(size_t i=0;i<unknowns.size()&&i<50;i++){ if(i)o<<","; o<<jstr(unknowns[i]); } o<<"]";
  o<<",\"functions\":["; { bool f=true; for(auto&x:execFns){ std::string d=demangle(x); if(d.find("std::")==0||d.find("harness")==0||d.find("Eigen::")!=std::string::npos||d.find("__gnu")==0) continue; if(d.find("fvens")==std::string::npos&&d.find("amat")==std::string::npos) continue; if(!f)o<<","; f=false; o<<jstr(d.substr(0,160)); } } o<<"]";
  o<<",\"labels\":{"; { bool f=true; for(auto&x:labelStats){ if(!f)o<<","; f=false; o<<jstr(x.first)<<":["<<x.second[0]<<","<<x.second[1]<<"]"; } } o<<"}}\n";
  if(outFile.empty()) std::cout<<o.str(); else { std::ofstream of(outFile); of<<o.str(); }
  std::cout.flush(); fflush(stderr); _exit(0);
}
static int gArgc; static char**gArgv; static int gRet;
static void* threadMain(void*){ std::string mode=gArgv[1]; try { if(mode=="asan") gRet=mainAsan(gArgc,gArgv); else if(mode=="link") gRet=mainLink(gArgc,gArgv); else gRet=mainRun(gArgc,gArgv); } catch(std::exception&e){ fprintf(stderr,"symex: %s\n",e.what()); gRet=2; } return nullptr; }
int main(int argc,char**argv){ if(argc<3){ fprintf(stderr,"usage: symex link|run ...\n"); return 2; } gArgc=argc; gArgv=argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1ull<<30); pthread_t t; if(pthread_create(&t,&at,threadMain,nullptr)) { threadMain(nullptr); return gRet; } pthread_join(t,nullptr); return gRet; }
