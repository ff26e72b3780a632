// lvsym: symbolic executor for LLVM-18 IR with state merging; verdicts by z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
#include <poll.h>
#include <cstdarg>
#include <sys/resource.h>
using namespace llvm;
typedef std::vector<V> VV;

static double now(){ static auto t0=std::chrono::steady_clock::now(); return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }
static const DataLayout* DL; static Module* M; static int verbose=0;
static double optBudget=600; static int optJobs=4; static unsigned optAssertTO=120000, optBranchTO=3000; static long optMaxLoop=4096; static bool optMerge=true; static int optTmo=-1; static int optMaxCtx=1000000,optSpur=0;
static std::string optOut, optCex="cex";

// ---------- lanes ----------
struct Lane { int w; uint64_t off; char k; }; // k: i,f,d,p
static std::map<Type*,std::vector<Lane>> laneCache;
static void addLanes(Type* T,uint64_t off,std::vector<Lane>& o){
    if(T->isIntegerTy()){ int w=T->getIntegerBitWidth(); if(w<=64) o.push_back({w,off,'i'}); else for(int i=0;i<w;i+=64) o.push_back({std::min(64,w-i),off+i/8,'i'}); return; }
    if(T->isPointerTy()){ o.push_back({64,off,'p'}); return; }
    if(T->isFloatTy()){ o.push_back({32,off,'f'}); return; } if(T->isDoubleTy()){ o.push_back({64,off,'d'}); return; }
    if(T->isX86_FP80Ty()){ o.push_back({64,off,'x'}); return; }
    if(auto*VT=dyn_cast<FixedVectorType>(T)){ Type* ET=VT->getElementType(); uint64_t es=DL->getTypeSizeInBits(ET); for(unsigned i=0;i<VT->getNumElements();i++) addLanes(ET,off+i*es/8,o); return; }
    if(auto*AT=dyn_cast<ArrayType>(T)){ Type* ET=AT->getElementType(); uint64_t es=DL->getTypeAllocSize(ET); for(unsigned i=0;i<AT->getNumElements();i++) addLanes(ET,off+i*es,o); return; }
    if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL->getStructLayout(ST); for(unsigned i=0;i<ST->getNumElements();i++) addLanes(ST->getElementType(i),off+(uint64_t)SL->getElementOffset(i),o); return; }
    if(T->isVoidTy()||T->isMetadataTy()||T->isLabelTy()||T->isTokenTy()) return;
    std::string s; raw_string_ostream os(s); T->print(os); throw std::string("unsupported type "+os.str());
}
static const std::vector<Lane>& lanes(Type* T){ auto it=laneCache.find(T); if(it!=laneCache.end()) return it->second; auto&r=laneCache[T]; addLanes(T,0,r); return r; }

// ---------- memory ----------
static const E UNINIT=(E)1;
struct Cell { E e; uint8_t idx; };
struct ObjState { std::vector<uint8_t> b; std::vector<Cell> s; // s empty => fully concrete
};
typedef std::shared_ptr<ObjState> ObjP;
struct ObjMeta { uint64_t addr,size; char kind; std::string name; };
static std::vector<ObjMeta> objs; static uint64_t nextAddr=0x100000;
static ObjP FREED=std::make_shared<ObjState>();
enum { CH=32 };
struct Chunk { ObjP o[CH]; };
struct Mem { std::vector<std::shared_ptr<Chunk>> ch;
    ObjP get(int id) const { size_t c=id/CH; if(c>=ch.size()||!ch[c]) return nullptr; return ch[c]->o[id%CH]; }
    void set(int id,ObjP p){ size_t c=id/CH; if(c>=ch.size()) ch.resize(c+1); if(!ch[c]) ch[c]=std::make_shared<Chunk>(); else if(ch[c].use_count()>1) ch[c]=std::make_shared<Chunk>(*ch[c]); ch[c]->o[id%CH]=p; }
    ObjState* wr(int id){ size_t c=id/CH; if(ch[c].use_count()>1) ch[c]=std::make_shared<Chunk>(*ch[c]); ObjP& p=ch[c]->o[id%CH]; if(p.use_count()>1) p=std::make_shared<ObjState>(*p); return p.get(); }
};
static int findObj(uint64_t a,bool near=false){ // object whose range contains a
    if(objs.empty()) return -1; size_t lo=0,hi=objs.size(); while(hi-lo>1){ size_t m=(lo+hi)/2; if(objs[m].addr<=a) lo=m; else hi=m; }
    if(objs[lo].addr<=a && a<=objs[lo].addr+objs[lo].size){ return lo; }
    if(near){ if(objs[lo].addr<=a && a-objs[lo].addr-objs[lo].size<2048) return lo; if(lo+1<objs.size()&&objs[lo+1].addr>a&&objs[lo+1].addr-a<2048) return lo+1; if(objs[lo].addr>a&&objs[lo].addr-a<2048) return lo; }
    return -1; }
static int newObjId(uint64_t size,char kind,const std::string& name){ uint64_t a=(nextAddr+63)&~63ull; nextAddr=a+size+4096; nextAddr+= (size>65536?size:0); objs.push_back({a,size,kind,name}); return objs.size()-1; }

// ---------- decoded functions ----------
struct Opnd { int slot=-1; int n=0; const V* cv=nullptr; const Value* v=nullptr; };
struct DI { Instruction* I; unsigned opc; int dst=-1,nl=0; std::vector<Opnd> ops; int64_t gepOff=0; std::vector<std::pair<int,int64_t>> gepVar; int intr=0; Function* callee=nullptr; void* handler=nullptr; };
struct BInfo { BasicBlock* bb; int rpo; std::vector<int> loops; bool isHeader=false; std::vector<DI> ins; int firstNonPhi=0; };
struct FInfo { Function* F; std::vector<BInfo> blocks; std::map<const BasicBlock*,int> bidx; int nslots=0; std::vector<uint8_t> slotW; std::map<const Value*,int> slot; std::vector<int> loopHdr; std::string name,dem; long calls=0; };
static std::map<Function*,FInfo*> finfos;

struct Frame { FInfo* f; VV regs; int bb=0,ip=0; std::vector<long> iters; std::vector<int> allocas; VV varargs; std::vector<int> vaW; std::vector<char> vaK; DI* call=nullptr; };
typedef std::shared_ptr<Frame> FrameP;
struct PCNode { V c; PCNode* par; int depth; };
enum TStat { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, DONE, COND_WAKE };
struct Exc { uint64_t ptr; uint64_t ti; };
struct Thread { std::vector<FrameP> fr; int st=RUN; uint64_t wobj=0,wmtx=0; std::vector<Exc> caught; bool unwinding=false; Exc cur{0,0}; bool timed=false,tout=false,atYield=false; int64_t deadline=0; int joinId=-1; std::string name; };
struct State { std::vector<Thread> th; int cur=0; Mem mem; PCNode* pc=nullptr; std::vector<ModelP> models; std::vector<long> tags; std::map<std::string,V> ctr; int id; long steps=0; bool needSched=false; std::map<uint64_t,int> mtx; /*mutex addr->owner+1*/ long sched=0; std::map<std::string,int> symCnt; int nomerge=0; int randfix=-1; int preempt=0,spur=0,tmo=0; int64_t now=1000000000000; std::vector<std::pair<std::string,int>> trace; };
static std::vector<State*> work; static int nextStateId=0; static long nForks=0,nMerges=0,nSteps=0,nStates=1,maxLive=1,nSched=0;
struct Unsup { std::string m; };
struct EndPath {}; // state finished
static std::set<std::string> undecided; // reasons
static std::map<std::string,std::pair<long,long>> checkStat; // msg -> (reached, discharged)
static std::set<std::string> covered;
struct Viol { std::string kind,msg,where,cex; }; static std::vector<Viol> viols; static std::set<std::string> violKeys;
static std::map<std::string,long> stubCalls;
static bool stopAll=false;

static std::string where(State& s){ std::string r; Thread& t=s.th[s.cur]; int n=0; for(int i=(int)t.fr.size()-1;i>=0&&n<5;i--){ Frame& f=*t.fr[i]; auto& B=f.f->blocks[f.bb]; int ip=i==(int)t.fr.size()-1?f.ip:f.ip-1; if(ip<0)ip=0; if(ip<(int)B.ins.size()){ Instruction* I=B.ins[ip].I; std::string l; if(auto dl=I->getDebugLoc()){ l=dl->getFilename().str(); size_t p=l.rfind('/'); if(p!=std::string::npos) l=l.substr(p+1); l+=":"+std::to_string(dl.getLine()); } if(!l.empty()||n==0){ if(!r.empty()) r+=" < "; r+=l.empty()?f.f->dem.substr(0,60):l; n++; } } } return r; }

static void addPC(State& s,V c){ if(c.isc()) return; if(c.e->op==AND&&c.e->w==1){ addPC(s,c.e->k[0]); addPC(s,c.e->k[1]); return; } for(PCNode* n=s.pc;n;n=n->par) if(same(n->c,c)) return; s.pc=new PCNode{c,s.pc,s.pc?s.pc->depth+1:1}; std::vector<ModelP> k; for(auto&m:s.models) if(m->eval(c)) k.push_back(m); s.models.swap(k); }
static void pcList(State& s,std::vector<V>& o){ for(PCNode* n=s.pc;n;n=n->par) o.push_back(n->c); }
static void addModel(State& s,ModelP m){ if(s.models.size()>=8) s.models.erase(s.models.begin()); s.models.push_back(m); }
static std::unordered_map<uint64_t,Res> qcache;
static double timeLeft(){ return optBudget-now(); }
static void checkBudget(){ if(timeLeft()<0) throw Unsup{"time budget exceeded"}; }
static bool quickEnd=false;
static Res feasible(State& s,V c){ if(c.isc()) return c.c?SAT:UNSAT; for(auto&m:s.models) if(m->eval(c)) return SAT; 
    for(PCNode* n=s.pc;n;n=n->par){ if(same(n->c,c)) return SAT; if(same(bNot(n->c),c)) return UNSAT; }
    uint64_t key=hmix((uint64_t)s.pc*31,(uint64_t)c.e); key=(key<<32)^((uint64_t)s.pc+(uint64_t)c.e*7); auto it=qcache.find(key); if(it!=qcache.end()&&it->second!=SAT){ S->st.cacheHits++; return it->second; }
    checkBudget();
    std::vector<V> q; pcList(s,q); q.push_back(c); ModelP m; Res r=S->check(q,&m,optBranchTO); if(r==SAT){ if(m->eval(c)){ bool ok=true; for(auto&v:q) if(!m->eval(v)) ok=false; if(ok) addModel(s,m);} } qcache[key]=r; return r; }

// ---------- inputs & counterexamples ----------
struct Input { std::string name; int ew; std::vector<int> vars; };
static std::vector<Input> inputs; static std::map<std::string,int> inputIdx;
static V inputVar(const std::string& name,int ew,size_t i){ // ew in bytes
    auto it=inputIdx.find(name); int ix; if(it==inputIdx.end()){ ix=inputs.size(); inputs.push_back({name,ew,{}}); inputIdx[name]=ix; } else ix=it->second;
    Input& in=inputs[ix]; while(in.vars.size()<=i){ V v=mkVar(name+"["+std::to_string(in.vars.size())+"]",in.ew*8); in.vars.push_back(v.e->k[0].c); } return X(P.varE[in.vars[i]]); }
static std::string writeCex(const std::vector<uint64_t>& val,const std::string& kind,const std::string& msg,const std::string& wh,State* s){
    static int n=0; std::string fn=optCex+"."+std::to_string(n++)+".cex"; std::ofstream f(fn); f<<"# "<<kind<<": "<<msg<<"\n# at "<<wh<<"\n"; f<<"check "<<msg<<"\n";
    for(auto&in:inputs){ f<<"sym "<<in.name<<" "<<in.ew<<" "; char b[4]; for(int v:in.vars){ uint64_t u=v<(int)val.size()?val[v]:0; for(int i=0;i<in.ew;i++){ snprintf(b,4,"%02x",(unsigned)((u>>(8*i))&255)); f<<b; } } if(in.vars.empty()) f<<"-"; f<<"\n"; }
    if(s){ f<<"sched"; for(auto&t:s->trace) f<<" "<<t.first<<":"<<t.second; f<<"\n"; }
    return fn; }
static void report(State& s,const std::string& kind,const std::string& msg,ModelP m,const std::string& wh){
    std::string key=kind+"|"+msg+"|"+(kind=="check"?"":wh); int cnt=0; if(!violKeys.insert(key).second){ for(auto&k:viols) if(k.kind+"|"+k.msg+"|"+(k.kind=="check"?"":k.where)==key) cnt++; if(cnt>=3) return; }
    std::string fn=writeCex(m?m->val:std::vector<uint64_t>(),kind,msg,wh,&s); viols.push_back({kind,msg,wh,fn}); if(verbose) fprintf(stderr,"!! %s: %s @ %s -> %s\n",kind.c_str(),msg.c_str(),wh.c_str(),fn.c_str()); }

// ---- asynchronous assertion queries ----
struct Job { int pid,fd; std::string kind,msg,wh; std::string buf; double deadline; std::vector<std::pair<std::string,int>> trace; std::vector<V> q; int stage=0; };
static std::vector<Job> jobs; static long nAssertQ=0;
static std::vector<ModelP> curModels;
static void spawn(Job& j,const std::vector<V>& q,unsigned to){
    int pp[2]; if(pipe(pp)) abort(); fflush(stdout); fflush(stderr); int pid=fork(); if(pid==0){ close(pp[0]); signal(SIGALRM,SIG_DFL); alarm(to/1000+5); S->st=SolverStats(); ModelP m; Res r=S->checkHard(q,&m,to,curModels); if(r==SAT){ for(auto&v:q) if(!m->eval(v)){ /*UF/NaN imprecision*/ r=UNKNOWN; 
                bool uf=false; for(auto&x:q) uf|=x.e&&(x.e->uf||x.e->fp); if(uf) r=SAT; break; } }
        std::string o; o.append((char*)&r,sizeof r); o.append((char*)&S->st.secs,8); if(r==SAT){ uint64_t n=m->val.size(); o.append((char*)&n,8); o.append((char*)m->val.data(),n*8); } size_t off=0; while(off<o.size()){ ssize_t k=write(pp[1],o.data()+off,o.size()-off); if(k<=0) break; off+=k; } _exit(0); }
    close(pp[1]); j.pid=pid; j.fd=pp[0]; j.deadline=now()+to/1000.0+10; }
static void finishJob(Job& j){
    close(j.fd); int st; kill(j.pid,SIGKILL); waitpid(j.pid,&st,0); Res r=UNKNOWN; if(j.buf.size()>=sizeof r+8){ memcpy(&r,j.buf.data(),sizeof r); double d; memcpy(&d,j.buf.data()+sizeof r,8); S->st.secs+=d; }
    S->st.queries++; if(r==UNSAT){ S->st.unsat++; if(j.kind=="check") checkStat[j.msg].second++; }
    else if(r==SAT){ S->st.sat++; ModelP m=std::make_shared<Model>(); uint64_t n; memcpy(&n,j.buf.data()+sizeof r+8,8); m->val.resize(n); memcpy(m->val.data(),j.buf.data()+sizeof r+16,n*8); State tmp; tmp.trace=j.trace; report(tmp,j.kind,j.msg,m,j.wh); }
    else { S->st.unknown++; undecided.insert("solver undecided on "+j.kind+" '"+j.msg+"'"); } }
static void pump(bool all,size_t maxJobs){
    while(!jobs.empty()&&(all||jobs.size()>=maxJobs)){
        std::vector<pollfd> pf; for(auto&j:jobs) pf.push_back({j.fd,POLLIN,0}); poll(pf.data(),pf.size(),500);
        for(size_t i=0;i<pf.size();){ Job& j=jobs[i]; bool done=false; if(pf[i].revents){ char b[65536]; ssize_t k=read(j.fd,b,sizeof b); if(k>0) j.buf.append(b,k); else done=true; } if(!done&&now()>j.deadline) done=true; if(!done&&timeLeft()<-30) done=true;
            if(done){ Job jj=j; jobs.erase(jobs.begin()+i); pf.erase(pf.begin()+i); finishJob(jj); } else i++; } } }
static void assertion(State& s,V c,const std::string& kind,const std::string& msg){
    if(kind=="check") checkStat[msg].first++;
    if(c.isc()){ if(c.c){ if(kind=="check") checkStat[msg].second++; return; } ModelP m; if(!s.models.empty()) m=s.models.back(); else { std::vector<V> q; pcList(s,q); Res r=S->check(q,&m,optAssertTO); if(r==UNSAT) throw EndPath(); if(r==UNKNOWN){ undecided.insert("path feasibility undecided at "+msg); return; } }
        if(kind=="check") checkStat[msg].second++; report(s,kind,msg,m,where(s)); return; }
    for(auto&m:s.models) if(!m->eval(c)){ if(kind=="check") checkStat[msg].second++; report(s,kind,msg,m,where(s)); return; }
    std::string key=kind+"|"+msg+"|"; if(violKeys.count(key)){ int cnt=0; for(auto&k:viols) if(k.kind==kind&&k.msg==msg) cnt++; if(cnt>=3) return; }
    pump(false,optJobs); checkBudget(); nAssertQ++; std::vector<V> q; pcList(s,q); q.push_back(bNot(c)); Job j; j.kind=kind; j.msg=msg; j.wh=where(s); j.trace=s.trace; curModels=s.models; spawn(j,q,optAssertTO); jobs.push_back(j); }

// ---------- function decoding ----------
static std::map<const Constant*,VV*> constCache; static std::map<const GlobalValue*,uint64_t> gaddr; static std::map<uint64_t,Function*> fnAt;
static VV evalConst(const Constant* c);
static const V* constVals(const Constant* c){ auto it=constCache.find(c); if(it==constCache.end()){ VV* v=new VV(evalConst(c)); it=constCache.emplace(c,v).first; } return it->second->data(); }
static uint64_t globalAddr(const GlobalValue* g);
static VV evalConst(const Constant* c){
    Type* T=c->getType(); auto& L=lanes(T); size_t n=L.size();
    if(auto*ci=dyn_cast<ConstantInt>(c)){ VV r; APInt a=ci->getValue(); for(size_t i=0;i<n;i++) r.push_back(C(a.extractBitsAsZExtValue(L[i].w,i*64))); return r; }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ if(T->isX86_FP80Ty()){ APFloat f=cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return {C(f.bitcastToAPInt().getZExtValue())}; } return {C(cf->getValueAPF().bitcastToAPInt().getZExtValue())}; }
    if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return VV(n,C(0));
    if(auto*g=dyn_cast<GlobalValue>(c)) return {C(globalAddr(g))};
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ VV r; for(unsigned i=0;i<cd->getNumElements();i++){ VV e=evalConst(cd->getElementAsConstant(i)); r.insert(r.end(),e.begin(),e.end()); } return r; }
    if(auto*ca=dyn_cast<ConstantAggregate>(c)){ VV r; for(auto&o:ca->operands()){ VV e=evalConst(cast<Constant>(o)); r.insert(r.end(),e.begin(),e.end()); } return r; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
        switch(ce->getOpcode()){
        case Instruction::GetElementPtr: { auto*gp=cast<GEPOperator>(ce); APInt off(64,0); if(!gp->accumulateConstantOffset(*DL,off)) throw Unsup{"const gep"}; VV b=evalConst(cast<Constant>(gp->getPointerOperand())); return {C(b[0].c+off.getSExtValue())}; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { VV b=evalConst(ce->getOperand(0)); if(b.size()==1&&n==1) return {C(b[0].c&mask(L[0].w))}; break; }
        case Instruction::Trunc: { VV b=evalConst(ce->getOperand(0)); return {C(b[0].c&mask(L[0].w))}; }
        case Instruction::Sub: { VV a=evalConst(ce->getOperand(0)),b=evalConst(ce->getOperand(1)); return {bSub(a[0],b[0],L[0].w)}; }
        case Instruction::Add: { VV a=evalConst(ce->getOperand(0)),b=evalConst(ce->getOperand(1)); return {bAdd(a[0],b[0],L[0].w)}; }
        case Instruction::ICmp: { VV a=evalConst(ce->getOperand(0)),b=evalConst(ce->getOperand(1)); bool eq=a[0].c==b[0].c; if(ce->getPredicate()==CmpInst::ICMP_EQ) return {C(eq)}; if(ce->getPredicate()==CmpInst::ICMP_NE) return {C(!eq)}; break; }
        default: break; } }
    std::string s; raw_string_ostream os(s); c->print(os); throw Unsup{"const "+os.str().substr(0,200)};
}
static Mem initMem;
static void writeConst(ObjState* o,uint64_t off,const Constant* c){
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return; Type* T=c->getType();
    if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL->getStructLayout(ST); for(unsigned i=0;i<ST->getNumElements();i++) writeConst(o,off+(uint64_t)SL->getElementOffset(i),c->getAggregateElement(i)); return; }
    if(auto*AT=dyn_cast<ArrayType>(T)){ uint64_t es=DL->getTypeAllocSize(AT->getElementType()); if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(&o->b[off],r.data(),r.size()); return; } for(unsigned i=0;i<AT->getNumElements();i++) writeConst(o,off+i*es,c->getAggregateElement(i)); return; }
    VV v=evalConst(c); auto&L=lanes(T); for(size_t i=0;i<v.size();i++){ uint64_t x=v[i].c; int nb=(L[i].w+7)/8; memcpy(&o->b[off+L[i].off],&x,nb); }
}
static std::vector<const GlobalVariable*> pendingInit;
static uint64_t globalAddr(const GlobalValue* g){
    auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
    if(auto*ga=dyn_cast<GlobalAlias>(g)){ VV b=evalConst(ga->getAliasee()); return gaddr[g]=b[0].c; }
    if(auto*f=dyn_cast<Function>(g)){ int id=newObjId(16,'F',f->getName().str()); uint64_t a=objs[id].addr; fnAt[a]=const_cast<Function*>(f); return gaddr[g]=a; }
    auto*gv=cast<GlobalVariable>(g); uint64_t sz=gv->getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(gv->getValueType()):8; if(!gv->hasInitializer()) sz=std::max<uint64_t>(sz,512); int id=newObjId(sz,'G',gv->getName().str()); uint64_t a=objs[id].addr; gaddr[g]=a;
    auto o=std::make_shared<ObjState>(); o->b.assign(sz,0); initMem.set(id,o); if(gv->hasInitializer()) pendingInit.push_back(gv); return a;
}
typedef void(*Handler)(State&,DI&,VV&); // args flattened per operand lanes
static std::map<std::string,Handler> handlers;
static void flushInit(State* s);

static FInfo* finfo(Function* F){
    auto it=finfos.find(F); if(it!=finfos.end()) return it->second; FInfo* fi=new FInfo(); finfos[F]=fi; fi->F=F; fi->name=F->getName().str(); fi->dem=demangle(fi->name);
    for(auto&a:F->args()){ fi->slot[&a]=fi->nslots; for(auto&l:lanes(a.getType())) { fi->slotW.push_back(l.w); fi->nslots++; } }
    DominatorTree DT(*F); LoopInfo LI(DT); ReversePostOrderTraversal<Function*> RPO(F); int n=0; std::map<Loop*,int> lidx;
    for(BasicBlock* b:RPO){ fi->bidx[b]=n; fi->blocks.emplace_back(); BInfo& B=fi->blocks.back(); B.bb=b; B.rpo=n++; 
        for(auto&I:*b){ auto&L=lanes(I.getType()); if(L.size()){ fi->slot[&I]=fi->nslots; for(auto&l:L){ fi->slotW.push_back(l.w); fi->nslots++; } } } }
    for(auto&B:fi->blocks){ std::vector<int> ch; for(Loop* l=LI.getLoopFor(B.bb);l;l=l->getParentLoop()){ ch.push_back(fi->bidx[l->getHeader()]); if(l->getHeader()==B.bb) B.isHeader=true; } std::reverse(ch.begin(),ch.end()); B.loops=ch; }
    for(auto&B:fi->blocks){ for(auto&I:*B.bb){ DI d; d.I=&I; d.opc=I.getOpcode(); if(isa<DbgInfoIntrinsic>(I)) continue; auto it=fi->slot.find(&I); if(it!=fi->slot.end()){ d.dst=it->second; d.nl=lanes(I.getType()).size(); }
            if(isa<PHINode>(I)) B.firstNonPhi=B.ins.size()+1;
            auto opnd=[&](Value* v){ Opnd o; o.v=v; if(isa<BasicBlock>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return o; o.n=lanes(v->getType()).size(); if(auto*c=dyn_cast<Constant>(v)){ o.cv=constVals(c); } else o.slot=fi->slot.at(v); return o; };
            if(auto*cb=dyn_cast<CallBase>(&I)){ d.callee=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(auto*ii=dyn_cast<IntrinsicInst>(cb)) d.intr=ii->getIntrinsicID(); for(auto&a:cb->args()) d.ops.push_back(opnd(a)); if(!d.callee) d.ops.push_back(opnd(cb->getCalledOperand())); }
            else if(auto*lp=dyn_cast<LandingPadInst>(&I)){ (void)lp; }
            else if(auto*gp=dyn_cast<GetElementPtrInst>(&I)){ for(auto&o:gp->operands()) d.ops.push_back(opnd(o));
                int k=1; int64_t off=0; for(auto gi=gep_type_begin(gp),ge=gep_type_end(gp);gi!=ge;++gi,++k){ Value* ix=gi.getOperand(); if(StructType* ST=gi.getStructTypeOrNull()){ unsigned fl=cast<ConstantInt>(ix->getType()->isVectorTy()?cast<Constant>(ix)->getAggregateElement(0u):cast<Constant>(ix))->getZExtValue(); off+=(int64_t)(uint64_t)DL->getStructLayout(ST)->getElementOffset(fl); } else { int64_t es=(int64_t)(uint64_t)DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*es; else d.gepVar.push_back({k,es}); } } d.gepOff=off; }
            else if(isa<PHINode>(I)){ for(auto&o:I.operands()) d.ops.push_back(opnd(o)); }
            else for(auto&o:I.operands()) d.ops.push_back(opnd(o));
            if(d.callee&&!d.intr){ auto h=handlers.find(d.callee->getName().str()); if(h!=handlers.end()) d.handler=(void*)h->second; }
            B.ins.push_back(std::move(d)); } }
    return fi;
}
static void flushInit(State* s){ while(!pendingInit.empty()){ auto*gv=pendingInit.back(); pendingInit.pop_back(); uint64_t a=globalAddr(gv); int id=findObj(a); ObjP o=initMem.get(id); writeConst(o.get(),0,gv->getInitializer()); }
    (void)s; }
static size_t flushedUpTo=0;
// newly referenced globals appear after states started: make them visible lazily
static ObjP getObj(State& s,int id){ ObjP p=s.mem.get(id); if(!p&&objs[id].kind=='G'){ flushInit(&s); p=initMem.get(id); if(p){ auto q=std::make_shared<ObjState>(*p); s.mem.set(id,q); return s.mem.get(id);} } return p; }

// ---------- memory access ----------
static Frame& top(State& s){ FrameP& f=s.th[s.cur].fr.back(); if(f.use_count()>1) f=std::make_shared<Frame>(*f); return *f; }
static V cellByte(ObjState& o,size_t i){ if(o.s.empty()||!o.s[i].e) return C(o.b[i]); E e=o.s[i].e; return bExtract(X(e),e->w,o.s[i].idx*8,8); }
static int uninitCnt=0;
static V readObj(State& s,int id,uint64_t off,int nb){ ObjP p=getObj(s,id); ObjState* o=p.get();
    if(o->s.empty()){ uint64_t v=0; memcpy(&v,&o->b[off],nb); return C(v); }
    bool conc=true,un=false; for(int i=0;i<nb;i++){ E e=o->s[off+i].e; if(e){ conc=false; if(e==UNINIT) un=true; } }
    if(conc){ uint64_t v=0; memcpy(&v,&o->b[off],nb); return C(v); }
    if(un){ p.reset(); o=s.mem.wr(id); bool allun=true; for(int i=0;i<nb;i++) if(o->s[off+i].e!=UNINIT) allun=false; if(allun&&(nb==1||nb==2||nb==4||nb==8)){ V x=mkVar("uninit"+std::to_string(uninitCnt++),8*nb); for(int i=0;i<nb;i++) o->s[off+i]={x.e,(uint8_t)i}; } else for(int i=0;i<nb;i++) if(o->s[off+i].e==UNINIT){ V x=mkVar("uninit"+std::to_string(uninitCnt++),8); o->s[off+i]={x.e,0}; } }
    E e0=o->s[off].e; if(e0&&o->s[off].idx==0&&e0->w==8*nb){ bool ok=true; for(int i=1;i<nb;i++) if(o->s[off+i].e!=e0||o->s[off+i].idx!=i){ ok=false; break; } if(ok) return X(e0); }
    V r=cellByte(*o,off); for(int i=1;i<nb;i++) r=bConcat(cellByte(*o,off+i),8,r,8*i); return r; }
static void writeRaw(ObjState* o,uint64_t off,V v,int nb){
    if(v.isc()){ memcpy(&o->b[off],&v.c,nb); if(!o->s.empty()) for(int i=0;i<nb;i++) o->s[off+i].e=nullptr; return; }
    if(o->s.empty()) o->s.assign(o->b.size(),Cell{nullptr,0});
    if(v.e->w==8*nb) for(int i=0;i<nb;i++) o->s[off+i]={v.e,(uint8_t)i};
    else abort(); }
static void writeObj(State& s,int id,uint64_t off,V v,int nb){ getObj(s,id); writeRaw(s.mem.wr(id),off,v,nb); }
static int allocObj(State& s,uint64_t size,char kind,const std::string& name,int init){ // init: 0 zero,1 uninit
    int id=newObjId(size,kind,name); auto o=std::make_shared<ObjState>(); o->b.assign(size,0); if(init) o->s.assign(size,Cell{UNINIT,0}); s.mem.set(id,o); return id; }

struct Rs { V cond; int obj; V off; };
static void memError(State& s,V badCond,const std::string& what){ // badCond feasible
    ModelP m; if(badCond.isc()){ if(!s.models.empty()) m=s.models.back(); else { std::vector<V> q; pcList(s,q); Res r=S->check(q,&m,optAssertTO); if(r==UNSAT) throw EndPath(); if(r==UNKNOWN) m=nullptr; } } else { for(auto&x:s.models) if(x->eval(badCond)) m=x; if(!m){ std::vector<V> q; pcList(s,q); q.push_back(badCond); S->check(q,&m,optAssertTO); } }
    report(s,"memory",what,m,where(s)); }
static std::string objDesc(int id){ if(id<0) return "no object"; char b[64]; snprintf(b,64,"%c-object of %llu bytes ",objs[id].kind,(unsigned long long)objs[id].size); return b+objs[id].name; }
static std::unordered_map<uint64_t,PCNode*> inbMemo;
static bool isAnc(PCNode* a,PCNode* n){ if(!a) return true; while(n&&n->depth>a->depth) n=n->par; return n==a; }
static V constPart(V a){ if(a.isc()) return a; if(a.e->op==ADD&&a.e->k[1].isc()) return a.e->k[1]; return C(0); }
static void leaves(V a,V cond,std::vector<std::pair<V,V>>& out,int depth){ // decompose pointer ite-trees: (cond, addr)
    if(!a.isc()&&depth<24&&out.size()<256){ E e=a.e; 
        if(e->op==ITE){ leaves(e->k[1],bAnd(cond,e->k[0],1),out,depth+1); leaves(e->k[2],bAnd(cond,bNot(e->k[0]),1),out,depth+1); return; }
        if(e->op==ADD&&!e->k[1].isc()){ for(int i=0;i<2;i++){ E k=e->k[i].e; if(k->op==ITE&&k->hi>=0x100000&&findObj(k->lo)!=findObj(k->hi)){ leaves(bAdd(k->k[1],e->k[1-i],64),bAnd(cond,k->k[0],1),out,depth+1); leaves(bAdd(k->k[2],e->k[1-i],64),bAnd(cond,bNot(k->k[0]),1),out,depth+1); return; } } }
        if(e->op==ADD&&e->k[1].isc()){ E k=e->k[0].e; if(k->op==ITE){ leaves(bAdd(k->k[1],e->k[1],64),bAnd(cond,k->k[0],1),out,depth+1); leaves(bAdd(k->k[2],e->k[1],64),bAnd(cond,bNot(k->k[0]),1),out,depth+1); return; }
            if(k->op==ADD){ for(int i=0;i<2;i++){ if(k->k[i].isc()) continue; E q=k->k[i].e; if(q->op==ITE&&q->hi>=0x100000){ V rest=bAdd(k->k[1-i],e->k[1],64); leaves(bAdd(q->k[1],rest,64),bAnd(cond,q->k[0],1),out,depth+1); leaves(bAdd(q->k[2],rest,64),bAnd(cond,bNot(q->k[0]),1),out,depth+1); return; } } } } }
    for(auto&p:out) if(same(p.second,a)){ p.first=bOr(p.first,cond,1); return; }
    out.push_back({cond,a}); }
static bool live(State& s,int id){ if(id<0||objs[id].kind=='F') return false; ObjP p=getObj(s,id); return p&&p!=FREED; }
static void resolve(State& s,V addr,uint64_t size,std::vector<Rs>& out,const char* acc){
    if(addr.isc()){ int id=findObj(addr.c); if(!live(s,id)||addr.c-objs[id].addr+size>objs[id].size){ std::string w=std::string(acc)+" of "+std::to_string(size)+" bytes at "; int nid=findObj(addr.c,true); char b[128]; if(addr.c<4096) snprintf(b,128,"null+%llu",(unsigned long long)addr.c); else if(nid>=0) snprintf(b,128,"offset %lld of %s%s",(long long)(addr.c-objs[nid].addr),(live(s,nid)?"":"freed "),objDesc(nid).substr(0,90).c_str()); else snprintf(b,128,"wild pointer"); memError(s,C(1),w+b); throw EndPath(); } out.push_back({C(1),id,C(addr.c-objs[id].addr)}); return; }
    std::vector<std::pair<V,V>> lv; leaves(addr,C(1),lv,0);
    for(auto&l:lv){ V cond=l.first,a=l.second; if(cond.isc()&&!cond.c) continue;
        if(a.isc()){ int id=findObj(a.c); if(!live(s,id)||a.c-objs[id].addr+size>objs[id].size){ if(feasible(s,cond)!=UNSAT){ char b[96]; snprintf(b,96,"address 0x%llx (",(unsigned long long)a.c); memError(s,cond,std::string(acc)+" through invalid pointer "+b+(id>=0?objDesc(id):"null/wild")+")"); addPC(s,bNot(cond)); if(feasible(s,C(1))==UNSAT) throw EndPath(); } continue; } out.push_back({cond,id,C(a.c-objs[id].addr)}); continue; }
        // symbolic offset from some object
        V cp=constPart(a); int id=-1; if(cp.c) id=findObj(cp.c,true);
        if(id<0){ int l1=findObj(a.e->lo,true),h1=findObj(a.e->hi,true); if(l1>=0&&l1==h1) id=l1; }
        std::vector<int> cand; if(id>=0&&live(s,id)) cand.push_back(id);
        V remaining=cond; int guard=0; bool fin=false;
        if(cand.size()){ V off=bSub(a,C(objs[id].addr),64); if(size<=objs[id].size&&uhi(off,64)<=objs[id].size-size){ out.push_back({cond,id,off}); continue; }
            uint64_t key=((uint64_t)a.e->id<<20)^(uint64_t)(cond.e?cond.e->id*977+5:0)^size; auto it=inbMemo.find(key); if(it!=inbMemo.end()&&isAnc(it->second,s.pc)){ out.push_back({cond,id,off}); continue; }
            V inb=objs[id].size>=size?bUle(off,C(objs[id].size-size),64):C(0); V bad=bAnd(cond,bNot(inb),1); Res r=feasible(s,bad); if(r==UNSAT){ inbMemo[key]=s.pc?s.pc:nullptr; if(!s.pc) inbMemo.erase(key); out.push_back({cond,id,off}); continue; }
            if(r==UNKNOWN){ undecided.insert("solver undecided on pointer bounds at "+where(s)); out.push_back({cond,id,off}); addPC(s,bNot(bad)); continue; }
            // some values outside: are they another object or an error?
            out.push_back({bAnd(cond,inb,1),id,off}); remaining=bad; }
        while(!fin&&guard++<64){ Res r=feasible(s,remaining); if(r!=SAT) { if(r==UNKNOWN) undecided.insert("solver undecided on pointer target at "+where(s)); break; }
            ModelP mm; for(auto&m:s.models) if(m->eval(remaining)) mm=m; if(!mm){ std::vector<V> q; pcList(s,q); q.push_back(remaining); if(S->check(q,&mm,optBranchTO)!=SAT) { undecided.insert("pointer target"); break; } }
            uint64_t av=mm->eval(a); int oid=findObj(av); 
            if(!live(s,oid)||av-objs[oid].addr+size>objs[oid].size){ int nid=findObj(av,true); char b[64]; snprintf(b,64," at offset %lld of ",nid>=0?(long long)(av-objs[nid].addr):-1LL); report(s,"memory",std::string(acc)+" of "+std::to_string(size)+" bytes out of bounds"+b+(nid>=0?objDesc(nid):std::string("wild pointer")),mm,where(s)); addPC(s,bNot(remaining)); if(feasible(s,C(1))==UNSAT||out.empty()) throw EndPath(); fin=true; break; }
            V off=bSub(a,C(objs[oid].addr),64); V inb=bUle(off,C(objs[oid].size-size),64); out.push_back({bAnd(remaining,inb,1),oid,off}); remaining=bAnd(remaining,bNot(inb),1); if(remaining.isc()&&!remaining.c) fin=true; }
    }
    if(out.empty()) throw EndPath();
}
static V muxRead(State& s,int id,V off,int nb,uint64_t lo,uint64_t hi,uint64_t step,std::vector<V>& vals,size_t a,size_t b){ if(b-a==1) return vals[a]; size_t m=(a+b)/2; V l=muxRead(s,id,off,nb,lo,hi,step,vals,a,m),r=muxRead(s,id,off,nb,lo,hi,step,vals,m,b); if(same(l,r)) return l; V c=(b-a==2)?bEq(off,C(lo+a*step),64):bUlt(off,C(lo+m*step),64); return bIte(c,l,r,8*nb); }
static void offRange(State& s,int id,V off,int nb,uint64_t& lo,uint64_t& hi,uint64_t& step){ uint64_t sz=objs[id].size; hi=std::min<uint64_t>(uhi(off,64),sz-nb); lo=ulo(off,64); V cp=constPart(off); V var=bSub(off,cp,64); int tz=std::min(tzv(var),12); step=1ull<<tz; uint64_t res=cp.c&(step-1); if((lo&(step-1))!=res) lo+=((res-lo)&(step-1)); if(lo>hi){ lo=hi; } else hi=lo+((hi-lo)/step)*step; }
static V loadAt(State& s,int id,V off,int nb){ if(off.isc()) return readObj(s,id,off.c,nb); uint64_t lo,hi,st; offRange(s,id,off,nb,lo,hi,st); uint64_t n=(hi-lo)/st+1; if(n>70000) throw Unsup{"symbolic load over "+std::to_string(n)+" candidates at "+where(s)}; std::vector<V> vals; for(uint64_t o=lo;o<=hi;o+=st) vals.push_back(readObj(s,id,o,nb)); return muxRead(s,id,off,nb,lo,hi,st,vals,0,vals.size()); }
static void storeAt(State& s,int id,V off,V cond,V v,int nb){ if(off.isc()){ if(cond.isc()) writeObj(s,id,off.c,v,nb); else writeObj(s,id,off.c,bIte(cond,v,readObj(s,id,off.c,nb),8*nb),nb); return; }
    uint64_t lo,hi,st; offRange(s,id,off,nb,lo,hi,st); uint64_t n=(hi-lo)/st+1; if(n>70000) throw Unsup{"symbolic store over "+std::to_string(n)+" candidates"}; 
    if(st>=(uint64_t)nb||n==1){ for(uint64_t o=lo;o<=hi;o+=st){ V c=bAnd(cond,bEq(off,C(o),64),1); writeObj(s,id,o,bIte(c,v,readObj(s,id,o,nb),8*nb),nb); } }
    else { for(uint64_t o=lo;o<=hi;o+=st){ V c=bAnd(cond,bEq(off,C(o),64),1); for(int i=0;i<nb;i++){ V bv=bExtract(v,8*nb,8*i,8); writeObj(s,id,o+i,bIte(c,bv,readObj(s,id,o+i,1),8),1); } } } }
static V loadV(State& s,V addr,int nb,const char* acc="read"){ if(addr.isc()){ int id=findObj(addr.c); if(id>=0&&live(s,id)&&addr.c-objs[id].addr+nb<=objs[id].size) return readObj(s,id,addr.c-objs[id].addr,nb); } std::vector<Rs> r; resolve(s,addr,nb,r,acc); V v=loadAt(s,r.back().obj,r.back().off,nb); for(int i=(int)r.size()-2;i>=0;i--) v=bIte(r[i].cond,loadAt(s,r[i].obj,r[i].off,nb),v,8*nb); return v; }
static void storeV(State& s,V addr,V v,int nb){ std::vector<Rs> r; resolve(s,addr,nb,r,"write"); for(auto&x:r){ if(objs[x.obj].kind=='C'){ memError(s,C(1),"write to constant"); throw EndPath(); } storeAt(s,x.obj,x.off,r.size()==1?C(1):x.cond,v,nb); } }
static uint64_t conc1(State& s,V v,int w,const char* what); // concretise (forks)
static V ptrOff(V p,int64_t o){ return bAdd(p,C((uint64_t)o),64); }
static void copyBytes(State& s,V dst,V src,uint64_t n){ if(n==0) return; std::vector<Rs> rd,rs; resolve(s,src,n,rs,"read"); resolve(s,dst,n,rd,"write");
    if(rd.size()==1&&rs.size()==1&&rd[0].off.isc()&&rs[0].off.isc()){ int a=rd[0].obj,b=rs[0].obj; ObjP so=getObj(s,b); getObj(s,a); uint64_t do_=rd[0].off.c,so_=rs[0].off.c; ObjState snap; snap.b.assign(so->b.begin()+so_,so->b.begin()+so_+n); if(!so->s.empty()) snap.s.assign(so->s.begin()+so_,so->s.begin()+so_+n); so.reset(); ObjState* d=s.mem.wr(a); memcpy(&d->b[do_],snap.b.data(),n); if(!snap.s.empty()){ if(d->s.empty()) d->s.assign(d->b.size(),Cell{nullptr,0}); for(uint64_t i=0;i<n;i++) d->s[do_+i]=snap.s[i]; } else if(!d->s.empty()) for(uint64_t i=0;i<n;i++) d->s[do_+i].e=nullptr; return; }
    int u=1; uint64_t al=n; for(auto&r:rd) if(r.off.isc()) al|=r.off.c; else al|=1ull<<std::min(tzv(r.off),3); for(auto&r:rs) if(r.off.isc()) al|=r.off.c; else al|=1ull<<std::min(tzv(r.off),3); while(u<8&&!(al&u)) u*=2;
    std::vector<V> vals; for(uint64_t i=0;i<n;i+=u) vals.push_back(loadV(s,ptrOff(src,i),u)); for(uint64_t i=0;i<n;i+=u) storeV(s,ptrOff(dst,i),vals[i/u],u); }
static std::string readStr(State& s,V p,size_t max=4096){ std::string r; if(!p.isc()) return "<symbolic>"; int id=findObj(p.c); if(!live(s,id)) return "<bad>"; uint64_t off=p.c-objs[id].addr; while(off<objs[id].size&&r.size()<max){ V b=readObj(s,id,off,1); if(!b.isc()){ r+='?'; } else { if(!b.c) break; r+=(char)b.c; } off++; } return r; }

// ---------- states ----------
static State* cloneState(State& s){ State* t=new State(s); t->id=nextStateId++; nStates++; nForks++; return t; }
struct Restart {}; 
static uint64_t conc1(State& s,V v,int w,const char* what){ if(v.isc()) return v.c; ModelP mm; if(!s.models.empty()) mm=s.models.back(); else { std::vector<V> q; pcList(s,q); Res r=S->check(q,&mm,optBranchTO*4); if(r==UNSAT) throw EndPath(); if(r!=SAT) throw Unsup{std::string("cannot concretise ")+what}; addModel(s,mm); }
    uint64_t x=mm->eval(v); V eq=bEq(v,C(x),w); if(feasible(s,bNot(eq))!=UNSAT){ State* t=cloneState(s); addPC(*t,bNot(eq)); t->tags.push_back(-1-t->id); work.push_back(t); if(work.size()>3000) throw Unsup{"too many states"}; }
    addPC(s,eq); s.tags.push_back((long)x); return x; }

static int cmpFrames(const Frame& a,const Frame& b){ if(a.f!=b.f) return a.f<b.f?-1:1; const BInfo& A=a.f->blocks[a.bb]; const BInfo& B=b.f->blocks[b.bb]; size_t i=0; for(;;i++){ long ka=i<A.loops.size()?A.loops[i]:A.rpo, kb=i<B.loops.size()?B.loops[i]:B.rpo; if(ka!=kb) return ka<kb?-1:1; bool la=i<A.loops.size(),lb=i<B.loops.size(); if(la&&lb){ long ia=a.iters[i],ib=b.iters[i]; if(ia!=ib) return ia<ib?-1:1; continue; } if(la!=lb) return la?1:-1; break; } return a.ip<b.ip?-1:a.ip>b.ip?1:0; }
static int cmpStates(const State& a,const State& b){ if(a.th.size()>1||b.th.size()>1){ if(a.sched!=b.sched) return a.sched<b.sched?-1:1; if(a.th.size()!=b.th.size()) return a.th.size()<b.th.size()?-1:1; if(a.cur!=b.cur) return a.cur<b.cur?-1:1; if(a.needSched!=b.needSched) return a.needSched?1:-1; 
        int d=0; { auto&x=a.th[a.cur].fr; auto&y=b.th[a.cur].fr; for(size_t i=0;i<x.size()&&i<y.size()&&!d;i++) d=cmpFrames(*x[i],*y[i]); if(!d&&x.size()!=y.size()) d=x.size()>y.size()?-1:1; } if(d) return d;
        for(size_t t=0;t<a.th.size();t++){ auto&x=a.th[t]; auto&y=b.th[t]; if(x.st!=y.st) return x.st<y.st?-1:1; if(x.wobj!=y.wobj) return x.wobj<y.wobj?-1:1; for(size_t i=0;i<x.fr.size()&&i<y.fr.size();i++){ d=cmpFrames(*x.fr[i],*y.fr[i]); if(d) return d; } if(x.fr.size()!=y.fr.size()) return x.fr.size()>y.fr.size()?-1:1; }
        if(a.tags!=b.tags) return a.tags<b.tags?-1:1; if(a.mtx!=b.mtx) return a.mtx<b.mtx?-1:1; return 0; }
    auto&x=a.th[0].fr; auto&y=b.th[0].fr; for(size_t i=0;i<x.size()&&i<y.size();i++){ if(x[i]==y[i]) continue; int d=cmpFrames(*x[i],*y[i]); if(d) return d; } if(x.size()!=y.size()) return x.size()>y.size()?-1:1; if(a.tags!=b.tags) return a.tags<b.tags?-1:1; return 0; }
static bool mergeable(State& a,State& b){ if(!optMerge) return false; if(a.nomerge||b.nomerge) return false; if(a.symCnt!=b.symCnt) return false; if(a.th.size()!=b.th.size()) return false; if(a.mtx!=b.mtx) return false;
    for(size_t t=0;t<a.th.size();t++){ auto&x=a.th[t],&y=b.th[t]; if(x.caught.size()!=y.caught.size()) return false; for(size_t i=0;i<x.caught.size();i++) if(x.caught[i].ptr!=y.caught[i].ptr) return false; if(x.cur.ptr!=y.cur.ptr) return false; if(x.wmtx!=y.wmtx) return false;
        for(size_t i=0;i<x.fr.size();i++){ auto&f=*x.fr[i],&g=*y.fr[i]; if(&f==&g) continue; if(f.call!=g.call||f.varargs.size()!=g.varargs.size()) return false; for(size_t k=0;k<f.varargs.size();k++) if(!same(f.varargs[k],g.varargs[k])) return false; } } return true; }
static ObjP mergeObj(V c,ObjP a,ObjP b,uint64_t base){ if(!a||a==FREED) return (b&&b!=FREED)?b:(a?a:b); if(!b||b==FREED) return a; auto r=std::make_shared<ObjState>(*a); size_t n=a->b.size();
    auto cell=[&](ObjState& o,size_t i)->Cell{ return o.s.empty()?Cell{nullptr,0}:o.s[i]; };
    for(size_t i=0;i<n;){ Cell x=cell(*a,i),y=cell(*b,i); bool eq= x.e==y.e && (x.e?(x.e==UNINIT||x.idx==y.idx):a->b[i]==b->b[i]); if(eq){ i++; continue; }
        int nb=1; auto grp=[&](Cell& q,ObjState& o){ if(q.e&&q.e!=UNINIT&&q.idx==0&&q.e->w>8&&q.e->w%8==0){ int m=q.e->w/8; if(i+m>n) return 1; for(int k=1;k<m;k++){ Cell z=cell(o,i+k); if(z.e!=q.e||z.idx!=k) return 1; } return m; } return 1; };
        nb=std::max(grp(x,*a),grp(y,*b)); if(nb==1&&!x.e&&!y.e&&i%8==0&&i+8<=n){ bool ok=true; for(int k=0;k<8;k++) if(cell(*a,i+k).e||cell(*b,i+k).e) ok=false; if(ok) nb=8; }
        auto rd=[&](ObjState& o)->V{ V r=C(0); E e0=cell(o,i).e; if(e0&&e0!=UNINIT&&e0->w==8*nb&&cell(o,i).idx==0){ bool ok=true; for(int k=1;k<nb;k++){ Cell z=cell(o,i+k); if(z.e!=e0||z.idx!=k) ok=false; } if(ok) return X(e0); }
            for(int k=0;k<nb;k++){ Cell z=cell(o,i+k); V bv; if(z.e==UNINIT) bv=mkVar("uninit"+std::to_string(uninitCnt++),8); else if(z.e) bv=bExtract(X(z.e),z.e->w,z.idx*8,8); else bv=C(o.b[i+k]); r=k?bConcat(bv,8,r,8*k):bv; } return r; };
        if(nb==1&&(x.e==UNINIT||y.e==UNINIT)){ // keep the defined side
            if(x.e==UNINIT){ if(y.e){ if(r->s.empty()) r->s.assign(n,Cell{nullptr,0}); r->s[i]=y; } else { r->b[i]=b->b[i]; if(!r->s.empty()) r->s[i].e=nullptr; } } i++; continue; }
        V v=bIte(c,rd(*a),rd(*b),8*nb); writeRaw(r.get(),i,v,nb); i+=nb; }
    return r; }
static bool tryMerge(State& a,State& b){ // merges b into a
    if(!mergeable(a,b)) return false; PCNode* x=a.pc; PCNode* y=b.pc; while(x!=y){ if(!y||(x&&x->depth>=y->depth)) x=x->par; else y=y->par; } PCNode* common=x;
    V da=C(1),db=C(1); for(PCNode* n=a.pc;n!=common;n=n->par) da=bAnd(n->c,da,1); for(PCNode* n=b.pc;n!=common;n=n->par) db=bAnd(n->c,db,1);
    V c=da; // choose the syntactically smaller discriminator
    auto sz=[&](PCNode* p){ int k=0; for(;p!=common;p=p->par) k++; return k; }; bool inv=sz(b.pc)<sz(a.pc); if(inv) c=bNot(db);
    for(size_t t=0;t<a.th.size();t++) for(size_t i=0;i<a.th[t].fr.size();i++){ FrameP& fa=a.th[t].fr[i]; FrameP& fb=b.th[t].fr[i]; if(fa==fb) continue; if(fa.use_count()>1) fa=std::make_shared<Frame>(*fa); auto& W=fa->f->slotW; for(size_t k=0;k<fa->regs.size();k++) if(!same(fa->regs[k],fb->regs[k])) fa->regs[k]=bIte(c,fa->regs[k],fb->regs[k],W[k]); for(int al:fb->allocas) if(std::find(fa->allocas.begin(),fa->allocas.end(),al)==fa->allocas.end()) fa->allocas.push_back(al); }
    size_t nc=std::max(a.mem.ch.size(),b.mem.ch.size()); a.mem.ch.resize(nc); b.mem.ch.resize(nc);
    for(size_t k=0;k<nc;k++){ if(a.mem.ch[k]==b.mem.ch[k]) continue; if(!a.mem.ch[k]){ a.mem.ch[k]=b.mem.ch[k]; continue; } if(!b.mem.ch[k]) continue; for(int j=0;j<CH;j++){ ObjP p=a.mem.ch[k]->o[j],q=b.mem.ch[k]->o[j]; if(p==q) continue; ObjP r=mergeObj(c,p,q,0); if(r!=p) a.mem.set(k*CH+j,r); } }
    for(auto&kv:b.ctr){ auto it=a.ctr.find(kv.first); if(it==a.ctr.end()) a.ctr[kv.first]=bIte(c,C(0),kv.second,32); else it->second=bIte(c,it->second,kv.second,32); } for(auto&kv:a.ctr) if(!b.ctr.count(kv.first)) kv.second=bIte(c,kv.second,C(0),32);
    a.pc=common; std::vector<ModelP> ms=a.models; for(auto&m:b.models) if(ms.size()<10) ms.push_back(m); a.models.clear(); V d=bOr(da,db,1); if(!d.isc()){ a.pc=new PCNode{d,common,common?common->depth+1:1}; } a.models=ms; nMerges++; return true; }

// ---------- execution ----------
static void gotoBlock(State& s,Frame& f,BasicBlock* dst){ FInfo* fi=f.f; int from=f.bb,to=fi->bidx.at(dst); BInfo& B=fi->blocks[to]; BasicBlock* src=fi->blocks[from].bb;
    if(B.firstNonPhi){ VV tmp; std::vector<std::pair<int,int>> w; for(int i=0;i<B.firstNonPhi;i++){ DI& d=B.ins[i]; auto*ph=cast<PHINode>(d.I); int k=ph->getBasicBlockIndex(src); Opnd& o=d.ops[k]; const V* v=o.cv?o.cv:&f.regs[o.slot]; for(int j=0;j<o.n;j++) tmp.push_back(v[j]); w.push_back({d.dst,o.n}); } size_t k=0; for(auto&p:w) for(int j=0;j<p.second;j++) f.regs[p.first+j]=tmp[k++]; }
    // loop iteration bookkeeping
    auto& LA=fi->blocks[from].loops; std::vector<long> it; for(size_t i=0;i<B.loops.size();i++){ if(i<LA.size()&&LA[i]==B.loops[i]&&it.size()==i) it.push_back(f.iters[i]); else it.push_back(0); }
    if(B.isHeader&&!B.loops.empty()){ size_t d=B.loops.size()-1; if(d<LA.size()&&LA[d]==B.loops[d]){ it[d]++; if(it[d]>optMaxLoop&&(work.size()>0)) { if(getenv("LVDBG")) for(size_t q=s.trace.size()>60?s.trace.size()-60:0;q<s.trace.size();q++) fprintf(stderr,"%s%d ",s.trace[q].first.c_str(),s.trace[q].second); if(getenv("LVDBG")){ fprintf(stderr,"\n now=%lld",(long long)s.now); for(auto&t:s.th) fprintf(stderr," [st%d timed%d dl%lld]",t.st,(int)t.timed,(long long)t.deadline); fprintf(stderr,"\n"); } throw Unsup{"loop bound exceeded ("+std::to_string(optMaxLoop)+") at "+where(s)}; } } }
    f.iters.swap(it); f.bb=to; f.ip=B.firstNonPhi; }

static void pushCall(State& s,Function* F,const VV& args,DI* call,size_t fixedLanes){ if(F->isDeclaration()){ throw Unsup{"call to undefined "+demangle(F->getName().str())}; } FInfo* fi=finfo(F); fi->calls++; auto fr=std::make_shared<Frame>(); fr->f=fi; fr->regs.assign(fi->nslots,C(0)); size_t na=0; for(auto&a:F->args()) na+=lanes(a.getType()).size(); for(size_t i=0;i<na&&i<args.size();i++) fr->regs[i]=args[i]; if(F->isVarArg()) for(size_t i=na;i<args.size();i++) fr->varargs.push_back(args[i]); fr->call=call; fr->iters.assign(fi->blocks[0].loops.size(),0); if(s.th[s.cur].fr.size()>600) throw Unsup{"stack depth"}; s.th[s.cur].fr.push_back(fr);
    // byval args
    for(auto&a:F->args()) if(a.hasByValAttr()){ uint64_t sz=DL->getTypeAllocSize(a.getParamByValType()); int id=allocObj(s,sz,'S',"byval",0); int sl=fi->slot[&a]; V src=fr->regs[sl]; copyBytes(s,C(objs[id].addr),src,sz); top(s).regs[sl]=C(objs[id].addr); top(s).allocas.push_back(id); } }
static void setRet(State& s,DI& d,const VV& v){ if(d.dst<0) return; Frame& f=top(s); for(int i=0;i<d.nl&&i<(int)v.size();i++) f.regs[d.dst+i]=v[i]; }
static void popFrame(State& s){ Thread& t=s.th[s.cur]; for(int id:t.fr.back()->allocas) s.mem.set(id,FREED); t.fr.pop_back(); }
static void afterCall(State& s,DI& d){ Frame& f=top(s); if(auto*iv=dyn_cast<InvokeInst>(d.I)) gotoBlock(s,f,iv->getNormalDest()); else f.ip++; }
// --- exceptions ---
static uint64_t rd64(State& s,uint64_t a){ V v=loadV(s,C(a),8); if(!v.isc()) throw Unsup{"symbolic typeinfo"}; return v.c; }
static uint64_t symAddr(const char* n){ GlobalValue* g=M->getNamedValue(n); return g?globalAddr(g):0; }
static bool tiBase(State& s,uint64_t ti,uint64_t target,int64_t& off,uint64_t full=0,bool pub=false){ if(ti==target){ return true; } static uint64_t si=0,vmi=0; static bool init=false; if(!init){ init=true; si=symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"); vmi=symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); }
    int id=findObj(ti); if(id<0||objs[id].size<24) return false; uint64_t vt=rd64(s,ti); if(si&&vt==si+16) return tiBase(s,rd64(s,ti+16),target,off,full,pub);
    if(vmi&&vt==vmi+16){ uint64_t fc=rd64(s,ti+16); unsigned n=fc>>32; for(unsigned i=0;i<n;i++){ uint64_t b=rd64(s,ti+24+16*i); int64_t fl=(int64_t)rd64(s,ti+32+16*i); if(pub&&!(fl&2)) continue; int64_t o2=off+((fl&1)?(full?(int64_t)rd64(s,rd64(s,full+off)+(fl>>8)):0):(fl>>8)); if(tiBase(s,b,target,o2,full,pub)){ off=o2; return true; } } }
    return false; }
static std::map<uint64_t,int> typeIds; static int typeId(uint64_t ti){ auto it=typeIds.find(ti); if(it!=typeIds.end()) return it->second; int n=typeIds.size()+1; return typeIds[ti]=n; }
static std::map<uint64_t,uint64_t> excTI; static std::map<uint64_t,int64_t> excAdj;
static void doUnwind(State& s,Exc ex){ Thread& t=s.th[s.cur]; for(;;){ if(t.fr.empty()){ std::string n; int id=findObj(ex.ti); if(id>=0) n=demangle(objs[id].name); assertion(s,C(0),"uncaught","uncaught exception "+n); throw EndPath(); }
        Frame& f=top(s); DI& d=f.f->blocks[f.bb].ins[f.ip]; auto*iv=dyn_cast<InvokeInst>(d.I); if(!iv){ DI* c=f.call; (void)c; if(t.fr.size()==1){ std::string n; int id=findObj(ex.ti); if(id>=0) n=demangle(objs[id].name); assertion(s,C(0),"uncaught","uncaught exception "+n); throw EndPath(); } popFrame(s); continue; }
        BasicBlock* ub=iv->getUnwindDest(); auto*lp=ub->getLandingPadInst(); int sel=0; bool match=false; for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)){ VV c=evalConst(lp->getClause(i)); if(c[0].c==0){ match=true; sel=typeId(0); break; } int64_t off=0; if(tiBase(s,ex.ti,c[0].c,off)){ match=true; sel=typeId(c[0].c); excAdj[ex.ptr]=off; break; } } else { match=true; sel=-1; break; } }
        if(!match&&!lp->isCleanup()){ popFrame(s); if(t.fr.empty()) continue; continue; }
        gotoBlock(s,f,ub); Frame& g=top(s); t.cur=ex; DI& ld=g.f->blocks[g.bb].ins[g.ip]; // landingpad
        if(ld.dst>=0){ g.regs[ld.dst]=C(ex.ptr); g.regs[ld.dst+1]=C((uint32_t)sel); } g.ip++; return; } }

static void endThread(State& s);
static void doRet(State& s,const VV& rv){ Thread& t=s.th[s.cur]; DI* c=t.fr.back()->call; popFrame(s); if(t.fr.empty()){ if(s.cur==0&&s.th.size()==1) throw EndPath(); endThread(s); return; } if(!c) throw EndPath(); setRet(s,*c,rv); afterCall(s,*c); }

static V popcnt(V v,int w){ V r=C(0); if(v.isc()) return C(__builtin_popcountll(v.c)); std::vector<V> b; int rw=8; for(int i=0;i<w;i++) b.push_back(bZext(bExtract(v,w,i,1),1,rw)); while(b.size()>1){ std::vector<V> n; for(size_t i=0;i+1<b.size();i+=2) n.push_back(bAdd(b[i],b[i+1],rw)); if(b.size()%2) n.push_back(b.back()); b.swap(n); } return w>rw?bZext(b[0],rw,w):bTrunc(b[0],rw,w); }
static V fneg(V a,int w){ return bXor(a,C(1ull<<(w-1)),w); }
static V fabs_(V a,int w){ V r=bAnd(a,C(mask(w-1)),w); if(!a.isc()&&a.e->op==SITOFP){ int wi=a.e->kw[0]; V x=a.e->k[0]; if(slo(x,wi)>=0) return a; return fFromSI(bIte(bSlt(x,C(0),wi),bSub(C(0),x,wi),x,wi),wi,w); } 
    if(!a.isc()&&a.e->op==FSUB) return bIte(fCmp(FLT,a,C(0),w),fneg(a,w),a,w).e? r:r; return r; }
static V fnegS(V a,int w){ if(!a.isc()&&a.e->op==SITOFP&&(slo(a.e->k[0],a.e->kw[0])>0||shi(a.e->k[0],a.e->kw[0])<0)) return fFromSI(bSub(C(0),a.e->k[0],a.e->kw[0]),a.e->kw[0],w); return fneg(a,w); }
static V icmpV(CmpInst::Predicate p,V a,V b,int w){ switch(p){ case CmpInst::ICMP_EQ: return bEq(a,b,w); case CmpInst::ICMP_NE: return bNot(bEq(a,b,w)); case CmpInst::ICMP_ULT: return bUlt(a,b,w); case CmpInst::ICMP_ULE: return bUle(a,b,w); case CmpInst::ICMP_UGT: return bUlt(b,a,w); case CmpInst::ICMP_UGE: return bUle(b,a,w); case CmpInst::ICMP_SLT: return bSlt(a,b,w); case CmpInst::ICMP_SLE: return bSle(a,b,w); case CmpInst::ICMP_SGT: return bSlt(b,a,w); case CmpInst::ICMP_SGE: return bSle(b,a,w); default: abort(); } }
static V fcmpV(CmpInst::Predicate p,V a,V b,int w){ V un=C(0); auto U=[&](){ return fCmp(FUNO,a,b,w); }; switch(p){ case CmpInst::FCMP_OEQ: return fCmp(FEQ,a,b,w); case CmpInst::FCMP_OLT: return fCmp(FLT,a,b,w); case CmpInst::FCMP_OLE: return fCmp(FLE,a,b,w); case CmpInst::FCMP_OGT: return fCmp(FLT,b,a,w); case CmpInst::FCMP_OGE: return fCmp(FLE,b,a,w); case CmpInst::FCMP_ONE: return bOr(fCmp(FLT,a,b,w),fCmp(FLT,b,a,w),1); case CmpInst::FCMP_ORD: return bNot(U()); case CmpInst::FCMP_UNO: return U(); case CmpInst::FCMP_UNE: return bNot(fCmp(FEQ,a,b,w)); case CmpInst::FCMP_UEQ: return bOr(fCmp(FEQ,a,b,w),U(),1); case CmpInst::FCMP_ULT: return bNot(fCmp(FLE,b,a,w)); case CmpInst::FCMP_ULE: return bNot(fCmp(FLT,b,a,w)); case CmpInst::FCMP_UGT: return bNot(fCmp(FLE,a,b,w)); case CmpInst::FCMP_UGE: return bNot(fCmp(FLT,a,b,w)); case CmpInst::FCMP_TRUE: return C(1); case CmpInst::FCMP_FALSE: return C(0); default: abort(); } }
static bool isFP(Type* T){ return T->getScalarType()->isFloatingPointTy(); }
// re-slice lanes for bitcasts
static VV reslice(const V* v,const std::vector<Lane>& A,const std::vector<Lane>& B){ VV r; // bit stream little-endian
    size_t ia=0; int pa=0; for(auto&b:B){ V acc=C(0); int got=0; while(got<b.w){ int av=A[ia].w-pa; int t=std::min(av,b.w-got); V p=bExtract(v[ia],A[ia].w,pa,t); acc=got?bConcat(p,t,acc,got):p; got+=t; pa+=t; if(pa==A[ia].w){ ia++; pa=0; } } r.push_back(acc); } return r; }
static void branchTo(State& s,V c,BasicBlock* t,BasicBlock* f){
    Res rt=feasible(s,c); Res rf=rt==UNSAT?SAT:feasible(s,bNot(c));
    if(rt!=UNSAT&&rf!=UNSAT){ State* o=cloneState(s); addPC(*o,bNot(c)); addPC(s,c); gotoBlock(*o,top(*o),f); gotoBlock(s,top(s),t); work.push_back(o); maxLive=std::max<long>(maxLive,work.size()+1); if(work.size()>4000) throw Unsup{"too many live states"}; }
    else if(rt!=UNSAT) gotoBlock(s,top(s),t); else gotoBlock(s,top(s),f); }
static void guardDiv(State& s,V b,int w){ if(b.isc()){ if(b.c==0){ memError(s,C(1),"integer division by zero"); throw EndPath(); } return; } if(ulo(b,w)>0) return; V z=bEq(b,C(0),w); if(feasible(s,z)!=UNSAT){ memError(s,z,"integer division by zero"); addPC(s,bNot(z)); if(feasible(s,C(1))==UNSAT) throw EndPath(); } }
static void schedule(State& s,const char* why);
#include "intrinsics.inc"
static void execCall(State& s,DI& d){ Frame& f=top(s); CallBase* cb=cast<CallBase>(d.I); VV args; size_t na=cb->arg_size(); for(size_t i=0;i<na;i++){ Opnd& o=d.ops[i]; const V* v=o.cv?o.cv:(o.slot>=0?&f.regs[o.slot]:nullptr); if(v) args.insert(args.end(),v,v+o.n); }
    if(d.intr){ execIntr(s,d,args); return; }
    if(cb->isInlineAsm()){ setRet(s,d,VV(d.nl,C(0))); afterCall(s,d); return; }
    Function* F=d.callee; Handler h=(Handler)d.handler;
    if(!F){ Opnd& o=d.ops[na]; V p=o.cv?o.cv[0]:f.regs[o.slot]; uint64_t a; if(p.isc()) a=p.c; else { std::vector<std::pair<V,V>> lv; leaves(p,C(1),lv,0); a=conc1(s,p,64,"function pointer"); } auto it=fnAt.find(a); if(it==fnAt.end()){ memError(s,C(1),"call through invalid function pointer"); throw EndPath(); } F=it->second; auto hh=handlers.find(F->getName().str()); if(hh!=handlers.end()) h=hh->second; }
    if(h){ h(s,d,args); return; }
    if(F->isDeclaration()){ if(extCall(s,d,F,args)) return; throw Unsup{"call to undefined function "+demangle(F->getName().str())+" at "+where(s)}; }
    pushCall(s,F,args,&d,0); }
static void step(State& s){ Frame& f=top(s); BInfo& B=f.f->blocks[f.bb]; DI& d=B.ins[f.ip]; nSteps++; s.steps++;
    auto op=[&](int i)->const V*{ Opnd& o=d.ops[i]; return o.cv?o.cv:&f.regs[o.slot]; };
    switch(d.opc){
    case Instruction::Br: { auto*b=cast<BranchInst>(d.I); if(b->isUnconditional()) gotoBlock(s,f,b->getSuccessor(0)); else { V c=op(0)[0]; if(c.isc()) gotoBlock(s,f,b->getSuccessor(c.c?0:1)); else branchTo(s,c,b->getSuccessor(0),b->getSuccessor(1)); } return; }
    case Instruction::Switch: { auto*sw=cast<SwitchInst>(d.I); V c=op(0)[0]; int w=sw->getCondition()->getType()->getIntegerBitWidth(); if(c.isc()){ BasicBlock* t=sw->getDefaultDest(); for(auto cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==c.c){ t=cs.getCaseSuccessor(); break; } gotoBlock(s,f,t); return; }
        std::map<BasicBlock*,V> conds; std::vector<BasicBlock*> ord; V def=C(1); for(auto cs:sw->cases()){ V e=bEq(c,C(cs.getCaseValue()->getZExtValue()),w); def=bAnd(def,bNot(e),1); BasicBlock* b=cs.getCaseSuccessor(); if(!conds.count(b)){ conds[b]=e; ord.push_back(b);} else conds[b]=bOr(conds[b],e,1); } BasicBlock* db=sw->getDefaultDest(); if(!conds.count(db)){ conds[db]=def; ord.push_back(db);} else conds[db]=bOr(conds[db],def,1);
        std::vector<BasicBlock*> feas; for(auto*b:ord) if(feasible(s,conds[b])!=UNSAT) feas.push_back(b); if(feas.empty()) throw EndPath(); for(size_t i=1;i<feas.size();i++){ State* o=cloneState(s); addPC(*o,conds[feas[i]]); gotoBlock(*o,top(*o),feas[i]); work.push_back(o); } addPC(s,conds[feas[0]]); gotoBlock(s,top(s),feas[0]); return; }
    case Instruction::Ret: { VV rv; if(d.ops.size()){ const V* v=op(0); rv.assign(v,v+d.ops[0].n); } doRet(s,rv); return; }
    case Instruction::Unreachable: throw EndPath();
    case Instruction::Call: case Instruction::Invoke: execCall(s,d); return;
    case Instruction::Resume: { Exc ex=s.th[s.cur].cur; const V* v=op(0); ex.ptr=v[0].c; auto it=excTI.find(ex.ptr); if(it!=excTI.end()) ex.ti=it->second; if(s.th[s.cur].fr.size()==1){ std::string n; int id=findObj(ex.ti); if(id>=0) n=demangle(objs[id].name); assertion(s,C(0),"uncaught","uncaught exception "+n); throw EndPath(); } popFrame(s); doUnwind(s,ex); return; }
    case Instruction::Alloca: { auto*ai=cast<AllocaInst>(d.I); uint64_t n=op(0)[0].isc()?op(0)[0].c:conc1(s,op(0)[0],64,"alloca"); Frame& g=top(s); uint64_t sz=(uint64_t)DL->getTypeAllocSize(ai->getAllocatedType())*n; int id=allocObj(s,sz,'S',ai->getName().str(),1); g.allocas.push_back(id); g.regs[d.dst]=C(objs[id].addr); g.ip++; return; }
    case Instruction::Load: { auto&L=lanes(d.I->getType()); V a=op(0)[0]; if(L.size()>1&&!a.isc()){ std::vector<Rs> r; resolve(s,a,(uint64_t)DL->getTypeStoreSize(d.I->getType()),r,"read"); }
        VV out; if(auto*VT=dyn_cast<FixedVectorType>(d.I->getType())) if(VT->getElementType()->isIntegerTy(1)){ int n=VT->getNumElements(); for(int i=0;i<n;i+=8){ V v=loadV(s,ptrOff(a,i/8),1); for(int k=0;k<8&&i+k<n;k++) out.push_back(bExtract(v,8,k,1)); } Frame& g=top(s); for(size_t i=0;i<out.size();i++) g.regs[d.dst+i]=out[i]; g.ip++; return; }
        for(auto&l:L){ int nb=(l.w+7)/8; if(l.k=='x') nb=8; V v=loadV(s,ptrOff(a,l.off),nb); if(l.w<8*nb) v=bTrunc(v,8*nb,l.w); out.push_back(v); } Frame& g=top(s); for(size_t i=0;i<out.size();i++) g.regs[d.dst+i]=out[i]; g.ip++; return; }
    case Instruction::Store: { Type* T=cast<StoreInst>(d.I)->getValueOperand()->getType(); auto&L=lanes(T); V a=op(1)[0]; VV v(op(0),op(0)+L.size()); if(auto*VT=dyn_cast<FixedVectorType>(T)) if(VT->getElementType()->isIntegerTy(1)){ int n=VT->getNumElements(); if(!a.isc()){ std::vector<Rs> r; resolve(s,a,(n+7)/8,r,"write"); } for(int i=0;i<n;i+=8){ V x=v[i]; int w=1; for(int k=1;k<8&&i+k<n;k++){ x=bConcat(v[i+k],1,x,w); w++; } storeV(s,ptrOff(a,i/8),bZext(x,w,8),1); } top(s).ip++; return; } if(L.size()>1&&!a.isc()){ std::vector<Rs> r; resolve(s,a,(uint64_t)DL->getTypeStoreSize(T),r,"write"); } for(size_t i=0;i<L.size();i++){ int nb=(L[i].w+7)/8; storeV(s,ptrOff(a,L[i].off),bZext(v[i],L[i].w,nb*8),nb); } top(s).ip++; return; }
    case Instruction::GetElementPtr: { V a=op(0)[0]; if(d.nl!=1) throw Unsup{"vector gep"}; a=bAdd(a,C((uint64_t)d.gepOff),64); for(auto&p:d.gepVar){ V ix=op(p.first)[0]; int w=d.I->getOperand(p.first)->getType()->getIntegerBitWidth(); a=bAdd(a,bMul(bSext(ix,w,64),C((uint64_t)p.second),64),64); } f.regs[d.dst]=a; f.ip++; return; }
    case Instruction::PHI: f.ip++; return;
    case Instruction::Select: { auto*se=cast<SelectInst>(d.I); const V* c=op(0); const V* a=op(1); const V* b=op(2); auto&L=lanes(d.I->getType()); bool vc=se->getCondition()->getType()->isVectorTy(); VV o; for(int i=0;i<d.nl;i++) o.push_back(bIte(c[vc?i:0],a[i],b[i],L[i].w)); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=o[i]; f.ip++; return; }
    case Instruction::ICmp: { auto*ic=cast<ICmpInst>(d.I); Type* T=d.I->getOperand(0)->getType(); auto&L=lanes(T); const V* a=op(0); const V* b=op(1); if((int)L.size()!=d.nl){ V e=C(1); for(size_t i=0;i<L.size();i++) e=bAnd(e,bEq(a[i],b[i],L[i].w),1); if(ic->getPredicate()==CmpInst::ICMP_EQ) f.regs[d.dst]=e; else if(ic->getPredicate()==CmpInst::ICMP_NE) f.regs[d.dst]=bNot(e); else if(L.size()==2){ auto p=ic->getPredicate(); V hl=icmpV(ICmpInst::getStrictPredicate(p),a[1],b[1],L[1].w); V ll=icmpV(ICmpInst::getUnsignedPredicate(p),a[0],b[0],64); f.regs[d.dst]=bOr(hl,bAnd(bEq(a[1],b[1],L[1].w),ll,1),1); } else throw Unsup{"wide icmp"}; } else { VV o; for(int i=0;i<d.nl;i++) o.push_back(icmpV(ic->getPredicate(),a[i],b[i],L[i].w)); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=o[i]; } f.ip++; return; }
    case Instruction::FCmp: { auto*fc=cast<FCmpInst>(d.I); auto&L=lanes(d.I->getOperand(0)->getType()); const V* a=op(0); const V* b=op(1); VV o; for(int i=0;i<d.nl;i++) o.push_back(fcmpV(fc->getPredicate(),a[i],b[i],L[i].w)); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=o[i]; f.ip++; return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        auto&L=lanes(d.I->getType()); VV a(op(0),op(0)+d.nl),b(op(1),op(1)+d.nl); VV o; bool wide=d.I->getType()->isIntegerTy()&&d.nl>1;
        if(wide){ wideArith(s,d,a,b,L,o); }
        else for(int i=0;i<d.nl;i++){ int w=L[i].w; switch(d.opc){ case Instruction::Add: o.push_back(bAdd(a[i],b[i],w)); break; case Instruction::Sub: o.push_back(bSub(a[i],b[i],w)); break; case Instruction::Mul: o.push_back(bMul(a[i],b[i],w)); break;
            case Instruction::UDiv: guardDiv(s,b[i],w); o.push_back(bUdiv(a[i],b[i],w)); break; case Instruction::SDiv: guardDiv(s,b[i],w); o.push_back(bSdiv(a[i],b[i],w)); break; case Instruction::URem: guardDiv(s,b[i],w); o.push_back(bUrem(a[i],b[i],w)); break; case Instruction::SRem: guardDiv(s,b[i],w); o.push_back(bSrem(a[i],b[i],w)); break;
            case Instruction::And: o.push_back(bAnd(a[i],b[i],w)); break; case Instruction::Or: o.push_back(bOr(a[i],b[i],w)); break; case Instruction::Xor: o.push_back(bXor(a[i],b[i],w)); break; case Instruction::Shl: o.push_back(bShl(a[i],b[i],w)); break; case Instruction::LShr: o.push_back(bLshr(a[i],b[i],w)); break; case Instruction::AShr: o.push_back(bAshr(a[i],b[i],w)); break; } }
        Frame& g=top(s); for(int i=0;i<d.nl;i++) g.regs[d.dst+i]=o[i]; g.ip++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { auto&L=lanes(d.I->getType()); const V* a=op(0); const V* b=op(1); VV o; Op k=d.opc==Instruction::FAdd?FADD:d.opc==Instruction::FSub?FSUB:d.opc==Instruction::FMul?FMUL:FDIV; for(int i=0;i<d.nl;i++) o.push_back(fBin(k,a[i],b[i],L[i].w)); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=o[i]; f.ip++; return; }
    case Instruction::FRem: { auto&L=lanes(d.I->getType()); const V* a=op(0); const V* b=op(1); for(int i=0;i<d.nl;i++){ if(!a[i].isc()||!b[i].isc()) throw Unsup{"symbolic frem"}; if(L[i].w==64){ double x,y; memcpy(&x,&a[i].c,8); memcpy(&y,&b[i].c,8); double r=fmod(x,y); uint64_t u; memcpy(&u,&r,8); f.regs[d.dst+i]=C(u);} else { float x,y; memcpy(&x,&a[i].c,4); memcpy(&y,&b[i].c,4); float r=fmodf(x,y); uint32_t u; memcpy(&u,&r,4); f.regs[d.dst+i]=C(u);} } f.ip++; return; }
    case Instruction::FNeg: { auto&L=lanes(d.I->getType()); VV a(op(0),op(0)+d.nl); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=fnegS(a[i],L[i].w); f.ip++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { auto&LA=lanes(d.I->getOperand(0)->getType()); auto&LB=lanes(d.I->getType()); VV a(op(0),op(0)+LA.size()); VV o; if(d.I->getType()->isIntegerTy()&&(LA.size()>1||LB.size()>1)){ if(d.opc==Instruction::Trunc){ for(size_t i=0;i<LB.size();i++) o.push_back(bTrunc(a[i],LA[i].w,LB[i].w)); } else { for(size_t i=0;i<LB.size();i++){ if(i<LA.size()) o.push_back(d.opc==Instruction::ZExt?bZext(a[i],LA[i].w,LB[i].w):bSext(a[i],LA[i].w,LB[i].w)); else o.push_back(d.opc==Instruction::ZExt?C(0):bSext(bExtract(o[i-1],64,63,1),1,LB[i].w)); } } }
        else for(size_t i=0;i<LB.size();i++) o.push_back(d.opc==Instruction::Trunc?bTrunc(a[i],LA[i].w,LB[i].w):d.opc==Instruction::ZExt?bZext(a[i],LA[i].w,LB[i].w):bSext(a[i],LA[i].w,LB[i].w)); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=o[i]; f.ip++; return; }
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: { auto&LA=lanes(d.I->getOperand(0)->getType()); auto&LB=lanes(d.I->getType()); VV a(op(0),op(0)+LA.size()); for(int i=0;i<d.nl;i++){ int wa=LA[i].w,wb=LB[i].w; V r; switch(d.opc){ case Instruction::FPTrunc: r=wa==wb?a[i]:fTrunc(a[i]); break; case Instruction::FPExt: r=wa==wb?a[i]:fExt(a[i]); if(LB[i].k=='x'&&LA[i].w==32) r=fExt(a[i]); break; case Instruction::FPToSI: r=fToSI(a[i],wa,wb); break; case Instruction::FPToUI: r=fToUI(a[i],wa,wb); break; case Instruction::SIToFP: r=fFromSI(a[i],wa,wb); break; default: r=fFromUI(a[i],wa,wb); } f.regs[d.dst+i]=r; } f.ip++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { auto&LA=lanes(d.I->getOperand(0)->getType()); auto&LB=lanes(d.I->getType()); VV a(op(0),op(0)+LA.size()); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=LA[i].w>=LB[i].w?bTrunc(a[i],LA[i].w,LB[i].w):bZext(a[i],LA[i].w,LB[i].w); f.ip++; return; }
    case Instruction::BitCast: { auto&LA=lanes(d.I->getOperand(0)->getType()); auto&LB=lanes(d.I->getType()); VV o=reslice(op(0),LA,LB); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=o[i]; f.ip++; return; }
    case Instruction::Freeze: { VV a(op(0),op(0)+d.nl); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=a[i]; f.ip++; return; }
    case Instruction::ExtractValue: { auto*ev=cast<ExtractValueInst>(d.I); Type* T=ev->getAggregateOperand()->getType(); int base=0; for(unsigned ix:ev->indices()){ for(unsigned k=0;k<ix;k++) base+=lanes(T->isStructTy()?T->getStructElementType(k):T->getArrayElementType()).size(); T=T->isStructTy()?T->getStructElementType(ix):T->getArrayElementType(); } VV a(op(0)+base,op(0)+base+d.nl); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=a[i]; f.ip++; return; }
    case Instruction::InsertValue: { auto*iv=cast<InsertValueInst>(d.I); Type* T=iv->getType(); int base=0; for(unsigned ix:iv->indices()){ for(unsigned k=0;k<ix;k++) base+=lanes(T->isStructTy()?T->getStructElementType(k):T->getArrayElementType()).size(); T=T->isStructTy()?T->getStructElementType(ix):T->getArrayElementType(); } VV a(op(0),op(0)+d.nl); for(int i=0;i<d.ops[1].n;i++) a[base+i]=op(1)[i]; for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=a[i]; f.ip++; return; }
    case Instruction::ExtractElement: { V ix=op(1)[0]; int n=d.ops[0].n; int w=lanes(d.I->getType())[0].w; V r; int iw=d.I->getOperand(1)->getType()->getIntegerBitWidth(); if(ix.isc()) r=ix.c<(uint64_t)n?op(0)[ix.c]:C(0); else { r=op(0)[n-1]; for(int i=n-2;i>=0;i--) r=bIte(bEq(ix,C(i),iw),op(0)[i],r,w); } f.regs[d.dst]=r; f.ip++; return; }
    case Instruction::InsertElement: { V ix=op(2)[0]; VV a(op(0),op(0)+d.nl); V e=op(1)[0]; int w=lanes(d.I->getType())[0].w; int iw=d.I->getOperand(2)->getType()->getIntegerBitWidth(); if(ix.isc()){ if(ix.c<a.size()) a[ix.c]=e; } else for(size_t i=0;i<a.size();i++) a[i]=bIte(bEq(ix,C(i),iw),e,a[i],w); for(int i=0;i<d.nl;i++) f.regs[d.dst+i]=a[i]; f.ip++; return; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(d.I); VV a(op(0),op(0)+d.ops[0].n),b(op(1),op(1)+d.ops[1].n); int n=a.size(); int i=0; for(int m:sv->getShuffleMask()){ f.regs[d.dst+i++]=m<0?C(0):m<n?a[m]:b[m-n]; } f.ip++; return; }
    case Instruction::LandingPad: throw Unsup{"landingpad executed"};
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(d.I); if(s.th.size()>1&&!s.needSched&&atomicSched(s)) return; V a=op(0)[0],v=op(1)[0]; int w=lanes(d.I->getType())[0].w,nb=w/8; V old=loadV(s,a,nb); V nv; switch(rm->getOperation()){ case AtomicRMWInst::Add: nv=bAdd(old,v,w); break; case AtomicRMWInst::Sub: nv=bSub(old,v,w); break; case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::And: nv=bAnd(old,v,w); break; case AtomicRMWInst::Or: nv=bOr(old,v,w); break; case AtomicRMWInst::Xor: nv=bXor(old,v,w); break; default: throw Unsup{"atomicrmw"}; } storeV(s,a,nv,nb); Frame& g=top(s); g.regs[d.dst]=old; g.ip++; return; }
    case Instruction::AtomicCmpXchg: { V a=op(0)[0],c=op(1)[0],n=op(2)[0]; int w=lanes(d.I->getOperand(1)->getType())[0].w,nb=w/8; V old=loadV(s,a,nb); V eq=bEq(old,c,w); storeV(s,a,bIte(eq,n,old,w),nb); Frame& g=top(s); g.regs[d.dst]=old; g.regs[d.dst+1]=eq; g.ip++; return; }
    case Instruction::VAArg: throw Unsup{"va_arg"};
    }
    throw Unsup{std::string("instruction ")+d.I->getOpcodeName()};
}
static void runLoop(){
    // states with different choice tags never merge: explore one tag group at a time (depth first), parking the others
    std::map<std::vector<long>,std::vector<State*>> parked; std::vector<long> active; bool haveActive=false;
    struct PG { decltype(parked)& p; ~PG(){ for(auto&kv:p) for(auto*x:kv.second) delete x; } } pg{parked};
    while((!work.empty()||!parked.empty())&&!stopAll){
        try { checkBudget(); } catch(Unsup& u){ undecided.insert(u.m); for(auto*x:work) delete x; work.clear(); return; }
        if(haveActive) for(size_t i=0;i<work.size();){ if(work[i]->th.size()==1&&work[i]->tags!=active){ parked[work[i]->tags].push_back(work[i]); work[i]=work.back(); work.pop_back(); } else i++; }
        if(work.empty()){ if(parked.empty()) break; auto it=std::prev(parked.end()); active=it->first; haveActive=true; work=std::move(it->second); parked.erase(it); }
        else if(!haveActive&&work[0]->th.size()==1){ active=work[0]->tags; haveActive=true; continue; }
        // choose the earliest state, merging those at the same point
        size_t mi=0; bool dfs=!optMerge&&work.back()->th.size()>1; if(dfs) mi=work.size()-1; else for(size_t i=1;i<work.size();i++) if(cmpStates(*work[i],*work[mi])<0) mi=i;
        State* s=work[mi]; work[mi]=work.back(); work.pop_back();
        if(!dfs) for(size_t i=0;i<work.size();){ if(cmpStates(*work[i],*s)==0&&tryMerge(*s,*work[i])){ delete work[i]; work[i]=work.back(); work.pop_back(); } else i++; }
        bool dead=false;
        try {
            for(long n=0;;n++){
                if(s->needSched){ schedule(*s,""); if(s->needSched) break; if(!dfs&&!work.empty()) break; }
                Thread& t=s->th[s->cur]; size_t depth=t.fr.size(); Frame* fp=t.fr.back().get(); int bb=fp->bb; step(*s);
                if(dfs){ if((n&255)==0) checkBudget(); if(stopAll) break; continue; }
                if(s->needSched) break;
                if(!work.empty()){ Thread& t2=s->th[s->cur]; if(t2.fr.size()!=depth||t2.fr.back()->bb!=bb||work.size()>0&&t2.fr.back()->ip<=t2.fr.back()->f->blocks[t2.fr.back()->bb].firstNonPhi) break; }
                if((n&1023)==0) checkBudget();
                if(stopAll) break;
            }
        } catch(EndPath&){ dead=true; }
        catch(Unsup& u){ undecided.insert(u.m); if(verbose) fprintf(stderr,"UNSUPPORTED: %s at %s\n",u.m.c_str(),where(*s).c_str()); dead=true; if(u.m.find("budget")!=std::string::npos||u.m.find("too many")!=std::string::npos){ delete s; for(auto*x:work) delete x; work.clear(); return; } }
        catch(std::string& m){ undecided.insert(m); dead=true; }
        if(dead) delete s; else work.push_back(s);
    }
}
static std::string jstr(const std::string& s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r+"\""; }
int main(int argc,char** argv){
    std::string bc,entry; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return std::string(argv[++i]); }; if(a=="-entry") entry=nx(); else if(a=="-spur") optSpur=std::stoi(nx()); else if(a=="-tmo") optTmo=std::stoi(nx()); else if(a=="-o") optOut=nx(); else if(a=="-cex") optCex=nx(); else if(a=="-budget") optBudget=atof(nx().c_str()); else if(a=="-j") optJobs=atoi(nx().c_str()); else if(a=="-ato") optAssertTO=atoi(nx().c_str())*1000; else if(a=="-bto") optBranchTO=atoi(nx().c_str())*1000; else if(a=="-maxloop") optMaxLoop=atol(nx().c_str()); else if(a=="-nomerge") optMerge=false; else if(a=="-ctx") optMaxCtx=atoi(nx().c_str()); else if(a=="-v") verbose++; else bc=a; }
    now(); LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if(!mod){ err.print("lvsym",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout(); S=new Solver(); initHandlers();
    newObjId(0,'0',"null"); 
    Function* F=M->getFunction(entry); if(!F){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
    State* s=new State(); s->id=nextStateId++; s->th.resize(1); s->models.push_back(std::make_shared<Model>());
    try {
        // static initialisers
        std::vector<Function*> ctors; if(auto*gc=M->getNamedGlobal("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())){ std::vector<std::pair<int,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(cs->getOperand(1))) v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) ctors.push_back(p.second); }
        for(auto*f:ctors){ pushCall(*s,f,{},nullptr,0); try { while(true) step(*s); } catch(EndPath&){} catch(Unsup& u){ if(verbose) fprintf(stderr,"ctor %s: %s\n",f->getName().str().c_str(),u.m.c_str()); } s->th[0].fr.clear(); if(!work.empty()){ for(auto*x:work) delete x; work.clear(); } }
        for(auto&kv:finfos) kv.second->calls=0;
        pushCall(*s,F,{},nullptr,0); work.push_back(s);
    } catch(Unsup& u){ undecided.insert(u.m); }
    runLoop();
    try { pump(true,0); } catch(...){ }
    // output
    std::ostringstream o; o<<"{\n\"entry\":"<<jstr(entry)<<",\n\"violations\":["; for(size_t i=0;i<viols.size();i++){ auto&v=viols[i]; o<<(i?",":"")<<"\n {\"kind\":"<<jstr(v.kind)<<",\"msg\":"<<jstr(v.msg)<<",\"where\":"<<jstr(v.where)<<",\"cex\":"<<jstr(v.cex)<<"}"; } o<<"],\n\"undecided\":["; int k=0; for(auto&u:undecided) o<<(k++?",":"")<<jstr(u); o<<"],\n\"checks\":{"; k=0; for(auto&c:checkStat) o<<(k++?",":"")<<"\n "<<jstr(c.first)<<":["<<c.second.first<<","<<c.second.second<<"]"; o<<"},\n\"covered\":["; k=0; for(auto&c:covered) o<<(k++?",":"")<<jstr(c); o<<"],\n\"inputs\":{"; k=0; for(auto&in:inputs) o<<(k++?",":"")<<jstr(in.name)<<":"<<in.vars.size()*in.ew; o<<"},\n\"functions\":["; k=0; std::set<std::string> fnset; for(auto&kv:finfos){ FInfo* f=kv.second; if(!f->calls) continue; auto add=[&](llvm::DISubprogram* sp,const std::string& nm){ if(!sp) return; std::string file=(sp->getDirectory()+"/"+sp->getFilename()).str(); if(sp->getFilename().starts_with("/")) file=sp->getFilename().str(); size_t q=file.find("/repo/"); if(q==std::string::npos) return; fnset.insert(nm.substr(0,160)+" @"+file.substr(q+6)); }; add(kv.first->getSubprogram(),f->dem); for(auto&bb:*kv.first) for(auto&ins:bb) for(llvm::DILocation* dl=ins.getDebugLoc().get();dl;dl=dl->getInlinedAt()) if(dl->getInlinedAt()){ auto*sp=dl->getScope()->getSubprogram(); add(sp,sp->getName().str()); } } for(auto&z:fnset) o<<(k++?",":"")<<"\n "<<jstr(z); o<<"],\n\"stubs\":{"; k=0; for(auto&c:stubCalls) o<<(k++?",":"")<<jstr(c.first)<<":"<<c.second; 
    o<<"},\n\"stats\":{\"steps\":"<<nSteps<<",\"states\":"<<nStates<<",\"forks\":"<<nForks<<",\"merges\":"<<nMerges<<",\"max_live\":"<<maxLive<<",\"sched_points\":"<<nSched<<",\"queries\":"<<S->st.queries<<",\"assert_queries\":"<<nAssertQ<<",\"sat\":"<<S->st.sat<<",\"unsat\":"<<S->st.unsat<<",\"unknown\":"<<S->st.unknown<<",\"cache_hits\":"<<S->st.cacheHits<<",\"solver_s\":"<<S->st.secs<<",\"wall_s\":"<<now()<<",\"exprs\":"<<P.all.size()<<",\"vars\":"<<P.vars.size()<<"}\n}\n";
    if(optOut.empty()) { std::cout<<o.str(); std::cout.flush(); } else { std::ofstream f(optOut); f<<o.str(); }
    _exit(viols.empty()?0:1);
}
