#include "solver.h"
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <poll.h>
Solver* S;
uint64_t Model::eval(V v0) const {
    if(v0.isc()) return v0.c; 
    if(memo.size()<P.all.size()){ memo.resize(P.all.size()+1024); have.resize(P.all.size()+1024); }
    std::vector<E> st; st.push_back(v0.e);
    while(!st.empty()){ E e=st.back(); if(have[e->id]){ st.pop_back(); continue; }
        if(e->op==VAR){ memo[e->id]=var(e->k[0].c)&mask(e->w); have[e->id]=1; st.pop_back(); continue; }
        if(e->op==ITE){ V c=e->k[0]; if(c.e&&!have[c.e->id]){ st.push_back(c.e); continue; } uint64_t cv=c.e?memo[c.e->id]:c.c; V b=cv?e->k[1]:e->k[2]; if(b.e&&!have[b.e->id]){ st.push_back(b.e); continue; } memo[e->id]=b.e?memo[b.e->id]:b.c; have[e->id]=1; st.pop_back(); continue; }
        bool ok=true; uint64_t kv[3]; for(int i=0;i<e->nk;i++){ V k=e->k[i]; if(k.e){ if(!have[k.e->id]){ st.push_back(k.e); ok=false; } else kv[i]=memo[k.e->id]; } else kv[i]=k.c; }
        if(!ok) continue; memo[e->id]=evalOp(e,kv); have[e->id]=1; st.pop_back(); }
    return memo[v0.e->id];
}
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); }
Solver::Solver(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,errh); }
Z3_ast Solver::b2bv(Z3_ast b){ return Z3_mk_ite(ctx,b,Z3_mk_unsigned_int64(ctx,1,bv(1)),Z3_mk_unsigned_int64(ctx,0,bv(1))); }
Z3_ast Solver::ast(V v,int w){
    if(v.isc()) return w==1?(v.c?Z3_mk_true(ctx):Z3_mk_false(ctx)):Z3_mk_unsigned_int64(ctx,v.c,bv(w));
    if(memo.size()<P.all.size()) memo.resize(P.all.size()+4096,nullptr);
    if(memo[v.e->id]) return memo[v.e->id];
    std::vector<E> st; st.push_back(v.e);
    while(!st.empty()){ E e=st.back(); if(memo[e->id]){ st.pop_back(); continue; } bool ok=true; for(int i=0;i<e->nk;i++) if(e->k[i].e&&!memo[e->k[i].e->id]){ st.push_back(e->k[i].e); ok=false; } if(!ok) continue; memo[e->id]=build(e); st.pop_back(); }
    return memo[v.e->id];
}
Z3_ast Solver::fast(V v,int w){ // as FP sort
    if(v.isc()) return Z3_mk_fpa_to_fp_bv(ctx,ast(v,w),fps(w));
    ast(v,w);
    if(fmemo.size()<P.all.size()) fmemo.resize(P.all.size()+4096,nullptr);
    Z3_ast& r=fmemo[v.e->id]; if(r) return r;
    Z3_ast x=buildF(v.e); return fmemo[v.e->id]=x;
}
Z3_ast Solver::buildF(E e){
    Z3_ast rne=Z3_mk_fpa_rne(ctx); int w=e->w;
    auto F=[&](int i){ return fast(e->k[i],e->kw[i]); };
    switch(e->op){
    case FADD: return Z3_mk_fpa_add(ctx,rne,F(0),F(1)); case FSUB: return Z3_mk_fpa_sub(ctx,rne,F(0),F(1));
    case FMUL: return Z3_mk_fpa_mul(ctx,rne,F(0),F(1)); case FDIV: return Z3_mk_fpa_div(ctx,rne,F(0),F(1));
    case FSQRT: return Z3_mk_fpa_sqrt(ctx,rne,F(0)); case FMA: return Z3_mk_fpa_fma(ctx,rne,F(0),F(1),F(2));
    case SITOFP: return Z3_mk_fpa_to_fp_signed(ctx,rne,ast(e->k[0],e->kw[0]),fps(w));
    case UITOFP: return Z3_mk_fpa_to_fp_unsigned(ctx,rne,ast(e->k[0],e->kw[0]),fps(w));
    case FPEXT: case FPTRUNC: return Z3_mk_fpa_to_fp_float(ctx,rne,F(0),fps(w));
    case FROUNDI: { Z3_ast rm=e->aux==0?rne:e->aux==1?Z3_mk_fpa_rtn(ctx):e->aux==2?Z3_mk_fpa_rtp(ctx):e->aux==3?Z3_mk_fpa_rtz(ctx):Z3_mk_fpa_rna(ctx); return Z3_mk_fpa_round_to_integral(ctx,rm,F(0)); }
    case ITE: if(e->fp) return Z3_mk_ite(ctx,ast(e->k[0],1),F(1),F(2));
    default: return Z3_mk_fpa_to_fp_bv(ctx,ast(X(e),w),fps(w));
    }
}
Z3_ast Solver::build(E e){
    int w=e->w; Z3_ast a[3]={0,0,0};
    if(e->op==VAR){ std::string n="v"+std::to_string(e->k[0].c); Z3_symbol s=Z3_mk_string_symbol(ctx,n.c_str()); return Z3_mk_const(ctx,s,w==1?Z3_mk_bool_sort(ctx):bv(w)); }
    if(e->op>=FADD&&e->op<=FMA){
        Z3_ast rtz=Z3_mk_fpa_rtz(ctx);
        switch(e->op){
        case FEQ: return Z3_mk_fpa_eq(ctx,fast(e->k[0],e->kw[0]),fast(e->k[1],e->kw[1]));
        case FLT: return Z3_mk_fpa_lt(ctx,fast(e->k[0],e->kw[0]),fast(e->k[1],e->kw[1]));
        case FLE: return Z3_mk_fpa_leq(ctx,fast(e->k[0],e->kw[0]),fast(e->k[1],e->kw[1]));
        case FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ctx,fast(e->k[0],e->kw[0])),Z3_mk_fpa_is_nan(ctx,fast(e->k[1],e->kw[1]))}; return Z3_mk_or(ctx,2,x); }
        case FPTOSI: { // x86 semantics: out of range -> INT_MIN
            Z3_ast f=fast(e->k[0],e->kw[0]); Z3_sort fs=fps(e->kw[0]); double lim=std::ldexp(1.0,w-1); Z3_ast rne=Z3_mk_fpa_rne(ctx); (void)rne;
            Z3_ast t=Z3_mk_fpa_round_to_integral(ctx,rtz,f); Z3_ast in[2]={Z3_mk_fpa_lt(ctx,t,Z3_mk_fpa_numeral_double(ctx,lim,fs)),Z3_mk_fpa_geq(ctx,t,Z3_mk_fpa_numeral_double(ctx,-lim,fs))};
            return Z3_mk_ite(ctx,Z3_mk_and(ctx,2,in),Z3_mk_fpa_to_sbv(ctx,rtz,f,w),Z3_mk_unsigned_int64(ctx,1ull<<(w-1),bv(w))); }
        case FPTOUI: { Z3_ast f=fast(e->k[0],e->kw[0]); Z3_sort fs=fps(e->kw[0]); Z3_ast in[2]={Z3_mk_fpa_lt(ctx,f,Z3_mk_fpa_numeral_double(ctx,std::ldexp(1.0,w),fs)),Z3_mk_fpa_gt(ctx,f,Z3_mk_fpa_numeral_double(ctx,-1.0,fs))};
            return Z3_mk_ite(ctx,Z3_mk_and(ctx,2,in),Z3_mk_fpa_to_ubv(ctx,rtz,f,w),Z3_mk_unsigned_int64(ctx,1ull<<(w-1),bv(w))); }
        default: { Z3_ast f=buildF(e); if(fmemo.size()<P.all.size()) fmemo.resize(P.all.size()+4096,nullptr); fmemo[e->id]=f; return Z3_mk_fpa_to_ieee_bv(ctx,f); }
        }
    }
    if(e->op==UF){ std::string n=P.ufs[e->aux]; Z3_func_decl& fd=ufd[n]; if(!fd){ Z3_sort ds[3]; for(int i=0;i<e->nk;i++) ds[i]=bv(e->kw[i]); fd=Z3_mk_func_decl(ctx,Z3_mk_string_symbol(ctx,("uf_"+n).c_str()),e->nk,ds,bv(w)); } for(int i=0;i<e->nk;i++) a[i]=ast(e->k[i],e->kw[i]); return Z3_mk_app(ctx,fd,e->nk,a); }
    for(int i=0;i<e->nk;i++) a[i]=ast(e->k[i],e->kw[i]);
    auto nb=[&](int i){ return e->kw[i]==1?b2bv(a[i]):a[i]; };
    Z3_ast r;
    switch(e->op){
    case ADD: if(w==1) return Z3_mk_xor(ctx,a[0],a[1]); return Z3_mk_bvadd(ctx,a[0],a[1]); case SUB: if(w==1) return Z3_mk_xor(ctx,a[0],a[1]); return Z3_mk_bvsub(ctx,a[0],a[1]); case MUL: if(w==1) return Z3_mk_and(ctx,2,a); return Z3_mk_bvmul(ctx,a[0],a[1]);
    case UDIV: return Z3_mk_bvudiv(ctx,a[0],a[1]); case SDIV: return Z3_mk_bvsdiv(ctx,a[0],a[1]); case UREM: return Z3_mk_bvurem(ctx,a[0],a[1]); case SREM: return Z3_mk_bvsrem(ctx,a[0],a[1]);
    case AND: return w==1?Z3_mk_and(ctx,2,a):Z3_mk_bvand(ctx,a[0],a[1]); case OR: return w==1?Z3_mk_or(ctx,2,a):Z3_mk_bvor(ctx,a[0],a[1]);
    case XOR: if(w==1) return e->k[1].isc()?Z3_mk_not(ctx,a[0]):Z3_mk_xor(ctx,a[0],a[1]); if(e->k[1].isc()&&e->k[1].c==mask(w)) return Z3_mk_bvnot(ctx,a[0]); return Z3_mk_bvxor(ctx,a[0],a[1]);
    case SHL: return Z3_mk_bvshl(ctx,a[0],a[1]); case LSHR: return Z3_mk_bvlshr(ctx,a[0],a[1]); case ASHR: return Z3_mk_bvashr(ctx,a[0],a[1]);
    case EQ: return Z3_mk_eq(ctx,a[0],a[1]); case ULT: return Z3_mk_bvult(ctx,a[0],a[1]); case SLT: return Z3_mk_bvslt(ctx,a[0],a[1]);
    case ITE: return Z3_mk_ite(ctx,a[0],a[1],a[2]);
    case ZEXT: return Z3_mk_zero_ext(ctx,w-e->kw[0],nb(0)); case SEXT: return Z3_mk_sign_ext(ctx,w-e->kw[0],nb(0));
    case EXTRACT: r=Z3_mk_extract(ctx,e->aux+w-1,e->aux,a[0]); return w==1?Z3_mk_eq(ctx,r,Z3_mk_unsigned_int64(ctx,1,bv(1))):r;
    case CONCAT: return Z3_mk_concat(ctx,nb(0),nb(1));
    }
    fprintf(stderr,"build op %d\n",e->op); abort();
}
static bool anyFP(const std::vector<V>& c){ for(auto&v:c) if(v.e&&v.e->fp) return true; return false; }
static bool anyUF(const std::vector<V>& c){ for(auto&v:c) if(v.e&&v.e->uf) return true; return false; }
static void collectVars(const std::vector<V>& c,std::vector<int>& out){ std::vector<uint8_t> seen(P.all.size()); std::vector<E> st; for(auto&v:c) if(v.e) st.push_back(v.e); while(!st.empty()){ E e=st.back(); st.pop_back(); if(seen[e->id]) continue; seen[e->id]=1; if(e->op==VAR) out.push_back(e->k[0].c); for(int i=0;i<e->nk;i++) if(e->k[i].e) st.push_back(e->k[i].e); } }
Res Solver::check(const std::vector<V>& conj,ModelP* m,unsigned timeout_ms){
    for(auto&v:conj) if(v.isc()&&!v.c) return UNSAT;
    auto t0=std::chrono::steady_clock::now(); st.queries++;
    const char* tn=anyUF(conj)?"smt":anyFP(conj)?"qffpbv":"qfbv";
    Z3_tactic t=Z3_mk_tactic(ctx,tn); Z3_tactic_inc_ref(ctx,t);
    Z3_solver s=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,s);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeout_ms); Z3_solver_set_params(ctx,s,p);
    for(auto&v:conj) if(!v.isc()) Z3_solver_assert(ctx,s,ast(v,1));
    Z3_lbool r=Z3_solver_check(ctx,s); Res res=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNKNOWN;
    if(res==SAT&&m){ Z3_model zm=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,zm); auto mp=std::make_shared<Model>(); mp->val.assign(P.vars.size(),0); std::vector<int> vs; collectVars(conj,vs);
        for(int i:vs){ Z3_ast out; if(Z3_model_eval(ctx,zm,ast(X(P.varE[i]),P.vars[i].w),true,&out)){ uint64_t u=0; if(P.vars[i].w==1) u=Z3_get_bool_value(ctx,out)==Z3_L_TRUE; else Z3_get_numeral_uint64(ctx,out,&u); mp->val[i]=u; } }
        Z3_model_dec_ref(ctx,zm); *m=mp; }
    Z3_params_dec_ref(ctx,p); Z3_solver_dec_ref(ctx,s); Z3_tactic_dec_ref(ctx,t);
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); st.secs+=dt;
    if(res==SAT) st.sat++; else if(res==UNSAT) st.unsat++; else st.unknown++;
    return res;
}
// ---------------------------------------------------------------------------------------------------------------
// Structural sweeping: before a hard query is sent to z3, internal nodes that random simulation suggests are equal
// are proven equal bottom-up (each proof is itself a z3 query, first with already-merged nodes cut to free variables)
// and merged. Only proven equalities are used, so the rewritten query is equisatisfiable under the path condition.
static V rebuild(E e,const V* k){ int w=e->w; const uint8_t* kw=e->kw;
    switch(e->op){
    case ADD: return bAdd(k[0],k[1],w); case SUB: return bSub(k[0],k[1],w); case MUL: return bMul(k[0],k[1],w); case UDIV: return bUdiv(k[0],k[1],w); case SDIV: return bSdiv(k[0],k[1],w); case UREM: return bUrem(k[0],k[1],w); case SREM: return bSrem(k[0],k[1],w);
    case AND: return bAnd(k[0],k[1],w); case OR: return bOr(k[0],k[1],w); case XOR: return bXor(k[0],k[1],w); case SHL: return bShl(k[0],k[1],w); case LSHR: return bLshr(k[0],k[1],w); case ASHR: return bAshr(k[0],k[1],w);
    case EQ: return bEq(k[0],k[1],kw[0]); case ULT: return bUlt(k[0],k[1],kw[0]); case SLT: return bSlt(k[0],k[1],kw[0]); case ITE: return bIte(k[0],k[1],k[2],w);
    case ZEXT: return bZext(k[0],kw[0],w); case SEXT: return bSext(k[0],kw[0],w); case EXTRACT: return bExtract(k[0],kw[0],e->aux,w); case CONCAT: return bConcat(k[0],kw[0],k[1],kw[1]);
    case FADD: case FSUB: case FMUL: case FDIV: return fBin((Op)e->op,k[0],k[1],w); case FSQRT: return fSqrt(k[0],w); case FEQ: case FLT: case FLE: case FUNO: return fCmp((Op)e->op,k[0],k[1],kw[0]);
    case FPTOSI: return fToSI(k[0],kw[0],w); case FPTOUI: return fToUI(k[0],kw[0],w); case SITOFP: return fFromSI(k[0],kw[0],w); case UITOFP: return fFromUI(k[0],kw[0],w); case FPEXT: return fExt(k[0]); case FPTRUNC: return fTrunc(k[0]); case FROUNDI: return fRoundI(k[0],w,e->aux); case FMA: return fFma(k[0],k[1],k[2],w);
    default: return mk((Op)e->op,w,e->nk,k[0],kw[0],k[1],kw[1],k[2],kw[2],e->aux); } }
static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static V substitute(V v,std::unordered_map<E,V>& sub){ if(v.isc()) return v; std::vector<E> st{v.e}; while(!st.empty()){ E e=st.back(); if(sub.count(e)){ st.pop_back(); continue; } if(e->op==VAR){ sub[e]=X(e); st.pop_back(); continue; } bool ok=true; for(int i=0;i<e->nk;i++) if(e->k[i].e&&!sub.count(e->k[i].e)){ st.push_back(e->k[i].e); ok=false; } if(!ok) continue; V k[3]={C(0),C(0),C(0)}; bool ch=false; for(int i=0;i<e->nk;i++){ k[i]=e->k[i].e?sub[e->k[i].e]:e->k[i]; ch|=!same(k[i],e->k[i]); } sub[e]=ch?rebuild(e,k):X(e); st.pop_back(); } return sub[v.e]; }
static uint64_t rs=88172645463325252ull; static uint64_t rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; }
long sweepMerged=0,sweepTried=0;
// returns true when the conjunction was shown unsatisfiable by cutting, otherwise rewrites q.back()
static bool sweep(std::vector<V>& q,const std::vector<ModelP>& seed,double budget,ModelP& found){
    double t0=nowS(); V goal=q.back(); if(goal.isc()) return false; std::vector<V> pc(q.begin(),q.end()-1);
    // topological order of the goal's cone
    std::vector<E> ord; { std::unordered_map<E,int> seen; std::vector<std::pair<E,int>> st{{goal.e,0}}; seen[goal.e]=1; while(!st.empty()){ E e=st.back().first; int i=st.back().second++; if(i<e->nk){ E c=e->k[i].e; if(c&&!seen.count(c)){ seen[c]=1; st.push_back({c,0}); } } else { ord.push_back(e); st.pop_back(); } } }
    if(ord.size()>60000) return false;
    { // order by depth so both sides of the comparison advance together
        std::unordered_map<E,int> dep; for(E e:ord){ int d=0; for(int i=0;i<e->nk;i++) if(e->k[i].e) d=std::max(d,dep[e->k[i].e]+1); dep[e]=d; } std::stable_sort(ord.begin(),ord.end(),[&](E a,E b){ return dep[a]<dep[b]; }); }
    std::vector<int> vs; collectVars(q,vs);
    std::vector<ModelP> ms; std::vector<uint64_t> base(P.vars.size(),0);
    auto sat=[&](Model& m){ for(auto&v:pc) if(!m.eval(v)) return false; return true; };
    auto rv=[&](int w)->uint64_t{ uint64_t r=rnd(); switch(rnd()%8){ case 0: return r%4; case 1: return mask(w)-(r%4); case 2: return r&0xff; case 3: return (1ull<<(w-1))+(r%3)-1; default: return r; } };
    int okc=0; bool usePC=false; const int NM=40;
    for(int t=0;t<NM*3&&(int)ms.size()<NM;t++){ auto m=std::make_shared<Model>(); m->val.assign(P.vars.size(),0); uint64_t eqv=rnd(); bool eqm=t%5==4; for(int i:vs) m->val[i]=(eqm&&rnd()%2?eqv:rv(P.vars[i].w))&mask(P.vars[i].w); if(pc.empty()||sat(*m)){ ms.push_back(m); okc++; } }
    if((int)ms.size()<NM&&!pc.empty()){ usePC=true; std::vector<ModelP> pool=ms; for(auto&m:seed){ auto c=std::make_shared<Model>(); c->val=m->val; c->val.resize(P.vars.size(),0); if(sat(*c)){ pool.push_back(c); ms.push_back(c);} }
        if(pool.empty()){ ModelP m; std::vector<V> qq=pc; if(S->check(qq,&m,3000)==SAT&&m){ m->val.resize(P.vars.size(),0); pool.push_back(m); ms.push_back(m); } }
        if(!pool.empty()) for(int t=0;t<NM*12&&(int)ms.size()<NM;t++){ auto& b=pool[rnd()%pool.size()]; auto m=std::make_shared<Model>(); m->val=b->val; int n=1+rnd()%3; for(int i=0;i<n;i++){ int v=vs[rnd()%vs.size()]; m->val[v]=rv(P.vars[v].w)&mask(P.vars[v].w); } if(sat(*m)){ ms.push_back(m); pool.push_back(m); } } }
    for(auto&m:ms) if((!usePC||sat(*m))&&m->eval(goal)){ found=m; return false; }
    if(ms.size()<6) return false;
    auto sig=[&](V v,int w,bool& neg){ uint64_t h=1469598103934665603ull; neg=false; uint64_t first=ms[0]->eval(v); if(w==1&&first){ neg=true; } for(auto&m:ms){ uint64_t x=m->eval(v); if(neg) x^=1; h=(h^x)*1099511628211ull; h^=h>>29; } return h; };
    std::unordered_map<uint64_t,std::vector<std::pair<V,int>>> cls; std::unordered_map<E,V> sub; std::set<E> cut;
    auto prove=[&](V ne,unsigned to)->bool{ // is ne unsatisfiable (with pc if needed)?
        if(ne.isc()) return !ne.c; sweepTried++;
        if(!cut.empty()){ 
            // fresh variables for cut nodes inside ne's cone only (excluding roots)
            static std::unordered_map<E,V> fresh; std::vector<V> side; std::unordered_map<E,V> m2; std::vector<E> st; std::set<E> seen; for(int i=0;i<ne.e->nk;i++) if(ne.e->k[i].e) for(int j=0;j<ne.e->k[i].e->nk;j++) if(ne.e->k[i].e->k[j].e) st.push_back(ne.e->k[i].e->k[j].e);
            bool any=false; while(!st.empty()){ E e=st.back(); st.pop_back(); if(!seen.insert(e).second) continue; if(cut.count(e)&&e->op!=VAR){ V& f=fresh[e]; if(!f.e){ f=mkVar("cut"+std::to_string(e->id),e->w); } m2[e]=f; any=true; if(e->w>1){ if(e->lo>0) side.push_back(bUle(C(e->lo),f,e->w)); if(e->hi<mask(e->w)) side.push_back(bUle(f,C(e->hi),e->w)); if(e->slo>sx(1ull<<(e->w-1),e->w)) side.push_back(bSle(C((uint64_t)e->slo&mask(e->w)),f,e->w)); if(e->shi<(int64_t)(mask(e->w)>>1)) side.push_back(bSle(f,C((uint64_t)e->shi&mask(e->w)),e->w)); } continue; } for(int i=0;i<e->nk;i++) if(e->k[i].e) st.push_back(e->k[i].e); }
            if(any){ V c=substitute(ne,m2); if(c.isc()){ if(!c.c) return true; } else { side.push_back(c); if(S->check(side,nullptr,to/2+50)==UNSAT) return true; } } }
        std::vector<V> qq; if(usePC) qq=pc; qq.push_back(ne); ModelP m; Res r=S->check(qq,&m,to); if(r==UNSAT) return true; 
        return false; };
    for(E e:ord){ if(nowS()-t0>budget) break; V n; if(e->op==VAR) n=X(e); else { V k[3]={C(0),C(0),C(0)}; for(int i=0;i<e->nk;i++){ V c=e->k[i]; if(c.e){ auto it=sub.find(c.e); k[i]=it==sub.end()?c:it->second; } else k[i]=c; } n=rebuild(e,k); }
        if(n.isc()){ sub[e]=n; continue; }
        if(e==goal.e){ sub[e]=n; break; }
        bool neg; uint64_t h=sig(n,e->w,neg); 
        if(e->op!=VAR){ // constant candidate
            uint64_t v0=ms[0]->eval(n); bool allc=true; for(auto&m:ms) if(m->eval(n)!=v0){ allc=false; break; }
            if(allc&&ms.size()>=20&&prove(bNot(bEq(n,C(v0),e->w)),400)){ sub[e]=C(v0); sweepMerged++; continue; } }
        auto& L=cls[h]; bool done=false; int tries=0; for(auto&r:L){ if(same(r.first,n)){ done=true; break; } }
        if(!done) for(auto&r:L){ if(++tries>2) break; V cand=r.first; bool rneg; if(e->w==1){ if(r.second!=1) continue; uint64_t f0=ms[0]->eval(r.first); rneg=f0!=0; if(rneg!=neg) cand=bNot(cand); }
            else { if(r.second==1) continue; }
            int w=e->w,rw=r.second,mw=std::max(w,rw); V ne=bNot(bEq(bZext(n,w,mw),bZext(cand,rw,mw),mw));
            if(prove(ne,800)){ V t=rw==w?cand:rw<w?bZext(cand,rw,w):bTrunc(cand,rw,w); n=t; done=true; sweepMerged++; if(cand.e) cut.insert(cand.e); break; } }
        if(!done&&e->op!=VAR) L.push_back({n,e->w}); else if(e->op==VAR) L.push_back({n,e->w});
        if(done&&n.e) cut.insert(n.e);
        sub[e]=n; }
    V g; { auto it=sub.find(goal.e); if(it!=sub.end()) g=it->second; else g=substitute(goal,sub); }
    q.back()=g; if(g.isc()) return !g.c;
    if(prove(g,(unsigned)std::max(1000.0,std::min(20000.0,(budget-(nowS()-t0))*1000)))) return true;
    return false; }
Res Solver::checkHard(std::vector<V> q,ModelP* m,unsigned to,const std::vector<ModelP>& seed){
    double t0=nowS(); Res r=check(q,m,std::min(to,4000u)); if(r!=UNKNOWN) return r;
    std::vector<V> q2=q; ModelP fm; if(sweep(q2,seed,to*0.0005,fm)) return UNSAT; if(fm&&m){ *m=fm; return SAT; }
    double left=to/1000.0-(nowS()-t0); if(left<2) left=2;
    if(q2.back().isc()) return q2.back().c?check(std::vector<V>(q2.begin(),q2.end()-1),m,(unsigned)(left*1000)):UNSAT;
    r=check(q2,m,(unsigned)(left*1000)); return r; }
