#include "expr.h"
#include <cfenv>
ExprPool P;
static inline float asF(uint64_t v){ uint32_t u=(uint32_t)v; float f; memcpy(&f,&u,4); return f; }
static inline double asD(uint64_t v){ double d; memcpy(&d,&v,8); return d; }
static inline uint64_t fromF(float f){ uint32_t u; memcpy(&u,&f,4); return u; }
static inline uint64_t fromD(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
static const char* opn[]={"var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","fsqrt","feq","flt","fle","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","froundi","fma","uf"};

static double roundMode(double d,int m){ switch(m){ case 0: return std::nearbyint(d); case 1: return std::floor(d); case 2: return std::ceil(d); case 3: return std::trunc(d); default: return std::round(d);} }
static uint64_t ufEval(const std::string& n,int w,const uint64_t* kv,int nk,const uint8_t* kw){
    if(w==64){ double a=asD(kv[0]),b=nk>1?asD(kv[1]):0;
        if(n=="exp")return fromD(exp(a)); if(n=="log")return fromD(log(a)); if(n=="cos")return fromD(cos(a)); if(n=="sin")return fromD(sin(a)); if(n=="pow")return fromD(pow(a,b));
        if(n=="acos")return fromD(acos(a)); if(n=="asin")return fromD(asin(a)); if(n=="atan")return fromD(atan(a)); if(n=="atan2")return fromD(atan2(a,b)); if(n=="tan")return fromD(tan(a)); if(n=="fmod")return fromD(fmod(a,b)); if(n=="exp2")return fromD(exp2(a)); if(n=="hypot")return fromD(hypot(a,b)); if(n=="cosh")return fromD(cosh(a)); if(n=="sinh")return fromD(sinh(a)); if(n=="cbrt")return fromD(cbrt(a)); if(n=="tgamma")return fromD(tgamma(a)); if(n=="lgamma")return fromD(lgamma(a)); if(n=="log2")return fromD(log2(a)); if(n=="log10")return fromD(log10(a));
    } else if(w==32){ float a=asF(kv[0]),b=nk>1?asF(kv[1]):0;
        if(n=="expf")return fromF(expf(a)); if(n=="logf")return fromF(logf(a)); if(n=="cosf")return fromF(cosf(a)); if(n=="sinf")return fromF(sinf(a)); if(n=="powf")return fromF(powf(a,b)); if(n=="log2f")return fromF(log2f(a));if(n=="log10f")return fromF(log10f(a)); if(n=="acosf")return fromF(acosf(a)); if(n=="atan2f")return fromF(atan2f(a,b)); if(n=="fmodf")return fromF(fmodf(a,b)); if(n=="exp2f")return fromF(exp2f(a)); if(n=="tanf")return fromF(tanf(a)); if(n=="asinf")return fromF(asinf(a)); if(n=="atanf")return fromF(atanf(a)); if(n=="hypotf")return fromF(hypotf(a,b)); }
    uint64_t h=0x1234; for(int i=0;i<nk;i++) h=hmix(h,kv[i]); return h&mask(w);
}
uint64_t evalOp(const Expr* e,const uint64_t* k){
    int w=e->w; uint64_t m=mask(w); int w0=e->kw[0];
    switch(e->op){
    case ADD: return (k[0]+k[1])&m; case SUB: return (k[0]-k[1])&m; case MUL: return (k[0]*k[1])&m;
    case UDIV: return k[1]?k[0]/k[1]:m;
    case SDIV: { int64_t a=sx(k[0],w),b=sx(k[1],w); if(!b) return a<0?1:m; if(b==-1) return (uint64_t)(0-(uint64_t)a)&m; return (uint64_t)(a/b)&m; }
    case UREM: return k[1]?k[0]%k[1]:k[0];
    case SREM: { int64_t a=sx(k[0],w),b=sx(k[1],w); if(!b) return k[0]; if(b==-1) return 0; return (uint64_t)(a%b)&m; }
    case AND: return k[0]&k[1]; case OR: return k[0]|k[1]; case XOR: return k[0]^k[1];
    case SHL: return k[1]>=(uint64_t)w?0:(k[0]<<k[1])&m; case LSHR: return k[1]>=(uint64_t)w?0:k[0]>>k[1];
    case ASHR: { int64_t a=sx(k[0],w); return (uint64_t)(a>>(k[1]>=(uint64_t)w?w-1:k[1]))&m; }
    case EQ: return k[0]==k[1]; case ULT: return k[0]<k[1]; case SLT: return sx(k[0],w0)<sx(k[1],w0);
    case ITE: return k[0]?k[1]:k[2]; case ZEXT: return k[0]; case SEXT: return (uint64_t)sx(k[0],w0)&m;
    case EXTRACT: return (k[0]>>e->aux)&m; case CONCAT: return ((k[0]<<e->kw[1])|k[1])&m;
    case FADD: return w==32?fromF(asF(k[0])+asF(k[1])):fromD(asD(k[0])+asD(k[1]));
    case FSUB: return w==32?fromF(asF(k[0])-asF(k[1])):fromD(asD(k[0])-asD(k[1]));
    case FMUL: return w==32?fromF(asF(k[0])*asF(k[1])):fromD(asD(k[0])*asD(k[1]));
    case FDIV: return w==32?fromF(asF(k[0])/asF(k[1])):fromD(asD(k[0])/asD(k[1]));
    case FSQRT: return w==32?fromF(sqrtf(asF(k[0]))):fromD(sqrt(asD(k[0])));
    case FEQ: return w0==32?asF(k[0])==asF(k[1]):asD(k[0])==asD(k[1]);
    case FLT: return w0==32?asF(k[0])<asF(k[1]):asD(k[0])<asD(k[1]);
    case FLE: return w0==32?asF(k[0])<=asF(k[1]):asD(k[0])<=asD(k[1]);
    case FUNO: return w0==32?(std::isnan(asF(k[0]))||std::isnan(asF(k[1]))):(std::isnan(asD(k[0]))||std::isnan(asD(k[1])));
    case FPTOSI: { double d=w0==32?asF(k[0]):asD(k[0]); if(!(d>-9.3e18&&d<9.3e18)) return (1ull<<(w-1))&m; double t=std::trunc(d); double lim=std::ldexp(1.0,w-1); if(t>=lim||t<-lim) return (1ull<<(w-1))&m; return (uint64_t)(int64_t)t&m; }
    case FPTOUI: { double d=w0==32?asF(k[0]):asD(k[0]); double lim=std::ldexp(1.0,w); if(!(d>-1.0&&d<lim)) return (1ull<<(w-1))&m; return (uint64_t)d&m; }
    case SITOFP: return w==32?fromF((float)sx(k[0],w0)):fromD((double)sx(k[0],w0));
    case UITOFP: return w==32?fromF((float)k[0]):fromD((double)k[0]);
    case FPEXT: return fromD((double)asF(k[0])); case FPTRUNC: return fromF((float)asD(k[0]));
    case FROUNDI: return w==32?fromF((float)roundMode(asF(k[0]),e->aux)):fromD(roundMode(asD(k[0]),e->aux));
    case FMA: return w==32?fromF(fmaf(asF(k[0]),asF(k[1]),asF(k[2]))):fromD(fma(asD(k[0]),asD(k[1]),asD(k[2])));
    case UF: return ufEval(P.ufs[e->aux],w,k,e->nk,e->kw);
    }
    fprintf(stderr,"evalOp bad op %d\n",e->op); abort();
}

static void setRange(Expr* e){
    int w=e->w; uint64_t m=mask(w); uint64_t lo=0,hi=m; int64_t sl=sx(1ull<<(w-1),w), sh=(int64_t)(m>>1); bool haveS=false; uint8_t tz=0;
    V a=e->k[0],b=e->k[1],c=e->k[2]; int wa=e->kw[0],wb=e->kw[1];
    switch(e->op){
    case ADD: { unsigned __int128 h=(unsigned __int128)uhi(a,w)+uhi(b,w); if(h<=m){ lo=ulo(a,w)+ulo(b,w); hi=(uint64_t)h; }
        __int128 l1=(__int128)slo(a,w)+slo(b,w), h1=(__int128)shi(a,w)+shi(b,w); if(l1>=sl&&h1<=sh){ sl=(int64_t)l1; sh=(int64_t)h1; haveS=true; }
        else if(b.isc()&&!haveS&&lo==0&&hi==m){ /* a + (-k) with ulo(a)>=k */ uint64_t nk=(0-b.c)&m; if(ulo(a,w)>=nk && nk!=0){ lo=ulo(a,w)-nk; hi=uhi(a,w)-nk; } }
        tz=std::min(tzv(a),tzv(b)); break; }
    case SUB: { if(ulo(a,w)>=uhi(b,w)){ lo=ulo(a,w)-uhi(b,w); hi=uhi(a,w)-ulo(b,w);} 
        __int128 l1=(__int128)slo(a,w)-shi(b,w), h1=(__int128)shi(a,w)-slo(b,w); if(l1>=sl&&h1<=sh){ sl=(int64_t)l1; sh=(int64_t)h1; haveS=true; }
        tz=std::min(tzv(a),tzv(b)); break; }
    case MUL: { unsigned __int128 h=(unsigned __int128)uhi(a,w)*uhi(b,w); if(h<=m){ lo=ulo(a,w)*ulo(b,w); hi=(uint64_t)h; }
        __int128 p[4]={(__int128)slo(a,w)*slo(b,w),(__int128)slo(a,w)*shi(b,w),(__int128)shi(a,w)*slo(b,w),(__int128)shi(a,w)*shi(b,w)};
        __int128 l1=*std::min_element(p,p+4),h1=*std::max_element(p,p+4); if(l1>=sl&&h1<=sh){ sl=(int64_t)l1; sh=(int64_t)h1; haveS=true; }
        tz=std::min(64,tzv(a)+tzv(b)); break; }
    case UDIV: if(ulo(b,w)>0){ lo=ulo(a,w)/uhi(b,w); hi=uhi(a,w)/ulo(b,w);} break;
    case UREM: if(ulo(b,w)>0){ hi=std::min(uhi(a,w),uhi(b,w)-1);} break;
    case SREM: if(b.isc()&&sx(b.c,w)>0){ int64_t k=sx(b.c,w)-1; sl=slo(a,w)>=0?0:-k; sh=shi(a,w)<=0?0:std::min(k,shi(a,w)); haveS=true; } break;
    case SDIV: if(b.isc()&&sx(b.c,w)>0){ sl=slo(a,w)/sx(b.c,w); sh=shi(a,w)/sx(b.c,w); haveS=true; } break;
    case AND: hi=std::min(uhi(a,w),uhi(b,w)); tz=std::max(tzv(a),tzv(b)); break;
    case OR: { uint64_t h=uhi(a,w)|uhi(b,w); int n=h?64-__builtin_clzll(h):0; hi=mask(n)&m; if(n==0)hi=0; lo=std::max(ulo(a,w),ulo(b,w)); tz=std::min(tzv(a),tzv(b)); break; }
    case XOR: { uint64_t h=uhi(a,w)|uhi(b,w); int n=h?64-__builtin_clzll(h):0; hi=n?mask(n)&m:0; tz=std::min(tzv(a),tzv(b)); break; }
    case SHL: if(b.isc()&&b.c<(uint64_t)w){ if(uhi(a,w)<=(m>>b.c)){ lo=ulo(a,w)<<b.c; hi=uhi(a,w)<<b.c; } 
          __int128 l1=(__int128)slo(a,w)*((__int128)1<<b.c),h1=(__int128)shi(a,w)*((__int128)1<<b.c); if(l1>=sl&&h1<=sh){ sl=l1; sh=h1; haveS=true; } tz=std::min<int>(64,tzv(a)+b.c);} else tz=tzv(a); break;
    case LSHR: if(b.isc()&&b.c<(uint64_t)w){ lo=ulo(a,w)>>b.c; hi=uhi(a,w)>>b.c; int t=tzv(a)-(int)b.c; tz=t>0?t:0;} else hi=uhi(a,w); break;
    case ASHR: if(b.isc()&&b.c<(uint64_t)w){ sl=slo(a,w)>>b.c; sh=shi(a,w)>>b.c; haveS=true; int t=tzv(a)-(int)b.c; tz=t>0?t:0; } break;
    case ITE: lo=std::min(ulo(b,w),ulo(c,w)); hi=std::max(uhi(b,w),uhi(c,w)); sl=std::min(slo(b,w),slo(c,w)); sh=std::max(shi(b,w),shi(c,w)); haveS=true; tz=std::min(tzv(b),tzv(c)); break;
    case ZEXT: lo=ulo(a,wa); hi=uhi(a,wa); tz=tzv(a); break;
    case SEXT: sl=slo(a,wa); sh=shi(a,wa); haveS=true; tz=tzv(a); break;
    case EXTRACT: if(e->aux==0 && uhi(a,wa)<=m){ lo=ulo(a,wa); hi=uhi(a,wa);} else if(uhi(a,wa)<mask(wa)){ uint64_t h=uhi(a,wa)>>e->aux; if(h<=m) {hi=h; lo=ulo(a,wa)>>e->aux;} }
        if(e->aux==0){ if(slo(a,wa)>=sl&&shi(a,wa)<=sh){ sl=slo(a,wa); sh=shi(a,wa); haveS=true; } tz=std::min(tzv(a),w); } break;
    case CONCAT: lo=(ulo(a,wa)<<wb)|ulo(b,wb); hi=(uhi(a,wa)<<wb)|uhi(b,wb); tz=(b.isc()&&b.c==0)?std::min(64,wb+tzv(a)):tzv(b); break;
    default: break;
    }
    // cross-tighten
    if(haveS){ if(sl>=0){ lo=std::max(lo,(uint64_t)sl); hi=std::min(hi,(uint64_t)sh);} else if(sh<0){ lo=std::max(lo,(uint64_t)sl&m); hi=std::min(hi,(uint64_t)sh&m);} }
    if(hi<=(m>>1)){ sl=std::max<int64_t>(sl,(int64_t)lo); sh=std::min<int64_t>(sh,(int64_t)hi); if(sl>sh){sl=lo;sh=hi;} }
    else if(lo>(m>>1)){ sl=std::max(sl,sx(lo,w)); sh=std::min(sh,sx(hi,w)); }
    e->lo=lo; e->hi=hi; e->slo=sl; e->shi=sh; e->tz=std::min<int>(tz,w);
}

static V intern(Op op,int w,int nk,V a,int wa,V b,int wb,V c,int wc,int aux){
    uint64_t h=hmix(op*131+w,aux); 
    h=hmix(h,a.e?(uint64_t)a.e:a.c*2+1); if(nk>1) h=hmix(h,b.e?(uint64_t)b.e:b.c*2+1); if(nk>2) h=hmix(h,c.e?(uint64_t)c.e:c.c*2+1);
    uint32_t hh=(uint32_t)h; size_t msk=P.tab.size()-1;
    for(size_t i=hh&msk;;i=(i+1)&msk){ E x=P.tab[i]; if(!x) break;
        if(x->hash==hh&&x->op==op&&x->w==w&&x->aux==aux&&x->nk==nk&&same(x->k[0],a)&&x->kw[0]==wa&&(nk<2||same(x->k[1],b))&&(nk<3||same(x->k[2],c))) return X(x); }
    Expr* e=new Expr(); e->op=op; e->w=w; e->nk=nk; e->aux=aux; e->hash=hh; e->id=P.all.size(); e->k[0]=a; e->k[1]=b; e->k[2]=c; e->kw[0]=wa; e->kw[1]=wb; e->kw[2]=wc;
    e->fp=(op>=FADD&&op<=FMA); e->uf=op==UF; for(int i=0;i<nk;i++) if(e->k[i].e){ e->fp|=e->k[i].e->fp; e->uf|=e->k[i].e->uf; }
    setRange(e); P.all.push_back(e);
    if(e->lo==e->hi && op!=VAR) { uint64_t cv=e->lo; /* constant by interval */ if(!(op>=FADD)) { P.all.pop_back(); delete e; return C(cv); } }
    if(P.cnt*2>=P.tab.size()){ std::vector<E> o; o.swap(P.tab); P.tab.resize(o.size()*2); size_t m2=P.tab.size()-1; for(E x:o) if(x){ size_t i=x->hash&m2; while(P.tab[i]) i=(i+1)&m2; P.tab[i]=x; } msk=m2; }
    size_t i=hh&msk; while(P.tab[i]) i=(i+1)&msk; P.tab[i]=e; P.cnt++;
    return X(e);
}
V mkVar(const std::string& name,int w){
    Expr* e=new Expr(); e->op=VAR; e->w=w; e->nk=0; e->aux=0; e->id=P.all.size(); e->hash=hmix(77,e->id); e->lo=0; e->hi=mask(w); e->slo=sx(1ull<<(w-1),w); e->shi=(int64_t)(mask(w)>>1); e->tz=0; e->fp=false; e->uf=false;
    e->k[0].c=P.vars.size(); P.vars.push_back({name,w}); P.varE.push_back(e); P.all.push_back(e); return X(e);
}
V mk(Op op,int w,int nk,V a,int wa,V b,int wb,V c,int wc,int aux){
    bool allc=a.isc()&&(nk<2||b.isc())&&(nk<3||c.isc());
    if(allc){ Expr t; t.op=op; t.w=w; t.nk=nk; t.aux=aux; t.kw[0]=wa; t.kw[1]=wb; t.kw[2]=wc; uint64_t kv[3]={a.c,b.c,c.c}; return C(evalOp(&t,kv)); }
    return intern(op,w,nk,a,wa,b,wb,c,wc,aux);
}
static inline int bitlen(uint64_t h){ return h?64-__builtin_clzll(h):0; }
#define ISOP(v,o) ((v).e && (v).e->op==(o))
#define BIN(op) if(a.isc()&&b.isc()) return mk(op,w,2,a,w,b,w);
static inline void order(V&a,V&b){ if(a.isc()){ std::swap(a,b);} else if(b.e && a.e->id>b.e->id) std::swap(a,b); }
// Sums that cannot overflow are kept as sorted, left-leaning chains in the narrowest width that holds every prefix.
struct SLeaf { V v; int w; uint32_t id; };
static bool sumLeaves(V v,int w,std::vector<SLeaf>& o,int depth){
    if(o.size()>72||depth>80) return false;
    if(v.isc()){ o.push_back({v,w,0}); return true; }
    if(v.e->op==ZEXT) return sumLeaves(v.e->k[0],v.e->kw[0],o,depth+1);
    if(v.e->op==ADD&&!v.e->k[1].isc()){ unsigned __int128 h=(unsigned __int128)uhi(v.e->k[0],w)+uhi(v.e->k[1],w); if(h<=mask(w)) return sumLeaves(v.e->k[0],w,o,depth+1)&&sumLeaves(v.e->k[1],w,o,depth+1); }
    o.push_back({v,w,v.e->id}); return true; }
static bool sumNorm(V a,V b,int w,V& r){
    unsigned __int128 h=(unsigned __int128)uhi(a,w)+uhi(b,w); if(h>mask(w)) return false;
    std::vector<SLeaf> L; if(!sumLeaves(a,w,L,0)||!sumLeaves(b,w,L,0)){ // too long to sort: only narrow
        int n=bitlen((uint64_t)h); if(n>=w) return false; V x=bTrunc(a,w,n),y=bTrunc(b,w,n); r=bZext(intern(ADD,n,2,x,n,y,n,C(0),0,0),n,w); return true; }
    std::stable_sort(L.begin(),L.end(),[](const SLeaf& x,const SLeaf& y){ return x.id<y.id; });
    V acc=L[0].v; int aw=L[0].w; for(size_t i=1;i<L.size();i++){ unsigned __int128 hs=(unsigned __int128)uhi(acc,aw)+uhi(L[i].v,L[i].w); int n=std::max(1,bitlen((uint64_t)hs)); auto fit=[&](V v,int vw){ return vw<=n?bZext(v,vw,n):bTrunc(v,vw,n); }; V x=fit(acc,aw),y=fit(L[i].v,L[i].w); acc=x.isc()||y.isc()?bAdd(x,y,n):intern(ADD,n,2,x,n,y,n,C(0),0,0); aw=n; }
    r=aw<=w?bZext(acc,aw,w):bTrunc(acc,aw,w); return true; }
V bAdd(V a,V b,int w){ BIN(ADD) order(a,b); if(b.isc()){ if(b.c==0) return a; if(ISOP(a,ADD)&&a.e->k[1].isc()) return bAdd(a.e->k[0],C((a.e->k[1].c+b.c)&mask(w)),w); 
        if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()) return bIte(a.e->k[0],C((a.e->k[1].c+b.c)&mask(w)),C((a.e->k[2].c+b.c)&mask(w)),w);
        if(ISOP(a,SUB)&&a.e->k[0].isc()) return bSub(C((a.e->k[0].c+b.c)&mask(w)),a.e->k[1],w); }
    else { // float constants outward
        if(ISOP(a,ADD)&&a.e->k[1].isc()) return bAdd(bAdd(a.e->k[0],b,w),a.e->k[1],w);
        if(ISOP(b,ADD)&&b.e->k[1].isc()) return bAdd(bAdd(a,b.e->k[0],w),b.e->k[1],w);
        if(ISOP(b,SUB)&&same(b.e->k[1],a)) return b.e->k[0]; if(ISOP(a,SUB)&&same(a.e->k[1],b)) return a.e->k[0]; }
    if(!b.isc()){ V r; if(sumNorm(a,b,w,r)) return r; }
    return intern(ADD,w,2,a,w,b,w,C(0),0,0); }
V bSub(V a,V b,int w){ BIN(SUB) if(b.isc()) return bAdd(a,C((0-b.c)&mask(w)),w); if(same(a,b)) return C(0);
    if(a.isc()&&a.c==0&&ISOP(b,SUB)) return bSub(b.e->k[1],b.e->k[0],w);
    if(ISOP(a,ADD)){ if(same(a.e->k[0],b)) return a.e->k[1]; if(same(a.e->k[1],b)) return a.e->k[0]; 
        if(ISOP(b,ADD)&&same(a.e->k[0],b.e->k[0])) return bSub(a.e->k[1],b.e->k[1],w);
        if(a.e->k[1].isc()) return bAdd(bSub(a.e->k[0],b,w),a.e->k[1],w); }
    if(ISOP(b,ADD)&&b.e->k[1].isc()) return bAdd(bSub(a,b.e->k[0],w),C((0-b.e->k[1].c)&mask(w)),w);
    return intern(SUB,w,2,a,w,b,w,C(0),0,0); }
V bMul(V a,V b,int w){ BIN(MUL) order(a,b);
    if(same(a,b)&&w>1&&slo(a,w)<0){ // x*x == |x|*|x|
        V x=a; int wx=w; if(ISOP(x,SEXT)){ wx=x.e->kw[0]; x=x.e->k[0]; } if(ISOP(x,SUB)){ V p=x.e->k[0],q=x.e->k[1]; __int128 l1=(__int128)slo(p,wx)-shi(q,wx),h1=(__int128)shi(p,wx)-slo(q,wx); if(l1>=sx(1ull<<(wx-1),wx)&&h1<=(int64_t)(mask(wx)>>1)){ V ab=bIte(bSlt(p,q,wx),bSub(q,p,wx),bSub(p,q,wx),wx); if(ISOP(ab,ZEXT)){ ab=bZext(ab,wx,w); return bMul(ab,ab,w); } } } } if(b.isc()){ if(b.c==0) return C(0); if(b.c==1) return a; if((b.c&(b.c-1))==0) return bShl(a,C(__builtin_ctzll(b.c)),w);
        if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()) return bIte(a.e->k[0],bMul(a.e->k[1],b,w),bMul(a.e->k[2],b,w),w); }
    if(!b.isc()||b.c<65536){ unsigned __int128 h=(unsigned __int128)uhi(a,w)*uhi(b,w); if(h<=mask(w)){ int n=bitlen((uint64_t)h); int na=bitlen(uhi(a,w)),nb=bitlen(uhi(b,w)); n=std::max(n,std::max(na,nb)); if(n<w&&n>0) return bZext(bMul(bTrunc(a,w,n),bTrunc(b,w,n),n),n,w); } }
    return intern(MUL,w,2,a,w,b,w,C(0),0,0); }
V bUdiv(V a,V b,int w){ BIN(UDIV) if(b.isc()){ if(b.c==1) return a; if(b.c&&(b.c&(b.c-1))==0) return bLshr(a,C(__builtin_ctzll(b.c)),w); if(b.c&&uhi(a,w)<b.c) return C(0);
      int n=w; while(n>1&&uhi(a,w)<=mask(n-1)&&b.c<=mask(n-1)) n--; if(n<w&&b.c) return bZext(bUdiv(bExtract(a,w,0,n),C(b.c),n),n,w); }
    return intern(UDIV,w,2,a,w,b,w,C(0),0,0); }
V bUrem(V a,V b,int w){ BIN(UREM) if(b.isc()){ if(b.c==1) return C(0); if(b.c&&(b.c&(b.c-1))==0) return bAnd(a,C(b.c-1),w); if(b.c&&uhi(a,w)<b.c) return a;
      int n=w; while(n>1&&uhi(a,w)<=mask(n-1)&&b.c<=mask(n-1)) n--; if(n<w&&b.c) return bZext(bUrem(bExtract(a,w,0,n),C(b.c),n),n,w); }
    return intern(UREM,w,2,a,w,b,w,C(0),0,0); }
V bSdiv(V a,V b,int w){ BIN(SDIV) if(slo(a,w)>=0&&slo(b,w)>=0&&!(b.isc()&&b.c==0)&&(b.isc()||slo(b,w)>0)) return bUdiv(a,b,w); return intern(SDIV,w,2,a,w,b,w,C(0),0,0); }
V bSrem(V a,V b,int w){ BIN(SREM) if(slo(a,w)>=0&&(b.isc()?sx(b.c,w)>0:slo(b,w)>0)) return bUrem(a,b,w); return intern(SREM,w,2,a,w,b,w,C(0),0,0); }
V bAnd(V a,V b,int w){ BIN(AND) order(a,b); if(same(a,b)) return a; if(b.isc()){ if(b.c==0) return C(0); if(b.c==mask(w)) return a; 
        if((b.c&(b.c+1))==0){ if(uhi(a,w)<=b.c) return a; int n=64-__builtin_clzll(b.c); return bZext(bExtract(a,w,0,n),n,w); }
        if(ISOP(a,AND)&&a.e->k[1].isc()) return bAnd(a.e->k[0],C(a.e->k[1].c&b.c),w);
        if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()) return bIte(a.e->k[0],C(a.e->k[1].c&b.c),C(a.e->k[2].c&b.c),w);
        if(ISOP(a,ZEXT)){ int wk=a.e->kw[0]; return bZext(bAnd(a.e->k[0],C(b.c&mask(wk)),wk),wk,w); }
        { uint64_t h=uhi(a,w); int n=h?64-__builtin_clzll(h):0; if((b.c&mask(n))==0&&n<64) return C(0); }
    }
    if(w==1){ if(ISOP(a,XOR)&&a.e->k[1].isc()&&same(a.e->k[0],b)) return C(0); if(ISOP(b,XOR)&&b.e->k[1].isc()&&same(b.e->k[0],a)) return C(0);
        if(ISOP(a,AND)&&(same(a.e->k[0],b)||same(a.e->k[1],b))) return a; if(ISOP(b,AND)&&(same(b.e->k[0],a)||same(b.e->k[1],a))) return b; }
    if(!b.isc()&&ISOP(a,ZEXT)&&ISOP(b,ZEXT)&&a.e->kw[0]==b.e->kw[0]) return bZext(bAnd(a.e->k[0],b.e->k[0],a.e->kw[0]),a.e->kw[0],w);
    return intern(AND,w,2,a,w,b,w,C(0),0,0); }
V bOr(V a,V b,int w){ BIN(OR) order(a,b); if(same(a,b)) return a; if(b.isc()){ if(b.c==0) return a; if(b.c==mask(w)) return b; }
    if(w==1){ if(ISOP(a,XOR)&&a.e->k[1].isc()&&same(a.e->k[0],b)) return C(1); if(ISOP(b,XOR)&&b.e->k[1].isc()&&same(b.e->k[0],a)) return C(1); return bNot(bAnd(bNot(a),bNot(b),1)); }
    if(!b.isc()){ // disjoint bits -> concat form
        uint64_t h=uhi(a,w); int n=h?64-__builtin_clzll(h):0; if(n<=tzv(b)&&n>0&&n<w) return bConcat(bExtract(b,w,n,w-n),w-n,bExtract(a,w,0,n),n);
        h=uhi(b,w); n=h?64-__builtin_clzll(h):0; if(n<=tzv(a)&&n>0&&n<w) return bConcat(bExtract(a,w,n,w-n),w-n,bExtract(b,w,0,n),n);
        if(ISOP(a,ZEXT)&&ISOP(b,ZEXT)&&a.e->kw[0]==b.e->kw[0]) return bZext(bOr(a.e->k[0],b.e->k[0],a.e->kw[0]),a.e->kw[0],w);
    } else if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()) return bIte(a.e->k[0],C(a.e->k[1].c|b.c),C(a.e->k[2].c|b.c),w);
    return intern(OR,w,2,a,w,b,w,C(0),0,0); }
V bXor(V a,V b,int w){ BIN(XOR) order(a,b); if(same(a,b)) return C(0); if(b.isc()){ if(b.c==0) return a; if(ISOP(a,XOR)&&a.e->k[1].isc()) return bXor(a.e->k[0],C(a.e->k[1].c^b.c),w);
        if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()) return bIte(a.e->k[0],C(a.e->k[1].c^b.c),C(a.e->k[2].c^b.c),w); 
        if(ISOP(a,SEXT)&&b.c==mask(w)) return bSext(bXor(a.e->k[0],C(mask(a.e->kw[0])),a.e->kw[0]),a.e->kw[0],w); }
    else if(w==1){ if(ISOP(a,XOR)&&a.e->k[1].isc()) return bNot(bXor(a.e->k[0],b,1)); if(ISOP(b,XOR)&&b.e->k[1].isc()) return bNot(bXor(a,b.e->k[0],1)); }
    if(!b.isc()&&ISOP(a,ZEXT)&&ISOP(b,ZEXT)&&a.e->kw[0]==b.e->kw[0]) return bZext(bXor(a.e->k[0],b.e->k[0],a.e->kw[0]),a.e->kw[0],w);
    return intern(XOR,w,2,a,w,b,w,C(0),0,0); }
V bShl(V a,V b,int w){ BIN(SHL) if(b.isc()){ if(b.c==0) return a; if(b.c>=(uint64_t)w) return C(0); if(ISOP(a,SHL)&&a.e->k[1].isc()) { uint64_t s=a.e->k[1].c+b.c; return s>=(uint64_t)w?C(0):bShl(a.e->k[0],C(s),w);} }
    return intern(SHL,w,2,a,w,b,w,C(0),0,0); }
V bLshr(V a,V b,int w){ BIN(LSHR) if(b.isc()){ if(b.c==0) return a; if(b.c>=(uint64_t)w) return C(0); return bZext(bExtract(a,w,b.c,w-b.c),w-b.c,w); }
    if(a.isc()&&a.c==0) return a; return intern(LSHR,w,2,a,w,b,w,C(0),0,0); }
V bAshr(V a,V b,int w){ BIN(ASHR) if(b.isc()){ if(b.c==0) return a; if(b.c>=(uint64_t)w) b=C(w-1); if(slo(a,w)>=0) return bLshr(a,b,w); return bSext(bExtract(a,w,b.c,w-b.c),w-b.c,w); }
    return intern(ASHR,w,2,a,w,b,w,C(0),0,0); }
V bEq(V a,V b,int w){ if(a.isc()&&b.isc()) return C(a.c==b.c); if(same(a,b)) return C(1); order(a,b);
    if(uhi(a,w)<ulo(b,w)||uhi(b,w)<ulo(a,w)) return C(0); if(shi(a,w)<slo(b,w)||shi(b,w)<slo(a,w)) return C(0);
    if(w==1) return b.isc()?(b.c?a:bNot(a)):bNot(bXor(a,b,1));
    if(b.isc()){ E e=a.e; uint64_t c=b.c;
        switch(e->op){
        case ZEXT: if(c>mask(e->kw[0])) return C(0); return bEq(e->k[0],C(c),e->kw[0]);
        case SEXT: { uint64_t t=c&mask(e->kw[0]); if(((uint64_t)sx(t,e->kw[0])&mask(w))!=c) return C(0); return bEq(e->k[0],C(t),e->kw[0]); }
        case ITE: { bool c1=e->k[1].isc(),c2=e->k[2].isc(); if(c1&&c2) return e->k[1].c==c?(e->k[2].c==c?C(1):e->k[0]):(e->k[2].c==c?bNot(e->k[0]):C(0));
            if(c1) return e->k[1].c==c? bOr(e->k[0],bEq(e->k[2],b,w),1) : bAnd(bNot(e->k[0]),bEq(e->k[2],b,w),1);
            if(c2) return e->k[2].c==c? bOr(bNot(e->k[0]),bEq(e->k[1],b,w),1) : bAnd(e->k[0],bEq(e->k[1],b,w),1); 
            break; }
        case ADD: if(e->k[1].isc()) return bEq(e->k[0],C((c-e->k[1].c)&mask(w)),w); break;
        case XOR: if(e->k[1].isc()) return bEq(e->k[0],C(c^e->k[1].c),w); break;
        case SUB: if(e->k[0].isc()) return bEq(e->k[1],C((e->k[0].c-c)&mask(w)),w); if(c==0) return bEq(e->k[0],e->k[1],w); break;
        case CONCAT: return bAnd(bEq(e->k[0],C(c>>e->kw[1]),e->kw[0]),bEq(e->k[1],C(c&mask(e->kw[1])),e->kw[1]),1);
        case AND: if(e->k[1].isc()){ uint64_t m=e->k[1].c; if(c&~m) return C(0); if((m&(m-1))==0){ int bit=__builtin_ctzll(m); V x=bExtract(e->k[0],w,bit,1); return c?x:bNot(x);} } break;
        case SHL: if(e->k[1].isc()){ int s=e->k[1].c; if(c&mask(s)) return C(0); return bEq(bExtract(e->k[0],w,0,w-s),C(c>>s),w-s); } break;
        }
    } else {
        if(a.e->op==ZEXT&&b.e->op==ZEXT){ int wa=a.e->kw[0],wb=b.e->kw[0]; int m=std::max(wa,wb); return bEq(bZext(a.e->k[0],wa,m),bZext(b.e->k[0],wb,m),m); }
        if(a.e->op==SEXT&&b.e->op==SEXT){ int wa=a.e->kw[0],wb=b.e->kw[0]; int m=std::max(wa,wb); return bEq(bSext(a.e->k[0],wa,m),bSext(b.e->k[0],wb,m),m); }
        if(a.e->op==ADD&&a.e->k[1].isc()&&same(a.e->k[0],b)) return C(0); if(b.e->op==ADD&&b.e->k[1].isc()&&same(b.e->k[0],a)) return C(0);
    }
    return intern(EQ,1,2,a,w,b,w,C(0),0,0); }
V bUlt(V a,V b,int w){ if(a.isc()&&b.isc()) return C(a.c<b.c); if(same(a,b)) return C(0); if(uhi(a,w)<ulo(b,w)) return C(1); if(ulo(a,w)>=uhi(b,w)) return C(0);
    if(w==1) return bAnd(bNot(a),b,1);
    if(b.isc()){ if(b.c==1) return bEq(a,C(0),w); if(ISOP(a,ZEXT)&&b.c<=mask(a.e->kw[0])) return bUlt(a.e->k[0],b,a.e->kw[0]); }
    if(a.isc()){ if(a.c==0) return bNot(bEq(b,C(0),w)); if(ISOP(b,ZEXT)&&a.c<=mask(b.e->kw[0])) return bUlt(a,b.e->k[0],b.e->kw[0]); }
    if(ISOP(a,ZEXT)&&ISOP(b,ZEXT)){ int wa=a.e->kw[0],wb=b.e->kw[0]; int m=std::max(wa,wb); return bUlt(bZext(a.e->k[0],wa,m),bZext(b.e->k[0],wb,m),m); }
    if(ISOP(a,ITE)&&b.isc()&&(a.e->k[1].isc()||a.e->k[2].isc())){ return bIte(a.e->k[0],bUlt(a.e->k[1],b,w),bUlt(a.e->k[2],b,w),1); }
    if(ISOP(b,ITE)&&a.isc()&&(b.e->k[1].isc()||b.e->k[2].isc())){ return bIte(b.e->k[0],bUlt(a,b.e->k[1],w),bUlt(a,b.e->k[2],w),1); }
    return intern(ULT,1,2,a,w,b,w,C(0),0,0); }
V bSlt(V a,V b,int w){ if(a.isc()&&b.isc()) return C(sx(a.c,w)<sx(b.c,w));
    if(b.isc()&&b.c==0&&ISOP(a,SUB)){ __int128 l1=(__int128)slo(a.e->k[0],w)-shi(a.e->k[1],w),h1=(__int128)shi(a.e->k[0],w)-slo(a.e->k[1],w); if(l1>=sx(1ull<<(w-1),w)&&h1<=(int64_t)(mask(w)>>1)) return bSlt(a.e->k[0],a.e->k[1],w); }
    if(a.isc()&&a.c==0&&ISOP(b,SUB)){ __int128 l1=(__int128)slo(b.e->k[0],w)-shi(b.e->k[1],w),h1=(__int128)shi(b.e->k[0],w)-slo(b.e->k[1],w); if(l1>=sx(1ull<<(w-1),w)&&h1<=(int64_t)(mask(w)>>1)) return bSlt(b.e->k[1],b.e->k[0],w); } if(same(a,b)) return C(0); if(shi(a,w)<slo(b,w)) return C(1); if(slo(a,w)>=shi(b,w)) return C(0);
    if(slo(a,w)>=0&&slo(b,w)>=0) return bUlt(a,b,w);
    if(ISOP(a,SEXT)&&ISOP(b,SEXT)){ int wa=a.e->kw[0],wb=b.e->kw[0]; int m=std::max(wa,wb); return bSlt(bSext(a.e->k[0],wa,m),bSext(b.e->k[0],wb,m),m); }
    if(ISOP(a,SEXT)&&b.isc()){ int wa=a.e->kw[0]; if(sx(b.c,w)==sx(b.c&mask(wa),wa)) return bSlt(a.e->k[0],C(b.c&mask(wa)),wa); }
    if(ISOP(b,SEXT)&&a.isc()){ int wa=b.e->kw[0]; if(sx(a.c,w)==sx(a.c&mask(wa),wa)) return bSlt(C(a.c&mask(wa)),b.e->k[0],wa); }
    if(ISOP(a,ITE)&&b.isc()&&(a.e->k[1].isc()||a.e->k[2].isc())){ return bIte(a.e->k[0],bSlt(a.e->k[1],b,w),bSlt(a.e->k[2],b,w),1); }
    if(ISOP(b,ITE)&&a.isc()&&(b.e->k[1].isc()||b.e->k[2].isc())){ return bIte(b.e->k[0],bSlt(a,b.e->k[1],w),bSlt(a,b.e->k[2],w),1); }
    return intern(SLT,1,2,a,w,b,w,C(0),0,0); }
// ite(c, s+d, s) -> s + ite(c,d,0)
static bool iteSum(V c,V a,V b,int w,V& r){
    if(a.isc()||b.isc()){ // ite(c, x+y, 0) -> ite(c,x,0)+ite(c,y,0) for sums that cannot overflow
        V z=a.isc()?a:b,n=a.isc()?b:a; if(z.c!=0) return false; V t=ISOP(n,ZEXT)?n.e->k[0]:n; if(!ISOP(t,ADD)||t.e->k[1].isc()) return false;
        std::vector<SLeaf> L; if(!sumLeaves(n,w,L,0)||L.size()<2||L.size()>16) return false; r=C(0);
        for(auto&l:L){ V v=l.w<=w?bZext(l.v,l.w,w):bTrunc(l.v,l.w,w); r=bAdd(r,a.isc()?bIte(c,C(0),v,w):bIte(c,v,C(0),w),w); } return true; }
    auto smallc=[&](V k){ return k.isc()&&(k.c<=65536||((0-k.c)&mask(w))<=65536); };
    if(ISOP(a,ADD)&&smallc(a.e->k[1])&&same(a.e->k[0],b)){ r=bAdd(b,bIte(c,a.e->k[1],C(0),w),w); return true; }
    if(ISOP(b,ADD)&&smallc(b.e->k[1])&&same(b.e->k[0],a)){ r=bAdd(a,bIte(c,C(0),b.e->k[1],w),w); return true; }
    auto addish=[&](V v){ if(ISOP(v,ZEXT)) v=v.e->k[0]; return ISOP(v,ADD); };
    if(!addish(a)&&!addish(b)) return false;
    std::vector<SLeaf> A,B; if(!sumLeaves(a,w,A,0)||!sumLeaves(b,w,B,0)) return false;
    bool sw=false; if(A.size()<B.size()){ std::swap(A,B); sw=true; } if(A.size()==B.size()) return false;
    std::vector<uint8_t> used(A.size()); for(auto&x:B){ bool f=false; for(size_t i=0;i<A.size();i++) if(!used[i]&&same(A[i].v,x.v)&&A[i].w==x.w){ used[i]=1; f=true; break; } if(!f) return false; }
    V d=C(0); for(size_t i=0;i<A.size();i++) if(!used[i]){ int n=A[i].w; V v=n<=w?bZext(A[i].v,n,w):bTrunc(A[i].v,n,w); d=bAdd(d,v,w); }
    V s=sw?a:b; r=bAdd(s,sw?bIte(c,C(0),d,w):bIte(c,d,C(0),w),w); return true; }
V bIte(V c,V a,V b,int w){ if(c.isc()) return c.c?a:b; if(same(a,b)) return a;
    if(ISOP(c,XOR)&&c.e->k[1].isc()) return bIte(c.e->k[0],b,a,w);
    if(w==1){ if(a.isc()&&b.isc()) return a.c?c:bNot(c); if(a.isc()) return a.c?bOr(c,b,1):bAnd(bNot(c),b,1); if(b.isc()) return b.c?bOr(bNot(c),a,1):bAnd(c,a,1); 
        if(same(a,c)) return bOr(c,b,1); if(same(b,c)) return bAnd(c,a,1); }
    if(ISOP(a,ITE)&&same(a.e->k[0],c)) a=a.e->k[1]; if(ISOP(b,ITE)&&same(b.e->k[0],c)) b=b.e->k[2];
    if(same(a,b)) return a;
    if(ISOP(a,ITE)&&same(a.e->k[1],b)) return bIte(bAnd(c,bNot(a.e->k[0]),1),a.e->k[2],b,w);
    if(ISOP(a,ITE)&&same(a.e->k[2],b)) return bIte(bAnd(c,a.e->k[0],1),a.e->k[1],b,w);
    if(ISOP(b,ITE)&&same(b.e->k[1],a)) return bIte(bOr(c,b.e->k[0],1),a,b.e->k[2],w);
    if(ISOP(b,ITE)&&same(b.e->k[2],a)) return bIte(bOr(c,bNot(b.e->k[0]),1),a,b.e->k[1],w);
    // pull common zext/add-const
    if(ISOP(a,ZEXT)&&ISOP(b,ZEXT)&&a.e->kw[0]==b.e->kw[0]) return bZext(bIte(c,a.e->k[0],b.e->k[0],a.e->kw[0]),a.e->kw[0],w);
    if(ISOP(a,ZEXT)&&b.isc()&&b.c<=mask(a.e->kw[0])) return bZext(bIte(c,a.e->k[0],b,a.e->kw[0]),a.e->kw[0],w);
    if(ISOP(b,ZEXT)&&a.isc()&&a.c<=mask(b.e->kw[0])) return bZext(bIte(c,a,b.e->k[0],b.e->kw[0]),b.e->kw[0],w);
    if(a.isc()&&b.isc()&&w>1){ if(a.c==1&&b.c==0) return bZext(c,1,w); if(a.c==0&&b.c==1) return bZext(bNot(c),1,w); if(a.c==mask(w)&&b.c==0) return bSext(c,1,w); if(b.c==mask(w)&&a.c==0) return bSext(bNot(c),1,w); }
    if((ISOP(a,SITOFP)&&ISOP(b,SITOFP)&&a.e->kw[0]==b.e->kw[0])) return fFromSI(bIte(c,a.e->k[0],b.e->k[0],a.e->kw[0]),a.e->kw[0],w);
    if(w>1){ V r; if(iteSum(c,a,b,w,r)) return r; }
    if(ISOP(a,SUB)&&ISOP(b,SUB)&&same(a.e->k[0],b.e->k[1])&&same(a.e->k[1],b.e->k[0])&&(ISOP(c,ULT)||ISOP(c,SLT))){ // |p-q| normal form
        bool sg=c.e->op==SLT; V x=c.e->k[0],y=c.e->k[1]; int wx=c.e->kw[0]; V p=a.e->k[0],q=a.e->k[1];
        if(wx<=w){ V X1=sg?bSext(x,wx,w):bZext(x,wx,w),Y1=sg?bSext(y,wx,w):bZext(y,wx,w); bool up=same(X1,q)&&same(Y1,p), dn=same(X1,p)&&same(Y1,q);
            if(up||dn){ // up: x<y ? y-x : x-y  (absolute difference); dn: negated
                V u=x,v=y; bool flip=false; if(u.e&&v.e&&u.e->id>v.e->id){ std::swap(u,v); flip=true; } (void)flip;
                if(up&&wx<w){ int n=wx; if(!sg){ n=std::max(bitlen(uhi(u,wx)),bitlen(uhi(v,wx))); if(n<1)n=1; if(n>wx)n=wx; } V un=bTrunc(u,wx,n),vn=bTrunc(v,wx,n); V cc=sg?bSlt(un,vn,n):bUlt(un,vn,n); return bZext(bIte(cc,bSub(vn,un,n),bSub(un,vn,n),n),n,w); }
                if(up&&wx==w&&flip){ V cc=sg?bSlt(u,v,w):bUlt(u,v,w); return intern(ITE,w,3,cc,1,bSub(v,u,w),w,bSub(u,v,w),w,0); } } } }
    return intern(ITE,w,3,c,1,a,w,b,w,0); }
V bZext(V a,int wf,int wt){ if(wf==wt||a.isc()) return a; if(ISOP(a,ZEXT)) return bZext(a.e->k[0],a.e->kw[0],wt);
    if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()&&!(wf==1)) return intern(ITE,wt,3,a.e->k[0],1,a.e->k[1],wt,a.e->k[2],wt,0);
    return intern(ZEXT,wt,1,a,wf,C(0),0,C(0),0,0); }
V bSext(V a,int wf,int wt){ if(wf==wt) return a; if(a.isc()) return C((uint64_t)sx(a.c,wf)&mask(wt)); if(slo(a,wf)>=0) return bZext(a,wf,wt); if(ISOP(a,SEXT)) return bSext(a.e->k[0],a.e->kw[0],wt);
    if(ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()) return intern(ITE,wt,3,a.e->k[0],1,C((uint64_t)sx(a.e->k[1].c,wf)&mask(wt)),wt,C((uint64_t)sx(a.e->k[2].c,wf)&mask(wt)),wt,0);
    return intern(SEXT,wt,1,a,wf,C(0),0,C(0),0,0); }
V bExtract(V a,int wf,int lo,int w){ if(lo==0&&w==wf) return a; if(a.isc()) return C((a.c>>lo)&mask(w)); E e=a.e;
    switch(e->op){
    case EXTRACT: return bExtract(e->k[0],e->kw[0],lo+e->aux,w);
    case ZEXT: { int wk=e->kw[0]; if(lo>=wk) return C(0); if(lo+w<=wk) return bExtract(e->k[0],wk,lo,w); return bZext(bExtract(e->k[0],wk,lo,wk-lo),wk-lo,w); }
    case SEXT: { int wk=e->kw[0]; if(lo+w<=wk) return bExtract(e->k[0],wk,lo,w); if(lo<wk) return bSext(bExtract(e->k[0],wk,lo,wk-lo),wk-lo,w); return bSext(bExtract(e->k[0],wk,wk-1,1),1,w); }
    case CONCAT: { int wl=e->kw[1]; if(lo>=wl) return bExtract(e->k[0],e->kw[0],lo-wl,w); if(lo+w<=wl) return bExtract(e->k[1],wl,lo,w); return bConcat(bExtract(e->k[0],e->kw[0],0,lo+w-wl),lo+w-wl,bExtract(e->k[1],wl,lo,wl-lo),wl-lo); }
    case ITE: if(e->k[1].isc()||e->k[2].isc()||ISOP(e->k[1],CONCAT)||ISOP(e->k[2],CONCAT)||ISOP(e->k[1],ZEXT)||ISOP(e->k[2],ZEXT)) return bIte(e->k[0],bExtract(e->k[1],wf,lo,w),bExtract(e->k[2],wf,lo,w),w); break;
    case AND: return bAnd(bExtract(e->k[0],wf,lo,w),bExtract(e->k[1],wf,lo,w),w);
    case OR: return bOr(bExtract(e->k[0],wf,lo,w),bExtract(e->k[1],wf,lo,w),w);
    case XOR: return bXor(bExtract(e->k[0],wf,lo,w),bExtract(e->k[1],wf,lo,w),w);
    case ADD: if(lo==0) return bAdd(bExtract(e->k[0],wf,0,w),bExtract(e->k[1],wf,0,w),w); break;
    case SUB: if(lo==0) return bSub(bExtract(e->k[0],wf,0,w),bExtract(e->k[1],wf,0,w),w); break;
    case MUL: if(lo==0) return bMul(bExtract(e->k[0],wf,0,w),bExtract(e->k[1],wf,0,w),w); break;
    case SHL: if(e->k[1].isc()){ int s=e->k[1].c; if(lo>=s) return bExtract(e->k[0],wf,lo-s,w); if(lo+w<=s) return C(0); return bShl(bExtract(bZext(bExtract(e->k[0],wf,0,lo+w-s),lo+w-s,w),w,0,w),C(s-lo),w);} break;
    }
    { uint64_t h=e->hi; int n=h?64-__builtin_clzll(h):0; if(lo>=n) return C(0); if(lo+w>n&&n>lo&&n<wf&&w>n-lo) return bZext(bExtract(a,wf,lo,n-lo),n-lo,w); }
    return intern(EXTRACT,w,1,a,wf,C(0),0,C(0),0,lo); }
V bConcat(V h,int wh,V l,int wl){ if(wh==0) return l; if(wl==0) return h; int w=wh+wl; if(h.isc()&&l.isc()) return C((h.c<<wl)|l.c); if(h.isc()&&h.c==0) return bZext(l,wl,w);
    if(ISOP(h,EXTRACT)&&ISOP(l,EXTRACT)&&same(h.e->k[0],l.e->k[0])&&h.e->aux==l.e->aux+wl) return bExtract(h.e->k[0],h.e->kw[0],l.e->aux,w);
    if(ISOP(h,EXTRACT)&&same(h.e->k[0],l)&&h.e->aux==wl) return bExtract(l,h.e->kw[0],0,w);
    if(ISOP(l,CONCAT)){ // reassociate if adjacent pieces join
        V lh=l.e->k[0]; int wlh=l.e->kw[0]; V t=bConcat(h,wh,lh,wlh); if(!(ISOP(t,CONCAT)&&same(t.e->k[0],h))) return bConcat(t,wh+wlh,l.e->k[1],l.e->kw[1]); }
    if(ISOP(h,ITE)&&ISOP(l,ITE)&&same(h.e->k[0],l.e->k[0])) return bIte(h.e->k[0],bConcat(h.e->k[1],wh,l.e->k[1],wl),bConcat(h.e->k[2],wh,l.e->k[2],wl),w);
    if(ISOP(h,ITE)&&l.isc()&&h.e->k[1].isc()&&h.e->k[2].isc()) return bIte(h.e->k[0],bConcat(h.e->k[1],wh,l,wl),bConcat(h.e->k[2],wh,l,wl),w);
    if(l.isc()&&l.c==0&&ISOP(h,EXTRACT)&&h.e->aux==0&&h.e->kw[0]==w) return bShl(h.e->k[0],C(wl),w);
    return intern(CONCAT,w,2,h,wh,l,wl,C(0),0,0); }

// ---- floating point, with exact-integer lifting ----
static int fmant(int w){ return w==32?24:53; }
// is V an exactly representable integer in fp of width w? gives integer expression of 64 bits (signed)
static bool asInt(V v,int w,V& out){
    if(v.isc()){ double d=w==32?asF(v.c):asD(v.c); if(d!=std::trunc(d)||std::fabs(d)>9e15) return false; if(d==0&&std::signbit(d)) return false; out=C((uint64_t)(int64_t)d); return true; }
    if(v.e->op==SITOFP){ int wi=v.e->kw[0]; V x=v.e->k[0]; int64_t l=slo(x,wi),h=shi(x,wi); int64_t lim=1ll<<fmant(w); if(l<-lim||h>lim) return false; out=bSext(x,wi,64); return true; }
    return false;
}
static bool fitsF(V x,int w){ int64_t lim=1ll<<fmant(w); return slo(x,64)>=-lim&&shi(x,64)<=lim; }
V fFromSI(V a,int wi,int wf){ if(a.isc()) return mk(SITOFP,wf,1,a,wi,C(0),0); 
    if(wi!=64){ return fFromSI(bSext(a,wi,64),64,wf);} 
    return intern(SITOFP,wf,1,a,wi,C(0),0,C(0),0,0); }
V fFromUI(V a,int wi,int wf){ if(a.isc()) return mk(UITOFP,wf,1,a,wi,C(0),0); if(wi<64) return fFromSI(bZext(a,wi,64),64,wf); if(slo(a,64)>=0) return fFromSI(a,64,wf);
    return intern(UITOFP,wf,1,a,wi,C(0),0,C(0),0,0); }
V fBin(Op op,V a,V b,int w){
    if(a.isc()&&b.isc()) return mk(op,w,2,a,w,b,w);
    V x,y;
    if(op!=FDIV && asInt(a,w,x)&&asInt(b,w,y)){ 
        if(op==FADD||op==FSUB){ V r=op==FADD?bAdd(x,y,64):bSub(x,y,64); if(fitsF(r,w)) return fFromSI(r,64,w); }
        else if(op==FMUL && slo(x,64)>=0&&slo(y,64)>=0){ __int128 hh=(__int128)shi(x,64)*shi(y,64); if(hh<=((__int128)1<<fmant(w))){ V r=bMul(x,y,64); return fFromSI(r,64,w);} }
    }
    if(op==FMUL){ if(b.isc()&&b.c==(w==32?fromF(1.f):fromD(1.0))) return a; if(a.isc()&&a.c==(w==32?fromF(1.f):fromD(1.0))) return b; }
    if(op==FDIV){ if(b.isc()&&b.c==(w==32?fromF(1.f):fromD(1.0))) return a; 
        if(b.isc()){ double d=w==32?asF(b.c):asD(b.c); int ex; double fr=std::frexp(d,&ex); if(fr==0.5&&ex>-100&&ex<100) return fBin(FMUL,a,C(w==32?fromF((float)(1/d)):fromD(1/d)),w); } }
    if(op==FADD||op==FMUL) order(a,b);
    if((ISOP(a,ITE)&&a.e->k[1].isc()&&a.e->k[2].isc()&&b.isc())) return bIte(a.e->k[0],fBin(op,a.e->k[1],b,w),fBin(op,a.e->k[2],b,w),w);
    return intern(op,w,2,a,w,b,w,C(0),0,0);
}
V fSqrt(V a,int w){ return mk(FSQRT,w,1,a,w,C(0),0); }
static bool nonNan(V v,int w){ if(v.isc()) return !(w==32?std::isnan(asF(v.c)):std::isnan(asD(v.c))); if(v.e->op==SITOFP||v.e->op==UITOFP) return true; if(v.e->op==ITE) return nonNan(v.e->k[1],w)&&nonNan(v.e->k[2],w); if(v.e->op==FPEXT) return nonNan(v.e->k[0],32); return false; }
V fCmp(Op op,V a,V b,int w){
    if(a.isc()&&b.isc()) return mk(op,1,2,a,w,b,w);
    if(op==FUNO){ if(nonNan(a,w)&&nonNan(b,w)) return C(0); if(nonNan(a,w)) a=b; else if(nonNan(b,w)) b=a; return intern(FUNO,1,2,a,w,b,w,C(0),0,0); }
    V x,y; bool ia=asInt(a,w,x), ib=asInt(b,w,y);
    if(ia&&ib){ if(op==FEQ) return bEq(x,y,64); if(op==FLT) return bSlt(x,y,64); return bSle(x,y,64); }
    if(ia&&b.isc()){ double d=w==32?asF(b.c):asD(b.c); if(std::isnan(d)) return C(0); 
        if(d>9e15) return C(op!=FEQ); if(d<-9e15) return C(0);
        if(op==FEQ){ if(d!=std::trunc(d)) return C(0); return bEq(x,C((uint64_t)(int64_t)d),64);} 
        if(op==FLT) return bSlt(x,C((uint64_t)(int64_t)std::ceil(d)),64); return bSle(x,C((uint64_t)(int64_t)std::floor(d)),64); }
    if(ib&&a.isc()){ double d=w==32?asF(a.c):asD(a.c); if(std::isnan(d)) return C(0);
        if(d<-9e15) return C(op!=FEQ); if(d>9e15) return C(0);
        if(op==FEQ){ if(d!=std::trunc(d)) return C(0); return bEq(y,C((uint64_t)(int64_t)d),64);} 
        if(op==FLT) return bSlt(C((uint64_t)(int64_t)std::floor(d)),y,64); return bSle(C((uint64_t)(int64_t)std::ceil(d)),y,64); }
    if(same(a,b)){ if(op==FLT) return C(0); if(nonNan(a,w)) return C(1); }
    if(op==FEQ) order(a,b);
    return intern(op,1,2,a,w,b,w,C(0),0,0);
}
V fToSI(V a,int wf,int wi){ if(a.isc()) return mk(FPTOSI,wi,1,a,wf,C(0),0); V x; if(asInt(a,wf,x)){ if(wi==64) return x; int64_t l=sx(1ull<<(wi-1),wi),h=(int64_t)(mask(wi)>>1); if(slo(x,64)>=l&&shi(x,64)<=h) return bTrunc(x,64,wi); }
    if(ISOP(a,ITE)) return bIte(a.e->k[0],fToSI(a.e->k[1],wf,wi),fToSI(a.e->k[2],wf,wi),wi);
    return intern(FPTOSI,wi,1,a,wf,C(0),0,C(0),0,0); }
V fToUI(V a,int wf,int wi){ if(a.isc()) return mk(FPTOUI,wi,1,a,wf,C(0),0); V x; if(asInt(a,wf,x)){ if(slo(x,64)>=0&&(wi==64||(uint64_t)shi(x,64)<=mask(wi))) return bTrunc(x,64,wi); }
    if(ISOP(a,ITE)) return bIte(a.e->k[0],fToUI(a.e->k[1],wf,wi),fToUI(a.e->k[2],wf,wi),wi);
    return intern(FPTOUI,wi,1,a,wf,C(0),0,C(0),0,0); }
V fExt(V a){ if(a.isc()) return mk(FPEXT,64,1,a,32,C(0),0); V x; if(asInt(a,32,x)) return fFromSI(x,64,64); return intern(FPEXT,64,1,a,32,C(0),0,C(0),0,0); }
V fTrunc(V a){ if(a.isc()) return mk(FPTRUNC,32,1,a,64,C(0),0); V x; if(asInt(a,64,x)&&fitsF(x,32)) return fFromSI(x,64,32); if(ISOP(a,FPEXT)) return a.e->k[0]; return intern(FPTRUNC,32,1,a,64,C(0),0,C(0),0,0); }
V fRoundI(V a,int w,int mode){ V x; if(!a.isc()&&asInt(a,w,x)) return a; 
    if(a.isc()){ Expr t; t.op=FROUNDI; t.w=w; t.nk=1; t.aux=mode; t.kw[0]=w; uint64_t kv[1]={a.c}; return C(evalOp(&t,kv)); }
    return intern(FROUNDI,w,1,a,w,C(0),0,C(0),0,mode); }
V fFma(V a,V b,V c,int w){ if(a.isc()&&b.isc()&&c.isc()) return mk(FMA,w,3,a,w,b,w,c,w); return intern(FMA,w,3,a,w,b,w,c,w,0); }
V mkUF(const std::string& n,int w,const std::vector<V>& a,const std::vector<int>& wa){
    auto it=P.ufIdx.find(n); int idx; if(it==P.ufIdx.end()){ idx=P.ufs.size(); P.ufs.push_back(n); P.ufIdx[n]=idx; } else idx=it->second;
    int nk=a.size(); if(nk>3){ fprintf(stderr,"UF arity\n"); abort(); }
    return mk(UF,w,nk,a[0],wa[0],nk>1?a[1]:C(0),nk>1?wa[1]:0,nk>2?a[2]:C(0),nk>2?wa[2]:0,idx);
}
std::string show(V v,int w,int d){ char b[64]; if(v.isc()){ snprintf(b,64,"%llu:%d",(unsigned long long)v.c,w); return b; } if(v.e->op==VAR) return P.vars[v.e->k[0].c].name; if(d==0) return "..."; std::string s="("; s+=opn[v.e->op]; if(v.e->op==EXTRACT){ snprintf(b,64,"[%d+%d]",v.e->aux,v.e->w); s+=b;} for(int i=0;i<v.e->nk;i++) s+=" "+show(v.e->k[i],v.e->kw[i],d-1); return s+")"; }
