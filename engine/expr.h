// Hash-consed bit-vector / IEEE-float expression DAG with simplification and interval tracking.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

enum Op : uint8_t { VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
    FADD, FSUB, FMUL, FDIV, FSQRT, FEQ, FLT, FLE, FUNO, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC, FROUNDI, FMA, UF, NOPS };

struct Expr; typedef const Expr* E;
struct V { uint64_t c; E e; bool isc() const {return !e;} };
static inline V C(uint64_t c){ return V{c,nullptr}; }
static inline V X(E e){ return V{0,e}; }
static inline bool same(const V& a,const V& b){ return a.e==b.e && (a.e || a.c==b.c); }
static inline uint64_t mask(int w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline int64_t sx(uint64_t v,int w){ return w>=64?(int64_t)v:(int64_t)(v<<(64-w))>>(64-w); }

struct Expr {
    uint8_t op, w, nk; uint16_t aux; uint32_t id; uint32_t hash;
    V k[3]; uint8_t kw[3];
    uint64_t lo,hi;       // unsigned interval
    int64_t slo,shi;      // signed interval
    uint8_t tz;           // known trailing zeros
    bool fp;              // contains FP ops (transitively)
    bool uf;
};

struct VarInfo { std::string name; int w; };
struct ExprPool {
    std::vector<Expr*> all; std::vector<E> tab; size_t cnt=0;
    std::vector<VarInfo> vars; std::vector<E> varE;
    std::vector<std::string> ufs; std::unordered_map<std::string,int> ufIdx;
    ExprPool(){ tab.resize(1<<16); }
};
extern ExprPool P;

static inline uint32_t hmix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return (uint32_t)(h^(h>>32)); }
// interval of a V
static inline uint64_t ulo(V v,int){ return v.e?v.e->lo:v.c; }
static inline uint64_t uhi(V v,int){ return v.e?v.e->hi:v.c; }
static inline int64_t slo(V v,int w){ return v.e?v.e->slo:sx(v.c,w); }
static inline int64_t shi(V v,int w){ return v.e?v.e->shi:sx(v.c,w); }
static inline int tzv(V v){ if(v.e) return v.e->tz; return v.c?__builtin_ctzll(v.c):64; }

V mkVar(const std::string& name,int w);
V mk(Op op,int w,int nk,V a,int wa,V b,int wb,V c=C(0),int wc=0,int aux=0);
V bAdd(V a,V b,int w); V bSub(V a,V b,int w); V bMul(V a,V b,int w);
V bUdiv(V a,V b,int w); V bSdiv(V a,V b,int w); V bUrem(V a,V b,int w); V bSrem(V a,V b,int w);
V bAnd(V a,V b,int w); V bOr(V a,V b,int w); V bXor(V a,V b,int w);
V bShl(V a,V b,int w); V bLshr(V a,V b,int w); V bAshr(V a,V b,int w);
V bEq(V a,V b,int w); V bUlt(V a,V b,int w); V bSlt(V a,V b,int w);
static inline V bNot(V a){ return bXor(a,C(1),1); }
static inline V bUle(V a,V b,int w){ return bNot(bUlt(b,a,w)); }
static inline V bSle(V a,V b,int w){ return bNot(bSlt(b,a,w)); }
V bIte(V c,V a,V b,int w);
V bZext(V a,int wf,int wt); V bSext(V a,int wf,int wt); V bExtract(V a,int wf,int lo,int w);
static inline V bTrunc(V a,int wf,int wt){ return wf==wt?a:bExtract(a,wf,0,wt); }
V bConcat(V hi,int wh,V lo,int wl);
V fBin(Op op,V a,V b,int w); V fSqrt(V a,int w); V fCmp(Op op,V a,V b,int w);
V fToSI(V a,int wf,int wi); V fToUI(V a,int wf,int wi); V fFromSI(V a,int wi,int wf); V fFromUI(V a,int wi,int wf);
V fExt(V a); V fTrunc(V a); V fRoundI(V a,int w,int mode/*0 rne,1 floor,2 ceil,3 trunc,4 away*/); V fFma(V a,V b,V c,int w);
V mkUF(const std::string& name,int w,const std::vector<V>& a,const std::vector<int>& wa);
uint64_t evalOp(const Expr* e,const uint64_t* kv);
std::string show(V v,int w,int depth=6);
