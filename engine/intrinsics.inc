#include <llvm/IR/IntrinsicsX86.h>
static void ret1(State& s,DI& d,V v){ VV r{v}; setRet(s,d,r); afterCall(s,d); }
static void retN(State& s,DI& d,const VV& v){ setRet(s,d,v); afterCall(s,d); }
static void wideArith(State& s,DI& d,VV& a,VV& b,const std::vector<Lane>& L,VV& o){
    int n=d.nl; switch(d.opc){
    case Instruction::And: for(int i=0;i<n;i++) o.push_back(bAnd(a[i],b[i],L[i].w)); return; case Instruction::Or: for(int i=0;i<n;i++) o.push_back(bOr(a[i],b[i],L[i].w)); return; case Instruction::Xor: for(int i=0;i<n;i++) o.push_back(bXor(a[i],b[i],L[i].w)); return;
    case Instruction::Add: { V c=C(0); for(int i=0;i<n;i++){ V t=bAdd(a[i],b[i],L[i].w); V c1=bUlt(t,a[i],L[i].w); V u=bAdd(t,bZext(c,1,L[i].w),L[i].w); V c2=bUlt(u,t,L[i].w); o.push_back(u); c=bOr(c1,c2,1);} return; }
    case Instruction::Mul: if(n==2){ // 64x64->128 low parts via 32-bit pieces
        V al=a[0],bl=b[0]; auto lo=[&](V x){ return bZext(bExtract(x,64,0,32),32,64); }; auto hi=[&](V x){ return bLshr(x,C(32),64); };
        V p0=bMul(lo(al),lo(bl),64),p1=bMul(lo(al),hi(bl),64),p2=bMul(hi(al),lo(bl),64),p3=bMul(hi(al),hi(bl),64);
        V mid=bAdd(bAdd(hi(p0),lo(p1),64),lo(p2),64); V r0=bOr(lo(p0),bShl(mid,C(32),64),64); V r1=bAdd(bAdd(bAdd(p3,hi(p1),64),hi(p2),64),hi(mid),64); r1=bAdd(r1,bAdd(bMul(a[0],b[1],64),bMul(a[1],b[0],64),64),64); o.push_back(r0); o.push_back(r1); return; } break;
    case Instruction::LShr: case Instruction::Shl: if(b[0].isc()){ int sh=b[0].c; VV x; int q=sh/64,r=sh%64; for(int i=0;i<n;i++){ V v=C(0); if(d.opc==Instruction::LShr){ if(i+q<n) v=bLshr(a[i+q],C(r),64); if(r&&i+q+1<n) v=bOr(v,bShl(a[i+q+1],C(64-r),64),64); } else { if(i-q>=0) v=bShl(a[i-q],C(r),64); if(r&&i-q-1>=0) v=bOr(v,bLshr(a[i-q-1],C(64-r),64),64); } o.push_back(v); } return; } break;
    }
    throw Unsup{"wide integer arithmetic"}; }
static V sminmax(V a,V b,int w,bool mx,bool sg){ V c=sg?bSlt(a,b,w):bUlt(a,b,w); return mx?bIte(c,b,a,w):bIte(c,a,b,w); }
static V addSat(V a,V b,int w,bool sg,bool sub){ if(!sg){ if(sub) return bIte(bUlt(a,b,w),C(0),bSub(a,b,w),w); V r=bAdd(a,b,w); return bIte(bUlt(r,a,w),C(mask(w)),r,w); }
    int w2=w+2; if(w2>64) throw Unsup{"sat64"}; V x=bSext(a,w,w2),y=bSext(b,w,w2); V r=sub?bSub(x,y,w2):bAdd(x,y,w2); int64_t mx=(int64_t)(mask(w)>>1),mn=-mx-1; V lo=C((uint64_t)mn&mask(w2)),hi=C((uint64_t)mx); return bTrunc(bIte(bSlt(hi,r,w2),hi,bIte(bSlt(r,lo,w2),lo,r,w2),w2),w2,w); }
static V satTo(V a,int w,int64_t lo,int64_t hi,int wo){ return bTrunc(bIte(bSlt(C((uint64_t)hi&mask(w)),a,w),C((uint64_t)hi&mask(w)),bIte(bSlt(a,C((uint64_t)lo&mask(w)),w),C((uint64_t)lo&mask(w)),a,w),w),w,wo); }
static V fmm(V a,V b,int w,bool mx){ V c=mx?fCmp(FLT,b,a,w):fCmp(FLT,a,b,w); return bIte(c,a,b,w); } // x86 min/max semantics
static V ctz(V a,int w){ V r=C(w); for(int i=w-1;i>=0;i--) r=bIte(bExtract(a,w,i,1),C(i),r,w); return r; }
static V clz(V a,int w){ V r=C(w); for(int i=0;i<w;i++) r=bIte(bExtract(a,w,i,1),C(w-1-i),r,w); return r; }
static void doMemset(State& s,V p,V v,uint64_t n){ if(!n) return; std::vector<Rs> r; resolve(s,p,n,r,"write"); for(auto&x:r){ bool full=r.size()==1&&x.off.isc(); if(full&&v.isc()){ getObj(s,x.obj); ObjState* o=s.mem.wr(x.obj); memset(&o->b[x.off.c],(int)v.c,n); if(!o->s.empty()){ if(x.off.c==0&&n==o->b.size()) o->s.clear(); else for(uint64_t i=0;i<n;i++) o->s[x.off.c+i].e=nullptr; } } else for(uint64_t i=0;i<n;i++) storeAt(s,x.obj,bAdd(x.off,C(i),64),r.size()==1?C(1):x.cond,v,1); } }
static void execIntr(State& s,DI& d,VV& A){
    auto&L=d.nl?lanes(d.I->getType()):lanes(Type::getVoidTy(d.I->getContext())); int n=d.nl; int w=n?L[0].w:0; VV o; auto N1=[&](std::function<V(V,int)> f){ for(int i=0;i<n;i++) o.push_back(f(A[i],L[i].w)); retN(s,d,o); }; auto N2=[&](std::function<V(V,V,int)> f){ for(int i=0;i<n;i++) o.push_back(f(A[i],A[n+i],L[i].w)); retN(s,d,o); };
    switch(d.intr){
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: afterCall(s,d); return;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: ret1(s,d,C(0)); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: o.assign(A.begin(),A.begin()+n); retN(s,d,o); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: assertion(s,C(0),"trap","trap reached (undefined behaviour / abort)"); throw EndPath();
    case Intrinsic::load_relative: { V q=bAdd(A[0],A[1],64); V r=loadV(s,q,4); ret1(s,d,bAdd(A[0],bSext(r,32,64),64)); return; }
    case Intrinsic::objectsize: ret1(s,d,C(mask(w))); return;
    case Intrinsic::is_constant: ret1(s,d,C(0)); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t k=A[2].isc()?A[2].c:conc1(s,A[2],64,"memcpy size"); copyBytes(s,A[0],A[1],k); afterCall(s,d); return; }
    case Intrinsic::memset: { uint64_t k=A[2].isc()?A[2].c:conc1(s,A[2],64,"memset size"); doMemset(s,A[0],A[1],k); afterCall(s,d); return; }
    case Intrinsic::umin: N2([](V a,V b,int w){ return sminmax(a,b,w,false,false); }); return; case Intrinsic::umax: N2([](V a,V b,int w){ return sminmax(a,b,w,true,false); }); return;
    case Intrinsic::smin: N2([](V a,V b,int w){ return sminmax(a,b,w,false,true); }); return; case Intrinsic::smax: N2([](V a,V b,int w){ return sminmax(a,b,w,true,true); }); return;
    case Intrinsic::abs: N1([](V a,int w){ return bIte(bSlt(a,C(0),w),bSub(C(0),a,w),a,w); }); return;
    case Intrinsic::ctpop: N1(popcnt); return; case Intrinsic::cttz: N1([](V a,int w){ return ctz(a,w); }); return; case Intrinsic::ctlz: N1([](V a,int w){ return clz(a,w); }); return;
    case Intrinsic::bswap: N1([](V a,int w){ V r=bExtract(a,w,w-8,8); int got=8; for(int i=w-16;i>=0;i-=8){ r=bConcat(bExtract(a,w,i,8),8,r,got); got+=8; } return r; }); return;
    case Intrinsic::bitreverse: N1([](V a,int w){ V r=bExtract(a,w,w-1,1); for(int i=w-2;i>=0;i--) r=bConcat(bExtract(a,w,i,1),1,r,w-1-i); return r; }); return;
    case Intrinsic::fshl: case Intrinsic::fshr: for(int i=0;i<n;i++){ int w=L[i].w; V a=A[i],b=A[n+i],c=bUrem(A[2*n+i],C(w),w); V z=bEq(c,C(0),w); V inv=bSub(C(w),c,w); if(d.intr==Intrinsic::fshl) o.push_back(bIte(z,a,bOr(bShl(a,c,w),bLshr(b,inv,w),w),w)); else o.push_back(bIte(z,b,bOr(bShl(a,inv,w),bLshr(b,c,w),w),w)); } retN(s,d,o); return;
    case Intrinsic::uadd_sat: N2([](V a,V b,int w){ return addSat(a,b,w,false,false); }); return; case Intrinsic::usub_sat: N2([](V a,V b,int w){ return addSat(a,b,w,false,true); }); return;
    case Intrinsic::sadd_sat: N2([](V a,V b,int w){ return addSat(a,b,w,true,false); }); return; case Intrinsic::ssub_sat: N2([](V a,V b,int w){ return addSat(a,b,w,true,true); }); return;
    case Intrinsic::uadd_with_overflow: { V r=bAdd(A[0],A[1],w); retN(s,d,{r,bUlt(r,A[0],w)}); return; } case Intrinsic::usub_with_overflow: retN(s,d,{bSub(A[0],A[1],w),bUlt(A[0],A[1],w)}); return;
    case Intrinsic::sadd_with_overflow: { V r=bAdd(A[0],A[1],w); V sa=bSlt(A[0],C(0),w),sb=bSlt(A[1],C(0),w),sr=bSlt(r,C(0),w); retN(s,d,{r,bAnd(bEq(sa,sb,1),bXor(sa,sr,1),1)}); return; }
    case Intrinsic::ssub_with_overflow: { V r=bSub(A[0],A[1],w); V sa=bSlt(A[0],C(0),w),sb=bSlt(A[1],C(0),w),sr=bSlt(r,C(0),w); retN(s,d,{r,bAnd(bXor(sa,sb,1),bXor(sa,sr,1),1)}); return; }
    case Intrinsic::umul_with_overflow: { if(A[0].isc()&&A[1].isc()){ unsigned __int128 p=(unsigned __int128)A[0].c*A[1].c; retN(s,d,{C((uint64_t)p&mask(w)),C(p>mask(w))}); return; } V ov; if(w<=32){ V p=bMul(bZext(A[0],w,64),bZext(A[1],w,64),64); ov=bUlt(C(mask(w)),p,64); } else { V b=A[1].isc()?A[1]:A[0],a=A[1].isc()?A[0]:A[1]; if(!b.isc()) { VV x{a,C(0)},y{b,C(0)},z; std::vector<Lane> LL{{64,0,'i'},{64,8,'i'}}; DI dd; dd.opc=Instruction::Mul; dd.nl=2; wideArith(s,dd,x,y,LL,z); ov=bNot(bEq(z[1],C(0),64)); } else ov=b.c?bUlt(C(mask(w)/b.c),a,w):C(0); } retN(s,d,{bMul(A[0],A[1],w),ov}); return; }
    case Intrinsic::smul_with_overflow: { if(w<=32){ V p=bMul(bSext(A[0],w,64),bSext(A[1],w,64),64); V t=bTrunc(p,64,w); retN(s,d,{t,bNot(bEq(bSext(t,w,64),p,64))}); return; } if(A[0].isc()&&A[1].isc()){ __int128 p=(__int128)(int64_t)A[0].c*(int64_t)A[1].c; retN(s,d,{C((uint64_t)p),C(p!=(int64_t)p)}); return; } throw Unsup{"smul.ov64"}; }
    case Intrinsic::fabs: N1(fabs_); return; case Intrinsic::floor: N1([](V a,int w){ return fRoundI(a,w,1); }); return; case Intrinsic::ceil: N1([](V a,int w){ return fRoundI(a,w,2); }); return; case Intrinsic::trunc: N1([](V a,int w){ return fRoundI(a,w,3); }); return; case Intrinsic::round: N1([](V a,int w){ return fRoundI(a,w,4); }); return; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: N1([](V a,int w){ return fRoundI(a,w,0); }); return;
    case Intrinsic::lrint: case Intrinsic::llrint: { auto&LA=lanes(d.I->getOperand(0)->getType()); ret1(s,d,fToSI(fRoundI(A[0],LA[0].w,0),LA[0].w,w)); return; } case Intrinsic::lround: case Intrinsic::llround: { auto&LA=lanes(d.I->getOperand(0)->getType()); ret1(s,d,fToSI(fRoundI(A[0],LA[0].w,4),LA[0].w,w)); return; }
    case Intrinsic::sqrt: N1(fSqrt); return; case Intrinsic::fma: for(int i=0;i<n;i++) o.push_back(fFma(A[i],A[n+i],A[2*n+i],L[i].w)); retN(s,d,o); return; case Intrinsic::fmuladd: for(int i=0;i<n;i++) o.push_back(fBin(FADD,fBin(FMUL,A[i],A[n+i],L[i].w),A[2*n+i],L[i].w)); retN(s,d,o); return;
    case Intrinsic::copysign: N2([](V a,V b,int w){ return bOr(bAnd(a,C(mask(w-1)),w),bAnd(b,C(1ull<<(w-1)),w),w); }); return;
    case Intrinsic::minnum: N2([](V a,V b,int w){ V na=fCmp(FUNO,a,a,w); return bIte(na,b,bIte(fCmp(FLT,b,a,w),b,a,w),w); }); return; case Intrinsic::maxnum: N2([](V a,V b,int w){ V na=fCmp(FUNO,a,a,w); return bIte(na,b,bIte(fCmp(FLT,a,b,w),b,a,w),w); }); return;
    case Intrinsic::is_fpclass: { unsigned t=A[1].c; auto&LA=lanes(d.I->getOperand(0)->getType()); int fw=LA[0].w; V x=A[0]; V r=C(0); int eb=fw==32?8:11,mb=fw==32?23:52; V ex=bExtract(x,fw,mb,eb),mn=bExtract(x,fw,0,mb),sg=bExtract(x,fw,fw-1,1); V em=bEq(ex,C(mask(eb)),eb),ez=bEq(ex,C(0),eb),mz=bEq(mn,C(0),mb); V q=bExtract(mn,mb,mb-1,1); if(t&1) r=bOr(r,bAnd(em,bAnd(bNot(mz),bNot(q),1),1),1); if(t&2) r=bOr(r,bAnd(em,q,1),1); if(t&4) r=bOr(r,bAnd(bAnd(em,mz,1),sg,1),1); if(t&8) r=bOr(r,bAnd(bAnd(bNot(em),bNot(ez),1),sg,1),1); if(t&16) r=bOr(r,bAnd(bAnd(ez,bNot(mz),1),sg,1),1); if(t&32) r=bOr(r,bAnd(bAnd(ez,mz,1),sg,1),1); if(t&64) r=bOr(r,bAnd(bAnd(ez,mz,1),bNot(sg),1),1); if(t&128) r=bOr(r,bAnd(bAnd(ez,bNot(mz),1),bNot(sg),1),1); if(t&256) r=bOr(r,bAnd(bAnd(bNot(em),bNot(ez),1),bNot(sg),1),1); if(t&512) r=bOr(r,bAnd(bAnd(em,mz,1),bNot(sg),1),1); ret1(s,d,r); return; }
    case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::powi: { const char* nm=d.intr==Intrinsic::exp?"exp":d.intr==Intrinsic::log?"log":d.intr==Intrinsic::pow?"pow":d.intr==Intrinsic::sin?"sin":d.intr==Intrinsic::cos?"cos":d.intr==Intrinsic::exp2?"exp2":d.intr==Intrinsic::log2?"log2":d.intr==Intrinsic::log10?"log10":"powi"; std::string nn=nm; if(w==32) nn+="f"; std::vector<int> ws(A.size(),w); ret1(s,d,mkUF(nn,w,A,ws)); return; }
    case Intrinsic::vector_reduce_add: { auto&LA=lanes(d.I->getOperand(0)->getType()); V r=A[0]; for(size_t i=1;i<LA.size();i++) r=bAdd(r,A[i],w); ret1(s,d,r); return; } case Intrinsic::vector_reduce_or: { V r=A[0]; for(size_t i=1;i<A.size();i++) r=bOr(r,A[i],w); ret1(s,d,r); return; } case Intrinsic::vector_reduce_and: { V r=A[0]; for(size_t i=1;i<A.size();i++) r=bAnd(r,A[i],w); ret1(s,d,r); return; } case Intrinsic::vector_reduce_xor: { V r=A[0]; for(size_t i=1;i<A.size();i++) r=bXor(r,A[i],w); ret1(s,d,r); return; } case Intrinsic::vector_reduce_mul: { V r=A[0]; for(size_t i=1;i<A.size();i++) r=bMul(r,A[i],w); ret1(s,d,r); return; }
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: { V r=A[0]; for(size_t i=1;i<A.size();i++) r=sminmax(r,A[i],w,d.intr==Intrinsic::vector_reduce_umax||d.intr==Intrinsic::vector_reduce_smax,d.intr==Intrinsic::vector_reduce_smax||d.intr==Intrinsic::vector_reduce_smin); ret1(s,d,r); return; }
    case Intrinsic::vector_reduce_fadd: { V r=A[0]; for(size_t i=1;i<A.size();i++) r=fBin(FADD,r,A[i],w); ret1(s,d,r); return; }
    case Intrinsic::eh_typeid_for: ret1(s,d,C(typeId(A[0].c))); return;
    case Intrinsic::vastart: { Frame& f=top(s); VV va=f.varargs; int id=allocObj(s,std::max<size_t>(16,va.size()*8+8),'S',"varargs",0); for(size_t i=0;i<va.size();i++){ int ww=8; V v=va[i]; if(v.e&&v.e->w<64) v=bZext(v,v.e->w,64); writeObj(s,id,i*8,v,ww); } top(s).allocas.push_back(id); storeV(s,A[0],C(48),4); storeV(s,ptrOff(A[0],4),C(176),4); storeV(s,ptrOff(A[0],8),C(objs[id].addr),8); storeV(s,ptrOff(A[0],16),C(0),8); afterCall(s,d); return; }
    case Intrinsic::vaend: afterCall(s,d); return; case Intrinsic::vacopy: copyBytes(s,A[0],A[1],24); afterCall(s,d); return;
    // ---- x86 ----
    case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: { V r=C(0); int m=A.size(); for(int i=0;i<m;i++){ V b=bExtract(A[i],8,7,1); r=i?bConcat(b,1,r,i):b; } ret1(s,d,bZext(r,m,32)); return; }
    case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_sse2_movmsk_pd: { V r=C(0); int m=A.size(); int ww=d.intr==Intrinsic::x86_sse_movmsk_ps?32:64; for(int i=0;i<m;i++){ V b=bExtract(A[i],ww,ww-1,1); r=i?bConcat(b,1,r,i):b; } ret1(s,d,bZext(r,m,32)); return; }
    case Intrinsic::x86_ssse3_pshuf_b_128: for(int i=0;i<16;i++){ V ix=A[16+i]; V sel=bExtract(ix,8,0,4); V r=A[15]; if(ix.isc()) r=A[ix.c&15]; else for(int k=14;k>=0;k--) r=bIte(bEq(sel,C(k),4),A[k],r,8); o.push_back(bIte(bExtract(ix,8,7,1),C(0),r,8)); } retN(s,d,o); return;
    case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse2_packsswb_128: for(int i=0;i<16;i++) o.push_back(d.intr==Intrinsic::x86_sse2_packuswb_128?satTo(A[i],16,0,255,8):satTo(A[i],16,-128,127,8)); retN(s,d,o); return;
    case Intrinsic::x86_sse2_packssdw_128: for(int i=0;i<8;i++) o.push_back(satTo(A[i],32,-32768,32767,16)); retN(s,d,o); return; case Intrinsic::x86_sse41_packusdw: for(int i=0;i<8;i++) o.push_back(satTo(A[i],32,0,65535,16)); retN(s,d,o); return;
    case Intrinsic::x86_sse2_psad_bw: for(int h=0;h<2;h++){ V r=C(0); for(int i=0;i<8;i++){ V a=bZext(A[h*8+i],8,16),b=bZext(A[16+h*8+i],8,16); r=bAdd(r,bIte(bUlt(a,b,16),bSub(b,a,16),bSub(a,b,16),16),16); } o.push_back(bZext(r,16,64)); } retN(s,d,o); return;
    case Intrinsic::x86_sse2_pmadd_wd: for(int i=0;i<4;i++){ auto S3=[&](int k){ return bMul(bSext(A[k],16,32),bSext(A[8+k],16,32),32); }; o.push_back(bAdd(S3(2*i),S3(2*i+1),32)); } retN(s,d,o); return;
    case Intrinsic::x86_sse2_cvtsd2si: case Intrinsic::x86_sse2_cvtsd2si64: ret1(s,d,fToSI(fRoundI(A[0],64,0),64,w)); return; case Intrinsic::x86_sse_cvtss2si: case Intrinsic::x86_sse_cvtss2si64: ret1(s,d,fToSI(fRoundI(A[0],32,0),32,w)); return; case Intrinsic::x86_sse2_cvttsd2si: case Intrinsic::x86_sse2_cvttsd2si64: ret1(s,d,fToSI(A[0],64,w)); return; case Intrinsic::x86_sse_cvttss2si: case Intrinsic::x86_sse_cvttss2si64: ret1(s,d,fToSI(A[0],32,w)); return;
    case Intrinsic::x86_sse_min_ss: case Intrinsic::x86_sse_max_ss: case Intrinsic::x86_sse2_min_sd: case Intrinsic::x86_sse2_max_sd: o.assign(A.begin(),A.begin()+n); o[0]=fmm(A[0],A[n],w,d.intr==Intrinsic::x86_sse_max_ss||d.intr==Intrinsic::x86_sse2_max_sd); retN(s,d,o); return;
    case Intrinsic::x86_sse_min_ps: case Intrinsic::x86_sse2_min_pd: N2([](V a,V b,int w){ return fmm(a,b,w,false); }); return; case Intrinsic::x86_sse_max_ps: case Intrinsic::x86_sse2_max_pd: N2([](V a,V b,int w){ return fmm(a,b,w,true); }); return;
    case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_sse41_ptestnzc: { V z=C(1),c=C(1); int m=A.size()/2; for(int i=0;i<m;i++){ z=bAnd(z,bEq(bAnd(A[i],A[m+i],64),C(0),64),1); c=bAnd(c,bEq(bAnd(bXor(A[i],C(~0ull),64),A[m+i],64),C(0),64),1); } V r=d.intr==Intrinsic::x86_sse41_ptestz?z:d.intr==Intrinsic::x86_sse41_ptestc?c:bAnd(bNot(z),bNot(c),1); ret1(s,d,bZext(r,1,32)); return; }
    case Intrinsic::x86_sse41_pblendvb: for(int i=0;i<16;i++) o.push_back(bIte(bExtract(A[32+i],8,7,1),A[16+i],A[i],8)); retN(s,d,o); return;
    case Intrinsic::x86_sse41_blendvps: for(int i=0;i<4;i++) o.push_back(bIte(bExtract(A[8+i],32,31,1),A[4+i],A[i],32)); retN(s,d,o); return;
    case Intrinsic::x86_ssse3_phadd_d_128: case Intrinsic::x86_ssse3_phadd_w_128: { int m=n/2; for(int h=0;h<2;h++) for(int i=0;i<m;i++) o.push_back(bAdd(A[h*n+2*i],A[h*n+2*i+1],w)); retN(s,d,o); return; }
    case Intrinsic::x86_sse3_hadd_ps: case Intrinsic::x86_sse3_hadd_pd: { int m=n/2; for(int h=0;h<2;h++) for(int i=0;i<m;i++) o.push_back(fBin(FADD,A[h*n+2*i],A[h*n+2*i+1],w)); retN(s,d,o); return; }
    case Intrinsic::x86_sse41_phminposuw: { V mn=A[0],ix=C(0); for(int i=1;i<8;i++){ V c=bUlt(A[i],mn,16); mn=bIte(c,A[i],mn,16); ix=bIte(c,C(i),ix,16); } o.assign(8,C(0)); o[0]=mn; o[1]=ix; retN(s,d,o); return; }
    case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_pslli_q: { bool l=d.intr==Intrinsic::x86_sse2_pslli_d||d.intr==Intrinsic::x86_sse2_pslli_w||d.intr==Intrinsic::x86_sse2_pslli_q; V c=A[n]; for(int i=0;i<n;i++){ V ov=bUle(C(w),c,32); V cc=w<32?bTrunc(c,32,w):bZext(c,32,w); o.push_back(bIte(ov,C(0),l?bShl(A[i],cc,w):bLshr(A[i],cc,w),w)); } retN(s,d,o); return; }
    case Intrinsic::x86_sse2_pause: case Intrinsic::x86_sse2_lfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse_sfence: afterCall(s,d); return;
    case Intrinsic::x86_sse41_round_ss: case Intrinsic::x86_sse41_round_sd: { int md=(int)A[2*n].c&7; o.assign(A.begin(),A.begin()+n); o[0]=fRoundI(A[n],w,(md&4)?0:(md&3)); retN(s,d,o); return; }
    }
    throw Unsup{"intrinsic "+d.callee->getName().str()+" at "+where(s)}; }

// ---------------- handlers ----------------
static V rndVal(State& s,const std::string& nm,int ew){ V& c=s.ctr.emplace(nm,C(0)).first->second; V cur=c; uint64_t lo=ulo(cur,32),hi=uhi(cur,32); inputVar(nm,ew,hi); V r; if(cur.isc()) r=inputVar(nm,ew,cur.c); else { r=inputVar(nm,ew,hi); for(uint64_t i=hi;i-->lo;) r=bIte(bEq(cur,C(i),32),inputVar(nm,ew,i),r,ew*8); } s.ctr[nm]=bAdd(cur,C(1),32); return r; }
static int doMalloc(State& s,V sz,const char* nm,int init){ uint64_t n=sz.isc()?sz.c:conc1(s,sz,64,"allocation size"); if(n>(256u<<20)) return -1; return allocObj(s,n,'H',nm,init); }
static void hMalloc(State& s,DI& d,VV& A){ int id=doMalloc(s,A[0],"malloc",1); ret1(s,d,C(id<0?0:objs[id].addr)); }
static void throwByName(State& s,const char* ti);
static void hNew(State& s,DI& d,VV& A){ int id=doMalloc(s,A[0],"new",1); if(id<0){ throwByName(s,"_ZTISt9bad_alloc"); return; } ret1(s,d,C(objs[id].addr)); }
static void hCalloc(State& s,DI& d,VV& A){ int id=doMalloc(s,bMul(A[0],A[1],64),"calloc",0); ret1(s,d,C(id<0?0:objs[id].addr)); }
static void freeAddr(State& s,V p,const char* what){ if(p.isc()){ if(!p.c) return; int id=findObj(p.c); if(id<0||objs[id].addr!=p.c||objs[id].kind!='H'||!live(s,id)){ memError(s,C(1),std::string("invalid or double ")+what); throw EndPath(); } s.mem.set(id,FREED); return; }
    std::vector<std::pair<V,V>> lv; leaves(p,C(1),lv,0); for(auto&l:lv){ if(l.second.isc()&&l.second.c==0) continue; if(!l.second.isc()){ uint64_t a=conc1(s,l.second,64,"free"); (void)a; continue; } int id=findObj(l.second.c); if(id<0||objs[id].addr!=l.second.c||objs[id].kind!='H'||!live(s,id)){ if(feasible(s,l.first)!=UNSAT){ memError(s,l.first,std::string("invalid or double ")+what); addPC(s,bNot(l.first)); } continue; } if(feasible(s,bNot(l.first))==UNSAT) s.mem.set(id,FREED); } }
static void hFree(State& s,DI& d,VV& A){ freeAddr(s,A[0],"free"); retN(s,d,{}); }
static void hRealloc(State& s,DI& d,VV& A){ int id=doMalloc(s,A[1],"realloc",1); if(A[0].isc()&&A[0].c){ int o=findObj(A[0].c); uint64_t n=std::min(objs[o].size,objs[id].size); copyBytes(s,C(objs[id].addr),A[0],n); freeAddr(s,A[0],"realloc"); } ret1(s,d,C(objs[id].addr)); }
static void hMemalign(State& s,DI& d,VV& A){ int id=doMalloc(s,A[1],"memalign",1); ret1(s,d,C(objs[id].addr)); }
static void hPosixMemalign(State& s,DI& d,VV& A){ int id=doMalloc(s,A[2],"memalign",1); storeV(s,A[0],C(objs[id].addr),8); ret1(s,d,C(0)); }
static void hMemcpy(State& s,DI& d,VV& A){ uint64_t k=A[2].isc()?A[2].c:conc1(s,A[2],64,"memcpy"); copyBytes(s,A[0],A[1],k); ret1(s,d,A[0]); }
static void hMemset(State& s,DI& d,VV& A){ uint64_t k=A[2].isc()?A[2].c:conc1(s,A[2],64,"memset"); doMemset(s,A[0],bTrunc(A[1],32,8),k); ret1(s,d,A[0]); }
static void hMemcmp(State& s,DI& d,VV& A){ uint64_t k=A[2].isc()?A[2].c:conc1(s,A[2],64,"memcmp"); V r=C(0); for(uint64_t i=k;i-->0;){ V a=loadV(s,ptrOff(A[0],i),1),b=loadV(s,ptrOff(A[1],i),1); V df=bSub(bZext(a,8,32),bZext(b,8,32),32); r=bIte(bEq(a,b,8),r,df,32); } ret1(s,d,r); }
static void hAssume(State& s,DI& d,VV& A){ V c=bNot(bEq(A[0],C(0),32)); if(feasible(s,c)==UNSAT) throw EndPath(); addPC(s,c); retN(s,d,{}); }
static void hCheck(State& s,DI& d,VV& A){ V c=bNot(bEq(A[0],C(0),32)); assertion(s,c,"check",readStr(s,A[1])); retN(s,d,{}); }
static void hCover(State& s,DI& d,VV& A){ std::string n=readStr(s,A[0]); if(!covered.count(n)&&feasible(s,C(1))!=UNSAT) covered.insert(n); retN(s,d,{}); }
static void hSym(State& s,DI& d,VV& A){ // (ptr, nelem, elemsize, name)
    std::string n=readStr(s,A[3]); uint64_t ne=A[1].c,es=A[2].c; int& k=s.symCnt[n]; std::string nm=n; if(k) nm+="#"+std::to_string(k); k++; for(uint64_t i=0;i<ne;i++) storeV(s,ptrOff(A[0],i*es),inputVar(nm,es,i),es); if(ne==0) inputVar(nm,es,0); retN(s,d,{}); }
static void hChoice(State& s,DI& d,VV& A){ // int lv_choice(lo,hi,name): concretised by forking, paths kept apart
    std::string n=readStr(s,A[2]); int& k=s.symCnt[n]; std::string nm=n; if(k) nm+="#"+std::to_string(k); k++; V v=inputVar(nm,4,0); int lo=(int)A[0].c,hi=(int)A[1].c; if(lo>hi) throw EndPath(); State* base=cloneState(s); nForks--; nStates--; bool first=true; 
    for(int x=lo;x<=hi;x++){ State* t=first?&s:cloneState(*base); V eq=bEq(v,C((uint32_t)x),32); addPC(*t,eq); if(t->models.empty()){ auto m=std::make_shared<Model>(); for(auto&bm:base->models){ *m=*bm; m->memo.clear(); m->have.clear(); break; } m->val.resize(P.vars.size()); m->val[v.e->k[0].c]=(uint32_t)x; bool ok=true; for(PCNode* q=t->pc;q;q=q->par) if(!m->eval(q->c)){ ok=false; break; } if(ok) t->models.push_back(m); } t->tags.push_back(x); ret1(*t,d,C((uint32_t)x)); if(!first) work.push_back(t); first=false; } delete base; }
static void hRange(State& s,DI& d,VV& A){ // symbolic int in [lo,hi], not concretised
    std::string n=readStr(s,A[2]); int& k=s.symCnt[n]; std::string nm=n; if(k) nm+="#"+std::to_string(k); k++; V v=inputVar(nm,4,0); V c=bAnd(bSle(A[0],v,32),bSle(v,A[1],32),1); addPC(s,c); if(s.models.empty()) { if(feasible(s,C(1))==UNSAT) throw EndPath(); }
    // narrow representation so that intervals are known
    if(A[0].isc()&&A[1].isc()){ uint64_t span=(uint64_t)((int64_t)(int)A[1].c-(int)A[0].c); int nb=1; while(nb<32&&mask(nb)<span) nb++; V off=bSub(v,A[0],32); V nar=bAdd(bZext(bTrunc(off,32,nb),nb,32),A[0],32); ret1(s,d,nar); return; }
    ret1(s,d,v); }
static void hConc(State& s,DI& d,VV& A){ uint64_t x=conc1(s,A[0],32,"lv_concretize"); ret1(s,d,C(x)); }
static void hMerge(State& s,DI& d,VV& A){ s.nomerge=A[0].c?0:1; retN(s,d,{}); }
static void hIsSym(State& s,DI& d,VV& A){ ret1(s,d,C(1)); }
static void hRandFix(State& s,DI& d,VV& A){ s.randfix=(int)A[0].c; retN(s,d,{}); }
static void hRand(State& s,DI& d,VV& A){ if(s.randfix>=0){ ret1(s,d,C((uint64_t)s.randfix)); return; } V r=rndVal(s,"rand",4); ret1(s,d,bAnd(r,C(0x7fffffff),32)); }
static void hVoid(State& s,DI& d,VV& A){ retN(s,d,VV(d.nl,C(0))); }
static void hRet0(State& s,DI& d,VV& A){ retN(s,d,VV(d.nl,C(0))); }
static void hArg0(State& s,DI& d,VV& A){ VV r(d.nl,C(0)); if(d.nl&&A.size()) r[0]=A[0]; retN(s,d,r); }
static void hAbort(State& s,DI& d,VV& A){ assertion(s,C(0),"trap",std::string("abort/terminate: ")+(d.callee?demangle(d.callee->getName().str()):"")); throw EndPath(); }
static void hExit(State& s,DI& d,VV& A){ throw EndPath(); }
// exceptions
static void hExcAlloc(State& s,DI& d,VV& A){ int id=allocObj(s,A[0].c,'H',"exception",0); ret1(s,d,C(objs[id].addr)); }
static void hExcFree(State& s,DI& d,VV& A){ retN(s,d,{}); }
static void hThrow(State& s,DI& d,VV& A){ Exc ex{A[0].c,A[1].c}; excTI[ex.ptr]=ex.ti; doUnwind(s,ex); }
static void throwByName(State& s,const char* ti){ uint64_t t=symAddr(ti); int id=allocObj(s,16,'H',"exception",0); uint64_t vt=symAddr("_ZTVSt9exception"); if(vt) writeObj(s,id,0,C(vt+16),8); Exc ex{objs[id].addr,t}; excTI[ex.ptr]=t; doUnwind(s,ex); }
static void hBeginCatch(State& s,DI& d,VV& A){ Thread& t=s.th[s.cur]; Exc ex{A[0].c,excTI[A[0].c]}; t.caught.push_back(ex); int64_t adj=0; auto it=excAdj.find(ex.ptr); if(it!=excAdj.end()) adj=it->second; ret1(s,d,C(A[0].c+adj)); }
static void hEndCatch(State& s,DI& d,VV& A){ Thread& t=s.th[s.cur]; if(t.caught.size()) t.caught.pop_back(); retN(s,d,{}); }
static void hRethrow(State& s,DI& d,VV& A){ Thread& t=s.th[s.cur]; if(t.caught.empty()) throw Unsup{"rethrow"}; Exc ex=t.caught.back(); doUnwind(s,ex); }
static void hCurExc(State& s,DI& d,VV& A){ Thread& t=s.th[s.cur]; storeV(s,A[0],C(t.caught.empty()?0:t.caught.back().ptr),8); retN(s,d,{}); }
static void hRethrowExc(State& s,DI& d,VV& A){ V p=loadV(s,A[0],8); if(!p.isc()||!p.c) throw Unsup{"rethrow_exception"}; Exc ex{p.c,excTI[p.c]}; doUnwind(s,ex); }
static void hDynCast(State& s,DI& d,VV& A){ if(!A[0].isc()) A[0]=C(conc1(s,A[0],64,"dynamic_cast")); if(!A[0].c){ ret1(s,d,C(0)); return; } uint64_t p=A[0].c; uint64_t vt=rd64(s,p); uint64_t ti=rd64(s,vt-8); int64_t ott=(int64_t)rd64(s,vt-16); int64_t off=0; uint64_t full=p+ott; int64_t o0=0; bool down=tiBase(s,A[2].c,A[1].c,o0); if(tiBase(s,ti,A[2].c,off,full,!down)) ret1(s,d,C(full+off)); else ret1(s,d,C(0)); }
static void hGuardAcq(State& s,DI& d,VV& A){ V b=loadV(s,A[0],1); if(!b.isc()) b=C(conc1(s,b,8,"guard")); ret1(s,d,C(b.c?0:1)); }
static void hGuardRel(State& s,DI& d,VV& A){ storeV(s,A[0],C(1),1); retN(s,d,{}); }
static V strlenV(State& s,V p){ if(!p.isc()) p=C(conc1(s,p,64,"strlen ptr")); std::vector<Rs> r; resolve(s,p,1,r,"read"); int id=r[0].obj; uint64_t off=r[0].off.c; std::vector<V> bs; for(uint64_t i=off;i<objs[id].size;i++){ V b=readObj(s,id,i,1); bs.push_back(b); if(b.isc()&&!b.c) break; } V res; if(!(bs.back().isc()&&bs.back().c==0)){ // may run past the end
        V all=C(1); for(auto&b:bs) all=bAnd(all,bNot(bEq(b,C(0),8)),1); if(feasible(s,all)!=UNSAT){ memError(s,all,"string read past the end of its buffer"); addPC(s,bNot(all)); if(feasible(s,C(1))==UNSAT) throw EndPath(); } res=C(bs.size()-1); } else res=C(bs.size()-1); for(size_t i=bs.size()-1;i-->0;) res=bIte(bEq(bs[i],C(0),8),C(i),res,64); return res; }
static void hStrlen(State& s,DI& d,VV& A){ ret1(s,d,strlenV(s,A[0])); }
// printf-family with concrete formatting of concrete arguments
static bool fmtPrintf(State& s,const std::string& f,std::function<V(int)> next,std::string& out,V& symLen){ for(size_t i=0;i<f.size();){ if(f[i]!='%'){ out+=f[i++]; continue; } size_t j=i+1; if(j<f.size()&&f[j]=='%'){ out+='%'; i=j+1; continue; } std::string spec="%"; bool lng=false; while(j<f.size()&&!isalpha(f[j])){ if(f[j]=='*'){ V v=next(8); if(!v.isc()) return false; spec+=std::to_string((int)v.c); } else spec+=f[j]; j++; } while(j<f.size()&&(f[j]=='l'||f[j]=='z'||f[j]=='h'||f[j]=='j'||f[j]=='t')){ if(f[j]!='h') lng=true; j++; } if(j>=f.size()) return false; char c=f[j]; V v=next(8); if(c=='n'){ memError(s,C(1),"printf-style %n directive writes through a variadic argument"); throw EndPath(); } if(c=='s'){ if(!v.isc()) return false; std::string str=readStr(s,v,1<<20); std::vector<char> b(str.size()+300); int n=snprintf(b.data(),b.size(),(spec+"s").c_str(),str.c_str()); out.append(b.data(),n); } else { if(!v.isc()){ return false; } char b[512]; if(c=='d'||c=='i') snprintf(b,512,(spec+"lld").c_str(),lng?(long long)v.c:(long long)(int)v.c); else if(c=='u'||c=='x'||c=='X'||c=='o') snprintf(b,512,(spec+"ll"+c).c_str(),lng?(unsigned long long)v.c:(unsigned long long)(unsigned)v.c); else if(c=='c') snprintf(b,512,(spec+"c").c_str(),(int)v.c); else if(c=='p') snprintf(b,512,"0x%llx",(unsigned long long)v.c); else { double dd; memcpy(&dd,&v.c,8); snprintf(b,512,(spec+c).c_str(),dd); } out+=b; } i=j+1; } return true; }
static void hVsnprintf(State& s,DI& d,VV& A){ uint64_t n=A[1].isc()?A[1].c:conc1(s,A[1],64,"snprintf size"); std::string fmt=readStr(s,A[2],1<<16); V ap=loadV(s,ptrOff(A[3],8),8); uint64_t p=ap.c; std::string out; V sl; // single "%s" of symbolic-length content handled by readStr '?'
    bool ok=fmtPrintf(s,fmt,[&](int){ V v=loadV(s,C(p),8); p+=8; return v; },out,sl); if(!ok) out="<?>"; if(n){ size_t k=std::min<size_t>(out.size(),n-1); for(size_t i=0;i<k;i++) storeV(s,ptrOff(A[0],i),C((uint8_t)out[i]),1); storeV(s,ptrOff(A[0],k),C(0),1); } ret1(s,d,C((uint32_t)out.size())); }
static void hSnprintf(State& s,DI& d,VV& A){ uint64_t n=A[1].isc()?A[1].c:conc1(s,A[1],64,"snprintf size"); std::string fmt=readStr(s,A[2],1<<16); size_t k0=3; std::string out; V sl; bool ok=fmtPrintf(s,fmt,[&](int){ return k0<A.size()?A[k0++]:C(0); },out,sl); if(!ok) out="<?>"; if(n){ size_t k=std::min<size_t>(out.size(),n-1); for(size_t i=0;i<k;i++) storeV(s,ptrOff(A[0],i),C((uint8_t)out[i]),1); storeV(s,ptrOff(A[0],k),C(0),1); } ret1(s,d,C((uint32_t)out.size())); }
template<int K> static void hUF1(State& s,DI& d,VV& A){ std::string n=d.callee->getName().str(); int w=lanes(d.I->getType())[0].w; std::vector<int> ws(A.size(),w); ret1(s,d,mkUF(n,w,A,ws)); }
static int fw(DI& d){ return lanes(d.I->getOperand(0)->getType())[0].w; }
static void hFloor(State& s,DI& d,VV& A){ ret1(s,d,fRoundI(A[0],fw(d),1)); } static void hCeil(State& s,DI& d,VV& A){ ret1(s,d,fRoundI(A[0],fw(d),2)); } static void hTrunc(State& s,DI& d,VV& A){ ret1(s,d,fRoundI(A[0],fw(d),3)); } static void hRound(State& s,DI& d,VV& A){ ret1(s,d,fRoundI(A[0],fw(d),4)); } static void hRint(State& s,DI& d,VV& A){ ret1(s,d,fRoundI(A[0],fw(d),0)); }
static void hLrint(State& s,DI& d,VV& A){ ret1(s,d,fToSI(fRoundI(A[0],fw(d),0),fw(d),lanes(d.I->getType())[0].w)); } static void hLround(State& s,DI& d,VV& A){ ret1(s,d,fToSI(fRoundI(A[0],fw(d),4),fw(d),lanes(d.I->getType())[0].w)); }
static void hSqrt(State& s,DI& d,VV& A){ ret1(s,d,fSqrt(A[0],fw(d))); } static void hFabs(State& s,DI& d,VV& A){ ret1(s,d,fabs_(A[0],fw(d))); }
static void hFmod(State& s,DI& d,VV& A){ if(!A[0].isc()||!A[1].isc()) throw Unsup{"fmod"}; double x,y; memcpy(&x,&A[0].c,8); memcpy(&y,&A[1].c,8); double r=fmod(x,y); uint64_t u; memcpy(&u,&r,8); ret1(s,d,C(u)); }
static void hFmin(State& s,DI& d,VV& A){ int w=fw(d); ret1(s,d,bIte(fCmp(FUNO,A[0],A[0],w),A[1],bIte(fCmp(FLT,A[1],A[0],w),A[1],A[0],w),w)); } static void hFmax(State& s,DI& d,VV& A){ int w=fw(d); ret1(s,d,bIte(fCmp(FUNO,A[0],A[0],w),A[1],bIte(fCmp(FLT,A[0],A[1],w),A[1],A[0],w),w)); }
static void hAdvance(State& s,DI& d,VV& A){ s.now+=(int64_t)A[0].c*1000000; retN(s,d,{}); }
static void hNow(State& s,DI& d,VV& A){ s.now+=1000; ret1(s,d,C((uint64_t)s.now)); }
// ---------------- threads ----------------
static bool enabled(State& s,int i){ Thread& t=s.th[i]; switch(t.st){ case RUN: return true; case BLK_MUTEX: { auto it=s.mtx.find(t.wobj); return it==s.mtx.end()||it->second==0||it->second==i+1; } case BLK_COND: return t.timed; case BLK_JOIN: return s.th[t.joinId].st==DONE; default: return false; } }
static bool multi(State& s){ int n=0; for(auto&t:s.th) if(t.st!=DONE) n++; return n>1; }
static std::set<uint64_t>* dummy=nullptr;
// a synchronisation handler calls yieldAt first; true means "come back after scheduling"
static bool yieldAt(State& s,int st,uint64_t obj){ Thread& t=s.th[s.cur]; if(t.unwinding){ t.unwinding=false; return false; } t.st=st; t.wobj=obj; if(!multi(s)&&enabled(s,s.cur)){ t.st=RUN; return false; } t.atYield=true; s.needSched=true; return true; }
static bool atomicSched(State& s){ return yieldAt(s,RUN,0); }
static void schedule(State& s,const char*){ nSched++; std::vector<int> en; for(size_t i=0;i<s.th.size();i++) if(enabled(s,i)) en.push_back(i);
    if(optTmo>=0){ std::vector<int> r,tm; for(int i:en) (s.th[i].st==BLK_COND?tm:r).push_back(i); en=r; if(r.empty()&&!tm.empty()){ int b=tm[0]; for(int i:tm) if(s.th[i].deadline<s.th[b].deadline) b=i; en={b}; } else if(s.tmo<optTmo) for(int i:tm) en.push_back(i); }
    if(s.spur<optSpur&&!en.empty()) for(size_t i=0;i<s.th.size();i++) if(s.th[i].st==BLK_COND&&!s.th[i].timed) en.push_back(i); // spurious wake-ups
    if(en.empty()){ bool all=true; for(auto&t:s.th) if(t.st!=DONE) all=false; if(all) throw EndPath(); assertion(s,C(0),"deadlock","deadlock: every thread is blocked"); throw EndPath(); }
    bool curEn=s.th[s.cur].st!=BLK_COND&&std::find(en.begin(),en.end(),s.cur)!=en.end(); if(curEn&&s.preempt>=optMaxCtx) en={s.cur}; s.sched++;
    V ch; std::string nm="sched"; if(en.size()>1){ ch=inputVar(nm,4,s.sched); }
    for(size_t k=0;k<en.size();k++){ State* t=k+1<en.size()?cloneState(s):&s; int old=t->cur; int i=en[k]; if(curEn&&i!=old) t->preempt++; if(t->th[i].st==BLK_COND&&!t->th[i].timed) t->spur++; if(t->th[i].st==BLK_COND&&t->th[i].timed&&en.size()>1) t->tmo++; t->cur=i; Thread& T=t->th[i]; T.unwinding=T.atYield; T.atYield=false; T.st=RUN; t->needSched=false; t->trace.push_back({"t",i}); if(en.size()>1){ V eq=bEq(ch,C(i),32); t->pc=new PCNode{eq,t->pc,t->pc?t->pc->depth+1:1}; std::vector<ModelP> ms; for(auto&m:t->models){ auto c=std::make_shared<Model>(); c->val=m->val; c->val.resize(P.vars.size()); c->val[ch.e->k[0].c]=i; ms.push_back(c); if(ms.size()>=2) break; } t->models=ms; } if(t!=&s){ work.push_back(t); } } if(work.size()>20000) throw Unsup{"too many live states (schedules)"}; }
static void endThread(State& s){ Thread& t=s.th[s.cur]; t.st=DONE; bool all=true; for(auto&x:s.th) if(x.st!=DONE) all=false; if(all||s.cur==0){ if(s.cur==0){ for(size_t i=1;i<s.th.size();i++) if(s.th[i].st!=DONE){ /* main returned with threads alive: harness ends */ } } throw EndPath(); } s.needSched=true; }
static void hMtxLock(State& s,DI& d,VV& A){ uint64_t a=A[0].c; if(yieldAt(s,BLK_MUTEX,a)) return; int& o=s.mtx[a]; if(o==s.cur+1){ assertion(s,C(0),"deadlock","deadlock: mutex locked twice by the same thread"); throw EndPath(); } o=s.cur+1; ret1(s,d,C(0)); }
static void hMtxUnlock(State& s,DI& d,VV& A){ int& o=s.mtx[A[0].c]; if(o!=s.cur+1){ assertion(s,C(0),"sync","mutex unlocked by a thread that does not own it"); throw EndPath(); } o=0; ret1(s,d,C(0)); }
static void hMtxTry(State& s,DI& d,VV& A){ if(yieldAt(s,RUN,0)) return; int& o=s.mtx[A[0].c]; if(o){ ret1(s,d,C(16)); return; } o=s.cur+1; ret1(s,d,C(0)); }
static void condWait(State& s,DI& d,uint64_t cv,uint64_t m,bool timed,int64_t deadline=0){ Thread& t=s.th[s.cur]; if(t.wmtx==0){ int& o=s.mtx[m]; if(o!=s.cur+1){ assertion(s,C(0),"sync","condition wait without owning the mutex"); throw EndPath(); } o=0; t.wmtx=m; t.st=BLK_COND; t.wobj=cv; t.timed=timed; t.deadline=deadline; s.needSched=true; return; }
    // resumed: either notified (st was BLK_MUTEX) or timed out; need mutex
    t.unwinding=false; if(t.timed){ t.timed=false; t.tout=true; if(deadline>s.now) s.now=deadline; } int& o=s.mtx[t.wmtx]; if(o!=0){ t.st=BLK_MUTEX; t.wobj=t.wmtx; s.needSched=true; return; } o=s.cur+1; t.wmtx=0; bool to=t.tout; t.tout=false; retN(s,d,VV(d.nl,C(to?110:0))); }
static int64_t tsDeadline(State& s,V p){ return (int64_t)rd64(s,p.c)*1000000000ll+(int64_t)rd64(s,p.c+8); }
static void hCvWait(State& s,DI& d,VV& A){ V m=loadV(s,A[1],8); condWait(s,d,A[0].c,m.c,false); }
static void hPCvWait(State& s,DI& d,VV& A){ condWait(s,d,A[0].c,A[1].c,false); }
static void hPCvTimed(State& s,DI& d,VV& A){ condWait(s,d,A[0].c,A[1].c,true,tsDeadline(s,A[2])); }
static void hPCvClock(State& s,DI& d,VV& A){ condWait(s,d,A[0].c,A[1].c,true,tsDeadline(s,A[3])); }
static void hNotify(State& s,DI& d,VV& A,bool all){ std::vector<int> w; for(size_t i=0;i<s.th.size();i++) if(s.th[i].st==BLK_COND&&s.th[i].wobj==A[0].c) w.push_back(i); auto wake=[&](State& x,int i){ x.th[i].st=BLK_MUTEX; x.th[i].wobj=x.th[i].wmtx; x.th[i].timed=false; }; if(w.empty()){ retN(s,d,VV(d.nl,C(0))); return; } if(all||w.size()==1){ for(int i:w) wake(s,i); retN(s,d,VV(d.nl,C(0))); return; }
    V ch=inputVar("wake",4,s.sched*4+s.trace.size()%4); for(size_t k=0;k<w.size();k++){ State* t=k+1<w.size()?cloneState(s):&s; V eq=bEq(ch,C(w[k]),32); t->pc=new PCNode{eq,t->pc,t->pc?t->pc->depth+1:1}; std::vector<ModelP> ms; for(auto&m:t->models){ auto c=std::make_shared<Model>(); c->val=m->val; c->val.resize(P.vars.size()); c->val[ch.e->k[0].c]=w[k]; ms.push_back(c); if(ms.size()>=2) break; } t->models=ms; t->trace.push_back({"w",w[k]}); wake(*t,w[k]); retN(*t,d,VV(d.nl,C(0))); t->tags.push_back(w[k]); if(t!=&s) work.push_back(t); } }
static void hNotifyOne(State& s,DI& d,VV& A){ hNotify(s,d,A,false); } static void hNotifyAll(State& s,DI& d,VV& A){ hNotify(s,d,A,true); }
static void hThreadStart(State& s,DI& d,VV& A){ // std::thread::_M_start_thread(this, unique_ptr<_State>, void(*)())
    V st=loadV(s,A[1],8); storeV(s,A[1],C(0),8); uint64_t vt=rd64(s,st.c); uint64_t fn=rd64(s,vt+16); auto it=fnAt.find(fn); if(it==fnAt.end()) throw Unsup{"thread entry"}; Thread nt; s.th.push_back(nt); int tid=s.th.size()-1; storeV(s,A[0],C(tid+1),8); retN(s,d,{}); int sv=s.cur; s.cur=tid; pushCall(s,it->second,{st},nullptr,0); s.cur=sv; }
static void hThreadJoin(State& s,DI& d,VV& A){ V idv=loadV(s,A[0],8); int tid=(int)idv.c-1; Thread& t=s.th[s.cur]; if(tid<=0){ assertion(s,C(0),"sync","join of a non-joinable thread"); throw EndPath(); } t.joinId=tid; if(s.th[tid].st!=DONE||multi(s)){ if(yieldAt(s,BLK_JOIN,0)) return; } storeV(s,A[0],C(0),8); retN(s,d,{}); }
static void hSpawn(State& s,DI& d,VV& A){ auto it=fnAt.find(A[0].c); if(it==fnAt.end()) throw Unsup{"lv_spawn"}; Thread nt; s.th.push_back(nt); int tid=s.th.size()-1; V arg=A[1]; retN(s,d,{C(tid)}); int sv=s.cur; s.cur=tid; pushCall(s,it->second,{arg},nullptr,0); s.cur=sv; }
static void hJoinT(State& s,DI& d,VV& A){ int tid=(int)A[0].c; Thread& t=s.th[s.cur]; t.joinId=tid; if(s.th[tid].st!=DONE||multi(s)){ if(yieldAt(s,BLK_JOIN,0)) return; } retN(s,d,{}); }
static void hYield(State& s,DI& d,VV& A){ if(yieldAt(s,RUN,0)) return; retN(s,d,VV(d.nl,C(0))); }
static void hSelf(State& s,DI& d,VV& A){ ret1(s,d,C(s.cur+1)); }
static bool extCall(State& s,DI& d,Function* F,VV& A){ std::string n=F->getName().str(); auto pre=[&](const char* p){ return n.compare(0,strlen(p),p)==0; };
    if(pre("_ZNSo")||pre("_ZNSi")||pre("_ZStls")||pre("_ZSt16__ostream_insert")||pre("_ZSt4endl")||pre("_ZSt5flush")){ stubCalls["iostream (ignored): "+demangle(n).substr(0,60)]++; VV r(d.nl,C(0)); if(d.nl&&A.size()) r[0]=A[0]; retN(s,d,r); return true; }
    if(pre("_ZNSt8ios_base")||pre("_ZNKSt8ios_base")||pre("_ZNSt6locale")||pre("_ZNKSt6locale")||pre("_ZNSt9basic_ios")||pre("_ZNKSt9basic_ios")||pre("_ZNSt15basic_streambuf")||pre("_ZNSt7__cxx1115basic_stringbuf")||pre("_ZNSt7__cxx1118basic_stringstream")||pre("_ZNSt7__cxx1119basic_ostringstream")||pre("_ZNKSt7__cxx1119basic_ostringstream")||pre("_ZNSt7__cxx1119basic_istringstream")){ if(n.find("3strEv")!=std::string::npos) throw Unsup{"stringstream::str"}; stubCalls["iostream (ignored): "+demangle(n).substr(0,60)]++; retN(s,d,VV(d.nl,C(0))); return true; }
    return false; }
static void initHandlers(){ auto H=[&](std::initializer_list<const char*> ns,Handler h){ for(auto*n:ns) handlers[n]=h; };
    H({"malloc"},hMalloc); H({"_Znwm","_Znam"},hNew); H({"_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"},hMalloc); H({"_ZnwmSt11align_val_t","_ZnamSt11align_val_t"},hMalloc); H({"calloc"},hCalloc); H({"realloc"},hRealloc); H({"aligned_alloc","memalign"},hMemalign); H({"posix_memalign"},hPosixMemalign); H({"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t"},hFree);
    H({"memcpy","memmove"},hMemcpy); H({"memset"},hMemset); H({"memcmp","bcmp"},hMemcmp); H({"strlen"},hStrlen);
    H({"lv_assume"},hAssume); H({"lv_check"},hCheck); H({"lv_cover"},hCover); H({"lv_sym"},hSym); H({"lv_choice"},hChoice); H({"lv_range"},hRange); H({"lv_concretize"},hConc); H({"lv_merge"},hMerge); H({"lv_rand_fix"},hRandFix); H({"lv_is_symbolic"},hIsSym);
    H({"rand"},hRand); H({"srand","printf","puts","putchar","fprintf","fflush","fputs","fputc","fwrite","__cxa_atexit","__cxa_thread_atexit","atexit","perror","vprintf","vfprintf","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","__cxa_guard_abort","pthread_mutex_init","pthread_mutex_destroy","pthread_cond_destroy","pthread_cond_init","_ZNSt18condition_variableC1Ev","_ZNSt18condition_variableD1Ev","_ZNSt18condition_variableC2Ev","_ZNSt18condition_variableD2Ev","_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv","_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv","_ZNSt15__exception_ptr13exception_ptrD1Ev","_ZNSt13exception_ptrD1Ev"},hVoid);
    H({"abort","_ZSt9terminatev","__cxa_pure_virtual","__assert_fail","_ZSt21__glibcxx_assert_failPKciS0_S0_"},hAbort); H({"exit","_exit"},hExit);
    H({"__cxa_allocate_exception"},hExcAlloc); H({"__cxa_free_exception"},hExcFree); H({"__cxa_throw"},hThrow); H({"__cxa_begin_catch","__cxa_get_exception_ptr"},hBeginCatch); H({"__cxa_end_catch"},hEndCatch); H({"__cxa_rethrow"},hRethrow); H({"_ZSt17current_exceptionv"},hCurExc); H({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"},hRethrowExc); H({"__dynamic_cast"},hDynCast);
    H({"__cxa_guard_acquire"},hGuardAcq); H({"__cxa_guard_release"},hGuardRel);
    H({"vsnprintf"},hVsnprintf); H({"snprintf"},hSnprintf);
    H({"exp","log","pow","sin","cos","tan","asin","acos","atan","atan2","log2","log10","expf","logf","powf","sinf","cosf","tanf","acosf","asinf","atanf","atan2f","log2f","log10f","cosh","sinh","exp2","exp2f","fmod","fmodf","lgamma","hypot","hypotf","cbrt","tgamma"},hUF1<0>);
    H({"floor","floorf"},hFloor); H({"ceil","ceilf"},hCeil); H({"trunc","truncf"},hTrunc); H({"round","roundf"},hRound); H({"rint","rintf","nearbyint","nearbyintf"},hRint); H({"lrint","lrintf","llrint"},hLrint); H({"lround","lroundf","llround"},hLround); H({"sqrt","sqrtf"},hSqrt); H({"fabs","fabsf"},hFabs); H({"fmod"},hFmod); H({"fmin","fminf"},hFmin); H({"fmax","fmaxf"},hFmax);
    H({"_ZNSt6chrono3_V212steady_clock3nowEv","_ZNSt6chrono3_V212system_clock3nowEv","time","clock"},hNow);
    H({"lv_advance_ms"},hAdvance); H({"pthread_mutex_lock"},hMtxLock); H({"pthread_mutex_unlock"},hMtxUnlock); H({"pthread_mutex_trylock"},hMtxTry); H({"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"},hCvWait); H({"pthread_cond_wait"},hPCvWait); H({"pthread_cond_timedwait"},hPCvTimed); H({"pthread_cond_clockwait"},hPCvClock); H({"_ZNSt18condition_variable10notify_oneEv","pthread_cond_signal"},hNotifyOne); H({"_ZNSt18condition_variable10notify_allEv","pthread_cond_broadcast"},hNotifyAll);
    H({"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"},hThreadStart); H({"_ZNSt6thread4joinEv"},hThreadJoin); H({"lv_spawn"},hSpawn); H({"lv_join"},hJoinT); H({"lv_yield","sched_yield","nanosleep","usleep"},hYield); H({"pthread_self"},hSelf);
}
