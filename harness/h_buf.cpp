// C03: auto-allocated buffers behave as vectors under every operation history; lookup tables never index outside their bins.
#include "lvh.h"
#include "litiv/utils/cxx.hpp"
#include <vector>
#ifndef THOROUGH
#define NOPS 4
#define NSTEP_MV 2
#else
#define NOPS 5
#define NSTEP_MV 3
#endif
static const int CAP=16;
struct Model { int n=0; uint16_t v[CAP]; bool known[CAP]; void grow(int m){ for(int i=n;i<m;++i) known[i]=false; n=m; } };
template<typename B> static void same(const B& b,const Model& m,const char* msg){ CHECK((int)b.size()==m.n&&b.empty()==(m.n==0)&&b.capacity()>=b.size(),msg); CHECK(b.end()-b.begin()==m.n&&b.data()==b.begin(),"iterators span the elements"); CHECK(lv::isAligned<16>(b.data()),"storage is aligned"); for(int i=0;i<m.n&&i<(int)b.size();++i) if(m.known[i]) CHECK(b[i]==m.v[i]&&b.at(i)==m.v[i],msg); }
template<typename B> static void fillv(B& b,Model& m,const char* nm){ for(int i=0;i<m.n;++i) if(!m.known[i]){ uint16_t x=lv_any<uint16_t>(nm); b[i]=x; m.v[i]=x; m.known[i]=true; } }
template<typename B> static void step(B& b,Model& m,int op,int k){ const int S=(int)b.max_static_size();
    switch(op){
    case 0: { uint16_t x=lv_any<uint16_t>("x"); b.push_back(x); m.v[m.n]=x; m.known[m.n]=true; ++m.n; break; }
    case 1: { bool dyn=!b.is_static(); b.resize(k); if(k<m.n) m.n=k; else m.grow(k); break; }
    case 2: { b.reserve(k); CHECK((int)b.capacity()>=k,"reserve raises the capacity"); break; }
    case 3: { b.clear(); m.n=0; CHECK(b.is_static(),"clear returns to static storage"); break; }
    case 4: { b.resize_static(); if(m.n>S) m.n=S; else m.grow(S); CHECK(b.is_static()&&(int)b.size()==S,"static resize"); break; }
    case 5: { if(m.n>0){ uint16_t x=m.v[0]; bool kn=m.known[0]; b.push_back(b[0]); m.v[m.n]=x; m.known[m.n]=kn; ++m.n; } break; }
    case 6: { uint16_t x=lv_any<uint16_t>("x"); uint16_t y=x; b.push_back(std::move(y)); m.v[m.n]=x; m.known[m.n]=true; ++m.n; break; } } }
HARNESS(h_buf_ops){ int n0=lv_choice(0,2,"n0"); n0=n0?n0+1:0; lv::AutoBuffer<uint16_t,2> b((size_t)n0); Model m; m.grow(n0); same(b,m,"initial state"); CHECK(b.is_static()==(n0<=2),"static storage used when it fits"); fillv(b,m,"v");
    for(int s=0;s<NOPS;++s){ int op=lv_choice(0,6,"op"); static const int KS[4]={0,1,3,5}; int k=op==1||op==2?KS[lv_choice(0,3,"k")]:0; step(b,m,op,k); same(b,m,"contents after operation"); fillv(b,m,"w"); } lv_cover("end"); }
template<typename A,typename B> static auto cpy(A& a,B& b,int)->decltype(static_cast<std::enable_if_t<!std::is_same<A,B>::value>*>(nullptr),void()){ a=b; }
template<typename A> static void cpy(A& a,A& b,long){ lv::AutoBuffer<uint16_t,7> t(0); t=b; a=t; }
template<size_t S2> static void xfer(){ int n1=lv_choice(0,5,"n1"),n2=lv_choice(0,5,"n2"); lv::AutoBuffer<uint16_t,2> a((size_t)n1); lv::AutoBuffer<uint16_t,S2> b((size_t)n2); Model ma,mb; ma.grow(n1); mb.grow(n2); fillv(a,ma,"a"); fillv(b,mb,"b");
    int op=lv_choice(0,3,"op");
    if(op==0){ cpy(a,b,0); ma=mb; same(a,ma,"copy assignment"); same(b,mb,"source of copy unchanged"); if(mb.n){ uint16_t x=lv_any<uint16_t>("x"); b[0]=x; mb.v[0]=x; } same(a,ma,"copies are independent"); }
    else if(op==1){ a=std::move(b); ma=mb; same(a,ma,"move assignment"); b.clear(); same(a,ma,"moved-to buffer independent of source"); mb.n=0; uint16_t x=lv_any<uint16_t>("x"); b.push_back(x); mb.v[0]=x; mb.known[0]=true; mb.n=1; }
    else if(op==2){ lv::AutoBuffer<uint16_t,2> c(std::move(b)); Model mc=mb; same(c,mc,"move construction"); b.clear(); b.resize(2); b[0]=b[1]=lv_any<uint16_t>("y"); mb.n=2; mb.v[0]=mb.v[1]=b[0]; mb.known[0]=mb.known[1]=true; same(c,mc,"moved-to buffer independent of source"); step(c,mc,0,0); same(c,mc,"moved-to buffer usable"); }
    else { a=static_cast<lv::AutoBuffer<uint16_t,2>&&>(a); b=static_cast<lv::AutoBuffer<uint16_t,S2>&&>(b); same(a,ma,"self move keeps contents"); }
    same(b,mb,"other buffer"); step(a,ma,0,0); same(a,ma,"push after transfer"); lv_cover("end"); }
HARNESS(h_buf_xfer3){ xfer<3>(); }
HARNESS(h_buf_xfer_same){ xfer<2>(); }
HARNESS(h_buf_copyctor){ int n2=lv_choice(0,5,"n2"); lv::AutoBuffer<uint16_t,3> b((size_t)n2); Model mb; mb.grow(n2); fillv(b,mb,"b"); lv::AutoBuffer<uint16_t,2> c(b); Model mc=mb; same(c,mc,"copy construction"); step(b,mb,0,0); same(c,mc,"copy independent of source"); step(c,mc,0,0); same(b,mb,"source independent of copy"); lv_cover("end"); }
HARNESS(h_buf_at){ int n=lv_choice(0,4,"n"); lv::AutoBuffer<uint16_t,2> b((size_t)n); for(int i=0;i<n;++i) b[i]=(uint16_t)(i+1); const auto& cb=b; int i=lv_any<int>("i"); bool ok=i>=0&&i<n; bool thr=false; uint16_t r=0; try { r=b.at(i); } catch(const lv::Exception&){ thr=true; } CHECK(thr==!ok,"checked access throws exactly when out of range"); if(ok) CHECK(r==i+1,"checked access value"); thr=false; try { r=cb.at(i); } catch(const lv::Exception&){ thr=true; } CHECK(thr==!ok,"checked const access throws exactly when out of range");
    uint64_t u=lv_any<uint64_t>("u"); thr=false; try { r=b.at(u); } catch(const lv::Exception&){ thr=true; } CHECK(thr==!(u<(uint64_t)n),"checked access (unsigned index)"); lv_cover("end"); }
HARNESS(h_buf_at_narrow){ lv::AutoBuffer<uint8_t,2> b((size_t)256); for(int i=0;i<256;++i) b[i]=(uint8_t)i; uint8_t i=lv_any<uint8_t>("i"); bool thr=false; uint8_t r=0; try { r=b.at(i); } catch(const lv::Exception&){ thr=true; } CHECK(!thr&&r==i,"checked access with a narrow index type"); lv_cover("end"); }
// aligned vector
HARNESS(h_alvec){ lv::aligned_vector<uint8_t,32> v; int n=lv_choice(0,5,"n"); uint8_t x[5]; lv_fill(x,5,"x"); for(int i=0;i<n;++i) v.push_back(x[i]); CHECK((int)v.size()==n,"aligned vector size"); if(n) CHECK(lv::isAligned<32>(v.data()),"aligned vector storage"); for(int i=0;i<n;++i) CHECK(v[i]==x[i],"aligned vector contents"); lv_cover("end"); }
// lookup tables: the table holds the function at the grid points; every in-domain lookup hits the grid cell of x
static float idf(float x){ return x; }
template<size_t NB,size_t SF,bool ST> static void lut(float lo,float hi){ lv::LUT<float,float,NB,SF,ST> l(lo,hi,idf); CHECK(l.initialized()&&l.size()==NB+2*SF&&l.domain_min()==std::min(lo,hi)&&l.domain_max()==std::max(lo,hi),"table attributes"); float mn=std::min(lo,hi),mx=std::max(lo,hi); double st=(double)(mx-mn)/(NB-1);
    CHECK(l.eval_raw(0)==mn&&l.eval_raw(NB-1)==mx,"end bins"); for(size_t s=1;s<=SF;++s) CHECK(l.eval_raw(-(ptrdiff_t)s)==mn&&l.eval_raw(NB-1+s)==mx,"safety bins repeat the end values"); for(size_t i=0;i<NB;++i){ float d=l.eval_raw(i)-(mn+(float)(i*st)); CHECK(d<=1e-5f&&d>=-1e-5f,"bin value"); }
    for(size_t i=0;i<NB+2*SF;++i) CHECK(l.eval_mid_raw((ptrdiff_t)i-(ptrdiff_t)(NB/2+SF))==l.data_raw()[i],"mid pointer addresses the same table");
    float x=lv_any<float>("x"); lv_assume(x>=mn&&x<=mx); const float tol=1e-5f; float r=l.eval(x); CHECK(r<=x+tol&&r>=x-(float)st-tol,"lookup returns the cell at or below x"); float q=l.eval_round(x); CHECK(q<=x+(float)(st/2)+tol&&q>=x-(float)(st/2)-tol,"rounded lookup returns the nearest cell"); }
HARNESS(h_lut){ lut<9,0,true>(0,1); lut<5,1,false>(-2,2); lut<9,2,true>(3,-1); lv_cover("end"); }
