// C01: distance kernels equal their arithmetic definitions for all inputs.
#include "lvh.h"
#include "litiv/utils/math.hpp"
#include <array>
typedef uint64_t U128; typedef int64_t I128;
template<typename T> static U128 absd(T a,T b){ return a>b?(U128)((I128)a-(I128)b):(U128)((I128)b-(I128)a); }
template<typename T> static void l1s(const char* m){ T a=lv_any<T>("a"),b=lv_any<T>("b"); CHECK((U128)lv::L1dist(a,b)==absd(a,b),m); }
HARNESS(h_l1_scalar){ l1s<uint8_t>("L1 u8"); l1s<int8_t>("L1 i8"); l1s<uint16_t>("L1 u16"); l1s<int16_t>("L1 i16"); l1s<uint32_t>("L1 u32"); l1s<int32_t>("L1 i32"); lv_cover("end"); }
template<typename T> static U128 sqd(T a,T b){ U128 d=absd(a,b); return d*d; }
template<typename T> static void l2s(const char* m){ T a=lv_any<T>("a"),b=lv_any<T>("b"); uint64_t d=(uint64_t)absd(a,b); CHECK((uint64_t)lv::L2sqrdist(a,b)==d*d,m); }
HARNESS(h_l2_scalar){ l2s<uint8_t>("L2sqr u8"); l2s<int8_t>("L2sqr i8"); l2s<uint16_t>("L2sqr u16"); l2s<int16_t>("L2sqr i16"); lv_cover("end"); }
HARNESS(h_l1_float){ // reals: result is |a-b| bit for bit, NaN aside
    float a=lv_any<float>("a"),b=lv_any<float>("b"); float d=a-b; lv_assume(d==d); CHECK(lv::L1dist(a,b)==(d<0?-d:d),"L1 float"); CHECK(lv::L2sqrdist(a,b)==d*d,"L2sqr float");
    double x=lv_any<double>("x"),y=lv_any<double>("y"); double e=x-y; lv_assume(e==e); CHECK(lv::L1dist(x,y)==(e<0?-e:e),"L1 double"); CHECK(lv::abs_fast(x)==(x<0?-x:x)||x!=x,"abs double"); lv_cover("end"); }
// fixed-channel arrays (pointer / std::array / cv::Vec forms)
template<size_t N,typename T> static void chan(){
    std::array<T,N> a,b; lv_fill(a.data(),N,"a"); lv_fill(b.data(),N,"b"); size_t s1=0,s2=0; for(size_t i=0;i<N;++i){ size_t d=(size_t)absd(a[i],b[i]); s1+=d; s2+=d*d; }
    CHECK((lv::L1dist<N,T,size_t>(a.data(),b.data())==s1),"L1 channels ptr"); CHECK((lv::L1dist<N,T,size_t>(a,b)==s1),"L1 channels array"); CHECK((lv::L1dist<N,T,size_t>(a,b.data())==s1),"L1 channels array/ptr"); CHECK((lv::L1dist<N,T,size_t>(a.data(),b)==s1),"L1 channels ptr/array");
    CHECK((lv::L2sqrdist<N,T,size_t>(a.data(),b.data())==s2),"L2sqr channels ptr"); CHECK((lv::L2sqrdist<N,T,size_t>(a,b)==s2),"L2sqr channels array"); CHECK((lv::L2sqrdist<N,T,size_t>(a,b.data())==s2),"L2sqr channels array/ptr"); CHECK((lv::L2sqrdist<N,T,size_t>(a.data(),b)==s2),"L2sqr channels ptr/array");
    cv::Vec<T,(int)N> va,vb; for(size_t i=0;i<N;++i){ va[(int)i]=a[i]; vb[(int)i]=b[i]; }
    CHECK((lv::L1dist<(int)N,T,size_t>(va,vb)==s1),"L1 vec");
    CHECK((size_t)lv::L1dist<N>((const T*)a.data(),(const T*)b.data())==s1&&(size_t)lv::L1dist(a,b)==s1&&(size_t)lv::L1dist(a,(const T*)b.data())==s1&&(size_t)lv::L1dist((const T*)a.data(),b)==s1&&(size_t)lv::L1dist(va,vb)==s1,"L1 channels default result type");
    CHECK((size_t)lv::L2sqrdist<N>((const T*)a.data(),(const T*)b.data())==s2&&(size_t)lv::L2sqrdist(a,b)==s2&&(size_t)lv::L2sqrdist(a,(const T*)b.data())==s2&&(size_t)lv::L2sqrdist((const T*)a.data(),b)==s2&&(size_t)lv::L2sqrdist(va,vb)==s2,"L2sqr channels default result type"); CHECK((lv::L2sqrdist<(int)N,T,size_t>(va,vb)==s2),"L2sqr vec"); }
HARNESS(h_chan){ chan<1,uint8_t>(); chan<2,uint8_t>(); chan<3,uint8_t>(); chan<4,uint8_t>(); chan<3,int16_t>(); chan<3,uint16_t>(); lv_cover("end"); }
// element arrays, with optional mask, templated and run-time channel counts
template<typename T,int NE> static void arr(){ T a[NE*4],b[NE*4]; uint8_t m[NE]; lv_fill(a,NE*4,"a"); lv_fill(b,NE*4,"b"); lv_fill(m,NE,"m");
    for(size_t ch=1;ch<=4;++ch) for(size_t n=0;n<=NE;++n){ size_t s1=0,s2=0,t1=0,t2=0; for(size_t i=0;i<n;++i) for(size_t c=0;c<ch;++c){ size_t d=(size_t)absd(a[i*ch+c],b[i*ch+c]); s1+=d; s2+=d*d; t1+=m[i]?d:0; t2+=m[i]?d*d:0; }
        CHECK(lv::L1dist(a,b,n,ch)==s1,"L1 elements"); CHECK(lv::L1dist(a,b,n,ch,(const uint8_t*)m)==t1,"L1 elements masked");
        CHECK(lv::L2sqrdist(a,b,n,ch)==s2,"L2sqr elements"); CHECK(lv::L2sqrdist(a,b,n,ch,(const uint8_t*)m)==t2,"L2sqr elements masked"); } }
HARNESS(h_elems8){ arr<uint8_t,3>(); lv_cover("end"); }
HARNESS(h_elems16){ arr<uint16_t,2>(); lv_cover("end"); }
HARNESS(h_badch){ uint8_t a[8]={0},b[8]={0}; size_t ch=lv_choice(0,9,"ch"); bool thr=false; try { lv::L1dist(a,b,(size_t)1,ch); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(ch<1||ch>4),"L1 rejects channel counts outside 1..4"); thr=false; try { lv::L2sqrdist(a,b,(size_t)1,ch); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(ch<1||ch>4),"L2sqr rejects channel counts outside 1..4"); thr=false; try { lv::cdist(a,b,(size_t)1,ch); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(ch<2||ch>4),"cdist rejects channel counts outside 2..4"); lv_cover("end"); }
// L2 (rooted) distance: the rounded square root of the exact squared distance
template<size_t N> static void l2r(){ uint8_t a[N],b[N]; lv_fill(a,N,"a"); lv_fill(b,N,"b"); uint32_t s=0; for(size_t i=0;i<N;++i){ uint32_t d=(uint32_t)absd(a[i],b[i]); s+=d*d; }
    float r=lv::L2dist<N>((const uint8_t*)a,(const uint8_t*)b); float ref=(float)std::sqrt((double)s); CHECK(r==ref,"L2 root"); std::array<uint8_t,N> aa,bb; cv::Vec<uint8_t,(int)N> va,vb; for(size_t i=0;i<N;++i){ aa[i]=a[i]; bb[i]=b[i]; va[(int)i]=a[i]; vb[(int)i]=b[i]; }
    CHECK(lv::L2dist(aa,bb)==ref&&lv::L2dist(aa,(const uint8_t*)b)==ref&&lv::L2dist((const uint8_t*)a,bb)==ref&&lv::L2dist(va,vb)==ref,"L2 root container forms"); }
HARNESS(h_l2root){ l2r<1>(); l2r<2>(); l2r<3>(); l2r<4>(); uint8_t a[8],b[8],m[2]; lv_fill(a,8,"A"); lv_fill(b,8,"B"); lv_fill(m,2,"M");
    for(size_t ch=1;ch<=4;++ch){ uint32_t s=0,t=0; for(size_t i=0;i<2;++i) for(size_t c=0;c<ch;++c){ uint32_t d=(uint32_t)absd(a[i*ch+c],b[i*ch+c]); s+=d*d; t+=m[i]?d*d:0; } CHECK(lv::L2dist(a,b,(size_t)2,ch)==(float)std::sqrt((double)s),"L2 root elements"); CHECK(lv::L2dist(a,b,(size_t)2,ch,(const uint8_t*)m)==(float)std::sqrt((double)t),"L2 root elements masked"); } lv_cover("end"); }
// Hamming
template<typename T> static unsigned bits(T x){ unsigned n=0; for(unsigned i=0;i<sizeof(T)*8;++i) n+=(unsigned)((x>>i)&1); return n; }
template<typename T> static void ham1(){ T a=lv_any<T>("a"),b=lv_any<T>("b"); T x=(T)(a^b); CHECK((unsigned)lv::popcount(a)==bits(a),"popcount"); CHECK((unsigned)lv::hdist(a,b)==bits(x),"hdist"); unsigned p=bits(a),q=bits(b); CHECK((unsigned)lv::gdist(a,b)==(p>q?p-q:q-p),"gdist"); }
template<typename T,size_t N> static void hamN(){ std::array<T,N> a,b; lv_fill(a.data(),N,"a"); lv_fill(b.data(),N,"b"); unsigned p=0,q=0,h=0; for(size_t i=0;i<N;++i){ p+=bits(a[i]); q+=bits(b[i]); h+=bits((T)(a[i]^b[i])); }
    CHECK(((unsigned)lv::popcount<N>(a.data())==p),"popcount array"); CHECK(((unsigned)lv::popcount<N>(a)==p),"popcount std::array"); CHECK(((unsigned)lv::hdist<N>(a.data(),b.data())==h),"hdist array"); CHECK(((unsigned)lv::hdist<N>(a,b)==h),"hdist std::array"); CHECK(((unsigned)lv::hdist<N>(a,b.data())==h),"hdist mixed"); CHECK(((unsigned)lv::hdist<N>(a.data(),b)==h),"hdist mixed2"); CHECK(((unsigned)lv::gdist<N>(a.data(),b.data())==(p>q?p-q:q-p)),"gdist array"); CHECK(((unsigned)lv::gdist<N>(a,b)==(p>q?p-q:q-p)),"gdist std::array"); }
HARNESS(h_ham){ ham1<uint8_t>(); ham1<uint16_t>(); ham1<uint32_t>(); ham1<uint64_t>(); lv_cover("end"); }
HARNESS(h_hamN){ hamN<uint8_t,3>(); hamN<uint16_t,3>(); hamN<uint16_t,4>(); hamN<uint32_t,2>(); hamN<uint64_t,2>(); lv_cover("end"); }
// colour distortion
template<size_t N> static size_t cd(const uint8_t* c,const uint8_t* g){ uint32_t cs=0,gs=0,mx=0; bool eq=true,cst=true; for(size_t i=0;i<N;++i){ cs+=(uint32_t)c[i]*c[i]; gs+=(uint32_t)g[i]*g[i]; mx+=(uint32_t)c[i]*g[i]; eq=eq&&c[i]==g[i]; if(i) cst=cst&&c[i]==c[0]&&g[i]==g[0]; }
    if(eq||cst) return 0; uint64_t q=((uint64_t)mx*mx)/(gs?gs:1); float f=(float)((uint64_t)cs-q); return (size_t)std::sqrt(f); }
template<size_t N> static void cdi(){ uint8_t a[N],b[N]; lv_fill(a,N,"a"); lv_fill(b,N,"b"); size_t d=lv::cdist<N>((const uint8_t*)a,(const uint8_t*)b); size_t e=cd<N>(a,b); CHECK(d==e,"colour distortion"); bool eq=true; for(size_t i=0;i<N;++i) eq=eq&&a[i]==b[i]; CHECK(!eq||d==0,"distortion of equal colours is 0");
    size_t l=0; for(size_t i=0;i<N;++i) l+=(size_t)absd(a[i],b[i]); auto mixd=lv::cmixdist<N>((const uint8_t*)a,(const uint8_t*)b); CHECK((size_t)mixd==l/2+e*4,"colour mix distance");
    std::array<uint8_t,N> aa,bb; cv::Vec<uint8_t,(int)N> va,vb; for(size_t i=0;i<N;++i){ aa[i]=a[i]; bb[i]=b[i]; va[(int)i]=a[i]; vb[(int)i]=b[i]; }
    CHECK(lv::cdist<N>(aa,bb)==e&&lv::cdist<N>(aa,(const uint8_t*)b)==e&&lv::cdist<N>((const uint8_t*)a,bb)==e&&lv::cdist(va,vb)==e,"colour distortion container forms");
    CHECK(lv::cmixdist<N>(aa,bb)==l/2+e*4&&lv::cmixdist<N>(aa,(const uint8_t*)b)==l/2+e*4&&lv::cmixdist<N>((const uint8_t*)a,bb)==l/2+e*4,"colour mix container forms"); CHECK(lv::cmixdist(l,e)==l/2+e*4,"colour mix of given distances"); }
HARNESS(h_cdist){ cdi<3>(); lv_cover("end"); }
HARNESS(h_cdist4){ cdi<2>(); cdi<4>(); lv_cover("end"); }
HARNESS(h_cdist_elems){ uint8_t a[6],b[6],m[2]; lv_fill(a,6,"a"); lv_fill(b,6,"b"); lv_fill(m,2,"m"); size_t d0=cd<3>(a,b),d1=cd<3>(a+3,b+3); CHECK(lv::cdist(a,b,(size_t)2,(size_t)3)==d0+d1,"cdist elements"); CHECK(lv::cdist(a,b,(size_t)2,(size_t)3,(const uint8_t*)m)==(m[0]?d0:0)+(m[1]?d1:0),"cdist elements masked"); lv_cover("end"); }
// many elements, one of them free: element counts far beyond any unrolling or accumulator width
template<typename T,size_t CH> static void bigarr(size_t n,size_t p,bool masked,T lo,T hi){ std::vector<T> a(n*CH),b(n*CH); std::vector<uint8_t> m(n,(uint8_t)1); for(size_t i=0;i<n*CH;++i){ a[i]=(i%3)?lo:hi; b[i]=(i%3)?hi:lo; } for(size_t i=0;i<n;++i) m[i]=(uint8_t)((i%5)?255:0);
    uint64_t D=(uint64_t)absd(lo,hi),s1=0,s2=0; T x[CH],y[CH]; lv_fill(x,CH,sizeof(T)==1?"x8":"x16"); lv_fill(y,CH,sizeof(T)==1?"y8":"y16"); uint8_t mm=lv_any<uint8_t>("m"); for(size_t c=0;c<CH;++c){ a[p*CH+c]=x[c]; b[p*CH+c]=y[c]; } m[p]=mm;
    for(size_t i=0;i<n;++i) for(size_t c=0;c<CH;++c){ uint64_t d=i==p?(uint64_t)absd(x[c],y[c]):D; bool k=!masked||m[i]!=0; s1+=k?d:0; if(sizeof(T)==1||CH==1) s2+=k?d*d:0; }
    const uint8_t* mp=masked?m.data():nullptr; CHECK(lv::L1dist(a.data(),b.data(),n,CH,mp)==s1,"L1 of many elements"); if(sizeof(T)==1||CH==1) CHECK(lv::L2sqrdist(a.data(),b.data(),n,CH,mp)==s2,"L2sqr of many elements"); }
HARNESS(h_elems_many){ static const size_t P[]={0,1,15,16,31,32,62}; size_t p=P[lv_choice(0,6,"p")]; bool k=lv_choice(0,1,"masked")!=0; switch(lv_choice(0,4,"type")){ case 0: bigarr<uint8_t,1>(63,p,k,0,255); break; case 1: bigarr<uint8_t,3>(63,p,k,255,0); break; case 2: bigarr<uint8_t,4>(63,p,k,3,250); break; case 3: bigarr<uint16_t,2>(63,p,k,0,65535); break; default: bigarr<int16_t,3>(63,p,k,-32000,32000); } lv_cover("end"); }
HARNESS(h_elems_huge){ bool k=lv_choice(0,1,"masked")!=0; if(lv_choice(0,1,"type")) bigarr<uint8_t,1>(90000,89999,k,0,255); else bigarr<uint16_t,1>(700,257,k,65535,0); lv_cover("end"); }
template<typename T,size_t N> static void hmany(const char* nx,const char* ny){ size_t p=(size_t)lv_choice(0,(int)N-1,"p"); std::array<T,N> a,b; a.fill((T)-1); b.fill((T)0); T x=lv_any<T>(nx),y=lv_any<T>(ny); a[p]=x; b[p]=y; unsigned W=sizeof(T)*8,pa=(N-1)*W+bits(x),pb=bits(y),h=(N-1)*W+bits((T)(x^y)); bool fits=N*W<256;
    CHECK((lv::popcount<N,T,size_t>(a)==pa&&lv::popcount<N,T,size_t>(b.data())==pb),"popcount of many words"); CHECK((lv::hdist<N,T,size_t>(a,b)==h&&lv::hdist<N,T,size_t>(a.data(),b.data())==h),"hdist of many words");
    if(fits){ CHECK((unsigned)lv::popcount<N>(a)==pa&&(unsigned)lv::hdist<N>(a,b)==h,"popcount and hdist of many words, default result type"); CHECK((unsigned)lv::gdist<N>(a,b)==(pa>pb?pa-pb:pb-pa)&&(unsigned)lv::gdist<N>(b.data(),a.data())==(pa>pb?pa-pb:pb-pa),"gdist of many words"); } }
HARNESS(h_ham_many){ switch(lv_choice(0,7,"w")){ case 0: hmany<uint8_t,31>("x8","y8"); break; case 1: hmany<uint8_t,40>("x8","y8"); break; case 2: hmany<uint16_t,15>("x16","y16"); break; case 3: hmany<uint16_t,33>("x16","y16"); break; case 4: hmany<uint32_t,7>("x32","y32"); break; case 5: hmany<uint32_t,17>("x32","y32"); break; case 6: hmany<uint64_t,3>("x64","y64"); break; default: hmany<uint64_t,9>("x64","y64"); } lv_cover("end"); }
