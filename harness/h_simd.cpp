// C02: SIMD helpers, integer/bit utilities and pseudo-random generators equal their scalar definitions.
#include "lvh.h"
#include "litiv/utils/math.hpp"
#include "litiv/utils/simd.hpp"
#include <array>
#include <cstring>
union V { __m128i v; uint8_t b[16]; uint16_t h[8]; uint32_t w[4]; int32_t i[4]; uint64_t q[2]; };
static V anyV(const char* n){ V x; lv_fill(x.b,16,n); return x; }
static V anyW(const char* n){ V x; lv_fill(x.w,4,n); return x; }
HARNESS(h_cmp){ V a=anyW("a"),b=anyW("b"); bool z=true,e=true; for(int k=0;k<4;++k){ z=z&&a.w[k]==0; e=e&&a.w[k]==b.w[k]; }
    CHECK(lv::cmp_zero_128i(a.v)==z,"zero test"); CHECK(lv::cmp_eq_128i(a.v,b.v)==e,"equality test"); CHECK(lv::cmp_eq_128i(a.v,a.v),"self equality"); lv_cover("end"); }
HARNESS(h_hsum){ V a=anyV("a"); uint32_t s=0; for(int k=0;k<16;++k) s+=a.b[k]; CHECK(lv::hsum_8ui(a.v)==s,"byte sum"); V c=anyW("c"); uint32_t t=0; for(int k=0;k<4;++k) t+=c.w[k]; CHECK((uint32_t)lv::hsum_32i(c.v)==t,"int sum"); lv_cover("end"); }
HARNESS(h_hminmax){ V a=anyV("a"); uint8_t mn=255,mx=0; for(int k=0;k<16;++k){ mn=a.b[k]<mn?a.b[k]:mn; mx=a.b[k]>mx?a.b[k]:mx; } CHECK(lv::hmin_8ui(a.v)==mn,"byte min"); CHECK(lv::hmax_8ui(a.v)==mx,"byte max"); V c=anyW("c"); int32_t m=c.i[0]; for(int k=1;k<4;++k) m=c.i[k]>m?c.i[k]:m; CHECK(lv::hmax_32si(c.v)==m,"int max"); lv_cover("end"); }
HARNESS(h_store){ alignas(16) V buf[5]; uint8_t orig[80]; lv_fill(orig,80,"o"); memcpy(buf,orig,80); uint8_t v=lv_any<uint8_t>("v"); lv::store1_8ui(&buf[1].v,v); for(int k=0;k<80;++k) CHECK(buf[k/16].b[k%16]==((k>=16&&k<32)?v:orig[k]),"store1 writes exactly 16 bytes");
    memcpy(buf,orig,80); size_t n=lv_choice(0,4,"n"); lv::store_8ui(&buf[0].v,n,v); for(size_t k=0;k<80;++k) CHECK(buf[k/16].b[k%16]==(k<16*n?v:orig[k]),"store fills exactly the requested blocks"); lv_cover("end"); }
HARNESS(h_unpack){ V a=anyV("a"); V l,h; l.v=lv::unpack_8ui_to_16ui<true>(a.v); h.v=lv::unpack_8ui_to_16ui<false>(a.v); for(int k=0;k<8;++k){ CHECK(l.h[k]==a.b[k],"low unpack"); CHECK(h.h[k]==a.b[8+k],"high unpack"); }
    CHECK((uint32_t)lv::extract_32si<0>(a.v)==a.w[0]&&(uint32_t)lv::extract_32si<1>(a.v)==a.w[1]&&(uint32_t)lv::extract_32si<2>(a.v)==a.w[2]&&(uint32_t)lv::extract_32si<3>(a.v)==a.w[3],"extract"); lv_cover("end"); }
HARNESS(h_mult8){ V a=anyV("a"),b=anyV("b"),r; r.v=lv::mult_8i(a.v,b.v); for(int k=0;k<16;++k) CHECK(r.b[k]==(uint8_t)(a.b[k]*b.b[k]),"byte product"); lv_cover("end"); }
HARNESS(h_mult32){ V c=anyW("c"),d=anyW("d"),r; r.v=lv::mult_32si(c.v,d.v); for(int k=0;k<4;++k) CHECK(r.w[k]==c.w[k]*d.w[k],"int product"); lv_cover("end"); }
template<typename T> static bool pw2(T x){ bool p=false; for(unsigned i=0;i<sizeof(T)*8;++i) p=p||x==(T)(T(1)<<i); return p; }
HARNESS(h_pow2){ { uint8_t x=lv_any<uint8_t>("x8"); if(x) CHECK(lv::ispow2(x)==pw2(x),"ispow2 8-bit"); } { uint16_t x=lv_any<uint16_t>("x16"); if(x) CHECK(lv::ispow2(x)==pw2(x),"ispow2 16-bit"); } { uint32_t x=lv_any<uint32_t>("x32"); if(x) CHECK(lv::ispow2(x)==pw2(x),"ispow2 32-bit"); } { uint64_t x=lv_any<uint64_t>("x64"); if(x) CHECK(lv::ispow2(x)==pw2(x),"ispow2 64-bit"); } { int32_t x=lv_any<int32_t>("xi"); if(x>0) CHECK(lv::ispow2(x)==pw2((uint32_t)x),"ispow2 signed"); }
    uint32_t v=lv_any<uint32_t>("v"); uint32_t r=lv::get_next_pow2(v); if(v==0||v>0x80000000u) CHECK(r==0,"next pow2 of 0 / unrepresentable is 0"); else { CHECK(pw2(r)&&r>=v&&(r/2<v),"next pow2 is the smallest power of two >= v"); } lv_cover("end"); }
HARNESS(h_fastrand){ uint32_t s=lv_any<uint32_t>("s"); int seed=(int)s; uint32_t st=s; for(int k=0;k<3;++k){ st=214013u*st+2531011u; int r=lv::fastrand(seed); CHECK(r>=0&&r<=0x7FFF,"scalar generator range"); CHECK((uint32_t)seed==st&&(uint32_t)r==((st>>16)&0x7FFF),"scalar generator sequence"); } lv_cover("end"); }
template<bool A,bool S> static void frv(){ static const uint32_t mu[4]={214013,17405,214013,69069},ad[4]={2531011,10395331,13737667,1}; V g=anyW("g"),st=g; alignas(16) std::array<uint32_t,4> out; for(int k=0;k<2;++k){ lv::fastrand_vec<A,S>(out,g.v); for(int i=0;i<4;++i){ st.w[i]=mu[i]*st.w[i]+ad[i]; CHECK(g.w[i]==st.w[i],"vector generator state: four independent LCG lanes"); CHECK(out[i]==(S?((st.w[i]>>16)&0x7FFF):st.w[i]),"vector generator output"); } } }
HARNESS(h_fastrand_vec){ frv<false,false>(); frv<true,false>(); frv<false,true>(); frv<true,true>(); uint32_t s=lv_any<uint32_t>("s"); V g; lv::sfastrand_vec(s,g.v); CHECK(g.w[3]==s&&g.w[1]==s&&g.w[2]==s+1&&g.w[0]==s+1,"vector generator seeding"); lv_cover("end"); }
// bit-field helpers
template<typename T> static void ext(int o,int e){ T v=lv_any<T>("v"); lv_assume((v>>o)==0); T mx=(T)((T(1)<<o)-1),full=(T)(e==(int)sizeof(T)*8?~T(0):(T)((T(1)<<e)-1)); T r=lv::extend_bits<T>(v,o,e); CHECK((T)(r&~full)==0,"extended value fits"); CHECK((T)(r>>(e-o))==v,"extended value keeps its leading bits"); if(v==0) CHECK(r==0,"0 maps to 0"); if(v==mx) CHECK(r==full,"max maps to max"); T w=lv_any<T>("w"); lv_assume((w>>o)==0); if(w<=v) CHECK(lv::extend_bits<T>(w,o,e)<=r,"extension is monotonic"); }
HARNESS(h_extend){ for(int o=1;o<=8;++o) for(int e=o;e<=2*o&&e<=16;++e) ext<uint16_t>(o,e); ext<uint32_t>(10,16); ext<uint32_t>(16,32); lv_cover("end"); }
template<size_t W,typename T> static void expd(){ T v=lv_any<T>("v"); T r=lv::expand_bits<W,T>(v); const unsigned N=(unsigned)(sizeof(T)*8),K=N/W; T ref=0; for(unsigned i=0;i<K;++i) ref|=(T)(((v>>i)&T(1))<<(i*W)); CHECK(r==(W==1?v:ref),"bit i moves to position i*W, all others are zero"); }
HARNESS(h_expand){ expd<1,uint8_t>(); expd<2,uint8_t>(); expd<4,uint8_t>(); expd<2,uint16_t>(); expd<4,uint16_t>(); expd<8,uint16_t>(); expd<2,uint32_t>(); expd<3,uint32_t>(); expd<4,uint32_t>(); expd<8,uint32_t>(); expd<2,uint64_t>(); expd<4,uint64_t>(); expd<8,uint64_t>(); expd<16,uint64_t>(); lv_cover("end"); }
HARNESS(h_digits){ int32_t v=lv_range(-99999,99999,"v"); int d=1; for(int64_t t=v<0?-(int64_t)v:v,p=10;p<=100000;p*=10) d+=t>=p; CHECK(lv::digit_count(v)==d+(v<0),"decimal digits"); CHECK(!lv::is_big_endian(),"endianness"); lv_cover("end"); }
template<typename T> static int digs(T v){ int d=v<0?2:1; uint64_t t=v<0?0-(uint64_t)v:(uint64_t)v,p=10; for(int i=0;i<19;++i){ d+=t>=p; p*=10; } return d; }
// wide integers: every value within 1 of a power of ten or of the type's limits, both signs
HARNESS(h_digits64){ int k=lv_choice(0,20,"k"); int64_t b=1; for(int i=0;i<k&&i<18;++i) b*=10; if(k==19) b=INT64_MAX-1; if(k==20) b=(int64_t)INT32_MAX; int64_t v=b+lv_choice(-1,1,"o"); CHECK(lv::digit_count(v)==digs(v),"decimal digits (64-bit)"); CHECK(lv::digit_count(-v)==digs(-v),"decimal digits (negative 64-bit)"); uint64_t u=k==19?UINT64_MAX-1+(uint64_t)lv_choice(0,1,"p"):(uint64_t)v; if(k==19||v>=0) CHECK(lv::digit_count(u)==digs(u),"decimal digits (unsigned 64-bit)"); CHECK(lv::digit_count((int32_t)INT32_MIN)==11,"decimal digits (most negative int)"); lv_cover("end"); }
