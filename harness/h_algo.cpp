// C05: generic algorithms return what they document for every input array (within the size bounds).
#include "lvh.h"
#include "litiv/utils/math.hpp"
#include <vector>
#include <string>
static std::vector<int16_t> anyVec(int n,const char* nm){ std::vector<int16_t> v(n); if(n) lv_fill(v.data(),n,nm); return v; }
HARNESS(h_sort){ int n=lv_choice(0,4,"n"); auto v=anyVec(n,"v"); std::vector<size_t> ix=lv::sort_indices(v); CHECK((int)ix.size()==n,"one index per value"); unsigned seen=0; for(int i=0;i<n;++i){ CHECK(ix[i]<(size_t)n,"index in range"); if(ix[i]<(size_t)n) seen|=1u<<ix[i]; } CHECK(seen==(1u<<n)-1,"indices are a permutation"); for(int i=1;i<n;++i) CHECK(v[ix[i-1]]<=v[ix[i]],"indexed values are sorted");
    std::vector<size_t> iy=lv::sort_indices(v,[&](size_t a,size_t b){ return v[a]>v[b]; }); seen=0; for(int i=0;i<n;++i) seen|=1u<<iy[i]; CHECK(seen==(1u<<n)-1,"indices are a permutation (custom order)"); for(int i=1;i<n;++i) CHECK(v[iy[i-1]]>=v[iy[i]],"indexed values follow the custom order"); lv_cover("end"); }
static void chkuniq(const std::vector<int16_t>& v,const std::vector<size_t>& u,const char* m){ int n=(int)v.size(); for(size_t i=1;i<u.size();++i) CHECK(v[u[i-1]]<v[u[i]],"unique values are sorted and distinct"); for(size_t k=0;k<u.size();++k) for(int i=0;i<n;++i) if(i<(int)u[k]) CHECK(v[i]!=v[u[k]],m); for(int i=0;i<n;++i){ bool f=false; for(size_t k:u) f=f||v[k]==v[i]; CHECK(f,"every value is represented"); } }
HARNESS(h_unique){ int n=lv_choice(0,3,"n"); auto v=anyVec(n,"v"); chkuniq(v,lv::unique_indices(v),"index is the first occurrence");
    auto u=lv::unique_indices(v,[&](size_t a,size_t b){ return v[a]<v[b]; },[&](size_t a,size_t b){ return v[a]==v[b]; }); for(size_t i=1;i<u.size();++i) CHECK(v[u[i-1]]<v[u[i]],"unique (custom functors) sorted and distinct"); for(int i=0;i<n;++i){ bool f=false; for(size_t k:u) f=f||v[k]==v[i]; CHECK(f,"every value is represented (custom functors)"); }
    std::vector<int16_t> s=lv::unique(v.begin(),v.end()); for(size_t i=1;i<s.size();++i) CHECK(s[i-1]<s[i],"unique set sorted"); for(int i=0;i<n;++i){ bool f=false; for(auto x:s) f=f||x==v[i]; CHECK(f,"unique set complete"); } for(auto x:s){ bool f=false; for(auto y:v) f=f||x==y; CHECK(f,"unique set sound"); } lv_cover("end"); }
HARNESS(h_unique_big){ std::vector<int16_t> v(20,0); int p=lv_choice(0,19,"p"); v[p]=lv_any<int16_t>("a"); v[(p+7)%20]=1; chkuniq(v,lv::unique_indices(v),"index is the first occurrence (20 values)"); chkuniq(v,lv::unique_indices(v,[&](size_t a,size_t b){ return v[a]<v[b]; },[&](size_t a,size_t b){ return v[a]==v[b]; }),"index is the first occurrence (20 values, custom functors)"); lv_cover("end"); }
HARNESS(h_nn){ int n=lv_choice(0,5,"n"); auto v=anyVec(n,"v"); int16_t x=lv_any<int16_t>("x"); size_t r=lv::find_nn_index(x,v,[](int16_t a,int16_t b){ return a>b?(int)a-b:(int)b-a; }); if(n==0) CHECK(r==size_t(-1),"no neighbour in an empty array"); else { CHECK(r<(size_t)n,"neighbour index in range"); auto D=[&](int i){ int d=(int)x-v[i]; return d<0?-d:d; }; int dr=D((int)lv_concretize((int)r)); for(int i=0;i<n;++i){ CHECK(dr<=D(i),"no element is nearer"); if(i<(int)r) CHECK(D(i)>dr,"first nearest element"); } } lv_cover("end"); }
HARNESS(h_interp){ const int N=4; std::vector<int> X(N),Y(N); int g[N],s[N]; X[0]=lv_range(-20,20,"x0"); Y[0]=lv_range(-50,50,"y0"); for(int i=0;i+1<N;++i){ g[i]=lv_choice(1,2,"g"); s[i]=lv_range(-9,9,"s"); X[i+1]=X[i]+g[i]; Y[i+1]=Y[i]+s[i]*g[i]; }
    int k=lv_choice(0,N-2,"k"); int t=lv_choice(0,g[k],"t"); std::vector<int> q={X[k]+t}; std::vector<int> r=lv::interp1(X,Y,q); CHECK(r.size()==1,"one output per request"); CHECK(r[0]==Y[k]+s[k]*t,"interpolated value lies on the segment containing x"); lv_cover("end"); }
HARNESS(h_interp_dom){ std::vector<int> X={1,3,4},Y={2,6,8}; int x=lv_range(-5,9,"x"); bool thr=false; std::vector<int> q={x}; try { lv::interp1(X,Y,q); } catch(const std::domain_error&){ thr=true; } CHECK(thr==(x<1||x>4),"requests outside the domain are rejected"); CHECK(lv::interp1(std::vector<int>(),std::vector<int>(),q).empty(),"no data, no output"); lv_cover("end"); }
HARNESS(h_range){ int a=lv_range(-100,100,"a"); int len=lv_choice(-2,6,"len"); int st=lv_choice(-1,3,"st"); int b=a+len; bool thr=false; std::vector<int> r; try { r=lv::make_range(a,b,st); } catch(const lv::Exception&){ thr=true; } bool bad=len>=0&&st!=1&&(st<=0||len%st!=0); CHECK(thr==bad,"bad steps are rejected"); if(!bad){ CHECK((int)r.size()==(len<0?0:len/st+1),"range length"); for(size_t i=0;i<r.size();++i) CHECK(r[i]==a+(int)i*st,"range value"); }
    uint8_t ua=lv_any<uint8_t>("ua"); lv_assume(ua<=250); std::vector<uint8_t> ur=lv::make_range<uint8_t>(ua,(uint8_t)(ua+5)); CHECK(ur.size()==6,"unsigned range length"); for(int i=0;i<6&&i<(int)ur.size();++i) CHECK(ur[i]==ua+i,"unsigned range value"); lv_cover("end"); }
HARNESS(h_linspace){ int a=lv_choice(-2,2,"a")*13,step=lv_choice(-3,3,"s"); int n=lv_choice(0,4,"n"); bool inc=lv_choice(0,1,"inc"); int k=inc?n-1:n; std::vector<int> r=lv::linspace<int>(a,a+step*k,n,inc); CHECK((int)r.size()==n,"requested number of points"); if(n==1) CHECK(r[0]==a+step*k,"a single point is the end point"); else if(n>1){ for(int i=0;i<n;++i) CHECK(r[i]==a+step*(inc?i:i+1),"points are equally spaced"); } lv_cover("end"); }
HARNESS(h_vec){ int n=lv_choice(0,3,"n"),m=lv_choice(0,3,"m"); auto v=anyVec(n,"v"),w=anyVec(m,"w"); auto has=[](const std::vector<int16_t>& q,int16_t x){ bool f=false; for(auto y:q) f=f||y==x; return f; };
    std::vector<int16_t> fo=lv::filter_out(v,w),fi=lv::filter_in(v,w); size_t o=0,i2=0; for(int i=0;i<n;++i){ if(has(w,v[i])){ CHECK(i2<fi.size()&&fi[i2]==v[i],"filter keeps matches in order"); ++i2; } else { CHECK(o<fo.size()&&fo[o]==v[i],"filter keeps non-matches in order"); ++o; } } CHECK(fo.size()==o&&fi.size()==i2,"filter outputs nothing else");
    std::vector<int> c=lv::concat<int>(v,w); CHECK((int)c.size()==n+m,"concatenation length"); for(int i=0;i<n;++i) CHECK(c[i]==v[i],"concatenation head"); for(int i=0;i<m;++i) CHECK(c[n+i]==w[i],"concatenation tail");
    std::vector<size_t> ix=lv::indices_of(v,w); CHECK((int)ix.size()==n,"one index per value"); for(int i=0;i<n;++i){ if(has(w,v[i])){ CHECK(ix[i]<(size_t)m,"found index in range"); if(ix[i]<(size_t)m){ CHECK(w[ix[i]]==v[i],"index refers to the value"); for(int j=0;j<m;++j) if(j<(int)ix[i]) CHECK(w[j]!=v[i],"index of the first match"); } } else CHECK(ix[i]>=(size_t)m,"missing values get an out-of-range index"); } lv_cover("end"); }
HARNESS(h_sums){ int n=lv_choice(0,5,"n"); std::vector<uint16_t> v(n); if(n) lv_fill(v.data(),n,"v"); std::vector<size_t> c=lv::cumulativeSum(v); CHECK((int)c.size()==n,"one sum per value"); uint64_t t=0; for(int i=0;i<n;++i){ t+=v[i]; CHECK(c[i]==t,"cumulative sum"); } CHECK(lv::accumulateMembers<size_t>(v,[](uint16_t x){ return (size_t)x*2; })==2*t,"member accumulation");
    std::array<uint16_t,3> a; lv_fill(a.data(),3,"a"); std::vector<uint16_t> av=lv::convertArrayToVector(a); CHECK(av.size()==3&&av[0]==a[0]&&av[1]==a[1]&&av[2]==a[2],"array to vector"); bool thr=false; std::array<uint16_t,3> b{}; try { b=lv::convertVectorToArray<3>(v); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(n!=3),"vector to array size check"); if(n==3) CHECK(b[0]==v[0]&&b[1]==v[1]&&b[2]==v[2],"vector to array"); lv_cover("end"); }
HARNESS(h_det){ int m[9]; for(int i=0;i<9;++i) m[i]=lv_range(-50,50,"m"); CHECK(lv::determinant<1>(m)==m[0],"1x1 determinant"); CHECK(lv::determinant<2>(m)==(double)(m[0]*m[3]-m[1]*m[2]),"2x2 determinant"); int d=m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); CHECK(lv::determinant<3>(m)==(double)d,"3x3 determinant"); lv_cover("end"); }
HARNESS(h_inv){ int m[4]; for(int i=0;i<4;++i) m[i]=lv_range(-2,2,"m"); int d=m[0]*m[3]-m[1]*m[2]; int o[4]={77,77,77,77}; if(d==0) CHECK(!lv::invert<2>(m,o),"singular 2x2 rejected"); lv_assume(d==0||d==1||d==-1); int dc=lv_concretize(d); if(dc!=0){ CHECK(lv::invert<2>(m,o),"2x2 inverted"); CHECK(m[0]*o[0]+m[1]*o[2]==1&&m[0]*o[1]+m[1]*o[3]==0&&m[2]*o[0]+m[3]*o[2]==0&&m[2]*o[1]+m[3]*o[3]==1,"2x2 inverse times matrix is identity"); } lv_cover("end"); }
// larger matrices go through the LU decomposition
static long detI(const int* m,int n){ if(n==1) return m[0]; long r=0; for(int c=0;c<n;++c){ int q[9]; int k=0; for(int i=1;i<n;++i) for(int j=0;j<n;++j) if(j!=c) q[k++]=m[i*n+j]; r+=(c%2?-1:1)*(long)m[c]*detI(q,n-1); } return r; }
static void mat4(int* m){ static const int B[3][16]={{0,2,1,0,3,0,0,1,1,1,4,0,0,5,0,2},{1,0,0,2,0,3,0,0,0,0,1,1,2,1,0,4},{0,0,0,1,0,0,2,0,0,3,0,0,1,0,0,0}}; const int* b=B[lv_choice(0,2,"base")]; for(int i=0;i<16;++i) m[i]=b[i]; static const int F[5]={0,3,6,9,15}; for(int i=0;i<5;++i) m[F[i]]=lv_choice(-1,1,"v")*(i==3?3:2)+(i==1); }
template<typename T> static void lu4(double tol){ int m[16]; mat4(m); long d=detI(m,4); T a[16],o[16]; for(int i=0;i<16;++i){ a[i]=(T)m[i]; o[i]=(T)77; } double g=lv::determinant<4,T>(a); CHECK(std::abs(g-(double)d)<=tol*(1+std::abs((double)d)),"4x4 determinant"); bool r=lv::invert<4,T>(a,o); CHECK(r==(d!=0),"4x4 matrix inverted iff not singular"); for(int i=0;i<16;++i) CHECK(a[i]==(T)m[i],"the input is unchanged"); if(r&&d!=0) for(int i=0;i<4;++i) for(int j=0;j<4;++j){ double v=0; for(int k=0;k<4;++k) v+=m[i*4+k]*(double)o[k*4+j]; CHECK(std::abs(v-(i==j))<=tol*50,"4x4 inverse times matrix is identity"); } }
HARNESS(h_lu_d){ lu4<double>(1e-9); lv_cover("end"); }
HARNESS(h_lu_f){ lu4<float>(1e-4); lv_cover("end"); }
HARNESS(h_lu_i){ int m[16]; mat4(m); long d=detI(m,4); int o[16]; CHECK(std::abs(lv::determinant<4>(m)-(double)d)<=1e-9*(1+std::abs((double)d)),"4x4 integer determinant"); bool r=lv::invert<4>(m,o); CHECK(r==(d!=0),"4x4 integer matrix inverted iff not singular"); lv_cover("end"); }
HARNESS(h_inv3){ int m[9]; for(int i=0;i<9;++i) m[i]=i%4==3?2:lv_choice(-1,1,"v"); long d=detI(m,3); double a[9],o[9]; for(int i=0;i<9;++i) a[i]=m[i]; bool r=lv::invert<3,double>(a,o); CHECK(r==(d!=0),"3x3 matrix inverted iff not singular"); if(r) for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double v=0; for(int k=0;k<3;++k) v+=m[i*3+k]*o[k*3+j]; CHECK(std::abs(v-(i==j))<=1e-9,"3x3 inverse times matrix is identity"); } double q=a[0]; double w=0; bool r1=lv::invert<1,double>(&q,&w); CHECK(r1==(q!=0)&&(!r1||w*q==1),"1x1 inverse"); lv_cover("end"); }
// strings
HARNESS(h_clamp){ int n=lv_choice(0,4,"n"),k=lv_choice(0,5,"k"); std::string s; for(int i=0;i<n;++i) s.push_back(lv_any<char>("c")); char p=lv_any<char>("p"); std::string r=lv::clampString(s,(size_t)k,p); CHECK((int)r.size()==k,"clamped string has the requested size"); for(int i=0;i<k&&i<(int)r.size();++i) CHECK(r[i]==(n>k?s[i]:(i<k-n?p:s[i-(k-n)])),"left padded or truncated on the right"); lv_cover("end"); }
HARNESS(h_lower){ int n=lv_choice(0,2,"n"),m=lv_choice(0,2,"m"); std::string a,b; auto low=[](char c){ return (c>='A'&&c<='Z')?(char)(c+32):c; }; for(int i=0;i<n;++i){ char c=lv_any<char>("a"); lv_assume(c>=0); a.push_back(c); } for(int i=0;i<m;++i){ char c=lv_any<char>("b"); lv_assume(c>=0); b.push_back(c); } bool lt=false,done=false; for(int i=0;i<n||i<m;++i){ if(done) continue; if(i>=n){ lt=true; done=true; } else if(i>=m){ lt=false; done=true; } else { char x=low(a[i]),y=low(b[i]); if(x!=y){ lt=x<y; done=true; } } } CHECK(lv::compare_lowercase(a,b)==lt,"case-insensitive ordering"); lv_cover("end"); }
HARNESS(h_token){ int n=lv_choice(0,3,"n"),m=lv_choice(0,2,"m"); std::string s,t; for(int i=0;i<n;++i) s.push_back(lv_any<char>("s")); for(int i=0;i<m;++i) t.push_back(lv_any<char>("t")); bool f=false; for(int p=0;p+m<=n;++p){ bool e=true; for(int i=0;i<m;++i) e=e&&s[p+i]==t[i]; f=f||e; } CHECK(lv::string_contains_token(s,{t})==f,"token search"); CHECK(!lv::string_contains_token(s,{}),"no tokens"); lv_cover("end"); }
HARNESS(h_putf){ static const int L[10]={0,1,511,1022,1023,1024,1025,1026,2048,3000}; int n=L[lv_choice(0,9,"n")]; std::string s((size_t)n,'x'); if(n) s[n-1]='y'; std::string r=lv::putf("%s",s.c_str()); CHECK(r.size()==s.size(),"formatted length"); CHECK(r==s,"formatted text is complete"); CHECK(lv::putf("[%s]",s.c_str())=="["+s+"]","formatted text with literals"); lv_cover("end"); }
// ---------------- longer inputs: fixed contents, one free value
static int16_t patv(int i){ unsigned h=(unsigned)i*2654435761u; h^=h>>15; h*=2246822519u; h^=h>>13; return (int16_t)(h%41)-20; }
HARNESS(h_sort_big){ int n=lv_choice(0,2,"n"); n=n==0?17:n==1?33:40; std::vector<int16_t> v(n); for(int i=0;i<n;++i) v[i]=patv(i); static const int P[4]={0,1,8,16}; int p=P[lv_choice(0,3,"p")]; v[p]=(int16_t)lv_choice(-21,21,"x"); std::vector<size_t> ix=lv::sort_indices(v); std::vector<int> seen(n,0); CHECK((int)ix.size()==n,"one index per value (long)"); for(size_t i:ix){ CHECK(i<(size_t)n,"index in range (long)"); if(i<(size_t)n) ++seen[i]; } for(int s:seen) CHECK(s==1,"indices are a permutation (long)"); for(int i=1;i<n;++i) CHECK(v[ix[i-1]]<=v[ix[i]],"indexed values are sorted (long)"); std::vector<int16_t> u=lv::unique(v.begin(),v.end()); for(size_t i=1;i<u.size();++i) CHECK(u[i-1]<u[i],"unique set sorted (long)"); for(int i=0;i<n;++i){ bool f=false; for(auto x:u) f=f||x==v[i]; CHECK(f,"unique set complete (long)"); } chkuniq(v,lv::unique_indices(v),"index is the first occurrence (long)"); lv_cover("end"); }
HARNESS(h_vec_big){ const int n=37,m=19; std::vector<int16_t> v(n),w(m); for(int i=0;i<n;++i) v[i]=(int16_t)(patv(i)*3); for(int i=0;i<m;++i) w[i]=(int16_t)(patv(i*3)*3); int p=lv_choice(0,3,"p"),q=lv_choice(0,2,"q"); static const int PV[4]={0,7,31,36},PW[3]={0,9,18}; v[PV[p]]=(int16_t)lv_choice(-62,62,"x"); w[PW[q]]=(int16_t)500; auto has=[](const std::vector<int16_t>& q,int16_t x){ bool f=false; for(auto y:q) f=f||y==x; return f; };
    std::vector<int16_t> fo=lv::filter_out(v,w),fi=lv::filter_in(v,w); size_t o=0,i2=0; for(int i=0;i<n;++i){ if(has(w,v[i])){ CHECK(i2<fi.size()&&fi[i2]==v[i],"filter keeps matches in order (long)"); ++i2; } else { CHECK(o<fo.size()&&fo[o]==v[i],"filter keeps non-matches in order (long)"); ++o; } } CHECK(fo.size()==o&&fi.size()==i2,"filter outputs nothing else (long)");
    std::vector<size_t> ix=lv::indices_of(v,w); CHECK((int)ix.size()==n,"one index per value (long)"); for(int i=0;i<n;++i){ int f=-1; for(int j=m-1;j>=0;--j) if(w[j]==v[i]) f=j; CHECK(f>=0?ix[i]==(size_t)f:ix[i]>=(size_t)m,"index of the first match (long)"); }
    int16_t x=(int16_t)(v[PV[p]]*2+1); size_t r=lv::find_nn_index(x,w,[](int16_t a,int16_t b){ return a>b?(int)a-b:(int)b-a; }); CHECK(r<(size_t)m,"neighbour index in range (long)"); int rr=lv_concretize((int)r); int dr=std::abs((int)x-w[rr]); for(int i=0;i<m;++i) CHECK(dr<=std::abs((int)x-w[i]),"nearest neighbour (long)"); lv_cover("end"); }
HARNESS(h_sums_big){ const int n=50; std::vector<uint16_t> v(n,(uint16_t)65535); static const int P[4]={0,15,33,49}; int p=P[lv_choice(0,3,"p")]; v[p]=lv_any<uint16_t>("x"); std::vector<size_t> c=lv::cumulativeSum(v); CHECK(c.size()==(size_t)n,"one sum per value (long)"); uint64_t t=0; for(int i=0;i<n;++i){ t+=v[i]; CHECK(c[i]==t,"cumulative sum (long)"); } CHECK(lv::accumulateMembers<size_t>(v,[](uint16_t x){ return (size_t)x*2; })==2*t,"member accumulation (long)"); std::vector<uint8_t> b(n,(uint8_t)255); b[p]=lv_any<uint8_t>("y"); std::vector<size_t> cb=lv::cumulativeSum(b); t=0; for(int i=0;i<n;++i){ t+=b[i]; CHECK(cb[i]==t,"cumulative sum of bytes (long)"); } lv_cover("end"); }
HARNESS(h_interp_big){ const int N=9; std::vector<int> X(N),Y(N); int s[N],g[N]; X[0]=-7; Y[0]=lv_range(-50,50,"y0"); for(int i=0;i+1<N;++i){ g[i]=1+i%3; s[i]=(i*5)%11-5; X[i+1]=X[i]+g[i]; Y[i+1]=Y[i]+s[i]*g[i]; } std::vector<int> q,e; for(int i=N-2;i>=0;--i) for(int t=0;t<=g[i];++t){ q.push_back(X[i]+t); e.push_back(Y[i]+s[i]*t); } std::vector<int> r=lv::interp1(X,Y,q); CHECK(r.size()==q.size(),"one output per request (long)"); for(size_t i=0;i<r.size();++i) CHECK(r[i]==e[i],"interpolated value lies on the segment containing x (long)"); lv_cover("end"); }
HARNESS(h_str_big){ static const int L[5]={15,16,17,31,40}; int n=L[lv_choice(0,4,"n")]; std::string s; for(int i=0;i<n;++i) s.push_back((char)('a'+(i*7)%5)); static const int P[3]={0,50,99}; int p=(n-1)*P[lv_choice(0,2,"p")]/99; char x=lv_any<char>("x"); s[p]=x; int k=lv_choice(0,3,"k"); k=k==0?n-1:k==1?n:k==2?n+1:n+20; char pc=lv_any<char>("pc"); std::string r=lv::clampString(s,(size_t)k,pc); CHECK((int)r.size()==k,"clamped string has the requested size (long)"); for(int i=0;i<k&&i<(int)r.size();++i) CHECK(r[i]==(n>k?s[i]:(i<k-n?pc:s[i-(k-n)])),"left padded or truncated on the right (long)"); int m=lv_choice(1,4,"m"); std::string t="bd"; t=m==1?std::string("ZQ"):m==2?std::string("aZcb"):m==3?std::string("Z"):s.substr(1,n-2)+"Z"; auto in=[&](const std::string& t){ bool f=false; for(int o=0;o+(int)t.size()<=n;++o){ bool e=true; for(size_t i=0;i<t.size();++i) e=e&(s[o+i]==t[i]); f=f|e; } return f; }; CHECK(lv::string_contains_token(s,{"##",t})==in(t),"token search (long)"); CHECK(lv::string_contains_token(s,{t,"##"})==in(t),"token search, any order (long)"); lv_cover("end"); }
