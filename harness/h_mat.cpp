// C04: matrix containers and helpers: sizes, packing, comparison, sub-selection, sampling positions, copies and shifts.
#include "lvh.h"
#include "litiv/utils/opencv.hpp"
#include <vector>
template<typename T> static bool same(const T* a,const T* b,size_t n){ bool r=true; for(size_t i=0;i<n;++i) r&=(a[i]==b[i]); return r; }
// ---- MatSize
HARNESS(h_size){ int nd=lv_choice(0,3,"nd"),mk=lv_choice(0,3,"mk"); uint8_t s8[3]; lv_fill(s8,3,"s"); int s[4]={nd,s8[0],s8[1],s8[2]}; std::vector<int> v(s+1,s+1+nd); std::array<uint16_t,2> a2{(uint16_t)s[1],(uint16_t)s[2]};
    if(mk==2&&nd!=2) return; if(mk==3&&nd!=2) return; lv::MatSize m=mk==0?lv::MatSize(v):mk==1?lv::MatSize(nd,(const int*)(s+1)):mk==2?lv::MatSize(cv::Size(s[2],s[1])):lv::MatSize(a2); CHECK(m.dims()==(size_t)nd,"dimension count"); size_t tot=nd?1:0; for(int i=0;i<nd;++i){ CHECK(m.size(i)==(size_t)s[i+1]&&m[i]==(size_t)s[i+1]&&m(i)==(size_t)s[i+1]&&m.sizes()[i]==s[i+1],"dimension sizes"); tot*=(size_t)s[i+1]; } CHECK(m.total()==tot&&m.empty()==(tot==0),"element count"); CHECK(m.sizes()[-1]==nd,"raw array carries the dimension count");
    if(nd<=2){ cv::Size c=m; CHECK(nd==0?(c.width==0&&c.height==0):nd==1?(c.width==s[1]&&c.height==1):(c.height==s[1]&&c.width==s[2]),"conversion to cv::Size (rows first)"); CHECK((m==c)&&!(m!=c),"equality with cv::Size"); if(nd==2){ lv::MatSize t=m.transpose(); CHECK(t.dims()==2&&t[0]==m[1]&&t[1]==m[0],"transpose"); CHECK((m==cv::Size(s[1],s[2]))==(s[1]==s[2]),"comparison with a swapped size"); } } else { bool thr=false; try { cv::Size c=m; (void)c; } catch(const lv::Exception&){ thr=true; } CHECK(thr,"more than two dimensions do not fit a cv::Size"); }
    lv::MatSize_<int> mi=m; CHECK(mi==m&&m==mi&&!(mi!=m),"conversion between index types"); uint8_t o8[3]; lv_fill(o8,3,"o"); int od=lv_choice(0,3,"od"); std::vector<int> ov(o8,o8+od); lv::MatSize_<int> o(ov); size_t ot=od?1:0; for(int i=0;i<od;++i) ot*=ov[i]; bool eq=nd==od; for(int i=0;i<nd&&eq;++i) eq=eq&&v[i]==ov[i]; eq=eq||(tot==0&&ot==0); CHECK((m==o)==eq&&(m!=o)==!eq&&(o==m)==eq,"size equality"); lv::MatSize c2; c2=o; CHECK(c2.dims()==(size_t)od&&c2.total()==ot,"assignment"); lv_cover("end"); }
HARNESS(h_size_neg){ int v=lv_any<int>("v"); lv_assume(v<0); int k=lv_choice(0,3,"k"); bool thr=false; try { if(k==0){ lv::MatSize_<int> m(cv::Size(v,3)); } else if(k==1){ lv::MatSize_<int> m(3,v); } else if(k==2){ std::vector<int> s{2,v}; lv::MatSize_<int> m(s); } else { int s[2]={1,2}; lv::MatSize_<int> m(v,(const int*)s); } } catch(const lv::Exception&){ thr=true; } CHECK(thr,"negative sizes are rejected"); lv_cover("end"); }
// ---- MatType
template<typename T,int N> static void compat(const lv::MatType& t,int d,int ok){ CHECK((t.isTypeCompat<T,true>())==(t.channels()==N&&d==ok),"type compatibility, channels included"); if(N==1) CHECK(t.isTypeCompat<T>()==(d==ok),"type compatibility"); }
template<typename T> static void compatV(const lv::MatType& t,int d,int ok){ compat<T,1>(t,d,ok); compat<cv::Vec<T,2>,2>(t,d,ok); compat<cv::Vec<T,3>,3>(t,d,ok); compat<cv::Vec<T,4>,4>(t,d,ok); }
HARNESS(h_type){ int d=lv_choice(0,7,"d"),c=lv_choice(1,6,"c"); int ty=CV_MAKETYPE(d,c); static const size_t BY[7]={1,1,2,2,4,4,8}; static const char* NM[7]={"8U","8S","16U","16S","32S","32F","64F"}; bool bad=d>6||c>4; bool thr=false,thr2=false; lv::MatType a; CHECK(a.type()==CV_8UC1,"default type"); try { lv::MatType t(ty); } catch(const lv::Exception&){ thr=true; } a=CV_16SC2; try { a=ty; } catch(const lv::Exception&){ thr2=true; } CHECK(thr==bad&&thr2==bad,"exactly the unsupported types are rejected"); if(bad){ CHECK(a.type()==CV_16SC2,"a rejected type leaves the target unchanged"); return; } lv::MatType t(ty); CHECK(t.type()==ty&&t()==ty&&(int)t==ty&&t.depth()==d&&t.channels()==c&&t.depthBytes()==BY[d]&&t.elemSize()==BY[d]*c,"type information"); CHECK(a==t&&!(a!=t),"assigned type"); int e=lv_choice(0,6,"e"); lv::MatType u(CV_MAKETYPE(e,1)); CHECK((u==t)==(e==d&&c==1)&&(u!=t)==!(e==d&&c==1),"type equality"); std::string s=t.str(); CHECK(s.find(NM[d])!=std::string::npos&&s.find("C"+std::string(1,(char)('0'+c)))!=std::string::npos,"type string");
    compatV<uint8_t>(t,d,0); compatV<int8_t>(t,d,1); compatV<uint16_t>(t,d,2); compatV<int16_t>(t,d,3); compatV<int>(t,d,4); compatV<float>(t,d,5); compatV<double>(t,d,6); lv_cover("end"); }
HARNESS(h_info){ uint8_t s[4]; lv_fill(s,4,"s"); int t=lv_choice(0,2,"t"),u=lv_choice(0,2,"u"); static const int TY[3]={CV_8UC1,CV_8UC3,CV_32FC1}; lv::MatInfo a(lv::MatSize(s[0],s[1]),TY[t]),b(lv::MatSize(s[2],s[3]),TY[u]); bool e=((s[0]==s[2]&&s[1]==s[3])||((s[0]==0||s[1]==0)&&(s[2]==0||s[3]==0)))&&t==u; CHECK((a==b)==e&&(a!=b)==!e,"information equality is size and type equality"); lv::MatInfo c(b); CHECK(c==b,"copy"); c=a; CHECK(c==a&&c.type()==TY[t],"assignment");
    lv::MatSize_<uint16_t> z; z=lv::MatSize_<int>(3,(int)s[0],(int)s[1]); CHECK(z.dims()==3&&z[0]==3&&z[1]==s[0]&&z[2]==s[1],"move assignment between index types"); lv::MatSize_<int> y{4,(int)s[2]}; z=y; CHECK(z.dims()==2&&z[0]==4&&z[1]==s[2],"copy assignment between index types"); cv::MatSize ms=y; CHECK((y==ms)&&!(y!=ms)&&ms.p[-1]==2&&ms.p[0]==4&&ms.p[1]==s[2],"conversion to cv::MatSize"); int raw[4]={2,4,(int)s[3],0}; CHECK((y==cv::MatSize(raw+1))==(s[2]==s[3]),"comparison with cv::MatSize"); raw[0]=1; CHECK(y!=cv::MatSize(raw+1),"dimension counts differ"); const int* q=(const int*)y; CHECK(q[0]==4&&q[1]==s[2],"raw sizes");
    int k=lv_choice(0,3,"k"); static const double SC[4]={1.0,0.5,2.0,0.25}; static const int NU[4]={4,2,8,1}; int h=lv_choice(0,9,"h"),w=lv_choice(0,9,"w"); lv::MatSize_<int> x(h,w); lv::MatSize_<int> r=x*SC[k]; x*=SC[k]; CHECK(r.dims()==2&&r[0]==h*NU[k]/4&&r[1]==w*NU[k]/4&&x==r,"rescaled sizes are truncated"); lv_cover("end"); }
// ---- pack / unpack
static cv::Mat mk(int k,uint8_t* d){ // k: 0 empty, 1 8UC1 2x3, 2 8UC3 1x2 , 3 16UC1 2x2, 4 8UC1 2x2 view of 3x4, 5 32FC1 3d 1x2x2 , 6 16UC1 column view
    int s3[3]={1,2,2}; switch(k){ case 0: return cv::Mat(); case 1: return cv::Mat(2,3,CV_8UC1,d); case 2: return cv::Mat(1,2,CV_8UC3,d); case 3: return cv::Mat(2,2,CV_16UC1,d); case 4: return cv::Mat(3,4,CV_8UC1,d)(cv::Rect(1,1,2,2)); case 5: return cv::Mat(3,s3,CV_32FC1,d); default: return cv::Mat(2,3,CV_16UC1,d).col(1); } }
static bool sameMat(const cv::Mat& a,const cv::Mat& b){ if(a.dims!=b.dims||a.type()!=b.type()) return false; for(int i=0;i<a.dims;++i) if(a.size[i]!=b.size[i]) return false; bool r=true; if(a.dims==2){ for(int y=0;y<a.rows;++y) r&=same(a.ptr(y),b.ptr(y),a.cols*a.elemSize()); } else if(a.dims==3){ for(int x=0;x<a.size[0];++x) for(int y=0;y<a.size[1];++y) r&=same(a.ptr(x,y),b.ptr(x,y),a.size[2]*a.elemSize()); } return r; }
HARNESS(h_pack){ alignas(16) uint8_t d[3][16]; lv_fill(d[0],48,"d"); int n=lv_choice(0,3,"n"); std::vector<cv::Mat> v; size_t tot=0; for(int i=0;i<n;++i){ v.push_back(mk(lv_choice(0,6,"k"),d[i])); tot+=v.back().total()*v.back().elemSize(); } std::vector<lv::MatInfo> info; cv::Mat p=lv::packData(v,&info); CHECK(p.total()*p.elemSize()==tot,"packet holds exactly the data of the matrices"); CHECK(info.size()==v.size(),"one info record per matrix"); bool own=true; for(int i=0;i<n;++i) own=own&&(p.empty()||v[i].empty()||p.data!=v[i].data); CHECK(own,"packet does not alias its sources"); uint8_t keep[3][16]; for(int i=0;i<48;++i) keep[0][i]=d[0][i]; auto u=lv::unpackData(p,info); CHECK(u.size()==v.size(),"one matrix per record"); for(int i=0;i<n;++i){ if(v[i].empty()) CHECK(u[i].empty(),"empty matrices come back empty"); else { CHECK(sameMat(u[i],v[i]),"matrices come back identical"); CHECK(u[i].data>=p.data&&u[i].data<p.data+tot,"unpacked matrices share the packet's memory"); } } CHECK(same(keep[0],d[0],48),"sources untouched"); lv_cover("end"); }
HARNESS(h_unpack_bad){ uint8_t d[16]; lv_fill(d,16,"d"); int n=lv_choice(0,16,"n"),r=lv_range(0,4,"r"),c=lv_range(0,4,"c"); cv::Mat p; if(n) p=cv::Mat(1,n,CV_8UC1,d); std::vector<lv::MatInfo> info; info.emplace_back(lv::MatSize(lv_concretize(r),lv_concretize(c)),lv::MatType(CV_8UC1)); bool thr=false; try { lv::unpackData(p,info); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(r*c!=n),"a packet of the wrong size is rejected"); lv_cover("end"); }
// ---- comparisons
HARNESS(h_equal){ uint8_t d[2][16]; lv_fill(d[0],32,"d"); int a=lv_choice(0,4,"a"),b=lv_choice(0,4,"b"); cv::Mat A=mk(a,d[0]),B=mk(b,d[1]); int e=(a==2)?3:(a==3)?2:1; bool exp=a==b||(A.size==B.size&&A.type()==B.type()); if(exp&&a) exp=sameMat(A,B); bool r=e==3?lv::isEqual<cv::Vec3b>(A,B):e==2?lv::isEqual<ushort>(A,B):lv::isEqual<uchar>(A,B); CHECK(r==exp,"isEqual is true exactly for same size, type and content"); lv_cover("end"); }
HARNESS(h_near){ uint8_t d[2][16]; lv_fill(d[0],32,"d"); int k=lv_choice(1,4,"k"),k2=lv_choice(1,4,"k2"); cv::Mat A=mk(k,d[0]),B=mk(k2,d[1]); int eps=lv_range(0,40,"eps"); bool r=(A.depth()==CV_16U)?lv::isNearlyEqual<ushort>(A,B,eps):lv::isNearlyEqual<uchar>(A,B,eps); bool exp=(A.size==B.size&&A.type()==B.type()); if(exp) for(int y=0;y<A.rows;++y) for(int x=0;x<A.cols*A.channels();++x){ int p=A.depth()==CV_16U?A.ptr<ushort>(y)[x]:A.ptr(y)[x],q=B.depth()==CV_16U?B.ptr<ushort>(y)[x]:B.ptr(y)[x]; exp=exp&((p>q?p-q:q-p)<=eps); } CHECK(r==exp,"isNearlyEqual is true exactly when every element differs by at most epsilon"); lv_cover("end"); }
HARNESS(h_unique){ uint8_t d[6]; lv_fill(d,6,"d"); int view=lv_choice(0,1,"view"); cv::Mat_<uchar> M(2,3,d); M=view?cv::Mat_<uchar>(M.colRange(1,3)):cv::Mat_<uchar>(1,4,d); auto u=lv::unique(M); bool asc=true; for(size_t i=1;i<u.size();++i) asc=asc&&u[i-1]<u[i]; CHECK(asc,"unique values are sorted"); for(int y=0;y<M.rows;++y) for(int x=0;x<M.cols;++x){ bool f=false; for(auto z:u) f=f|(z==M(y,x)); CHECK(f,"every value is listed"); } for(auto z:u){ bool f=false; for(int y=0;y<M.rows;++y) for(int x=0;x<M.cols;++x) f=f|(z==M(y,x)); CHECK(f,"every listed value occurs"); } lv_cover("end"); }
HARNESS(h_kpts){ uint8_t d[9]; lv_fill(d,9,"d"); cv::Mat R(3,3,CV_8UC1,d); std::vector<cv::KeyPoint> v; int8_t p[4]; lv_fill(p,4,"p"); for(int i=0;i<2;++i){ lv_assume(p[2*i]>=-2&&p[2*i]<=4&&p[2*i+1]>=-2&&p[2*i+1]<=4); v.emplace_back((float)lv_concretize(p[2*i]),(float)lv_concretize(p[2*i+1]),1.f,-1.f,0.f,0,i); } lv::validateKeyPoints(R,v); size_t j=0; for(int i=0;i<2;++i){ int x=p[2*i],y=p[2*i+1]; bool in=x>=0&&y>=0&&x<3&&y<3&&d[y*3+x]>0; if(in){ CHECK(j<v.size()&&v[j].class_id==i,"keypoints inside the ROI are kept in order"); ++j; } } CHECK(j==v.size(),"keypoints outside the ROI are removed"); lv_cover("end"); }
// ---- sub-selection
HARNESS(h_submat){ uint8_t d[24]; lv_fill(d,24,"d"); int s[3]={2,3,4}; cv::Mat M(3,s,CV_8UC1,d); int k=lv_choice(0,2,"dim"),b=lv_choice(-1,4,"b"),e=lv_choice(b+1,5,"e"); bool single=e==b+1; bool thr=false; cv::Mat S; try { S=single?lv::getSubMat(M,k,b):lv::getSubMat(M,k,cv::Range(b,e)); } catch(const lv::Exception&){ thr=true; } bool ok=b>=0&&e<=s[k]; CHECK(thr==!ok,"out-of-bounds selections are rejected"); if(!ok) return; for(int i=0;i<3;++i) CHECK(S.size[i]==(i==k?e-b:s[i]),"selected dimension size"); for(int x=0;x<S.size[0];++x) for(int y=0;y<S.size[1];++y) for(int z=0;z<S.size[2];++z){ int o[3]={x,y,z}; o[k]+=b; CHECK(S.ptr(x,y,z)==M.ptr(o[0],o[1],o[2]),"selection refers to the matrix's own elements"); } 
    cv::Mat Q=lv::squeeze(S); int nd=0,qs[3]; for(int i=0;i<3;++i) if(S.size[i]>1) qs[nd++]=S.size[i]; if(nd>=2){ CHECK(Q.dims==nd,"squeezed dimension count"); for(int i=0;i<nd;++i) CHECK(Q.size[i]==qs[i],"squeezed sizes"); } CHECK(Q.total()==S.total()&&Q.isContinuous(),"squeezed element count"); size_t i=0; for(int x=0;x<S.size[0];++x) for(int y=0;y<S.size[1];++y) for(int z=0;z<S.size[2];++z) CHECK(Q.data[i++]==*S.ptr(x,y,z),"squeezed content"); lv_cover("end"); }
HARNESS(h_basic){ uint8_t d[48]; lv_fill(d,48,"d"); int cn=lv_choice(1,3,"cn"); cv::Mat M(4,4,CV_8UC(cn),d); cv::Mat V=M(cv::Rect(lv_choice(0,1,"x"),lv_choice(0,1,"y"),3,2)); cv::Mat_<uchar> B=lv::getBasicMat<uchar>(V); if(cn==1){ CHECK(B.dims==2&&B.rows==2&&B.cols==3,"same size"); } else CHECK(B.dims==3&&B.size[0]==2&&B.size[1]==3&&B.size[2]==cn,"channels become the last dimension"); for(int y=0;y<2;++y) for(int x=0;x<3;++x) for(int c=0;c<cn;++c) CHECK((cn==1?&B(y,x):&B(y,x,c))==V.ptr(y,x)+c,"element view of the same data"); lv_cover("end"); }
HARNESS(h_concat){ uint8_t d[3][6]; lv_fill(d[0],18,"d"); bool h=lv_choice(0,1,"h"); int n=lv_choice(1,3,"n"); std::vector<cv::Mat> v; for(int i=0;i<n;++i) v.emplace_back(2,3,CV_8UC1,d[i]); cv::Mat o=lv::concat(v,h); CHECK(o.rows==(h?2:2*n)&&o.cols==(h?3*n:3),"concatenated size"); for(int i=0;i<n;++i) for(int y=0;y<2;++y) for(int x=0;x<3;++x) CHECK(o.at<uchar>(h?y:y+2*i,h?x+3*i:x)==d[i][y*3+x],"concatenated content"); lv_cover("end"); }
// ---- sampling positions
HARNESS(h_clamp_px){ int x=lv_any<int>("x"),y=lv_any<int>("y"),b=lv_range(0,5,"b"),w=lv_range(1,30,"w"),h=lv_range(1,30,"h"); lv_assume(w>2*b&&h>2*b); int X=x,Y=y; lv::clampImageCoords(X,Y,b,cv::Size(w,h)); auto cl=[](int v,int lo,int hi){ return v<lo?lo:v>hi?hi:v; }; CHECK(X==cl(x,b,w-1-b)&&Y==cl(y,b,h-1-b),"coordinates clamped to the image without its border"); lv_cover("end"); }
template<int K> static void neigh(){ int r=lv_any<int>("r"); lv_assume(r>=0); int x=lv_range(0,8,"x"),y=lv_range(0,8,"y"),b=lv_range(0,2,"b"); int X,Y; if(K==3) lv::getNeighborPosition_3x3(r,X,Y,x,y,b,cv::Size(9,9)); else lv::getNeighborPosition_5x5(r,X,Y,x,y,b,cv::Size(9,9)); CHECK(X>=b&&Y>=b&&X<9-b&&Y<9-b,"neighbour inside the image"); if(x>=K/2+b&&y>=K/2+b&&x<9-b-K/2&&y<9-b-K/2) CHECK((X!=x||Y!=y)&&X-x<=K/2&&x-X<=K/2&&Y-y<=K/2&&y-Y<=K/2,"neighbour differs from the centre and lies in the window"); }
HARNESS(h_neigh3){ neigh<3>(); lv_cover("end"); }
HARNESS(h_neigh5){ neigh<5>(); lv_cover("end"); }
template<int K> static void neighAll(){ int cnt[K*K]={}; const int n=K*K-1; for(int r=0;r<n;++r){ int X,Y; if(K==3) lv::getNeighborPosition_3x3(r,X,Y,10,10,0,cv::Size(21,21)); else lv::getNeighborPosition_5x5(r,X,Y,10,10,0,cv::Size(21,21)); cnt[(Y-10+K/2)*K+X-10+K/2]++; } bool ok=true; for(int i=0;i<K*K;++i) ok=ok&&cnt[i]==(i==K*K/2?0:1); CHECK(ok,"every neighbour is reached by exactly one index"); }
HARNESS(h_neigh_all){ neighAll<3>(); neighAll<5>(); lv_cover("end"); }
// init sampling: cumulated pattern weights, raster order
static const int P3[9]={19,32,19,32,52,32,19,32,19}; static const int P7[49]={2,4,6,7,6,4,2,4,8,12,14,12,8,4,6,12,21,25,21,12,6,7,14,25,28,25,14,7,6,12,21,25,21,12,6,4,8,12,14,12,8,4,2,4,6,7,6,4,2};
template<int K> static void samp(){ const int* P=K==3?P3:P7; const int tot=K==3?256:512; int r=lv_any<int>("r"); lv_assume(r>=0); int x=lv_range(0,8,"x"),y=lv_range(0,8,"y"),b=lv_range(0,2,"b"); int X,Y; if(K==3) lv::getSamplePosition_3x3_std1(r,X,Y,x,y,b,cv::Size(9,9)); else lv::getSamplePosition_7x7_std2(r,X,Y,x,y,b,cv::Size(9,9)); CHECK(X>=b&&Y>=b&&X<9-b&&Y<9-b,"sample inside the image"); int m=r%tot,pos=K*K,acc=0; for(int i=0;i<K*K;++i){ acc+=P[i]; if(pos==K*K&&m<acc) pos=i; } int ex=x-K/2,ey=y-K/2; bool found=pos<K*K; auto cl=[](int v,int lo,int hi){ return v<lo?lo:v>hi?hi:v; }; int px=0,py=0; for(int i=0;i<K*K;++i) if(pos==i){ px=i%K; py=i/K; } ex=cl(ex+px,b,8-b); ey=cl(ey+py,b,8-b); if(found) CHECK(X==ex&&Y==ey,"sample follows the pattern weights"); }
HARNESS(h_samp3){ samp<3>(); lv_cover("end"); }
HARNESS(h_samp7){ samp<7>(); lv_cover("end"); }
// ---- pixel copies and shifts
template<int OH,int OW> static void copyvalid(){ uint8_t in[12],out[OH*OW],m[12],keep[OH*OW]; lv_fill(in,12,"in"); lv_fill(out,OH*OW,"out"); lv_fill(m,12,"m"); for(int i=0;i<OH*OW;++i) keep[i]=out[i]; cv::Mat I(3,4,CV_8UC1,in),O(OH,OW,CV_8UC1,out); bool um=lv_choice(0,1,"um"); cv::Mat_<uchar> M; if(um) M=cv::Mat_<uchar>(3,4,m); int ix=lv_choice(0,2,"ix"),iy=lv_choice(0,1,"iy"),w=lv_choice(0,4-ix,"w"),h=lv_choice(0,3-iy,"h"),ox=lv_choice(-OW,OW,"ox"),oy=lv_choice(-OH,OH,"oy"); cv::Rect valid(-9,-9,-9,-9); int n=lv::copyValidPixelsTo(I,cv::Rect(ix,iy,w,h),O,cv::Rect(ox,oy,w,h),&valid,M); int cnt=0,area=0; bool ok=true; for(int y=0;y<OH;++y) for(int x=0;x<OW;++x){ int sx=x-ox,sy=y-oy; bool in2=sx>=0&&sy>=0&&sx<w&&sy<h; area+=in2; bool cp=in2&&(!um||m[(iy+sy)*4+ix+sx]!=0); cnt+=cp; ok&=(out[y*OW+x]==(cp?in[(iy+sy)*4+ix+sx]:keep[y*OW+x])); } CHECK(ok,"exactly the in-bounds (unmasked) pixels are copied"); CHECK(n==cnt,"returned count is the number of copied pixels"); CHECK(valid.area()==area,"valid output ROI covers the in-bounds pixels"); if(area){ CHECK(valid.x>=0&&valid.y>=0&&valid.x+valid.width<=OW&&valid.y+valid.height<=OH&&valid.x==(ox<0?0:ox)&&valid.y==(oy<0?0:oy),"valid output ROI"); } lv_cover("end"); }
HARNESS(h_copyvalid){ copyvalid<2,3>(); }
HARNESS(h_copyvalid2){ copyvalid<3,2>(); }
HARNESS(h_copyvalid_bad){ uint8_t in[12],out[9]; lv_fill(in,12,"in"); lv_fill(out,9,"out"); cv::Mat I(3,4,CV_8UC1,in),O(3,3,CV_8UC1,out); int ix=lv_choice(-1,4,"ix"),iy=lv_choice(-1,3,"iy"),w=lv_choice(1,3,"w"),h=lv_choice(1,2,"h"); bool bad=ix<0||iy<0||ix+w>4||iy+h>3; bool thr=false; try { lv::copyValidPixelsTo(I,cv::Rect(ix,iy,w,h),O,cv::Rect(0,0,w,h)); } catch(const lv::Exception&){ thr=true; } CHECK(thr==bad,"an input ROI outside the image is rejected"); bool t2=false; try { lv::copyValidPixelsTo(I,cv::Rect(0,0,w,h),O,cv::Rect(0,0,w,h+1)); } catch(const lv::Exception&){ t2=true; } CHECK(t2,"ROIs of different sizes are rejected"); lv_cover("end"); }
HARNESS(h_shift){ uint8_t d[12],keep[12]; lv_fill(d,12,"d"); for(int i=0;i<12;++i) keep[i]=d[i]; cv::Mat I(3,4,CV_8UC1,d),O; int dx=lv_choice(-4,4,"dx"),dy=lv_choice(-3,3,"dy"),md=lv_choice(0,3,"md"); bool inpl=md==3; int ft=md==1?cv::BORDER_WRAP:md==2?cv::BORDER_REPLICATE:cv::BORDER_CONSTANT; bool bad=dx==4||dx==-4||dy==3||dy==-3,thr=false; cv::Mat& D=inpl?I:O; try { lv::shift(I,D,cv::Point2f((float)dx,(float)dy),ft,cv::Scalar(7)); } catch(const lv::Exception&){ thr=true; } CHECK(thr==bad,"offsets at least as large as the matrix are rejected"); if(bad) return; CHECK(D.rows==3&&D.cols==4&&D.type()==CV_8UC1,"same size and type"); for(int y=0;y<3;++y) for(int x=0;x<4;++x){ int sx=x-dx,sy=y-dy; bool in=sx>=0&&sx<4&&sy>=0&&sy<3; int e; if(in) e=keep[sy*4+sx]; else if(md==1) e=keep[((sy+3)%3)*4+(sx+4)%4]; else if(md==2) e=keep[(sy<0?0:sy>2?2:sy)*4+(sx<0?0:sx>3?3:sx)]; else e=7; CHECK(D.at<uchar>(y,x)==e,"element moved by the offset, border filled"); } lv_cover("end"); }
// sub-pixel: exact quarter positions
HARNESS(h_subpix){ uint8_t d[9]; lv_fill(d,9,"d"); for(int i=0;i<9;++i) d[i]&=15; cv::Mat_<uchar> M(3,3,d); static const int QX[4]={-5,-2,3,10},QY[3]={-1,4,6}; int qx=QX[lv_choice(0,3,"qx")],qy=QY[lv_choice(0,2,"qy")]; float f=lv::getSubPix<uchar,float>(M,qx*0.25f,qy*0.25f); auto fl=[](int q){ return (q+40)/4-10; }; int x0=fl(qx),y0=fl(qy),ax=qx-4*x0,ay=qy-4*y0; auto P=[&](int x,int y)->int{ x=x<0?0:x>2?2:x; y=y<0?0:y>2?2:y; return d[y*3+x]; }; int e=(P(x0,y0)*(4-ax)+P(x0+1,y0)*ax)*(4-ay)+(P(x0,y0+1)*(4-ax)+P(x0+1,y0+1)*ax)*ay; CHECK(f*16.f==(float)e,"bilinear interpolation with replicated borders"); uchar g=lv::getSubPix<uchar>(M,qx*0.25f,qy*0.25f); CHECK(g==(e+8)/16,"rounded to the nearest integer"); lv_cover("end"); }
// packed YCbCr: 8-bit luma, 4-bit chroma, vectorized and scalar columns alike
HARNESS(h_ycbcr){ uint8_t d[2*19*3]; for(int i=0;i<2*19*3;++i) d[i]=(uint8_t)(i*5); int px=lv_choice(0,1,"row")*19+lv_choice(0,2,"p")*9; lv_fill(d+px*3,3,"d"); cv::Mat_<cv::Vec3b> I(2,19,(cv::Vec3b*)d),Y; cv::cvtColor(I,Y,cv::COLOR_BGR2YCrCb); cv::Mat_<uint16_t> O=lv::cvtBGRToPackedYCbCr(I); CHECK(O.rows==2&&O.cols==19,"packed size"); for(int y=0;y<2;++y) for(int x=0;x<19;++x){ auto v=Y(y,x); CHECK(O(y,x)==(v[0]|((v[1]>>4)<<8)|((v[2]>>4)<<12)),"packed luma/chroma"); } cv::Mat_<cv::Vec3b> B=lv::cvtPackedYCbCrToBGR(O),Y2(2,19),B2; for(int y=0;y<2;++y) for(int x=0;x<19;++x){ auto v=Y(y,x); Y2(y,x)=cv::Vec3b(v[0],v[1]&0xF0,v[2]&0xF0); } cv::cvtColor(Y2,B2,cv::COLOR_YCrCb2BGR); CHECK(B.rows==2&&B.cols==19,"unpacked size"); for(int y=0;y<2;++y) for(int x=0;x<19;++x) CHECK(B(y,x)==B2(y,x),"unpacking restores luma and the upper chroma bits"); lv_cover("end"); }
// aligned allocators: every row aligned, enough memory
HARNESS(h_align){ int w=lv_choice(1,20,"w"),t=lv_choice(0,2,"t"); static const int T[3]={CV_8UC1,CV_8UC3,CV_32FC1}; bool a32=lv_choice(0,1,"a32"); cv::Mat m; m.allocator=a32?lv::getMatAllocator32a():lv::getMatAllocator16a(); m.create(3,w,T[t]); size_t al=a32?32:16; uint8_t v[3]; lv_fill(v,3,"v"); for(int y=0;y<3;++y){ CHECK((size_t)m.ptr(y)%al==0,"rows are aligned"); for(size_t i=0;i<w*m.elemSize();++i) m.ptr(y)[i]=v[y]; } for(int y=0;y<3;++y) for(size_t i=0;i<w*m.elemSize();++i) CHECK(m.ptr(y)[i]==v[y],"rows do not overlap"); lv_cover("end"); }
// larger matrices: fixed contents, one free element
static uint8_t mpat(int i,int k){ unsigned h=(unsigned)i*2654435761u+(unsigned)k*40503u; h^=h>>15; h*=2246822519u; h^=h>>13; return (uint8_t)h; }
HARNESS(h_equal_big){ const int H=5,W=43; int t=lv_choice(0,2,"t"); const int C=t==1?3:1,B=t==2?2:1; std::vector<uint8_t> a(H*W*C*B),b; for(size_t i=0;i<a.size();++i) a[i]=mpat((int)i,1); b=a; static const int P[6]={0,1,42,43,130,214}; int p=P[lv_choice(0,5,"p")]; lv_fill(&b[(size_t)(p*C+C-1)*B],B,"x"); int eps=lv_range(0,40,"eps"); bool exp=true; int df=0; for(int k=0;k<B;++k) exp=exp&(a[(p*C+C-1)*B+k]==b[(p*C+C-1)*B+k]); { int x=a[(p*C+C-1)*B],y=b[(p*C+C-1)*B]; if(B==2){ x+=256*a[(p*C+C-1)*B+1]; y+=256*b[(p*C+C-1)*B+1]; } df=x>y?x-y:y-x; } cv::Mat A(H,W,t==1?CV_8UC3:t==2?CV_16UC1:CV_8UC1,a.data()),Q(H,W,A.type(),b.data()); bool r=t==1?lv::isEqual<cv::Vec3b>(A,Q):t==2?lv::isEqual<ushort>(A,Q):lv::isEqual<uchar>(A,Q); CHECK(r==exp,"isEqual is true exactly for same content (large matrix)"); bool n=t==2?lv::isNearlyEqual<ushort>(A,Q,eps):lv::isNearlyEqual<uchar>(A,Q,eps); CHECK(n==(df<=eps),"isNearlyEqual is true exactly when every element differs by at most epsilon (large matrix)"); lv_cover("end"); }
HARNESS(h_pack_big){ int n=lv_choice(4,6,"n"); int T=lv_choice(0,1,"mix"); std::vector<cv::Mat> v; std::vector<std::vector<uint8_t>> st; static const int TY[6]={CV_8UC1,CV_16UC1,CV_8UC3,CV_32FC1,CV_8UC4,CV_64FC1}; size_t tot=0; for(int i=0;i<n;++i){ int ty=T?TY[i]:CV_8UC1; int h=1+i*3,w=7+i*5; if(i==2){ h=0; w=0; } std::vector<uint8_t> d((size_t)h*w*CV_ELEM_SIZE(ty)+1); for(size_t k=0;k<d.size();++k) d[k]=mpat((int)k,i); st.push_back(d); } int p=lv_choice(0,n-1,"p"); uint8_t x=lv_any<uint8_t>("x"); for(int i=0;i<n;++i){ int ty=T?TY[i]:CV_8UC1; int h=1+i*3,w=7+i*5; if(i==p) st[i][i==2?0:st[i].size()-2]=x; v.push_back(i==2?cv::Mat():cv::Mat(h,w,ty,st[i].data())); tot+=v.back().total()*v.back().elemSize(); } std::vector<lv::MatInfo> info; cv::Mat q=lv::packData(v,&info); CHECK(q.total()*q.elemSize()==tot,"packet holds exactly the data of the matrices (many)"); auto u=lv::unpackData(q,info); CHECK(u.size()==v.size(),"one matrix per record (many)"); for(int i=0;i<n;++i) CHECK(v[i].empty()?u[i].empty():sameMat(u[i],v[i]),"matrices come back identical (many)"); lv_cover("end"); }
HARNESS(h_shift_big){ const int H=7,W=38; std::vector<uint8_t> d(H*W*3); int C=lv_choice(0,1,"c")?3:1; for(int i=0;i<H*W*C;++i) d[i]=mpat(i,3); static const int P[4]={0,37,120,265}; int p=P[lv_choice(0,3,"p")]; d[p*C]=lv_any<uint8_t>("x"); static const int DX[5]={-37,-5,0,16,37},DY[3]={-6,0,4}; int dx=DX[lv_choice(0,4,"dx")],dy=DY[lv_choice(0,2,"dy")],md=lv_choice(0,2,"md"); cv::Mat I(H,W,CV_8UC(C),d.data()),D; lv::shift(I,D,cv::Point2f((float)dx,(float)dy),md==1?cv::BORDER_WRAP:md==2?cv::BORDER_REPLICATE:cv::BORDER_CONSTANT,cv::Scalar::all(7)); bool ok=D.rows==H&&D.cols==W&&D.type()==I.type(); CHECK(ok,"same size and type (large matrix)"); for(int y=0;y<H;++y) for(int x=0;x<W;++x) for(int c=0;c<C;++c){ int sx=x-dx,sy=y-dy; bool in=sx>=0&&sx<W&&sy>=0&&sy<H; int e=in?d[(sy*W+sx)*C+c]:md==1?d[(((sy+H)%H)*W+(sx+W)%W)*C+c]:md==2?d[((sy<0?0:sy>=H?H-1:sy)*W+(sx<0?0:sx>=W?W-1:sx))*C+c]:7; ok=ok&(D.ptr(y)[x*C+c]==e); } CHECK(ok,"element moved by the offset, border filled (large matrix)"); lv_cover("end"); }
