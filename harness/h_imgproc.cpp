// C09/C10: thinning, histograms, medians, consensus, integral images, non-maximum suppression.
#include "lvh.h"
#include "litiv/imgproc.hpp"
#include <vector>
typedef unsigned char uc;
// ---------------- thinning
static bool b(const uc* p,int W,int y,int x){ return p[y*W+x]!=0; }
// published algorithms, one pass
static bool refZS(uc* p,int H,int W,bool it){ uc del[128]={}; bool ch=false; for(int y=1;y<H-1;++y) for(int x=1;x<W-1;++x){ int P[8]={b(p,W,y-1,x),b(p,W,y-1,x+1),b(p,W,y,x+1),b(p,W,y+1,x+1),b(p,W,y+1,x),b(p,W,y+1,x-1),b(p,W,y,x-1),b(p,W,y-1,x-1)}; int A=0,B=0; for(int k=0;k<8;++k){ B+=P[k]; A+=(!P[k])&P[(k+1)&7]; } int N=P[0],E=P[2],S=P[4],Wt=P[6]; bool c=it?!((N&E&Wt)|(N&S&Wt)):!((N&E&S)|(E&S&Wt)); bool d=(p[y*W+x]!=0)&(A==1)&(B>=2)&(B<=6)&c; del[y*W+x]=d; ch=ch|d; } for(int i=0;i<H*W;++i) p[i]=del[i]?0:p[i]; return ch; }
static bool refLLS(uc* p,int H,int W,bool it){ bool ch=false; for(int y=1;y<H-1;++y) for(int x=1;x<W-1;++x){ int X[8]={b(p,W,y+1,x),b(p,W,y+1,x-1),b(p,W,y,x-1),b(p,W,y-1,x-1),b(p,W,y-1,x),b(p,W,y-1,x+1),b(p,W,y,x+1),b(p,W,y+1,x+1)}; int xh=0,n1=0,n2=0; for(int k=0;k<4;++k){ int a=X[2*k],c=X[2*k+1],d=X[(2*k+2)&7]; xh+=(!a)&(c|d); n1+=a|c; n2+=c|d; } int nm=n1<n2?n1:n2; bool g3=it?!((X[5]|X[6]|!X[3])&X[4]):!((X[1]|X[2]|!X[7])&X[0]); bool del=(p[y*W+x]!=0)&(xh==1)&(nm>=2)&(nm<=3)&g3; p[y*W+x]=del?0:p[y*W+x]; ch=ch|del; } return ch; }
template<int H,int W,int MODE,int IT> static void thin(){ uc d[H*W],r[H*W]; lv_fill(d,H*W,"px"); for(int i=0;i<H*W;++i) r[i]=d[i]; cv::Mat in(H,W,CV_8UC1,d),out; lv::thinning(in,out,MODE?lv::ThinningMode_LamLeeSuen:lv::ThinningMode_ZhangSuen); CHECK(out.type()==CV_8UC1&&out.rows==H&&out.cols==W&&out.data!=in.data,"output format"); for(int i=0;i<IT;++i) for(int k=0;k<2;++k){ if(MODE) refLLS(r,H,W,k); else refZS(r,H,W,k); }
    for(int i=0;i<H*W;++i){ CHECK((out.data[i]!=0)==(r[i]!=0),"result of the published algorithm, iterated until stable"); CHECK(out.data[i]==0||out.data[i]==d[i],"pixels are only removed, never added or changed"); int y=i/W,x=i%W; if(y==0||x==0||y==H-1||x==W-1) CHECK(out.data[i]==d[i],"border pixels stay"); } lv_cover("end"); }
HARNESS(h_thin_zs44){ thin<4,4,0,3>(); }
HARNESS(h_thin_lls44){ thin<4,4,1,3>(); }
HARNESS(h_thin_zs45){ thin<4,5,0,4>(); }
HARNESS(h_thin_lls45){ thin<4,5,1,4>(); }
HARNESS(h_thin_zs55){ thin<5,5,0,5>(); }
HARNESS(h_thin_lls55){ thin<5,5,1,5>(); }
// larger, mostly solid shapes that need many iterations, with a row of symbolic pixels across
template<int MODE> static void thinbig(){ const int H=8,W=9; uc d[H*W],r[H*W]; int row=lv_choice(2,5,"row"); for(int i=0;i<H*W;++i){ int y=i/W,x=i%W; bool in=y>0&&x>0&&y<H-1&&x<W-1; d[i]=in?255:0; if(y==row&&(x==3||x==5)) d[i]=lv_range(0,1,"px")?255:0; r[i]=d[i]; } cv::Mat in(H,W,CV_8UC1,d),out; lv::thinning(in,out,MODE?lv::ThinningMode_LamLeeSuen:lv::ThinningMode_ZhangSuen); for(int i=0;i<8;++i) for(int k=0;k<2;++k){ if(MODE) refLLS(r,H,W,k); else refZS(r,H,W,k); } bool e=true; for(int i=0;i<H*W;++i) e=e&(out.data[i]==r[i]); CHECK(e,"large shapes are thinned until stable"); lv_cover("end"); }
HARNESS(h_thin_big_zs){ thinbig<0>(); }
HARNESS(h_thin_big_lls){ thinbig<1>(); }
// every rectangle of a 9x10 image, with an optional isolated line elsewhere
template<int MODE> static void thinrect(){ const int H=9,W=10; uc d[H*W]={},r[H*W]; int y0=lv_choice(0,6,"y0"),y1=lv_choice(y0+1,H-1,"y1"),x0=lv_choice(0,7,"x0"),x1=lv_choice(x0+1,W-1,"x1"),k=lv_choice(0,1,"deco"); for(int y=y0;y<=y1;++y) for(int x=x0;x<=x1;++x) d[y*W+x]=(uc)(1+y*20+x); if(k){ int yy=y0>4?1:7,xx=x0>4?1:8; for(int t=0;t<4;++t) d[yy*W+(xx<4?xx+t:xx-t)]=200; } for(int i=0;i<H*W;++i) r[i]=d[i]; cv::Mat in(H,W,CV_8UC1,d),out; lv::thinning(in,out,MODE?lv::ThinningMode_LamLeeSuen:lv::ThinningMode_ZhangSuen); for(bool ch=true;ch;){ ch=false; for(int q=0;q<2;++q) ch=(MODE?refLLS(r,H,W,q):refZS(r,H,W,q))||ch; } bool e=true; for(int i=0;i<H*W;++i) e=e&(out.data[i]==r[i]); CHECK(e,"shapes anywhere in the image are thinned until stable"); lv_cover("end"); }
HARNESS(h_thin_rect_zs){ thinrect<0>(); }
HARNESS(h_thin_rect_lls){ thinrect<1>(); }
// fixpoint and topology: thinning again changes nothing; foreground stays connected (8) and background stays connected (4)
template<int H,int W> static void closure(const bool* v,int conn,bool (*R)[H*W]){ for(int i=0;i<H*W;++i) for(int j=0;j<H*W;++j){ int dy=i/W-j/W,dx=i%W-j%W; bool adj=conn==8?(dy*dy<=1&&dx*dx<=1):(dy*dy+dx*dx<=1); R[i][j]=adj&v[i]&v[j]; } for(int k=0;k<H*W;++k) for(int i=0;i<H*W;++i) for(int j=0;j<H*W;++j) R[i][j]=R[i][j]|(R[i][k]&R[k][j]); }
HARNESS(h_thin_topo){ const int H=4,W=4; uc d[16]; for(int i=0;i<16;++i) d[i]=lv_range(0,1,"px")?255:0; cv::Mat in(H,W,CV_8UC1,d),out,out2; lv::thinning(in,out); bool a[16],c[16]; for(int i=0;i<16;++i){ a[i]=d[i]!=0; c[i]=out.data[i]!=0; } static bool R[16][16],S[16][16]; closure<4,4>(a,8,R); closure<4,4>(c,8,S); for(int i=0;i<16;++i){ bool rep=false; for(int j=0;j<16;++j){ rep=rep|(R[i][j]&c[j]); CHECK(!(c[i]&c[j]&R[i][j])||S[i][j],"a connected shape stays connected"); } CHECK(!a[i]||rep,"no shape disappears"); } lv_cover("end"); }
template<int MODE,int W> static void idem(){ uc d[4*W]; for(int i=0;i<4*W;++i) d[i]=lv_range(0,1,"px")?255:0; cv::Mat in(4,W,CV_8UC1,d),out,out2; auto m=MODE?lv::ThinningMode_LamLeeSuen:lv::ThinningMode_ZhangSuen; lv::thinning(in,out,m); lv::thinning(out,out2,m); bool e=true; for(int i=0;i<4*W;++i) e=e&(out.data[i]==out2.data[i]); CHECK(e,"thinning a thinned image changes nothing"); lv_cover("end"); }
HARNESS(h_thin_idem_zs){ idem<0,5>(); }
HARNESS(h_thin_idem_lls){ idem<1,4>(); }
HARNESS(h_thin_bad){ int k=lv_choice(0,4,"k"); cv::Mat m=k==0?cv::Mat():k==1?cv::Mat(4,4,CV_8UC3):k==2?cv::Mat(3,5,CV_8UC1):k==3?cv::Mat(5,3,CV_8UC1):cv::Mat(6,6,CV_8UC1)(cv::Rect(0,0,4,4)),o; bool t=false; try { lv::thinning(m,o); } catch(const lv::Exception&){ t=true; } CHECK(t,"unsupported images are rejected"); lv_cover("end"); }
// ---------------- histogram and median
template<int N,bool MASK,typename T> static void hist(){ T d[N]; uc m[N]; lv_fill(d,N<5?N:4,"v"); lv_fill(m,N,"m"); for(int i=4;i<N;++i) d[i]=(T)(i%3); const int ty=sizeof(T)==1?CV_8UC1:CV_16UC1; cv::Mat in(1,N,ty,d); cv::Mat_<uc> mask; if(MASK) mask=cv::Mat(1,N,CV_8UC1,m); int tot=-1; std::vector<int> h=lv::calcHistCounts(in,mask,&tot); CHECK(h.size()==(sizeof(T)==1?256u:65536u),"one bin per value"); int e=0; for(int i=0;i<N;++i) e+=(!MASK)|(m[i]!=0); CHECK(tot==e,"number of counted elements"); T v=lv_any<T>("bin"); int c=0; for(int i=0;i<N;++i) c+=((!MASK)|(m[i]!=0))&(d[i]==v); CHECK(h[v]==c,"number of occurrences"); lv_cover("end"); }
HARNESS(h_hist8){ hist<4,false,uc>(); }
HARNESS(h_hist8w){ hist<18,true,uc>(); }
HARNESS(h_hist8m){ hist<4,true,uc>(); }
// 16-bit values out of 7 representative ones
template<bool MASK> static void hist16(){ static const unsigned short V[7]={0,1,255,256,32767,32768,65535}; const int N=3; unsigned short d[N]; uc m[N]; lv_fill(m,N,"m"); for(int i=0;i<N;++i) d[i]=V[lv_choice(0,6,"v")]; cv::Mat in(1,N,CV_16UC1,d); cv::Mat_<uc> mask; if(MASK) mask=cv::Mat(1,N,CV_8UC1,m); int tot=-1; std::vector<int> h=lv::calcHistCounts(in,mask,&tot); CHECK(h.size()==65536,"one bin per value"); int e=0; for(int i=0;i<N;++i) e+=(!MASK)|(m[i]!=0); CHECK(tot==e,"number of counted elements"); int v=V[lv_choice(0,6,"bin")]; int c=0; for(int i=0;i<N;++i) c+=((!MASK)|(m[i]!=0))&(d[i]==v); CHECK(h[v]==c,"number of occurrences"); lv_cover("end"); }
HARNESS(h_hist16){ hist16<false>(); }
HARNESS(h_hist16m){ hist16<true>(); }
// the median splits the valid elements in two halves (values 0-6 plus the extremes)
template<int N,bool MASK,typename T> static void med(){ T d[N]; uc m[N]; for(int i=0;i<N;++i){ int v=lv_choice(0,3,"v"); d[i]=(T)(v==3?(T)~(T)0:v); m[i]=MASK?lv_choice(0,1,"m"):1; } const int ty=sizeof(T)==1?CV_8UC1:CV_16UC1; cv::Mat in(1,N,ty,d); cv::Mat_<uc> mask; if(MASK) mask=cv::Mat(1,N,CV_8UC1,m); std::vector<int> h; int r=lv::calcMedianValue(in,mask,&h); int n=0,lt=0,gt=0,eq=0; for(int i=0;i<N;++i) if(m[i]){ ++n; lt+=d[i]<r; gt+=d[i]>r; eq+=d[i]==r; } if(n==0) CHECK(r==0,"no valid element"); else { CHECK(eq>0,"the median is one of the values"); CHECK(lt<=n/2&&lt+eq>n/2,"the median splits the values in two halves"); int s=0; for(size_t i=0;i<h.size();++i) s+=h[i]; CHECK(s==n,"histogram returned"); } lv_cover("end"); }
HARNESS(h_med8){ med<4,false,uc>(); }
HARNESS(h_med8m){ med<3,true,uc>(); }
HARNESS(h_med16){ med<2,true,unsigned short>(); }
// masked median blur
template<int H,int W,int K> static void mblur(){ uc d[H*W],m[H*W]; lv_fill(d,H*W,"v"); bool any=false; for(int i=0;i<H*W;++i){ m[i]=lv_choice(0,1,"m")?(uc)(1+i*40):0; any|=m[i]!=0; } uc def=lv_any<uc>("def"); cv::Mat in(H,W,CV_8UC1,d),out; lv::medianBlur(in,out,cv::Mat(H,W,CV_8UC1,m),K,def); CHECK(out.type()==CV_8UC1&&out.rows==H&&out.cols==W,"format"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ uc r=out.at<uc>(y,x); int n=0,lt=0,eq=0; for(int j=0;j<H;++j) for(int i=0;i<W;++i) if(std::abs(j-y)<=K/2&&std::abs(i-x)<=K/2&&m[j*W+i]){ ++n; lt+=d[j*W+i]<r; eq+=d[j*W+i]==r; } if(!n) CHECK(r==def,"default where the window has no valid pixel"); else { int k=(n-1)/2; CHECK(lt<=k&&lt+eq>k,"median of the valid pixels of the window"); } } lv_cover("end"); }
HARNESS(h_mblur12){ mblur<1,3,3>(); }
HARNESS(h_mblur22){ mblur<2,2,3>(); }
HARNESS(h_mblur14){ mblur<1,4,5>(); }
HARNESS(h_mblur13_full){ uc d[4]; lv_fill(d,4,"v"); cv::Mat in(2,2,CV_8UC1,d),out; lv::medianBlur(in,out,cv::Mat(),3); for(int y=0;y<2;++y) for(int x=0;x<2;++x){ uc w[9]; int n=0; for(int j=-1;j<2;++j) for(int i=-1;i<2;++i){ int yy=std::min(std::max(y+j,0),1),xx=std::min(std::max(x+i,0),1); w[n++]=d[yy*2+xx]; } uc r=out.at<uc>(y,x); int lt=0,eq=0; for(int i=0;i<9;++i){ lt+=w[i]<r; eq+=w[i]==r; } CHECK((lt<=4)&(lt+eq>4),"median of the replicated window"); } lv_cover("end"); }
// binary median / consensus / integral
template<int H,int W,int K,bool MASK,bool FORCE> static void bmed(){ uc d[H*W],m[H*W]; for(int i=0;i<H*W;++i){ d[i]=lv_any<uc>("v"); if(!FORCE) lv_assume(d[i]<=1); m[i]=MASK?lv_any<uc>("m"):1; } uc def=lv_any<uc>("def"); cv::Mat in(H,W,CV_8UC1,d),out; cv::Mat_<uc> mask; if(MASK) mask=cv::Mat(H,W,CV_8UC1,m); lv::binaryMedianBlur(in,out,mask,K,FORCE,def); CHECK(out.type()==CV_8UC1&&out.rows==H&&out.cols==W,"format"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int n=0,p=0; for(int j=0;j<H;++j) for(int i=0;i<W;++i) if(std::abs(j-y)<=K/2&&std::abs(i-x)<=K/2){ n+=m[j*W+i]!=0; p+=(m[j*W+i]!=0)&(d[j*W+i]!=0); } uc e=n==0?def:(p>n/2)?255:0; CHECK(out.at<uc>(y,x)==e,"majority of the valid pixels of the window"); } lv_cover("end"); }
HARNESS(h_bmed_f){ bmed<3,4,3,false,true>(); }
HARNESS(h_bmed_w){ bmed<2,18,3,false,true>(); }
HARNESS(h_bmed_mw){ bmed<2,18,3,true,true>(); }
HARNESS(h_bmed_r){ bmed<4,3,3,false,false>(); }
HARNESS(h_bmed_m){ bmed<3,3,3,true,true>(); }
HARNESS(h_bmed_m5){ bmed<2,4,5,true,false>(); }
HARNESS(h_bmed_5){ bmed<2,4,5,false,true>(); }
template<int H,int W,int K,bool FORCE> static void cons(){ uc d[H*W]; int t[H*W]; lv_fill(t,H*W,"t"); for(int i=0;i<H*W;++i){ d[i]=lv_any<uc>("v"); if(!FORCE) lv_assume(d[i]<=1); } cv::Mat in(H,W,CV_8UC1,d),out; lv::binaryConsensus(in,out,cv::Mat(H,W,CV_32SC1,t),K,FORCE); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int p=0; for(int j=0;j<H;++j) for(int i=0;i<W;++i) if(std::abs(j-y)<=K/2&&std::abs(i-x)<=K/2) p+=d[j*W+i]!=0; CHECK(out.at<uc>(y,x)==(p>=t[y*W+x]?255:0),"positive exactly where the window reaches the pixel's count"); } cv::Mat o1,o2; lv::binaryConsensus(in,o1,cv::Mat_<int>(),K,FORCE); lv::binaryMedianBlur(in,o2,cv::Mat_<uc>(),K,FORCE); bool e=true; for(int i=0;i<H*W;++i) e=e&(o1.data[i]==o2.data[i]); CHECK(e,"majority vote without counts"); lv_cover("end"); }
HARNESS(h_cons_f){ cons<3,3,3,true>(); }
HARNESS(h_cons_r){ cons<2,4,3,false>(); }
template<int C> static void integ(){ const int H=2,W=3; uc d[H*W*C],m[H*W]; lv_fill(d,H*W*C,"v"); lv_fill(m,H*W,"m"); int k=lv_choice(0,3,"k"); cv::Mat in(H,W,CV_8UC(C),d); cv::Mat out; if(lv_choice(0,1,"reuse")) out=cv::Mat(H+1,W+1,CV_32SC(C),cv::Scalar::all(77)); int depth=lv_choice(0,1,"dep")?CV_32S:-1; cv::Mat_<uc> mask; if(k&1) mask=cv::Mat(H,W,CV_8UC1,m); bool bin=k>=2&&C==1; if(bin) lv::binaryIntegral(in,out,mask,depth,true); else if(k==0) lv::integral(in,out,depth); else lv::integral(in,out,mask,depth); CHECK(out.type()==CV_32SC(C)&&out.rows==H+1&&out.cols==W+1,"format"); for(int y=0;y<=H;++y) for(int x=0;x<=W;++x) for(int c=0;c<C;++c){ int s=0; for(int j=0;j<y;++j) for(int i=0;i<x;++i){ int v=d[(j*W+i)*C+c]; if(bin) v=v!=0; if(k&1) v=m[j*W+i]?v:0; s+=v; } CHECK(out.ptr<int>(y)[x*C+c]==s,"sum of the valid pixels above and to the left"); } lv_cover("end"); }
HARNESS(h_integ1){ integ<1>(); }
HARNESS(h_integ3){ integ<3>(); }
HARNESS(h_integ_raw){ uc d[6],m[6]; lv_fill(d,6,"v"); lv_fill(m,6,"m"); cv::Mat in(2,3,CV_8UC1,d),o1,o2; lv::binaryIntegral(in,o1,cv::Mat(2,3,CV_8UC1,m),CV_32S,false); lv::integral(in,o2,cv::Mat(2,3,CV_8UC1,m),CV_32S); bool e=true; for(int i=0;i<12;++i) e=e&(((int*)o1.data)[i]==((int*)o2.data)[i]); CHECK(e,"without conversion, plain masked sums"); lv_cover("end"); }
HARNESS(h_bad){ int k=lv_choice(0,6,"k"),f=lv_choice(0,4,"f"); cv::Mat in(4,4,CV_8UC1,cv::Scalar(0)),out,mk(4,4,CV_8UC1,cv::Scalar(1)),cm(4,4,CV_32SC1,cv::Scalar(1)); int K=3,D=CV_32S; if(k==0) in=cv::Mat(); else if(k==1) in=cv::Mat(4,4,CV_16SC1,cv::Scalar(0)); else if(k==2) in=cv::Mat(4,6,CV_8UC1,cv::Scalar(0))(cv::Rect(0,0,4,4)); else if(k==3){ mk=cv::Mat(4,3,CV_8UC1,cv::Scalar(1)); cm=cv::Mat(4,3,CV_32SC1,cv::Scalar(1)); } else if(k==4){ K=1; D=CV_64F; } else if(k==5){ K=4; D=CV_8U; } else { out=cv::Mat(3,3,CV_8UC1,cv::Scalar(0)); D=CV_64F; } bool t=false; try { if(f==0) lv::medianBlur(in,out,mk,K); else if(f==1) lv::binaryMedianBlur(in,out,mk,K); else if(f==2) lv::binaryConsensus(in,out,cm,K); else if(f==3) lv::integral(in,out,mk,D); else lv::binaryIntegral(in,out,mk,D); } catch(const lv::Exception&){ t=true; } CHECK(t,"bad matrices, masks, kernels or depths are rejected"); lv_cover("end"); }
HARNESS(h_bad2){ int k=lv_choice(0,3,"k"),f=lv_choice(0,1,"f"); cv::Mat in=k==0?cv::Mat():k==1?cv::Mat(4,4,CV_8UC3,cv::Scalar(0)):k==2?cv::Mat(4,6,CV_8UC1,cv::Scalar(0))(cv::Rect(0,0,4,4)):cv::Mat(4,4,CV_8UC1,cv::Scalar(0)); cv::Mat mk(4,3,CV_8UC1,cv::Scalar(1)); bool t=false; try { if(f) lv::calcHistCounts(in,k==3?mk:cv::Mat()); else lv::calcMedianValue(in,k==3?mk:cv::Mat()); } catch(const lv::Exception&){ t=true; } CHECK(t,"bad matrices are rejected"); lv_cover("end"); }
// ---------------- non-maximum suppression
template<int N,int H,int W,bool MASK> static void nms(){ uc d[H*W],m[H*W]; lv_fill(d,H*W,"v"); for(int i=0;i<H*W;++i) m[i]=MASK?lv_choice(0,1,"m"):1; cv::Mat in(H,W,CV_8UC1,d),out; lv::nonMaxSuppression<N>(in,out,MASK?cv::Mat(H,W,CV_8UC1,m):cv::Mat()); CHECK(out.type()==CV_8UC1&&out.rows==H&&out.cols==W,"format"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ bool mx=true,strict=m[y*W+x]!=0; for(int j=0;j<H;++j) for(int i=0;i<W;++i) if((j!=y||i!=x)&&std::abs(j-y)<=N&&std::abs(i-x)<=N){ mx=mx&!((m[j*W+i]!=0)&(d[j*W+i]>d[y*W+x])); strict=strict&!((m[j*W+i]!=0)&(d[j*W+i]>=d[y*W+x])); } uc r=out.at<uc>(y,x); CHECK((r==0)|(r==255),"binary output"); CHECK((r==0)|(mx&(m[y*W+x]!=0)&(d[y*W+x]>0)),"a marked pixel is a valid, non-null maximum of its window"); CHECK((r!=0)|!(strict&(d[y*W+x]>0)),"every strict non-null maximum is marked"); } lv_cover("end"); }
HARNESS(h_nms13){ nms<1,1,4,false>(); }
HARNESS(h_nms22){ nms<1,2,3,false>(); }
HARNESS(h_nms33){ nms<1,3,3,false>(); }
HARNESS(h_nms2){ nms<2,1,5,false>(); }
HARNESS(h_nms_m){ nms<1,2,3,true>(); }
HARNESS(h_nms_m15){ nms<1,1,5,true>(); }
template<typename T,int R> static void lmax(){ const int N=2*R+1; T d[N*N]; lv_fill(d,N*N,"v"); const T* c=d+R*N+R; auto at=[&](int dy,int dx){ return d[(R+dy)*N+R+dx]; }; bool h=true,v=true,g=true,q=true; for(int k=1;k<=R;++k){ h=h&(*c>at(0,-k))&(*c>=at(0,k)); v=v&(*c>at(-k,0))&(*c>=at(k,0)); g=g&(*c>at(-k,-k))&(*c>=at(k,k)); q=q&(*c>at(-k,k))&(*c>=at(k,-k)); } CHECK((lv::isLocalMaximum_Horizontal<R>(c,1,N))==h,"horizontal"); CHECK((lv::isLocalMaximum_Vertical<R>(c,1,N))==v,"vertical"); CHECK((lv::isLocalMaximum_Diagonal<R>(c,1,N,false))==g,"diagonal"); CHECK((lv::isLocalMaximum_Diagonal<R>(c,1,N,true))==q,"inverse diagonal"); lv_cover("end"); }
HARNESS(h_lmax1){ lmax<uc,1>(); }
HARNESS(h_lmax2){ lmax<short,2>(); }
// ---------------- larger images: fixed contents, one free pixel (value and validity)
static uc pat(int i,int k){ unsigned h=(unsigned)i*2654435761u+(unsigned)k*40503u; h^=h>>15; h*=2246822519u; h^=h>>13; return (uc)h; }
static int posOf(int n){ static const int P[6]={0,1,17,50,81,99}; return (int)((long)(n-1)*P[lv_choice(0,5,"pos")]/99); }
template<typename T> static void histBig(){ const int H=23,W=47,N=H*W; std::vector<T> d(N); std::vector<uc> m(N); bool k=lv_choice(0,1,"masked")!=0; for(int i=0;i<N;++i){ d[i]=(T)(pat(i,1)*(sizeof(T)==2?255:1)+(i%7==0)); m[i]=pat(i,2)<90?0:pat(i,2); if(i%3==0) d[i]=(T)5; } int p=posOf(N); T f=sizeof(T)==1?(T)lv_any<T>("f8"):(T)(lv_choice(0,3,"f16")*21845); uc fm=lv_any<uc>("fm"); d[p]=f; m[p]=fm; cv::Mat in(H,W,sizeof(T)==1?CV_8UC1:CV_16UC1,d.data()); cv::Mat_<uc> mask; if(k) mask=cv::Mat(H,W,CV_8UC1,m.data()); int tot=-1; std::vector<int> h=lv::calcHistCounts(in,mask,&tot); int e=0; std::vector<int> r(sizeof(T)==1?256:65536,0); for(int i=0;i<N;++i) if(i!=p&&(!k||m[i])){ ++r[d[i]]; ++e; } bool fv=!k||fm!=0; CHECK(tot==e+(fv?1:0),"number of counted elements (large image)"); bool ok=h.size()==r.size(); for(size_t v=0;v<r.size();++v) ok=ok&(h[v]==r[v]+((fv&(f==(T)v))?1:0)); CHECK(ok,"number of occurrences (large image)"); }
HARNESS(h_hist_big){ if(lv_choice(0,1,"w")) histBig<unsigned short>(); else histBig<uc>(); lv_cover("end"); }
HARNESS(h_med_big){ const int H=13,W=21,N=H*W; uc d[N],m[N]; bool k=lv_choice(0,1,"masked")!=0; for(int i=0;i<N;++i){ d[i]=(uc)(pat(i,3)%9+100); m[i]=pat(i,4)<90?0:pat(i,4); } int p=posOf(N); d[p]=(uc)(97+lv_choice(0,13,"v")); m[p]=(uc)lv_choice(0,1,"m"); cv::Mat in(H,W,CV_8UC1,d); cv::Mat_<uc> mask; if(k) mask=cv::Mat(H,W,CV_8UC1,m); int r=lv::calcMedianValue(in,mask); int n=0,lt=0,eq=0; for(int i=0;i<N;++i) if(!k||m[i]){ ++n; lt+=d[i]<r; eq+=d[i]==r; } CHECK(eq>0&&lt<=n/2&&lt+eq>n/2,"the median splits the values in two halves (large image)"); lv_cover("end"); }
template<int H,int W,int K> static void winBig(){ uc d[H*W],m[H*W]; for(int i=0;i<H*W;++i){ d[i]=pat(i,5)<(i%W<W/2?90:170)?0:pat(i,5); m[i]=pat(i,6)<70||(i%W>W-5&&i/W<4)?0:pat(i,6); } int p=posOf(H*W); d[p]=lv_any<uc>("v"); m[p]=lv_any<uc>("m"); bool k=lv_choice(0,1,"masked")!=0; uc def=77; cv::Mat in(H,W,CV_8UC1,d),out,oc; cv::Mat_<uc> mask; if(k) mask=cv::Mat(H,W,CV_8UC1,m); lv::binaryMedianBlur(in,out,mask,K,true,def); int t[H*W]; for(int i=0;i<H*W;++i) t[i]=pat(i,7)*K*K/255; lv::binaryConsensus(in,oc,cv::Mat(H,W,CV_32SC1,t),K,true);
    for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int n=0,q=0,a=0; for(int j=std::max(0,y-K/2);j<=std::min(H-1,y+K/2);++j) for(int i=std::max(0,x-K/2);i<=std::min(W-1,x+K/2);++i){ int b=(d[j*W+i]!=0)?1:0,v=(!k||m[j*W+i]!=0)?1:0; n+=v; q+=b&v; a+=b; } uc e=n==0?def:(q>n/2)?255:0; CHECK(out.at<uc>(y,x)==e,"majority of the valid pixels of the window (large image)"); CHECK(oc.at<uc>(y,x)==(a>=t[y*W+x]?255:0),"consensus (large image)"); } lv_cover("end"); }
HARNESS(h_win_big3){ winBig<9,37,3>(); }
HARNESS(h_win_big9){ winBig<12,35,9>(); }
HARNESS(h_win_big17){ winBig<18,19,17>(); }
template<int H,int W,int K> static void mblurBig(){ uc d[H*W],m[H*W]; for(int i=0;i<H*W;++i){ d[i]=pat(i,8); m[i]=pat(i,9)<110||(i%W>W-5&&i/W<4)?0:pat(i,9); } int p=posOf(H*W); m[p]=(uc)lv_choice(0,1,"m"); static const uc VV[4]={0,96,160,255}; d[p]=VV[lv_choice(0,3,"v")]; uc def=77; cv::Mat in(H,W,CV_8UC1,d),out; lv::medianBlur(in,out,cv::Mat(H,W,CV_8UC1,m),K,def); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ uc r=out.at<uc>(y,x); int n=0,lt=0,eq=0; for(int j=std::max(0,y-K/2);j<=std::min(H-1,y+K/2);++j) for(int i=std::max(0,x-K/2);i<=std::min(W-1,x+K/2);++i) if(m[j*W+i]){ ++n; lt+=d[j*W+i]<r; eq+=d[j*W+i]==r; } if(!n) CHECK(r==def,"default where the window has no valid pixel (large image)"); else { int k=(n-1)/2; CHECK((lt<=k)&(lt+eq>k),"median of the valid pixels of the window (large image)"); } } lv_cover("end"); }
HARNESS(h_mblur_big){ mblurBig<7,12,5>(); }
HARNESS(h_integ_big){ const int H=12,W=41; int k=lv_choice(0,3,"k"),C=lv_choice(0,1,"c")?3:1; if(k>=2) C=1; std::vector<uc> d(H*W*C),m(H*W); for(int i=0;i<H*W*C;++i) d[i]=pat(i,10); for(int i=0;i<H*W;++i) m[i]=pat(i,11)<90?0:pat(i,11); int p=posOf(H*W); uc v=lv_any<uc>("v"),vm=lv_any<uc>("m"); d[p*C]=v; m[p]=vm; cv::Mat in(H,W,CV_8UC(C),d.data()),out; cv::Mat_<uc> mask; if(k&1) mask=cv::Mat(H,W,CV_8UC1,m.data()); if(k>=2) lv::binaryIntegral(in,out,mask,CV_32S,true); else if(k==0) lv::integral(in,out,CV_32S); else lv::integral(in,out,mask,CV_32S); std::vector<int> r((H+1)*(W+1)*C,0); bool ok=out.rows==H+1&&out.cols==W+1&&out.type()==CV_32SC(C); for(int c=0;c<C;++c) for(int y=1;y<=H;++y){ int row=0; for(int x=1;x<=W;++x){ int i=(y-1)*W+x-1; int w=d[i*C+c]; if(k>=2) w=w?1:0; if(k&1) w=m[i]?w:0; row+=w; r[(y*(W+1)+x)*C+c]=r[((y-1)*(W+1)+x)*C+c]+row; } } CHECK(ok,"format (large image)"); for(int y=0;y<=H;++y) for(int x=0;x<=W*C;++x) ok=ok&(out.ptr<int>(y)[x]==(x<(W+1)*C?r[y*(W+1)*C+x]:0)); CHECK(ok,"sum of the valid pixels above and to the left (large image)"); lv_cover("end"); }
template<int N,int H,int W> static void nmsBig(){ uc d[H*W],m[H*W]; bool k=lv_choice(0,1,"masked")!=0; for(int i=0;i<H*W;++i){ d[i]=pat(i,12)%23; m[i]=k&&pat(i,13)<80?0:1; } int p=posOf(H*W); d[p]=lv_any<uc>("v"); if(k) m[p]=(uc)lv_choice(0,1,"m"); cv::Mat in(H,W,CV_8UC1,d),out; lv::nonMaxSuppression<N>(in,out,k?cv::Mat(H,W,CV_8UC1,m):cv::Mat()); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ bool mx=true,strict=m[y*W+x]!=0; for(int j=std::max(0,y-N);j<=std::min(H-1,y+N);++j) for(int i=std::max(0,x-N);i<=std::min(W-1,x+N);++i) if(j!=y||i!=x){ mx=mx&!((m[j*W+i]!=0)&(d[j*W+i]>d[y*W+x])); strict=strict&!((m[j*W+i]!=0)&(d[j*W+i]>=d[y*W+x])); } uc r=out.at<uc>(y,x); CHECK((r==0)|(r==255),"binary output (large image)"); CHECK((r==0)|(mx&(m[y*W+x]!=0)&(d[y*W+x]>0)),"a marked pixel is a valid, non-null maximum of its window (large image)"); CHECK((r!=0)|!(strict&(d[y*W+x]>0)),"every strict non-null maximum is marked (large image)"); } lv_cover("end"); }
HARNESS(h_nms_big1){ nmsBig<1,8,11>(); }
HARNESS(h_nms_big2){ nmsBig<2,9,13>(); }
