// C07: LBSP descriptors: every bit, every pixel, every way of asking for it.
#include "lvh.h"
#include "litiv/features2d/LBSP.hpp"
#include <vector>
static const int DX[16]={-2,2,0,0,-2,2,2,-2,0,-1,0,1,-1,1,1,-1},DY[16]={0,0,-2,2,2,-2,2,-2,1,0,-1,0,-1,1,-1,1};
static inline int absd(int a,int b){ return a>b?a-b:b-a; }
static inline uint16_t oracle(const uint8_t* im,int w,int cn,int x,int y,int c,int ref,int thr){ unsigned d=0; for(int n=0;n<16;++n) d|=(unsigned)(absd(im[((y+DY[n])*w+x+DX[n])*cn+c],ref)>thr)<<n; return (uint16_t)d; }
HARNESS(h_thr){ alignas(16) uint8_t v[16]; lv_fill(v,16,"v"); uint8_t r=lv_any<uint8_t>("r"),t=lv_any<uint8_t>("t"); unsigned d=0; for(int n=0;n<16;++n) d|=(unsigned)(absd(v[n],r)>t)<<n; CHECK(LBSP::computeDescriptor_threshold(v,r,t)==d,"bit n is set iff |pixel n - reference| > threshold"); lv_cover("end"); }
template<int CN,int W,int H> struct Img { uint8_t d[W*H*CN]; cv::Mat m; Img(const char* n){ lv_fill(d,W*H*CN,n); m=cv::Mat(H,W,CV_8UC(CN),d); } };
template<int CN> static void single(){ const int W=7,H=6; Img<CN,W,H> I("im"); int x=lv_choice(2,W-3,"x"),y=lv_choice(2,H-3,"y"); uint8_t r[CN],t[CN]; lv_fill(r,CN,"r"); lv_fill(t,CN,"t"); LBSP::desc_t o[CN]; LBSP::computeDescriptor<CN>(I.m,r,x,y,t,o); for(int c=0;c<CN;++c){ uint16_t e=oracle(I.d,W,CN,x,y,c,r[c],t[c]); CHECK(o[c]==e,"multi-channel descriptor"); LBSP::desc_t s=0; LBSP::computeDescriptor<CN>(I.m,r[c],x,y,(size_t)c,t[c],s); CHECK(s==e,"single-channel descriptor"); } }
HARNESS(h_single1){ single<1>(); lv_cover("end"); }
HARNESS(h_single3){ single<3>(); lv_cover("end"); }
// dense map, keypoint map, keypoint column + reshape; absolute/relative thresholds; with or without reference image
template<int CN,int W,int H> static void dense(int mode,bool ref,bool fixT=false){ Img<CN,W,H> I("im"),Rf("ref"); static const int TS[1]={17}; size_t T=(size_t)(fixT?TS[0]:lv_range(0,300,"T")); static const float FS[3]={0.0f,0.25f,0.365f}; float f=FS[mode?(fixT?2:lv_choice(0,2,"f")):0];
    LBSP a(T),b(f,T); LBSP& l=mode?b:a; if(ref) l.setReference(Rf.m); CHECK(l.isUsingRelThreshold()==(mode!=0)&&l.getAbsThreshold()==T,"thresholds are reported"); cv::Mat D,K,Kc,Kr; l.compute2(I.m,D); CHECK(D.rows==H&&D.cols==W&&D.type()==CV_16UC(CN),"dense map has the image size");
    std::vector<cv::KeyPoint> kp; for(int y=0;y<H;++y) for(int x=0;x<W;++x) kp.emplace_back((float)x,(float)y,5.f); std::vector<cv::KeyPoint> kq=kp; l.compute2(I.m,kp,K); CHECK((int)kp.size()==(W-4)*(H-4),"keypoints too close to the border are dropped"); l.compute(I.m,kq,Kc); CHECK(kq.size()==kp.size()&&Kc.rows==(int)kq.size()&&Kc.cols==1,"one descriptor row per keypoint"); LBSP::reshapeDesc(I.m.size(),kq,Kc,Kr);
    for(int y=2;y<H-2;++y) for(int x=2;x<W-2;++x) for(int c=0;c<CN;++c){ int r=(ref?Rf.d:I.d)[(y*W+x)*CN+c]; int t=mode?(int)cv::saturate_cast<uchar>(r*f+T):(T>255?255:(int)T); uint16_t e=oracle(I.d,W,CN,x,y,c,r,t); CHECK(D.ptr<ushort>(y,x)[c]==e,"dense descriptor"); CHECK(K.ptr<ushort>(y,x)[c]==e,"keypoint map equals dense map"); CHECK(Kr.ptr<ushort>(y,x)[c]==e,"reshaped keypoint descriptors equal dense map"); }
    for(int y=0;y<H;++y) for(int x=0;x<W;++x) if(y<2||x<2||y>=H-2||x>=W-2) for(int c=0;c<CN;++c) CHECK(Kr.ptr<ushort>(y,x)[c]==0,"reshaped map is null where there is no keypoint"); }
HARNESS(h_dense1_abs){ dense<1,6,6>(0,lv_choice(0,1,"useref")); lv_cover("end"); }
HARNESS(h_dense3_abs){ dense<3,6,5>(0,lv_choice(0,1,"useref")); lv_cover("end"); }
HARNESS(h_dense1_rel){ dense<1,5,5>(1,lv_choice(0,1,"useref")); lv_cover("end"); }
HARNESS(h_dense3_rel){ dense<3,5,5>(1,lv_choice(0,1,"useref"),true); lv_cover("end"); }
// gradient: magnitude is the largest per-channel popcount; x/y are differences of popcounts of that channel
HARNESS(h_grad){ alignas(16) uint8_t v[48]; lv_fill(v,48,"v"); uint8_t r[3]; lv_fill(r,3,"r"); char gx=0,gy=0; uchar mg=0; LBSP::computeDescriptor_gradient<3>(v,r,gx,gy,mg); int best=-1,bd=0; static const int ord[3]={2,0,1}; for(int k=0;k<3;++k){ int c=ord[k]; unsigned d=0; int n1=0; for(int n=0;n<16;++n){ int b=absd(v[c*16+n],r[c])>((r[c]>>2)+20)/2; d|=(unsigned)b<<n; n1+=b; } if(n1>best){ best=n1; bd=(int)d; } } int ex=0,ey=0; for(int n=0;n<16;++n){ int b=(bd>>n)&1; ex-=DX[n]<0?-b:DX[n]>0?b:0; ey+=DY[n]>0?b:DY[n]<0?-b:0; } CHECK(mg==best,"gradient magnitude"); CHECK(gx==ex&&gy==ey,"gradient direction"); lv_cover("end"); }
// hamming distances between descriptor maps, difference images
HARNESS(h_dist){ int cn=lv_choice(1,4,"cn"); ushort a[8],b[8]; lv_fill(a,8,"a"); lv_fill(b,8,"b"); cv::Mat A(1,2,CV_16UC(cn),a),B(1,2,CV_16UC(cn),b); cv::Mat_<uchar> D; LBSP::calcDistances(A,B,D); CHECK(D.rows==1&&D.cols==2,"distance map size"); for(int i=0;i<2;++i){ int e=0; for(int c=0;c<cn;++c) e+=__builtin_popcount((unsigned)(a[i*cn+c]^b[i*cn+c])); CHECK(D(0,i)==e,"descriptor distance is the number of differing bits"); } lv_cover("end"); }
HARNESS(h_diffimg){ int cn=lv_choice(0,1,"cn")?3:1; bool mg=lv_choice(0,1,"mg"); ushort a[6],b[6]; lv_fill(a,6,"a"); lv_fill(b,6,"b"); cv::Mat A(1,2,CV_16UC(cn),a),B(1,2,CV_16UC(cn),b),O; LBSP::calcDescImgDiff(A,B,O,mg); bool m=mg&&cn==3; CHECK(O.type()==CV_8UC(m?1:cn)&&O.cols==2,"difference image format"); for(int i=0;i<2;++i){ int s=0; for(int c=0;c<cn;++c){ int h=__builtin_popcount((unsigned)(a[i*cn+c]^b[i*cn+c])); int v=h*255/16; if(!m) CHECK(O.ptr<uchar>(0,i)[c]==v,"difference image value"); s+=h*255/48; } if(m) CHECK(O.at<uchar>(0,i)==s,"merged difference image value"); } lv_cover("end"); }
HARNESS(h_roi){ int w=lv_choice(4,6,"w"),h=lv_choice(4,6,"h"); uint8_t d[36]; lv_fill(d,36,"roi"); cv::Mat R(h,w,CV_8UC1,d); cv::Mat O=R; LBSP::validateROI(O); CHECK(O.rows==h&&O.cols==w&&O.type()==CV_8UC1,"ROI format kept"); for(int y=0;y<h;++y) for(int x=0;x<w;++x) CHECK(O.at<uchar>(y,x)==((x<2||y<2||x>=w-2||y>=h-2)?0:d[y*w+x]),"ROI cleared exactly in the border"); lv_cover("end"); }
// bad inputs are rejected
HARNESS(h_reject){ LBSP l((size_t)30); uint8_t d[200]; lv_fill(d,200,"d"); cv::Mat O; int k=lv_choice(0,4,"k"); bool thr=false; try { if(k==0) l.compute2(cv::Mat(),O); else if(k==1) l.compute2(cv::Mat(5,5,CV_8UC4,d),O); else if(k==2) l.compute2(cv::Mat(5,5,CV_16UC1,d),O); else if(k==3) l.compute2(cv::Mat(cv::Mat(7,9,CV_8UC1,d),cv::Rect(1,1,6,5)),O); else { l.setReference(cv::Mat(6,5,CV_8UC1,d)); l.compute2(cv::Mat(5,6,CV_8UC1,d),O); } } catch(const lv::Exception&){ thr=true; } CHECK(thr,"images of the wrong kind are rejected"); lv_cover("end"); }
// larger images: fixed contents, one free pixel
template<int CN> static void densebig(int mode){ const int W=37,H=7; std::vector<uint8_t> d(W*H*CN),q(W*H*CN); for(int i=0;i<W*H*CN;++i){ unsigned h=(unsigned)i*2654435761u; h^=h>>15; h*=2246822519u; h^=h>>13; d[i]=(uint8_t)h; q[i]=(uint8_t)(h>>8); } static const int P[5]={2*W+2,2*W+20,3*W+16,4*W+34,W*H-1}; int p=P[lv_choice(0,4,"p")]; lv_fill(&d[p*CN],CN,"x"); bool ref=lv_choice(0,1,"ref")!=0; if(ref) lv_fill(&q[p*CN],CN,"r"); LBSP a((size_t)40),b(0.25f,(size_t)9); LBSP& l=mode?b:a; cv::Mat I(H,W,CV_8UC(CN),d.data()),R(H,W,CV_8UC(CN),q.data()),D; if(ref) l.setReference(R); l.compute2(I,D); CHECK(D.rows==H&&D.cols==W&&D.type()==CV_16UC(CN),"dense map has the image size (large image)"); for(int y=2;y<H-2;++y) for(int x=2;x<W-2;++x) for(int c=0;c<CN;++c){ int r=(ref?q:d)[(y*W+x)*CN+c]; int t=mode?(int)cv::saturate_cast<uchar>(r*0.25f+9):40; CHECK(D.ptr<ushort>(y,x)[c]==oracle(d.data(),W,CN,x,y,c,r,t),"dense descriptor (large image)"); } lv_cover("end"); }
HARNESS(h_dense1_big){ densebig<1>(lv_choice(0,1,"mode")); }
HARNESS(h_dense3_big){ densebig<3>(0); }
HARNESS(h_dist_big){ const int W=21,H=3; int CN=lv_choice(0,1,"c")?3:1; std::vector<uint16_t> a(W*H*CN),b(W*H*CN); for(int i=0;i<W*H*CN;++i){ unsigned h=(unsigned)i*2654435761u; h^=h>>15; h*=2246822519u; a[i]=(uint16_t)h; b[i]=(uint16_t)(h>>16); } static const int P[2]={21,62}; int p=P[lv_choice(0,1,"p")]; lv_fill(&a[p*CN],CN,"x"); cv::Mat A(H,W,CV_16UC(CN),a.data()),B(H,W,CV_16UC(CN),b.data()),O; bool m=CN==3&&lv_choice(0,1,"mg")!=0; LBSP::calcDescImgDiff(A,B,O,m); bool ok=O.rows==H&&O.cols==W&&O.type()==CV_8UC(m?1:CN); CHECK(ok,"difference image format (large image)"); for(int i=0;i<W*H;++i){ int t=0; for(int c=0;c<CN;++c){ int h=__builtin_popcount((unsigned)(a[i*CN+c]^b[i*CN+c])); t+=h*255/48; if(!m) CHECK(O.data[i*CN+c]==h*255/16,"difference image value (large image)"); } if(m) CHECK(O.data[i]==t,"merged difference image value (large image)"); } lv_cover("end"); }
