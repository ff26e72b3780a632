// C15..C18: video background subtraction.
#include "lvh.h"
#include "litiv/video/BackgroundSubtractorLOBSTER.hpp"
#include "litiv/video/BackgroundSubtractorSuBSENSE.hpp"
#include "litiv/video/BackgroundSubtractorViBe.hpp"
#include "litiv/utils/math.hpp"
#include <vector>
static inline int absd(int a,int b){ return a>b?a-b:b-a; }
// ---------------------------------------------------------------- ViBe
template<typename B> struct VB : B { using B::B; std::vector<cv::Mat>& bg(){ return this->m_voBGImg; } };
typedef VB<BackgroundSubtractorViBe_1ch> V1; typedef VB<BackgroundSubtractorViBe_3ch> V3;
static const double LRS[4]={0.5,1.0,2.0,16.0};
HARNESS(h_vb_init1){ uint8_t d[6]; lv_fill(d,6,"im"); V1 v(20,1,1); v.initialize(cv::Mat(1,6,CV_8UC1,d)); cv::Mat o; v.getBackgroundImage(o); CHECK(o.type()==CV_8UC1&&o.rows==1&&o.cols==6,"background image format");
    for(int x=0;x<6;++x){ bool in=false; for(int s=-3;s<=3;++s) if(x+s>=0&&x+s<6) in|=o.at<uchar>(0,x)==d[x+s]; CHECK(in,"every initial sample is a pixel of the 7x7 neighbourhood"); } lv_cover("end"); }
static const uint8_t PAL[6][3]={{100,150,200},{136,198,200},{135,198,200},{100,150,141},{100,150,140},{40,150,200}}; // distances to PAL[0]: 0, 60, 59.4, 59, 60, 60
template<typename V,int CN> static void vb_px(int N){ int req=lv_choice(0,N,"req"); size_t T=(size_t)(CN==1?lv_range(0,90,"T"):20); double lr=LRS[lv_choice(0,3,"lr")]; V v(T,(size_t)N,(size_t)req); uint8_t z[3]={0,0,0}; v.initialize(cv::Mat(1,1,CV_8UC(CN),z)); uint8_t m[3*CN],in[CN];
    if(CN==1){ lv_fill(m,N*CN,"model"); lv_fill(in,CN,"in"); } else { for(int c=0;c<CN;++c) in[c]=PAL[0][c]; for(int s=0;s<N;++s){ int k=lv_choice(0,5,"k"); for(int c=0;c<CN;++c) m[s*CN+c]=PAL[k][c]; } }
    for(int s=0;s<N;++s) for(int c=0;c<CN;++c) v.bg()[s].data[c]=m[s*CN+c]; cv::Mat mask; v.apply(cv::Mat(1,1,CV_8UC(CN),in),mask,lr); CHECK(mask.type()==CV_8UC1&&mask.rows==1&&mask.cols==1,"mask format"); int good=0;
    for(int s=0;s<N;++s){ if(CN==1) good+=(size_t)absd(in[0],m[s])<T; else { int q=0; for(int c=0;c<CN;++c) q+=absd(in[c],m[s*CN+c])*absd(in[c],m[s*CN+c]); good+=q<3600; } }
    bool fg=good<req; CHECK(mask.data[0]==(fg?255:0),"foreground iff fewer than the required number of samples match"); int ch=0; bool any=false; for(int s=0;s<N;++s){ bool same=true,isin=true; for(int c=0;c<CN;++c){ same&=v.bg()[s].data[c]==m[s*CN+c]; isin&=v.bg()[s].data[c]==in[c]; } CHECK(same||(isin&&!fg),"a sample is only ever replaced by a background observation"); ch+=!same; any|=isin; } CHECK(ch<=2,"at most two samples replaced per pixel"); if(!fg&&lr<=1.0) CHECK(any,"a learning rate of 1 always absorbs a background observation"); }
HARNESS(h_vb_px1){ vb_px<V1,1>(3); lv_cover("end"); }
HARNESS(h_vb_px3){ vb_px<V3,3>(2); lv_cover("end"); }
// several pixels: no raster order is assumed; a pixel's model only ever receives background observations of itself or of one of its 8 neighbours
template<int W,int H> static void vb_grid(){ const int N=W*H; V1 v(20,1,1); uint8_t z[N]; for(auto& q:z) q=0; v.initialize(cv::Mat(H,W,CV_8UC1,z)); uint8_t m[N],in[(W+2)*(H+1)]; lv_fill(m,N,"model"); lv_fill(in,(W+2)*(H+1),"in"); memcpy(v.bg()[0].data,m,N); cv::Mat big(H+1,W+2,CV_8UC1,in); cv::Mat im=lv_choice(0,1,"view")?cv::Mat(big,cv::Rect(1,1,W,H)):cv::Mat(big,cv::Rect(0,0,W,H)).clone(); cv::Mat mask; v.apply(im,mask,2.0);
    uint8_t I[N],M[N]; for(int i=0;i<N;++i){ I[i]=im.at<uchar>(i/W,i%W); M[i]=mask.at<uchar>(i/W,i%W); CHECK(M[i]==0||M[i]==255,"binary mask"); }
    for(int i=0;i<N;++i){ int x=i%W,y=i/W; uint8_t now=v.bg()[0].data[i]; bool okm=now==m[i]; bool canfg=absd(I[i],m[i])>=20,canbg=absd(I[i],m[i])<20; for(int j=0;j<N;++j) if(absd(j%W,x)<=1&&absd(j/W,y)<=1&&M[j]==0){ okm|=now==I[j]; if(j!=i){ canfg|=absd(I[i],I[j])>=20; canbg|=absd(I[i],I[j])<20; } } CHECK(okm,"models only receive background observations of the pixel or of a neighbour"); CHECK(M[i]?canfg:canbg,"classification follows the model"); } }
HARNESS(h_vb_grid13){ vb_grid<3,1>(); lv_cover("end"); }
HARNESS(h_vb_grid22){ vb_grid<2,2>(); lv_cover("end"); }
// the neighbour update reaches every one of the 8 neighbours and nothing else; all other models keep their value
HARNESS(h_vb_spread){ const int W=5,H=4; V1 v(20,1,1); uint8_t z[20]; for(int i=0;i<20;++i) z[i]=200; v.initialize(cv::Mat(H,W,CV_8UC1,z)); uint8_t in[20]; for(int i=0;i<20;++i) in[i]=10; int px=lv_choice(0,1,"x")?3:1,py=lv_choice(1,2,"y"); bool nb=false; uint8_t c=(uint8_t)lv_range(185,215,"c"); in[py*5+px]=c; cv::Mat mask; v.apply(cv::Mat(H,W,CV_8UC1,in),mask,2.0); for(int i=0;i<20;++i){ int x=i%5,y=i/5; uint8_t now=v.bg()[0].data[i]; if(i==py*5+px) CHECK(mask.data[i]==0&&(now==200||now==c),"the background pixel"); else { CHECK(mask.data[i]==255||now==c,"other pixels are foreground"); CHECK(now==200||(now==c&&absd(x,px)<=1&&absd(y,py)<=1),"only direct neighbours are updated"); nb|=now==c&&c!=200; } } if(nb) lv_cover("neighbour"); if(v.bg()[0].data[py*5+px]==c&&c!=200) lv_cover("self"); lv_cover("end"); }
HARNESS(h_vb_bgimg){ uint8_t z[2]={0,0}; V1 v(20,4,1); v.initialize(cv::Mat(1,2,CV_8UC1,z)); static const uint8_t VS[4]={0,8,100,252}; int sum[2]={0,0}; for(int s=0;s<4;++s) for(int i=0;i<2;++i){ uint8_t q=i?(uint8_t)(s*60+4):VS[lv_choice(0,3,"q")]; v.bg()[s].data[i]=q; sum[i]+=q; } cv::Mat o; v.getBackgroundImage(o); for(int i=0;i<2;++i) CHECK(o.data[i]==sum[i]/4,"background image is the mean of the samples"); lv_cover("end"); }
HARNESS(h_vb_gray3){ uint8_t g[2],h[2]; lv_fill(g,2,"g"); lv_fill(h,2,"h"); V3 v(20,1,1); bool init3=lv_choice(0,1,"init3"); uint8_t g3[6]; for(int i=0;i<6;++i) g3[i]=g[i/3]; v.initialize(init3?cv::Mat(1,2,CV_8UC3,g3):cv::Mat(1,2,CV_8UC1,g)); cv::Mat b; v.getBackgroundImage(b); CHECK(b.type()==CV_8UC3,"three-channel model"); for(int i=0;i<2;++i) for(int c=0;c<3;++c) CHECK(b.data[i*3+c]==g[0]||b.data[i*3+c]==g[1],"gray initialization is replicated over the channels"); lv_cover("end"); }
HARNESS(h_vb_reject){ lv_rand_fix(257); int k=lv_choice(0,12,"k"); uint8_t d[64]; for(int i=0;i<64;++i) d[i]=(uint8_t)(i*3); V1 v(20,2,1); V3 w(20,2,1); cv::Mat o; bool thr=false,ok=k>=11; if(k>=3){ v.initialize(cv::Mat(2,2,CV_8UC1,d)); w.initialize(cv::Mat(2,2,CV_8UC3,d)); }
    try { switch(k){ case 0: v.apply(cv::Mat(2,2,CV_8UC1,d),o,16); break; case 1: w.apply(cv::Mat(2,2,CV_8UC3,d),o,16); break; case 2: v.getBackgroundImage(o); break; case 3: v.apply(cv::Mat(2,2,CV_8UC1,d),o,0); break; case 4: v.apply(cv::Mat(2,2,CV_8UC1,d),o,-1); break; case 5: v.apply(cv::Mat(2,3,CV_8UC1,d),o,16); break; case 6: v.apply(cv::Mat(2,2,CV_8UC3,d),o,16); break; case 7: w.apply(cv::Mat(1,2,CV_8UC3,d),o,16); break; case 8: w.apply(cv::Mat(2,2,CV_16UC1,d),o,16); break; case 9: { V1 x(20,2,3); break; } case 10: { V3 x(20,0,0); break; } case 11: w.apply(cv::Mat(2,2,CV_8UC1,d),o,16); break; default: v.apply(cv::Mat(2,2,CV_8UC1,d),o,16); } } catch(const lv::Exception&){ thr=true; } CHECK(thr==!ok,"invalid use is rejected, valid use is not"); lv_cover("end"); }

// ---------------------------------------------------------------- LBSP-based subtractors
static const int DX[16]={-2,2,0,0,-2,2,2,-2,0,-1,0,1,-1,1,1,-1},DY[16]={0,0,-2,2,2,-2,2,-2,1,0,-1,0,-1,1,-1,1};
static uint16_t lbsp(const uint8_t* im,int w,int cn,int x,int y,int c,int ref,int thr){ unsigned d=0; for(int n=0;n<16;++n) d|=(unsigned)(absd(im[((y+DY[n])*w+x+DX[n])*cn+c],ref)>thr)<<n; return (uint16_t)d; }
static int pc(unsigned v){ return __builtin_popcount(v); }
// 5x5 images have a single analysed pixel: its model must be the initialization image, its class must follow the model, and only background observations enter the model
template<int CN> static void lob_px(double lr,size_t D,size_t C){ uint8_t a[25*CN],b[25*CN]; lv_fill(a,25*CN,"init"); lv_fill(b,25*CN,"frame"); BackgroundSubtractorLOBSTER v(D,C,1,1,0,0.5f); v.initialize(cv::Mat(5,5,CV_8UC(CN),a),cv::Mat()); cv::Mat g,gd; v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); uint16_t d0[CN]; uint8_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(CN==1?t*0.5f/3:t*0.5f);
    for(int c=0;c<CN;++c){ int r=a[12*CN+c]; d0[c]=lbsp(a,5,CN,2,2,c,r,thr[r]); CHECK(g.ptr<uchar>(2,2)[c]==r,"initial colour sample"); CHECK(gd.ptr<ushort>(2,2)[c]==d0[c],"initial descriptor sample"); }
    bool bg=true; int tc=0,td=0; for(int c=0;c<CN;++c){ int r=a[12*CN+c],q=b[12*CN+c]; int cd=absd(r,q),dd=pc((unsigned)(lbsp(b,5,CN,2,2,c,r,thr[r])^d0[c])); if(CN==1) bg&=cd<=(int)C/2&&dd<=(int)D; else bg&=cd<=(int)(C*3/2)&&dd<=(int)(D*3/2); tc+=cd; td+=dd; } if(CN==3) bg&=tc<=(int)C*3&&td<=(int)D*3;
    cv::Mat mask; v.apply(cv::Mat(5,5,CV_8UC(CN),b),mask,lr); CHECK(mask.type()==CV_8UC1&&mask.rows==5&&mask.cols==5,"mask format"); v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); bool old=true,now=true; for(int c=0;c<CN;++c){ int q=b[12*CN+c]; uint16_t d1=lbsp(b,5,CN,2,2,c,q,thr[q]); old&=g.ptr<uchar>(2,2)[c]==a[12*CN+c]&&gd.ptr<ushort>(2,2)[c]==d0[c]; now&=g.ptr<uchar>(2,2)[c]==q&&gd.ptr<ushort>(2,2)[c]==d1; }
    if(!bg) CHECK(old,"a foreground observation never enters the model"); else if(lr<=1.0) CHECK(now,"a background observation replaces the sample"); else CHECK(old||now,"samples are replaced as a whole"); }
HARNESS(h_lo_px1){ lob_px<1>(1.0,4,30); lv_cover("end"); }
HARNESS(h_lo_px1b){ lob_px<1>(2.0,2,60); lv_cover("end"); }
// three channels: concrete initialization image, free frame
HARNESS(h_lo_px3){ lv_rand_fix(-1); const int CN=3; size_t D=4,C=30; uint8_t a[75],b[75]; for(int i=0;i<75;++i) a[i]=(uint8_t)(90+(i*37)%50); lv_fill(b,75,"frame"); double lr=lv_choice(0,1,"lr")?1.0:2.0; BackgroundSubtractorLOBSTER v(D,C,1,1,3,0.25f); v.initialize(cv::Mat(5,5,CV_8UC3,a),cv::Mat()); uint16_t d0[3]; cv::Mat g,gd; v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); int tc=0,td=0; bool bg=true; for(int c=0;c<3;++c){ int r=a[36+c],t=cv::saturate_cast<uchar>(r*0.25f+3),q=b[36+c]; d0[c]=lbsp(a,5,3,2,2,c,r,t); CHECK(g.ptr<uchar>(2,2)[c]==r&&gd.ptr<ushort>(2,2)[c]==d0[c],"initial sample"); int cd=absd(r,q),dd=pc((unsigned)(lbsp(b,5,3,2,2,c,r,t)^d0[c])); bg&=cd<=45&&dd<=6; tc+=cd; td+=dd; } bg&=tc<=90&&td<=12;
    cv::Mat mask; v.apply(cv::Mat(5,5,CV_8UC3,b),mask,lr); v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); bool old=true,now=true; for(int c=0;c<3;++c){ int q=b[36+c]; old&=g.ptr<uchar>(2,2)[c]==a[36+c]&&gd.ptr<ushort>(2,2)[c]==d0[c]; now&=g.ptr<uchar>(2,2)[c]==q; } if(!bg) CHECK(old,"a foreground observation never enters the model"); else if(lr<=1.0) CHECK(now,"a background observation replaces the sample"); else CHECK(old||now,"samples are replaced as a whole"); lv_cover("end"); }
// 11x11 uniform frames: the segmentation mask survives the 9x9 median filter
template<int CN> static void lob_mask(){ lv_rand_fix(257); const int N=11; uint8_t a[N*N*CN],b[N*N*CN]; int p=lv_choice(0,3,"a")*60+20; uint8_t q=lv_any<uint8_t>("b"); for(int i=0;i<N*N*CN;++i){ a[i]=(uint8_t)p; b[i]=q; } BackgroundSubtractorLOBSTER v(4,30,2,1,0,0.333f); v.initialize(cv::Mat(N,N,CV_8UC(CN),a),cv::Mat()); cv::Mat mask; v.apply(cv::Mat(N,N,CV_8UC(CN),b),mask,std::numeric_limits<double>::infinity()); int thr=CN==1?cv::saturate_cast<uchar>(p*0.333f/3):cv::saturate_cast<uchar>(p*0.333f); int d=absd(p,q); bool bg=(CN==1?d<=15:d*3<=90)&&d<=thr; CHECK(mask.at<uchar>(5,5)==(bg?0:255),"uniform frame: foreground iff too different from the model"); CHECK(mask.at<uchar>(0,0)==0,"isolated border pixel"); }
HARNESS(h_lo_mask1){ lob_mask<1>(); lv_cover("end"); }
HARNESS(h_lo_mask3){ lob_mask<3>(); lv_cover("end"); }

// SuBSENSE, first frame (adaptive factors at their initial values)
template<int CN> static void sub_px(double lr,size_t D,size_t C){ uint8_t a[25*CN],b[25*CN]; lv_fill(a,25*CN,"init"); lv_fill(b,25*CN,"frame"); BackgroundSubtractorSuBSENSE v(D,C,1,1,100,0.5f); v.initialize(cv::Mat(5,5,CV_8UC(CN),a),cv::Mat()); cv::Mat g,gd; v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); uint16_t d0[CN]; uint8_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(CN==1?t*0.5f/3:t*0.5f);
    for(int c=0;c<CN;++c){ int r=a[12*CN+c]; d0[c]=lbsp(a,5,CN,2,2,c,r,thr[r]); CHECK(g.ptr<uchar>(2,2)[c]==r,"initial colour sample"); CHECK(gd.ptr<ushort>(2,2)[c]==d0[c],"initial descriptor sample"); }
    int ct=(int)(C-C/5)/(CN==1?2:1),dt=2+(int)D; bool bg=true; int ts=0,td=0; for(int c=0;c<CN;++c){ int r=a[12*CN+c],q=b[12*CN+c]; int cd=absd(r,q),dd=(pc((unsigned)(lbsp(b,5,CN,2,2,c,r,thr[r])^d0[c]))+pc((unsigned)(lbsp(b,5,CN,2,2,c,q,thr[q])^d0[c])))/2; int sd=(dd/(CN==1?4:2))*15+cd; if(sd>255) sd=255; if(CN==1) bg&=cd<=ct&&dd<=dt&&sd<=ct; else bg&=cd<=ct*3/2&&sd<=ct*3/2; ts+=sd; td+=dd; } if(CN==3) bg&=ts<=ct*3&&td<=dt*3;
    cv::Mat mask; v.apply(cv::Mat(5,5,CV_8UC(CN),b),mask,lr); CHECK(mask.type()==CV_8UC1&&mask.rows==5&&mask.cols==5,"mask format"); v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); bool old=true,now=true; for(int c=0;c<CN;++c){ int q=b[12*CN+c]; uint16_t d1=lbsp(b,5,CN,2,2,c,q,thr[q]); old&=g.ptr<uchar>(2,2)[c]==a[12*CN+c]&&gd.ptr<ushort>(2,2)[c]==d0[c]; now&=g.ptr<uchar>(2,2)[c]==q&&gd.ptr<ushort>(2,2)[c]==d1; }
    if(!bg) CHECK(old,"a foreground observation never enters the model"); else if(lr>0&&lr<=1.0) CHECK(now,"a background observation replaces the sample"); else CHECK(old||now,"samples are replaced as a whole"); }
HARNESS(h_su_px1){ sub_px<1>(1.0,3,30); lv_cover("end"); }

// ---------------------------------------------------------------- shared model/ROI machinery, observed through subclasses
template<typename B> struct XS : B { using B::B; std::vector<cv::Mat>& col(){ return this->m_voBGColorSamples; } std::vector<cv::Mat>& desc(){ return this->m_voBGDescSamples; } cv::Mat& lastMask(){ return this->m_oLastFGMask; } const std::vector<size_t>& lut(){ return this->m_vnPxIdxLUT; } size_t nlut(){ return this->m_nTotRelevantPxCount; } int px(size_t i){ return this->m_voPxInfoLUT[i].nImgCoord_X; } int py(size_t i){ return this->m_voPxInfoLUT[i].nImgCoord_Y; } size_t pm(size_t i){ return this->m_voPxInfoLUT[i].nModelIdx; } };
typedef XS<BackgroundSubtractorLOBSTER> XL; typedef XS<BackgroundSubtractorSuBSENSE> XU;
static XL* mkL(size_t n,size_t r){ return new XL(4,30,n,r,0,0.333f); } static XU* mkU(size_t n,size_t r){ return new XU(3,30,n,r,100,0.333f); }
static void fillpat(uint8_t* d,int n,int k){ for(int i=0;i<n;++i) d[i]=(uint8_t)(40+(i*(17+2*k)+k*11)%170); }
// ROI handling: the analysed region is the given ROI grown by the patch radius, cut to where a patch fits in the image
HARNESS(h_roi_valid){ int w=lv_choice(4,7,"w"),h=lv_choice(5,6,"h"); uint8_t d[42]; lv_fill(d,42,"roi"); cv::Mat R(h,w,CV_8UC1,d); cv::Mat O=R; XL* v=mkL(1,1); bool thr=false; try { v->validateROI(O); } catch(const std::exception&){ thr=true; } CHECK(!thr&&O.rows==h&&O.cols==w&&O.type()==CV_8UC1,"ROI format kept"); for(int y=0;y<h&&!thr;++y) for(int x=0;x<w;++x) CHECK(O.at<uchar>(y,x)==((x<2||y<2||x>=w-2||y>=h-2)?0:d[y*w+x]),"ROI cleared exactly in the border"); for(int i=0;i<w*h;++i) CHECK(R.data[i]==d[i],"the caller's pixels are left alone"); delete v; lv_cover("end"); }
template<typename X> static void roi_init(X* v){ lv_rand_fix(257); const int W=8,H=7; uint8_t im[W*H],roi[W*H]; fillpat(im,W*H,1); int k=lv_choice(0,W*H,"k"),k2=lv_choice(0,2,"k2"); for(int i=0;i<W*H;++i) roi[i]=(k==W*H||i==k||(k2==1&&i==27)||(k2==2&&i%W==7))?255:0; uint8_t e[W*H]; int cnt=0; for(int i=0;i<W*H;++i){ int x=i%W,y=i/W; bool nb=false; for(int j=0;j<W*H;++j) nb|=roi[j]&&absd(j%W,x)<=2&&absd(j/W,y)<=2; bool inner=x>=2&&y>=2&&x<W-2&&y<H-2; e[i]=!inner?0:roi[i]?255:nb?128:0; cnt+=e[i]!=0; }
    bool thr=false; try { v->initialize(cv::Mat(H,W,CV_8UC1,im),cv::Mat(H,W,CV_8UC1,roi)); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(cnt==0),"a ROI without any analysable pixel is rejected, any other is accepted"); if(!thr){ cv::Mat R=v->getROICopy(); size_t m=0; CHECK((int)v->nlut()==cnt,"analysed pixel count"); for(int i=0;i<W*H;++i){ CHECK((R.data[i]!=0)==(e[i]!=0)&&(R.data[i]==255)==(e[i]==255),"analysed region"); CHECK(v->px(i)==i%W&&v->py(i)==i/W,"pixel coordinates"); if(e[i]){ CHECK(v->pm(i)==m&&v->lut()[m]==(size_t)i,"pixel index tables are inverse of each other"); ++m; } else CHECK(v->pm(i)==SIZE_MAX,"pixels outside the ROI have no model"); } R.data[0]=1; CHECK(v->getROICopy().data[0]==0,"the returned ROI is a copy"); } delete v; }
HARNESS(h_roi_init_l){ roi_init(mkL(1,1)); lv_cover("end"); }
HARNESS(h_roi_init_s){ roi_init(mkU(1,1)); lv_cover("end"); }
// ROI life cycle: set before/after initialization, kept across re-initializations of the same size, dropped when the size changes
HARNESS(h_roi_set){ lv_rand_fix(257); const int W=8,H=7; uint8_t im[W*H],im2[9*9]; fillpat(im,W*H,1); fillpat(im2,81,2); uint8_t roi[W*H]; for(int i=0;i<W*H;++i) roi[i]=(i%W>=4)?255:0; XL* v=mkL(1,1); int k=lv_choice(0,4,"k"); cv::Mat R(H,W,CV_8UC1,roi); if(k==4){ v->setROI(R); v->initialize(cv::Mat(W,H,CV_8UC1,im),cv::Mat()); cv::Mat r=v->getROICopy(); CHECK(r.rows==W&&r.cols==H,"a ROI of another shape is dropped"); for(int y=0;y<W;++y) for(int x=0;x<H;++x) CHECK((r.at<uchar>(y,x)!=0)==(x>=2&&y>=2&&x<H-2&&y<W-2),"full ROI otherwise"); delete v; lv_cover("end"); return; } cv::Mat g0,g1; if(k==0){ v->setROI(R); v->initialize(cv::Mat(H,W,CV_8UC1,im),cv::Mat()); } else if(k==1){ v->initialize(cv::Mat(H,W,CV_8UC1,im),cv::Mat()); v->getBackgroundImage(g0); v->setROI(R); v->getBackgroundImage(g1); for(int i=0;i<W*H;++i) if(v->getROICopy().data[i]) CHECK(g0.data[i]==g1.data[i],"the learned background survives a change of ROI"); } else { v->setROI(R); v->initialize(cv::Mat(9,9,CV_8UC1,im2),cv::Mat()); }
    cv::Mat r=v->getROICopy(); if(k<2){ CHECK(r.rows==H&&r.cols==W,"ROI size"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ bool in=x>=2&&y>=2&&x<W-2&&y<H-2; bool must=in&&x>=4; CHECK(!must||r.at<uchar>(y,x),"pixels of the ROI are analysed"); CHECK(in||!r.at<uchar>(y,x),"image borders are not"); CHECK(x>=2||!r.at<uchar>(y,x),"far pixels are not"); if(k==0) CHECK((r.at<uchar>(y,x)!=0)==must,"the ROI set before initialization is used as is"); } } else { CHECK(r.rows==9&&r.cols==9,"a ROI of another size is dropped"); for(int y=0;y<9;++y) for(int x=0;x<9;++x) CHECK((r.at<uchar>(y,x)!=0)==(x>=2&&y>=2&&x<7&&y<7),"full ROI otherwise"); } if(k==3){ cv::Mat z(9,9,CV_8UC1,cv::Scalar(0)); bool thr=false; try { v->setROI(z); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"an empty ROI is rejected"); } delete v; lv_cover("end"); }
template<typename X> static void bs_reject(X* v){ lv_rand_fix(257); uint8_t d[400]; fillpat(d,400,3); cv::Mat o; int k=lv_choice(0,14,"k"); cv::Mat ok(5,5,CV_8UC1,d); if(k>=3&&k<=7) v->initialize(ok,cv::Mat()); bool thr=false; try { switch(k){ case 0: v->apply(ok,o,16); break; case 1: v->getBackgroundImage(o); break; case 2: v->getBackgroundDescriptorsImage(o); break; case 3: v->apply(cv::Mat(6,5,CV_8UC1,d),o,16); break; case 4: v->apply(cv::Mat(5,5,CV_8UC3,d),o,16); break; case 5: v->apply(cv::Mat(cv::Mat(6,7,CV_8UC1,d),cv::Rect(1,0,5,5)),o,16); break; case 6: v->refreshModel(0.0f); break; case 7: v->refreshModel(1.5f); break; case 8: v->initialize(cv::Mat(),cv::Mat()); break; case 9: v->initialize(cv::Mat(5,5,CV_16UC1,d),cv::Mat()); break; case 10: v->initialize(cv::Mat(cv::Mat(6,7,CV_8UC1,d),cv::Rect(1,0,5,5)),cv::Mat()); break; case 11: v->initialize(ok,cv::Mat(5,6,CV_8UC1,cv::Scalar(255))); break; case 12: v->initialize(ok,cv::Mat(5,5,CV_8UC1,cv::Scalar(7))); break; case 13: v->initialize(ok,cv::Mat(5,5,CV_8UC3,cv::Scalar::all(255))); break; default: v->initialize(cv::Mat(5,5,CV_8UC4,d),cv::Mat()); } } catch(const lv::Exception&){ thr=true; } CHECK(thr,"invalid use is rejected"); delete v; }
HARNESS(h_rej_l){ bs_reject(mkL(2,1)); lv_cover("end"); }
HARNESS(h_rej_s){ bs_reject(mkU(2,1)); lv_cover("end"); }
HARNESS(h_rej_ctor){ int k=lv_choice(0,5,"k"); bool thr=false; try { switch(k){ case 0: delete mkL(0,0); break; case 1: delete mkL(2,3); break; case 2: delete mkU(0,0); break; case 3: delete mkU(2,3); break; case 4: delete mkL(2,2); break; default: delete mkU(2,2); } } catch(const lv::Exception&){ thr=true; } CHECK(thr==(k<4),"sample counts are validated"); lv_cover("end"); }
// output masks that are views into a larger image: only the view is written
template<typename X> static void bs_view(X* v){ lv_rand_fix(257); uint8_t a[25],b[25],cv_[7*8]; fillpat(a,25,1); for(int i=0;i<25;++i) b[i]=(uint8_t)(255-a[i]); for(int i=0;i<56;++i) cv_[i]=77; v->initialize(cv::Mat(5,5,CV_8UC1,a),cv::Mat()); cv::Mat canvas(8,7,CV_8UC1,cv_); int ox=lv_choice(0,2,"ox"),oy=lv_choice(0,3,"oy"); cv::Mat out(canvas,cv::Rect(ox,oy,5,5)); v->apply(cv::Mat(5,5,CV_8UC1,b),out,16); for(int y=0;y<8;++y) for(int x=0;x<7;++x){ bool in=x>=ox&&y>=oy&&x<ox+5&&y<oy+5; CHECK(cv_[y*7+x]==(in?0:77),"only the view is written"); } delete v; }
HARNESS(h_view_l){ bs_view(mkL(1,1)); lv_cover("end"); }
HARNESS(h_view_s){ bs_view(mkU(1,1)); lv_cover("end"); }
// several samples: count of matching samples decides; every replaced sample is the current observation (colour and descriptor together)
HARNESS(h_lo_multi){ int req=lv_choice(1,2,"req"); double lr=lv_choice(0,1,"lr")?1.0:3.0; uint8_t b[25],m[2]; lv_fill(b,25,"frame"); uint16_t dd[2]; lv_fill(m,2,"model"); lv_fill(dd,2,"desc"); XL* v=mkL(2,(size_t)req); uint8_t z[25]; for(auto& q:z) q=0; lv_rand_fix(0); v->initialize(cv::Mat(5,5,CV_8UC1,z),cv::Mat()); lv_rand_fix(-1); uint8_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(t*0.333f/3); for(int s=0;s<2;++s){ v->col()[s].at<uchar>(2,2)=m[s]; v->desc()[s].at<ushort>(2,2)=dd[s]; }
    int good=0; for(int s=0;s<2;++s) good+=absd(m[s],b[12])<=15&&pc((unsigned)(lbsp(b,5,1,2,2,0,m[s],thr[m[s]])^dd[s]))<=4; bool bg=good>=req; cv::Mat o; v->apply(cv::Mat(5,5,CV_8UC1,b),o,lr); uint16_t di=lbsp(b,5,1,2,2,0,b[12],thr[b[12]]); bool okk=true; for(int s=0;s<2;++s){ bool same=v->col()[s].at<uchar>(2,2)==m[s]&&v->desc()[s].at<ushort>(2,2)==dd[s],now=v->col()[s].at<uchar>(2,2)==b[12]&&v->desc()[s].at<ushort>(2,2)==di; okk&=same||(now&&bg); } CHECK(okk,"samples are only replaced, as a whole, by background observations"); lv_cover("end"); delete v; }
// spreading: whatever enters a model is an observation (colour and descriptor) of the pixel itself or of a pixel at distance 1 (2 for SuBSENSE's wide spread), never written outside the analysed region
template<typename X> static void bs_spread(X* v,double lr){ const int W=7,H=6; uint8_t a[W*H]; fillpat(a,W*H,1); lv_rand_fix(257); v->initialize(cv::Mat(H,W,CV_8UC1,a),cv::Mat()); uint8_t m0[W*H]; uint16_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(t*0.333f/3); for(int i=0;i<W*H;++i){ m0[i]=v->col()[0].data[i]=a[i]; bool in=i%W>=2&&i/W>=2&&i%W<W-2&&i/W<H-2; ((uint16_t*)v->desc()[0].data)[i]=in?lbsp(a,W,1,i%W,i/W,0,a[i],thr[a[i]]):0; } lv_rand_fix(-1); cv::Mat o; v->apply(cv::Mat(H,W,CV_8UC1,a),o,lr); bool nb=false; for(int i=0;i<W*H;++i){ int x=i%W,y=i/W; bool in=x>=2&&y>=2&&x<W-2&&y<H-2; uint8_t c=v->col()[0].data[i]; uint16_t d=((uint16_t*)v->desc()[0].data)[i]; bool ok=c==m0[i]; for(int j=0;j<W*H&&in;++j){ int xx=j%W,yy=j/W; if(xx>=2&&yy>=2&&xx<W-2&&yy<H-2&&absd(xx,x)<=1&&absd(yy,y)<=1) ok|=c==a[j]&&d==lbsp(a,W,1,xx,yy,0,a[j],thr[a[j]]); } CHECK(ok,"models only receive observations of the pixel or of a direct neighbour"); nb|=c!=m0[i]; } if(nb) lv_cover("neighbour"); delete v; }
HARNESS(h_lo_spread){ bs_spread(mkL(1,1),2.0); lv_cover("end"); }
HARNESS(h_su_spread){ bs_spread(mkU(1,1),2.0); lv_cover("end"); }
// a learning rate of 1 absorbs every background observation, whatever the random draws
template<typename X> static void bs_absorb(X* v,size_t req){ uint8_t a[25],b[25]; fillpat(a,25,1); int sh=lv_choice(0,2,"shift"); for(int i=0;i<25;++i) b[i]=(uint8_t)(a[i]+sh*(sh==2?40:1)); uint8_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(t*0.333f/3); lv_rand_fix(257); v->initialize(cv::Mat(5,5,CV_8UC1,a),cv::Mat()); lv_rand_fix(-1); uint16_t d0=lbsp(a,5,1,2,2,0,a[12],thr[a[12]]),d1=lbsp(b,5,1,2,2,0,b[12],thr[b[12]]); int bad=lv_choice(0,2,"bad"); for(int s=0;s<2;++s){ v->col()[s].template at<uchar>(2,2)=s<bad?250:a[12]; v->desc()[s].template at<ushort>(2,2)=s<bad?0x5a5a:d0; } bool bg=sh<2&&2-bad>=(int)req; cv::Mat o; v->apply(cv::Mat(5,5,CV_8UC1,b),o,1.0); int n=0; for(int s=0;s<2;++s){ uint8_t c=v->col()[s].template at<uchar>(2,2); uint16_t d=v->desc()[s].template at<ushort>(2,2); bool now=c==b[12]&&d==d1,same=c==(s<bad?250:a[12])&&d==(s<bad?0x5a5a:d0); CHECK(same||now,"samples are replaced as a whole"); n+=now; } if(bg) CHECK(n>=1,"a learning rate of 1 always absorbs a background observation"); else if(sh) CHECK(n==0,"a foreground observation never enters the model"); delete v; }
HARNESS(h_lo_absorb){ size_t r=(size_t)lv_choice(1,2,"req"); bs_absorb(mkL(2,r),r); lv_cover("end"); }
HARNESS(h_su_absorb){ size_t r=(size_t)lv_choice(1,2,"req"); bs_absorb(mkU(2,r),r); lv_cover("end"); }
// refreshing: exactly the announced fraction of the samples, taken from non-foreground pixels of the last frame unless forced
template<typename X,int W,int H,int N,int CN> static void bs_refresh(X* v){ const int RW=W-4,RH=H-4,R=RW*RH; uint8_t a[W*H*CN]; fillpat(a,W*H*CN,1); lv_rand_fix(257); v->initialize(cv::Mat(H,W,CV_8UC(CN),a),cv::Mat()); int fm=lv_choice(0,(1<<R)-1,"fgmask"); bool force=lv_choice(0,1,"force"); static const float FR[4]={1.0f,0.34f,0.67f,0.2f}; static const int KN[4]={3,1,2,0}; int f=N==1?0:lv_choice(0,3,"f"); int kn=N==1?1:KN[f]; uint8_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(CN==1?t*0.333f/3:t*0.333f); for(int s=0;s<N;++s) for(int i=0;i<W*H*CN;++i){ v->col()[s].data[i]=1; ((uint16_t*)v->desc()[s].data)[i]=0xBEEF; } for(int b=0;b<R;++b) if((fm>>b)&1) v->lastMask().template at<uchar>(2+b/RW,2+b%RW)=255; lv_rand_fix(-1); v->refreshModel(FR[f],force);
    for(int b=0;b<R;++b){ int x=2+b%RW,y=2+b/RW; bool fg=(fm>>b)&1; int n=0; for(int s=0;s<N;++s){ const uint8_t* c=v->col()[s].template ptr<uchar>(y,x); const ushort* d=v->desc()[s].template ptr<ushort>(y,x); n+=c[0]!=1; bool ok=false,same=true; for(int q=0;q<CN;++q) same&=c[q]==1&&d[q]==0xBEEF; for(int q=0;q<R;++q) if(force||!((fm>>q)&1)){ int xx=2+q%RW,yy=2+q/RW; bool k=true; for(int e=0;e<CN;++e){ int r=a[(yy*W+xx)*CN+e]; k&=c[e]==r&&d[e]==lbsp(a,W,CN,xx,yy,e,r,thr[r]); } ok|=k; } CHECK(same||ok,"refreshed samples come from background pixels of the last frame"); } if(fg&&!force) CHECK(n==0,"foreground pixels keep their model"); else if(force||fm==0){ CHECK(n==kn,"the announced fraction of samples is refreshed"); } else CHECK(n<=kn,"at most the announced fraction is refreshed"); }
    for(int i=0;i<W*H;++i) if(!(i%W>=2&&i/W>=2&&i%W<W-2&&i/W<H-2)) CHECK(v->col()[0].data[i*CN]==1,"pixels outside the analysed region keep their model"); delete v; }
HARNESS(h_lo_refresh){ bs_refresh<XL,5,5,3,1>(mkL(3,1)); lv_cover("end"); }
HARNESS(h_lo_refresh3){ bs_refresh<XL,5,5,1,3>(mkL(1,1)); lv_cover("end"); }
HARNESS(h_lo_refresh2){ bs_refresh<XL,6,5,1,1>(mkL(1,1)); lv_cover("end"); }
HARNESS(h_su_refresh){ bs_refresh<XU,5,5,3,1>(mkU(3,1)); lv_cover("end"); }
HARNESS(h_su_refresh3){ bs_refresh<XU,5,5,3,3>(mkU(3,1)); lv_cover("end"); }
HARNESS(h_su_refresh2){ bs_refresh<XU,6,5,1,1>(mkU(1,1)); lv_cover("end"); }

// SuBSENSE, three channels: concrete initialization image, free frame
HARNESS(h_su_px3){ lv_rand_fix(-1); uint8_t a[75],b[75]; for(int i=0;i<75;++i) a[i]=(uint8_t)(90+(i*37)%50); static const int DL[5]={0,10,24,36,37}; int k=lv_choice(0,2,"shift"),fc=lv_choice(0,2,"ch"),dl=DL[lv_choice(0,4,"centre")]; uint8_t fr[25]; lv_fill(fr,25,"frame"); fr[12]=(uint8_t)(a[36+fc]+dl); for(int n=0;n<16;++n) if(n>=5) fr[(2+DY[n])*5+2+DX[n]]=a[((2+DY[n])*5+2+DX[n])*3+fc]; for(int i=0;i<75;++i) b[i]=i%3==fc?fr[i/3]:(uint8_t)(a[i]+k*14); double lr=fc?1.0:2.0; BackgroundSubtractorSuBSENSE v(3,30,1,1,100,0.25f); v.initialize(cv::Mat(5,5,CV_8UC3,a),cv::Mat()); uint16_t d0[3]; cv::Mat g,gd; v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); int ts=0,td=0; bool bg=true; for(int c=0;c<3;++c){ int r=a[36+c],t=cv::saturate_cast<uchar>(r*0.25f),q=b[36+c]; d0[c]=lbsp(a,5,3,2,2,c,r,t); CHECK(g.ptr<uchar>(2,2)[c]==r&&gd.ptr<ushort>(2,2)[c]==d0[c],"initial sample"); int tq=0; for(int z=0;z<256;++z) if(q==z) tq=cv::saturate_cast<uchar>(z*0.25f); int cd=absd(r,q),dd=(pc((unsigned)(lbsp(b,5,3,2,2,c,r,t)^d0[c]))+pc((unsigned)(lbsp(b,5,3,2,2,c,q,tq)^d0[c])))/2,sd=dd/2*15+cd; if(sd>255) sd=255; bg&=cd<=36&&sd<=36; ts+=sd; td+=dd; } bg&=ts<=72&&td<=15;
    cv::Mat mask; v.apply(cv::Mat(5,5,CV_8UC3,b),mask,lr); v.getBackgroundImage(g); v.getBackgroundDescriptorsImage(gd); bool old=true,now=true; for(int c=0;c<3;++c){ int q=b[36+c]; old&=g.ptr<uchar>(2,2)[c]==a[36+c]&&gd.ptr<ushort>(2,2)[c]==d0[c]; now&=g.ptr<uchar>(2,2)[c]==q; } if(!bg) CHECK(old,"a foreground observation never enters the model"); else if(lr<=1.0) CHECK(now,"a background observation replaces the sample"); else CHECK(old||now,"samples are replaced as a whole"); lv_cover("end"); }
template<int CN> static void sub_mask(){ lv_rand_fix(257); const int N=11; uint8_t a[N*N*CN],b[N*N*CN]; int p=lv_choice(0,3,"a")*60+20; static const int DQ[10]={0,2,3,6,7,12,13,24,25,200}; int dq=DQ[lv_choice(0,9,"b")]; uint8_t q=(uint8_t)(lv_choice(0,1,"s")&&p>=dq?p-dq:p+dq>255?255:p+dq); for(int i=0;i<N*N*CN;++i){ a[i]=(uint8_t)p; b[i]=q; } BackgroundSubtractorSuBSENSE v(3,30,2,1,100,0.333f); v.initialize(cv::Mat(N,N,CV_8UC(CN),a),cv::Mat()); cv::Mat mask; v.apply(cv::Mat(N,N,CV_8UC(CN),b),mask,std::numeric_limits<double>::infinity()); int thr=CN==1?cv::saturate_cast<uchar>(p*0.333f/3):cv::saturate_cast<uchar>(p*0.333f); int d=absd(p,q),dd=d<=thr?0:8,ct=CN==1?12:24; bool bg=CN==1?d<=ct&&dd<=5&&dd/4*15+d<=ct:d+dd/2*15<=ct&&dd<=5; CHECK(mask.at<uchar>(5,5)==(bg?0:255),"uniform frame: foreground iff too different from the model"); CHECK(mask.at<uchar>(0,0)==0,"isolated border pixel"); }
HARNESS(h_su_mask1){ sub_mask<1>(); lv_cover("end"); }
HARNESS(h_su_mask3){ sub_mask<3>(); lv_cover("end"); }
// adaptive factors stay in their documented ranges whatever their current values
struct XF : XU { using XU::XU; cv::Mat &T(){ return this->m_oUpdateRateFrame; } cv::Mat &R(){ return this->m_oDistThresholdFrame; } cv::Mat &V(){ return this->m_oVariationModulatorFrame; } cv::Mat& B(){ return this->m_oBlinksFrame; } cv::Mat& D(int k){ return k==0?this->m_oMeanMinDistFrame_LT:k==1?this->m_oMeanMinDistFrame_ST:k==2?this->m_oMeanLastDistFrame:k==3?this->m_oMeanRawSegmResFrame_LT:this->m_oMeanRawSegmResFrame_ST; } };
template<int CN> static void sub_range(){ lv_rand_fix(257); uint8_t a[25*CN],b[25*CN]; fillpat(a,25*CN,1); bool diff=lv_choice(0,1,"diff"); for(int i=0;i<25*CN;++i) b[i]=diff?(uint8_t)(255-a[i]/2):a[i]; XF* v=new XF(3,30,1,1,100,0.333f); v->initialize(cv::Mat(5,5,CV_8UC(CN),a),cv::Mat()); cv::Mat o; v->apply(cv::Mat(5,5,CV_8UC(CN),a),o,1e9); static const float RS[2]={1.0005f,4.2f}; float T=lv_any<float>("T"),V=lv_any<float>("V"); lv_assume(T>=4.0f&&T<=512.0f&&V>=0.1f&&V<=64.0f); float R=RS[lv_choice(0,1,"R")]; v->T().at<float>(2,2)=T; v->V().at<float>(2,2)=V; v->R().at<float>(2,2)=R; v->lastMask().at<uchar>(2,2)=lv_choice(0,1,"fg")?255:0; v->B().at<uchar>(2,2)=lv_choice(0,1,"blink")?255:0; static const float MD[2]={0.0f,1.0f}; float md=MD[lv_choice(0,1,"mean")]; for(int k=0;k<5;++k) v->D(k).at<float>(2,2)=md; v->apply(cv::Mat(5,5,CV_8UC(CN),b),o,1e9); float t=v->T().at<float>(2,2),w=v->V().at<float>(2,2),r=v->R().at<float>(2,2); CHECK(t>=4.0f&&t<=512.0f,"learning rate stays between its caps"); CHECK(w>=0.1f&&w<=V+1.0f,"variation factor stays positive and grows by steps"); CHECK(r>=1.0f&&r<=R+0.01f*V+0.02f,"distance factor stays at or above 1"); for(int k=0;k<5;++k) CHECK(v->D(k).at<float>(2,2)>=0.0f&&v->D(k).at<float>(2,2)<=1.0f,"moving averages stay normalized"); delete v; }
HARNESS(h_su_range1){ sub_range<1>(); lv_cover("end"); }
HARNESS(h_su_range3){ sub_range<3>(); lv_cover("end"); }
// ---------------------------------------------------------------- default-sized models on larger frames, no update (no draw is a multiple of the learning rate)
template<typename V,int CN> static void vb_big(){ lv_rand_fix(1); const int W=19,H=6,NS=20; V v(20,NS,2); std::vector<uint8_t> z(W*H*CN,0),in(W*H*CN); v.initialize(cv::Mat(H,W,CV_8UC(CN),z.data())); int s1=lv_choice(0,2,"s1"); s1=s1==0?0:s1==1?9:18; int s2=s1+lv_choice(0,1,"gap")*(18-s1)/2+1; for(int s=0;s<NS;++s) for(int i=0;i<W*H*CN;++i) v.bg()[s].data[i]=(uint8_t)((s==s1||s==s2)&&(i/CN)%3?100+(s==s2?4:0):240); for(int i=0;i<W*H*CN;++i) in[i]=(uint8_t)((i/CN)%5?100:60); static const int P[4]={0,18,50,113}; int p=P[CN==1?lv_choice(0,3,"p"):(s1+s2)%4]; int dc=CN==3?lv_choice(0,7,"d"):0; static const int D3[8][3]={{0,0,0},{39,39,20},{34,34,34},{35,35,35},{60,0,0},{0,59,0},{0,-42,43},{-36,-36,-36}}; for(int c=0;c<CN;++c) in[p*CN+c]=CN==1?lv_any<uint8_t>("x"):(uint8_t)(100+D3[dc][c]); std::vector<std::vector<uint8_t>> keep; for(int s=0;s<NS;++s) keep.emplace_back(v.bg()[s].data,v.bg()[s].data+W*H*CN); cv::Mat mask; v.apply(cv::Mat(H,W,CV_8UC(CN),in.data()),mask,1e6); CHECK(mask.type()==CV_8UC1&&mask.rows==H&&mask.cols==W,"mask format (large frame)"); for(int i=0;i<W*H;++i){ int good=0; for(int s=0;s<NS;++s){ int q=0,d1=0; for(int c=0;c<CN;++c){ int d=absd(in[i*CN+c],keep[s][i*CN+c]); q+=d*d; d1=d; } good+=CN==1?d1<20:q<3600; } CHECK(mask.at<uchar>(i/W,i%W)==(good<2?255:0),"foreground iff fewer than the required number of samples match (large frame)"); } bool same=true; for(int s=0;s<NS;++s) for(int i=0;i<W*H*CN;++i) same&=v.bg()[s].data[i]==keep[s][i]; CHECK(same,"no draw selects an update (large frame)"); }
HARNESS(h_vb_big1){ vb_big<V1,1>(); lv_cover("end"); }
HARNESS(h_vb_big3){ vb_big<V3,3>(); lv_cover("end"); }
template<int CN> static void lo_big(){ lv_rand_fix(1); const int W=18,H=15,NS=35; XL* v=new XL(4,30,NS,2,0,0.333f); std::vector<uint8_t> a(W*H*CN,100),b(W*H*CN,100); v->initialize(cv::Mat(H,W,CV_8UC(CN),a.data()),cv::Mat()); int cs=lv_choice(0,7,"case"); static const int S1[8]={0,16,33,0,16,33,0,16},S2[8]={34,17,34,1,34,34,34,17},BX[8]={4,12,8,7,9,10,5,11},DV[8]={0,15,16,40,15,16,16,15},PX[8]={2,8,15,8,2,15,8,15},Q[8]={40,160,100,160,40,40,160,40}; int s1=S1[cs],s2=S2[cs],bx=BX[cs],dv=DV[cs],px=PX[cs]; uint8_t q=(uint8_t)Q[cs]; for(int c=0;c<CN;++c) b[(7*W+px)*CN+c]=q; for(int s=0;s<NS;++s) for(int i=0;i<W*H*CN;++i){ bool match=(i/CN)%W<bx; v->col()[s].data[i]=(uint8_t)(s==s1?(match?100:100+dv):s==s2?100:220); ((uint16_t*)v->desc()[s].data)[i]=0; }
    uint8_t thr[256]; for(int t=0;t<256;++t) thr[t]=cv::saturate_cast<uchar>(CN==1?t*0.333f/3:t*0.333f); std::vector<uint8_t> raw(W*H,0); for(int y=2;y<H-2;++y) for(int x=2;x<W-2;++x){ int i=y*W+x,good=0; for(int s=0;s<NS;++s){ bool ok=true; int tc=0,td=0; if(s!=s1&&s!=s2) continue; for(int c=0;c<CN;++c){ int r=v->col()[s].data[i*CN+c],cd=absd(b[i*CN+c],r),dd=pc((unsigned)(lbsp(b.data(),W,CN,x,y,c,r,thr[r])^((uint16_t*)v->desc()[s].data)[i*CN+c])); if(CN==1) ok&=cd<=15&&dd<=4; else ok&=cd<=45&&dd<=6; tc+=cd; td+=dd; } if(CN==3) ok&=tc<=90&&td<=12; good+=ok; } raw[i]=good<2?1:0; }
    cv::Mat mask; v->apply(cv::Mat(H,W,CV_8UC(CN),b.data()),mask,1e6); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int n=0; for(int j=-4;j<=4;++j) for(int i=-4;i<=4;++i){ int yy=y+j<0?0:y+j>=H?H-1:y+j,xx=x+i<0?0:x+i>=W?W-1:x+i; n+=raw[yy*W+xx]; } CHECK(mask.at<uchar>(y,x)==(n>40?255:0),"mask is the 9x9 median of the pixels with fewer than the required number of matching samples (large frame)"); } delete v; }
HARNESS(h_lo_big1){ lo_big<1>(); lv_cover("end"); }
HARNESS(h_lo_big3){ lo_big<3>(); lv_cover("end"); }
