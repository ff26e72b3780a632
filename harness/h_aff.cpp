// C21: stereo affinity maps, motion-compensated differences.
#include "lvh.h"
#include "litiv/imgproc.hpp"
#include "litiv/features2d.hpp"
#include <vector>
#include <cmath>
typedef unsigned char uc;
static bool near_(double a,double b){ return a-b<=1e-4&&b-a<=1e-4; }
static std::vector<int> disp(){ static const int R[6][3]={{0,1,2},{-1,0,1},{2,-2,0},{5,-7,0},{1,1,-1},{0,0,0}}; static const int n[6]={3,3,3,3,3,1}; int k=lv_choice(0,5,"range"); return std::vector<int>(R[k],R[k]+n[k]); }
// image affinity: 8-bit images, all values of the pixels of one patch pair are symbolic
template<int H,int W,int K> static void ssd(bool any){ uc a[H*W],b[H*W],m1[H*W],m2[H*W]; for(int i=0;i<H*W;++i){ a[i]=(uc)((i*37+11)%251); b[i]=(uc)((i*i*29+90)%253); } if(any){ lv_fill(a,1,"a"); lv_fill(b,1,"b"); } int roi=any?0:lv_choice(0,3,"roi"); if(roi&1) lv_fill(m1,H*W,"m1"); if(roi&2) lv_fill(m2,H*W,"m2"); std::vector<int> R=any?std::vector<int>(1,0):disp(); cv::Mat A(H,W,CV_8UC1,a),B(H,W,CV_8UC1,b); cv::Mat_<float> out; if(lv_choice(0,1,"reuse")){ int z[3]={H-K/2*2,W-K/2*2,(int)R.size()}; out.create(3,z); out=3.5f; } cv::Mat_<uc> r1,r2; if(roi&1) r1=cv::Mat(H,W,CV_8UC1,m1); if(roi&2) r2=cv::Mat(H,W,CV_8UC1,m2); lv::computeImageAffinity(A,B,K,out,R,lv::AffinityDist_SSD,r1,r2); const int p=K/2; CHECK(out.dims==3&&out.size[0]==H-2*p&&out.size[1]==W-2*p&&out.size[2]==(int)R.size(),"one value per full patch and offset"); for(int y=p;y<H-p;++y) for(int x=p;x<W-p;++x) for(size_t o=0;o<R.size();++o){ float v=out(y-p,x-p,(int)o); int x2=x+R[o]; bool ok=x2>=p&&x2<W-p; bool skip=!ok; if(ok){ if((roi&1)&&m1[y*W+x]==0) skip=true; else if((roi&2)&&m2[y*W+x2]==0) skip=true; } if(skip){ CHECK(v==-1.0f,"-1 outside the images or the regions of interest"); continue; } int s=0; for(int j=-p;j<=p;++j) for(int i=-p;i<=p;++i){ int d=(int)a[(y+j)*W+x+i]-b[(y+j)*W+x2+i]; s+=d*d; } if(any) CHECK(v==(float)std::sqrt((double)s),"L2 distance of the patches"); else CHECK(near_(v,std::sqrt((double)s)),"L2 distance of the patches"); } lv_cover("end"); }
HARNESS(h_ssd1){ ssd<2,3,1>(false); }
HARNESS(h_ssd3){ ssd<3,5,3>(false); }
HARNESS(h_ssd3b){ ssd<4,4,3>(false); }
HARNESS(h_ssd_any){ ssd<1,1,1>(true); }
// mutual information between patches
HARNESS(h_mi){ const int H=3,W=4; uc a[H*W],b[H*W],m1[H*W],m2[H*W]; for(int i=0;i<H*W;++i){ a[i]=(uc)(i*7%4); b[i]=(uc)(i*5%3); m1[i]=m2[i]=1; } for(int k=0;k<2;++k) a[k*5+1]=(uc)(lv_choice(0,1,"a")*200); int roi=lv_choice(0,3,"roi"); for(int i=5;i<7;++i){ if(roi&1) m1[i]=lv_choice(0,1,"m1")?i*30:0; if(roi&2) m2[i]=lv_choice(0,1,"m2")?i*30:0; } std::vector<int> R; R.push_back(lv_choice(-1,1,"d")); R.push_back(0); cv::Mat A(H,W,CV_8UC1,a),B(H,W,CV_8UC1,b); cv::Mat_<float> out; cv::Mat_<uc> r1,r2; if(roi&1) r1=cv::Mat(H,W,CV_8UC1,m1); if(roi&2) r2=cv::Mat(H,W,CV_8UC1,m2); lv::computeImageAffinity(A,B,3,out,R,lv::AffinityDist_MI,r1,r2); for(int x=1;x<3;++x) for(int o=0;o<2;++o){ float v=out(0,x-1,o); int x2=x+R[o]; bool skip=x2<1||x2>=3; if(!skip){ if((roi&1)&&m1[W+x]==0) skip=true; else if((roi&2)&&m2[W+x2]==0) skip=true; } if(skip){ CHECK(v==-1.0f,"-1 outside the images or the regions of interest"); continue; } cv::Mat_<uc> pa=A(cv::Rect(x-1,0,3,3)).clone(),pb=B(cv::Rect(x2-1,0,3,3)).clone(); double s=1.0-lv::calcMutualInfo<1,true,true>(pa,pb); CHECK(near_(v,s>0?s:0),"one minus the normalized mutual information of the patches"); } lv_cover("end"); }
// descriptor affinity (descriptors whose L2 distances are exact)
template<int H,int W,int K> static void daff(bool roisym){ const int D=2; float a[H*W*D],b[H*W*D]; for(int i=0;i<H*W;++i){ a[i*D]=(float)(i*3%7); a[i*D+1]=(float)(i*5%4); b[i*D]=(float)(i*i%5); b[i*D+1]=(float)(i*4%9); } uc m1[H*W],m2[H*W]; int roi=roisym?lv_choice(1,H*W>4?2:3,"roi"):0; for(int i=0;i<H*W;++i){ m1[i]=roi&1?lv_choice(0,1,"m1")?1+i*40:0:1; m2[i]=roi&2?lv_choice(0,1,"m2")?255-i:0:1; } int z[3]={H,W,D}; cv::Mat_<float> A(3,z,a),B(3,z,b),out; std::vector<int> R=disp(); if(!roisym&&lv_choice(0,1,"reuse")){ int q[3]={H,W,(int)R.size()}; out.create(3,q); out=2.5f; } cv::Mat_<uc> r1,r2; if(roi&1) r1=cv::Mat(H,W,CV_8UC1,m1); if(roi&2) r2=cv::Mat(H,W,CV_8UC1,m2); lv::computeDescriptorAffinity(A,B,K,out,R,lv::AffinityDist_L2,r1,r2); CHECK(out.dims==3&&out.size[0]==H&&out.size[1]==W&&out.size[2]==(int)R.size(),"one value per pixel and offset"); const int p=K/2; for(size_t o=0;o<R.size();++o){ double raw[H*W]; for(int i=0;i<H*W;++i){ int x=i%W,x2=x+R[o]; raw[i]=-1; if(x2<0||x2>=W) continue; if((roi&1)&&m1[i]==0) continue; if((roi&2)&&m2[i-x+x2]==0) continue; double s=0; for(int k=0;k<D;++k){ double d=a[i*D+k]-b[(i-x+x2)*D+k]; s+=d*d; } raw[i]=std::sqrt(s); } for(int y=0;y<H;++y) for(int x=0;x<W;++x){ double s=0; int n=0; for(int j=y-p;j<=y+p;++j) for(int i=x-p;i<=x+p;++i) if(j>=0&&i>=0&&j<H&&i<W&&raw[j*W+i]>=0){ s+=raw[j*W+i]; ++n; } float v=out(y,x,(int)o); if(!n) CHECK(v==-1.0f,"-1 where no valid pair lies in the window"); else CHECK(near_(v,s/n),"mean L2 distance of the valid pairs in the window"); } } lv_cover("end"); }
HARNESS(h_d1){ daff<2,4,1>(false); }
HARNESS(h_d1r){ daff<1,4,1>(true); }
HARNESS(h_d3){ daff<3,4,3>(false); }
HARNESS(h_d3r){ daff<2,3,3>(true); }
HARNESS(h_d3r2){ daff<2,2,3>(true); }
HARNESS(h_d5r){ daff<1,4,5>(true); }
// two calls of different sizes one after the other: the second does not see the first
HARNESS(h_dseq){ int z1[3]={2,3,2},z2[3]={1,2,3}; cv::Mat_<float> A(3,z1),B(3,z1),C(3,z2),D(3,z2),o1,o2; A=1.0f; B=4.0f; C=2.0f; D=2.0f; D(0,1,2)=5.0f; std::vector<int> R; R.push_back(0); R.push_back(1); int K1=lv_choice(0,1,"k1")?3:1,K2=lv_choice(0,1,"k2")?3:1; lv::computeDescriptorAffinity(A,B,K1,o1,R,lv::AffinityDist_L2); lv::computeDescriptorAffinity(C,D,K2,o2,R,lv::AffinityDist_L2); bool e=true; for(int y=0;y<2;++y) for(int x=0;x<3;++x){ e=e&&near_(o1(y,x,0),std::sqrt(18.0)); e=e&&(K1==1&&x==2?o1(y,x,1)==-1.0f:near_(o1(y,x,1),std::sqrt(18.0))); } CHECK(e,"first map"); if(K2==1) CHECK(o2(0,0,0)==0&&near_(o2(0,1,0),3)&&near_(o2(0,0,1),3)&&o2(0,1,1)==-1.0f,"second map"); else CHECK(near_(o2(0,0,0),1.5)&&near_(o2(0,1,0),1.5)&&near_(o2(0,0,1),3)&&near_(o2(0,1,1),3),"second map"); lv_cover("end"); }
HARNESS(h_dseq2){ const int H=2,W=3; int z[3]={H,W,2}; float v[3]={0,1,3}; bool uses[2]; int K[2],r[2]; float da[2],db[2]; uc m[2][H*W]; for(int c=0;c<2;++c){ K[c]=lv_choice(0,1,"k")?3:1; r[c]=lv_choice(0,2,"roi"); da[c]=v[c]; db[c]=v[c+1]; for(int i=0;i<H*W;++i) m[c][i]=r[c]==1?0:i==(c?4:1)?255:0; (void)uses; } cv::Mat_<float> out; int d=lv_choice(-1,1,"d"); const bool fresh=lv_choice(0,1,"fresh")!=0; for(int c=0;c<2;++c){ cv::Mat_<float> A(3,z),B(3,z); A=da[c]; B=db[c]; if(fresh) out=cv::Mat_<float>(); cv::Mat_<uc> R; if(r[c]) R=cv::Mat(H,W,CV_8UC1,m[c]); int dd=c?d:0; lv::computeDescriptorAffinity(A,B,K[c],out,std::vector<int>(1,dd),lv::AffinityDist_L2,R,cv::Mat_<uc>()); double e=(db[c]-da[c])*std::sqrt(2.0); int p=K[c]/2; for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int n=0; for(int j=y-p;j<=y+p;++j) for(int i=x-p;i<=x+p;++i) if(j>=0&&i>=0&&j<H&&i<W&&i+dd>=0&&i+dd<W&&(!r[c]||m[c][j*W+i])) ++n; if(n) CHECK(near_(out(y,x,0),e),"same-sized maps one after the other: the second only depends on its own inputs"); else CHECK(out(y,x,0)==-1.0f,"same-sized maps one after the other: invalid pairs stay invalid"); } } lv_cover("end"); }
HARNESS(h_rej){ int k=lv_choice(0,11,"k"); cv::Mat A(4,5,CV_8UC1,cv::Scalar(1)),B(4,5,CV_8UC1,cv::Scalar(1)); cv::Mat_<uc> r1,r2; cv::Mat_<float> out; std::vector<int> R(1,0); int K=3; lv::AffinityDistType t=lv::AffinityDist_SSD; if(k==0) A=cv::Mat(); else if(k==1) B=cv::Mat(4,4,CV_8UC1,cv::Scalar(1)); else if(k==2) r1=cv::Mat(4,4,CV_8UC1,cv::Scalar(1)); else if(k==3) r2=cv::Mat(3,5,CV_8UC1,cv::Scalar(1)); else if(k==4) t=lv::AffinityDist_L2; else if(k==5) K=2; else if(k==6) K=0; else if(k==7) K=5; else if(k==8) R.clear(); else if(k==9) B=cv::Mat(4,5,CV_16UC1,cv::Scalar(1)); else if(k==10){ A=cv::Mat(4,5,CV_8UC3,cv::Scalar::all(1)); B=A; } else { A=cv::Mat(4,5,CV_16UC1,cv::Scalar(1)); B=A; t=lv::AffinityDist_MI; } bool th=false; try { lv::computeImageAffinity(A,B,K,out,R,t,r1,r2); } catch(const lv::Exception&){ th=true; } CHECK(th,"invalid images, patches, ranges or distances are rejected"); lv_cover("end"); }
HARNESS(h_rejd){ int k=lv_choice(0,11,"k"); int z[3]={3,4,2},z2[3]={3,3,2},z1[3]={3,4,1}; cv::Mat_<float> A(3,z),B(3,z),out,c; A=1.0f; B=1.0f; cv::Mat_<uc> r1,r2; std::vector<int> R(1,0); int K=3; lv::AffinityDistType t=lv::AffinityDist_L2; if(k==0) A=cv::Mat_<float>(); else if(k==1) B=cv::Mat_<float>(3,z2); else if(k==2){ A=cv::Mat_<float>(3,z1); B=A; } else if(k==3) r1=cv::Mat(4,3,CV_8UC1,cv::Scalar(1)); else if(k==4) r2=cv::Mat(3,5,CV_8UC1,cv::Scalar(1)); else if(k==5) t=lv::AffinityDist_SSD; else if(k==6) K=2; else if(k==7) K=-1; else if(k==8) R.clear(); else if(k==9) t=lv::AffinityDist_EMD; else if(k==10){ t=lv::AffinityDist_EMD; c=cv::Mat_<float>(3,3,1.f); } else { t=lv::AffinityDist_EMD; c=cv::Mat_<float>(2,3,1.f); } bool th=false; try { lv::computeDescriptorAffinity(A,B,K,out,R,t,r1,r2,c); } catch(const lv::Exception&){ th=true; } CHECK(th,"invalid maps, patches, ranges or distances are rejected"); lv_cover("end"); }
// motion-compensated absolute differences and offset remapping
template<int C> static void tdiff(){ const int H=2,W=3; static const float F[8]={-4.f,-1.5f,-1.f,-0.25f,0.f,0.5f,1.f,2.75f}; uc a[H*W*C],b[H*W*C]; for(int i=0;i<H*W*C;++i){ a[i]=(uc)(i*71%250); b[i]=(uc)((i*i*13+7)%240); } float f[H*W*2]; int t=lv_choice(0,H*W-1,"px"); for(int i=0;i<H*W*2;++i) f[i]=F[(i*3)%8]; f[2*t]=F[lv_choice(0,7,"dx")]; f[2*t+1]=F[lv_choice(0,7,"dy")]; cv::Mat A(H,W,CV_8UC(C),a),B(H,W,CV_8UC(C),b),fl(H,W,CV_32FC2,f),out; if(lv_choice(0,1,"reuse")) out=cv::Mat(H,W,CV_32FC(C),cv::Scalar::all(9)); lv::computeTemporalAbsDiff(A,B,fl,out,lv_choice(0,1,"k")); CHECK(out.type()==CV_32FC(C)&&out.rows==H&&out.cols==W,"format"); for(int y=0;y<H;++y) for(int x=0;x<W;++x) for(int c=0;c<C;++c){ double X=x+(double)f[(y*W+x)*2],Y=y+(double)f[(y*W+x)*2+1]; int x0=(int)std::floor(X),y0=(int)std::floor(Y); double u=X-x0,v=Y-y0; auto at=[&](int yy,int xx){ yy=yy<0?0:yy>=H?H-1:yy; xx=xx<0?0:xx>=W?W-1:xx; return (double)b[(yy*W+xx)*C+c]; }; double s=(at(y0,x0)*(1-u)+at(y0,x0+1)*u)*(1-v)+(at(y0+1,x0)*(1-u)+at(y0+1,x0+1)*u)*v,e=std::fabs(a[(y*W+x)*C+c]-s); double r=out.ptr<float>(y)[x*C+c]; CHECK(near_(r,e),"absolute difference with the bilinear sample at the displaced position"); } lv_cover("end"); }
HARNESS(h_td1){ tdiff<1>(); }
HARNESS(h_td3){ tdiff<3>(); }
HARNESS(h_tdrej){ int k=lv_choice(0,10,"k"); cv::Mat A(3,4,CV_8UC1,cv::Scalar(1)),B(3,4,CV_8UC1,cv::Scalar(1)),f(3,4,CV_32FC2,cv::Scalar::all(0)),o; int K=0; if(k==0) A=cv::Mat(); else if(k==1) B=cv::Mat(); else if(k==2) f=cv::Mat(); else if(k==3) K=2; else if(k==4) K=-1; else if(k==5) B=cv::Mat(3,5,CV_8UC1,cv::Scalar(1)); else if(k==6){ A=cv::Mat(3,4,CV_16UC1,cv::Scalar(1)); B=A; } else if(k==7) f=cv::Mat(3,3,CV_32FC2,cv::Scalar::all(0)); else if(k==8) f=cv::Mat(3,4,CV_32FC1,cv::Scalar::all(0)); else if(k==9){ A=cv::Mat(3,4,CV_8UC2,cv::Scalar::all(1)); B=A; } else B=cv::Mat(3,6,CV_8UC1,cv::Scalar(1))(cv::Rect(0,0,4,3)); bool t=false; try { lv::computeTemporalAbsDiff(A,B,f,o,K); } catch(const lv::Exception&){ t=true; } CHECK(t,"invalid images, flow or kernel are rejected"); lv_cover("end"); }
template<int C> static void rmap(){ const int H=2,W=3; uc d[H*W*C]; lv_fill(d,H*W*C,"v"); float f[H*W*2]; for(int i=0;i<H*W*2;++i) f[i]=(float)((i*5)%4-1); int t=lv_choice(0,H*W-1,"px"); f[2*t]=(float)lv_choice(-3,3,"dx"); f[2*t+1]=(float)lv_choice(-2,2,"dy"); cv::Mat in(H,W,CV_8UC(C),d),out; bool rep=lv_choice(0,1,"border")!=0; lv::remap_offset(in,out,cv::Mat(H,W,CV_32FC2,f),cv::INTER_NEAREST,rep?cv::BORDER_REPLICATE:cv::BORDER_CONSTANT,cv::Scalar::all(7)); CHECK(out.type()==in.type()&&out.size()==in.size(),"format"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int sx=x-(int)f[(y*W+x)*2],sy=y-(int)f[(y*W+x)*2+1]; bool inb=sx>=0&&sy>=0&&sx<W&&sy<H; if(rep){ sx=sx<0?0:sx>=W?W-1:sx; sy=sy<0?0:sy>=H?H-1:sy; } for(int c=0;c<C;++c) CHECK(out.ptr<uc>(y)[x*C+c]==((inb||rep)?d[(sy*W+sx)*C+c]:7),"every pixel comes from its own position minus its offset"); } lv_cover("end"); }
HARNESS(h_rm1){ rmap<1>(); }
HARNESS(h_rm3){ rmap<3>(); }
HARNESS(h_rmrej){ int k=lv_choice(0,3,"k"); cv::Mat in=k==0?cv::Mat():cv::Mat(3,4,CV_8UC1,cv::Scalar(1)),m=k==1?cv::Mat():k==2?cv::Mat(3,3,CV_32FC2,cv::Scalar::all(0)):k==3?cv::Mat(3,4,CV_32FC1,cv::Scalar::all(0)):cv::Mat(3,4,CV_32FC2,cv::Scalar::all(0)),o; bool t=false; try { lv::remap_offset(in,o,m,cv::INTER_NEAREST); } catch(const lv::Exception&){ t=true; } CHECK(t,"invalid images or offsets are rejected"); lv_cover("end"); }
// larger images
static int apat(int i,int k){ unsigned h=(unsigned)i*2654435761u+(unsigned)k*40503u; h^=h>>15; h*=2246822519u; h^=h>>13; return (int)(h&255); }
template<int K> static void ssdBig(){ const int H=7,W=23; std::vector<uc> a(H*W),b(H*W),m1(H*W),m2(H*W); for(int i=0;i<H*W;++i){ a[i]=(uc)apat(i,1); b[i]=(uc)apat(i,2); m1[i]=apat(i,3)<80?0:(uc)apat(i,3); m2[i]=apat(i,4)<80?0:(uc)apat(i,4); } int k=lv_choice(0,3,"roi"); static const int P[4]={0,34,90,160}; int p=P[lv_choice(0,3,"p")]; if(k&1) m1[p]=lv_any<uc>("m1"); if(k&2) m2[p]=lv_any<uc>("m2"); std::vector<int> R; int n=lv_choice(0,1,"n")?17:5; for(int i=0;i<n;++i) R.push_back(i-n/2); cv::Mat A(H,W,CV_8UC1,a.data()),B(H,W,CV_8UC1,b.data()); cv::Mat_<uc> r1,r2; if(k&1) r1=cv::Mat(H,W,CV_8UC1,m1.data()); if(k&2) r2=cv::Mat(H,W,CV_8UC1,m2.data()); cv::Mat_<float> out; lv::computeImageAffinity(A,B,K,out,R,lv::AffinityDist_SSD,r1,r2); const int q=K/2; CHECK(out.dims==3&&out.size[0]==H-2*q&&out.size[1]==W-2*q&&out.size[2]==n,"one value per full patch and offset (large image)"); for(int y=q;y<H-q;++y) for(int x=q;x<W-q;++x) for(int o=0;o<n;++o){ float v=out(y-q,x-q,o); int x2=x+R[o]; bool inb=x2>=q&&x2<W-q,skip=!inb; if(inb) skip=((k&1)!=0&&m1[y*W+x]==0)|((k&2)!=0&&m2[y*W+x2]==0); double e=-1; if(inb){ int s=0; for(int j=-q;j<=q;++j) for(int i=-q;i<=q;++i){ int d=(int)a[(y+j)*W+x+i]-b[(y+j)*W+x2+i]; s+=d*d; } e=std::sqrt((double)s); } if(skip) CHECK(v==-1.0f,"-1 outside the images or the regions of interest (large image)"); else CHECK(near_(v,e),"L2 distance of the patches (large image)"); } lv_cover("end"); }
HARNESS(h_ssd_big1){ ssdBig<1>(); }
HARNESS(h_ssd_big5){ ssdBig<5>(); }
template<int K> static void daffBig(){ const int H=4,W=13,D=5; int z[3]={H,W,D}; cv::Mat_<float> A(3,z),B(3,z),out; for(int i=0;i<H*W*D;++i){ ((float*)A.data)[i]=(float)(apat(i,5)%9); ((float*)B.data)[i]=(float)(apat(i,6)%9); } std::vector<uc> m1(H*W),m2(H*W); for(int i=0;i<H*W;++i){ m1[i]=apat(i,7)<90?0:1; m2[i]=apat(i,8)<90?0:200; } int k=lv_choice(0,3,"roi"); static const int P[3]={0,20,51}; int p=P[lv_choice(0,2,"p")]; if(k&1) m1[p]=(uc)lv_choice(0,1,"m"); std::vector<int> R; int n=lv_choice(0,1,"n")?9:2; for(int i=0;i<n;++i) R.push_back(n/2-i); cv::Mat_<uc> r1,r2; if(k&1) r1=cv::Mat(H,W,CV_8UC1,m1.data()); if(k&2) r2=cv::Mat(H,W,CV_8UC1,m2.data()); lv::computeDescriptorAffinity(A,B,K,out,R,lv::AffinityDist_L2,r1,r2); CHECK(out.dims==3&&out.size[0]==H&&out.size[1]==W&&out.size[2]==n,"one value per pixel and offset (large map)"); const int q=K/2; for(int o=0;o<n;++o){ double raw[H*W]; for(int i=0;i<H*W;++i){ int x=i%W,x2=x+R[o]; raw[i]=-1; if(x2<0||x2>=W||((k&1)&&!m1[i])||((k&2)&&!m2[i-x+x2])) continue; double s=0; for(int c=0;c<D;++c){ double d=((float*)A.data)[i*D+c]-((float*)B.data)[(i-x+x2)*D+c]; s+=d*d; } raw[i]=std::sqrt(s); } for(int y=0;y<H;++y) for(int x=0;x<W;++x){ double s=0; int c=0; for(int j=y-q;j<=y+q;++j) for(int i=x-q;i<=x+q;++i) if(j>=0&&i>=0&&j<H&&i<W&&raw[j*W+i]>=0){ s+=raw[j*W+i]; ++c; } float v=out(y,x,o); if(!c) CHECK(v==-1.0f,"-1 where no valid pair lies in the window (large map)"); else CHECK(near_(v,s/c),"mean L2 distance of the valid pairs in the window (large map)"); } } lv_cover("end"); }
HARNESS(h_d_big1){ daffBig<1>(); }
HARNESS(h_d_big5){ daffBig<5>(); }
template<int C> static void rmBig(){ const int H=5,W=29; std::vector<uc> d(H*W*C); for(int i=0;i<H*W*C;++i) d[i]=(uc)apat(i,9); static const int P[3]={0,60,144}; int p=P[lv_choice(0,2,"p")]; d[p*C]=lv_any<uc>("v"); std::vector<float> f(H*W*2); for(int i=0;i<H*W*2;++i) f[i]=(float)(apat(i,10)%21-10); cv::Mat in(H,W,CV_8UC(C),d.data()),out; bool rep=lv_choice(0,1,"border")!=0; lv::remap_offset(in,out,cv::Mat(H,W,CV_32FC2,f.data()),cv::INTER_NEAREST,rep?cv::BORDER_REPLICATE:cv::BORDER_CONSTANT,cv::Scalar::all(7)); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int sx=x-(int)f[(y*W+x)*2],sy=y-(int)f[(y*W+x)*2+1]; bool inb=sx>=0&&sy>=0&&sx<W&&sy<H; if(rep){ sx=sx<0?0:sx>=W?W-1:sx; sy=sy<0?0:sy>=H?H-1:sy; } for(int c=0;c<C;++c) CHECK(out.ptr<uc>(y)[x*C+c]==((inb||rep)?d[(sy*W+sx)*C+c]:7),"every pixel comes from its own position minus its offset (large image)"); } lv_cover("end"); }
HARNESS(h_rm_big){ if(lv_choice(0,1,"c")) rmBig<3>(); else rmBig<1>(); }
