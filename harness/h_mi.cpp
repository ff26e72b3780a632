// C11: local differences, joint histograms, mutual information.
#include "lvh.h"
#include "litiv/features2d.hpp"
#include <vector>
#include <cmath>
typedef unsigned char uc;
// ---------------- local differences
template<typename T,size_t R,size_t C> static void ldiff(int H,int W){ T d[12]; lv_fill(d,12,"v"); const int ty=cv::DataType<T>::type; cv::Mat big(3,4,ty,d); cv::Mat_<T> in=big(cv::Rect(0,0,W,H)),out; if(lv_choice(0,1,"reuse")) out=cv::Mat_<T>(H,W,(T)7); lv::localDiff<R,C>(in,out); CHECK(out.rows==H&&out.cols==W,"one difference per pixel"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ T e=(y<(int)R||x<(int)C)?(T)0:(T)(d[(y-(int)R)*4+x-(int)C]-d[y*4+x]); CHECK(out(y,x)==e,"difference with the offset pixel, null where it does not exist"); } lv_cover("end"); }
HARNESS(h_ld10){ ldiff<uc,1,0>(lv_choice(1,3,"h"),lv_choice(1,4,"w")); }
HARNESS(h_ld01){ ldiff<uc,0,1>(lv_choice(1,3,"h"),lv_choice(1,4,"w")); }
HARNESS(h_ld21){ ldiff<short,2,1>(lv_choice(1,3,"h"),lv_choice(1,4,"w")); }
HARNESS(h_ldsmall){ const int W=lv_choice(1,40,"w"); cv::Mat_<int> in(1,W,5),out; lv::localDiff<3,1>(in,out); bool z=true; for(int i=0;i<W;++i) z=z&&out(0,i)==0; CHECK(z&&out.rows==1&&out.cols==W,"images smaller than the offset have null differences"); lv_cover("end"); }
HARNESS(h_ld12){ ldiff<int,1,2>(lv_choice(1,3,"h"),lv_choice(1,4,"w")); }
// ---------------- joint histograms and mutual information, against the definition
struct Ref { double mi,h1,h2; };
static Ref ref(const int* a,const int* b,int n){ Ref r={0,0,0}; for(int i=0;i<n;++i){ int ca=0,cb=0,cj=0; bool fa=true,fb=true,fj=true; for(int k=0;k<n;++k){ bool ea=a[k]==a[i],eb=b[k]==b[i]; ca+=ea; cb+=eb; cj+=ea&&eb; if(k<i){ fa=fa&&!ea; fb=fb&&!eb; fj=fj&&!(ea&&eb); } } if(fj) r.mi+=double(cj)/n*std::log2(double(cj)*n/(double(ca)*cb)); if(fa) r.h1-=double(ca)/n*std::log2(double(ca)/n); if(fb) r.h2-=double(cb)/n*std::log2(double(cb)/n); } return r; }
static double expect(const int* a,const int* b,int n,bool norm){ Ref r=ref(a,b,n); return norm&&r.h1>1e-9&&r.h2>1e-9?r.mi/std::sqrt(r.h1*r.h2):r.mi; }
static bool near_(double a,double b){ return a-b<=2e-5&&b-a<=2e-5; }
static float val(cv::SparseMat_<float>& m,const int* i){ return m.value<float>(i); }
static float val(cv::Mat_<float>& m,const int* i){ return m(i); }
static int cnt(cv::SparseMat_<int>& m,const int* i){ return m.value<int>(i); }
static int cnt(cv::Mat_<int>& m,const int* i){ return m(i); }
// N pixels (in a view when VIEW), every value out of V; the histogram data were used before on other images
template<size_t Q,bool SP,bool NORM,bool FAST,bool SKIP,typename T1,typename T2,int N> static void mi(const int* V,int nV,const int* U,int nU){ int a[N],b[N]; for(int i=0;i<N;++i){ a[i]=V[lv_choice(0,nV-1,"a")]; b[i]=U[lv_choice(0,nU-1,"b")]; } bool view=lv_choice(0,1,"view")!=0; const int W=view?2:N,H=N/W+(N%W!=0); cv::Mat_<T1> A(H+1,W+1,(T1)V[0]); cv::Mat_<T2> B(H+1,W+1,(T2)U[0]); cv::Mat_<T1> x=view?A(cv::Rect(1,0,W,H)):cv::Mat_<T1>(H,W); cv::Mat_<T2> y=view?B(cv::Rect(0,1,W,H)):cv::Mat_<T2>(H,W); const int n=H*W; int aa[N+1],bb[N+1]; for(int i=0;i<n;++i){ int va=i<N?a[i]:V[0],vb=i<N?b[i]:U[0]; x(i/W,i%W)=(T1)va; y(i/W,i%W)=(T2)vb; aa[i]=va; bb[i]=vb; }
    lv::JointHistData<SP,T1,T2> d; { cv::Mat_<T1> px(1,2); cv::Mat_<T2> py(1,2); px(0)=(T1)V[0]; px(1)=(T1)V[nV-1]; py(0)=(T2)U[0]; py(1)=(T2)U[nU-1]; lv::calcJointProbHist<Q,SP,false,SKIP>(std::make_tuple(px,py),d); }
    double s=lv::calcMutualInfo<Q,SP,NORM,FAST,SKIP>(x,y,&d),s0=lv::calcMutualInfo<Q,SP,NORM,FAST,SKIP>(x,y);
    const bool K1=SKIP&&!std::is_same<T1,int>::value,K2=SKIP&&!std::is_same<T2,int>::value; int mna=K1?(int)std::numeric_limits<T1>::min():aa[0],mnb=K2?(int)std::numeric_limits<T2>::min():bb[0],mxa=aa[0],mxb=bb[0]; for(int i=0;i<n;++i){ if(!K1) mna=aa[i]<mna?aa[i]:mna; if(!K2) mnb=bb[i]<mnb?bb[i]:mnb; mxa=aa[i]>mxa?aa[i]:mxa; mxb=bb[i]>mxb?bb[i]:mxb; }
    int qa[N+1],qb[N+1]; for(int i=0;i<n;++i){ qa[i]=(aa[i]-mna)/(int)Q; qb[i]=(bb[i]-mnb)/(int)Q; }
    double e=expect(qa,qb,n,NORM); CHECK(near_(s,e),"mutual information of the (quantized) images"); CHECK(near_(s0,e),"the same without a histogram to reuse"); CHECK(s>=-1e-6&&(!NORM||s<=1+1e-5),"range of the score");
    if(!SKIP) CHECK(d.aMinVals[0]==mna&&d.aMinVals[1]==mnb&&d.aMaxVals[0]==mxa&&d.aMaxVals[1]==mxb,"value ranges");
    size_t s1=0,s2=0,sj=0; for(int i=0;i<n;++i){ int ca=0,cb=0,cj=0; bool fa=true,fb=true,fj=true; for(int k=0;k<n;++k){ bool ea=qa[k]==qa[i],eb=qb[k]==qb[i]; ca+=ea; cb+=eb; cj+=ea&&eb; if(k<i){ fa=fa&&!ea; fb=fb&&!eb; fj=fj&&!(ea&&eb); } } s1+=fa; s2+=fb; sj+=fj; int i1[2]={qa[i],0},i2[2]={qb[i],0},ij[2]={qa[i],qb[i]}; CHECK(near_(val(d.aMargHists[0],i1),double(ca)/n)&&near_(val(d.aMargHists[1],i2),double(cb)/n),"marginal probabilities"); CHECK(near_(val(d.oJointHist,ij),double(cj)/n),"joint probabilities"); if(!FAST) CHECK(cnt(d.aMargCounts[0],i1)==ca&&cnt(d.aMargCounts[1],i2)==cb&&cnt(d.oJointCount,ij)==cj,"occurrences"); }
    double t=0; for(auto it=d.oJointHist.begin();it!=d.oJointHist.end();++it) t+=*it; CHECK(near_(t,1.0),"nothing but the given pixels is counted"); if(SP) CHECK(d.aStates[0]==s1&&d.aStates[1]==s2&&d.nJointStates==sj,"number of occupied states"); lv_cover("end"); }
static const int V3[3]={3,4,6},U2[2]={9,11},X3[3]={0,130,255},S2[2]={-5,2},L2[2]={10,65000},I2[2]={-2000000,7};
HARNESS(h_mi_sp){ mi<1,true,false,false,false,uc,uc,3>(X3,3,X3,3); }
HARNESS(h_mi_spn){ mi<1,true,true,false,false,uc,uc,4>(U2,2,X3,3); }
HARNESS(h_mi_de){ mi<1,false,false,false,false,uc,uc,3>(V3,3,V3,3); }
HARNESS(h_mi_den){ mi<1,false,true,false,false,uc,uc,4>(U2,2,V3,3); }
HARNESS(h_mi_q){ mi<2,true,true,false,false,uc,uc,3>(V3,3,X3,3); }
HARNESS(h_mi_dq){ mi<3,false,false,false,false,uc,uc,3>(V3,3,V3,3); }
HARNESS(h_mi_skip){ mi<1,true,true,false,true,uc,signed char,3>(X3,3,S2,2); }
HARNESS(h_mi_fast){ mi<1,true,true,true,false,uc,uc,3>(V3,3,X3,3); }
HARNESS(h_mi_dfast){ mi<2,false,false,true,false,uc,uc,3>(V3,3,V3,3); }
HARNESS(h_mi_us){ mi<1,true,false,false,false,unsigned short,uc,4>(L2,2,U2,2); }
HARNESS(h_mi_int){ mi<4,true,true,false,true,int,short,3>(I2,2,S2,2); }
HARNESS(h_mi_rej){ int k=lv_choice(0,2,"k"); cv::Mat_<uc> a=k==0?cv::Mat_<uc>():cv::Mat_<uc>(2,2,(uc)1),b=k==1?cv::Mat_<uc>():k==2?cv::Mat_<uc>(1,4,(uc)1):cv::Mat_<uc>(2,2,(uc)1); bool t=false; try { lv::calcMutualInfo(a,b); } catch(const lv::Exception&){ t=true; } CHECK(t,"empty images or images of different sizes are rejected"); lv_cover("end"); }
// ---------------- the window-based helper
HARNESS(h_mi_win){ const int H=4,W=5; const int w=lv_choice(0,1,"w")?3:1,h=lv_choice(0,1,"h")?3:1; bool nrm=lv_choice(0,1,"n")!=0,dn=lv_choice(0,1,"dense")!=0; uc a[H*W],b[H*W]; for(int i=0;i<H*W;++i){ a[i]=(uc)(i*7%5); b[i]=(uc)(i*3%4); } cv::Mat A(H,W,CV_8UC1,a),B(H,W,CV_8UC1,b); MutualInfo m(cv::Size(w,h),nrm,dn); CHECK(m.windowSize()==cv::Size(w,h)&&m.borderSize(0)==w/2&&m.borderSize(1)==h/2,"window"); int x=lv_choice(-1,W,"x"),y=lv_choice(-1,H,"y"); int f=lv_choice(0,2,"f"); std::vector<cv::KeyPoint> k(2); k[0].pt=cv::Point2f(W/2,H/2); k[1].pt=cv::Point2f(x+(f==1?0.4f:f==2?-0.4f:0.f),y+(f==1?-0.4f:f==2?0.4f:0.f)); bool in=x-w/2>=0&&y-h/2>=0&&x+w/2<W&&y+h/2<H; bool t=false; std::vector<double> s(7,-1.0); try { if(f==0) m.compute(A,B,k,s); else s=m.compute(A,B,k); } catch(const lv::Exception&){ t=true; } CHECK(t==!in,"keypoints whose window leaves the image are rejected, no other"); if(!in) return; CHECK(s.size()==2,"one score per keypoint"); for(int i=0;i<2;++i){ int cx=i?x:W/2,cy=i?y:H/2; int va[9],vb[9],n=0; for(int dy=-h/2;dy<=h/2;++dy) for(int dx=-w/2;dx<=w/2;++dx){ va[n]=a[(cy+dy)*W+cx+dx]; vb[n]=b[(cy+dy)*W+cx+dx]; ++n; } CHECK(near_(s[i],expect(va,vb,n,nrm)),"score of the window around the keypoint"); if(i){ double q=m.compute(A(cv::Rect(cx-w/2,cy-h/2,w,h)),B(cv::Rect(cx-w/2,cy-h/2,w,h))); CHECK(near_(q,s[i]),"score of the window given alone"); } } lv_cover("end"); }
HARNESS(h_mi_winrej){ int k=lv_choice(0,9,"k"); bool t=false; cv::Mat a(3,3,CV_8UC1,cv::Scalar(1)),b(3,3,CV_8UC1,cv::Scalar(2)),c3(3,3,CV_8UC3,cv::Scalar::all(2)),s(3,4,CV_8UC1,cv::Scalar(1)),z(3,3,CV_16UC1,cv::Scalar(1)); std::vector<cv::KeyPoint> kp; kp.push_back(cv::KeyPoint(1.f,1.f,3.f)); try { if(k==0) MutualInfo m(cv::Size(0,3)); else if(k==1) MutualInfo m(cv::Size(2,3)); else if(k==2) MutualInfo m(cv::Size(3,4)); else { MutualInfo m(cv::Size(3,3),true,false,k==9); if(k==3) m.compute(s,s); else if(k==4) m.compute(a,s); else if(k==5) m.compute(a,z); else if(k==6) m.compute(a,z,kp); else if(k==7) m.compute(a,s,kp); else if(k==8) m.compute(c3,b); else m.compute(c3,c3,kp); } } catch(const lv::Exception&){ t=true; } CHECK(t,"invalid windows, sizes and types are rejected"); lv_cover("end"); }
// ROI and keypoint filters
HARNESS(h_mi_roi){ const int H=lv_choice(3,5,"H"),W=lv_choice(3,6,"W"); const int w=2*lv_choice(0,1,"w")+1,h=2*lv_choice(0,1,"h")+1; uc d[30]; lv_fill(d,30,"roi"); uc o[30]; for(int i=0;i<30;++i) o[i]=d[i]; cv::Mat roi=cv::Mat(5,6,CV_8UC1,d)(cv::Rect(0,0,W,H)); MutualInfo m(cv::Size(w,h)); m.validateROI(roi); CHECK(roi.rows==H&&roi.cols==W&&roi.type()==CV_8UC1,"format"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ bool in=x-w/2>=0&&y-h/2>=0&&x+w/2<W&&y+h/2<H; CHECK(roi.at<uc>(y,x)==(in?o[y*6+x]:0),"exactly the pixels whose window fits in the image are kept"); } lv_cover("end"); }
HARNESS(h_mi_kp){ const int H=6,W=7; const int w=2*lv_choice(0,1,"w")+1,h=2*lv_choice(0,1,"h")+1; cv::Mat A(H,W,CV_8UC1,cv::Scalar(1)),B(H,W,CV_8UC1,cv::Scalar(1)); MutualInfo m(cv::Size(w,h)); std::vector<cv::KeyPoint> k(1); k[0].pt=cv::Point2f(lv_choice(-1,2*W,"x")*0.5f,lv_choice(-1,2*H,"y")*0.5f); m.validateKeyPoints(k,cv::Size(W,H)); bool t=false; try { std::vector<double> s=m.compute(A,B,k); CHECK(s.size()==k.size(),"one score per keypoint"); } catch(const lv::Exception&){ t=true; } CHECK(!t,"validated keypoints are never rejected"); lv_cover("end"); }
// larger images
static int ipat(int i,int k){ unsigned h=(unsigned)i*2654435761u+(unsigned)k*40503u; h^=h>>15; h*=2246822519u; h^=h>>13; return (int)(h&255); }
template<typename T,size_t R,size_t C> static void ldbig(){ const int H=7,W=41; std::vector<T> d(H*(W+3)); for(size_t i=0;i<d.size();++i) d[i]=(T)ipat((int)i,1); static const int P[5]={0,1,100,200,300}; int p=P[lv_choice(0,4,"p")]; d[p]=sizeof(T)==1?(T)lv_any<uc>("v8"):(T)lv_any<int>("v32"); cv::Mat big(H,W+3,cv::DataType<T>::type,d.data()); cv::Mat_<T> in=lv_choice(0,1,"view")?cv::Mat_<T>(big(cv::Rect(0,0,W,H))):cv::Mat_<T>(big),out; lv::localDiff<R,C>(in,out); bool ok=out.rows==H&&out.cols==in.cols; CHECK(ok,"one difference per pixel (large image)"); for(int y=0;y<H;++y) for(int x=0;x<in.cols;++x){ T e=(y<(int)R||x<(int)C)?(T)0:(T)(d[(y-(int)R)*(W+3)+x-(int)C]-d[y*(W+3)+x]); ok=ok&(out(y,x)==e); } CHECK(ok,"difference with the offset pixel (large image)"); }
HARNESS(h_ld_big){ switch(lv_choice(0,3,"k")){ case 0: ldbig<uc,1,0>(); break; case 1: ldbig<uc,0,3>(); break; case 2: ldbig<int,2,1>(); break; default: ldbig<int,0,1>(); } lv_cover("end"); }
template<size_t Q,bool SP,bool NORM,bool SKIP> static void mibig(){ const int H=5,W=23,N=H*W; cv::Mat_<uc> A(H,W),B(H,W); int m1=lv_choice(0,1,"m1")?3:200; static const int P[3]={0,60,114}; int p=P[lv_choice(0,2,"p")]; for(int i=0;i<N;++i){ A.data[i]=(uc)(ipat(i,2)%m1+20); B.data[i]=(uc)((ipat(i,3)%4)*30+A.data[i]/4); } A.data[p]=(uc)(lv_choice(0,2,"v")*127); int qa[N],qb[N],mna=255,mnb=255; for(int i=0;i<N;++i){ mna=A.data[i]<mna?A.data[i]:mna; mnb=B.data[i]<mnb?B.data[i]:mnb; } if(SKIP) mna=mnb=0; for(int i=0;i<N;++i){ qa[i]=(A.data[i]-mna)/(int)Q; qb[i]=(B.data[i]-mnb)/(int)Q; } double s=lv::calcMutualInfo<Q,SP,NORM,false,SKIP>(A,B); CHECK(near_(s,expect(qa,qb,N,NORM)),"mutual information of the (quantized) images (large image)"); double t=lv::calcMutualInfo<Q,SP,NORM,false,SKIP>(B,A); CHECK(near_(s,t),"symmetric (large image)"); }
HARNESS(h_mi_big){ switch(lv_choice(0,4,"k")){ case 0: mibig<1,true,false,false>(); break; case 1: mibig<1,false,true,false>(); break; case 2: mibig<4,true,true,false>(); break; case 3: mibig<8,false,false,false>(); break; default: mibig<1,true,true,true>(); } lv_cover("end"); }
