// C24: shape context descriptors.
#include "lvh.h"
#include "litiv/features2d.hpp"
#include <vector>
#include <cmath>
typedef unsigned char uc;
static bool near_(double a,double b){ return a-b<=1e-4&&b-a<=1e-4; }
struct Cfg { int inner,outer; int na,nr; };
struct Bins { int n,b[4]; };  // the admissible bins of one point (several only if it lies on a limit)
static void addBin(Bins& r,int b){ for(int i=0;i<r.n;++i) if(r.b[i]==b) return; r.b[r.n++]=b; }
static const double PI_=3.14159265358979323846;
// absolute space: offset (dx,dy) from the described point to the contour point; -1: not counted
static Bins absBins(const Cfg& c,int dx,int dy){ Bins r={0,{0,0,0,0}}; if((dx==0&&dy==0)||dx<-c.outer||dx>c.outer||dy<-c.outer||dy>c.outer){ addBin(r,-1); return r; } double d=std::sqrt((double)(dx*dx+dy*dy)),a=(std::atan2((double)-dx,(double)-dy)+PI_)*c.na/(2*PI_); for(int s=-1;s<=1;s+=2){ int k=0; for(;k<c.nr;++k){ double lim=c.nr==1?(double)c.outer:(std::pow((double)c.nr,(k+1)/(double)c.nr)-1)/(c.nr-1)*c.outer+(k==c.nr-1?0:c.inner); if(d+s*1e-3<=lim) break; } for(int t=-1;t<=1;t+=2){ int g=((int)std::floor(a+t*1e-3)%c.na+c.na)%c.na; addBin(r,k==c.nr?-1:g*c.nr+c.nr-1-k); } } return r; }
static void setup(std::vector<uc>& px,int W,const std::vector<cv::Point>& p){ for(auto& q:p) px[q.y*W+q.x]=lv_any<uc>("px"); }
// one contour point (or none): every position of the image counts it once, in the right bin
template<int NA,int NR> static void single(int in,int out,bool nz){ const int H=7,W=11; Cfg c={in,out,NA,NR}; ShapeContext sc((size_t)in,(size_t)out,(size_t)NA,(size_t)NR,false,false,nz); std::vector<uc> px(H*W); static const int P[4][2]={{0,0},{5,3},{10,6},{2,5}}; int k=lv_choice(0,3,"p"); cv::Point p(P[k][0],P[k][1]); px[p.y*W+p.x]=lv_any<uc>("px"); cv::Mat img(H,W,CV_8UC1,px.data()); cv::Mat_<float> d; if(lv_choice(0,1,"used")){ int z[3]={H,W,NA*NR}; d.create(3,z); d=9.0f; } sc.compute2(img,d); const bool on=px[p.y*W+p.x]!=0; const float z0=nz?std::max(10.0f/(NA*NR),0.5f):0.0f; CHECK(d.dims==3&&d.size[0]==H&&d.size[1]==W&&d.size[2]==NA*NR&&sc.descriptorSize()==NA*NR*4,"one descriptor per pixel"); for(int y=0;y<H;++y) for(int x=0;x<W;++x){ int hit=-1,n=0; bool ok=true; for(int b=0;b<NA*NR;++b){ float v=d(y,x,b); if(near_(v,z0+1)){ hit=b; ++n; } else ok=ok&&near_(v,z0); } CHECK(ok&&n<=1,"a contour point is counted at most once"); Bins e={1,{-1,0,0,0}}; if(on) e=absBins(c,p.x-x,p.y-y); bool m=false; for(int i=0;i<e.n;++i) m=m||e.b[i]==hit; CHECK(m,"in the bin of its distance and direction"); } lv_cover("end"); }
HARNESS(h_sc_bin){ single<8,3>(1,5,false); }
HARNESS(h_sc_bin2){ single<5,2>(2,3,true); }
HARNESS(h_sc_bin1){ single<4,1>(1,4,false); }
// several contour points: dense maps, keypoint maps and descriptor lists agree, whatever was described before
static const int H=6,W=9; static const int Q[4][2]={{0,0},{4,2},{8,5},{1,4}};
static cv::Mat image(std::vector<uc>& px,int n){ px.assign(H*W,0); for(int i=0;i<n;++i) if(lv_choice(0,1,"on")){ uc v=lv_any<uc>("px"); lv_assume(v>0); px[Q[i][1]*W+Q[i][0]]=v; } return cv::Mat(H,W,CV_8UC1,px.data()); }
static std::vector<cv::Point> points(const std::vector<uc>& px,int w){ std::vector<cv::Point> r; for(size_t i=0;i<px.size();++i) if(px[i]) r.push_back(cv::Point((int)i%w,(int)i/w)); return r; }
static double val(const std::vector<double>& cnt,int b,bool norm,bool nz){ const int D=(int)cnt.size(); const double z0=nz?std::max(10.0/D,0.5):0.0; double s=0; for(double v:cnt) s+=(v+z0)*(v+z0); s=std::sqrt(s); if(!norm) return cnt[b]+z0; return s>1e-5?(cnt[b]+z0)/s:std::sqrt(1.0/D); }
static std::vector<double> counts(const Cfg& c,const std::vector<cv::Point>& p,double x,double y){ std::vector<double> r(c.na*c.nr,0); for(auto& q:p){ Bins b=absBins(c,(int)std::round(q.x-x),(int)std::round(q.y-y)); if(b.b[0]>=0) r[b.b[0]]++; } return r; }
static bool onLimit(const Cfg& c,const std::vector<cv::Point>& p,int x,int y){ for(auto& q:p) if(absBins(c,q.x-x,q.y-y).n>1) return true; return false; }
HARNESS(h_sc_agree){ Cfg c={1,4,6,2}; const int set=lv_choice(0,9,"set"); const bool norm=set&1,nz=(set>>1)&1; const int before=set%5; ShapeContext sc(size_t(1),size_t(4),6,2,false,norm,nz); std::vector<uc> px; cv::Mat dm; if(before){ std::vector<uc> o(5*4,0); o[7]=200; cv::Mat i2(before==1?5:4,before==1?4:5,CV_8UC1,o.data()); if(before==3) i2=cv::Mat(H,W,CV_8UC1,cv::Scalar(0)); cv::Mat_<float> t; std::vector<cv::KeyPoint> kk; if(before==2) kk.push_back(cv::KeyPoint(1.f,1.f,1.f)); if(before==2) sc.compute2(i2,kk,t); else sc.compute2(i2,dm); if(before==4){ cv::Mat l; static_cast<cv::Feature2D&>(sc).detectAndCompute(cv::Mat(H,W,CV_8UC1,cv::Scalar(0)),cv::Mat(),kk,l); } }
    cv::Mat img=image(px,3); std::vector<cv::Point> p=points(px,W); cv::Mat_<float> d; if(set>=5){ sc.compute2(img,dm); d=dm; } else sc.compute2(img,d); CHECK(d.dims==3&&d.size[0]==H&&d.size[1]==W&&d.size[2]==12,"dense map of the image size"); bool ok=true; for(int y=0;y<H;++y) for(int x=0;x<W;++x){ if(onLimit(c,p,x,y)) continue; auto n=counts(c,p,x,y); for(int b=0;b<12;++b) ok=ok&&near_(d(y,x,b),val(n,b,norm,nz)); } CHECK(ok,"dense map: every contour point in its bin");
    std::vector<cv::KeyPoint> k; const int K[3][2]={{3,3},{8,0},{0,5}}; for(auto& q:K) k.push_back(cv::KeyPoint((float)q[0],(float)q[1],1.f)); cv::Mat_<float> m; sc.compute2(img,k,m); cv::Mat_<float> d2; if(set&1) sc.compute2(img,d2); CHECK(k.size()==3&&m.dims==3&&m.size[0]==H&&m.size[1]==W,"keypoint map"); std::vector<double> zero(12,0); ok=true; for(int y=0;y<H;++y) for(int x=0;x<W;++x){ bool is=false; for(auto& q:K) is=is||(q[0]==x&&q[1]==y); for(int b=0;b<12;++b) ok=ok&&(is?near_(m(y,x,b),d(y,x,b)):near_(m(y,x,b),val(zero,b,norm,nz))); } CHECK(ok,"keypoint map: the same descriptors at keypoints, the default elsewhere");
    cv::Mat l; static_cast<cv::Feature2D&>(sc).compute(img,k,l); CHECK(l.rows==3&&l.cols==12&&l.type()==CV_32FC1&&k.size()==3,"one row per keypoint"); ok=true; for(int i=0;i<3&&i<l.rows;++i) for(int b=0;b<12;++b) ok=ok&&near_(l.at<float>(i,b),d(K[i][1],K[i][0],b)); CHECK(ok,"descriptor list: the same descriptors, in keypoint order"); if(!(set&1)) sc.compute2(img,d2); ok=true; for(int y=0;y<H;++y) for(int x=0;x<W;++x) for(int b=0;b<12;++b) ok=ok&&d2(y,x,b)==d(y,x,b); CHECK(ok,"the same dense map after keypoints were described"); lv_cover("end"); }
// without keypoints the contour points are described
HARNESS(h_sc_auto){ const bool rel=lv_choice(0,1,"rel"); ShapeContext a(size_t(1),size_t(4),6,2,false,true,true),r(0.2,1.5,6,2,false,true,true); ShapeContext& sc=rel?r:a; std::vector<uc> px; cv::Mat img=image(px,3); std::vector<cv::Point> p=points(px,W); std::vector<cv::KeyPoint> k; cv::Mat_<float> m; sc.compute2(img,k,m); CHECK(k.size()==p.size()&&m.empty()==p.empty(),"as many keypoints as contour points"); for(auto& q:p){ int n=0; for(auto& e:k) n+=e.pt.x==q.x&&e.pt.y==q.y; CHECK(n==1,"every contour point is a keypoint"); } if(!p.empty()){ cv::Mat l; std::vector<cv::KeyPoint> k2=k; static_cast<cv::Feature2D&>(sc).compute(img,k2,l); CHECK(k2.size()==k.size()&&l.rows==(int)k.size(),"list"); for(size_t i=0;i<k.size();++i) for(int b=0;b<12;++b) CHECK(near_(l.at<float>((int)i,b),m((int)k[i].pt.y,(int)k[i].pt.x,b)),"map and list agree"); cv::Mat msk(H,W,CV_8UC1,cv::Scalar(0)); msk.at<uc>(2,4)=1; std::vector<cv::KeyPoint> k3; cv::Mat l3; static_cast<cv::Feature2D&>(sc).detectAndCompute(img,msk,k3,l3); bool in=px[2*W+4]!=0; CHECK(k3.size()==(size_t)in&&l3.rows==(int)in,"only unmasked contour points"); } lv_cover("end"); }
// mean-normalized and rotation invariant descriptors
static void maps(bool rel,bool rot){ const int NA=6,NR=3; const double in=rel?0.25:1,out=rel?1.25:5; ShapeContext a(size_t(1),size_t(5),NA,NR,rot,false,false),r(0.25,1.25,NA,NR,rot,false,false); ShapeContext& sc=rel?r:a; std::vector<uc> px; cv::Mat img=image(px,4); std::vector<cv::Point> p=points(px,W); std::vector<cv::KeyPoint> k; const int K[3][2]={{3,3},{8,1},{4,2}}; for(auto& q:K) k.push_back(cv::KeyPoint((float)q[0],(float)q[1],1.f)); cv::Mat l; static_cast<cv::Feature2D&>(sc).compute(img,k,l); CHECK(l.rows==3&&l.cols==NA*NR,"rows"); double mean=0,cx=0,cy=0; for(auto& q:p){ cx+=q.x; cy+=q.y; for(auto& e:K) mean+=std::sqrt((double)((e[0]-q.x)*(e[0]-q.x)+(e[1]-q.y)*(e[1]-q.y))); } if(!p.empty()){ cx/=p.size(); cy/=p.size(); mean/=3.0*p.size(); }
    for(int i=0;i<3&&i<l.rows;++i){ std::vector<int> lo(NA*NR,0),hi(NA*NR,0); for(auto& q:p){ int dx=q.x-K[i][0],dy=q.y-K[i][1]; if(!dx&&!dy) continue; double d=std::sqrt((double)(dx*dx+dy*dy)),g=std::atan2((double)-dy,(double)dx); if(rel) d/=mean; if(rot) g-=std::atan2(-(q.y-cy),q.x-cx); g=g/(2*PI_)*NA; Bins bb={0,{0,0,0,0}}; for(int s=-1;s<=1;s+=2){ int kk=0; for(;kk<NR;++kk) if(d+s*1e-4<in*std::pow(out/in,kk/(double)(NR-1))) break; for(int t=-1;t<=1;t+=2){ int ang=((int)std::floor(g+t*1e-4)%NA+NA)%NA; addBin(bb,kk==NR?-1:ang+kk*NA); } } for(int z=0;z<bb.n;++z) if(bb.b[z]>=0){ ++hi[bb.b[z]]; if(bb.n==1) ++lo[bb.b[z]]; } } float tot=0; for(int b=0;b<NA*NR;++b){ float v=l.at<float>(i,b); tot+=v; CHECK(v>=lo[b]-1e-3f&&v<=hi[b]+1e-3f,rel?"mean-normalized bins":"bins in image space"); } CHECK(tot<=p.size()+1e-3f,"no contour point is counted twice"); } lv_cover("end"); }
HARNESS(h_sc_rel){ maps(true,false); }
HARNESS(h_sc_rot){ maps(false,true); }
HARNESS(h_sc_relrot){ maps(true,true); }
// a keypoint anywhere, also between pixels
HARNESS(h_sc_kp){ const int NA=6,NR=2,R=4; Cfg c={1,R,NA,NR}; ShapeContext sc(size_t(1),size_t(R),NA,NR,false,false,false); std::vector<uc> px; cv::Mat img=image(px,2); std::vector<cv::Point> p=points(px,W); static const int XS[8]={0,3,7,13,16,21,29,32},YS[5]={0,5,8,11,20}; const int xi=XS[lv_choice(0,7,"x")],yi=YS[lv_choice(0,4,"y")]; std::vector<cv::KeyPoint> k(1,cv::KeyPoint(xi*0.25f,yi*0.25f,1.f)); cv::Mat l; static_cast<cv::Feature2D&>(sc).compute(img,k,l); CHECK(l.rows==1&&l.cols==NA*NR&&k.size()==1,"one row"); const int x=(xi+1)>>2,y=(yi+1)>>2; static signed char T[4][64][64]; static bool init=false; if(!init){ init=true; for(int dy=0;dy<64;++dy) for(int dx=0;dx<64;++dx){ Bins b={1,{-1,0,0,0}}; if(dx>=16&&dx<48&&dy>=16&&dy<48) b=absBins(c,dx-32,dy-32); for(int q=0;q<4;++q) T[q][dy][dx]=(signed char)b.b[q<b.n?q:0]; } }
    int lo[NA*NR],hi[NA*NR]; for(int b=0;b<NA*NR;++b) lo[b]=hi[b]=0; for(auto& q:p){ int dx=q.x-x+32,dy=q.y-y+32; bool same=T[0][dy][dx]==T[1][dy][dx]&&T[0][dy][dx]==T[2][dy][dx]&&T[0][dy][dx]==T[3][dy][dx]; for(int b=0;b<NA*NR;++b){ bool any=T[0][dy][dx]==b||T[1][dy][dx]==b||T[2][dy][dx]==b||T[3][dy][dx]==b; hi[b]+=any; lo[b]+=any&&same; } } for(int b=0;b<NA*NR;++b){ float v=l.at<float>(0,b); CHECK(v>=(float)lo[b]&&v<=(float)hi[b],"the bins around a keypoint"); } lv_cover("end"); }
// ground distances between bins: those of the bin centroids (image space) or centres (otherwise), in halves of the outer radius
HARNESS(h_sc_emd){ const int k=lv_choice(0,3,"k"),NA=k==3?1:6,NR=k==3?3:2,D=NA*NR; ShapeContext a(size_t(1),size_t(4),NA,NR,false,false,false),r(0.25,1.25,NA,NR,false,false,false),t(size_t(1),size_t(5),NA,NR,true,false,false); ShapeContext& sc=k==0?a:k==2?t:k==3?r:r; cv::Mat_<float> m=sc.getEMDCostMap(); CHECK(m.dims==2&&m.rows==D&&m.cols==D,"one cost per pair of bins"); std::vector<double> X(D,0),Y(D,0),n(D,0); double unit;
    if(k==0){ Cfg c={1,4,NA,NR}; for(int y=-4;y<=4;++y) for(int x=-4;x<=4;++x){ Bins b=absBins(c,x,y); if(b.n>1) b.b[0]=-2; if(b.b[0]==-1) continue; cv::Mat_<uc> im(9,9,(uc)0); im(4+y,4+x)=1; std::vector<cv::KeyPoint> kp(1,cv::KeyPoint(4.f,4.f,1.f)); cv::Mat l; static_cast<cv::Feature2D&>(sc).compute(im,kp,l); int hit=-1; for(int q=0;q<D&&l.rows==1;++q) if(l.at<float>(0,q)>0.5f) hit=q; CHECK(b.b[0]==-2||hit==b.b[0],"bin"); if(hit>=0){ X[hit]+=x; Y[hit]+=y; n[hit]++; } } for(int q=0;q<D;++q){ if(n[q]){ X[q]/=n[q]; Y[q]/=n[q]; } } unit=2; }
    else { const double in=k==2?1:0.25,out=k==2?5:1.25; unit=out/2; for(int q=0;q<NR;++q){ double lo=q?in*std::pow(out/in,(q-1)/(double)(NR-1)):0,hi=in*std::pow(out/in,q/(double)(NR-1)); for(int g=0;g<NA;++g){ double an=(g+0.5)*2*PI_/NA; X[g+q*NA]=(lo+hi)/2*std::cos(an); Y[g+q*NA]=(lo+hi)/2*std::sin(an); n[g+q*NA]=1; } } }
    bool ok=true; for(int i=0;i<D;++i) for(int j=0;j<D;++j){ if(!n[i]||!n[j]) continue; ok=ok&&near_(m(i,j),std::sqrt((X[i]-X[j])*(X[i]-X[j])+(Y[i]-Y[j])*(Y[i]-Y[j]))/unit); } CHECK(ok,"the distance between the bins"); for(int i=0;i<D;++i) ok=ok&&m(i,i)==0.0f; CHECK(ok,"no distance to itself"); lv_cover("end"); }
HARNESS(h_sc_bad){ int k=lv_choice(0,11,"k"); bool thr=false; ShapeContext ok(size_t(1),size_t(4),6,2); cv::Mat img(4,5,CV_8UC1,cv::Scalar(0)); cv::Mat_<float> m; std::vector<cv::Mat> vi(2,img); std::vector<std::vector<cv::KeyPoint>> vk(1); std::vector<cv::Mat_<float>> vd; try { if(k==0) ShapeContext s(size_t(0),size_t(4)); else if(k==1) ShapeContext s(size_t(4),size_t(4)); else if(k==2) ShapeContext s(size_t(1),size_t(4),size_t(0)); else if(k==3) ShapeContext s(size_t(1),size_t(4),size_t(6),size_t(0)); else if(k==4) ShapeContext s(0.0,1.0); else if(k==5) ShapeContext s(1.0,0.5); else if(k==6) ok.compute2(cv::Mat(),m); else if(k==7) ok.compute2(cv::Mat(4,5,CV_8UC3,cv::Scalar::all(0)),m); else if(k==8) ok.compute2(vi,vk,vd); else if(k==9){ cv::Mat w(4,5,CV_8UC1); ok.compute2(img,w); } else if(k==10){ cv::Mat w(6,12,CV_32FC1,cv::Scalar(0)); ok.reshapeDesc(cv::Size(2,2),w); } else { cv::Mat w(6,12,CV_32FC1,cv::Scalar(0)); w.at<float>(4,7)=1; ok.reshapeDesc(cv::Size(3,2),w); thr=w.dims==3&&w.size[0]==2&&w.size[1]==3&&w.size[2]==12&&w.at<float>(1,1,7)==1; } } catch(const lv::Exception&){ thr=true; } CHECK(thr,"invalid parameters and inputs are rejected"); lv_cover("end"); }
