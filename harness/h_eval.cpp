// C12: pixel-level evaluation counters; C13: metric formulas, accumulation and averaging.
#include "lvh.h"
#include "litiv/datasets/metrics.hpp"
#include <vector>
#include <cmath>
using lv::BinClassif;
static BinClassif symCounters(const char* n){ BinClassif c; uint64_t v[6]; lv_fill(v,6,n); c.nTP=v[0]; c.nTN=v[1]; c.nFP=v[2]; c.nFN=v[3]; c.nSE=v[4]; c.nDC=v[5]; return c; }
static bool eqC(const BinClassif& a,const BinClassif& b){ return a.nTP==b.nTP&&a.nTN==b.nTN&&a.nFP==b.nFP&&a.nFN==b.nFN&&a.nSE==b.nSE&&a.nDC==b.nDC; }
// every pixel lands in exactly one class; counters add up on top of whatever was there
HARNESS(h_bc_count){
    const int N=4,W=2; uint8_t in[N],gt[N],roi[N]; lv_fill(in,N,"in"); lv_fill(gt,N,"gt"); lv_fill(roi,N,"roi");
    bool useGT=lv_choice(0,1,"useGT"),useROI=lv_choice(0,1,"useROI"); int w=lv_choice(0,1,"shape")?W:N,h=N/w;
    cv::Mat I(h,w,CV_8UC1,in),G,R; if(useGT) G=cv::Mat(h,w,CV_8UC1,gt); if(useROI) R=cv::Mat(h,w,CV_8UC1,roi);
    BinClassif c=symCounters("c0"),e=c; c.accumulate(I,G,R);
    for(int i=0;i<N;++i){
        bool dc=!useGT||gt[i]==85||gt[i]==170||(useROI&&roi[i]==0),p=in[i]==255,g=gt[i]==255;
        e.nDC+=dc; e.nTP+=!dc&p&g; e.nFP+=!dc&p&!g; e.nFN+=!dc&!p&g; e.nTN+=!dc&!p&!g; e.nSE+=!dc&p&(gt[i]==50);
    }
    CHECK(c.nTP==e.nTP&&c.nTN==e.nTN&&c.nFP==e.nFP&&c.nFN==e.nFN,"each pixel under evaluation counts once, in its class"); CHECK(c.nDC==e.nDC,"pixels outside the ROI or without usable ground truth are not evaluated"); CHECK(c.nSE==e.nSE,"shadow pixels labelled positive are counted as such");
    lv_cover("end"); }
HARNESS(h_bc_mask){
    const int N=4; uint8_t in[N],gt[N],roi[N]; lv_fill(in,N,"in"); lv_fill(gt,N,"gt"); lv_fill(roi,N,"roi"); bool useGT=lv_choice(0,1,"useGT"),useROI=lv_choice(0,1,"useROI"); int w=lv_choice(0,1,"shape")?2:4,h=N/w;
    cv::Mat I(h,w,CV_8UC1,in),G,R; if(useGT) G=cv::Mat(h,w,CV_8UC1,gt); if(useROI) R=cv::Mat(h,w,CV_8UC1,roi);
    cv::Mat O=BinClassif::getColoredMask(I,G,R); CHECK(O.rows==h&&O.cols==w&&O.type()==CV_8UC3,"coloured mask has the input's size");
    for(int i=0;i<N;++i){
        auto o=O.at<cv::Vec3b>(i/w,i%w); int x=in[i],g=gt[i]; bool out=useROI&&roi[i]==0,unk=g==85||g==170; int b=0,gr=0,r=0;
        if(!useGT||(!out&&unk)) b=gr=r=x; else if(out) b=gr=r=127; else if(x==255){ if(g==255) gr=255; else if(g==0) r=255; else if(g==50){ gr=127; r=255; } else b=gr=r=85; } else if(g==255){ b=127; r=255; }
        CHECK(o[0]==b&&o[1]==gr&&o[2]==r,"pixel colour encodes its classification");
    }
    lv_cover("end"); }
HARNESS(h_bc_reject){
    uint8_t d[3][24]; lv_fill(d[0],72,"d"); cv::Mat I(2,3,CV_8UC1,d[0]),G(2,3,CV_8UC1,d[1]),R(2,3,CV_8UC1,d[2]); cv::Mat bigI(2,4,CV_8UC1,d[0]),bigG(2,4,CV_8UC1,d[1]),bigR(2,4,CV_8UC1,d[2]);
    int k=lv_choice(0,11,"k"); bool mask=lv_choice(0,1,"mask"),hasGT=lv_choice(0,1,"hasGT"); bool gtcase=false;
    switch(k){ case 0: break; case 1: I=cv::Mat(); break; case 2: I=cv::Mat(2,3,CV_8UC3,d[0]); break; case 3: I=bigI.colRange(0,3); break; case 4: G=cv::Mat(2,3,CV_8UC3,d[1]); gtcase=true; break; case 5: G=bigG.colRange(1,4); gtcase=true; break; case 6: G=bigG; gtcase=true; break; case 7: R=cv::Mat(2,3,CV_8SC1,d[2]); break; case 8: R=bigR.colRange(1,4); break; case 9: R=bigR; break; case 10: G=cv::Mat(3,2,CV_8UC1,d[1]); gtcase=true; break; default: R=cv::Mat(3,2,CV_8UC1,d[2]); }
    if(!hasGT){ if(gtcase) return; G=cv::Mat(); }
    BinClassif c; bool thr=false; try { if(mask) BinClassif::getColoredMask(I,G,R); else c.accumulate(I,G,R); } catch(const lv::Exception&){ thr=true; }
    CHECK(thr==(k!=0),"maps of the wrong type, layout or size are rejected"); if(!mask) CHECK(c.total(true)==(k==0?6u:0u),"a rejected map changes no counter"); lv_cover("end"); }
HARNESS(h_bc_merge){
    BinClassif a=symCounters("a"),b=symCounters("b"),e=a; CHECK(a.isEqual(b)==eqC(a,b),"counter equality"); e.nTP+=b.nTP; e.nTN+=b.nTN; e.nFP+=b.nFP; e.nFN+=b.nFN; e.nSE+=b.nSE; e.nDC+=b.nDC; BinClassif c=a; c.accumulate(b); CHECK(eqC(c,e),"counters add up"); CHECK(c.total()==c.nTP+c.nTN+c.nFP+c.nFN&&c.total(true)==c.total()+c.nDC,"totals"); BinClassif z; CHECK(z.total(true)==0&&z.nSE==0,"fresh counters are zero");
    auto pa=lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(),pb=lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(); pa->m_oCounters=a; pb->m_oCounters=b; CHECK((*pa==*pb)==eqC(a,b)&&(*pa!=*pb)==!eqC(a,b),"accumulator equality"); *pa+=*pb; CHECK(eqC(pa->m_oCounters,e)&&eqC(pb->m_oCounters,b),"accumulators add up without touching the source"); lv_cover("end"); }
HARNESS(h_bc_array){
    int n=lv_choice(0,2,"n"),m=lv_choice(0,2,"m"); typedef lv::BinClassifMetricsArrayAccumulator A; auto pa=lv::IIMetricsAccumulator::create<A>((size_t)n),pb=lv::IIMetricsAccumulator::create<A>((size_t)m); BinClassif a[2],b[2];
    for(int i=0;i<n;++i){ a[i]=symCounters("a"); pa->m_vCounters[i]=a[i]; } for(int i=0;i<m;++i){ b[i]=symCounters("b"); pb->m_vCounters[i]=b[i]; } CHECK((int)pa->m_vCounters.size()==n&&(int)pa->m_vsStreamNames.size()==n,"one counter set and name per stream");
    bool na=lv_choice(0,1,"na"),nb=lv_choice(0,1,"nb"); if(na&&n) pa->m_vsStreamNames[0]="p"; if(nb&&m) pb->m_vsStreamNames[0]="q";
    bool eq=n==m; for(int i=0;i<n&&i<m;++i) eq=eq&eqC(a[i],b[i]); CHECK(pa->isEqual(pb)==eq,"arrays are equal when every stream is");
    bool thr=false; try { pa->accumulate(pb); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(n!=0&&n!=m),"stream counts must match unless nothing was accumulated yet"); if(thr) return;
    CHECK((int)pa->m_vCounters.size()==m&&(int)pa->m_vsStreamNames.size()==m,"stream count");
    for(int i=0;i<m;++i){ BinClassif e=b[i]; if(n){ e.nTP+=a[i].nTP; e.nTN+=a[i].nTN; e.nFP+=a[i].nFP; e.nFN+=a[i].nFN; e.nSE+=a[i].nSE; e.nDC+=a[i].nDC; } CHECK(eqC(pa->m_vCounters[i],e),"per-stream counters add up"); }
    if(m) CHECK(pa->m_vsStreamNames[0]==((na&&n)?"p":nb?"q":""),"missing stream names are taken over");
    auto r=pa->reduce(); BinClassif s; for(int i=0;i<m;++i){ auto& q=pa->m_vCounters[i]; s.nTP+=q.nTP; s.nTN+=q.nTN; s.nFP+=q.nFP; s.nFN+=q.nFN; s.nSE+=q.nSE; s.nDC+=q.nDC; } CHECK(eqC(r->m_oCounters,s),"reduction is the sum over streams"); lv_cover("end"); }
// ---- disparity errors
static const int ST[6]={CV_8UC1,CV_8SC1,CV_16UC1,CV_16SC1,CV_32SC1,CV_32FC1};
static float rd(const cv::Mat& m,int i){ switch(m.type()){ case CV_8UC1: return ((uchar*)m.data)[i]; case CV_8SC1: return ((schar*)m.data)[i]; case CV_16UC1: return ((ushort*)m.data)[i]; case CV_16SC1: return ((short*)m.data)[i]; case CV_32SC1: return ((int*)m.data)[i]; default: return ((float*)m.data)[i]; } }
static bool valid(const cv::Mat& m,int i){ switch(m.type()){ case CV_8UC1: return ((uchar*)m.data)[i]!=255; case CV_8SC1: return ((schar*)m.data)[i]!=127&&((schar*)m.data)[i]>=0; case CV_16UC1: return ((ushort*)m.data)[i]!=65535; case CV_16SC1: return ((short*)m.data)[i]!=32767&&((short*)m.data)[i]>=0; case CV_32SC1: return ((int*)m.data)[i]!=INT_MAX&&((int*)m.data)[i]>=0; default: return ((float*)m.data)[i]!=FLT_MAX&&((float*)m.data)[i]>=0; } }
HARNESS(h_disp){
    const int N=2; alignas(16) uint8_t d[16]={1,2,3,4,5,6,7,8},g[16]={2,2,2,2,2,2,2,2}; uint8_t roi[N]={1,1}; bool useGT=lv_choice(0,1,"useGT"),useROI=lv_choice(0,1,"useROI"); int t=lv_choice(0,5,"t"),u=lv_choice(0,5,"u"); int w=lv_choice(1,2,"w"),h=N/w;
    int fp=lv_choice(0,1,"free"); { size_t es=CV_ELEM_SIZE(ST[t]),eg=CV_ELEM_SIZE(ST[u]); lv_fill(d+fp*es,es,"d"); lv_fill(g+fp*eg,eg,"g"); lv_fill(roi+fp,1,"roi"); }
    cv::Mat D(h,w,ST[t],d),G,R; if(useGT) G=cv::Mat(h,w,ST[u],g); else if(u) return; if(useROI) R=cv::Mat(h,w,CV_8UC1,roi);
    if(t==5) for(int i=0;i<N;++i){ float f=((float*)d)[i]; lv_assume(f==f); } if(u==5) for(int i=0;i<N;++i){ float f=((float*)g)[i]; lv_assume(f==f); }
    lv::StereoDispErrors e; uint64_t dc0=lv_any<uint64_t>("dc0"); lv_assume(dc0<(1ull<<60)); e.nDC=dc0; e.vErrors.push_back(7.f); e.accumulate(D,G,R);
    size_t k=1; uint64_t dc=dc0; CHECK(e.vErrors[0]==7.f,"earlier errors are kept");
    for(int i=0;i<N;++i){ bool v=useGT&&valid(G,i)&&(!useROI||roi[i]!=0); if(!v){ ++dc; continue; } CHECK(k<e.vErrors.size(),"one error per evaluated pixel"); float q=e.vErrors[k++];
        float ex=std::abs(rd(D,i)-rd(G,i)); CHECK(q==ex||ex!=ex,"error is the absolute disparity difference"); }
    CHECK(k==e.vErrors.size()&&e.nDC==dc,"pixels without valid ground truth or outside the ROI are not evaluated"); CHECK(e.total()==e.vErrors.size()&&e.total(true)==e.vErrors.size()+dc,"totals"); lv_cover("end"); }
HARNESS(h_disp_reject){
    alignas(16) uint8_t d[3][64]; lv_fill(d[0],192,"d"); cv::Mat I(2,3,CV_16UC1,d[0]),G(2,3,CV_32FC1,d[1]),R(2,3,CV_8UC1,d[2]); int k=lv_choice(0,11,"k");
    switch(k){ case 0: break; case 1: I=cv::Mat(); break; case 2: I=cv::Mat(2,3,CV_64FC1,d[0]); break; case 3: I=cv::Mat(2,4,CV_8UC1,d[0]).colRange(0,3); break; case 4: G=cv::Mat(2,3,CV_8UC3,d[1]); break; case 5: G=cv::Mat(2,4,CV_8UC1,d[1]).colRange(1,4); break; case 6: G=cv::Mat(2,4,CV_8UC1,d[1]); break; case 7: R=cv::Mat(2,3,CV_8SC1,d[2]); break; case 8: R=cv::Mat(2,4,CV_8UC1,d[2]).colRange(1,4); break; case 9: R=cv::Mat(2,4,CV_8UC1,d[2]); break; case 10: G=cv::Mat(3,2,CV_8UC1,d[1]); break; default: R=cv::Mat(3,2,CV_8UC1,d[2]); }
    for(int i=0;i<192;++i) d[0][i]&=3; lv::StereoDispErrors e; bool thr=false; try { e.accumulate(I,G,R); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(k!=0),"maps of the wrong type, layout or size are rejected"); CHECK(e.total(true)==(k==0?6u:0u),"a rejected map changes nothing"); lv_cover("end"); }
static lv::StereoDispErrors symErr(int n,uint8_t* v){ lv::StereoDispErrors e; lv_fill(v,3,"e"); e.nDC=v[2]; for(int i=0;i<n;++i) e.vErrors.push_back((float)v[i]); return e; }
HARNESS(h_disp_merge){
    int n=lv_choice(0,2,"n"),m=lv_choice(0,2,"m"); uint8_t x[3],y[3]; lv::StereoDispErrors a=symErr(n,x),b=symErr(m,y); bool eq=n==m&&x[2]==y[2]; for(int i=0;i<n&&i<m;++i) eq=eq&(x[i]==y[i]); CHECK(a.isEqual(b)==eq,"error list equality");
    typedef lv::StereoDispMetricsAccumulator A; int s=lv_choice(0,2,"s"),s2=lv_choice(1,2,"s2"); auto pa=lv::IIMetricsAccumulator::create<A>((size_t)s),pb=lv::IIMetricsAccumulator::create<A>((size_t)s2); if(s) pa->m_vErrorLists[0]=a; pb->m_vErrorLists[s2-1]=b; pb->m_vsStreamNames[0]="q"; bool thr=false; bool named=s&&lv_choice(0,1,"named"); if(named) pa->m_vsStreamNames[0]="p";
    if(s==1&&s2==1) CHECK(pa->isEqual(pb)==eq,"accumulator equality"); if(s!=s2) CHECK(!pa->isEqual(pb),"different stream counts are not equal");
    try { pa->accumulate(pb); } catch(const lv::Exception&){ thr=true; } CHECK(thr==(s!=0&&s!=s2),"stream counts must match unless nothing was accumulated yet"); if(thr) return;
    CHECK((int)pa->m_vErrorLists.size()==s2&&(int)pa->m_vsStreamNames.size()==s2&&pa->m_vsStreamNames[0]==(named?"p":"q"),"streams and names");
    for(int k=0;k<s2;++k){ std::vector<int> e; int dc=0; if(s&&k==0){ for(int i=0;i<n;++i) e.push_back(x[i]); dc+=x[2]; } if(k==s2-1){ for(int i=0;i<m;++i) e.push_back(y[i]); dc+=y[2]; } auto& q=pa->m_vErrorLists[k]; CHECK(q.vErrors.size()==e.size()&&q.nDC==(uint64_t)dc,"per-stream counts add up"); for(size_t i=0;i<e.size();++i) CHECK(q.vErrors[i]==(float)e[i],"per-stream errors are appended"); }
    auto r=pa->reduce(); size_t tot=0; for(auto& q:pa->m_vErrorLists){ for(float f:q.vErrors) CHECK(r.vErrors[tot++]==f,"reduction lists every stream's errors"); } CHECK(r.vErrors.size()==tot,"reduction adds nothing"); lv_cover("end"); }
// ---- C13
typedef lv::BinClassifMetrics BM; typedef lv::StereoDispErrorMetrics SM;
static bool near(double a,double b){ return a==b||std::fabs(a-b)<=1e-9; }
static bool near(double a,double b,double s){ return a==b||std::fabs(a-b)<=s; }

static bool rel(double a,double b){ return a==b||std::fabs(a-b)<=1e-9*(1+std::fabs(b)); }
static void formulas(const BinClassif& m){
    double tp=(double)m.nTP,tn=(double)m.nTN,fp=(double)m.nFP,fn=(double)m.nFN; auto q=[](double n,double d){ return d>0?n/d:0.; };
    BM x(m); CHECK(rel(x.dRecall,q(tp,tp+fn))&&rel(BM::CalcRecall(m.nTP,m.nTP+m.nFN),q(tp,tp+fn)),"recall = TP/(TP+FN)"); CHECK(rel(x.dPrecision,q(tp,tp+fp))&&rel(BM::CalcPrecision(m.nTP,m.nTP+m.nFP),q(tp,tp+fp)),"precision = TP/(TP+FP)"); CHECK(rel(x.dSpecificity,q(tn,tn+fp)),"specificity = TN/(TN+FP)"); CHECK(rel(x.dFPR,q(fp,tn+fp)),"FPR = FP/(FP+TN)"); CHECK(rel(x.dFNR,q(fn,tp+fn)),"FNR = FN/(TP+FN)"); CHECK(rel(x.dPBC,100*q(fp+fn,tp+tn+fp+fn)),"PBC = 100(FP+FN)/total"); CHECK(rel(x.dFMeasure,q(2*tp,2*tp+fp+fn)),"F-measure = 2TP/(2TP+FP+FN)");
    double den=std::sqrt(tp+fp)*std::sqrt(tp+fn)*std::sqrt(tn+fp)*std::sqrt(tn+fn); CHECK(rel(x.dMCC,q(tp*tn-fp*fn,den)),"Matthews correlation coefficient");
    CHECK(x.dRecall>=0&&x.dRecall<=1&&x.dPrecision>=0&&x.dPrecision<=1&&x.dSpecificity>=0&&x.dSpecificity<=1&&x.dFPR>=0&&x.dFPR<=1&&x.dFNR>=0&&x.dFNR<=1&&x.dPBC>=0&&x.dPBC<=100&&x.dFMeasure>=0&&x.dFMeasure<=1&&x.dMCC>=-1.000001&&x.dMCC<=1.000001,"metrics stay in their documented range"); }
// all small counters
HARNESS(h_formulas){ BinClassif m; m.nTP=lv_concretize(lv_range(0,5,"tp")); m.nTN=lv_concretize(lv_range(0,5,"tn")); m.nFP=lv_concretize(lv_range(0,5,"fp")); m.nFN=lv_concretize(lv_range(0,5,"fn")); m.nSE=lv_any<uint64_t>("se"); m.nDC=lv_any<uint64_t>("dc"); formulas(m); lv_cover("end"); }
// realistic totals: whole datasets of 4k video
HARNESS(h_formulas_big){ static const uint64_t V[5]={0,7,2000003,4294967311ull,1099511627776ull}; BinClassif m; m.nTP=V[lv_choice(0,4,"tp")]; m.nTN=V[lv_choice(0,4,"tn")]; m.nFP=V[lv_choice(0,4,"fp")]; m.nFN=V[lv_choice(0,4,"fn")]; formulas(m); lv_cover("end"); }
// zero denominators never produce NaN or infinity, whatever the other counters
HARNESS(h_zero){ BinClassif m=symCounters("m"); int k=lv_choice(0,3,"k"); if(k==0){ m.nTP=m.nFN=0; } else if(k==1){ m.nTP=m.nFP=0; } else if(k==2){ m.nTN=m.nFP=0; } else { m.nTN=m.nFN=0; }
    if(k==0) CHECK(BM::CalcRecall(m)==0&&BM::CalcFalseNegativeRate(m)==0&&BM::CalcRecall(0,0)==0,"no positives: recall is 0"); if(k==1) CHECK(BM::CalcPrecision(m)==0&&BM::CalcPrecision(0,0)==0,"no detections: precision is 0"); if(k==2) CHECK(BM::CalcSpecificity(m)==0&&BM::CalcFalsePositiveRate(m)==0,"no negatives: specificity is 0"); if(k<=1) CHECK(BM::CalcFMeasure(m)==0,"F-measure is 0"); CHECK(BM::CalcMatthewsCorrCoeff(m)==0,"MCC is 0 when a class is empty"); BinClassif z; z.nDC=m.nDC; z.nSE=m.nSE; CHECK(BM::CalcPercentBadClassifs(z)==0,"nothing evaluated: PBC is 0"); CHECK(BM::CalcFMeasure(0.,0.)==0,"F-measure is 0"); lv_cover("end"); }
// disparity metrics: counts over symbolic (quarter-pixel) errors
HARNESS(h_disp_bad){ int n=lv_choice(0,3,"n"); std::vector<float> v; uint8_t e[3]; lv_fill(e,3,"e"); for(int i=0;i<n;++i){ lv_assume(e[i]<=40); v.push_back(e[i]*0.125f); } static const float M[4]={0.5f,1.f,2.f,4.f}; for(int k=0;k<4;++k){ int bad=0; for(int i=0;i<n;++i) bad+=e[i]>(int)(M[k]*8); double p=SM::CalcPercentBad(v,M[k]); double x=0; for(int c=1;c<=3;++c) if(bad==c) x=100.*c/(n?n:1); CHECK(p==x||std::fabs(p-x)<1e-4,"percentage of errors strictly above the margin"); } lv_cover("end"); }
HARNESS(h_disp_avg){ static const float V[5]={0.f,0.25f,1.f,2.5f,100.f}; int n=lv_choice(0,3,"n"); lv::StereoDispErrors e; e.nDC=lv_any<uint64_t>("dc"); double s=0,s2=0; int b[4]={}; static const float M[4]={0.5f,1.f,2.f,4.f}; for(int i=0;i<n;++i){ float f=V[lv_concretize(lv_range(0,4,"v"))]; e.vErrors.push_back(f); s+=f; s2+=(double)f*f; for(int k=0;k<4;++k) b[k]+=f>M[k]; } SM m(e); double d=n?n:1; CHECK(rel(m.dAverageError,s/d),"average error"); CHECK(rel(m.dRMS,std::sqrt(s2/d)),"root mean square error"); const double p[4]={m.dBadPercent_05,m.dBadPercent_1,m.dBadPercent_2,m.dBadPercent_4}; for(int k=0;k<4;++k) CHECK(std::fabs(p[k]-100.*b[k]/d)<1e-4,"bad percentages use margins 0.5, 1, 2 and 4"); lv_cover("end"); }
// averaging of calculators: each contribution has the same weight, in every association
static void setB(BM& m,int v){ double* f[8]={&m.dRecall,&m.dSpecificity,&m.dFPR,&m.dFNR,&m.dPBC,&m.dPrecision,&m.dFMeasure,&m.dMCC}; for(int i=0;i<8;++i) *f[i]=v*(i+1); }
static bool chkB(const BM& m,double v){ const double f[8]={m.dRecall,m.dSpecificity,m.dFPR,m.dFNR,m.dPBC,m.dPrecision,m.dFMeasure,m.dMCC}; bool r=true; for(int i=0;i<8;++i) r=r&&rel(f[i],v*(i+1)); return r; }
static void setS(SM& m,int v){ double* f[6]={&m.dBadPercent_05,&m.dBadPercent_1,&m.dBadPercent_2,&m.dBadPercent_4,&m.dAverageError,&m.dRMS}; for(int i=0;i<6;++i) *f[i]=v*(i+1); }
static bool chkS(const SM& m,double v){ const double f[6]={m.dBadPercent_05,m.dBadPercent_1,m.dBadPercent_2,m.dBadPercent_4,m.dAverageError,m.dRMS}; bool r=true; for(int i=0;i<6;++i) r=r&&rel(f[i],v*(i+1)); return r; }
template<typename F,typename G> static void averaging(F mk,G val){ int a[4]; for(int i=0;i<4;++i) a[i]=lv_concretize(lv_range(0,3,"a"))*(i==2?5:1); int k=lv_choice(0,2,"assoc"); auto p0=mk(a[0]),p1=mk(a[1]),p2=mk(a[2]),p3=mk(a[3]);
    if(k==0){ p0->accumulate(p1); p0->accumulate(p2); CHECK(val(*p0,(a[0]+a[1]+a[2])/3.),"running average of three"); *p0+=*p3; } else if(k==1){ p0->accumulate(p1); p2->accumulate(p3); p0->accumulate(p2); } else { p1->accumulate(p2); p1->accumulate(p3); auto r=p0->accumulate(p1); CHECK(r.get()==p0.get(),"accumulation returns the target"); }
    CHECK(val(*p0,(a[0]+a[1]+a[2]+a[3])/4.),"average of four, in any association"); if(k==0) CHECK(val(*p3,a[3]),"the source is unchanged"); }
HARNESS(h_avg_bin){ BinClassif z; averaging([&](int v){ BM m(z); setB(m,v); return lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(m); },[](const lv::BinClassifMetricsCalculator& c,double v){ return chkB(c.m_oMetrics,v); }); lv_cover("end"); }
HARNESS(h_avg_arr){ BinClassif z; averaging([&](int v){ BM m(z),n(z); setB(m,v); setB(n,v+2); std::vector<BM> vm{m,n}; std::vector<std::string> vs(2); return lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(vm,vs); },[](const lv::BinClassifMetricsArrayCalculator& c,double v){ return chkB(c.m_vMetrics[0],v)&&chkB(c.m_vMetrics[1],v+2)&&chkB(c.reduce()->m_oMetrics,v+1); }); lv_cover("end"); }
HARNESS(h_avg_disp){ lv::StereoDispErrors z; averaging([&](int v){ SM m(z),n(z); setS(m,v); setS(n,v+2); std::vector<SM> vm{m,n}; std::vector<std::string> vs(2); return lv::IIMetricsCalculator::create<lv::StereoDispMetricsCalculator>(vm,vs); },[](const lv::StereoDispMetricsCalculator& c,double v){ return chkS(c.m_vMetrics[0],v)&&chkS(c.m_vMetrics[1],v+2)&&chkS(c.reduce(),v+1); }); lv_cover("end"); }
// calculators take over every stream of an accumulator, and reject mismatched arrays
HARNESS(h_calc){ int k=lv_choice(0,2,"k"); uint64_t s=lv_any<uint8_t>("s");
    if(k==0){ auto p=lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(); p->m_oCounters.nTP=3; p->m_oCounters.nFN=1; p->m_oCounters.nDC=s; auto c=lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(lv::IIMetricsAccumulatorConstPtr(p)); CHECK(c->m_oMetrics.dRecall==0.75&&c->m_oMetrics.dFNR==0.25,"metrics of the accumulated counters"); auto c2=lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(p->m_oCounters); CHECK(c2->m_oMetrics.dRecall==0.75,"metrics of the counters"); }
    else if(k==1){ auto p=lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>((size_t)2); p->m_vCounters[0].nTP=1; p->m_vCounters[0].nFN=1; p->m_vCounters[1].nTP=1; p->m_vCounters[1].nFN=3; p->m_vsStreamNames[1]="x"; auto c=lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(lv::IIMetricsAccumulatorConstPtr(p)); CHECK(c->m_vMetrics.size()==2&&c->m_vMetrics[0].dRecall==0.5&&c->m_vMetrics[1].dRecall==0.25&&c->m_vsStreamNames.size()==2&&c->m_vsStreamNames[1]=="x","metrics of every stream"); std::vector<BM> vm(1,c->m_vMetrics[0]); std::vector<std::string> v1(1),v2(2); auto d=lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(vm,v1); bool t=false,t2=false; try { c->accumulate(d); } catch(const lv::Exception&){ t=true; } try { lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(vm,v2); } catch(const lv::Exception&){ t2=true; } CHECK(t&&t2,"mismatched arrays are rejected"); std::vector<BM> v0; std::vector<std::string> w0; auto e=lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(v0,w0); bool t3=false; try { e->reduce(); } catch(const lv::Exception&){ t3=true; } CHECK(t3,"nothing to reduce"); }
    else { auto p=lv::IIMetricsAccumulator::create<lv::StereoDispMetricsAccumulator>((size_t)2); p->m_vErrorLists[0].vErrors={3.f}; p->m_vErrorLists[1].vErrors={1.f,0.f}; p->m_vErrorLists[1].nDC=s; auto c=lv::IIMetricsCalculator::create<lv::StereoDispMetricsCalculator>(lv::IIMetricsAccumulatorConstPtr(p)); CHECK(c->m_vMetrics.size()==2&&c->m_vMetrics[0].dAverageError==3.&&c->m_vMetrics[1].dAverageError==0.5&&c->m_vMetrics[1].dBadPercent_05==50.,"metrics of every stream"); std::vector<SM> vm(1,c->m_vMetrics[0]); std::vector<std::string> v1(1),v2(2); auto d=lv::IIMetricsCalculator::create<lv::StereoDispMetricsCalculator>(vm,v1); bool t=false,t2=false; try { c->accumulate(d); } catch(const lv::Exception&){ t=true; } try { lv::IIMetricsCalculator::create<lv::StereoDispMetricsCalculator>(vm,v2); } catch(const lv::Exception&){ t2=true; } CHECK(t&&t2,"mismatched arrays are rejected"); }
    lv_cover("end"); }
// larger maps: fixed contents, one free pixel
static int bpat(int i,int k){ unsigned h=(unsigned)i*2654435761u+(unsigned)k*40503u; h^=h>>15; h*=2246822519u; h^=h>>13; return (int)(h&255); }
HARNESS(h_bc_big){ const int H=7,W=53,N=H*W; static const uint8_t GV[6]={0,50,85,170,255,33}; std::vector<uint8_t> in(N),gt(N),roi(N); for(int i=0;i<N;++i){ in[i]=bpat(i,1)<128?255:(uint8_t)bpat(i,1); gt[i]=GV[bpat(i,2)%6]; roi[i]=bpat(i,3)<60?0:(uint8_t)bpat(i,3); } static const int P[6]={0,1,52,53,200,370}; int p=P[lv_choice(0,5,"p")]; in[p]=lv_any<uint8_t>("in"); gt[p]=lv_any<uint8_t>("gt"); roi[p]=lv_any<uint8_t>("roi"); bool useROI=lv_choice(0,1,"useROI")!=0; cv::Mat I(H,W,CV_8UC1,in.data()),G(H,W,CV_8UC1,gt.data()),R; if(useROI) R=cv::Mat(H,W,CV_8UC1,roi.data()); BinClassif c,e; c.accumulate(I,G,R); cv::Mat O=BinClassif::getColoredMask(I,G,R);
    bool ok=O.rows==H&&O.cols==W&&O.type()==CV_8UC3; CHECK(ok,"coloured mask has the input's size (large map)"); for(int i=0;i<N;++i){ bool dc=gt[i]==85||gt[i]==170||(useROI&&roi[i]==0),q=in[i]==255,g=gt[i]==255; e.nDC+=dc; e.nTP+=!dc&q&g; e.nFP+=!dc&q&!g; e.nFN+=!dc&!q&g; e.nTN+=!dc&!q&!g; e.nSE+=!dc&q&(gt[i]==50);
        auto o=O.at<cv::Vec3b>(i/W,i%W); int x=in[i],t=gt[i]; bool out=useROI&&roi[i]==0,unk=t==85||t==170; int b=0,gr=0,r=0; if(!out&&unk) b=gr=r=x; else if(out) b=gr=r=127; else if(x==255){ if(t==255) gr=255; else if(t==0) r=255; else if(t==50){ gr=127; r=255; } else b=gr=r=85; } else if(t==255){ b=127; r=255; } ok=ok&(o[0]==b)&(o[1]==gr)&(o[2]==r); }
    CHECK(ok,"pixel colour encodes its classification (large map)"); CHECK(eqC(c,e),"each pixel is counted once, in its class (large map)"); lv_cover("end"); }
HARNESS(h_disp_big){ const int H=5,W=23,N=H*W; int t=lv_choice(0,2,"t"); const int TY=t==0?CV_8UC1:t==1?CV_16SC1:CV_32FC1; cv::Mat D(H,W,TY),G(H,W,TY); std::vector<uint8_t> roi(N); auto set=[&](cv::Mat& m,int i,int v){ if(t==0) m.data[i]=(uint8_t)v; else if(t==1) ((short*)m.data)[i]=(short)v; else ((float*)m.data)[i]=(float)v; }; for(int i=0;i<N;++i){ set(D,i,bpat(i,4)/4+(i%9==0?(t==0?192:-200):0)); set(G,i,bpat(i,5)/4); if(i%11==3){ if(t==0) G.data[i]=255; else if(t==1) ((short*)G.data)[i]=32767; else ((float*)G.data)[i]=-1.f; } roi[i]=bpat(i,6)<60?0:(uint8_t)bpat(i,6); } static const int P[4]={0,22,60,114}; int p=P[lv_choice(0,3,"p")]; set(D,p,lv_choice(0,3,"v")*9); roi[p]=lv_any<uint8_t>("roi"); bool useROI=lv_choice(0,1,"useROI")!=0; cv::Mat R; if(useROI) R=cv::Mat(H,W,CV_8UC1,roi.data()); lv::StereoDispErrors e; e.accumulate(D,G,R); std::vector<float> x; uint64_t dc=0; for(int i=0;i<N;++i){ bool u=valid(G,i)&&!(useROI&&roi[i]==0); if(u) x.push_back(std::abs(rd(D,i)-rd(G,i))); else ++dc; } CHECK(e.vErrors.size()==x.size()&&e.nDC==dc,"every pixel is evaluated or left out (large map)"); bool ok=true; for(size_t i=0;i<x.size()&&i<e.vErrors.size();++i) ok=ok&(e.vErrors[i]==x[i]); CHECK(ok,"absolute errors in scan order (large map)"); lv_cover("end"); }
