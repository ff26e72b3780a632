// C22: default data producers: images and video frames by index, ground truth through the index mapping, sizes and names.
#include "lvh.h"
#include "litiv/datasets.hpp"
#include <vector>
#include <string>
#include <map>
using namespace lv;
// ---- stand-ins for the file system, image codecs and video readers (nothing touches the disk)
static std::vector<std::string> g_files; static std::vector<std::pair<std::string,cv::Mat>> g_img; static std::vector<std::pair<std::string,std::vector<cv::Mat>>> g_vid;
static void reset(){ g_files.clear(); g_img.clear(); g_vid.clear(); }
static cv::Mat clone(const cv::Mat& m){ cv::Mat r; if(!m.empty()){ r.create(m.rows,m.cols,m.type()); for(int y=0;y<m.rows;++y) memcpy(r.ptr(y),m.ptr(y),m.cols*m.elemSize()); } return r; }
namespace lv {
std::vector<std::string> getFilesFromDir(const std::string&){ return g_files; }
void filterFilePaths(std::vector<std::string>& v,const std::vector<std::string>& rem,const std::vector<std::string>& keep){ std::vector<std::string> r; for(auto& p:v){ bool k=keep.empty(); for(auto& t:rem) if(!t.empty()&&p.find(t)!=std::string::npos) goto next; for(auto& t:keep) if(!t.empty()&&p.find(t)!=std::string::npos) k=true; if(k) r.push_back(p); next:; } v=r; }
bool createDirIfNotExist(const std::string&){ return true; }
std::string addDirSlashIfMissing(const std::string& s){ return s; }
bool checkIfExists(const std::string&){ return false; }
}
struct VC { const std::vector<cv::Mat>* v; size_t pos; };
static std::vector<std::pair<const cv::VideoCapture*,VC>> g_vc;
static VC& vc(const cv::VideoCapture* p){ for(auto& x:g_vc) if(x.first==p) return x.second; g_vc.push_back({p,VC{nullptr,0}}); return g_vc.back().second; }
namespace cv {
Mat imread(const String& p,int){ for(auto& x:g_img) if(x.first==p) return clone(x.second); return Mat(); }
VideoCapture::VideoCapture(){} VideoCapture::~VideoCapture(){ vc(this).v=nullptr; }
bool VideoCapture::open(const String& f,int){ VC& c=vc(this); c.v=nullptr; c.pos=0; for(auto& x:g_vid) if(x.first==f) c.v=&x.second; return c.v!=nullptr; }
bool VideoCapture::open(const String& f,int a,const std::vector<int>&){ return open(f,a); } bool VideoCapture::open(int,int){ return false; } bool VideoCapture::open(int,int,const std::vector<int>&){ return false; }
bool VideoCapture::isOpened() const { return vc(this).v!=nullptr; } void VideoCapture::release(){ vc(this).v=nullptr; } bool VideoCapture::grab(){ return false; } bool VideoCapture::retrieve(OutputArray,int){ return false; }
VideoCapture& VideoCapture::operator>>(UMat&){ return *this; }
VideoCapture& VideoCapture::operator>>(Mat& m){ VC& c=vc(this); if(c.v&&c.pos<c.v->size()) m=clone((*c.v)[c.pos++]); else m=Mat(); return *this; }
bool VideoCapture::read(OutputArray o){ VC& c=vc(this); if(c.v&&c.pos<c.v->size()){ o.assign(clone((*c.v)[c.pos++])); return true; } o.release(); return false; }
bool VideoCapture::set(int id,double x){ VC& c=vc(this); if(!c.v||id!=CAP_PROP_POS_FRAMES) return false; c.pos=x>(double)c.v->size()?c.v->size():(size_t)x; return true; }
double VideoCapture::get(int id) const { VC& c=vc(this); if(!c.v) return 0; return id==CAP_PROP_FRAME_COUNT?(double)c.v->size():id==CAP_PROP_POS_FRAMES?(double)c.pos:0; }
}
static const std::string g_s0;
#define COMMON \
    std::string m_n; const std::string& getName() const override { return m_n; } std::string m_path="/data/"; const std::string& getDataPath() const override { return m_path; } const std::string& getOutputPath() const override { return g_s0; } const std::string& getFeaturesPath() const override { return g_s0; } const std::string& getRelativePath() const override { return g_s0; } \
    std::vector<std::string> m_skip; const std::vector<std::string>& getSkipTokens() const override { return m_skip; } std::string printDataStructure(const std::string&) const override { return std::string(); } double m_scale=1; double getScaleFactor() const override { return m_scale; } IDataHandlerConstPtr getRoot() const override { return nullptr; } IDataHandlerConstPtr getParent() const override { return nullptr; } bool isRoot() const override { return true; } bool m_al=false; bool is4ByteAligned() const override { return m_al; } bool isSavingOutput() const override { return false; } bool isEvaluating() const override { return false; } \
    DatasetTaskList getDatasetTask() const override { return DatasetTaskList(0); } DatasetSourceList getDatasetSource() const override { return DatasetSourceList(0); } DatasetEvalList getDatasetEval() const override { return DatasetEvalList(0); } DatasetList getDataset() const override { return DatasetList(0); } void writeEvalReport() const override {}
#define LEAFCOMMON \
    bool isBare() const override { return false; } bool isGroup() const override { return false; } IDataHandlerPtrArray getBatches(bool) const override { return IDataHandlerPtrArray(); }
#define LOADCOMMON bool m_pr=false; double getCurrentProcessTime() const override { return 0; } double getFinalProcessTime() override { return 0; } void resetMetrics() override {} bool isProcessing() const override { return m_pr; } size_t getCurrentOutputCount() const override { return 0; } size_t getFinalOutputCount() override { return 0; }

static cv::Mat rnd(int h,int w,int t){ cv::Mat m(h,w,t); lv_fill(m.data,m.total()*m.elemSize(),"px"); return m; }
static bool expTr(const cv::Mat& in,int h,int w,int t,cv::Mat& out){ int c0=in.channels(),c1=CV_MAT_CN(t); if(!(c0==c1||(c0==3&&(c1==4||c1==1)))) return false; out.create(h,w,t); for(int y=0;y<h;++y) for(int x=0;x<w;++x){ const uchar* p=in.ptr<uchar>(y*in.rows/h)+(x*in.cols/w)*c0; uchar* q=out.ptr<uchar>(y)+x*c1; if(c0==c1) for(int c=0;c<c1;++c) q[c]=p[c]; else if(c1==4){ for(int c=0;c<3;++c) q[c]=p[c]; q[3]=255; } else q[0]=(uchar)((p[0]*3735+p[1]*19235+p[2]*9798+16384)>>15); } return true; }
static bool same(const cv::Mat& a,const cv::Mat& b){ if(a.empty()||b.empty()) return a.empty()==b.empty(); if(a.type()!=b.type()||a.rows!=b.rows||a.cols!=b.cols) return false; bool r=true; size_t n=a.cols*a.elemSize(); for(int y=0;y<a.rows;++y) for(size_t i=0;i<n;++i) r=r&(a.ptr<uchar>(y)[i]==b.ptr<uchar>(y)[i]); return r; }

template<DatasetSourceList S> struct Base : IDataProducer_<S> { typedef IDataProducer_<S> B; COMMON LEAFCOMMON LOADCOMMON size_t getExpectedOutputCount() const override { return 0; }
    Base(PacketPolicy g):B(g,g,NoMapping,NoMapping){} using B::m_mGTIndexLUT; };
struct Vid : Base<DatasetSource_Video> { Vid(PacketPolicy g=ImagePacket):Base(g){} using B::parseData; using B::m_vsInputPaths; using B::m_vsGTPaths; using B::m_oGTInfo; using B::m_oGTROI; using B::m_oInputROI; using B::isInputInfoConst; using B::getInputROI; using B::getGTROI; using B::getInputInfo; using B::getGTInfo; };
struct Img : Base<DatasetSource_Image> { Img(PacketPolicy g=ImagePacket):Base(g){} using B::parseData; using B::m_vsInputPaths; using B::m_vsGTPaths; using B::m_vGTInfos; };
template<DatasetSourceList S> struct ArrP : Base<S> { typedef IDataProducer_<S> B; size_t ni=2,ng=1; ArrP(PacketPolicy g=ImageArrayPacket):Base<S>(g){} void parseData() override {} using B::m_vvsInputPaths; using B::m_vvsGTPaths; size_t getInputStreamCount() const override { return ni; } size_t getGTStreamCount() const override { return ng; } };
struct VArr : ArrP<DatasetSource_VideoArray> { using ArrP::ArrP; typedef IDataProducer_<DatasetSource_VideoArray> B; using B::m_vInputInfos; using B::m_vGTInfos; using B::m_vInputROIs; using B::m_vGTROIs; using B::getInputROIArray; using B::getGTROIArray; using B::getInputInfoArray; using B::getGTInfoArray; };
struct IArr : ArrP<DatasetSource_ImageArray> { using ArrP::ArrP; typedef IDataProducer_<DatasetSource_ImageArray> B; using B::m_vvInputInfos; using B::m_vvGTInfos; };
static int sc(int n,double s){ return cv::saturate_cast<int>(n*s); }
// frames of a video file or of a directory, requested in any order, past the end included
template<int KIND> static void video(){ reset(); auto p=std::make_shared<Vid>(); p->m_path="/d"; int n=lv_choice(KIND==1?2:1,3,"frames"); bool col=lv_choice(0,1,"colour"); p->m_al=lv_choice(0,1,"align"); p->m_scale=lv_choice(0,1,"half")?0.5:1; std::vector<cv::Mat> F; for(int i=0;i<n;++i) F.push_back(rnd(2,4,col?CV_8UC3:CV_8UC1));
    static const char* N[]={"/d/f0","/d/f1","/d/f2"}; if(KIND==0) g_vid.push_back({"/d",F}); else if(KIND==2){ g_files.push_back("/d/v"); g_vid.push_back({"/d/v",F}); } else for(int i=0;i<n;++i){ g_files.push_back(N[i]); g_img.push_back({N[i],F[i]}); }
    int again=lv_choice(0,1,"parsed twice"); p->m_mGTIndexLUT[0]=0; p->parseData(); if(again){ p->getInput(0); p->parseData(); }
    int h=sc(2,p->m_scale),w=sc(4,p->m_scale),t=col?(p->m_al?CV_8UC4:CV_8UC3):CV_8UC1; CHECK(p->getInputCount()==(size_t)n&&p->getFrameCount()==(size_t)n,"one packet per frame"); CHECK(p->getGTCount()==0,"no ground truth before it is declared"); MatInfo inf(MatSize(h,w),t); CHECK(p->getInputInfo()==inf&&p->isInputInfoConst(),"announced frame size and type"); CHECK(p->getExpectedLoadSize()==(size_t)n*h*w*CV_ELEM_SIZE(t),"load size"); CHECK(p->getFrameROI().rows==h&&p->getFrameROI().cols==w&&cv::countNonZero(p->getFrameROI())==h*w,"the default ROI covers the frame");
    for(int r=0;r<3;++r){ size_t i=lv_choice(0,n+1,"req"); const cv::Mat& m=p->getInput(i); if(i>=(size_t)n){ CHECK(m.empty(),"no packet past the last frame"); CHECK(p->getInputInfo(i).size.empty()&&p->getInputROI(i).empty(),"nothing announced past the last frame"); } else { cv::Mat e; CHECK(expTr(F[i],h,w,t,e)&&same(m,e),"the requested frame, scaled and aligned as announced"); CHECK(p->getInputInfo(i)==inf,"info of the frame"); } } lv_cover("end"); }
HARNESS(h_pr_vid){ video<0>(); }
HARNESS(h_pr_dir){ video<1>(); }
HARNESS(h_pr_vid1){ video<2>(); }
HARNESS(h_pr_none){ reset(); int k=lv_choice(0,5,"kind"); auto p=std::make_shared<Vid>(); auto q=std::make_shared<Img>(); p->m_path="/d"; bool thr=false; if(k==1){ g_files.push_back("/d/x.txt"); } else if(k==2){ g_files.push_back("/d/a.txt"); g_files.push_back("/d/b.txt"); } else if(k==3){ g_vid.push_back({"/d",{}}); } else if(k>=4){ g_files.push_back("/d/a.png"); g_files.push_back("/d/b.png"); } try { if(k==5||k==0) q->parseData(); else p->parseData(); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"a batch without any readable frame is rejected"); lv_cover("end"); }
// ground truth through the index mapping
template<typename T> static void gtmap(T& p,int* map){ for(int i=0;i<3;++i){ map[i]=lv_choice(-1,2,"gt"); if(map[i]>=0) p.m_mGTIndexLUT[i]=map[i]; } }
HARNESS(h_pr_gt){ reset(); auto p=std::make_shared<Vid>(); auto q=std::make_shared<Img>(); cv::Mat G[2]; static const char* N[]={"/g/0.png","/g/1.png"}; bool im=lv_choice(0,1,"images"); for(int i=0;i<2;++i){ G[i]=rnd(1,2,CV_8UC1); g_img.push_back({N[i],G[i]}); p->m_vsGTPaths.push_back(N[i]); q->m_vsGTPaths.push_back(N[i]); } MatInfo inf(MatSize(2,2),CV_8UC1); p->m_oGTInfo=inf; q->m_vGTInfos.assign(2,inf); q->m_vGTInfos[1]=MatInfo(MatSize(1,4),CV_8UC1); p->m_oGTROI=cv::Mat(2,2,CV_8UC1,cv::Scalar(255)); int map[3],cnt=0; if(im) gtmap(*q,map); else gtmap(*p,map); for(int i=0;i<3;++i) cnt+=map[i]>=0; CHECK((im?q->getGTCount():p->getGTCount())==(size_t)cnt,"one ground truth packet per declared index");
    for(int r=0;r<3;++r){ int i=lv_choice(0,2,"req"); const cv::Mat& m=im?q->getGT(i):p->getGT(i); MatInfo gi=im?q->getGTInfo(i):p->getGTInfo(i); if(map[i]<0||map[i]>1){ CHECK(m.empty()&&gi.size.empty(),"no ground truth where none is declared"); if(!im) CHECK(p->getGTROI(i).empty(),"no ROI either"); } else { cv::Mat e; bool one=im&&map[i]==1; expTr(G[map[i]],one?1:2,one?4:2,CV_8UC1,e); CHECK(same(m,e),"the ground truth mapped to the requested index"); CHECK(gi==(one?MatInfo(MatSize(1,4),CV_8UC1):inf),"announced size of the mapped ground truth"); if(!im) CHECK(!p->getGTROI(i).empty(),"ROI of the mapped ground truth"); } } lv_cover("end"); }
HARNESS(h_pr_gt_bad){ reset(); int k=lv_choice(0,1,"img"); bool thr=false; try { if(k){ auto p=std::make_shared<Img>(UnspecifiedPacket); p->getGT(0); } else { auto p=std::make_shared<Vid>(UnspecifiedPacket); p->getGT(0); } } catch(const lv::Exception&){ thr=true; } CHECK(thr,"ground truth that is not an image needs its own loader"); lv_cover("end"); }
// image sets: unreadable and foreign files are left out; sizes may differ
HARNESS(h_pr_img){ reset(); auto p=std::make_shared<Img>(); p->m_al=lv_choice(0,1,"align"); p->m_scale=lv_choice(0,1,"half")?0.5:1; static const char* N[]={"/d/a.png","/d/b.x.jpg","c.bmp"}; static const char* NM[]={"a","b.x","c"}; int n=lv_choice(1,3,"files"); std::vector<int> ok; std::vector<cv::Mat> F; bool txt=lv_choice(0,1,"foreign"); if(txt){ g_files.push_back("/d/readme"); g_img.push_back({"/d/readme",cv::Mat(2,2,CV_8UC1,cv::Scalar(1))}); } for(int i=0;i<n;++i){ g_files.push_back(N[i]); int k=lv_choice(0,3,"kind"); cv::Mat m; if(k==1) m=rnd(2,2,CV_8UC1); else if(k==2) m=rnd(2,2,CV_8UC3); else if(k==3) m=rnd(4,2,CV_8UC1); if(k){ ok.push_back(i); F.push_back(m); g_img.push_back({N[i],m}); } }
    bool thr=false; try { p->parseData(); } catch(const lv::Exception&){ thr=true; } CHECK(thr==ok.empty(),"rejected exactly without any readable image"); if(thr){ lv_cover("end"); return; } size_t c=ok.size(),load=0; bool cst=true; CHECK(p->getInputCount()==c&&p->getImageCount()==c,"one packet per readable image");
    for(size_t i=0;i<c;++i){ int h=sc(F[i].rows,p->m_scale),w=sc(F[i].cols,p->m_scale),t=F[i].channels()==3&&p->m_al?CV_8UC4:F[i].type(); MatInfo inf(MatSize(h,w),t); CHECK(p->getInputInfo(i)==inf,"announced size and type"); CHECK(p->getInputName(i)==NM[ok[i]],"packet name"); load+=h*w*CV_ELEM_SIZE(t); cst=cst&&(i==0||p->getInputInfo(i)==p->getInputInfo(0)); } CHECK(p->getExpectedLoadSize()==load,"load size"); CHECK(p->isInputInfoConst()==cst,"constant exactly when all images have the same size and type"); CHECK(p->getInputInfo(c).size.empty(),"nothing announced past the end");
    for(int r=0;r<2;++r){ size_t i=lv_choice(0,c,"req"); const cv::Mat& m=p->getInput(i); if(i==c) CHECK(m.empty(),"no packet past the end"); else { cv::Mat e; MatInfo f=p->getInputInfo(i); CHECK(expTr(F[i],f.size.size(0),f.size.size(1),f.type(),e)&&same(m,e),"the requested image"); } } lv_cover("end"); }
// arrays of streams
template<typename T> static void arrFill(T& p,cv::Mat (&F)[2][2],cv::Mat (&G)[2]){ static const char* N[2][2]={{"/a/0","/b/0"},{"/a/1","/b/1"}}; static const char* H[]={"/g/0","/g/1"}; for(int i=0;i<2;++i){ p.m_vvsInputPaths.push_back({N[i][0],N[i][1]}); p.m_vvsGTPaths.push_back({H[i]}); for(int s=0;s<2;++s){ F[i][s]=s?rnd(1,2,CV_8UC1):rnd(2,1,CV_8UC3); g_img.push_back({N[i][s],F[i][s]}); } G[i]=rnd(1,3,CV_8UC1); g_img.push_back({H[i],G[i]}); } }
template<typename T> static void arrReq(T& p,cv::Mat (&F)[2][2],cv::Mat (&G)[2]){ int map[3],cnt=0; gtmap(p,map); for(int i=0;i<3;++i) cnt+=map[i]>=0; CHECK(p.getInputCount()==2&&p.getGTCount()==(size_t)cnt,"packet counts"); CHECK(p.getExpectedLoadSize()==2*(2*3+2),"load size sums every stream"); size_t i=lv_choice(0,2,"req"); const std::vector<cv::Mat>& v=p.getInputArray(i); CHECK(v.size()==2,"one matrix per stream"); for(int s=0;s<2;++s){ if(i<2) CHECK(same(v[s],F[i][s]),"the requested packet of every stream"); else CHECK(v[s].empty(),"nothing past the end"); } size_t j=lv_choice(0,2,"gtreq"); const std::vector<cv::Mat>& g=p.getGTArray(j); CHECK(g.size()==1,"one ground truth matrix per stream"); if(map[j]<0||map[j]>1) CHECK(g[0].empty(),"no ground truth where none is declared"); else CHECK(same(g[0],G[map[j]]),"the ground truth mapped to the requested index"); }
HARNESS(h_pr_varr){ reset(); auto p=std::make_shared<VArr>(); cv::Mat F[2][2],G[2]; arrFill(*p,F,G); p->m_vInputInfos={MatInfo(MatSize(2,1),CV_8UC3),MatInfo(MatSize(1,2),CV_8UC1)}; p->m_vGTInfos={MatInfo(MatSize(1,3),CV_8UC1)}; p->m_vInputROIs={cv::Mat(2,1,CV_8UC1,cv::Scalar(255)),cv::Mat()}; p->m_vGTROIs={cv::Mat(1,3,CV_8UC1,cv::Scalar(255))}; arrReq(*p,F,G); CHECK(p->getFrameSizeArray().size()==2&&p->getFrameSizeArray()[0]==cv::Size(1,2),"frame sizes"); CHECK(p->getInputROIArray(1).size()==2&&!p->getInputROIArray(1)[0].empty()&&p->getInputROIArray(2).size()==2&&p->getInputROIArray(2)[0].empty(),"ROIs of existing packets only"); CHECK(p->getGTROIArray(5).size()==1&&p->getGTROIArray(5)[0].empty(),"no ROI without ground truth"); bool thr=false; p->m_vInputROIs.pop_back(); try { p->getExpectedLoadSize(); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"inconsistent stream counts are rejected"); lv_cover("end"); }
HARNESS(h_pr_iarr){ reset(); auto p=std::make_shared<IArr>(); cv::Mat F[2][2],G[2]; arrFill(*p,F,G); p->m_vvInputInfos.assign(2,{MatInfo(MatSize(2,1),CV_8UC3),MatInfo(MatSize(1,2),CV_8UC1)}); p->m_vvGTInfos.assign(2,{MatInfo(MatSize(1,3),CV_8UC1)}); arrReq(*p,F,G); bool thr=false; p->getInputArray(0); p->m_vvsInputPaths[1].pop_back(); try { p->getInputArray(1); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"inconsistent stream counts are rejected"); lv_cover("end"); }
