// C20: batches and groups: counting, aggregation, parsing, and packet loading with automatic transformations.
#include "lvh.h"
#include "litiv/datasets.hpp"
#include <vector>
#include <string>
using namespace lv;
// ---- file system stand-ins (nothing touches the disk)
static std::vector<std::string> g_dirs; static std::vector<std::string> g_made; static std::string g_asked;
namespace lv {
std::vector<std::string> getSubDirsFromDir(const std::string& d){ g_asked=d; return g_dirs; }
bool createDirIfNotExist(const std::string& d){ g_made.push_back(d); return true; }
std::string addDirSlashIfMissing(const std::string& s){ if(s.empty()) return std::string(); if(s.back()=='/'||s.back()=='\\') return s; return s+"/"; }
bool checkIfExists(const std::string&){ return false; }
}
static const std::string g_s0;
#define COMMON \
    std::string m_n; const std::string& getName() const override { return m_n; } const std::string& getDataPath() const override { return g_s0; } const std::string& getOutputPath() const override { return g_s0; } const std::string& getFeaturesPath() const override { return g_s0; } const std::string& getRelativePath() const override { return g_s0; } \
    std::vector<std::string> m_skip; const std::vector<std::string>& getSkipTokens() const override { return m_skip; } std::string printDataStructure(const std::string&) const override { return std::string(); } double getScaleFactor() const override { return 1; } IDataHandlerConstPtr getRoot() const override { return shared_from_this(); } IDataHandlerConstPtr getParent() const override { return nullptr; } bool isRoot() const override { return true; } bool is4ByteAligned() const override { return false; } bool isSavingOutput() const override { return false; } bool isEvaluating() const override { return false; } \
    DatasetTaskList getDatasetTask() const override { return DatasetTaskList(0); } DatasetSourceList getDatasetSource() const override { return DatasetSourceList(0); } DatasetEvalList getDatasetEval() const override { return DatasetEvalList(0); } DatasetList getDataset() const override { return DatasetList(0); } void writeEvalReport() const override {}
#define LEAFCOMMON \
    bool isBare() const override { return false; } bool isGroup() const override { return false; } IDataHandlerPtrArray getBatches(bool) const override { return IDataHandlerPtrArray(); } void parseData() override { ++m_parsed; } int m_parsed=0;
#define COUNTS uint32_t m_c[5]={}; size_t getExpectedLoadSize() const override { return m_c[0]; } size_t getInputCount() const override { return m_c[1]; } size_t getGTCount() const override { return m_c[2]; } size_t getExpectedOutputCount() const override { return m_c[3]; }
struct Leaf : IDataCounter { COMMON LEAFCOMMON COUNTS
    double m_t=0; bool m_pr=false,m_pc=false; int m_resets=0,m_starts=0,m_stops=0; size_t m_bs=0; bool m_io=false;
    double getCurrentProcessTime() const override { return m_t; } double getFinalProcessTime() override { return m_t*2; } void resetMetrics() override { ++m_resets; } bool isProcessing() const override { return m_pr; } bool isPrecaching() const override { return m_pc; } void startPrecaching(bool b,size_t n) override { ++m_starts; m_io=b; m_bs=n; } void stopPrecaching() override { ++m_stops; }
    using IDataCounter::countOutput; using IDataCounter::setOutputCountPromise; using IDataCounter::resetOutputCount; };
struct Grp : DataGroupHandler { COMMON using DataGroupHandler::m_vpBatches; using DataGroupHandler::m_bIsBare; using DataGroupHandler::parseData; mutable std::vector<std::string> m_cn,m_cp; IDataHandlerPtr createWorkBatch(const std::string& a,const std::string& b) const override { m_cn.push_back(a); m_cp.push_back(b); auto p=std::make_shared<Leaf>(); p->m_n=a; return p; } };
// counters: every history of count / stop / reset / read
HARNESS(h_cnt_hist){ auto pl=std::make_shared<Leaf>(); Leaf& l=*pl; bool in[3]={false,false,false}; bool stopped=false; size_t fin=0; for(int k=0;k<4;++k){ int op=lv_choice(0,3,"op"); size_t n=in[0]+in[1]+in[2]; if(op==0){ int i=lv_choice(0,2,"idx"); l.countOutput(i*1000003ull); in[i]=true; } else if(op==1){ if(stopped) continue; l.setOutputCountPromise(); stopped=true; fin=n; } else if(op==2){ l.resetOutputCount(); stopped=false; in[0]=in[1]=in[2]=false; } else if(stopped) CHECK(l.getFinalOutputCount()==fin,"the final count is the number of distinct packets when processing stopped"); CHECK(l.getCurrentOutputCount()==(size_t)(in[0]+in[1]+in[2]),"the current count is the number of distinct packets"); } lv_cover("end"); }
// a reader blocked on the final count is released with the right value
HARNESS(h_cnt_wait){ auto pl=std::make_shared<Leaf>(); Leaf& l=*pl; int n=lv_choice(0,2,"n"); struct C { Leaf* l; size_t r; } c{&l,77}; for(int i=0;i<n;++i) l.countOutput(i); int h=lv_spawn([](void* p){ C* c=(C*)p; c->r=c->l->getFinalOutputCount(); },&c); l.setOutputCountPromise(); lv_join(h); CHECK(c.r==(size_t)n,"waiting reader gets the final count"); l.resetOutputCount(); l.countOutput(9); l.setOutputCountPromise(); CHECK(l.getFinalOutputCount()==1&&l.getFinalOutputCount()==1,"a second round is counted afresh"); lv_cover("end"); }
static std::shared_ptr<Leaf> mk(const char*){ auto p=std::make_shared<Leaf>(); lv_fill(p->m_c,5,"c"); p->m_pr=lv_choice(0,1,"pr"); p->m_pc=lv_choice(0,1,"pc"); p->m_t=lv_choice(0,2,"t"); return p; }
// groups of up to 3 leaves in every nesting over two levels
HARNESS(h_grp_sum){ auto g=std::make_shared<Grp>(); auto g2=std::make_shared<Grp>(); std::vector<std::shared_ptr<Leaf>> L; int n=lv_choice(0,2,"n"); int pos=lv_choice(-1,n,"nested"); uint64_t s[4]={}; bool pr=false,pc=false; double t=0; auto add=[&](Grp& x){ auto p=mk("l"); x.m_vpBatches.push_back(p); L.push_back(p); for(int i=0;i<4;++i) s[i]+=p->m_c[i]; pr|=p->m_pr; pc|=p->m_pc; t+=p->m_t; }; for(int i=0;i<=n;++i){ if(i==pos){ int m=lv_choice(0,1,"m"); for(int k=0;k<m;++k) add(*g2); g->m_vpBatches.push_back(g2); } if(i<n) add(*g); }
    CHECK(g->getExpectedLoadSize()==s[0]&&g->getInputCount()==s[1]&&g->getGTCount()==s[2]&&g->getExpectedOutputCount()==s[3],"group counts are the sums over all batches"); CHECK(g->isProcessing()==pr&&g->isPrecaching()==pc&&g->isGroup(),"a group is busy exactly when a batch is"); CHECK(g->getCurrentProcessTime()==t&&g->getFinalProcessTime()==t*2,"group times are sums");
    auto flat=g->getBatches(false); CHECK(flat.size()==L.size(),"flat list has every batch once"); for(size_t i=0;i<L.size();++i) CHECK(flat[i].get()==(IDataHandler*)L[i].get(),"flat list keeps the order"); CHECK(g->getBatches(true).size()==(size_t)(n+(pos>=0)),"hierarchical list");
    for(auto& l:L){ l->countOutput(3); l->countOutput(4); l->setOutputCountPromise(); } CHECK(g->getCurrentOutputCount()==2*L.size()&&g->getFinalOutputCount()==2*L.size(),"output counts are summed"); g->resetMetrics(); uint32_t bs=lv_any<uint32_t>("bs"); g->startPrecaching(false,bs); g->stopPrecaching(); for(auto& l:L) CHECK(l->m_resets==1&&l->m_starts==1&&l->m_stops==1&&l->m_bs==bs&&!l->m_io,"operations reach every batch once"); lv_cover("end"); }
// parsing: sub-directories, skip tokens, bare groups
HARNESS(h_grp_parse){ static const char* N[]={"a","bx","skipme"}; auto g=std::make_shared<Grp>(); g->m_n=lv_choice(0,1,"gn")?"groupskip":"group"; if(lv_choice(0,1,"tok")) g->m_skip.push_back("skip"); if(lv_choice(0,1,"tok2")) g->m_skip.push_back("b"); int n=lv_choice(0,2,"n"); int w[2]={}; g_dirs.clear(); const std::string pre=lv_choice(0,1,"prefix")?"/b/skips/":"/data/"; for(int i=0;i<n;++i){ w[i]=lv_choice(0,2,"d"); g_dirs.push_back(pre+N[w[i]]); } g->m_vpBatches.push_back(std::make_shared<Leaf>()); g->parseData();
    bool t1=false,t2=false; for(auto& x:g->m_skip){ t1|=x=="skip"; t2|=x=="b"; } bool gskip=(g->m_n=="groupskip")&&t1; std::vector<std::string> exp; if(!gskip){ if(n==0) exp.push_back(g->m_n); else for(int i=0;i<n;++i) if(!((w[i]==2&&t1)||(w[i]==1&&t2))) exp.push_back(N[w[i]]); } CHECK(g->m_cn==exp,"one batch per directory that is not skipped, in order"); CHECK(g->m_vpBatches.size()==exp.size(),"previous batches are dropped"); CHECK(g->isBare()==(gskip||n==0),"bare exactly without sub-directories"); for(size_t i=0;i<exp.size();++i){ CHECK(g->m_vpBatches[i]->getName()==exp[i],"batch name"); CHECK(g->m_cp[i]==(n==0?std::string():exp[i]+"/"),"relative path"); } lv_cover("end"); }
// ---- loaders
#define LOADCOMMON bool m_pr=false; double getCurrentProcessTime() const override { return 0; } double getFinalProcessTime() override { return 0; } void resetMetrics() override {} bool isProcessing() const override { return m_pr; } size_t getCurrentOutputCount() const override { return 0; } size_t getFinalOutputCount() override { return 0; }
struct One : IDataLoader_<NotArray> { COMMON LEAFCOMMON COUNTS LOADCOMMON
    cv::Mat in,gt; MatInfo ii,gi; int loads=0; One(PacketPolicy a,PacketPolicy b):IDataLoader_<NotArray>(a,b,a,NoMapping,NoMapping){}
    MatInfo getInputInfo(size_t) const override { return ii; } MatInfo getGTInfo(size_t) const override { return gi; } bool isInputInfoConst() const override { return true; } bool isGTInfoConst() const override { return true; }
    cv::Mat getRawInput(size_t) override { ++loads; return in; } cv::Mat getRawGT(size_t) override { return gt; } };
struct Arr : IDataLoader_<Array> { COMMON LEAFCOMMON COUNTS LOADCOMMON
    std::vector<cv::Mat> in[3],gt[3]; std::vector<MatInfo> ii[3],gi[3]; int loads=0; Arr(PacketPolicy a):IDataLoader_<Array>(a,a,a,NoMapping,NoMapping){} bool isInputInfoConst() const override { return true; } bool isGTInfoConst() const override { return true; }
    size_t getInputStreamCount() const override { return in[0].size(); } size_t getGTStreamCount() const override { return gt[0].size(); } std::vector<MatInfo> getInputInfoArray(size_t i) const override { return ii[i]; } std::vector<MatInfo> getGTInfoArray(size_t i) const override { return gi[i]; } std::vector<cv::Mat> getRawInputArray(size_t i) override { ++loads; return in[i]; } std::vector<cv::Mat> getRawGTArray(size_t i) override { return gt[i]; } };
static const int SZ[3][2]={{2,2},{1,2},{4,4}}; static const int TY[3]={CV_8UC1,CV_8UC3,CV_8UC4};
static cv::Mat rnd(int h,int w,int t){ cv::Mat m(h,w,t); lv_fill(m.data,m.total()*m.elemSize(),"px"); return m; }
// expected transformation: gray / alpha conversion then nearest-neighbour scaling, or rejection
static bool expTr(const cv::Mat& in,int h,int w,int t,cv::Mat& out){ int c0=in.channels(),c1=CV_MAT_CN(t); if(!(c0==c1||(c0==3&&(c1==4||c1==1)))) return false; out.create(h,w,t); for(int y=0;y<h;++y) for(int x=0;x<w;++x){ const uchar* p=in.ptr<uchar>(y*in.rows/h)+(x*in.cols/w)*c0; uchar* q=out.ptr<uchar>(y)+x*c1; if(c0==c1) for(int c=0;c<c1;++c) q[c]=p[c]; else if(c1==4){ for(int c=0;c<3;++c) q[c]=p[c]; q[3]=255; } else q[0]=(uchar)((p[0]*3735+p[1]*19235+p[2]*9798+16384)>>15); } return true; }
static bool same(const cv::Mat& a,const cv::Mat& b){ if(a.empty()||b.empty()) return a.empty()==b.empty(); if(a.type()!=b.type()||a.rows!=b.rows||a.cols!=b.cols) return false; bool r=true; size_t n=a.cols*a.elemSize(); for(int y=0;y<a.rows;++y) for(size_t i=0;i<n;++i) r=r&(a.ptr<uchar>(y)[i]==b.ptr<uchar>(y)[i]); return r; }
template<bool GT> static void one(){ int s=lv_choice(0,2,"raw size"),t=lv_choice(0,2,"raw type"),s2=lv_choice(0,2,"size"),t2=lv_choice(0,2,"type"); bool img=lv_choice(0,1,"img"); auto p=std::make_shared<One>(img?ImagePacket:UnspecifiedPacket,img?ImagePacket:UnspecifiedPacket); cv::Mat raw=rnd(SZ[s][0],SZ[s][1],TY[t]); cv::Mat keep=raw.clone(); MatInfo inf(MatSize(SZ[s2][0],SZ[s2][1]),TY[t2]); p->in=p->gt=raw; p->ii=p->gi=inf; cv::Mat exp; bool ok=img?expTr(raw,SZ[s2][0],SZ[s2][1],TY[t2],exp):(s==s2&&t==t2); if(ok&&!img) exp=keep; bool thr=false; try { const cv::Mat& r=GT?p->getGT(5):p->getInput(5); CHECK(ok,"a packet that cannot be brought to the announced size and type is rejected"); if(ok) CHECK(same(r,exp),"the packet has the announced size and type, and the expected content"); } catch(const lv::Exception&){ thr=true; } CHECK(thr==!ok,"rejected exactly when it cannot be transformed"); CHECK(same(raw,keep),"the raw packet is not modified"); lv_cover("end"); }
HARNESS(h_ld_in){ one<false>(); }
HARNESS(h_ld_gt){ one<true>(); }
HARNESS(h_ld_empty){ auto p=std::make_shared<One>(ImagePacket,ImagePacket); bool ei=lv_choice(0,1,"raw empty"),ee=lv_choice(0,1,"announced empty"); if(!ei) p->in=p->gt=rnd(2,2,CV_8UC1); p->ii=p->gi=ee?MatInfo():MatInfo(MatSize(2,2),CV_8UC1); bool t1=false,t2=false; try { CHECK(p->getInput(0).empty()==ei,"input"); } catch(...){ t1=true; } try { CHECK(p->getGT(0).empty()==ei,"gt"); } catch(...){ t2=true; } if(ei) CHECK(t1==!ee&&t2==!ee,"an unexpected empty packet is rejected"); else if(!ee) CHECK(!t1&&!t2,"a regular packet is returned"); CHECK(p->getInputROI(0).empty()&&p->getGTROI(0).empty(),"no ROI by default"); lv_cover("end"); }
// arrays: every stream transformed independently, and returned in order, for every request history with precaching off
template<bool GT> static void arr(){ auto p=std::make_shared<Arr>(ImageArrayPacket); int ns=lv_choice(1,2,"streams"); cv::Mat exp[3][2]; for(int i=0;i<3;++i) for(int s=0;s<ns;++s){ bool em=i==1&&s==0&&lv_choice(0,1,"empty stream"); int a=s==0?0:1,t=s==0?1:0; cv::Mat raw=em?cv::Mat():rnd(SZ[a][0],SZ[a][1],TY[t]); (GT?p->gt:p->in)[i].push_back(raw); int t2=s==0?(i==2?0:1):0; MatInfo inf=em?MatInfo(MatSize(),CV_8UC1):MatInfo(MatSize(2,2),TY[t2]); (GT?p->gi:p->ii)[i].push_back(inf); if(!em) expTr(raw,2,2,TY[t2],exp[i][s]); } for(int r=0;r<3;++r){ size_t i=lv_choice(0,2,"req"); const std::vector<cv::Mat>& v=GT?p->getGTArray(i):p->getInputArray(i); CHECK(v.size()==(size_t)ns,"one matrix per stream"); for(int s=0;s<ns;++s) CHECK(same(v[s],exp[i][s]),"every stream of the requested packet, transformed"); } CHECK((GT?p->getInputArray(0):p->getGTArray(0)).empty(),"no streams of the other kind"); CHECK(p->getInputROIArray(0).size()==(size_t)(GT?0:ns)&&p->getGTROIArray(0).size()==(size_t)(GT?ns:0),"one ROI per stream"); lv_cover("end"); }
HARNESS(h_ld_arr){ arr<false>(); }
HARNESS(h_ld_arr_gt){ arr<true>(); }
// a packet type that the loader cannot produce is rejected for every non-empty packet
HARNESS(h_ld_type){ static const PacketPolicy P[]={ImagePacket,ImageArrayPacket,UnspecifiedPacket}; int a=lv_choice(0,2,"ptype"); bool arr=lv_choice(0,1,"arr"); bool gt=lv_choice(0,1,"gt"); bool ok=a==2||(a==1)==arr; bool thr=false; cv::Mat m=rnd(2,2,CV_8UC1); MatInfo i(MatSize(2,2),CV_8UC1); if(arr){ auto p=std::make_shared<Arr>(P[a]); p->in[0].push_back(m); p->gt[0].push_back(m); p->ii[0].push_back(i); p->gi[0].push_back(i); try { const auto& v=gt?p->getGTArray(0):p->getInputArray(0); CHECK(v.size()==1&&same(v[0],m),"stream content"); } catch(const lv::Exception&){ thr=true; } } else { auto p=std::make_shared<One>(P[a],P[a]); p->in=p->gt=m; p->ii=p->gi=i; try { CHECK(same(gt?p->getGT(0):p->getInput(0),m),"packet content"); } catch(const lv::Exception&){ thr=true; } } CHECK(thr==!ok,"a packet type the loader cannot produce is rejected, any other is accepted"); lv_cover("end"); }
HARNESS(h_ld_arr2){ auto p=std::make_shared<Arr>(UnspecifiedPacket); for(int i=0;i<2;++i){ p->in[i].push_back(rnd(1,2,CV_8UC1)); p->gt[i].push_back(rnd(1,1,CV_8UC3)); p->ii[i].push_back(MatInfo(MatSize(1,2),CV_8UC1)); p->gi[i].push_back(MatInfo(MatSize(1,1),CV_8UC3)); p->gt[i].push_back(cv::Mat()); p->gi[i].push_back(MatInfo(MatSize(),CV_8UC1)); } for(int r=0;r<2;++r){ size_t i=lv_choice(0,1,"req"); CHECK(p->getInputArray(i).size()==1&&same(p->getInputArray(i)[0],p->in[i][0]),"input stream"); size_t j=lv_choice(0,1,"gtreq"); const auto& g=p->getGTArray(j); CHECK(g.size()==2&&same(g[0],p->gt[j][0])&&g[1].empty(),"ground truth streams"); } int bad=lv_choice(0,3,"bad"); if(bad==0) p->in[1].push_back(cv::Mat()); else if(bad==1) p->ii[1].pop_back(); else if(bad==2) p->in[1][0]=cv::Mat(); else p->in[1][0]=rnd(1,3,CV_8UC1); p->in[2]=p->in[1]; p->ii[2]=p->ii[1]; bool thr=false; try { p->getInputArray(2); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"inconsistent streams are rejected"); lv_cover("end"); }
// feature arrays follow the requested index whatever was requested before (files replaced by an overridden loader)
struct Feat : Arr { using Arr::Arr; cv::Mat f[2]; cv::Mat loadRawFeatures(size_t i) override { return f[i]; } };
HARNESS(h_ld_feat){ auto p=std::make_shared<Feat>(UnspecifiedPacket); for(int i=0;i<2;++i) p->f[i]=rnd(1,4,CV_8UC1); std::vector<MatInfo> A{MatInfo(MatSize(1,4),CV_8UC1)},B{MatInfo(MatSize(1,1),CV_8UC1),MatInfo(MatSize(1,1),CV_8UC3)}; for(int r=0;r<3;++r){ int k=lv_choice(0,2,"how"); size_t i=lv_choice(0,1,"idx"); if(k==0) CHECK(same(p->loadFeatures(i),p->f[i]),"packed features"); else { const auto& v=p->loadFeaturesArray(i,k==1?A:B); CHECK(v.size()==(size_t)k,"as many matrices as requested"); if(k==1) CHECK(same(v[0],p->f[i]),"features of the requested packet"); else CHECK(v[0].data[0]==p->f[i].data[0]&&v[1].data[2]==p->f[i].data[3],"features split as requested"); } } lv_cover("end"); }
// an array requested while precaching stays available after precaching is stopped
HARNESS(h_ld_stop){ auto p=std::make_shared<Arr>(UnspecifiedPacket); for(int i=0;i<3;++i){ p->in[i].push_back(i<2?rnd(1,2,CV_8UC1):cv::Mat()); p->ii[i].push_back(i<2?MatInfo(MatSize(1,2),CV_8UC1):MatInfo(MatSize(),CV_8UC1)); } p->startPrecaching(true,4); CHECK(p->isPrecaching(),"precaching"); size_t i=lv_choice(0,1,"req"); CHECK(same(p->getInputArray(i)[0],p->in[i][0]),"precached stream"); p->stopPrecaching(); CHECK(!p->isPrecaching(),"stopped"); CHECK(same(p->getInputArray(i)[0],p->in[i][0]),"the same packet after precaching stopped"); CHECK(same(p->getInputArray(1-i)[0],p->in[1-i][0]),"another packet after precaching stopped"); lv_cover("end"); }
