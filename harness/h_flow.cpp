// C23: datasets end to end: work batch tree, processing phases, evaluation and archiving of pushed outputs, aggregation over groups.
#include "lvh.h"
#include "litiv/datasets.hpp"
#include <vector>
#include <string>
using namespace lv;
#ifdef LVFS_MODEL
std::vector<lvfs_file>* lvfs_files=nullptr; std::vector<lvfs_num>* lvfs_nums=nullptr; long lvfs_room=-1; lvfs_file* lvfs_find(const char*){ return nullptr; } lvfs_file* lvfs_create(const char*){ return nullptr; }
#endif
// ---- stand-ins for the file system and image codecs (nothing touches the disk)
static std::vector<std::pair<std::string,std::vector<std::string>>> g_sub,g_fil; static std::vector<std::pair<std::string,cv::Mat>> g_img; static std::vector<std::string> g_made;
static cv::Mat clone(const cv::Mat& m){ cv::Mat r; if(!m.empty()){ r.create(m.rows,m.cols,m.type()); for(int y=0;y<m.rows;++y) memcpy(r.ptr(y),m.ptr(y),m.cols*m.elemSize()); } return r; }
static void put(const std::string& p,const cv::Mat& m){ for(auto& x:g_img) if(x.first==p){ x.second=clone(m); return; } g_img.push_back({p,clone(m)}); }
static const cv::Mat* find(const std::string& p){ for(auto& x:g_img) if(x.first==p) return &x.second; return nullptr; }
namespace lv {
std::vector<std::string> getSubDirsFromDir(const std::string& d){ for(auto& x:g_sub) if(x.first==d) return x.second; return {}; }
std::vector<std::string> getFilesFromDir(const std::string& d){ for(auto& x:g_fil) if(x.first==d) return x.second; return {}; }
void filterFilePaths(std::vector<std::string>&,const std::vector<std::string>&,const std::vector<std::string>&){}
bool createDirIfNotExist(const std::string& d){ g_made.push_back(d); return true; }
std::string addDirSlashIfMissing(const std::string& s){ if(s.empty()) return std::string(); if(s.back()=='/'||s.back()=='\\') return s; return s+"/"; }
bool checkIfExists(const std::string& p){ if(p.empty()||p.back()==(char)47) return p=="/d/"; return find(p)!=nullptr; }
}
namespace cv { Mat imread(const String& p,int){ const Mat* m=find(p); return m?clone(*m):Mat(); } bool imwrite(const String& p,InputArray a,const std::vector<int>&){ put(p,a.getMat()); return true; } }
static void init(){ g_sub.clear(); g_fil.clear(); g_img.clear(); g_made.clear(); lv::setVerbosity(0); }
static bool made(const std::string& d){ for(auto& x:g_made) if(lv::addDirSlashIfMissing(x)==d) return true; return false; }
static bool same(const cv::Mat& a,const cv::Mat& b){ if(a.empty()||b.empty()) return a.empty()==b.empty(); if(a.type()!=b.type()||a.rows!=b.rows||a.cols!=b.cols) return false; bool r=true; size_t n=a.cols*a.elemSize(); for(int y=0;y<a.rows;++y) for(size_t i=0;i<n;++i) r=r&(a.ptr<uchar>(y)[i]==b.ptr<uchar>(y)[i]); return r; }
static cv::Mat rnd(int h,int w,int t){ cv::Mat m(h,w,t); lv_fill(m.data,m.total()*m.elemSize(),"px"); return m; }
// ---- producers with ground truth: packet i of every batch has ground truth i, unless i==2
static const int NS=2; static cv::Mat g_roi; static bool g_useROI=false; static std::vector<cv::Mat> g_gtrois;
namespace lv {
template<> struct DataProducer_<DatasetTask_EdgDet,DatasetSource_Image,Dataset_Custom> : IDataProducerWrapper_<DatasetTask_EdgDet,DatasetSource_Image,Dataset_Custom> {
    void parseData() override { IDataProducerWrapper_<DatasetTask_EdgDet,DatasetSource_Image,Dataset_Custom>::parseData(); for(size_t i=0;i<getInputCount()&&i<2;++i){ m_vsGTPaths.push_back("gt:"+m_vsInputPaths[i]); m_vGTInfos.push_back(m_vInputInfos[i]); m_mGTIndexLUT[i]=i; } }
    const cv::Mat& getGTROI(size_t) const override { return g_useROI?g_roi:lv::emptyMat(); } };
template<typename T> static void paths(T& p,const std::string& d,std::vector<std::vector<std::string>>& in,std::vector<std::vector<std::string>>& gt,std::unordered_map<size_t,size_t>& lut){ for(int i=0;i<2;++i){ std::vector<std::string> a,b; for(int s=0;s<NS;++s){ std::string n=d+char('0'+i)+char('a'+s); a.push_back(n); b.push_back("gt:"+n); } in.push_back(a); gt.push_back(b); lut[i]=i; } }
template<> struct DataProducer_<DatasetTask_Cosegm,DatasetSource_VideoArray,Dataset_Custom> : IDataProducerWrapper_<DatasetTask_Cosegm,DatasetSource_VideoArray,Dataset_Custom> { size_t getInputStreamCount() const override { return NS; } size_t getGTStreamCount() const override { return NS; }
    void parseData() override { paths(*this,getDataPath(),m_vvsInputPaths,m_vvsGTPaths,m_mGTIndexLUT); m_vInputInfos.assign(NS,MatInfo(MatSize(1,2),CV_8UC1)); m_vGTInfos=m_vInputInfos; m_vInputROIs.resize(NS); m_vGTROIs=g_gtrois; m_vGTROIs.resize(NS); } };
template<> struct DataProducer_<DatasetTask_StereoReg,DatasetSource_ImageArray,Dataset_Custom> : IDataProducerWrapper_<DatasetTask_StereoReg,DatasetSource_ImageArray,Dataset_Custom> { size_t getInputStreamCount() const override { return NS; } size_t getGTStreamCount() const override { return NS; }
    void parseData() override { paths(*this,getDataPath(),m_vvsInputPaths,m_vvsGTPaths,m_mGTIndexLUT); m_vvInputInfos.assign(2,std::vector<MatInfo>(NS,MatInfo(MatSize(1,2),CV_8UC1))); m_vvGTInfos=m_vvInputInfos; } };
}
typedef Dataset_<DatasetTask_EdgDet,Dataset_Custom,NonParallel> D1; typedef Dataset_<DatasetTask_Cosegm,Dataset_Custom,NonParallel> D2; typedef Dataset_<DatasetTask_StereoReg,Dataset_Custom,NonParallel> D3;
static void batchFiles(const std::string& d,int n){ std::vector<std::string> f; for(int i=0;i<n;++i){ std::string p=d+char('0'+i)+".png"; f.push_back(p); put(p,rnd(1,2,CV_8UC1)); if(i<2) put("gt:"+p,rnd(1,2,CV_8UC1)); } g_fil.push_back({d,f}); }
static bool eqC(const BinClassif& a,const BinClassif& b){ return a.nTP==b.nTP&&a.nTN==b.nTN&&a.nFP==b.nFP&&a.nFN==b.nFN&&a.nSE==b.nSE&&a.nDC==b.nDC; }
static const BinClassif& counters(const IDataHandlerPtr& b){ static IIMetricsAccumulatorConstPtr keep; keep=dynamic_cast<const IIMetricRetriever&>(*b).getMetricsBase(); return dynamic_cast<const BinClassifMetricsAccumulator&>(*keep).m_oCounters; }
// the tree of groups and batches mirrors the directories, minus everything that is to be skipped
HARNESS(h_fl_tree){ init(); int n1=lv_choice(0,2,"subdirs"); int tok=lv_choice(0,5,"token"); std::vector<std::string> skip; if(tok==1) skip={"two"}; else if(tok==2) skip={"b1"}; else if(tok==3) skip={"one","nothing"}; else if(tok==4) skip={"d"}; else if(tok==5) skip={"/"}; bool sl=lv_choice(0,1,"slash"); static const char* S[]={"b0","b1"}; std::vector<std::string> sub; for(int i=0;i<n1;++i){ sub.push_back(std::string("/d/one/")+S[i]); batchFiles(std::string("/d/one/")+S[i]+"/",1+i); } g_sub.push_back({"/d/one/",sub}); if(!n1) batchFiles("/d/one/",2); batchFiles("/d/two/",3);
    D1::Ptr p; bool thr=false; try { p=D1::create("set",sl?"/d/":"/d","/o",std::vector<std::string>{"one","two"},skip,false,true,false,1.0); } catch(const lv::Exception&){ thr=true; } CHECK(!thr,"a dataset with skipped directories can be created"); if(thr) return;
    std::vector<std::string> nm,rel; std::vector<size_t> cnt; if(tok!=3){ if(!n1){ nm.push_back("one"); rel.push_back("one/"); cnt.push_back(2); } else for(int i=0;i<n1;++i) if(!(tok==2&&i==1)){ nm.push_back(S[i]); rel.push_back(std::string("one/")+S[i]+"/"); cnt.push_back(1+i); } } if(tok!=1){ nm.push_back("two"); rel.push_back("two/"); cnt.push_back(3); }
    auto b=p->getBatches(false); CHECK(b.size()==nm.size(),"one batch per directory that is not skipped"); size_t tot=0,gt=0; for(size_t i=0;i<b.size()&&i<nm.size();++i){ CHECK(b[i]->getName()==nm[i]&&b[i]->getRelativePath()==rel[i],"batch names and relative paths"); CHECK(b[i]->getDataPath()=="/d/"+rel[i]&&b[i]->getOutputPath()=="/o/"+rel[i]&&b[i]->getFeaturesPath()=="/o/"+rel[i]+"precomp/","batch paths"); CHECK(made("/o/"+rel[i])&&made("/o/"+rel[i]+"precomp/"),"output directories are created"); CHECK(b[i]->getInputCount()==cnt[i]&&!b[i]->isGroup()&&!b[i]->isRoot()&&b[i]->getRoot()==p&&b[i]->getBatches(false).empty(),"batch contents"); CHECK(b[i]->isEvaluating()&&!b[i]->isSavingOutput()&&!b[i]->is4ByteAligned()&&b[i]->getScaleFactor()==1.0&&b[i]->getSkipTokens()==skip,"settings are inherited"); tot+=cnt[i]; gt+=cnt[i]<2?cnt[i]:2; }
    CHECK(p->getInputCount()==tot&&p->getGTCount()==gt&&p->getExpectedOutputCount()==gt&&p->getExpectedLoadSize()==tot*2,"dataset totals"); auto t=p->getBatches(true); CHECK(t.size()==2&&t[0]->isGroup()&&t[0]->isBare()==(n1==0||tok==3)&&t[1]->isBare()&&t[0]->getParent()==p,"one group per listed directory"); std::string str=p->printDataStructure(""); for(auto& x:nm) CHECK(str.find("'"+x+"'")!=std::string::npos,"every batch is listed"); lv_cover("end"); }
// pushed outputs: each evaluated once against the ground truth with the same index, counted by distinct index, archived if asked
template<int NB> static void flow(){ init(); std::vector<std::string> sub; for(int i=0;i<NB;++i){ sub.push_back(std::string("/d/g/b")+char('0'+i)); batchFiles(sub.back()+"/",3); } g_sub.push_back({"/d/g/",sub}); bool save=lv_choice(0,1,"save"),ev=lv_choice(0,1,"eval"); g_useROI=NB==1&&lv_choice(0,1,"useroi"); if(g_useROI) g_roi=rnd(1,2,CV_8UC1);
    D1::Ptr p=D1::create("set","/d","/o",std::vector<std::string>{"g"},std::vector<std::string>(),save,ev); auto b=p->getBatches(false); CHECK(b.size()==(size_t)NB,"batches"); BinClassif e[NB],tot; bool seen[NB][3]={}; std::vector<D1::WorkBatch*> w; for(auto& x:b) w.push_back(&dynamic_cast<D1::WorkBatch&>(*x)); cv::Mat O[2]={rnd(1,2,CV_8UC1),rnd(1,2,CV_8UC1)}; cv::Mat keep[2]={clone(O[0]),clone(O[1])};
    bool thr=false; try { w[0]->push(O[0],0); } catch(const lv::Exception&){ thr=true; } CHECK(thr&&w[0]->getCurrentOutputCount()==0,"no output is accepted before processing starts"); for(auto x:w){ x->startProcessing(); CHECK(x->isProcessing(),"processing"); } CHECK(p->isProcessing(),"the dataset is processing");
    for(int k=0;k<2;++k){ int i=NB==1?0:lv_choice(0,NB-1,"batch"); size_t j=lv_choice(0,2,"idx"); w[i]->push(O[k],j); seen[i][j]=true; std::string in=std::string("/d/g/b")+char('0'+i)+"/"+char('0'+j)+".png"; const cv::Mat* g=find("gt:"+in); if(ev) e[i].accumulate(O[k],g?*g:cv::Mat(),g_useROI?g_roi:cv::Mat()); if(save){ const cv::Mat* s=find(w[i]->getOutputPath()+w[i]->getOutputName(j)+".png"); CHECK(s!=nullptr,"the output is archived under its index"); if(s&&!g_useROI) CHECK(same(*s,O[k]),"the archived output is the pushed one"); } CHECK(same(O[k],keep[k]),"the pushed output is not modified"); }
    size_t all=0; for(int i=0;i<NB;++i){ size_t n=seen[i][0]+seen[i][1]+seen[i][2]; CHECK(w[i]->getCurrentOutputCount()==n,"distinct outputs are counted"); CHECK(eqC(counters(b[i]),e[i]),"each output is evaluated exactly once, against the ground truth of its index"); tot.accumulate(e[i]); all+=n; } CHECK(p->getCurrentOutputCount()==all,"dataset output count"); CHECK(eqC(counters(p),tot),"group counters are the sums over the batches"); for(auto x:w) x->stopProcessing(); CHECK(!p->isProcessing()&&p->getFinalOutputCount()==all,"final count once processing stopped"); thr=false; try { w[0]->push(O[0],1); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"no output is accepted after processing stopped"); CHECK(eqC(counters(p),tot),"a rejected output is not evaluated");
    if(lv_choice(0,1,"again")){ w[0]->startProcessing(); CHECK(w[0]->getCurrentOutputCount()==0,"a new processing phase counts afresh"); w[0]->stopProcessing(); CHECK(w[0]->getFinalOutputCount()==0,"empty phase"); } else { p->resetMetrics(); CHECK(eqC(counters(p),BinClassif())&&p->getCurrentOutputCount()==0,"metrics are reset"); } lv_cover("end"); }
HARNESS(h_fl_eval1){ flow<1>(); }
HARNESS(h_fl_eval2){ flow<2>(); }
// arrays of outputs: every stream evaluated against its own ground truth
template<typename D> static std::shared_ptr<D> arrDs(bool save,bool ev){ init(); for(int i=0;i<2;++i) for(int s=0;s<NS;++s) put(std::string("gt:/d/g/")+char('0'+i)+char('a'+s),rnd(1,2,CV_8UC1)); return D::create("set","/d","/o",std::vector<std::string>{"g"},std::vector<std::string>(),save,ev); }
HARNESS(h_fl_arr){ bool save=lv_choice(0,1,"save"),ev=lv_choice(0,1,"eval"),roi=lv_choice(0,1,"rois"); g_gtrois.clear(); if(roi) for(int s=0;s<NS;++s) g_gtrois.push_back(rnd(1,2,CV_8UC1)); D2::Ptr p=std::dynamic_pointer_cast<D2>(arrDs<D2>(save,ev)); auto b=p->getBatches(false); auto& w=dynamic_cast<D2::WorkBatch&>(*b[0]); BinClassif e[NS]; w.startProcessing(); std::vector<cv::Mat> O{rnd(1,2,CV_8UC1),rnd(1,2,CV_8UC1)}; int bad=lv_choice(0,1,"bad"); if(bad){ bool thr=false; try { w.push(std::vector<cv::Mat>{O[0]},0); } catch(const lv::Exception&){ thr=true; } CHECK(thr,"an output array of the wrong size is rejected"); } for(int k=0;k<2;++k){ size_t j=lv_choice(0,2,"idx"); w.push(O,j); for(int s=0;s<NS;++s){ const cv::Mat* g=find(std::string("gt:/d/g/")+char('0'+j)+char('a'+s)); if(ev) e[s].accumulate(O[s],g?*g:cv::Mat(),roi?g_gtrois[s]:cv::Mat()); if(save){ const cv::Mat* f=find(w.getOutputPath()+w.getOutputName(j)+"_"+char('0'+s)+".png"); CHECK(f&&(roi||same(*f,O[s])),"every stream is archived"); } } } auto m=dynamic_cast<const IIMetricRetriever&>((const IDataHandler&)*b[0]).getMetricsBase(); auto& a=dynamic_cast<const BinClassifMetricsArrayAccumulator&>(*m); CHECK(a.m_vCounters.size()==(size_t)(ev?NS:0),"one counter set per stream"); if(ev){ for(int s=0;s<NS;++s) CHECK(eqC(a.m_vCounters[s],e[s]),"every stream is evaluated against its own ground truth"); auto g=dynamic_cast<const IIMetricRetriever&>((const IDataHandler&)*p).getMetricsBase(); auto& ga=dynamic_cast<const BinClassifMetricsArrayAccumulator&>(*g); CHECK(ga.m_vCounters.size()==NS&&eqC(ga.m_vCounters[0],e[0])&&eqC(ga.m_vCounters[1],e[1]),"group counters"); } w.stopProcessing(); w.resetMetrics(); CHECK(w.getCurrentOutputCount()==0,"reset"); lv_cover("end"); }
HARNESS(h_fl_stereo){ bool ev=lv_choice(0,1,"eval"); D3::Ptr p=std::dynamic_pointer_cast<D3>(arrDs<D3>(false,ev)); auto b=p->getBatches(false); auto& w=dynamic_cast<D3::WorkBatch&>(*b[0]); StereoDispErrors e[NS]; w.startProcessing(); std::vector<cv::Mat> O{rnd(1,2,CV_8UC1),rnd(1,2,CV_8UC1)}; for(int k=0;k<2;++k){ size_t j=lv_choice(0,1,"idx"); w.push(O,j); if(ev) for(int s=0;s<NS;++s) e[s].accumulate(O[s],*find(std::string("gt:/d/g/")+char('0'+j)+char('a'+s)),cv::Mat()); } auto m=dynamic_cast<const IIMetricRetriever&>((const IDataHandler&)*b[0]).getMetricsBase(); auto& a=dynamic_cast<const StereoDispMetricsAccumulator&>(*m); CHECK(a.m_vErrorLists.size()==(size_t)(ev?NS:0),"one error list per stream"); if(ev) for(int s=0;s<NS;++s) CHECK(a.m_vErrorLists[s].isEqual(e[s]),"every stream is evaluated against its own ground truth"); w.stopProcessing(); lv_cover("end"); }
