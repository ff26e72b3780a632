// C08: matrix archives and archived outputs/features read back exactly or are rejected, whatever happens to the file.
#include "lvh.h"
#include "lvfs.hpp"
#include "litiv/datasets.hpp"
#include <vector>
#include <string>
#include <cstring>
using namespace lv;
// ---- file helpers: model store in the symbolic executor, real files in the scratch working directory natively
#ifdef LVFS_MODEL
std::vector<lvfs_file>* lvfs_files=nullptr; std::vector<lvfs_num>* lvfs_nums=nullptr; long lvfs_room=-1;
lvfs_file* lvfs_find(const char* p){ for(auto& f:*lvfs_files) if(f.path==p) return &f; return nullptr; }
lvfs_file* lvfs_create(const char* p){ if(!strncmp(p,"nodir/",6)) return nullptr; lvfs_files->push_back(lvfs_file{p,std::string()}); return &lvfs_files->back(); }
static void fs_init(){ lvfs_files=new std::vector<lvfs_file>(); lvfs_files->reserve(16); lvfs_nums=new std::vector<lvfs_num>(); lvfs_nums->reserve(64); lvfs_room=-1; }
static size_t fs_size(const char* p){ lvfs_file* f=lvfs_find(p); return f?f->data.size():0; }
static void fs_cut(const char* p,size_t n){ lvfs_find(p)->data.resize(n); }
static void fs_poke(const char* p,size_t o,const void* d,size_t n){ memcpy(&lvfs_find(p)->data[o],d,n); }
static void fs_room(long n){ lvfs_room=n; }
struct img { std::string p; cv::Mat m; }; static std::vector<img>* g_imgs; static bool img_ok=true;
namespace cv { bool imwrite(const String& p,InputArray a,const std::vector<int>&){ if(!img_ok||!strncmp(p.c_str(),"nodir/",6)) return false; Mat m=a.getMat(); if(!g_imgs) g_imgs=new std::vector<img>(); for(auto& i:*g_imgs) if(i.p==p){ i.m=m.clone(); return true; } g_imgs->push_back(img{p,m.clone()}); return true; }
Mat imread(const String& p,int){ if(g_imgs) for(auto& i:*g_imgs) if(i.p==p) return i.m.clone(); return Mat(); } }
#else
#include <unistd.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
static void fs_init(){ int r=system("rm -f a.bin a.txt out_*.png out_*.bin o_*.png o_*.bin f_*.bin"); (void)r; signal(SIGXFSZ,SIG_IGN); }
static size_t fs_size(const char* p){ struct stat s; return stat(p,&s)?0:(size_t)s.st_size; }
static void fs_cut(const char* p,size_t n){ int r=truncate(p,(off_t)n); (void)r; }
static void fs_poke(const char* p,size_t o,const void* d,size_t n){ std::fstream f(p,std::ios::in|std::ios::out|std::ios::binary); f.seekp((std::streamoff)o); f.write((const char*)d,(std::streamsize)n); }
static void fs_room(long n){ struct rlimit l; getrlimit(RLIMIT_FSIZE,&l); l.rlim_cur=n<0?l.rlim_max:(rlim_t)n; setrlimit(RLIMIT_FSIZE,&l); }
#endif
namespace lv {
std::vector<std::string> getSubDirsFromDir(const std::string&){ return {}; }
bool createDirIfNotExist(const std::string&){ return true; }
std::string addDirSlashIfMissing(const std::string& s){ if(s.empty()) return std::string(); if(s.back()=='/'||s.back()=='\\') return s; return s+"/"; }
bool checkIfExists(const std::string& p){ return fs_size(p.c_str())>0; }
}
static bool same(const cv::Mat& a,const cv::Mat& b){ if(a.empty()||b.empty()) return a.empty()==b.empty(); if(a.type()!=b.type()||a.dims!=b.dims) return false; for(int i=0;i<a.dims;++i) if(a.size[i]!=b.size[i]) return false; cv::Mat x=a.isContinuous()?a:a.clone(),y=b.isContinuous()?b:b.clone(); bool r=true; size_t n=x.total()*x.elemSize(); for(size_t i=0;i<n;++i) r=r&(x.data[i]==y.data[i]); return r; }
static cv::Mat mk(int k){ cv::Mat m; if(k==0) m.create(1,3,CV_8UC1); else if(k==1) m.create(2,2,CV_8UC3); else if(k==2) m.create(2,1,CV_16SC1); else if(k==3){ int s[3]={2,1,3}; m.create(3,s,CV_8UC1); } else if(k==4) m.create(1,2,CV_32FC1); else if(k==5) m.create(1,1,CV_64FC2); else if(k==7){ int s[3]={2,3,3}; cv::Mat b(3,s,CV_8UC1); lv_fill(b.data,18,"px"); cv::Range r[3]={cv::Range(0,2),cv::Range(1,3),cv::Range(1,3)}; return b(r); } else { cv::Mat b(3,4,CV_8UC1); lv_fill(b.data,12,"px"); return b(cv::Rect(1,1,2,2)); } lv_fill(m.data,m.total()*m.elemSize(),"px"); return m; }
// binary archives: exact round trip for every layout and content, also over an older archive and into a used matrix
HARNESS(h_bin){ fs_init(); cv::Mat m=mk(lv_choice(0,7,"layout")),keep=m.clone(); if(lv_choice(0,1,"older")) lv::write("a.bin",cv::Mat(3,5,CV_8UC1,cv::Scalar(7))); lv::write("a.bin",m); CHECK(same(m,keep),"writing leaves the matrix alone"); cv::Mat r; int u=lv_choice(0,2,"used"); if(u==1) r.create(2,2,CV_8UC3); cv::Mat view; cv::Mat big(4,4,CV_8UC1,cv::Scalar(3)); if(u==2) r=big(cv::Rect(1,1,2,2)); if(lv_choice(0,1,"by value")) r=lv::read("a.bin"); else lv::read("a.bin",r); CHECK(same(r,keep),"a binary archive reads back exactly"); lv_cover("end"); }
// a file cut at any byte is rejected
HARNESS(h_cut){ fs_init(); cv::Mat m=mk(lv_choice(0,3,"layout")); lv::write("a.bin",m); size_t n=fs_size("a.bin"); size_t k=(size_t)lv_choice(0,(int)n,"length"); fs_cut("a.bin",k); bool thr=false; cv::Mat r; try { lv::read("a.bin",r); } catch(const std::exception&){ thr=true; } if(k<n) CHECK(thr,"a truncated archive is rejected"); else CHECK(!thr&&same(r,m),"a complete archive is read"); lv_cover("end"); }
// inconsistent header fields are rejected (never answered with data beyond the announced matrix)
HARNESS(h_hdr){ fs_init(); cv::Mat m=mk(0); lv::write("a.bin",m); size_t n=fs_size("a.bin"); CHECK(n>=24+3,"header and data"); int f=lv_choice(0,2,"field"); if(f==0){ uint64_t v=lv_any<uint64_t>("elemsize"); lv_assume(v!=1); fs_poke("a.bin",4,&v,8); } else if(f==1){ uint64_t v=lv_any<uint64_t>("count"); lv_assume(v!=3); fs_poke("a.bin",12,&v,8); } else { static const int32_t D[]={-1,0,-2147483647,33,1000}; int32_t v=D[lv_choice(0,4,"dims")]; fs_poke("a.bin",20,&v,4); } bool thr=false; cv::Mat r; try { lv::read("a.bin",r); } catch(const std::exception&){ thr=true; } CHECK(thr,"a header that contradicts the matrix is rejected"); lv_cover("end"); }
// a device that fills up at any byte: the failure is reported, or everything was written
template<bool TXT> static void full(){ fs_init(); const char* P=TXT?"a.txt":"a.bin"; auto A=TXT?lv::MatArchive_PLAINTEXT:lv::MatArchive_BINARY; cv::Mat m(1,3,CV_8UC1); lv_fill(m.data,3,"px"); if(TXT) for(int i=0;i<3;++i) m.data[i]=uchar(i*40); lv::write(P,m,A); int n=(int)fs_size(P); int k=lv_choice(0,7,"room"); fs_room(k<4?k*(n-1)/3:k<6?n:n+k); bool thr=false; try { lv::write(P,m,A); } catch(const std::exception&){ thr=true; } fs_room(-1); if(!thr){ cv::Mat r; bool t2=false; try { lv::read(P,r,A); } catch(const std::exception&){ t2=true; } CHECK(!t2&&same(r,m),"an archive that was written without error is complete"); } if(k>=4) CHECK(!thr,"enough room"); else CHECK(thr,"a write that fails is reported"); lv_cover("end"); }
HARNESS(h_full_bin){ full<false>(); }
HARNESS(h_full_txt){ full<true>(); }
// plain text archives: every representable value survives
HARNESS(h_txt){ fs_init(); int k=lv_choice(0,6,"type"); cv::Mat m; if(k==0){ m.create(2,3,CV_8UC1); lv_fill(m.data,6,"px"); } else if(k==1){ m.create(1,2,CV_16SC3); lv_fill((int16_t*)m.data,6,"ps"); } else if(k==2){ m.create(1,3,CV_32SC1); static const int V[]={1234567,-2147483647,1000001,16777217,-5,0}; for(int i=0;i<3;++i) ((int*)m.data)[i]=V[lv_choice(0,5,"value")]; } else if(k==3){ m.create(2,1,CV_64FC2); static const double V[]={0.30000000000000004,2.5,-1e300}; for(int i=0;i<4;++i) ((double*)m.data)[i]=V[(i+lv_choice(0,2,"value"))%3]; } else if(k==4){ int s[3]={2,1,2}; m.create(3,s,CV_8UC1); lv_fill(m.data,4,"px"); } else if(k==5){ cv::Mat b(3,3,CV_8UC1); lv_fill(b.data,9,"px"); m=b(cv::Rect(1,1,2,2)); } else m=mk(7); cv::Mat keep=m.clone(); lv::write("a.txt",m,lv::MatArchive_PLAINTEXT); CHECK(same(m,keep),"writing leaves the matrix alone"); cv::Mat r; lv::read("a.txt",r,lv::MatArchive_PLAINTEXT); CHECK(same(r,keep),"a plain text archive reads back exactly"); lv_cover("end"); }
HARNESS(h_arch_bad){ fs_init(); int k=lv_choice(0,5,"case"); bool thr=false; cv::Mat m(1,2,CV_8UC1,cv::Scalar(4)),r; try { if(k==0) lv::write("",m); else if(k==1) lv::write("a.bin",cv::Mat()); else if(k==2) lv::write("nodir/x.bin",m); else if(k==3) lv::read("missing.bin",r); else if(k==4) lv::read("",r); else lv::write("nodir/x.txt",m,lv::MatArchive_PLAINTEXT); } catch(const std::exception&){ thr=true; } CHECK(thr,"empty paths, empty matrices and unusable files are rejected"); lv_cover("end"); }
// ---- archived outputs and features of a batch
static std::string g_out="o_"; static const std::string g_s0; static std::string g_feat="f_";
#define COMMON \
    std::string m_n; const std::string& getName() const override { return m_n; } const std::string& getDataPath() const override { return g_s0; } const std::string& getOutputPath() const override { return g_out; } const std::string& getFeaturesPath() const override { return g_feat; } const std::string& getRelativePath() const override { return g_s0; } \
    std::vector<std::string> m_skip; const std::vector<std::string>& getSkipTokens() const override { return m_skip; } std::string printDataStructure(const std::string&) const override { return std::string(); } double getScaleFactor() const override { return 1; } IDataHandlerConstPtr getRoot() const override { return shared_from_this(); } IDataHandlerConstPtr getParent() const override { return nullptr; } bool isRoot() const override { return true; } bool is4ByteAligned() const override { return false; } bool isSavingOutput() const override { return m_save; } bool isEvaluating() const override { return false; } \
    DatasetTaskList getDatasetTask() const override { return DatasetTaskList(0); } DatasetSourceList getDatasetSource() const override { return DatasetSourceList(0); } DatasetEvalList getDatasetEval() const override { return DatasetEvalList(0); } DatasetList getDataset() const override { return DatasetList(0); } void writeEvalReport() const override {} \
    bool isBare() const override { return false; } bool isGroup() const override { return false; } IDataHandlerPtrArray getBatches(bool) const override { return IDataHandlerPtrArray(); } void parseData() override {} bool m_save=true,m_proc=true; size_t m_cnt=3; size_t getExpectedLoadSize() const override { return 0; } size_t getInputCount() const override { return m_cnt; } size_t getGTCount() const override { return m_cnt; } double getCurrentProcessTime() const override { return 0; } double getFinalProcessTime() override { return 0; } bool isProcessing() const override { return m_proc; } cv::Mat m_roi; const cv::Mat& getGTROI(size_t) const override { return m_roi; }
struct One : IDataLoader_<NotArray>, IDataConsumer_<DatasetEval_BinaryClassifier> { COMMON One(PacketPolicy a,MappingPolicy g=ElemMapping):IDataLoader_<NotArray>(a,a,a,g,NoMapping){}
    MatInfo getInputInfo(size_t) const override { return MatInfo(); } MatInfo getGTInfo(size_t) const override { return MatInfo(); } bool isInputInfoConst() const override { return true; } bool isGTInfoConst() const override { return true; } cv::Mat getRawInput(size_t) override { return cv::Mat(); } cv::Mat getRawGT(size_t) override { return cv::Mat(); } };
struct Arr : IDataLoader_<Array>, IDataConsumer_<DatasetEval_BinaryClassifierArray> { COMMON size_t m_ns=2; Arr(PacketPolicy a,MappingPolicy g=ArrayMapping):IDataLoader_<Array>(a,a,a,g,NoMapping){} using IDataArchiver_<lv::Array>::saveOutputArray;
    size_t getInputStreamCount() const override { return m_ns; } size_t getGTStreamCount() const override { return m_ns; } std::vector<MatInfo> getInputInfoArray(size_t) const override { return {}; } std::vector<MatInfo> getGTInfoArray(size_t) const override { return {}; } bool isInputInfoConst() const override { return true; } bool isGTInfoConst() const override { return true; } std::vector<cv::Mat> getRawInputArray(size_t) override { return {}; } std::vector<cv::Mat> getRawGTArray(size_t) override { return {}; } };
static cv::Mat px(int h,int w,int t,bool bin){ cv::Mat m(h,w,t); size_t n=m.total()*m.elemSize(); lv_fill(m.data,n,"px"); if(bin) for(size_t i=0;i<n;++i) m.data[i]=m.data[i]&1?255:0; return m; }
static cv::Mat grayed(const cv::Mat& o,const cv::Mat& roi,bool one){ cv::Mat e=o.clone(); if(!one||roi.empty()||roi.size()!=o.size()) return e; for(int i=0;i<(int)o.total();++i) if(!roi.data[i]) e.data[i]=127; return e; }
HARNESS(h_out_img){ fs_init(); static const size_t I[]={0,1,12,999999,1000000,123456789}; bool em=lv_choice(0,1,"1:1 mapping"); auto p=std::make_shared<One>(ImagePacket,em?ElemMapping:IndexMapping); int k=lv_choice(0,2,"kind"); cv::Mat a=k==2?px(1,2,CV_8UC3,false):px(2,2,CV_8UC1,k==0),b=px(2,2,CV_8UC1,true),ka=a.clone(); if(lv_choice(0,1,"roi")){ p->m_roi.create(lv_choice(0,1,"roi size")?2:3,2,CV_8UC1); lv_fill(p->m_roi.data,p->m_roi.total(),"roi"); } if(k==1) lv_assume(a.data[0]!=0&&a.data[0]!=255); int i=lv_choice(0,5,"idx"),j=lv_choice(0,5,"other"); p->push(a,I[i]); if(j!=i) p->push(b,I[j]); CHECK(same(a,ka),"the pushed output is not modified"); CHECK(same(p->loadOutput(I[i]),grayed(a,p->m_roi,em&&k==0)),"an archived output reads back (grayed outside the region of interest if it is a binary mask)"); lv_cover("end"); }
HARNESS(h_out_bin){ fs_init(); auto p=std::make_shared<One>(UnspecifiedPacket,IndexMapping); cv::Mat a=mk(lv_choice(0,4,"layout")),b=px(1,1,CV_8UC1,false),ka=a.clone(); size_t i=(size_t)lv_choice(0,1,"idx")*1000000,j=i==0?1:0; bool sv=lv_choice(0,1,"saving"); p->m_save=sv; p->push(a,i); p->push(b,j); p->push(cv::Mat(),7); CHECK(p->getCurrentOutputCount()==3,"every pushed packet is counted"); bool thr=false; try { cv::Mat r=p->loadOutput(i); CHECK(sv&&same(r,ka),"an archived output reads back exactly"); CHECK(same(p->loadOutput(j),b),"the other one too"); } catch(const std::exception&){ thr=true; } CHECK(thr==!sv,"outputs are archived exactly when saving is requested"); p->m_proc=false; thr=false; try { p->push(a,2); } catch(const std::exception&){ thr=true; } CHECK(thr,"pushing without processing is rejected"); CHECK(p->getCurrentOutputCount()==3,"and not counted"); lv_cover("end"); }
HARNESS(h_out_arr){ fs_init(); bool img=lv_choice(0,1,"images"),em=lv_choice(0,1,"1:1 mapping"); auto p=std::make_shared<Arr>(img?ImageArrayPacket:UnspecifiedPacket,em?ElemMapping:ArrayMapping); p->m_ns=(size_t)lv_choice(1,2,"streams"); if(lv_choice(0,1,"roi")){ p->m_roi.create(1,2,CV_8UC1); lv_fill(p->m_roi.data,2,"roi"); } std::vector<cv::Mat> v[2]; for(int i=0;i<2;++i) for(size_t s=0;s<p->m_ns;++s) v[i].push_back(s==0?px(1,2,CV_8UC1,true):px(1,1,CV_8UC3,false)); p->saveOutputArray(v[0],4); p->saveOutputArray(v[1],5); for(int i=0;i<2;++i){ auto r=p->loadOutputArray((size_t)i+4); CHECK(r.size()==p->m_ns,"one matrix per stream"); for(size_t s=0;s<p->m_ns;++s) CHECK(same(r[s],s==0?grayed(v[i][s],p->m_roi,img&&em):v[i][s]),"every stream reads back"); } bool thr=false; try { v[0].push_back(v[0][0]); p->saveOutputArray(v[0],6); } catch(const std::exception&){ thr=true; } CHECK(thr,"a wrong number of streams is rejected"); lv_cover("end"); }
HARNESS(h_out_fail){ fs_init(); auto p=std::make_shared<One>(lv_choice(0,1,"image")?ImagePacket:UnspecifiedPacket); g_out="nodir/"; bool thr=false; try { p->push(px(1,2,CV_8UC1,false),0); } catch(const std::exception&){ thr=true; } g_out="o_"; CHECK(thr,"an output that cannot be archived is reported"); lv_cover("end"); }
HARNESS(h_feat){ fs_init(); auto p=std::make_shared<Arr>(UnspecifiedPacket); static const size_t I[]={0,1,9999999,10000000}; int i=lv_choice(0,3,"idx"),j=lv_choice(0,3,"other"); cv::Mat a=px(1,3,CV_8UC1,false),b=px(1,1,CV_16UC1,false); std::vector<cv::Mat> v{px(1,2,CV_8UC1,false),cv::Mat(),px(1,1,CV_8UC3,false)}; std::vector<MatInfo> inf; p->saveFeatures(I[i],a); if(j!=i) p->saveFeatures(I[j],b); CHECK(same(p->loadFeatures(I[i]),a),"features read back exactly"); if(j!=i) CHECK(same(p->loadFeatures(I[j]),b),"and those of another packet"); p->saveFeaturesArray(2,v,&inf); const auto& r=p->loadFeaturesArray(2,inf); CHECK(r.size()==3&&same(r[0],v[0])&&r[1].empty()&&same(r[2],v[2]),"feature arrays read back exactly"); CHECK(p->loadFeatures(3).empty(),"no features were saved for that packet"); lv_cover("end"); }
