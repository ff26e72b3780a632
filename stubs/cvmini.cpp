// Mini-OpenCV: the container layer (cv::Mat, array proxies, eager matrix expressions) and the element-wise / small-kernel
// operations that litiv calls, written against OpenCV 4.6's own headers so that layouts and ABI are the real ones.
// It replaces the machine-code-only libopencv inside the symbolic executor and is part of the trusted base;
// counterexamples are always replayed against the real OpenCV library.
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/features2d.hpp>
#include <opencv2/core/core_c.h>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
extern "C" void lv_unsupported(const char*);
namespace cv {
// ------------------------------------------------------------------ errors
Exception::Exception(){ code=0; line=0; }
Exception::Exception(int c,const String& e,const String& f,const String& fi,int l):code(c),err(e),func(f),file(fi),line(l){ msg=e; }
Exception::~Exception() throw() {}
const char* Exception::what() const throw() { return msg.c_str(); }
void Exception::formatMessage(){}
void error(const Exception& e){ throw e; }
void error(int c,const String& e,const char* f,const char* fi,int l){ throw Exception(c,e,f?f:"",fi?fi:"",l); }
String format(const char* fmt,...){ char b[256]; va_list a; va_start(a,fmt); int n=vsnprintf(b,sizeof(b),fmt,a); va_end(a); return String(b,n<0?0:n<255?n:255); }
#define CVA(c) do{ if(!(c)) cv::error(cv::Error::StsAssert,#c,"","cvmini",__LINE__); }while(0)
// ------------------------------------------------------------------ allocation
UMatData::UMatData(const MatAllocator* a){ prevAllocator=currAllocator=a; urefcount=refcount=mapcount=0; data=origdata=0; size=0; flags=static_cast<UMatData::MemoryFlag>(0); handle=0; userdata=0; allocatorFlags_=0; originalUMatData=0; }
UMatData::~UMatData(){}
void MatAllocator::map(UMatData*,AccessFlag) const {}
void MatAllocator::unmap(UMatData* u) const { if(u->urefcount==0 && u->refcount==0) deallocate(u); }
void MatAllocator::download(UMatData*,void*,int,const size_t[],const size_t[],const size_t[],const size_t[]) const {}
void MatAllocator::upload(UMatData*,const void*,int,const size_t[],const size_t[],const size_t[],const size_t[]) const {}
void MatAllocator::copy(UMatData*,UMatData*,int,const size_t[],const size_t[],const size_t[],const size_t[],const size_t[],bool) const {}
BufferPoolController* MatAllocator::getBufferPoolController(const char*) const { return 0; }
void* fastMalloc(size_t n){ return aligned_alloc(64,(n+63)&~(size_t)63); }
void fastFree(void* p){ free(p); }
struct StdAlloc : MatAllocator {
    UMatData* allocate(int dims,const int* sizes,int type,void* d0,size_t* step,AccessFlag,UMatUsageFlags) const override {
        size_t total=CV_ELEM_SIZE(type);
        for(int i=dims-1;i>=0;i--){ if(step) step[i]=total; total*=sizes[i]; }
        uchar* d=d0?(uchar*)d0:(uchar*)malloc(total);   // exact size: accesses outside the pixels are reported
        UMatData* u=new UMatData(this); u->data=u->origdata=d; u->size=total; if(d0) u->flags|=UMatData::USER_ALLOCATED; return u; }
    bool allocate(UMatData* u,AccessFlag,UMatUsageFlags) const override { return u!=0; }
    void deallocate(UMatData* u) const override { if(!u) return; if(!(u->flags&UMatData::USER_ALLOCATED)) free(u->origdata); delete u; }
};
static StdAlloc g_alloc;
MatAllocator* Mat::getStdAllocator(){ return &g_alloc; }
MatAllocator* Mat::getDefaultAllocator(){ return &g_alloc; }
// ------------------------------------------------------------------ Mat header
static void setSize(Mat& m,int d,const int* sz,const size_t* steps,bool autoSteps=false){
    CVA(0<=d&&d<=CV_MAX_DIM);
    if(m.dims!=d){
        if(m.step.p!=m.step.buf){ fastFree(m.step.p); m.step.p=m.step.buf; m.size.p=&m.rows; }
        if(d>2){ m.step.p=(size_t*)fastMalloc(d*sizeof(size_t)+(d+1)*sizeof(int)); m.size.p=(int*)(m.step.p+d)+1; m.size.p[-1]=d; m.rows=m.cols=-1; } }
    m.dims=d; if(!sz) return;
    size_t esz=CV_ELEM_SIZE(m.flags),esz1=CV_ELEM_SIZE1(m.flags),total=esz;
    for(int i=d-1;i>=0;i--){ int s=sz[i]; CVA(s>=0); m.size.p[i]=s;
        if(steps){ m.step.p[i]=i<d-1?steps[i]:esz; } else if(autoSteps){ m.step.p[i]=total; total*=s; } }
    if(d==1){ m.dims=2; m.cols=1; m.step[1]=esz; } (void)esz1; }
static int contFlag(int flags,int dims,const int* size,const size_t* step){ int i,j; for(i=0;i<dims;i++) if(size[i]>1) break; uint64 t=(uint64)size[std::min(i,dims-1)]*CV_MAT_CN(flags);
    for(j=dims-1;j>i;j--){ t*=size[j]; if(step[j]*size[j]<step[j-1]) break; }
    return (j<=i)?flags|Mat::CONTINUOUS_FLAG:flags&~Mat::CONTINUOUS_FLAG; }
void Mat::updateContinuityFlag(){ flags=contFlag(flags,dims,size.p,step.p); }
static void finalizeHdr(Mat& m){ m.updateContinuityFlag(); int d=m.dims; if(d>2) m.rows=m.cols=-1; if(m.u) m.datastart=m.data=m.u->data;
    if(m.data){ m.datalimit=m.datastart+m.size[0]*m.step[0]; if(m.size[0]>0){ m.dataend=m.ptr()+m.size[d-1]*m.step[d-1]; for(int i=0;i<d-1;i++) m.dataend+=(m.size[i]-1)*m.step[i]; } else m.dataend=m.datalimit; }
    else m.dataend=m.datalimit=0; }
#define MINIT flags(MAGIC_VAL),dims(0),rows(0),cols(0),data(0),datastart(0),dataend(0),datalimit(0),allocator(0),u(0),size(&rows),step(0)
Mat::Mat() CV_NOEXCEPT : MINIT {}
Mat::Mat(int r,int c,int t):MINIT { create(r,c,t); }
Mat::Mat(int r,int c,int t,const Scalar& s):MINIT { create(r,c,t); *this=s; }
Mat::Mat(Size sz,int t):MINIT { create(sz.height,sz.width,t); }
Mat::Mat(Size sz,int t,const Scalar& s):MINIT { create(sz.height,sz.width,t); *this=s; }
Mat::Mat(int d,const int* sz,int t):MINIT { create(d,sz,t); }
Mat::Mat(int d,const int* sz,int t,const Scalar& s):MINIT { create(d,sz,t); *this=s; }
Mat::Mat(const std::vector<int>& sz,int t):MINIT { create((int)sz.size(),sz.data(),t); }
Mat::Mat(const Mat& m):flags(m.flags),dims(m.dims),rows(m.rows),cols(m.cols),data(m.data),datastart(m.datastart),dataend(m.dataend),datalimit(m.datalimit),allocator(m.allocator),u(m.u),size(&rows),step(0){
    if(u) ++u->refcount; if(m.dims<=2){ step[0]=m.step[0]; step[1]=m.step[1]; } else { dims=0; copySize(m); } }
Mat::Mat(Mat&& m) :flags(m.flags),dims(m.dims),rows(m.rows),cols(m.cols),data(m.data),datastart(m.datastart),dataend(m.dataend),datalimit(m.datalimit),allocator(m.allocator),u(m.u),size(&rows){
    if(m.dims<=2){ step[0]=m.step[0]; step[1]=m.step[1]; } else { step.p=m.step.p; size.p=m.size.p; m.step.p=m.step.buf; m.size.p=&m.rows; }
    m.flags=MAGIC_VAL; m.dims=m.rows=m.cols=0; m.data=0; m.datastart=0; m.dataend=0; m.datalimit=0; m.allocator=0; m.u=0; }
Mat::Mat(int r,int c,int t,void* d,size_t st):flags(MAGIC_VAL+(t&TYPE_MASK)),dims(2),rows(r),cols(c),data((uchar*)d),datastart((uchar*)d),dataend(0),datalimit(0),allocator(0),u(0),size(&rows){
    size_t esz=CV_ELEM_SIZE(t),minstep=cols*esz; if(st==AUTO_STEP) st=minstep; step[0]=st; step[1]=esz; datalimit=datastart+st*rows; dataend=datalimit-st+minstep; updateContinuityFlag(); }
Mat::Mat(Size sz,int t,void* d,size_t st):Mat(sz.height,sz.width,t,d,st){}
Mat::Mat(int d,const int* sz,int t,void* p,const size_t* st):MINIT { flags|=CV_MAT_TYPE(t); datastart=data=(uchar*)p; setSize(*this,d,sz,st,true); finalizeHdr(*this); }
Mat::Mat(const std::vector<int>& sz,int t,void* p,const size_t* st):Mat((int)sz.size(),sz.data(),t,p,st){}
Mat::Mat(const Mat& m,const Rect& r):flags(m.flags),dims(2),rows(r.height),cols(r.width),data(m.data+r.y*m.step[0]),datastart(m.datastart),dataend(m.dataend),datalimit(m.datalimit),allocator(m.allocator),u(m.u),size(&rows){
    CVA(m.dims<=2); size_t esz=CV_ELEM_SIZE(flags); data+=r.x*esz;
    CVA(0<=r.x&&0<=r.width&&r.x+r.width<=m.cols&&0<=r.y&&0<=r.height&&r.y+r.height<=m.rows);
    if(u) ++u->refcount; if(r.width<m.cols||r.height<m.rows) flags|=SUBMATRIX_FLAG; step[0]=m.step[0]; step[1]=esz; updateContinuityFlag();
    if(rows<=0||cols<=0){ release(); rows=cols=0; } }
Mat::Mat(const Mat& m,const Range& rr,const Range& cr):MINIT { Range r=rr==Range::all()?Range(0,m.rows):rr,c=cr==Range::all()?Range(0,m.cols):cr; CVA(0<=r.start&&r.start<=r.end&&r.end<=m.rows&&0<=c.start&&c.start<=c.end&&c.end<=m.cols);
    CVA(m.dims<=2); *this=Mat(m,Rect(c.start,r.start,c.end-c.start,r.end-r.start)); }
Mat::Mat(const Mat& m,const Range* ranges):MINIT { int d=m.dims; CVA(ranges); for(int i=0;i<d;i++){ Range r=ranges[i]; CVA(r==Range::all()||(0<=r.start&&r.start<r.end&&r.end<=m.size[i])); }
    *this=m; for(int i=0;i<d;i++){ Range r=ranges[i]; if(r!=Range::all()&&r!=Range(0,size.p[i])){ size.p[i]=r.end-r.start; data+=r.start*step.p[i]; flags|=SUBMATRIX_FLAG; } } updateContinuityFlag(); }
Mat::Mat(const Mat& m,const std::vector<Range>& r):Mat(m,r.data()){}
Mat::~Mat(){ release(); if(step.p!=step.buf) fastFree(step.p); }
Mat& Mat::operator=(const Mat& m){ if(this!=&m){ if(m.u) ++m.u->refcount; release(); flags=m.flags; if(dims<=2&&m.dims<=2){ dims=m.dims; rows=m.rows; cols=m.cols; step[0]=m.step[0]; step[1]=m.step[1]; } else copySize(m);
    data=m.data; datastart=m.datastart; dataend=m.dataend; datalimit=m.datalimit; allocator=m.allocator; u=m.u; } return *this; }
Mat& Mat::operator=(Mat&& m){ if(this==&m) return *this; release(); flags=m.flags; dims=m.dims; rows=m.rows; cols=m.cols; data=m.data; datastart=m.datastart; dataend=m.dataend; datalimit=m.datalimit; allocator=m.allocator; u=m.u;
    if(step.p!=step.buf){ fastFree(step.p); step.p=step.buf; size.p=&rows; }
    if(m.dims<=2){ step[0]=m.step[0]; step[1]=m.step[1]; } else { step.p=m.step.p; size.p=m.size.p; m.step.p=m.step.buf; m.size.p=&m.rows; }
    m.flags=MAGIC_VAL; m.dims=m.rows=m.cols=0; m.data=0; m.datastart=0; m.dataend=0; m.datalimit=0; m.allocator=0; m.u=0; return *this; }
void Mat::copySize(const Mat& m){ setSize(*this,m.dims,0,0); for(int i=0;i<dims;i++){ size[i]=m.size[i]; step[i]=m.step[i]; } }
void Mat::addref(){ if(u) ++u->refcount; }
void Mat::release(){ if(u && --u->refcount==0) deallocate(); u=0; datastart=dataend=datalimit=data=0; for(int i=0;i<dims;i++) size.p[i]=0; }
void Mat::deallocate(){ if(u){ UMatData* u_=u; u=0; (u_->currAllocator?u_->currAllocator:allocator?allocator:&g_alloc)->unmap(u_); } }
bool Mat::empty() const { return data==0||total()==0||dims==0; }
size_t Mat::total() const { if(dims<=2) return (size_t)rows*cols; size_t p=1; for(int i=0;i<dims;i++) p*=size[i]; return p; }
size_t Mat::total(int s,int e) const { size_t p=1; int e_=e<=dims?e:dims; for(int i=s;i<e_;i++) p*=size[i]; return p; }
void Mat::create(int r,int c,int t){ t&=TYPE_MASK; if(dims<=2&&rows==r&&cols==c&&type()==t&&data) return; int sz[]={r,c}; create(2,sz,t); }
void Mat::create(Size s,int t){ create(s.height,s.width,t); }
void Mat::create(const std::vector<int>& s,int t){ create((int)s.size(),s.data(),t); }
void Mat::create(int d,const int* sizes,int t){ CVA(0<=d&&d<=CV_MAX_DIM&&sizes); t=CV_MAT_TYPE(t);
    if(data&&(d==dims||(d==1&&dims<=2))&&t==type()){ bool same=true; if(d==2&&rows==sizes[0]&&cols==sizes[1]) return; int i; for(i=0;i<d;i++) if(size[i]!=sizes[i]) break; if(i==d&&(d>1||size[1]==1)) return; }
    int bak[CV_MAX_DIM]; for(int i=0;i<d;i++) bak[i]=sizes[i]; sizes=bak; release(); if(d==0) return; flags=(t&CV_MAT_TYPE_MASK)|MAGIC_VAL; setSize(*this,d,sizes,0,true);
    if(total()>0){ const MatAllocator* a=allocator?allocator:&g_alloc; u=a->allocate(dims,size,t,0,step.p,ACCESS_RW,USAGE_DEFAULT); CVA(u!=0); CVA(step[dims-1]==(size_t)CV_ELEM_SIZE(flags)); }
    addref(); finalizeHdr(*this); }
bool MatSize::operator==(const MatSize& sz) const CV_NOEXCEPT { int d=dims(),ds=sz.dims(); if(d!=ds) return false; if(d==2) return p[0]==sz.p[0]&&p[1]==sz.p[1]; for(int i=0;i<d;i++) if(p[i]!=sz.p[i]) return false; return true; }
Mat Mat::reshape(int ncn,int nrows) const { int cn=channels(); Mat hdr=*this;
    if(dims>2){ if(nrows==0&&ncn!=0&&size[dims-1]*cn%ncn==0){ hdr.flags=(hdr.flags&~CV_MAT_CN_MASK)|((ncn-1)<<CV_CN_SHIFT); hdr.step[dims-1]=CV_ELEM_SIZE(hdr.flags); hdr.size[dims-1]=hdr.size[dims-1]*cn/ncn; return hdr; }
        if(nrows>0){ if(!ncn) ncn=cn; int sz[]={nrows,(int)(total()*cn/nrows/ncn)}; return reshape(ncn,2,sz); } CVA(dims<=2); }
    if(ncn==0) ncn=cn; int tw=cols*cn; if((ncn>tw||tw%ncn!=0)&&nrows==0) nrows=rows*tw/ncn;
    if(nrows!=0&&nrows!=rows){ int ts=tw*rows; if(!isContinuous()) error(Error::BadStep,"not continuous","","",0); CVA((unsigned)nrows<=(unsigned)ts); tw=ts/nrows; CVA(tw*nrows==ts); hdr.rows=nrows; hdr.step[0]=tw*elemSize1(); }
    int nw=tw/ncn; CVA(nw*ncn==tw); hdr.cols=nw; hdr.flags=(hdr.flags&~CV_MAT_CN_MASK)|((ncn-1)<<CV_CN_SHIFT); hdr.step[1]=CV_ELEM_SIZE(hdr.flags); return hdr; }
Mat Mat::reshape(int ncn,int nd,const int* nsz) const { if(nd==dims){ if(nsz==0) return reshape(ncn); if(nd==2) return reshape(ncn,nsz[0]); }
    if(isContinuous()){ CVA(ncn>=0&&nsz&&nd>0); if(ncn==0) ncn=channels(); Mat hdr=*this; hdr.flags=(hdr.flags&~CV_MAT_CN_MASK)|((ncn-1)<<CV_CN_SHIFT);
        size_t tot=total()*channels(),nt=ncn; int buf[CV_MAX_DIM]; for(int i=0;i<nd;i++){ buf[i]=nsz[i]?nsz[i]:size[i]; nt*=buf[i]; } CVA(nt==tot); setSize(hdr,nd,buf,0,true); return hdr; }
    error(Error::StsNotImplemented,"reshape of nD non-continuous","","",0); return Mat(); }
Mat Mat::reshape(int cn,const std::vector<int>& s) const { return reshape(cn,(int)s.size(),s.data()); }
// ------------------------------------------------------------------ element traversal: every op below is a loop over rows of
// elements; rows(m) flattens the outer dimensions.
static int nrowsOf(const Mat& m){ if(m.dims<=2) return m.rows; size_t n=1; for(int i=0;i<m.dims-1;i++) n*=m.size[i]; return (int)n; }
static int ncolsOf(const Mat& m){ return m.dims<=2?m.cols:m.size[m.dims-1]; }
static uchar* rowPtr(const Mat& m,int r){ if(m.dims<=2) return m.data+m.step[0]*r; uchar* p=m.data; for(int i=m.dims-2;i>=0;i--){ p+=(size_t)(r%m.size[i])*m.step[i]; r/=m.size[i]; } return p; }
#define DEPTHSW(d,T,...) switch(d){ case CV_8U:{ typedef uchar T; __VA_ARGS__; break; } case CV_8S:{ typedef schar T; __VA_ARGS__; break; } case CV_16U:{ typedef ushort T; __VA_ARGS__; break; } case CV_16S:{ typedef short T; __VA_ARGS__; break; } case CV_32S:{ typedef int T; __VA_ARGS__; break; } case CV_32F:{ typedef float T; __VA_ARGS__; break; } case CV_64F:{ typedef double T; __VA_ARGS__; break; } default: lv_unsupported("depth"); }
Mat Mat::clone() const { Mat m; copyTo(m); return m; }
void Mat::assignTo(Mat& m,int t) const { if(t<0) m=*this; else convertTo(m,t); }
void Mat::copyTo(OutputArray dst) const { if(empty()){ dst.release(); return; }
    if(dst.fixedType()&&dst.type()!=type()){ convertTo(dst,dst.type()); return; }
    if(dims<=2) dst.create(rows,cols,type()); else dst.create(dims,size.p,type()); Mat d=dst.getMat(); if(data==d.data) return;
    int R=nrowsOf(*this); size_t n=(size_t)ncolsOf(*this)*elemSize(); for(int r=0;r<R;r++) memmove(rowPtr(d,r),rowPtr(*this,r),n); }
void Mat::copyTo(OutputArray dst,InputArray mask_) const { Mat mask=mask_.getMat(); if(!mask.data){ copyTo(dst); return; }
    int mcn=mask.channels(),cn=channels(); CVA(mask.depth()==CV_8U&&(mcn==1||mcn==cn)); CVA(size==mask.size);
    Mat d; { Mat d0=dst.getMat(); if(dims<=2) dst.create(rows,cols,type()); else dst.create(dims,size.p,type()); d=dst.getMat(); if(d.data!=d0.data) d=Scalar(0); }
    size_t esz=mcn>1?elemSize1():elemSize(); int n=ncolsOf(*this)*mcn;
    for(int r=0;r<nrowsOf(*this);r++){ const uchar* s=rowPtr(*this,r); uchar* o=rowPtr(d,r); const uchar* k=rowPtr(mask,r); for(int i=0;i<n;i++){ bool b=k[i]!=0; for(size_t j=0;j<esz;j++) o[i*esz+j]=b?s[i*esz+j]:o[i*esz+j]; } } }
template<typename T,typename U> static void cvtRow(const T* s,U* d,int n){ for(int i=0;i<n;i++) d[i]=saturate_cast<U>(s[i]); }
template<typename T,typename U> static void cvtRowS(const T* s,U* d,int n,double a,double b){ for(int i=0;i<n;i++) d[i]=saturate_cast<U>(s[i]*a+b); }
template<typename T,typename U> static void cvtRowSf(const T* s,U* d,int n,float a,float b){ for(int i=0;i<n;i++) d[i]=saturate_cast<U>(s[i]*a+b); }
void Mat::convertTo(OutputArray dst,int rt,double alpha,double beta) const { if(empty()){ dst.release(); return; }
    bool noScale=std::abs(alpha-1)<DBL_EPSILON&&std::abs(beta)<DBL_EPSILON; if(rt<0) rt=dst.fixedType()?dst.type():type(); else rt=CV_MAKETYPE(CV_MAT_DEPTH(rt),channels());
    int sd=depth(),dd=CV_MAT_DEPTH(rt); if(sd==dd&&noScale){ copyTo(dst); return; } Mat src=*this; if(dims<=2) dst.create(rows,cols,rt); else dst.create(dims,size.p,rt); Mat d=dst.getMat(); int n=ncolsOf(src)*channels();
    for(int r=0;r<nrowsOf(src);r++){ uchar* s=rowPtr(src,r); uchar* o=rowPtr(d,r);
        DEPTHSW(sd,T,DEPTHSW(dd,U, if(noScale) cvtRow((const T*)s,(U*)o,n); else if(sd<CV_32S&&dd<=CV_32F&&dd!=CV_32S) cvtRowSf((const T*)s,(U*)o,n,(float)alpha,(float)beta); else cvtRowS((const T*)s,(U*)o,n,alpha,beta))) } }
Mat& Mat::operator=(const Scalar& s){ if(empty()) return *this; int cn=channels(),n=ncolsOf(*this); CVA(cn<=4||(s[0]==0&&s[1]==0&&s[2]==0&&s[3]==0)||true);
    for(int r=0;r<nrowsOf(*this);r++){ uchar* o=rowPtr(*this,r); DEPTHSW(depth(),T, T v[4]; for(int k=0;k<4;k++) v[k]=saturate_cast<T>(s[k]); for(int i=0;i<n;i++) for(int k=0;k<cn;k++) ((T*)o)[i*cn+k]=v[k&3]) } return *this; }
static Mat matOrScalar(InputArray a,const Mat& like){ // a broadcast scalar argument becomes a full matrix of `like`'s shape in CV_64F
    return a.getMat(); }
static bool isScalarArg(InputArray a,const Mat& m){ Mat v=a.getMat(); if(a.kind()==_InputArray::MATX||a.kind()==_InputArray::STD_VECTOR) return !(v.size()==m.size()&&v.type()==m.type()&&m.dims<=2&&a.kind()==_InputArray::MATX&&m.total()>4); return !(v.size==m.size); }
static void scalarVals(InputArray a,double* s,int cn){ Mat v=a.getMat(); Mat w; v.convertTo(w,CV_64F); int n=(int)w.total()*w.channels(); const double* p=(const double*)w.data; for(int i=0;i<std::max(cn,4);i++) s[i]=n==1?p[0]:i<n?p[i]:0; }
Mat& Mat::setTo(InputArray val,InputArray mask_){ if(empty()) return *this; Mat mask=mask_.getMat(); double s[CV_CN_MAX>64?64:64]; int cn=channels(),n=ncolsOf(*this); scalarVals(val,s,cn); if(mask.data) CVA(mask.depth()==CV_8U&&(mask.channels()==1||mask.channels()==cn)&&size==mask.size); int mcn=mask.data?mask.channels():1;
    for(int r=0;r<nrowsOf(*this);r++){ uchar* o=rowPtr(*this,r); const uchar* k=mask.data?rowPtr(mask,r):0; DEPTHSW(depth(),T, for(int i=0;i<n;i++) for(int c=0;c<cn;c++){ T v=saturate_cast<T>(s[c]); T& x=((T*)o)[i*cn+c]; if(k) x=k[i*mcn+(mcn>1?c:0)]?v:x; else x=v; }) } return *this; }
void Mat::push_back_(const void*){ lv_unsupported("Mat::push_back"); }
void Mat::resize(size_t){ lv_unsupported("Mat::resize"); }
// ------------------------------------------------------------------ array proxies
static _InputOutputArray g_none;
InputOutputArray noArray(){ return g_none; }
_InputArray::KindFlag _InputArray::kind() const { return (_InputArray::KindFlag)(flags&KIND_MASK); }
Mat _InputArray::getMat_(int i) const { int k=kind(); 
    if(k==MAT){ const Mat* m=(const Mat*)obj; if(i<0) return *m; return m->row(i); }
    if(k==MATX||k==STD_ARRAY){ return Mat(sz,flags,obj); }
    if(k==STD_VECTOR){ int t=CV_MAT_TYPE(flags); const std::vector<uchar>& v=*(const std::vector<uchar>*)obj; int n=(int)(v.size()/CV_ELEM_SIZE(t)); return n?Mat(1,n,t,(void*)v.data()):Mat(); }
    if(k==STD_VECTOR_MAT){ const std::vector<Mat>& v=*(const std::vector<Mat>*)obj; CVA(0<=i&&i<(int)v.size()); return v[i]; }
    if(k==NONE) return Mat(); lv_unsupported("InputArray kind"); return Mat(); }
void _InputArray::getMatVector(std::vector<Mat>& mv) const { if(kind()==STD_VECTOR_MAT){ mv=*(const std::vector<Mat>*)obj; return; } lv_unsupported("getMatVector"); }
int _InputArray::type(int i) const { int k=kind(); if(k==MAT) return ((const Mat*)obj)->type(); if(k==MATX||k==STD_VECTOR||k==STD_ARRAY) return CV_MAT_TYPE(flags); if(k==STD_VECTOR_MAT){ const std::vector<Mat>& v=*(const std::vector<Mat>*)obj; if(v.empty()) return CV_MAT_TYPE(flags); return v[i>=0?i:0].type(); } return -1; }
int _InputArray::depth(int i) const { return CV_MAT_DEPTH(type(i)); }
int _InputArray::channels(int i) const { return CV_MAT_CN(type(i)); }
Size _InputArray::size(int i) const { if(kind()==STD_VECTOR_MAT&&i<0) return Size((int)((const std::vector<Mat>*)obj)->size(),1); return getMat_(i).size(); }
size_t _InputArray::total(int i) const { if(kind()==STD_VECTOR_MAT&&i<0) return ((const std::vector<Mat>*)obj)->size(); return getMat_(i).total(); }
int _InputArray::dims(int i) const { return getMat_(i).dims; }
bool _InputArray::empty() const { int k=kind(); if(k==NONE) return true; if(k==MAT) return ((const Mat*)obj)->empty(); if(k==MATX||k==STD_ARRAY) return false; if(k==STD_VECTOR) return ((const std::vector<uchar>*)obj)->empty(); if(k==STD_VECTOR_MAT) return ((const std::vector<Mat>*)obj)->empty(); return true; }
bool _OutputArray::fixedSize() const { return (flags&FIXED_SIZE)==FIXED_SIZE; }
bool _OutputArray::fixedType() const { return (flags&FIXED_TYPE)==FIXED_TYPE; }
Mat& _OutputArray::getMatRef(int i) const { if(kind()==STD_VECTOR_MAT){ std::vector<Mat>& v=*(std::vector<Mat>*)obj; return v[i]; } return *(Mat*)obj; }
void _OutputArray::create(Size s,int t,int i,bool,DepthMask) const { create(s.height,s.width,t,i); }
void _OutputArray::create(int r,int c,int t,int i,bool,DepthMask) const { int sz[2]={r,c}; create(2,sz,t,i); }
void _OutputArray::create(int d,const int* sz,int t,int i,bool,DepthMask fdm) const { int k=kind(); t=CV_MAT_TYPE(t);
    if(k==MAT){ Mat& m=*(Mat*)obj; CVA(!(m.empty()&&fixedType()&&fixedSize())); if(fixedType()){ if(CV_MAT_CN(t)==m.channels()&&((1<<CV_MAT_TYPE(flags))&fdm)!=0) t=m.type(); else CVA(CV_MAT_TYPE(t)==m.type()); } m.create(d,sz,t); return; }
    if(k==MATX||k==STD_ARRAY) return;
    if(k==STD_VECTOR){ size_t len=d==2?(sz[0]*sz[1]>0?sz[0]+sz[1]-1:0):sz[0]; int t0=CV_MAT_TYPE(flags); ((std::vector<uchar>*)obj)->resize(len*CV_ELEM_SIZE(t0)); return; }
    if(k==STD_VECTOR_MAT){ std::vector<Mat>& v=*(std::vector<Mat>*)obj; if(i<0){ size_t len=d==2?(sz[0]*sz[1]>0?sz[0]+sz[1]-1:0):sz[0]; v.resize(len); return; } v[i].create(d,sz,t); return; }
    if(k==NONE){ error(Error::StsNullPtr,"create() called for the missing output array","","",0); return; } lv_unsupported("OutputArray kind"); }
void _OutputArray::release() const { int k=kind(); if(k==MAT) ((Mat*)obj)->release(); else if(k==STD_VECTOR) create(Size(),CV_MAT_TYPE(flags)); else if(k==STD_VECTOR_MAT) ((std::vector<Mat>*)obj)->clear(); }
bool _OutputArray::needed() const { return kind()!=NONE; }
// ------------------------------------------------------------------ MatExpr: evaluated eagerly, wrapped in an identity op
MatOp::MatOp(){} MatOp::~MatOp(){} bool MatOp::elementWise(const MatExpr&) const { return false; }
void MatOp::roi(const MatExpr&,const Range&,const Range&,MatExpr&) const { lv_unsupported("MatOp::roi"); } void MatOp::diag(const MatExpr&,int,MatExpr&) const { lv_unsupported("MatOp"); }
#define AUG(n) void MatOp::n(const MatExpr&,Mat&) const { lv_unsupported("MatOp::" #n); }
AUG(augAssignAdd) AUG(augAssignSubtract) AUG(augAssignMultiply) AUG(augAssignDivide) AUG(augAssignAnd) AUG(augAssignOr) AUG(augAssignXor)
void MatOp::add(const MatExpr&,const MatExpr&,MatExpr&) const {} void MatOp::add(const MatExpr&,const Scalar&,MatExpr&) const {} void MatOp::subtract(const MatExpr&,const MatExpr&,MatExpr&) const {} void MatOp::subtract(const Scalar&,const MatExpr&,MatExpr&) const {}
void MatOp::multiply(const MatExpr&,const MatExpr&,MatExpr&,double) const {} void MatOp::multiply(const MatExpr&,double,MatExpr&) const {} void MatOp::divide(const MatExpr&,const MatExpr&,MatExpr&,double) const {} void MatOp::divide(double,const MatExpr&,MatExpr&) const {}
void MatOp::abs(const MatExpr&,MatExpr&) const {} void MatOp::transpose(const MatExpr&,MatExpr&) const {} void MatOp::matmul(const MatExpr&,const MatExpr&,MatExpr&) const {} void MatOp::invert(const MatExpr&,int,MatExpr&) const {}
Size MatOp::size(const MatExpr& e) const { return e.a.size(); } int MatOp::type(const MatExpr& e) const { return e.a.type(); }
struct IdOp : MatOp { void assign(const MatExpr& e,Mat& m,int t=-1) const override { if(m.empty()&&(t<0||t==e.a.type())) m=e.a; else if(t<0) e.a.copyTo(m); else e.a.convertTo(m,t); } };
static IdOp g_id;
MatExpr::MatExpr(const Mat& m):op(&g_id),flags(0),a(m),alpha(1),beta(0){}
Size MatExpr::size() const { return a.size(); } int MatExpr::type() const { return a.type(); }
_InputArray::_InputArray(const MatExpr& e){ init(FIXED_TYPE+FIXED_SIZE+MAT+ACCESS_READ,&e.a); }
MatExpr Mat::zeros(int r,int c,int t){ return MatExpr(Mat(r,c,t,Scalar(0,0,0,0))); }
MatExpr Mat::zeros(Size s,int t){ return MatExpr(Mat(s,t,Scalar(0,0,0,0))); }
MatExpr Mat::zeros(int d,const int* sz,int t){ return MatExpr(Mat(d,sz,t,Scalar(0,0,0,0))); }
MatExpr Mat::ones(int r,int c,int t){ return MatExpr(Mat(r,c,t,Scalar(1,0,0,0))); }
MatExpr Mat::ones(Size s,int t){ return MatExpr(Mat(s,t,Scalar(1,0,0,0))); }
MatExpr Mat::ones(int d,const int* sz,int t){ return MatExpr(Mat(d,sz,t,Scalar(1,0,0,0))); }
MatExpr Mat::eye(int r,int c,int t){ Mat m(r,c,t,Scalar(0)); for(int i=0;i<std::min(r,c);i++) DEPTHSW(CV_MAT_DEPTH(t),T,m.at<T>(i,i)=1) return MatExpr(m); }
MatExpr Mat::eye(Size s,int t){ return eye(s.height,s.width,t); }
// generic element-wise binary operation
template<class F> static void binop(const Mat& a,const Mat& b,Mat& d,F f){ int n=ncolsOf(a)*a.channels(); for(int r=0;r<nrowsOf(a);r++){ uchar *x=rowPtr(a,r),*y=rowPtr(b,r),*o=rowPtr(d,r); DEPTHSW(a.depth(),T, for(int i=0;i<n;i++) ((T*)o)[i]=f(((T*)x)[i],((T*)y)[i])) } }
template<class F> static void unop(const Mat& a,Mat& d,F f){ int n=ncolsOf(a)*a.channels(); for(int r=0;r<nrowsOf(a);r++){ uchar *x=rowPtr(a,r),*o=rowPtr(d,r); DEPTHSW(a.depth(),T, for(int i=0;i<n;i++) ((T*)o)[i]=f(((T*)x)[i],i)) } }
template<typename T> struct Wide { typedef int type; }; template<> struct Wide<int>{ typedef double type; }; template<> struct Wide<float>{ typedef float type; }; template<> struct Wide<double>{ typedef double type; };
static Mat outLike(OutputArray dst,const Mat& a,int type){ if(a.dims<=2) dst.create(a.rows,a.cols,type); else dst.create(a.dims,a.size.p,type); return dst.getMat(); }
enum { OP_ADD,OP_SUB,OP_MUL,OP_DIV,OP_ABSDIFF,OP_MIN,OP_MAX };
template<typename T> static T arith1(int op,T x,T y,double scale){ typedef typename Wide<T>::type W; W a=x,b=y; switch(op){ case OP_ADD: return saturate_cast<T>((W)(a+b)); case OP_SUB: return saturate_cast<T>((W)(a-b)); case OP_MUL: return scale==1?saturate_cast<T>((W)(a*b)):saturate_cast<T>((W)(scale*(W)a*b));
    case OP_DIV: if((T)0.5==(T)0) return y!=0?saturate_cast<T>((double)x*scale/y):(T)0; return saturate_cast<T>((W)(a*scale/b)); case OP_ABSDIFF: return saturate_cast<T>((W)(a>b?a-b:b-a)); case OP_MIN: return x<y?x:y; default: return x>y?x:y; } }
static void arithMM(int op,const Mat& a0,const Mat& b0,OutputArray dst,InputArray mask_,int dtype,double scale=1){ Mat a=a0,b=b0; CVA(a.size==b.size&&a.channels()==b.channels()); int dd=dtype<0?(a.depth()):CV_MAT_DEPTH(dtype); if(dtype<0) CVA(a.depth()==b.depth());
    int wd=std::max(std::max(a.depth(),b.depth()),dd); if(a.depth()!=dd||b.depth()!=dd){ int w2=std::max(wd,(int)CV_32S); if(wd>CV_32S) w2=wd; else w2=CV_64F; Mat x,y,z; a.convertTo(x,w2); b.convertTo(y,w2); z.create(x.dims,x.size.p,x.type()); binop(x,y,z,[&](auto p,auto q){ return arith1(op,p,q,scale); }); Mat m=mask_.getMat(); Mat zz; z.convertTo(zz,dd); if(m.data){ Mat d=outLike(dst,a,CV_MAKETYPE(dd,a.channels())); zz.copyTo(d,m); } else zz.copyTo(dst); return; }
    Mat m=mask_.getMat(); if(m.data){ Mat z(a.dims,a.size.p,a.type()); binop(a,b,z,[&](auto p,auto q){ return arith1(op,p,q,scale); }); Mat d=outLike(dst,a,a.type()); z.copyTo(d,m); return; }
    Mat d=outLike(dst,a,a.type()); binop(a,b,d,[&](auto p,auto q){ return arith1(op,p,q,scale); }); }
static void arithMS(int op,const Mat& a0,const double* s,bool rev,OutputArray dst,InputArray mask_,int dtype,double scale=1){ Mat a=a0; int cn=a.channels(),dd=dtype<0?a.depth():CV_MAT_DEPTH(dtype); Mat z(a.dims,a.size.p,CV_MAKETYPE(dd,cn)); int n=ncolsOf(a)*cn; bool integral=true; for(int k=0;k<std::min(cn,4);k++) integral=integral&&s[k]==(double)(int)s[k];
    for(int r=0;r<nrowsOf(a);r++){ uchar *x=rowPtr(a,r),*o=rowPtr(z,r); DEPTHSW(a.depth(),T,DEPTHSW(dd,U, for(int i=0;i<n;i++){ double p=(double)((T*)x)[i],q=s[i%cn&3]; if(op!=OP_MUL&&op!=OP_DIV&&integral&&sizeof(T)<=2&&sizeof(U)<=2){ int pi=(int)((T*)x)[i],qi=(int)q; if(rev) std::swap(pi,qi); ((U*)o)[i]=saturate_cast<U>((int)arith1<int>(op==OP_ADD?OP_ADD:op,pi,qi,1)); } else { if(rev) std::swap(p,q); double v; switch(op){ case OP_ADD: v=p+q; break; case OP_SUB: v=p-q; break; case OP_MUL: v=p*q*scale; break; case OP_DIV: v=q!=0?p*scale/q:0; if((U)0.5!=(U)0) v=p*scale/q; break; case OP_ABSDIFF: v=p>q?p-q:q-p; break; case OP_MIN: v=p<q?p:q; break; default: v=p>q?p:q; } ((U*)o)[i]=saturate_cast<U>(v); } })) }
    Mat m=mask_.getMat(); if(m.data){ Mat d=outLike(dst,a,z.type()); z.copyTo(d,m); } else z.copyTo(dst); }
static void arith(int op,InputArray a,InputArray b,OutputArray dst,InputArray mask,int dtype,double scale=1){ Mat A=a.getMat(),B=b.getMat(); if(A.size==B.size&&A.type()==B.type()&&!(a.kind()==_InputArray::MATX||b.kind()==_InputArray::MATX)){ arithMM(op,A,B,dst,mask,dtype,scale); return; }
    double s[64]; if(isScalarArg(b,A)&&b.kind()!=_InputArray::MAT||B.total()<=4&&!(A.size==B.size)){ scalarVals(b,s,A.channels()); arithMS(op,A,s,false,dst,mask,dtype,scale); return; }
    if(a.kind()==_InputArray::MATX){ scalarVals(a,s,B.channels()); arithMS(op,B,s,true,dst,mask,dtype,scale); return; } arithMM(op,A,B,dst,mask,dtype,scale); }
void add(InputArray a,InputArray b,OutputArray d,InputArray m,int t){ arith(OP_ADD,a,b,d,m,t); }
void subtract(InputArray a,InputArray b,OutputArray d,InputArray m,int t){ arith(OP_SUB,a,b,d,m,t); }
void multiply(InputArray a,InputArray b,OutputArray d,double s,int t){ arith(OP_MUL,a,b,d,noArray(),t,s); }
void divide(InputArray a,InputArray b,OutputArray d,double s,int t){ arith(OP_DIV,a,b,d,noArray(),t,s); }
void absdiff(InputArray a,InputArray b,OutputArray d){ arith(OP_ABSDIFF,a,b,d,noArray(),-1); }
void min(InputArray a,InputArray b,OutputArray d){ arith(OP_MIN,a,b,d,noArray(),-1); }
void max(InputArray a,InputArray b,OutputArray d){ arith(OP_MAX,a,b,d,noArray(),-1); }
#define ME MatExpr
static ME mmop(int op,const Mat& a,const Mat& b){ Mat d; arithMM(op,a,b,d,noArray(),-1); return ME(d); }
static ME msop(int op,const Mat& a,const Scalar& s,bool rev){ Mat d; double v[4]={s[0],s[1],s[2],s[3]}; arithMS(op,a,v,rev,d,noArray(),-1); return ME(d); }
ME operator+(const Mat& a,const Mat& b){ return mmop(OP_ADD,a,b); } ME operator-(const Mat& a,const Mat& b){ return mmop(OP_SUB,a,b); }
ME operator+(const Mat& a,const Scalar& s){ return msop(OP_ADD,a,s,false); } ME operator+(const Scalar& s,const Mat& a){ return msop(OP_ADD,a,s,false); }
ME operator-(const Mat& a,const Scalar& s){ return msop(OP_SUB,a,s,false); } ME operator-(const Scalar& s,const Mat& a){ return msop(OP_SUB,a,s,true); }
ME operator+(const ME& a,const Mat& b){ return Mat(a)+b; } ME operator+(const Mat& a,const ME& b){ return a+Mat(b); } ME operator+(const ME& a,const ME& b){ return Mat(a)+Mat(b); } ME operator+(const ME& a,const Scalar& s){ return Mat(a)+s; } ME operator+(const Scalar& s,const ME& a){ return Mat(a)+s; }
ME operator-(const ME& a,const Mat& b){ return Mat(a)-b; } ME operator-(const Mat& a,const ME& b){ return a-Mat(b); } ME operator-(const ME& a,const ME& b){ return Mat(a)-Mat(b); } ME operator-(const ME& a,const Scalar& s){ return Mat(a)-s; } ME operator-(const Scalar& s,const ME& a){ return s-Mat(a); }
ME operator*(const Mat& a,double s){ Mat d; a.convertTo(d,-1,s,0); if(d.data==a.data) d=a.clone(); return ME(d); } ME operator*(double s,const Mat& a){ return a*s; } ME operator*(const ME& a,double s){ return Mat(a)*s; } ME operator*(double s,const ME& a){ return Mat(a)*s; }
ME operator/(const Mat& a,double s){ return a*(1./s); } ME operator/(const ME& a,double s){ return Mat(a)/s; } ME operator/(const Mat& a,const Mat& b){ return mmop(OP_DIV,a,b); } ME operator/(const ME& a,const Mat& b){ return Mat(a)/b; } ME operator/(const Mat& a,const ME& b){ return a/Mat(b); }
ME Mat::mul(InputArray b,double s) const { Mat d; arith(OP_MUL,*this,b,d,noArray(),-1,s); return ME(d); }
ME abs(const Mat& a){ Mat d(a.dims,a.size.p,a.type()); unop(a,d,[&](auto v,int){ typedef decltype(v) T; return saturate_cast<T>(v<0?-(typename Wide<T>::type)v:(typename Wide<T>::type)v); }); return ME(d); }
ME abs(const ME& e){ return abs(Mat(e)); }
ME min(const Mat& a,double s){ double v[4]={s,s,s,s}; Mat d; arithMS(OP_MIN,a,v,false,d,noArray(),-1); return ME(d); }
ME max(const Mat& a,double s){ double v[4]={s,s,s,s}; Mat d; arithMS(OP_MAX,a,v,false,d,noArray(),-1); return ME(d); }
template<typename T> static bool cmp1(int op,T x,T y){ switch(op){ case CMP_EQ: return x==y; case CMP_GT: return x>y; case CMP_GE: return x>=y; case CMP_LT: return x<y; case CMP_LE: return x<=y; default: return x!=y; } }
static Mat cmpMM(const Mat& a,const Mat& b,int op){ CVA(a.size==b.size&&a.type()==b.type()); Mat d(a.dims,a.size.p,CV_8UC(a.channels())); int n=ncolsOf(a)*a.channels(); for(int r=0;r<nrowsOf(a);r++){ uchar *x=rowPtr(a,r),*y=rowPtr(b,r),*o=rowPtr(d,r); DEPTHSW(a.depth(),T, for(int i=0;i<n;i++) o[i]=cmp1(op,((T*)x)[i],((T*)y)[i])?255:0) } return d; }
static Mat cmpMS(const Mat& a,double s,int op){ Mat d(a.dims,a.size.p,CV_8UC(a.channels())); int n=ncolsOf(a)*a.channels(); bool ii=s==(double)(int)s; for(int r=0;r<nrowsOf(a);r++){ uchar *x=rowPtr(a,r),*o=rowPtr(d,r); DEPTHSW(a.depth(),T, for(int i=0;i<n;i++) o[i]=((T)0.5==(T)0&&ii?cmp1<int>(op,(int)((T*)x)[i],(int)s):cmp1<double>(op,(double)((T*)x)[i],s))?255:0) } return d; }
void compare(InputArray a,InputArray b,OutputArray d,int op){ Mat A=a.getMat(),B=b.getMat(); if(A.empty()&&B.empty()){ d.release(); return; } if(A.size==B.size&&A.type()==B.type()&&b.kind()==_InputArray::MAT){ cmpMM(A,B,op).copyTo(d); return; } double s[4]; scalarVals(b,s,1); cmpMS(A,s[0],op).copyTo(d); }
#define CMPOP(o,c) ME operator o(const Mat& a,const Mat& b){ return ME(cmpMM(a,b,c)); } ME operator o(const Mat& a,double s){ return ME(cmpMS(a,s,c)); }
CMPOP(==,CMP_EQ) CMPOP(!=,CMP_NE) CMPOP(<,CMP_LT) CMPOP(<=,CMP_LE) CMPOP(>,CMP_GT) CMPOP(>=,CMP_GE)
enum { B_AND,B_OR,B_XOR,B_NOT };
static uchar bit1(int op,uchar x,uchar y){ return op==B_AND?x&y:op==B_OR?x|y:op==B_XOR?x^y:(uchar)~x; }
static void bitop(int op,InputArray a,InputArray b,OutputArray dst,InputArray mask_){ Mat A=a.getMat(),B=op==B_NOT?A:b.getMat(); Mat z(A.dims,A.size.p,A.type()); int n=ncolsOf(A)*(int)A.elemSize();
    if(!(A.size==B.size&&A.type()==B.type())){ Mat t(A.dims,A.size.p,A.type()); double s[64]; scalarVals(b,s,A.channels()); t=Scalar(s[0],s[1],s[2],s[3]); B=t; }
    for(int r=0;r<nrowsOf(A);r++){ uchar *x=rowPtr(A,r),*y=rowPtr(B,r),*o=rowPtr(z,r); for(int i=0;i<n;i++) o[i]=bit1(op,x[i],y[i]); }
    Mat m=mask_.getMat(); if(m.data){ Mat d=outLike(dst,A,A.type()); z.copyTo(d,m); } else z.copyTo(dst); }
void bitwise_and(InputArray a,InputArray b,OutputArray d,InputArray m){ bitop(B_AND,a,b,d,m); } void bitwise_or(InputArray a,InputArray b,OutputArray d,InputArray m){ bitop(B_OR,a,b,d,m); } void bitwise_xor(InputArray a,InputArray b,OutputArray d,InputArray m){ bitop(B_XOR,a,b,d,m); } void bitwise_not(InputArray a,OutputArray d,InputArray m){ bitop(B_NOT,a,a,d,m); }
ME operator&(const Mat& a,const Mat& b){ Mat d; bitwise_and(a,b,d); return ME(d); } ME operator|(const Mat& a,const Mat& b){ Mat d; bitwise_or(a,b,d); return ME(d); } ME operator^(const Mat& a,const Mat& b){ Mat d; bitwise_xor(a,b,d); return ME(d); } ME operator~(const Mat& a){ Mat d; bitwise_not(a,d); return ME(d); }
ME operator&(const Mat& a,const Scalar& s){ Mat d; bitwise_and(a,s,d); return ME(d); } ME operator|(const Mat& a,const Scalar& s){ Mat d; bitwise_or(a,s,d); return ME(d); }
// ------------------------------------------------------------------ reductions
int countNonZero(InputArray a){ Mat A=a.getMat(); CVA(A.channels()==1); int c=0; for(int r=0;r<nrowsOf(A);r++){ uchar* x=rowPtr(A,r); DEPTHSW(A.depth(),T, for(int i=0;i<ncolsOf(A);i++) c+=((T*)x)[i]!=0) } return c; }
Scalar sum(InputArray a){ Mat A=a.getMat(); int cn=A.channels(); Scalar s; for(int k=0;k<cn;k++){ long long si=0; double sd=0; bool isf=A.depth()>=CV_32F; for(int r=0;r<nrowsOf(A);r++){ uchar* x=rowPtr(A,r); DEPTHSW(A.depth(),T, for(int i=0;i<ncolsOf(A);i++){ if(isf) sd+=((T*)x)[i*cn+k]; else si+=(long long)((T*)x)[i*cn+k]; }) } s[k]=isf?sd:(double)si; } return s; }
Scalar mean(InputArray a,InputArray m_){ Mat A=a.getMat(),M=m_.getMat(); int cn=A.channels(); Scalar s; int nz=M.data?countNonZero(M):(int)A.total(); for(int k=0;k<cn;k++){ long long si=0; double sd=0; bool isf=A.depth()>=CV_32F; for(int r=0;r<nrowsOf(A);r++){ uchar* x=rowPtr(A,r); uchar* m=M.data?rowPtr(M,r):0; DEPTHSW(A.depth(),T, for(int i=0;i<ncolsOf(A);i++){ if(m&&!m[i]) continue; if(isf) sd+=((T*)x)[i*cn+k]; else si+=(long long)((T*)x)[i*cn+k]; }) } s[k]=nz?(isf?sd:(double)si)*(1./nz):0; } return s; }
void minMaxIdx(InputArray a,double* mn,double* mx,int* imn,int* imx,InputArray mask_){ Mat A=a.getMat(),M=mask_.getMat(); int n=ncolsOf(A)*A.channels(); CVA(A.channels()==1||(!imn&&!imx&&M.empty())); bool any=false; 
    DEPTHSW(A.depth(),T, T lo=0; T hi=0; int plo=-1; int phi=-1; for(int r=0;r<nrowsOf(A);r++){ T* x=(T*)rowPtr(A,r); uchar* m=M.data?rowPtr(M,r):0; for(int i=0;i<n;i++){ if(m&&!m[i]) continue; if(!any){ lo=hi=x[i]; plo=phi=r*n+i; any=true; } else { bool l=x[i]<lo; bool h=x[i]>hi; lo=l?x[i]:lo; plo=l?r*n+i:plo; hi=h?x[i]:hi; phi=h?r*n+i:phi; } } }
        if(mn) *mn=any?(double)lo:0; if(mx) *mx=any?(double)hi:0; if(imn){ if(any){ imn[0]=plo/n; imn[1]=plo%n; } else imn[0]=imn[1]=-1; } if(imx){ if(any){ imx[0]=phi/n; imx[1]=phi%n; } else imx[0]=imx[1]=-1; }) }
void minMaxLoc(InputArray a,double* mn,double* mx,Point* pmn,Point* pmx,InputArray mask){ int i0[2],i1[2]; minMaxIdx(a,mn,mx,pmn?i0:0,pmx?i1:0,mask); if(pmn) *pmn=Point(i0[1],i0[0]); if(pmx) *pmx=Point(i1[1],i1[0]); }
double norm(InputArray a,int t,InputArray m_){ Mat A=a.getMat(),M=m_.getMat(); t&=7; int cn=A.channels(); double s=0; long long si=0; bool isf=A.depth()>=CV_32F; for(int r=0;r<nrowsOf(A);r++){ uchar* x=rowPtr(A,r); uchar* m=M.data?rowPtr(M,r):0; DEPTHSW(A.depth(),T, for(int i=0;i<ncolsOf(A)*cn;i++){ if(m&&!m[i/cn]) continue; if(isf){ double v=((T*)x)[i]; v=v<0?-v:v; if(t==NORM_INF) s=v>s?v:s; else if(t==NORM_L1) s+=v; else s+=v*v; } else { long long v=(long long)((T*)x)[i]; v=v<0?-v:v; if(t==NORM_INF) si=v>si?v:si; else if(t==NORM_L1) si+=v; else si+=v*v; } }) } if(!isf) s=(double)si; return t==NORM_L2?std::sqrt(s):s; }
double norm(InputArray a,InputArray b,int t,InputArray m){ Mat A=a.getMat(),B=b.getMat(),x,y; CVA(A.size==B.size&&A.type()==B.type()); if(A.depth()<CV_32F){ A.convertTo(x,CV_32S); B.convertTo(y,CV_32S); Mat z(A.dims,A.size.p,x.type()); int n=ncolsOf(x)*x.channels(); for(int r=0;r<nrowsOf(x);r++) for(int i=0;i<n;i++) ((int*)rowPtr(z,r))[i]=((int*)rowPtr(x,r))[i]-((int*)rowPtr(y,r))[i]; return norm(z,t,m); } Mat z; arithMM(OP_SUB,A,B,z,noArray(),-1); return norm(z,t,m); }
void normalize(InputArray a,InputOutputArray dst,double alpha,double beta,int nt,int rtype,InputArray mask){ Mat A=a.getMat(); double scale=1,shift=0; int t=A.type(); rtype=rtype<0?(dst.fixedType()?dst.depth():CV_MAT_DEPTH(t)):CV_MAT_DEPTH(rtype);
    if(nt==NORM_MINMAX){ double smin=0,smax=0,dmin=std::min(alpha,beta),dmax=std::max(alpha,beta); minMaxIdx(A,&smin,&smax,0,0,mask); scale=(dmax-dmin)*(smax-smin>DBL_EPSILON?1./(smax-smin):0); if(rtype==CV_32F){ scale=(float)scale; shift=(float)dmin-(float)(smin*scale); } else shift=dmin-smin*scale; }
    else { scale=norm(A,nt,mask); scale=scale>DBL_EPSILON?alpha/scale:0.; shift=0; }
    if(mask.empty()) A.convertTo(dst,rtype,scale,shift); else { Mat tmp; A.convertTo(tmp,rtype,scale,shift); tmp.copyTo(dst,mask); } }
// ------------------------------------------------------------------ geometry / layout
void split(InputArray a,OutputArrayOfArrays mv){ Mat A=a.getMat(); if(A.empty()){ mv.release(); return; } int cn=A.channels(); mv.create(cn,1,A.depth()); size_t e=A.elemSize1(); for(int k=0;k<cn;k++){ Mat d(A.dims,A.size.p,A.depth()); for(int r=0;r<nrowsOf(A);r++) for(int i=0;i<ncolsOf(A);i++) memcpy(rowPtr(d,r)+i*e,rowPtr(A,r)+(i*cn+k)*e,e); Mat& o=mv.getMatRef(k); d.copyTo(o); } }
void split(const Mat& A,Mat* mv){ int cn=A.channels(); size_t e=A.elemSize1(); for(int k=0;k<cn;k++){ mv[k].create(A.dims,A.size.p,A.depth()); for(int r=0;r<nrowsOf(A);r++) for(int i=0;i<ncolsOf(A);i++) memcpy(rowPtr(mv[k],r)+i*e,rowPtr(A,r)+(i*cn+k)*e,e); } }
void merge(const Mat* mv,size_t n,OutputArray dst){ int cn=(int)n; Mat d0; { Mat d(mv[0].dims,mv[0].size.p,CV_MAKETYPE(mv[0].depth(),cn)); size_t e=d.elemSize1(); for(int k=0;k<cn;k++){ CVA(mv[k].channels()==1&&mv[k].size==mv[0].size); for(int r=0;r<nrowsOf(d);r++) for(int i=0;i<ncolsOf(d);i++) memcpy(rowPtr(d,r)+(i*cn+k)*e,rowPtr(mv[k],r)+i*e,e); } d0=d; } d0.copyTo(dst); }
void merge(InputArrayOfArrays mv,OutputArray dst){ std::vector<Mat> v; mv.getMatVector(v); merge(v.data(),v.size(),dst); }
void hconcat(InputArray a,InputArray b,OutputArray dst){ Mat A=a.getMat(),B=b.getMat(); CVA(A.rows==B.rows&&A.type()==B.type()); Mat d(A.rows,A.cols+B.cols,A.type()); A.copyTo(d(Rect(0,0,A.cols,A.rows))); B.copyTo(d(Rect(A.cols,0,B.cols,B.rows))); d.copyTo(dst); }
void vconcat(InputArray a,InputArray b,OutputArray dst){ Mat A=a.getMat(),B=b.getMat(); CVA(A.cols==B.cols&&A.type()==B.type()); Mat d(A.rows+B.rows,A.cols,A.type()); A.copyTo(d(Rect(0,0,A.cols,A.rows))); B.copyTo(d(Rect(0,A.rows,B.cols,B.rows))); d.copyTo(dst); }
void transpose(InputArray a,OutputArray dst){ Mat A=a.getMat(); Mat d(A.cols,A.rows,A.type()); size_t e=A.elemSize(); for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++) memcpy(d.ptr(x)+y*e,A.ptr(y)+x*e,e); d.copyTo(dst); }
void flip(InputArray a,OutputArray dst,int c){ Mat A=a.getMat(); Mat d(A.rows,A.cols,A.type()); size_t e=A.elemSize(); for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++) memcpy(d.ptr(c<=0?A.rows-1-y:y)+(c!=0?A.cols-1-x:x)*e,A.ptr(y)+x*e,e); d.copyTo(dst); }
int borderInterpolate(int p,int len,int bt){ CVA(len>0); if((unsigned)p<(unsigned)len) return p; if(bt==BORDER_REPLICATE) return p<0?0:len-1; if(bt==BORDER_REFLECT||bt==BORDER_REFLECT_101){ int delta=bt==BORDER_REFLECT_101; if(len==1) return 0; do { if(p<0) p=-p-1+delta; else p=len-1-(p-len)-delta; } while((unsigned)p>=(unsigned)len); return p; } if(bt==BORDER_WRAP){ if(p<0) p-=((p-len+1)/len)*len; if(p>=len) p%=len; return p; } return -1; }
void copyMakeBorder(InputArray a,OutputArray dst,int t,int b,int l,int r,int bt,const Scalar& v){ Mat A=a.getMat(); bt&=~BORDER_ISOLATED; Mat d(A.rows+t+b,A.cols+l+r,A.type()); if(bt==BORDER_CONSTANT) d=v; size_t e=A.elemSize(); for(int y=0;y<d.rows;y++) for(int x=0;x<d.cols;x++){ int sy=borderInterpolate(y-t,A.rows,bt),sx=borderInterpolate(x-l,A.cols,bt); if(sy>=0&&sx>=0) memcpy(d.ptr(y)+x*e,A.ptr(sy)+sx*e,e); } d.copyTo(dst); }
void resize(InputArray a,OutputArray dst,Size ds,double fx,double fy,int interp){ Mat A=a.getMat(); if(ds.area()==0) ds=Size(saturate_cast<int>(A.cols*fx),saturate_cast<int>(A.rows*fy)); CV_Assert(ds.area()>0); if(ds==A.size()){ A.copyTo(dst); return; }
    if(interp==INTER_NEAREST){ double ifx=(double)A.cols/ds.width,ify=(double)A.rows/ds.height; Mat d(ds,A.type()); size_t e=A.elemSize(); for(int y=0;y<ds.height;y++) for(int x=0;x<ds.width;x++){ int sx=std::min((int)std::floor(x*ifx),A.cols-1),sy=std::min((int)std::floor(y*ify),A.rows-1); memcpy(d.ptr(y)+x*e,A.ptr(sy)+sx*e,e); } d.copyTo(dst); return; }
    if(interp==INTER_AREA&&A.cols%ds.width==0&&A.rows%ds.height==0){ int kx=A.cols/ds.width,ky=A.rows/ds.height,cn=A.channels(); Mat d(ds,A.type()); 
        for(int y=0;y<ds.height;y++) for(int x=0;x<ds.width;x++) for(int k=0;k<cn;k++) DEPTHSW(A.depth(),T, if((T)0.5!=(T)0){ float s=0; for(int j=0;j<ky;j++) for(int i=0;i<kx;i++) s+=(float)A.ptr<T>(y*ky+j)[(x*kx+i)*cn+k]; d.ptr<T>(y)[x*cn+k]=saturate_cast<T>(s*(1.f/(kx*ky))); } else { int s=0; for(int j=0;j<ky;j++) for(int i=0;i<kx;i++) s+=(int)A.ptr<T>(y*ky+j)[(x*kx+i)*cn+k]; if(kx==2&&ky==2) d.ptr<T>(y)[x*cn+k]=(T)((s+2)>>2); else d.ptr<T>(y)[x*cn+k]=saturate_cast<T>((float)s*(1.f/(kx*ky))); })
        d.copyTo(dst); return; }
    lv_unsupported("cv::resize mode"); }
void cvtColor(InputArray a,OutputArray dst,int code,int){ Mat A=a.getMat(); int cn=A.channels(); if((code==COLOR_BGR2YCrCb||code==COLOR_YCrCb2BGR)&&A.depth()==CV_8U){ CVA(cn==3); Mat d(A.rows,A.cols,CV_8UC3); for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++){ const uchar* s=A.ptr(y)+3*x; uchar* o=d.ptr(y)+3*x; if(code==COLOR_BGR2YCrCb){ int Y=(s[0]*1868+s[1]*9617+s[2]*4899+8192)>>14; o[1]=saturate_cast<uchar>(((s[2]-Y)*11682+(128<<14)+8192)>>14); o[2]=saturate_cast<uchar>(((s[0]-Y)*9241+(128<<14)+8192)>>14); o[0]=saturate_cast<uchar>(Y); } else { int Y=s[0],Cr=s[1]-128,Cb=s[2]-128; o[0]=saturate_cast<uchar>(Y+((Cb*29049+8192)>>14)); o[1]=saturate_cast<uchar>(Y+((Cb*-5636+Cr*-11698+8192)>>14)); o[2]=saturate_cast<uchar>(Y+((Cr*22987+8192)>>14)); } } d.copyTo(dst); return; } int oc=code==COLOR_GRAY2BGR?3:code==COLOR_GRAY2BGRA?4:(code==COLOR_BGR2GRAY||code==COLOR_BGRA2GRAY)?1:code==COLOR_BGR2BGRA?4:code==COLOR_BGRA2BGR?3:0; if(!oc||A.depth()!=CV_8U){ lv_unsupported("cvtColor"); return; }
    if(code==COLOR_GRAY2BGR||code==COLOR_GRAY2BGRA) CVA(cn==1); else CVA(cn==3||cn==4); Mat d(A.rows,A.cols,CV_8UC(oc)); for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++){ const uchar* s=A.ptr(y)+x*cn; uchar* o=d.ptr(y)+x*oc; if(cn==1){ o[0]=o[1]=o[2]=s[0]; if(oc==4) o[3]=255; } else if(oc==1) o[0]=(uchar)((s[0]*3735+s[1]*19235+s[2]*9798+(1<<14))>>15); else { o[0]=s[0]; o[1]=s[1]; o[2]=s[2]; if(oc==4) o[3]=cn==4?s[3]:255; } } d.copyTo(dst); }
// ------------------------------------------------------------------ neighbourhood filters
void medianBlur(InputArray a,OutputArray dst,int k){ Mat A=a.getMat(); if(A.empty()||k<=1){ A.copyTo(dst); return; } CVA(k%2==1); int cn=A.channels(),h=k/2,n=k*k; if(A.depth()!=CV_8U){ lv_unsupported("medianBlur depth"); return; } Mat d(A.rows,A.cols,A.type());
    for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++) for(int c=0;c<cn;c++){ uchar v[225]; int q=0; for(int j=-h;j<=h;j++) for(int i=-h;i<=h;i++) v[q++]=A.ptr(std::min(std::max(y+j,0),A.rows-1))[std::min(std::max(x+i,0),A.cols-1)*cn+c];
        // rank by counting: the median is the (unique) value with at most n/2 smaller and at least n/2+1 not-greater samples
        uchar med=0; for(int p=0;p<n;p++){ int lt=0,le=0; for(int w=0;w<n;w++){ lt+=v[w]<v[p]; le+=v[w]<=v[p]; } med=(lt<=n/2&&le>n/2)?v[p]:med; } d.ptr(y)[x*cn+c]=med; } d.copyTo(dst); }
Mat getStructuringElement(int shape,Size ks,Point){ if(shape!=MORPH_RECT) lv_unsupported("structuring element"); return Mat(ks,CV_8U,Scalar(1)); }
Scalar morphologyDefaultBorderValue_(){ return Scalar::all(DBL_MAX); }
static void morph(bool dil,InputArray a,OutputArray dst,InputArray k_,Point anchor,int it){ Mat A=a.getMat().clone(),K=k_.getMat(); if(K.empty()) K=Mat(3,3,CV_8U,Scalar(1)); if(A.depth()!=CV_8U){ lv_unsupported("morph depth"); return; } int ax=anchor.x<0?K.cols/2:anchor.x,ay=anchor.y<0?K.rows/2:anchor.y,cn=A.channels();
    for(int n=0;n<it;n++){ Mat d(A.rows,A.cols,A.type()); for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++) for(int c=0;c<cn;c++){ uchar v=dil?0:255; for(int j=0;j<K.rows;j++) for(int i=0;i<K.cols;i++){ if(!K.ptr(j)[i]) continue; int yy=y+j-ay,xx=x+i-ax; if(yy<0||yy>=A.rows||xx<0||xx>=A.cols) continue; uchar p=A.ptr(yy)[xx*cn+c]; v=dil?(p>v?p:v):(p<v?p:v); } d.ptr(y)[x*cn+c]=v; } A=d; } A.copyTo(dst); }
void dilate(InputArray a,OutputArray d,InputArray k,Point an,int it,int,const Scalar&){ morph(true,a,d,k,an,it); }
void erode(InputArray a,OutputArray d,InputArray k,Point an,int it,int,const Scalar&){ morph(false,a,d,k,an,it); }
void morphologyEx(InputArray a,OutputArray d,int op,InputArray k,Point an,int it,int,const Scalar&){ Mat t; switch(op){ case MORPH_ERODE: morph(false,a,d,k,an,it); break; case MORPH_DILATE: morph(true,a,d,k,an,it); break; case MORPH_OPEN: morph(false,a,t,k,an,it); morph(true,t,d,k,an,it); break; case MORPH_CLOSE: morph(true,a,t,k,an,it); morph(false,t,d,k,an,it); break; default: lv_unsupported("morphologyEx"); } }
void integral(InputArray a,OutputArray s,int sd){ Mat A=a.getMat(); int cn=A.channels(),depth=A.depth(); if(sd<=0) sd=depth==CV_8U?CV_32S:CV_64F; Mat d(A.rows+1,A.cols+1,CV_MAKETYPE(CV_MAT_DEPTH(sd),cn),Scalar(0)); DEPTHSW(depth,T,DEPTHSW(CV_MAT_DEPTH(sd),U, for(int y=0;y<A.rows;y++) for(int c=0;c<cn;c++){ U row=0; for(int x=0;x<A.cols;x++){ row+=(U)A.ptr<T>(y)[x*cn+c]; d.ptr<U>(y+1)[(x+1)*cn+c]=d.ptr<U>(y)[(x+1)*cn+c]+row; } })) d.copyTo(s); }
int floodFill(InputOutputArray img,Point seed,Scalar nv,Rect*,Scalar lo,Scalar hi,int){ Mat A=img.getMat(); CVA(A.type()==CV_8UC1); uchar v=saturate_cast<uchar>(nv[0]); int R=A.rows,C=A.cols,n=R*C; std::vector<uchar> in(n,0); uchar sv=A.ptr(seed.y)[seed.x]; in[seed.y*C+seed.x]=1;
    // 4-connected component of the seed's value (exact-match ranges only), as a bounded fixpoint: n rounds always suffice
    for(int k=0;k<n;k++){ bool ch=false; for(int y=0;y<R;y++) for(int x=0;x<C;x++){ uchar b=in[y*C+x]; if(x>0) b|=in[y*C+x-1]; if(x+1<C) b|=in[y*C+x+1]; if(y>0) b|=in[(y-1)*C+x]; if(y+1<R) b|=in[(y+1)*C+x]; b=A.ptr(y)[x]==sv?b:in[y*C+x]; in[y*C+x]=b; } } int cnt=0; for(int i=0;i<n;i++){ uchar& p=A.ptr(i/C)[i%C]; p=in[i]?v:p; cnt+=in[i]; } return cnt; }
void addWeighted(InputArray a,double al,InputArray b,double be,double g,OutputArray dst,int dt){ Mat A=a.getMat(),B=b.getMat(); CVA(A.size==B.size&&A.channels()==B.channels()); if(A.type()!=B.type()){ CVA(dt>=0); if(CV_MAT_DEPTH(dt)!=CV_32F||A.depth()!=CV_32F||B.depth()!=CV_8U||A.dims>2){ lv_unsupported("addWeighted types"); return; } Mat d(A.rows,A.cols,A.type()); int n=A.cols*A.channels(); for(int y=0;y<A.rows;++y) for(int x=0;x<n;++x) d.ptr<float>(y)[x]=(float)(A.ptr<float>(y)[x]*al+B.ptr<uchar>(y)[x]*be+g); d.copyTo(dst); return; } Mat d(A.dims,A.size.p,A.type()); binop(A,B,d,[&](auto p,auto q){ typedef decltype(p) T; if(sizeof(T)<=2) return saturate_cast<T>((float)p*(float)al+(float)q*(float)be+(float)g); return saturate_cast<T>(p*al+q*be+g); }); d.copyTo(dst); }
void convertScaleAbs(InputArray a,OutputArray dst,double al,double be){ Mat A=a.getMat(); Mat d(A.dims,A.size.p,CV_8UC(A.channels())); int n=ncolsOf(A)*A.channels(); for(int r=0;r<nrowsOf(A);r++){ uchar *x=rowPtr(A,r),*o=rowPtr(d,r); DEPTHSW(A.depth(),T, for(int i=0;i<n;i++){ if(sizeof(T)<=2&&al==1&&be==0){ int v=(int)((T*)x)[i]; o[i]=saturate_cast<uchar>(v<0?-v:v); } else o[i]=saturate_cast<uchar>(std::abs((float)((T*)x)[i]*(float)al+(float)be)); }) } d.copyTo(dst); }
void Scharr(InputArray a,OutputArray dst,int dd,int dx,int dy,double sc,double de,int bt){ Mat A=a.getMat(); int cn=A.channels(); if(A.depth()!=CV_8U||dd!=CV_16S||sc!=1||de!=0){ lv_unsupported("Scharr"); return; } static const int sm[3]={3,10,3},df[3]={-1,0,1}; const int* kx=dx?df:sm; const int* ky=dy?df:sm; Mat d(A.rows,A.cols,CV_16SC(cn)); for(int y=0;y<A.rows;y++) for(int x=0;x<A.cols;x++) for(int c=0;c<cn;c++){ int s=0; for(int j=-1;j<=1;j++) for(int i=-1;i<=1;i++) s+=kx[i+1]*ky[j+1]*(int)A.ptr(borderInterpolate(y+j,A.rows,bt))[borderInterpolate(x+i,A.cols,bt)*cn+c]; d.ptr<short>(y)[x*cn+c]=(short)s; } d.copyTo(dst); }
// ------------------------------------------------------------------ misc classes
Algorithm::Algorithm(){} Algorithm::~Algorithm(){} void Algorithm::save(const String&) const {} String Algorithm::getDefaultName() const { return "a"; }
Feature2D::~Feature2D(){} int Feature2D::descriptorSize() const { return 0; } int Feature2D::descriptorType() const { return CV_32F; } int Feature2D::defaultNorm() const { return NORM_L2; } bool Feature2D::empty() const { return true; } String Feature2D::getDefaultName() const { return "f"; } void Feature2D::write(FileStorage&) const {} void Feature2D::read(const FileNode&) {}
void Feature2D::detect(InputArray image,std::vector<KeyPoint>& k,InputArray mask){ if(image.empty()){ k.clear(); return; } detectAndCompute(image,mask,k,noArray(),false); }
void Feature2D::detect(InputArrayOfArrays,std::vector<std::vector<KeyPoint>>&,InputArrayOfArrays){ lv_unsupported("detect"); }
void Feature2D::compute(InputArray image,std::vector<KeyPoint>& k,OutputArray d){ if(image.empty()){ d.release(); return; } detectAndCompute(image,noArray(),k,d,true); }
void Feature2D::compute(InputArrayOfArrays,std::vector<std::vector<KeyPoint>>&,OutputArrayOfArrays){ lv_unsupported("compute"); }
void Feature2D::detectAndCompute(InputArray,InputArray,std::vector<KeyPoint>&,OutputArray,bool){ error(Error::StsNotImplemented,"","","",0); }
void KeyPointsFilter::runByImageBorder(std::vector<KeyPoint>& k,Size s,int b){ if(b>0){ if(s.height<=b*2||s.width<=b*2) k.clear(); else { Rect r(Point(b,b),Point(s.width-b,s.height-b)); k.erase(std::remove_if(k.begin(),k.end(),[&](const KeyPoint& p){ return !r.contains(p.pt); }),k.end()); } } }
void KeyPointsFilter::runByPixelsMask(std::vector<KeyPoint>& k,const Mat& m){ if(m.empty()) return; k.erase(std::remove_if(k.begin(),k.end(),[&](const KeyPoint& p){ return m.at<uchar>((int)(p.pt.y+0.5f),(int)(p.pt.x+0.5f))==0; }),k.end()); }
void MatConstIterator::seek(ptrdiff_t ofs,bool rel){ if(m->isContinuous()){ ptr=(rel?ptr:sliceStart)+ofs*elemSize; if(ptr<sliceStart) ptr=sliceStart; else if(ptr>sliceEnd) ptr=sliceEnd; return; } int d=m->dims; if(d==2){ ptrdiff_t ofs0,y; if(rel){ ofs0=ptr-m->ptr(); y=ofs0/m->step[0]; ofs+=y*m->cols+(ofs0-y*m->step[0])/elemSize; } y=ofs/m->cols; int y1=std::min(std::max((int)y,0),m->rows-1); sliceStart=m->ptr(y1); sliceEnd=sliceStart+m->cols*elemSize; ptr=y<0?sliceStart:y>=m->rows?sliceEnd:sliceStart+(ofs-y*m->cols)*elemSize; return; } lv_unsupported("MatConstIterator::seek"); }
void MatConstIterator::seek(const int* idx,bool rel){ int d=m->dims; ptrdiff_t ofs=0; if(!idx) ; else if(d==2) ofs=idx[0]*m->size[1]+idx[1]; else for(int i=0;i<d;i++) ofs=ofs*m->size[i]+idx[i]; seek(ofs,rel); }
int64 getTickCount(){ return 0; } double getTickFrequency(){ return 1e9; }
void imshow(const String&,InputArray){} int waitKey(int){ return -1; } void namedWindow(const String&,int){} void destroyWindow(const String&){}
void putText(InputOutputArray,const String&,Point,int,double,Scalar,int,int,bool){} void circle(InputOutputArray img,Point c,int rad,const Scalar& v,int th,int lt,int sh){ if(th>=0) return; Mat A=img.getMat(); CVA(A.type()==CV_8UC1&&lt==LINE_8&&sh==0); uchar u=saturate_cast<uchar>(v[0]); auto hl=[&](int y,int x0,int x1){ if(y<0||y>=A.rows) return; for(int x=std::max(x0,0);x<=std::min(x1,A.cols-1);x++) A.ptr(y)[x]=u; }; int err=0,dx=rad,dy=0,pl=1,mi=(rad<<1)-1; while(dx>=dy){ hl(c.y-dy,c.x-dx,c.x+dx); hl(c.y+dy,c.x-dx,c.x+dx); hl(c.y-dx,c.x-dy,c.x+dy); hl(c.y+dx,c.x-dy,c.x+dy); dy++; err+=pl; pl+=2; int m=(err<=0)-1; err-=mi&m; dx+=m; mi-=m&2; } }
// contours of images whose non-null pixels are all isolated: one single-point contour per pixel, last pixel first (anything else is refused)
void findContours(InputArray a,OutputArrayOfArrays out,int mode,int,Point off){ Mat A=a.getMat(); CVA(A.type()==CV_8UC1&&mode==RETR_LIST); std::vector<std::vector<Point>>& r=*(std::vector<std::vector<Point>>*)out.getObj(); r.clear(); for(int y=A.rows-1;y>=0;y--) for(int x=A.cols-1;x>=0;x--) if(A.ptr(y)[x]){ for(int j=-1;j<=1;j++) for(int i=-1;i<=1;i++) if((j||i)&&y+j>=0&&x+i>=0&&y+j<A.rows&&x+i<A.cols&&A.ptr(y+j)[x+i]) lv_unsupported("findContours"); r.push_back(std::vector<Point>(1,Point(x,y)+off)); } }
 void rectangle(InputOutputArray,Rect,const Scalar&,int,int,int){} void rectangle(InputOutputArray,Point,Point,const Scalar&,int,int,int){}
}
// ------------------------------------------------------------------ sparse matrices (hash table of nodes kept in one pool, as OpenCV documents)
namespace cv {
static size_t alignUp(size_t v,size_t a){ return (v+a-1)/a*a; }
SparseMat::Hdr::Hdr(int d,const int* sz,int type){ refcount=1; dims=d; valueOffset=(int)alignUp(sizeof(SparseMat::Node)-MAX_DIM*sizeof(int)+d*sizeof(int),CV_ELEM_SIZE1(type)); nodeSize=alignUp(valueOffset+CV_ELEM_SIZE(type),sizeof(size_t)); int i; for(i=0;i<d;i++) size[i]=sz[i]; for(;i<MAX_DIM;i++) size[i]=0; clear(); }
void SparseMat::Hdr::clear(){ hashtab.clear(); hashtab.resize(8); pool.clear(); pool.resize(nodeSize); nodeCount=freeList=0; }
SparseMat::SparseMat():flags(MAGIC_VAL),hdr(0){}
SparseMat::SparseMat(int d,const int* s,int t):flags(MAGIC_VAL),hdr(0){ create(d,s,t); }
SparseMat::SparseMat(const SparseMat& m):flags(m.flags),hdr(m.hdr){ addref(); }
SparseMat::~SparseMat(){ release(); }
void SparseMat::addref(){ if(hdr) hdr->refcount++; }
void SparseMat::release(){ if(hdr&&--hdr->refcount==0) delete hdr; hdr=0; }
SparseMat& SparseMat::operator=(const SparseMat& m){ if(this!=&m){ if(m.hdr) m.hdr->refcount++; release(); flags=m.flags; hdr=m.hdr; } return *this; }
void SparseMat::create(int d,const int* s,int t){ CVA(s&&d>0&&d<=MAX_DIM); for(int i=0;i<d;i++) CVA(s[i]>0); t=CV_MAT_TYPE(t); if(hdr&&t==type()&&hdr->dims==d&&hdr->refcount==1){ int i=0; for(;i<d;i++) if(s[i]!=hdr->size[i]) break; if(i==d){ clear(); return; } } int b[MAX_DIM]; for(int i=0;i<d;i++) b[i]=s[i]; release(); flags=MAGIC_VAL|t; hdr=new Hdr(d,b,t); }
void SparseMat::clear(){ if(hdr) hdr->clear(); }
size_t SparseMat::hash(int i0) const { return (size_t)i0; }
size_t SparseMat::hash(int i0,int i1) const { return (size_t)(unsigned)i0*HASH_SCALE+(unsigned)i1; }
size_t SparseMat::hash(int i0,int i1,int i2) const { return ((size_t)(unsigned)i0*HASH_SCALE+(unsigned)i1)*HASH_SCALE+(unsigned)i2; }
size_t SparseMat::hash(const int* x) const { size_t h=(unsigned)x[0]; if(!hdr) return 0; for(int i=1;i<hdr->dims;i++) h=h*HASH_SCALE+(unsigned)x[i]; return h; }
uchar* SparseMat::ptr(const int* x,bool c,size_t* hv){ CVA(hdr); int d=hdr->dims; size_t h=hv?*hv:hash(x),hi=h&(hdr->hashtab.size()-1),n=hdr->hashtab[hi]; while(n!=0){ Node* e=(Node*)&hdr->pool[n]; if(e->hashval==h){ int i=0; for(;i<d;i++) if(e->idx[i]!=x[i]) break; if(i==d) return &value<uchar>(e); } n=e->next; } return c?newNode(x,h):0; }
uchar* SparseMat::ptr(int a,bool c,size_t* h){ CVA(hdr&&hdr->dims==1); return ptr(&a,c,h); }
uchar* SparseMat::ptr(int a,int b,bool c,size_t* h){ CVA(hdr&&hdr->dims==2); int x[2]={a,b}; return ptr(x,c,h); }
uchar* SparseMat::ptr(int a,int b,int e,bool c,size_t* h){ CVA(hdr&&hdr->dims==3); int x[3]={a,b,e}; return ptr(x,c,h); }
void SparseMat::resizeHashTab(size_t n){ size_t p=8; while(p<n) p*=2; std::vector<size_t> t(p); for(size_t i=0;i<hdr->hashtab.size();i++){ size_t k=hdr->hashtab[i]; while(k){ Node* e=(Node*)&hdr->pool[k]; size_t nx=e->next,hi=e->hashval&(p-1); e->next=t[hi]; t[hi]=k; k=nx; } } hdr->hashtab=t; }
uchar* SparseMat::newNode(const int* x,size_t h){ size_t hs=hdr->hashtab.size(); if(++hdr->nodeCount>hs*3){ resizeHashTab(std::max(hs*2,(size_t)8)); hs=hdr->hashtab.size(); } if(!hdr->freeList){ size_t i,nsz=hdr->nodeSize,ps=hdr->pool.size(),np=std::max(ps*3/2,8*nsz); np=(np/nsz)*nsz; hdr->pool.resize(np); uchar* p=&hdr->pool[0]; hdr->freeList=std::max(ps,nsz); for(i=hdr->freeList;i<np-nsz;i+=nsz) ((Node*)(p+i))->next=i+nsz; ((Node*)(p+i))->next=0; } size_t n=hdr->freeList; Node* e=(Node*)&hdr->pool[n]; hdr->freeList=e->next; e->hashval=h; size_t hi=h&(hs-1); e->next=hdr->hashtab[hi]; hdr->hashtab[hi]=n; for(int i=0;i<hdr->dims;i++) e->idx[i]=x[i]; uchar* v=&value<uchar>(e); for(size_t i=0;i<elemSize();i++) v[i]=0; return v; }
SparseMatConstIterator::SparseMatConstIterator(const SparseMat* m_):m((SparseMat*)m_),hashidx(0),ptr(0){ if(!m||!m->hdr) return; SparseMat::Hdr& h=*m->hdr; for(size_t i=0;i<h.hashtab.size();i++) if(h.hashtab[i]){ hashidx=i; ptr=&h.pool[h.hashtab[i]]+h.valueOffset; return; } hashidx=h.hashtab.size(); }
SparseMatConstIterator& SparseMatConstIterator::operator++(){ if(!ptr||!m||!m->hdr) return *this; SparseMat::Hdr& h=*m->hdr; size_t nx=((const SparseMat::Node*)(ptr-h.valueOffset))->next; if(nx){ ptr=&h.pool[nx]+h.valueOffset; return *this; } size_t i=hashidx+1; for(;i<h.hashtab.size();i++) if(h.hashtab[i]){ hashidx=i; ptr=&h.pool[h.hashtab[i]]+h.valueOffset; return *this; } hashidx=h.hashtab.size(); ptr=0; return *this; }
}
namespace cv { void MatConstIterator::pos(int* idx) const { CVA(m&&idx); ptrdiff_t ofs=ptr-m->ptr(); for(int i=0;i<m->dims;i++){ size_t st=m->step[i],v=ofs/st; ofs-=v*st; idx[i]=(int)v; } } }
namespace cv { void remap(InputArray s_,OutputArray d_,InputArray m1,InputArray m2,int interp,int border,const Scalar& bv){ Mat s=s_.getMat(),m=m1.getMat(); if(interp!=INTER_NEAREST||!m2.empty()||m.type()!=CV_32FC2||(border!=BORDER_CONSTANT&&border!=BORDER_REPLICATE)) lv_unsupported("remap mode"); d_.create(m.size(),s.type()); Mat d=d_.getMat(); if(d.data==s.data) s=s.clone(); size_t es=s.elemSize(); CVA(s.depth()==CV_8U); for(int y=0;y<d.rows;y++) for(int x=0;x<d.cols;x++){ const float* p=m.ptr<float>(y)+2*x; int sx=cvRound(p[0]),sy=cvRound(p[1]); bool in=sx>=0&&sy>=0&&sx<s.cols&&sy<s.rows; if(!in&&border==BORDER_REPLICATE){ sx=borderInterpolate(sx,s.cols,BORDER_REPLICATE); sy=borderInterpolate(sy,s.rows,BORDER_REPLICATE); in=true; } uchar* q=d.ptr(y)+x*es; for(size_t c=0;c<es;c++) q[c]=in?s.ptr(sy)[sx*es+c]:saturate_cast<uchar>(bv.val[c]); } } }
