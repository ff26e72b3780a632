// Native (replay) implementation of the harness API.
#include "lvh.h"
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <exception>
#include <unistd.h>
static std::map<std::string,std::vector<unsigned char>> vals; static std::map<std::string,int> cnt; static std::string target; static int failed=0; static size_t rndIdx=0;
static std::string nm(const char* n){ int k=cnt[n]++; return k?std::string(n)+"#"+std::to_string(k):n; }
static void finish(){ fflush(stdout); fflush(stderr); _exit(failed?1:0); }
extern "C" {
void lv_sym(void* p,size_t n,size_t es,const char* name){ auto& v=vals[nm(name)]; size_t sz=n*es; if(sz) memset(p,0,sz); if(sz&&!v.empty()) memcpy(p,v.data(),v.size()<sz?v.size():sz); }
void lv_assume(int c){ if(!c){ printf("ASSUME-FAILED\n"); fflush(stdout); _exit(failed?1:2); } }
void lv_check(int c,const char* m){ if(!c){ printf("CHECK-FAILED: %s\n",m); fflush(stdout); failed=1; } }
void lv_cover(const char*){} 
static int geti(const char* name){ int x=0; lv_sym(&x,1,4,name); return x; }
int lv_choice(int lo,int hi,const char* n){ int x=geti(n); return x<lo?lo:x>hi?hi:x; }
int lv_range(int lo,int hi,const char* n){ int x=geti(n); return x<lo?lo:x>hi?hi:x; }
int lv_concretize(int x){ return x; } void lv_merge(int){} int lv_is_symbolic(){ return 0; }
static int rfix=-1; void lv_rand_fix(int v){ rfix=v; }
int rand(){ if(rfix>=0) return rfix; auto& v=vals["rand"]; int r=0; if((rndIdx+1)*4<=v.size()) memcpy(&r,&v[rndIdx*4],4); rndIdx++; return r&0x7fffffff; }
void srand(unsigned){}
}
extern "C" void LV_ENTRY();
#ifdef __SANITIZE_ADDRESS__
// OpenCV pads its matrices; exact allocations let the sanitizer see accesses just past their end
#include <opencv2/core.hpp>
#undef MatAllocator
namespace { struct ExactAllocator : cv::MatAllocator {
    cv::UMatData* allocate(int dims,const int* sizes,int type,void* data0,size_t* step,cv::AccessFlag,cv::UMatUsageFlags) const override { size_t total=CV_ELEM_SIZE(type); for(int i=dims-1;i>=0;--i){ if(step){ if(data0&&step[i]!=(size_t)cv::Mat::AUTO_STEP) total=step[i]; else step[i]=total; } total*=sizes[i]; } void* d=data0; if(!d&&posix_memalign(&d,64,total?total:1)) abort(); cv::UMatData* u=new cv::UMatData(this); u->data=u->origdata=(uchar*)d; u->size=total; if(data0) u->flags=(cv::UMatData::MemoryFlag)((int)u->flags|(int)cv::UMatData::USER_ALLOCATED); return u; }
    bool allocate(cv::UMatData* u,cv::AccessFlag,cv::UMatUsageFlags) const override { return u!=nullptr; }
    void deallocate(cv::UMatData* u) const override { if(!u) return; if(!((int)u->flags&(int)cv::UMatData::USER_ALLOCATED)){ free(u->origdata); u->origdata=0; } delete u; } };
void exactMats(){ static ExactAllocator a; cv::Mat::setDefaultAllocator(&a); } }
#else
static void exactMats(){}
#endif
int main(int argc,char** argv){ exactMats(); std::ifstream f(argc>1?argv[1]:"/dev/null"); std::string l; while(std::getline(f,l)){ std::istringstream is(l); std::string k; is>>k; if(k=="sym"){ std::vector<std::string> w; std::string t; while(is>>t) w.push_back(t); if(w.size()<3) continue; std::string n=w[0],hx=w.back(); for(size_t i=1;i+2<w.size();++i) n+=" "+w[i]; auto& v=vals[n]; if(hx!="-") for(size_t i=0;i+1<hx.size();i+=2) v.push_back((unsigned char)strtol(hx.substr(i,2).c_str(),0,16)); } }
    try { LV_ENTRY(); } catch(std::exception& e){ printf("CHECK-FAILED: uncaught exception: %s\n",e.what()); failed=1; } catch(...){ printf("CHECK-FAILED: uncaught exception\n"); failed=1; }
    if(!failed) printf("REPLAY-OK\n"); finish(); return failed; }
