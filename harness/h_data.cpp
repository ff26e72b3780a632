// C14: packet precaching and asynchronous writing under every schedule; output counting.
#include "lvh.h"
#include "litiv/datasets.hpp"
#include <vector>
#include <atomic>
// ---------------- asynchronous writer
struct WErr { int v; };
struct Log { struct W { size_t idx; int len; uint8_t d[4]; }; W w[8]; int n=0; int thrower=-1; std::mutex m;
    size_t operator()(const cv::Mat& p,size_t idx){ { std::lock_guard<std::mutex> g(m); CHECK(n<8,"no endless writing"); W& x=w[n++]; x.idx=idx; x.len=(int)(p.total()*p.elemSize()); for(int i=0;i<x.len&&i<4;++i) x.d[i]=p.data[i]; } lv_yield(); { W y; y.len=(int)(p.total()*p.elemSize()); for(int i=0;i<y.len&&i<4;++i) y.d[i]=p.data[i]; std::lock_guard<std::mutex> g(m); bool same=false; for(int k=0;k<n;++k) if(w[k].idx==idx&&w[k].len==y.len){ bool q=true; for(int i=0;i<y.len;++i) q=q&(w[k].d[i]==y.d[i]); same=same|q; } CHECK(same,"a packet does not change while it is being written"); } if((int)idx==thrower) throw WErr{(int)idx}; return 777; } };
static bool eqW(const Log::W& a,const Log::W& b){ if(a.idx!=b.idx||a.len!=b.len) return false; bool r=true; for(int i=0;i<a.len&&i<4;++i) r=r&(a.d[i]==b.d[i]); return r; }
// a producer queues N packets; everything accepted must be written, intact, the last version of each index last
template<int N,int WORKERS,bool DROP,bool SAMEIDX> static void writer(){
    Log log; Log::W q[N]; int acc[N]; { lv::DataWriter w([&log](const cv::Mat& p,size_t i){ return log(p,i); }); CHECK(w.startAsyncWriting(4,DROP,WORKERS)&&w.isActive()&&w.getMaxQueueSize()==4,"asynchronous writing started");
        for(int i=0;i<N;++i){ q[i].idx=SAMEIDX?(i==0?0:lv_choice(0,1,"idx")):i; q[i].len=lv_choice(1,3,"len"); uint8_t buf[4]; lv_fill(buf,q[i].len,"d"); for(int k=0;k<q[i].len;++k) q[i].d[k]=buf[k]; cv::Mat P(1,q[i].len,CV_8UC1,buf); bool okc=w.queue_check(P,q[i].idx); size_t pos=w.queue(P,q[i].idx); acc[i]=pos!=SIZE_MAX; for(int k=0;k<q[i].len;++k) buf[k]=0xEE; CHECK(acc[i]||DROP,"packets are dropped only when allowed"); bool rep=false; for(int j=0;j<i;++j) rep=rep|(q[j].idx==q[i].idx); if(okc&&!rep) CHECK(acc[i],"a packet announced as acceptable is accepted"); if(acc[i]) CHECK(pos<=(size_t)i,"queue position"); CHECK(w.getCurrentQueueSize()<=w.getMaxQueueSize(),"queue stays within its size"); }
        if(lv_choice(0,1,"stop")){ w.stopAsyncWriting(); CHECK(!w.isActive()&&w.getCurrentQueueCount()==0&&w.getCurrentQueueSize()==0,"queue is empty once stopped"); int n=log.n; w.stopAsyncWriting(); CHECK(log.n==n,"stopping twice does nothing"); } }
    for(int k=0;k<log.n;++k){ bool known=false; for(int i=0;i<N;++i) known=known|(acc[i]&&eqW(log.w[k],q[i])); CHECK(known,"only accepted packets are written, with their content"); }
    for(int i=0;i<N;++i) if(acc[i]){ bool later=false; for(int j=i+1;j<N;++j) later=later|(acc[j]&&q[j].idx==q[i].idx); if(later) continue; int last=-1,times=0; for(int k=0;k<log.n;++k) if(log.w[k].idx==q[i].idx){ last=k; ++times; } CHECK(last>=0,"every accepted packet is written"); if(last>=0) CHECK(eqW(log.w[last],q[i]),"the last version of a packet is the one that remains"); if(!SAMEIDX) CHECK(times==1,"no packet is written twice"); }
    if(!SAMEIDX){ int a=0; for(int i=0;i<N;++i) a+=acc[i]; CHECK(log.n==a,"as many writes as accepted packets"); } lv_cover("end"); }
HARNESS(h_w_block){ writer<3,1,false,false>(); }
HARNESS(h_w_drop){ writer<3,1,true,false>(); }
HARNESS(h_w_same){ writer<2,1,false,true>(); }
HARNESS(h_w_same3){ writer<3,1,true,true>(); }
HARNESS(h_w_two){ writer<2,2,false,false>(); }
HARNESS(h_w_three){ writer<3,2,true,false>(); }
// a failing write is reported by stop, costs no other packet, and never takes the process down
HARNESS(h_w_throw){ Log log; log.thrower=lv_choice(0,2,"thrower"); bool both=false; int seen=-1; { lv::DataWriter w([&log](const cv::Mat& p,size_t i){ return log(p,i); }); w.startAsyncWriting(4,false,1); uint8_t b[3]={1,2,3}; for(int i=0;i<3;++i) w.queue(cv::Mat(1,1,CV_8UC1,b+i),i); if(lv_choice(0,1,"stop")){ try { w.stopAsyncWriting(); } catch(const WErr& e){ seen=e.v; } CHECK(seen==log.thrower,"the write error is reported when stopping"); CHECK(!w.isActive(),"stopped"); int s2=-1; try { w.stopAsyncWriting(); } catch(const WErr& e){ s2=e.v; } CHECK(s2==-1,"an error is reported once"); } } CHECK(log.n==3,"the other packets are still written"); (void)both; lv_cover("end"); }
HARNESS(h_w_throw2){ Log log; int n=0; { lv::DataWriter w([&log,&n](const cv::Mat& p,size_t i)->size_t{ log(p,i); throw WErr{(int)i}; }); w.startAsyncWriting(4,false,1); uint8_t b[2]={1,2}; for(int i=0;i<2;++i) w.queue(cv::Mat(1,1,CV_8UC1,b+i),i); try { w.stopAsyncWriting(); } catch(const WErr&){ ++n; } } CHECK(n==1&&log.n==2,"several errors are reported without taking the process down"); lv_cover("end"); }
HARNESS(h_w_sync){ Log log; lv::DataWriter w([&log](const cv::Mat& p,size_t i){ return log(p,i); }); uint8_t d[2]; lv_fill(d,2,"d"); cv::Mat P(1,2,CV_8UC1,d); CHECK(!w.isActive()&&w.queue_check(P,5)&&w.queue(P,5)==777&&log.n==1&&log.w[0].idx==5&&log.w[0].d[0]==d[0]&&log.w[0].d[1]==d[1],"an inactive writer writes at once"); CHECK(!w.startAsyncWriting(0)&&!w.isActive(),"no queue, no worker"); bool thr=false,t2=false; uint8_t e[9]={}; w.startAsyncWriting(1); CHECK(w.getMaxQueueSize()==4,"minimum queue size"); try { w.queue(cv::Mat(1,5,CV_8UC1,e),0); } catch(const lv::Exception&){ thr=true; } try { w.queue_check(cv::Mat(1,5,CV_8UC1,e),0); } catch(const lv::Exception&){ t2=true; } CHECK(thr&&t2,"a packet larger than the queue is rejected"); w.stopAsyncWriting(); CHECK(log.n==1,"nothing else written"); bool t3=false; try { lv::DataWriter b((std::function<size_t(const cv::Mat&,size_t)>())); } catch(const lv::Exception&){ t3=true; } CHECK(t3,"an empty callback is rejected"); lv_cover("end"); }
// ---------------- precacher
struct Src { uint8_t d[6][4]; int len[6]; int n; int thrower=-1; int slow=-1; std::atomic<int> inside{0}; Src(int n_):n(n_){} cv::Mat operator()(size_t i){ CHECK(inside.fetch_add(1)==0,"the loader is never entered concurrently"); if(slow==(int)i) lv_advance_ms(6000); if(thrower==(int)i){ inside.fetch_sub(1); throw WErr{(int)i}; } cv::Mat r; if(i<(size_t)n) r=cv::Mat(1,len[i],CV_8UC1,d[i]).clone(); inside.fetch_sub(1); return r; } };
static void chkPkt(const cv::Mat& p,Src& s,size_t i,const char* m){ if(i>=(size_t)s.n){ CHECK(p.empty(),m); return; } CHECK(p.total()*p.elemSize()==(size_t)s.len[i]&&p.type()==CV_8UC1,m); bool q=true; for(int k=0;k<s.len[i];++k) q=q&(p.data[k]==s.d[i][k]); CHECK(q,m); }
template<int BUF,int N,int L0,int L1,int R> static void precache(bool seq){ Src s(N); for(int i=0;i<N;++i){ s.len[i]=lv_choice(L0,L1,"len"); lv_fill(s.d[i],4,"d"); } lv::DataPrecacher p([&s](size_t i){ return s(i); }); CHECK(p.startAsyncPrecaching(BUF)&&p.isActive(),"precaching started"); size_t last=0;
    for(int r=0;r<R;++r){ size_t i=seq?r:lv_choice(0,N,"req"); const cv::Mat& m=p.getPacket(i); chkPkt(m,s,i,"the requested packet is returned, intact"); lv_yield(); chkPkt(m,s,i,"a returned packet stays intact until the next request"); CHECK(p.getLastReqIdx()==i,"last request index"); last=i; }
    p.stopAsyncPrecaching(); CHECK(!p.isActive(),"precaching stopped"); const cv::Mat& m=p.getPacket(last); chkPkt(m,s,last,"the packet is still available after precaching stopped"); chkPkt(p.getPacket(0),s,0,"packets are loaded directly when precaching is off"); lv_cover("end"); }
HARNESS(h_p_seq){ precache<4,5,1,2,5>(true); }
HARNESS(h_p_any){ precache<4,3,2,2,3>(false); }
HARNESS(h_p_big){ precache<4,3,3,4,3>(true); }
HARNESS(h_p_off){ Src s(3); for(int i=0;i<3;++i){ s.len[i]=2; lv_fill(s.d[i],4,"d"); } lv::DataPrecacher p([&s](size_t i){ return s(i); }); CHECK(!p.startAsyncPrecaching(0)&&!p.isActive(),"no buffer, no thread"); for(int r=0;r<3;++r){ size_t i=lv_choice(0,3,"req"); chkPkt(p.getPacket(i),s,i,"packets are loaded directly when precaching is off"); CHECK(p.getLastReqIdx()==i,"last request index"); } lv_cover("end"); }
// restart, then a second round
HARNESS(h_p_restart){ Src s(3); for(int i=0;i<3;++i){ s.len[i]=2; lv_fill(s.d[i],4,"d"); } lv::DataPrecacher p([&s](size_t i){ return s(i); }); for(int k=0;k<2;++k){ p.startAsyncPrecaching(4); size_t i=lv_choice(0,2,"req"); chkPkt(p.getPacket(i),s,i,"the requested packet is returned after a restart"); } p.startAsyncPrecaching(4); size_t j=lv_choice(0,2,"again"); chkPkt(p.getPacket(j),s,j,"the requested packet is returned after a restart"); lv_cover("end"); }
// a slow loader interrupts the prefill
HARNESS(h_p_slow){ Src s(4); s.slow=lv_choice(0,2,"slow"); for(int i=0;i<4;++i){ s.len[i]=1; lv_fill(s.d[i],4,"d"); } lv::DataPrecacher p([&s](size_t i){ return s(i); }); p.startAsyncPrecaching(4); for(size_t i=0;i<3;++i) chkPkt(p.getPacket(i),s,i,"the requested packet is returned, however slow the loader"); lv_cover("end"); }
// a loader error reaches the caller and never takes the process down
HARNESS(h_p_throw){ Src s(3); for(int i=0;i<3;++i){ s.len[i]=2; lv_fill(s.d[i],4,"d"); } s.thrower=lv_choice(0,2,"thrower"); int st=lv_choice(0,1,"stop"); int seen=0; { lv::DataPrecacher p([&s](size_t i){ return s(i); }); p.startAsyncPrecaching(4); int r=lv_choice(0,3,"requests"); for(int i=0;i<r&&!seen;++i){ try { chkPkt(p.getPacket(i),s,i,"packets before the error are intact"); CHECK(i<s.thrower,"a failed packet is not returned"); } catch(const WErr& e){ seen=1; CHECK(e.v==s.thrower,"the loader's error reaches the caller"); } } if(st){ try { p.stopAsyncPrecaching(); } catch(const WErr&){ CHECK(!seen,"an error is reported once"); } CHECK(!p.isActive(),"stopped"); } } lv_cover("end"); }
// long runs: the ring buffer and the write queue wrap around many times
HARNESS(h_p_long){ const int N=14; std::vector<std::vector<uint8_t>> d(N); for(int i=0;i<N;++i){ d[i].resize(1+(i*i+1)%3); for(size_t k=0;k<d[i].size();++k) d[i][k]=(uint8_t)(i*16+k); } int f=lv_choice(0,N-1,"free"); lv_fill(d[f].data(),d[f].size(),"x"); int jump=lv_choice(0,3,"jump"); lv::DataPrecacher p([&d](size_t i){ return i<d.size()?cv::Mat(1,(int)d[i].size(),CV_8UC1,d[i].data()).clone():cv::Mat(); }); p.startAsyncPrecaching(5); for(int r=0;r<N+1;++r){ size_t i=(size_t)(jump==1&&r==6?2:jump==2&&r==6?11:jump==3&&r>6?N-1-(r-7)%N:r); const cv::Mat& m=p.getPacket(i); bool ok=i<d.size()?m.total()==d[i].size():m.empty(); for(size_t k=0;ok&&i<d.size()&&k<d[i].size();++k) ok=ok&(m.data[k]==d[i][k]); CHECK(ok,"the requested packet is returned, intact (long run)"); } p.stopAsyncPrecaching(); lv_cover("end"); }
HARNESS(h_w_long){ const int N=11; struct R { size_t idx; std::vector<uint8_t> d; }; std::vector<R> got; std::mutex mx; std::vector<std::vector<uint8_t>> q(N); bool drop=lv_choice(0,1,"drop")!=0; std::vector<int> acc(N,0); { lv::DataWriter w([&](const cv::Mat& p,size_t i){ std::lock_guard<std::mutex> g(mx); got.push_back(R{i,std::vector<uint8_t>(p.data,p.data+p.total()*p.elemSize())}); return (size_t)1; }); w.startAsyncWriting(5,drop,1); for(int i=0;i<N;++i){ q[i].resize(1+(i*i+1)%3); for(size_t k=0;k<q[i].size();++k) q[i][k]=(uint8_t)(i*16+k); if(i==7) lv_fill(q[i].data(),q[i].size(),"x"); std::vector<uint8_t> b=q[i]; cv::Mat P(1,(int)b.size(),CV_8UC1,b.data()); acc[i]=w.queue(P,(size_t)(N-i))!=SIZE_MAX; for(auto& z:b) z=0xEE; CHECK(acc[i]||drop,"packets are dropped only when allowed (long run)"); CHECK(w.getCurrentQueueSize()<=w.getMaxQueueSize(),"queue stays within its size (long run)"); } } int n=0; for(int i=0;i<N;++i) if(acc[i]){ ++n; int t=0; bool same=false; for(auto& r:got) if(r.idx==(size_t)(N-i)){ ++t; same=r.d.size()==q[i].size(); for(size_t k=0;same&&k<r.d.size();++k) same=same&(r.d[k]==q[i][k]); } CHECK(t==1&&same,"every accepted packet is written once, intact (long run)"); } CHECK((int)got.size()==n,"as many writes as accepted packets (long run)"); lv_cover("end"); }
