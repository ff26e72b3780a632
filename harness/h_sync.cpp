// C06: semaphores and worker pools under every schedule.
#include "lvh.h"
#include "litiv/utils/cxx.hpp"
struct Ctx { lv::Semaphore sem; int got=0,avail; std::mutex m; Ctx(size_t n):sem(n),avail((int)n){} void took(bool b=true){ std::lock_guard<std::mutex> g(m); got+=b; CHECK(got<=avail,"no more successful waits than resources at any time"); CHECK((long)sem.count()>=0&&(long)sem.count()<=avail,"resource count stays in range"); } };
static void tWait(void* p){ Ctx& c=*(Ctx*)p; c.sem.wait(); c.took(); }
static void tNotify(void* p){ Ctx& c=*(Ctx*)p; { std::lock_guard<std::mutex> g(c.m); ++c.avail; } c.sem.notify(); }
static void tTry(void* p){ Ctx& c=*(Ctx*)p; bool b=c.sem.try_wait(); c.took(b); }
static void tFor(void* p){ Ctx& c=*(Ctx*)p; bool b=c.sem.wait_for(std::chrono::milliseconds(5)); c.took(b); }
static void tUntil(void* p){ Ctx& c=*(Ctx*)p; bool b=c.sem.wait_until(std::chrono::system_clock::now()+std::chrono::milliseconds(5)); c.took(b); }
// two waiters, two notifiers: everybody gets through (a lost wake-up is a deadlock), no resource is created or lost
HARNESS(h_sem_wait){ int n0=lv_choice(0,2,"n0"); Ctx c((size_t)n0); int a=lv_spawn(tWait,&c),b=lv_spawn(tWait,&c),d=lv_spawn(tNotify,&c); int e=n0==0?lv_spawn(tNotify,&c):-1; lv_join(a); lv_join(b); lv_join(d); if(e>=0) lv_join(e); CHECK(c.got==2,"every waiter obtained a resource"); CHECK((int)c.sem.count()==n0+(n0==0?2:1)-2,"resource count is conserved"); lv_cover("end"); }
HARNESS(h_sem_try){ int n0=lv_choice(0,2,"n0"); Ctx c((size_t)n0); int a=lv_spawn(tTry,&c),b=lv_spawn(tTry,&c); lv_join(a); lv_join(b); CHECK(c.got==(n0<2?n0:2),"try succeeds exactly for the available resources"); CHECK((int)c.sem.count()==n0-c.got,"resource count is conserved"); lv_cover("end"); }
HARNESS(h_sem_timed){ int n0=lv_choice(0,1,"n0"); Ctx c((size_t)n0); int a=lv_spawn(tFor,&c),b=lv_spawn(tUntil,&c),d=lv_spawn(tNotify,&c); lv_join(a); lv_join(b); lv_join(d); CHECK(c.got+(int)c.sem.count()==n0+1,"timed waits neither create nor lose resources"); CHECK(c.got<=n0+1,"no more successes than resources"); lv_cover("end"); }
HARNESS(h_unlock){ std::mutex m; int st=0; { lv::mutex_unique_lock l(m); { lv::unlock_guard<lv::mutex_unique_lock> u(l); CHECK(!l.owns_lock(),"mutex released inside the scope"); std::unique_lock<std::mutex> k(m,std::try_to_lock); CHECK(k.owns_lock(),"mutex available inside the scope"); st=1; } CHECK(l.owns_lock(),"mutex re-acquired at the end of the scope"); } CHECK(m.try_lock(),"mutex free at the end"); m.unlock(); lv_cover("end"); }
// worker pools
struct TaskErr { int v; };
template<size_t W,int N,bool GET> static void pool(){ std::atomic<int> runs[N]; for(int i=0;i<N;++i) runs[i]=0; std::vector<std::future<int>> r; int thr=lv_choice(-1,N-1,"thrower"); { lv::WorkerPool<W> p; for(int i=0;i<N;++i) r.push_back(p.queueTask([&runs,thr](int k)->int{ runs[k].fetch_add(1); if(k==thr) throw TaskErr{k+50}; return k+100; },i)); if(GET){ for(int i=0;i<N;++i){ int v=-1; try { v=r[i].get(); } catch(const TaskErr& e){ v=e.v; } CHECK(v==(i==thr?i+50:i+100),"future carries the task's result or exception"); } } }
    for(int i=0;i<N;++i) CHECK(runs[i].load()==1,"every queued task ran exactly once before destruction ended"); if(!GET) for(int i=0;i<N;++i){ int v=-1; try { v=r[i].get(); } catch(const TaskErr& e){ v=e.v; } CHECK(v==(i==thr?i+50:i+100),"future carries the task's result or exception after destruction"); } lv_cover("end"); }
HARNESS(h_pool1){ pool<1,2,false>(); }
HARNESS(h_pool1_get){ pool<1,2,true>(); }
HARNESS(h_pool2){ pool<2,2,false>(); }
HARNESS(h_pool2_get){ pool<2,2,true>(); }
HARNESS(h_pool_empty){ { lv::WorkerPool<2> p; } lv_cover("end"); }
// tasks are started in queueing order by a single worker
HARNESS(h_pool_fifo){ int seq=0,at[3]={-1,-1,-1}; { lv::WorkerPool<1> p; for(int i=0;i<3;++i) p.queueTask([&seq,&at](int k){ at[k]=seq++; },i); } for(int i=0;i<3;++i) CHECK(at[i]==i,"a single worker runs tasks in queueing order"); lv_cover("end"); }
