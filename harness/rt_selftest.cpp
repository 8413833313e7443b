#include "rt.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <future>
#include <map>
#include <vector>
#include <memory>
#include <unistd.h>
struct S { std::mutex a,b; std::condition_variable c; std::atomic<bool> f{false}; int x=0; bool ready=false; std::map<int,int> m; };
RT_SCENARIO(ok_counter,2,2){ S* s=new S; std::vector<std::thread> t; for(int i=0;i<3;i++) t.emplace_back([s]{ std::lock_guard<std::mutex> l(s->a); s->x++; }); for(auto&x:t)x.join(); RT_CHECK(s->x==3,"x"); delete s;}
RT_SCENARIO(bad_race,1,1){ S* s=new S; std::thread t([s]{ s->x++; }); s->x++; t.join(); delete s;}
RT_SCENARIO(bad_map,1,1){ S* s=new S; std::thread t([s]{ s->m[3]=1; }); int k=s->m.count(2); t.join(); delete s;}
RT_SCENARIO(bad_abba,1,1){ S* s=new S; std::thread t([s]{ s->a.lock(); s->b.lock(); s->b.unlock(); s->a.unlock();}); s->b.lock(); s->a.lock(); s->a.unlock(); s->b.unlock(); t.join(); delete s;}
RT_SCENARIO(bad_lost,1,1){ S* s=new S; std::thread t([s]{ s->f=true; s->c.notify_all(); }); { std::unique_lock<std::mutex> l(s->a); while(!s->f) s->c.wait(l);} t.join(); delete s;}
RT_SCENARIO(ok_cv,2,2){ S* s=new S; std::thread t([s]{ {std::lock_guard<std::mutex> l(s->a); s->ready=true;} s->c.notify_one(); }); { std::unique_lock<std::mutex> l(s->a); s->c.wait(l,[s]{return s->ready;});} t.join(); delete s;}
RT_SCENARIO(bad_cvpred,1,1){ S* s=new S; std::thread t([s]{ {std::lock_guard<std::mutex> l(s->a); s->ready=true; s->c.notify_one();} }); { std::unique_lock<std::mutex> l(s->a); if(!s->ready) s->c.wait(l); RT_CHECK(s->ready,"spurious");} t.join(); delete s;}
RT_SCENARIO(bad_uaf,1,1){ S* s=new S; std::thread t([s]{ s->f=true; {std::lock_guard<std::mutex> l(s->a);} }); while(!s->f) usleep(10); {std::lock_guard<std::mutex> l(s->a);} delete s; t.join(); }
RT_SCENARIO(ok_spin,2,2){ S* s=new S; std::thread t([s]{ s->x=1; s->f=true; }); while(!s->f){} RT_CHECK(s->x==1,"x"); t.join(); delete s;}
RT_SCENARIO(bad_spin,1,1){ S* s=new S; std::thread t([s]{ s->x=1; }); while(!s->f){}  t.join(); delete s;}
RT_SCENARIO(bad_atom,1,1){ std::atomic<int>* n=new std::atomic<int>(0); std::thread t([n]{ int v=*n; *n=v+1;}); int v=*n; *n=v+1; t.join(); RT_CHECK(*n==2,"lost update"); }
RT_SCENARIO(ok_future,1,1){ auto f=std::async(std::launch::async,[]{return 4;}); RT_CHECK(f.get()==4,"v"); }
RT_SCENARIO(bad_term,1,1){ std::thread t([]{ }); }
RT_SCENARIO(bad_throw,1,1){ std::thread t([]{ throw std::runtime_error("boom"); }); t.join(); }
RT_SCENARIO(bad_detached,1,1){ S* s=new S; std::thread([s]{ s->a.lock(); s->x=1; s->a.unlock();}).detach(); s->a.lock(); s->a.unlock(); delete s; }
RT_SCENARIO(bad_double,1,1){ S* s=new S; std::thread t([s]{}); t.join(); delete s; delete s;}
static int& st(){ static int* p=new int(5); return *p;}
RT_SCENARIO(ok_static,2,2){ std::thread t([]{ RT_CHECK(st()==5,"s"); }); RT_CHECK(st()==5,"s"); t.join(); }
RT_SCENARIO(ok_shared,2,2){ auto p=std::make_shared<int>(3); auto q=p; std::thread t([q]{ auto r=q; RT_CHECK(*r==3,"a"); }); q.reset(); p.reset(); t.join(); }
RT_SCENARIO(ok_string,2,2){ std::string a="abc"; std::thread t([a]{ std::string b=a+"defghijklmnopqrstuvwxyzdefghijklmnopqrstuvwxyz"; RT_CHECK(b.size()>10,"x"); }); std::string c=a; c+="xx"; t.join(); }
RT_SCENARIO(bad_string,2,2){ std::string*a=new std::string("abc"); std::thread t([a]{ std::string b=*a; }); a->append("xx"); t.join(); }
RT_SCENARIO(bad_stack,2,2){ std::atomic<int*> *p=new std::atomic<int*>(nullptr); std::thread t([p]{ int x=3; *p=&x; usleep(1); }); while(!p->load()) usleep(1); volatile int v=**p; t.join(); volatile int w=**p; }
RT_SCENARIO(bad_deref,1,1){ std::thread t([]{ *(volatile int*)8=1; }); t.join(); }
RT_SCENARIO(ok_quiesce,2,2){ S* s=new S; std::thread t([s]{ s->f=true; std::unique_lock<std::mutex> l(s->a); s->c.wait(l,[s]{return s->ready;}); }); rt::quiesce(); RT_CHECK(s->f,"not yet"); { std::unique_lock<std::mutex> l(s->a); s->ready=true; } s->c.notify_all(); t.join(); delete s; }
RT_SCENARIO(ok_quiesce_poll,2,2){ std::atomic<int>* n=new std::atomic<int>(0); std::atomic<int>* g=new std::atomic<int>(0); std::thread u([g]{ while(!*g) usleep(1); }); std::thread t([n]{ ++*n; ++*n; }); rt::quiesce(); RT_CHECK(*n==2,"not yet"); *g=1; t.join(); u.join(); }
RT_SCENARIO(bad_quiesce,1,1){ std::atomic<int>* n=new std::atomic<int>(0); std::thread t([n]{ ++*n; }); usleep(1); RT_CHECK(*n==1,"a sleep is no guarantee"); t.join(); }
