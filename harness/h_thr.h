// Threads working on independent objects and buffers.  Every thread records what it obtained; the
// same work is then repeated by one thread.
#ifndef H_THR_H
#define H_THR_H
#include "ops.h"
#include <thread>
#include <atomic>
#include <sstream>
#include <math.h>
template <class T> struct THolder {T v; THolder(): v() {}};
struct TLog {std::vector<std::string> v; void add(const std::string& s) {v.push_back(s);}};
typedef void (*TJob)(uint64_t seed, TLog& log);
#ifdef THR_TYPES
struct MyRandom: public classdesc::random_init_t {uint64_t s; MyRandom(uint64_t s): s(s*2654435761u+1) {} double rand() {s=s*6364136223846793005ull+1442695040888963407ull; return double(s>>40)/double(1<<24);}};
#endif
inline std::string bytes(const classdesc::pack_t& b) {return std::string(b.data(),b.size());}
inline std::string tbrief(const std::string& s) {std::string r; for (size_t i=0; i<s.size() && r.size()<200; ++i) {if (s[i]>=32 && s[i]<127) r+=s[i]; else {char b[8]; snprintf(b,8,"\\%02x",(unsigned char)s[i]); r+=b;}} return r;}

#ifdef THR_TYPES
template <class T, bool cls> struct TJobs {
  static void pack(uint64_t seed, TLog& log) {
    Rng r(seed); r.budget=60; r.long32=true; THolder<T> x, y; Ops<T>::gen(r,x.v);
    classdesc::pack_t b; b<<x.v; b>>y.v; log.add(bytes(b)); log.add(vstr(y.v));
    classdesc::xdr_pack xb; THolder<T> z; xb<<x.v; xb>>z.v; log.add(bytes(xb)); log.add(vstr(z.v));
    log.add(vstr(classdesc::deepEq(x.v,y.v)));
  }
  static void xml(uint64_t seed, TLog& log) {
    Rng r(seed); r.budget=40; r.strMode=1; THolder<T> x, y; Ops<T>::gen(r,x.v);
    std::ostringstream o; {classdesc::xml_pack_t t(o,"urn:x"); t.prettyPrint=r.coin(); ::xml_pack(t,"root",x.v);} log.add(o.str());
    std::istringstream i(o.str()); classdesc::xml_unpack_t u(i); ::xml_unpack(u,"root",y.v); log.add(vstr(y.v));
  }
  static void names(uint64_t seed, TLog& log) {
    log.add(classdesc::typeName<T>()); (void)seed;
  }
  static void more(uint64_t seed, TLog& log) {cl(seed,log,static_cast<char(*)[cls? 1: 2]>(0));}
  static void cl(uint64_t, TLog&, char(*)[2]) {}
  static void cl(uint64_t seed, TLog& log, char(*)[1]) {
    Rng r(seed); r.budget=40; r.strMode=1; THolder<T> x; Ops<T>::gen(r,x.v);
    std::ostringstream o; {classdesc::dump_t d(o); ::dump(d,"root",x.v);} log.add(o.str());
    std::ostringstream s; classdesc::xsd_generate_t g; ::xsd_generate(g,"root",x.v); g.output(s,"urn:x"); log.add(s.str());
    MyRandom mr(seed); THolder<T> y; ::random_init(mr,"",y.v); log.add(vstr(y.v));
  }
};
#endif
struct TTask {const char* name; TJob job; uint64_t seed;};
// every thread runs its own list of tasks, all of them starting together; jobs come in the same order
// so that first uses collide
inline void runThreads(const char* what, const std::vector<std::pair<const char*,TJob> >& jobs, unsigned nthreads, unsigned rounds, uint64_t seed)
{
  std::vector<std::vector<TTask> > tasks(nthreads); std::vector<TLog> got(nthreads), want(nthreads);
  for (unsigned t=0; t<nthreads; ++t) {
    Rng r(seed*977+t);
    for (unsigned k=0; k<rounds; ++k) for (size_t j=0; j<jobs.size(); ++j) {
      // a third of the threads follows the order of the list, the others go their own way
      size_t q=t%3? r.below(jobs.size()): j; TTask a={jobs[q].first,jobs[q].second,t%2? r.next(): seed*31+k}; tasks[t].push_back(a);
    }
  }
  std::atomic<unsigned> ready(0); std::atomic<bool> failed(false); std::vector<std::thread> th;
  std::vector<std::string> errs(nthreads);
  auto run=[](const std::vector<TTask>& ts, TLog& log, unsigned pause) {
    for (size_t i=0; i<ts.size(); ++i) {
      log.add(std::string("#")+ts[i].name);
      try {ts[i].job(ts[i].seed,log);} catch (const std::exception& e) {log.add(std::string("exception ")+e.what());}
      if (pause && i%pause==0) std::this_thread::yield();
    }
  };
  report().progress((std::string(what)+"|0").c_str());
  for (unsigned t=0; t<nthreads; ++t) th.push_back(std::thread([&,t]() {++ready; while (ready<nthreads) {} run(tasks[t],got[t],t%4);}));
  for (auto& t: th) t.join();
  for (unsigned t=0; t<nthreads; ++t) run(tasks[t],want[t],0);
  for (unsigned t=0; t<nthreads; ++t) {
    std::string job; size_t n=std::min(got[t].v.size(),want[t].v.size());
    CHECK(got[t].v.size()==want[t].v.size(),std::string("results:")+what,"different numbers of results");
    for (size_t i=0; i<n; ++i) {
      if (want[t].v[i][0]=='#') job=want[t].v[i];
      CHECK(got[t].v[i]==want[t].v[i],std::string("result:")+(job.size()>2? std::string(job,1): job),job+": with other threads "+tbrief(got[t].v[i])+" alone "+tbrief(want[t].v[i]));
      report().distinct(got[t].v[i]);
    }
    report().count("tasks",tasks[t].size());
  }
  report().count("thread_runs");
}
#endif
