// File-backed packing against in-memory packing.
#ifndef H_FILE_H
#define H_FILE_H
#include "h_pack.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
static std::string slurp(const char* f) {std::string s; FILE* h=fopen(f,"rb"); if (!h) return s; char b[4096]; size_t n; while ((n=fread(b,1,sizeof b,h))>0) s.append(b,n); fclose(h); return s;}
static void spit(const char* f, const std::string& s) {FILE* h=fopen(f,"wb"); fwrite(s.data(),1,s.size(),h); fclose(h);}
// exposes the protected stream so that writes reach the operating system at once
template <class B> struct Unbuffered: public B {
  Unbuffered(const char* n, const char* m): B(n,m) {setvbuf(this->f,0,_IONBF,0);}
};
template <class B> void fileHistory(Rng& r, const char* form, bool xdr)
{
  const char* f="c03.dat"; r.long32=xdr; std::vector<ItemBase*> v; std::vector<size_t> end; unsigned n=1+r.below(8); std::string tr=form, mem;
  {
    B m; B w(f,"w"); 
    for (unsigned i=0; i<n; ++i) {
      r.budget=120; v.push_back(makers()[r.below(makers().size())](r)); v[i]->put(m); v[i]->put(w); end.push_back(m.size()); 
      CHECK(w.size()==m.size(),"file-size-report",std::string(form)+v[i]->str());
      if (r.coin(4)) {std::string raw; unsigned k=4*r.below(300); for (unsigned q=0;q<k;++q) raw+=char(r.next()); m.packraw(raw.data(),k); w.packraw(raw.data(),k);
        // raw blocks are read back below
        struct Raw: public ItemBase {std::string s; Raw(const std::string& s): s(s) {} void put(classdesc::pack_t&) {} bool get(classdesc::pack_t& b) {std::string t(s.size(),'x'); b.unpackraw(s.empty()? 0: &t[0],s.size()); return s==t;} bool skip(classdesc::pack_t& b) {return get(b);} std::string str() {return "raw";}};
        v.push_back(new Raw(raw)); end.push_back(m.size()); ++i; ++n;
      }
    }
    mem.assign(m.data()? m.data(): "",m.size());
  }
  n=v.size();
  std::string disk=slurp(f);
  CHECK(disk==mem,"file-bytes-differ",std::string(form)+" memory "+vstr(mem.substr(0,400))+" file "+vstr(disk.substr(0,400)));
  report().distinct(mem); report().count("file_bytes",disk.size());
  { // read back, twice (rewound), with const skips
    B rd(f,"r");
    for (int pass=0; pass<2; ++pass) {
      for (unsigned i=0; i<n; ++i) {
        bool ok=false; std::string ex; bool sk=r.coin(4);
        try {ok=sk? v[i]->skip(rd): v[i]->get(rd);} catch (const std::exception& e) {ex=e.what();}
        CHECK(ok,"file-value",std::string(form)+" item "+v[i]->str()+" "+ex);
        CHECK(rd.pos()==end[i],"file-position",std::string(form)+" item "+v[i]->str());
        report().count("items_read"); if (!ok) {pass=9; break;}
      }
      int q=0; bool t=false; try {rd>>q;} catch (const classdesc::pack_error&) {t=true;} CHECK(t,"read-past-end-of-file",form);
      t=false; char raw[8]; try {rd.unpackraw(raw,8);} catch (const classdesc::pack_error&) {t=true;} CHECK(t,"raw-read-past-end-of-file",form);
      rd.reseto(); CHECK(rd.pos()==0,"rewind-position",form);
    }
  }
  if (!disk.empty()) { // truncated file: the part before the cut reads exactly, then an exception
    size_t cut=r.below(disk.size()); spit(f,disk.substr(0,cut)); B rd(f,"r"); unsigned i=0;
    for (; i<n; ++i) {
      bool ok=false, thrown=false; 
      try {ok=v[i]->get(rd);} catch (const std::exception&) {thrown=true;}
      if (end[i]<=cut) CHECK(ok,"truncated-file-value",std::string(form)+v[i]->str());
      else {CHECK(thrown,"truncated-file-no-exception",std::string(form)+v[i]->str()); break;}
    }
    report().count("truncations");
  }
  unlink(f);
  { // missing file / unwritable directory
    bool t=false; try {B x("no/such/file","r");} catch (const classdesc::pack_error&) {t=true;} CHECK(t,"missing-file",form);
    t=false; try {B x("no/such/file","w");} catch (const classdesc::pack_error&) {t=true;} CHECK(t,"missing-directory",form);
  }
  // medium full: every refused write must be reported
  if (!mem.empty())
    {
      bool t=false; try {Unbuffered<B> w("/dev/full","w"); for (unsigned i=0; i<n; ++i) {classdesc::pack_t d; v[i]->put(w);} } catch (const classdesc::pack_error&) {t=true;}
      bool onlyRaw=true; for (unsigned i=0; i<n; ++i) if (v[i]->str()!="raw") {classdesc::pack_t d; v[i]->put(d); if (d.size()) onlyRaw=false;}
      CHECK(t || onlyRaw,"disk-full-unreported",form);
      // the file size limit is reached in the middle of the sequence
      struct rlimit old, lim; getrlimit(RLIMIT_FSIZE,&old); lim=old; lim.rlim_cur=r.below(mem.size()+1); setrlimit(RLIMIT_FSIZE,&lim);
      bool thrown=false; unsigned i=0; size_t total=0; std::string ex;
      try {Unbuffered<B> w(f,"w"); for (; i<n; ++i) {classdesc::pack_t d; v[i]->put(w); if (v[i]->str()=="raw") {std::string z(end[i]-end[i-1],'r'); w.packraw(z.data(),z.size());} total=end[i];} }
      catch (const classdesc::pack_error& e) {thrown=true; ex=e.what();}
      setrlimit(RLIMIT_FSIZE,&old);
      CHECK(thrown == (mem.size()>lim.rlim_cur),"partial-write-unreported",std::string(form)+" "+ex);
      report().count("full_medium"); unlink(f);
    }
  for (unsigned i=0; i<n; ++i) delete v[i];
}
inline void fileMain(uint64_t seed, unsigned iters, unsigned from)
{
  signal(SIGXFSZ,SIG_IGN);
  for (unsigned i=from; i<iters; ++i) {
    char p[64]; snprintf(p,64,"file|%u",i); report().progress(p); Rng r(seed*6007+i);
    if (r.coin()) fileHistory<classdesc::pack_t>(r,"pack_t",false); else fileHistory<classdesc::xdr_pack>(r,"xdr_pack",true);
    report().count("histories");
  }
}
#endif
