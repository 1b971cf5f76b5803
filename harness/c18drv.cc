// Feeds mutated source texts to a processor, one process each, and watches how it ends.
// usage: c18drv corpusdir outdir seed count exe [mode]
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
using namespace std;
typedef unsigned long long u64;
struct Rng {u64 s; Rng(u64 x): s(x*0x9E3779B97F4A7C15ull+1) {} unsigned operator()(unsigned n) {s^=s<<13; s^=s>>7; s^=s<<17; return n? (s>>11)%n: 0;} };

static const char* frag[]={"{","}","(",")","()","[","]","<",">",">>","<<","::",":",";",",","=","*","&","&&","#","\\","\"","'","//","/*","*/","\n","\r\n","\t","...","~","[[","]]","R\"(",")\"","R\"x(",
  "class ","struct ","union ","enum ","enum class ","typedef ","template","template<","template <class T>","operator","operator()","operator<","friend ","using ","namespace ","static ","const ","virtual ","public:","private:","protected:",
  "public","private","CLASSDESC_ACCESS(X);","CLASSDESC_ACCESS_TEMPLATE","#pragma omit pack X\n","#pragma treenode X\n","#pragma omit\n","#pragma\n","#define X {\n","#if 0\n","decltype(","alignas(","__attribute__((","static_assert(","noexcept","final","override","throw()","const=0","=0;","=default;","=delete;",
  "int a;","int a[3];","int f();","int (*f)(int);","extern \"C\" {","inline ","class A: public B {","struct {","union {","enum {a,b} e;","typedef struct {","typedef enum {","1.5e+3","0x","'\\''","\"\\\"\"","@interface","@end","\0x","\xff","\x01","-> int","int a:3;","int a=3,","int a={1,2};"};
static const unsigned nfrag=sizeof(frag)/sizeof(*frag);

static vector<string> corpus; static vector<string> names;

static vector<pair<size_t,size_t> > tokens(const string& s)
{
  vector<pair<size_t,size_t> > r; size_t i=0;
  while (i<s.size()) {
    size_t j=i+1;
    if (isalnum((unsigned char)s[i]) || s[i]=='_') while (j<s.size() && (isalnum((unsigned char)s[j]) || s[j]=='_')) ++j;
    else if (isspace((unsigned char)s[i])) {while (j<s.size() && isspace((unsigned char)s[j])) ++j; i=j; continue;}
    r.push_back(make_pair(i,j)); i=j;
  }
  return r;
}

static string mutate(Rng& r, string& what)
{
  string s=corpus[r(corpus.size())];
  if (s.size()>6000) {size_t a=r(s.size()-3000); s=s.substr(a,1000+r(3000));}
  unsigned kind=r(10), n=1+(r(4)? r(3): r(12));
  char b[40];
  if (kind==0) {s=s.substr(0,r(s.size()+1)); what="truncated";}
  else if (kind==1) {s.clear(); for (unsigned i=0, m=r(40); i<m; ++i) {s+=frag[r(nfrag)]; if (r(3)==0) s+=" ";} what="fragments";}
  else if (kind==2) {s.clear(); for (unsigned i=0, m=r(200); i<m; ++i) s+=char(r(3)? 32+r(96): r(256)); what="bytes";}
  else if (kind==3) { // something deep, or long
    string f=frag[r(nfrag)], g=frag[r(nfrag)]; unsigned m=1+r(r(3)? 20: 300);
    string mid="x";
    if (r(2)) {f="struct A"; g="";} 
    switch (r(6)) {
    case 0: f="struct A {"; g="};"; break;
    case 1: f="namespace a {"; g="}"; break;
    case 2: f="template <class T> "; g=""; break;
    case 3: f="("; g=")"; mid=""; break;
    case 4: f="{"; g="}"; break;
    default:;
    }
    s=""; for (unsigned i=0; i<m; ++i) s+=f; s+=mid; for (unsigned i=0; i<m; ++i) s+=g;
    if (r(2)) s="struct B {int a;"+s+"};";
    what="repeated";
  }
  else {
    what=kind<7? "tokens": "splices";
    for (unsigned i=0; i<n && s.size(); ++i) {
      vector<pair<size_t,size_t> > t=tokens(s); if (t.empty()) break;
      pair<size_t,size_t> p=t[r(t.size())], q=t[r(t.size())];
      if (q<p) swap(p,q);
      switch (r(kind<7? 7: 4)) {
      case 0: s.erase(p.first,p.second-p.first); break;
      case 1: s.insert(p.first,frag[r(nfrag)]); break;
      case 2: s.replace(p.first,p.second-p.first,frag[r(nfrag)]); break;
      case 3: {
        if (kind<7) {string a=s.substr(q.first,q.second-q.first); s.insert(p.second," "+a+" ");}
        else {const string& o=corpus[r(corpus.size())]; vector<pair<size_t,size_t> > u=tokens(o); if (u.empty()) break;
          size_t a=u[r(u.size())].first; s=s.substr(0,p.first)+o.substr(a,r(2)? string::npos: 400);}
        break;}
      case 4: s.erase(p.first,q.first-p.first); break;
      case 5: s[r(s.size())]=char(r(256)); break;
      case 6: {string a=s.substr(p.first,p.second-p.first), c=s.substr(q.first,q.second-q.first); if (p.second>q.first) break; s.replace(q.first,q.second-q.first,a); s.replace(p.first,p.second-p.first,c); break;}
      }
    }
    if (r(5)==0) {s=s.substr(0,r(s.size()+1)); what+="+truncated";}
  }
  (void)b;
  return s;
}

static double now() {timeval t; gettimeofday(&t,0); return t.tv_sec+1e-6*t.tv_usec;}
struct Child {pid_t pid; double start; int slot; u64 id; string what; bool killed;};

int main(int argc, char** argv)
{
  string cdir=argv[1], out=argv[2]; u64 seed=strtoull(argv[3],0,10); u64 count=strtoull(argv[4],0,10); string exe=argv[5]; bool friends=argc>6;
  DIR* d=opendir(cdir.c_str()); vector<string> fs;
  while (dirent* e=readdir(d)) if (e->d_name[0]!='.') fs.push_back(e->d_name);
  closedir(d); sort(fs.begin(),fs.end());
  for (size_t i=0; i<fs.size(); ++i) {
    FILE* f=fopen((cdir+"/"+fs[i]).c_str(),"rb"); string s; char b[4096]; size_t n; while ((n=fread(b,1,4096,f))>0) s.append(b,n); fclose(f); corpus.push_back(s);
  }
  const unsigned J=4; const double limit=atof(getenv("C18_LIMIT")? getenv("C18_LIMIT"): "20");
  static const char* opts[]={"-respect_private","-use_mbr_pointers","-overload","-onbase","-typeName","-nodef","-objc","-I .","-qt"};
  map<int,Child> kids; vector<int> freeSlots; for (unsigned i=0; i<J; ++i) freeSlots.push_back(i);
  u64 next=0, ended=0, hangs=0, fails=0, zero=0, nonzero=0; map<string,u64> kinds; set<u64> seen; double maxcpu=0; string maxwhat; u64 bytes=0;
  while (ended<count) {
    while (next<count && freeSlots.size()) {
      u64 id=next++; Rng r(seed*1000003+id); for (int i=0; i<5; ++i) r(2);
      string what, s;
      if (id<corpus.size()) {s=corpus[id]; what="unchanged";}
      else if (id<corpus.size()+2) {s=id==corpus.size()? "": "\n"; what="empty";}
      else s=mutate(r,what);
      u64 h=1469598103934665603ull; for (size_t i=0; i<s.size(); ++i) h=(h^(unsigned char)s[i])*1099511628211ull; seen.insert(h); bytes+=s.size();
      int slot=freeSlots.back(); freeSlots.pop_back();
      char in[400], er[400]; snprintf(in,400,"%s/in%d",out.c_str(),slot); snprintf(er,400,"%s/err%d",out.c_str(),slot);
      FILE* f=fopen(in,"wb"); fwrite(s.data(),1,s.size(),f); fclose(f);
      vector<string> a; a.push_back(exe);
      bool byfile=!friends && r(2);
      if (!friends) {
        for (unsigned i=0; i<sizeof(opts)/sizeof(*opts)-3; ++i) if (r(4)==0) a.push_back(opts[i]);
        if (byfile) {a.push_back("-i"); a.push_back(in);}
        a.push_back("pack"); if (r(3)==0) a.push_back("unpack");
      }
      FILE* cf=fopen((string(out)+"/cmd"+char('0'+slot)).c_str(),"w"); for (size_t i=0; i<a.size(); ++i) fprintf(cf,"%s ",a[i].c_str()); if (!byfile) fprintf(cf,"< input"); fprintf(cf,"\n"); fclose(cf);
      pid_t p=fork();
      if (p==0) {
        int fd=open(byfile? "/dev/null": in,O_RDONLY); dup2(fd,0); fd=open("/dev/null",O_WRONLY); dup2(fd,1); fd=open(er,O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(fd,2);
        rlimit l={200000,200000}; (void)l; l.rlim_cur=l.rlim_max=64<<20; setrlimit(RLIMIT_FSIZE,&l);
        l.rlim_cur=l.rlim_max=rlim_t(limit)+1; setrlimit(RLIMIT_CPU,&l); setpgid(0,0);
        vector<char*> av; for (size_t i=0; i<a.size(); ++i) av.push_back((char*)a[i].c_str()); av.push_back(0);
        if (chdir(out.c_str())) _exit(126); execv(exe.c_str(),&av[0]); _exit(127);
      }
      Child c={p,now(),slot,id,what,false}; kids[p]=c;
    }
    int st; rusage ru; pid_t p=wait4(-1,&st,WNOHANG,&ru);
    if (p<=0) {
      usleep(300);
      for (map<int,Child>::iterator i=kids.begin(); i!=kids.end(); ++i) if (!i->second.killed && now()-i->second.start>limit*6) {kill(i->first,SIGKILL); i->second.killed=true;}
      continue;
    }
    if (!kids.count(p)) continue;
    Child c=kids[p]; kids.erase(p); ++ended; freeSlots.push_back(c.slot); kinds[c.what]++;
    double cpu=ru.ru_utime.tv_sec+ru.ru_utime.tv_usec*1e-6+ru.ru_stime.tv_sec+ru.ru_stime.tv_usec*1e-6; if (cpu>maxcpu) maxcpu=cpu;
    bool bad=WIFSIGNALED(st) || WEXITSTATUS(st)>=97;
    bool hang=c.killed || (WIFSIGNALED(st) && (WTERMSIG(st)==SIGXCPU || (WTERMSIG(st)==SIGKILL && cpu>limit-1)));
    if (getenv("C18_DBG") && st) fprintf(stderr,"st %x %s\n",st,c.what.c_str()); if (!bad) {if (WEXITSTATUS(st)) ++nonzero; else ++zero;}
    else if (++fails<400 || hang) {
      char b[1200]; snprintf(b,1200,"cp %s/in%d %s/fail%llu.h; cp %s/err%d %s/fail%llu.err; cp %s/cmd%d %s/fail%llu.cmd",out.c_str(),c.slot,out.c_str(),c.id,out.c_str(),c.slot,out.c_str(),c.id,out.c_str(),c.slot,out.c_str(),c.id);
      if (system(b)) perror("cp");
      printf("F\t%llu\t%s\t%d\t%s\n",c.id,hang? "hang": "crash",WIFSIGNALED(st)? -WTERMSIG(st): WEXITSTATUS(st),c.what.c_str()); fflush(stdout);
      if (hang && ++hangs>=6) break;
    }
  }
  for (map<int,Child>::iterator i=kids.begin(); i!=kids.end(); ++i) kill(i->first,SIGKILL);
  for (map<string,u64>::iterator i=kinds.begin(); i!=kinds.end(); ++i) printf("N\tinputs:%s\t%llu\n",i->first.c_str(),i->second);
  printf("N\truns\t%llu\nN\tstatus_zero\t%llu\nN\tstatus_nonzero\t%llu\nN\tdistinct_inputs\t%llu\nN\tbytes\t%llu\nM\t%.2f\n",ended,zero,nonzero,(u64)seen.size(),bytes,maxcpu);
}
