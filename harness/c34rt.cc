// reads class files into the structure, prints what was read, writes them again
#include "javaClass.h"
#include "javaClass_base.h"
#include "javaClass_serialisation.h"
#include "javaClass.cd"
#include "classdesc_epilogue.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
using namespace classdesc;
static FILE* o;
static std::vector<char> slurp(const char* f)
{
  std::vector<char> r; FILE* p=fopen(f,"rb"); char b[65536]; size_t n;
  while ((n=fread(b,1,sizeof b,p))>0) r.insert(r.end(),b,b+n);
  fclose(p); return r;
}
static unsigned long hash(const char* p, size_t n) {unsigned long h=1469598103u; for (size_t i=0; i<n; ++i) h=((h^(unsigned char)p[i])*16777619UL)&0xffffffffUL; return h;}
template <class V> void attrs(const char* w, const V& a)
{
  for (size_t i=0; i<a.size(); ++i)
    fprintf(o,"%s attr %u %u %lx\n",w,unsigned(a[i].attribute_name_index.v),unsigned(a[i].info.size()),hash(a[i].info.empty()? "": (const char*)&a[i].info[0],a[i].info.size()));
}
template <class V> void membs(const char* w, const V& a)
{
  for (size_t i=0; i<a.size(); ++i)
    {
      fprintf(o,"%s %u %u %u\n",w,unsigned(a[i].access_flags.v),unsigned(a[i].name_index.v),unsigned(a[i].descriptor_index.v));
      attrs(w,a[i].attributes);
    }
}
static void show(const ClassFile& c)
{
  fprintf(o,"head %x %u %u %u %u %u %u\n",c.magic.v,unsigned(c.minor_version.v),unsigned(c.major_version.v),unsigned(c.constant_pool.size()),unsigned(c.access_flags.v),unsigned(c.this_class.v),unsigned(c.super_class.v));
  for (size_t i=1; i<c.constant_pool.size(); ++i)
    {
      const cp_info& x=c.constant_pool[i]; int t=x.tag();
      fprintf(o,"cp %u %d",unsigned(i),t);
      switch (t)
        {
        case 1: {const std::string& s=x.get<std::string>(); fprintf(o," %u %lx\n",unsigned(s.size()),hash(s.data(),s.size())); break;}
        case 3: case 4: fprintf(o," %u\n",x.get<u4>().v); break;
        case 5: case 6: fprintf(o," %llu\n",(unsigned long long)x.get<u8>().v); ++i; break;
        case 7: case 8: fprintf(o," %u\n",unsigned(x.get<u2>().v)); break;
        case 9: case 10: case 11: fprintf(o," %u %u\n",unsigned(x.get<Ref>().class_index.v),unsigned(x.get<Ref>().name_and_type_index.v)); break;
        case 12: fprintf(o," %u %u\n",unsigned(x.get<NameAndTypeInfo>().name_index.v),unsigned(x.get<NameAndTypeInfo>().descriptor_index.v)); break;
        default: fprintf(o," -\n");
        }
    }
  for (size_t i=0; i<c.interfaces.size(); ++i) fprintf(o,"interface %u\n",unsigned(c.interfaces[i].v));
  membs("field",c.fields); membs("method",c.methods); attrs("class",c.attributes);
}
int main(int argc, char** argv)
{
  o=stdout;
  std::vector<std::string> files; char line[4096];
  FILE* l=fopen(argv[1],"r");
  while (fgets(line,sizeof line,l)) {line[strcspn(line,"\n")]=0; files.push_back(line);}
  fclose(l);
  ClassFile prev; bool have=false;
  for (size_t i=0; i<files.size(); ++i)
    {
      printf("FILE %s\n",files[i].c_str()); fflush(stdout);
      std::vector<char> bytes=slurp(files[i].c_str());
      ClassFile c, c2, reused;
      try
        {
          if (i%3==0) {pack_t in(files[i].c_str(),"r"); in>>c;}
          else {pack_t in; in.packraw(bytes.data(),bytes.size()); in>>c; if (in.pos()!=bytes.size()) printf("BAD unread %lu of %lu\n",(unsigned long)in.pos(),(unsigned long)bytes.size());}
          show(c);
          // written to memory, to a file, and from a copy of the structure
          pack_t out; out<<c;
          if (out.size()!=bytes.size() || memcmp(out.data(),bytes.data(),bytes.size())!=0)
            {
              size_t k=0; while (k<out.size() && k<bytes.size() && out.data()[k]==bytes[k]) ++k;
              printf("BAD rewrite differs at %lu: %lu bytes read, %lu written\n",(unsigned long)k,(unsigned long)bytes.size(),(unsigned long)out.size());
            }
          c2=c;
          std::string f=std::string(argv[2])+"/w.class";
          {pack_t w(f.c_str(),"w"); w<<c2;}
          std::vector<char> again=slurp(f.c_str());
          if (again!=bytes) printf("BAD file rewrite: %lu bytes read, %lu written\n",(unsigned long)bytes.size(),(unsigned long)again.size());
          // read into a structure that already holds another class
          if (have) reused=prev;
          {pack_t in; in.packraw(bytes.data(),bytes.size()); in>>reused;}
          pack_t out2; out2<<reused;
          if (out2.size()!=bytes.size() || memcmp(out2.data(),bytes.data(),bytes.size())!=0) printf("BAD rewrite after reading into a used object: %lu written, %lu read\n",(unsigned long)out2.size(),(unsigned long)bytes.size());
          printf("OK %lu\n",(unsigned long)bytes.size());
          prev=c; have=true;
        }
      catch (std::exception& e) {printf("BAD exception %s\n",e.what());}
    }
  printf("DONE\n");
}
