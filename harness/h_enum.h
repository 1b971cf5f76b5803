// Monitors for symbolic enumerations. Expectations (names, values as the compiler sees them) come from the generator.
#ifndef H_ENUM_H
#define H_ENUM_H
template <class E> struct Guarded {unsigned char before[8]; E e; unsigned char after[8]; Guarded(): e() {memset(before,0x5a,8); memset(after,0x5a,8);} bool ok() const {for (int i=0; i<8; ++i) if (before[i]!=0x5a || after[i]!=0x5a) return false; return true;} };
inline std::string xmlText(const std::string& doc) {size_t a=doc.find('>'), b=doc.rfind("</"); if (doc.compare(0,2,"<?")==0) {a=doc.find('>',a+1);} return a==std::string::npos||b==std::string::npos||b<=a? "?": doc.substr(a+1,b-a-1);}
inline std::string trim(const std::string& s) {size_t a=s.find_first_not_of(" \n\t"), b=s.find_last_not_of(" \n\t"); return a==std::string::npos? "": s.substr(a,b-a+1);}
// is text the name of an enumerator with that value?
template <class E> bool named(const std::string& text, E v, const E* vals, const char** names, int n)
{for (int i=0; i<n; ++i) if (vals[i]==v && text==names[i]) return true; return false;}
template <class E> void keyData(const char* what, const classdesc::EnumKey* k, size_t len, const E* vals, const char** names, int n)
{
  CHECK(int(len)==n,"key-table-size",std::string(what));
  for (int i=0; i<n && i<int(len); ++i) CHECK(std::string(names[i])==k[i].name && k[i].value==int(vals[i]),"key-table",std::string(what)+" entry "+names[i]+" is "+k[i].name);
}
template <class E> void checkEnum(const char* w, Rng& r, const E* vals, const char** names, int n)
{
  using namespace classdesc;
  std::string what(w); report().progress(w);
  const EnumKeys<E>& K=enum_keys<E>();
  CHECK(&K==&enum_keys<const E>(),"const-table",what);
  std::map<int,int> distinct; for (int i=0; i<n; ++i) distinct[int(vals[i])]=i;
  for (int i=0; i<n; ++i) {
    std::string nm=names[i], s=K(vals[i]);
    CHECK(named(s,vals[i],vals,names,n),"to-name",what+"::"+nm+" gave "+s);
    CHECK(K(int(vals[i]))==s && to_string(vals[i])==s,"to-name-forms",what+"::"+nm);
    CHECK(K(nm)==vals[i] && K(s)==vals[i] && K(names[i])==vals[i],"from-name",what+"::"+nm);
    CHECK(K.has(nm) && K.has(vals[i]),"has",what+"::"+nm);
    const std::string bogus[]={nm+"x"," "+nm,nm.substr(1),nm.substr(0,nm.size()-1),what+"::"+nm,""};
    for (unsigned b=0; b<6; ++b) {bool real=false; for (int j=0; j<n; ++j) real=real || bogus[b]==names[j]; CHECK(K.has(bogus[b])==real,"has-bogus",what+" "+bogus[b]);}
    // handles
    Guarded<E> g; g.e=vals[i]; const E ce=vals[i];
    CHECK(std::string(enum_handle(g.e))==s && std::string(enum_handle(ce))==s && int(enum_handle(g.e))==int(vals[i]),"handle-read",what+"::"+nm);
    std::ostringstream o; o<<enum_handle(g.e)<<'|'<<enum_handle(ce)<<'|'; classdesc::operator<<(o,vals[i]); CHECK(o.str()==s+"|"+s+"|"+s,"stream-out",what+"::"+nm+" gave "+o.str());
    CHECK(g.e==vals[i] && g.ok(),"reading-changed",what+"::"+nm);
    int j=r.below(n); E other=vals[j];
    g.e=other; enum_handle(g.e)=nm; CHECK(g.e==vals[i] && g.ok(),"assign-name",what+"::"+nm);
    g.e=other; enum_handle(g.e)=int(vals[i]); CHECK(g.e==vals[i] && g.ok(),"assign-int",what+"::"+nm);
    g.e=other; enum_handle(g.e)=vals[i]; CHECK(g.e==vals[i] && g.ok(),"assign-enum",what+"::"+nm);
    g.e=other; {Enum_handle<E> h(g.e), h2(h); std::istringstream in("  "+nm+" "+names[j]); in>>h2; CHECK(g.e==vals[i] && g.ok() && int(h)==int(vals[i]),"stream-in",what+"::"+nm); in>>h; CHECK(g.e==other && g.ok(),"stream-in",what+"::"+names[j]);}
    // serialisation
    {pack_t b; b<<vals[i]<<ce<<int(77); E y=other; Guarded<E> z; z.e=other; int m=0; b>>y>>z.e>>m; CHECK(y==vals[i] && z.e==vals[i] && z.ok() && m==77,"pack",what+"::"+nm);}
    {xdr_pack b; b<<vals[i]<<ce<<int(77); E y=other; Guarded<E> z; z.e=other; int m=0; b>>y>>z.e>>m; CHECK(y==vals[i] && z.e==vals[i] && z.ok() && m==77,"xdr",what+"::"+nm);}
    {std::ostringstream x; {xml_pack_t t(x); ::xml_pack(t,"root",(i&1)? const_cast<E&>(ce): g.e=vals[i]);}
      CHECK(trim(xmlText(x.str()))==s,"xml-text",what+"::"+nm+": "+x.str());
      const std::string docs[]={x.str(),"<root>"+nm+"</root>","<root>\n "+nm+"\n</root>"};
      for (int k=0; k<3; ++k) {std::istringstream in(docs[k]); xml_unpack_t t(in); Guarded<E> z; z.e=other; ::xml_unpack(t,"root",z.e); CHECK(z.e==vals[i] && z.ok(),"xml",what+"::"+nm+" from "+docs[k]);}
    }
    report().count("enumerators");
  }
  // the table
  CHECK(K.size()==distinct.size(),"size",what);
  typename EnumKeys<E>::iterator it=K.begin(); typename EnumKeys<E>::Siterator si=K.sbegin(); typename EnumKeys<E>::Viterator vi=K.vbegin();
  size_t steps=0; std::map<int,int> seen;
  for (; it!=K.end() && steps<=distinct.size(); ++it,++si,++vi,++steps) {
    CHECK(si!=K.send() && vi!=K.vend(),"iterators-short",what);
    CHECK(*si==it->second && si->size()==it->second.size() && *vi==E(it->first),"iterators-disagree",what);
    CHECK(named(it->second,E(it->first),vals,names,n) && !seen[it->first]++,"iteration",what+" gives "+it->second);
  }
  CHECK(steps==distinct.size() && si==K.send() && vi==K.vend(),"iteration-count",what);
  // values of no enumerator
  for (int v=-3; v<260; v=v*2+5) if (!distinct.count(v)) CHECK(K(v)=="","name-of-nothing",what);
  report().count("enums"); report().distinct(what);
}
template <class E> void checkIn(const char* w, Rng& r, const E* vals, int n)
{
  using namespace classdesc;
  for (int k=0; k<6; ++k) {
    std::vector<E> v; std::map<E,std::vector<E> > m; E a[3]; std::pair<E,E> p;
    for (int i=r.below(6); i>0; --i) v.push_back(vals[r.below(n)]);
    for (int i=r.below(4); i>0; --i) m[vals[r.below(n)]]=v;
    for (int i=0; i<3; ++i) a[i]=vals[r.below(n)];
    p.first=a[2]; p.second=a[0];
    {pack_t b; b<<v<<m<<p; std::vector<E> v1(2); std::map<E,std::vector<E> > m1; std::pair<E,E> p1; b>>v1>>m1>>p1;
      CHECK(v1==v && m1==m && p1==p,"pack-nested",w);}
    {std::ostringstream x; {xml_pack_t t(x); ::xml_pack(t,"root",v);} std::istringstream in(x.str()); xml_unpack_t t(in); std::vector<E> v1(1); ::xml_unpack(t,"root",v1); CHECK(v1==v,"xml-vector",std::string(w)+": "+x.str());}
    {std::ostringstream x; {xml_pack_t t(x); ::xml_pack(t,"root",m);} std::istringstream in(x.str()); xml_unpack_t t(in); std::map<E,std::vector<E> > m1; ::xml_unpack(t,"root",m1); CHECK(m1==m,"xml-map",std::string(w)+": "+x.str());}
    report().count("composites");
  }
}
template <class S> void checkMember(const char* w, const S& s, S fresh)
{
  using namespace classdesc;
  S t(fresh); {pack_t b; b<<s; b>>t; CHECK(t.same(s),"pack-member",w);}
  S u(fresh); std::ostringstream x; {xml_pack_t p(x); ::xml_pack(p,"root",const_cast<S&>(s));} {std::istringstream in(x.str()); xml_unpack_t p(in); ::xml_unpack(p,"root",u); CHECK(u.same(s),"xml-member",std::string(w)+": "+x.str());}
  for (size_t i=0; i<s.names.size(); ++i) CHECK(x.str().find(">"+s.names[i]+"<")!=std::string::npos,"xml-symbolic",std::string(w)+": "+s.names[i]+" not in "+x.str());
}
#endif
