// Deep comparison against an independent comparator, on triples of related objects.
#ifndef H_CMP_H
#define H_CMP_H
inline int sgn(int x) {return (x>0)-(x<0);}
template <class T> int dcmp(const T& x, const T& y) {return sgn(classdesc::deepCmp(x,y));}
// one of: a fresh value, a copy made by generating again, or nearly the same value
template <class T> uint64_t make(T& x, uint64_t seed, unsigned maxLen, bool nf) {Rng r(seed); r.maxLen=maxLen; r.nonfinite=nf; Ops<T>::gen(r,x); return seed;}
template <class T, bool exact> void cmpType(const char* name, uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*7001+it); char pr[80]; snprintf(pr,80,"%s|%u",name,it); report().progress(pr);
    static T x[3]; uint64_t s[3]; unsigned len[3]; bool nf=it%3==0;
    for (int i=0; i<3; ++i) {   // the same value with probability 1/3; the same seed with another length bound gives common prefixes
      s[i]=i && r.coin(2)? s[i-1]: r.next(); len[i]=i && r.coin(2)? len[i-1]: r.below(6); make(x[i],s[i],len[i],nf);
    }
    std::string before[3], bytes[3]; int c[3][3];
    for (int i=0; i<3; ++i) {before[i]=vstr(x[i]); const T& cx=x[i]; classdesc::pack_t b; b<<cx; bytes[i].assign(b.data()? b.data(): "",b.size());}
    for (int i=0; i<3; ++i) for (int j=0; j<3; ++j) {
      c[i][j]=dcmp(x[i],x[j]); const T &a=x[i], &b=x[j];
      std::string w=std::string(name)+" "+before[i]+" with "+before[j];
      CHECK(dcmp(a,b)==c[i][j],"not-deterministic",w);
      CHECK(classdesc::deepEq(a,b)==(c[i][j]==0),"deepEq-disagrees",w);
      CHECK((c[i][j]==0)==(bytes[i]==bytes[j]),"not-content-equality",w);
      bool same=Ops<T>::same(a,b);
      classdesc::pack_t pa, pb; pa<<a; pb<<b;
      CHECK(sgn(pa.cmp(pb))==c[i][j] && (pa<pb)==(c[i][j]<0) && (pa>pb)==(c[i][j]>0) && (pa==pb)==(c[i][j]==0) && (pa!=pb)==(c[i][j]!=0),"buffer-operators",w);
      if (exact) CHECK((c[i][j]==0)==same,"equal-iff-same",w);
      if (i==j || (s[i]==s[j] && len[i]==len[j])) CHECK(c[i][j]==0,"not-reflexive",w);
      if (i!=j) report().count(c[i][j]==0? "equal_pairs": bytes[i].size()==bytes[j].size()? "unequal_same_size": "unequal_sizes");
      report().count("pairs");
    }
    for (int i=0; i<3; ++i) for (int j=0; j<3; ++j) {
      CHECK(c[i][j]==-c[j][i],"not-antisymmetric",std::string(name)+" "+before[i]+" with "+before[j]);
      for (int k=0; k<3; ++k)
        CHECK(!(c[i][j]<=0 && c[j][k]<=0) || (c[i][k]<=0 && (c[i][k]<0 || (c[i][j]==0 && c[j][k]==0))),"not-transitive",std::string(name)+" "+before[i]+" / "+before[j]+" / "+before[k]);
      }
    for (int i=0; i<3; ++i) {CHECK(vstr(x[i])==before[i],"modified",std::string(name)+" "+before[i]+" became "+vstr(x[i])); report().distinct(before[i]);}
    report().count("triples"); if (it==0) report().sample(std::string(name)+" "+before[0].substr(0,300));
  }
}
#endif
