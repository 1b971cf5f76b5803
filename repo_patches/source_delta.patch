From 09ab7f4cf64511bde6b2856aa5157354ac079c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 001/116] fix: do not advance an iterator invalidated by
 push_back when unpacking sequences

---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 09fca3d..a08ab2a 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -121,7 +121,7 @@ namespace classdesc
     uint64 sz=0, i=0;
     b >> sz;
     resize(a,0);
-    for (typename T::iterator j=a.begin(); i<sz; ++i, ++j)
+    for (; i<sz; ++i)
       {
         typename T::value_type x;
         b >> x;
-- 
2.43.0


From 1539dd81961f6ff64ec8685ad2a95c394116c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 002/116] fix: unpack the keys of unordered maps

---
 pack_stl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index a08ab2a..e7e4bc1 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -38,6 +38,15 @@ namespace classdesc
   struct Value_Type<std::multimap<K,V,C,A> > 
   {typedef std::pair<K,V> value_type;};
 
+#if defined(__cplusplus) && __cplusplus>=201103L
+  template <class K, class V, class H, class P, class A> 
+  struct Value_Type<std::unordered_map<K,V,H,P,A> >
+  {typedef std::pair<K,V> value_type;};
+
+  template <class K, class V, class H, class P, class A> 
+  struct Value_Type<std::unordered_multimap<K,V,H,P,A> > 
+  {typedef std::pair<K,V> value_type;};
+#endif
 
   /**
      Iterators are impossible to trap, as each compiler uses its own intrinsic
-- 
2.43.0


From 7e06047f3d2329c585dba21b1939f921ccbcd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 003/116] fix: unpacking must not write through const enums or
 past enums narrower than int

---
 classdesc.cc |  2 +-
 classdesc.h  | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 95c6d9d..8969501 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -282,7 +282,7 @@ void assign_enum_action(tokeninput& input, string prefix)
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
       else
-        actionlist.push_back(act_pair("","(int&)arg"));
+        actionlist.push_back(act_pair("","classdesc::EnumAsInt<_CD_ARG_TYPE>(arg).ref()"));
       actions.push_back(action_t(enumname,actionlist,namespace_name));
     }
 }
diff --git a/classdesc.h b/classdesc.h
index f465f7c..d25ada1 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -904,6 +904,43 @@ namespace classdesc
   template <class T>
   Enum_handle<T> enum_handle(T& x) {return Enum_handle<T>(x);}
 
+  /// presents an enum as an int to descriptors that do not use its symbolic names
+  /// @{ enums that are not int sized go via a temporary
+  template <class E, bool intSized=(sizeof(E)==sizeof(int))>
+  class EnumAsInt
+  {
+    E& e;
+    int i;
+  public:
+    EnumAsInt(E& e): e(e), i(static_cast<int>(e)) {}
+    ~EnumAsInt() {e=static_cast<E>(i);}
+    int& ref() {return i;}
+  };
+  template <class E>
+  class EnumAsInt<E,true>
+  {
+    E& e;
+  public:
+    EnumAsInt(E& e): e(e) {}
+    int& ref() {return (int&)e;}
+  };
+  /// const enums must not be written to
+  template <class E, bool intSized>
+  class EnumAsInt<const E,intSized>
+  {
+    int i;
+  public:
+    EnumAsInt(const E& e): i(static_cast<int>(e)) {}
+    int& ref() {return i;}
+  };
+  template <class E>
+  class EnumAsInt<const E,true>: public EnumAsInt<const E,false>
+  {
+  public:
+    EnumAsInt(const E& e): EnumAsInt<const E,false>(e) {}
+  };
+  /// @}
+
   template <class T> struct tn<Enum_handle<T> >
   {
     static std::string name()
-- 
2.43.0


From 0b75504c332edf274f2235aab0b78e2176ee39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 004/116] fix: pack_t bounds checks must not overflow on
 hostile lengths

---
 pack_base.h | 4 ++--
 pack_stl.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 40b735a..6219c51 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -203,7 +203,7 @@ namespace classdesc
     virtual void popoff(basic_type& x)
     {
       if (mode==buf)
-        if (m_pos+x.size>m_size)
+        if (m_pos>m_size || x.size>m_size-m_pos)
           throw pack_error("unexpected end of data");
         else
           memcpy(x.val,m_data+m_pos,x.size);
@@ -270,7 +270,7 @@ namespace classdesc
     {
       if (mode==buf)
         {
-          if (s+m_pos>m_size)
+          if (m_pos>m_size || s>m_size-m_pos)
             throw pack_error("premature end of buffered data");
           memcpy(x,m_data+m_pos,s);
         }
diff --git a/pack_stl.h b/pack_stl.h
index e7e4bc1..7111d36 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -101,7 +101,7 @@ namespace classdesc
   {
     uint64 sz;
     (*this) >> sz;
-    if (uint64(packer.size()-packer.pos())<sz*sizeof(T))
+    if (uint64(packer.size()-packer.pos())/sizeof(T)<sz) // NB wraps to a large value for files
       throw pack_error("invalid size for data available");
     x.resize(sz);
     if (sz)
-- 
2.43.0


From 6d669b1b2a620ecad251ca0c1d3aba56884fc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 005/116] fix: resizing a pack_t to zero leaves an empty buffer

---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 6219c51..7c4eff4 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -182,8 +182,8 @@ namespace classdesc
      */
     void resize(size_t s) {
       realloc(s);
-      if (!m_data) throw std::bad_alloc();
-      m_size=s;
+      m_size=m_data? s: 0;
+      if (s && !m_data) throw std::bad_alloc();
     }
      
     virtual void append(const basic_type& x)
-- 
2.43.0


From 594c984da96782a5fcb177bfbbff3538291ff4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 006/116] fix: pack_t::cmp returns -1, 0 or 1 so that < and >
 are consistent

---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 7c4eff4..3d7ceb5 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -292,7 +292,10 @@ namespace classdesc
     /// greater than \a x
     virtual int cmp(const pack_t& x) const {
       if (m_size==x.m_size)
-        return memcmp(m_data,x.m_data,m_size);
+        {
+          int r=m_size? memcmp(m_data,x.m_data,m_size): 0;
+          return r<0? -1: r>0;
+        }
       else
         return m_size<x.m_size? -1: 1;
     }
-- 
2.43.0


From 54fe9499c0dd9ace024dbe94926e031f8a624a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 007/116] fix: initialise all of pack_t's state in its move
 constructor

---
 pack_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 3d7ceb5..ced1019 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -152,6 +152,7 @@ namespace classdesc
       std::swap(m_size,other.m_size);
       std::swap(m_pos,other.m_pos);
       std::swap(ptr_flag,other.ptr_flag);
+      std::swap(recur_max,other.recur_max);
       std::swap(alloced,other.alloced);
     }
     enum mode_t {buf, readf, writef};
@@ -230,7 +231,8 @@ namespace classdesc
     virtual ~pack_t() {realloc(0); if (f) fclose(f);}
 
 #if __cplusplus >= 201103L
-    pack_t(pack_t&& x): f(nullptr), m_data(nullptr) {swap_base(x);}
+    pack_t(pack_t&& x): f(nullptr), mode(buf), m_data(nullptr), m_size(0), m_pos(0),
+                        ptr_flag(DEFAULT), recur_max(500) {swap_base(x);}
     pack_t& operator=(pack_t&& x) {swap_base(x); return *this;}
 #endif
 
-- 
2.43.0


From 31ae8484e6e0cbca30357a7f558ea46a7a297989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 008/116] fix: xdr_pack keeps its contents, size and read
 position across buffer growth, rewinds, seeks, swaps and moves

---
 pack_base.h |   9 ++--
 xdr_pack.cc | 142 ++++++++++++++++++++++++++++++++--------------------
 2 files changed, 93 insertions(+), 58 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index ced1019..ad6b4e9 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -333,14 +333,15 @@ namespace classdesc
   */
   class xdr_pack: public pack_t
   {
-    size_t asize;
-    XDR *input, *output;
+    size_t asize;           ///< allocated size in buffer mode
+    XDR *input, *output;    ///< only used in file mode
+    void reserve(size_t);
   public:
     xdr_pack(size_t sz=BUFCHUNK);
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
 #if __cplusplus >= 201103L
-    xdr_pack(xdr_pack&& x): input(nullptr), output(nullptr) {swap(x);}
+    xdr_pack(xdr_pack&& x): asize(0), input(nullptr), output(nullptr) {swap(x);}
     xdr_pack& operator=(xdr_pack&& x) {swap(x); return *this;}
 #endif
 
@@ -358,7 +359,7 @@ namespace classdesc
       swap_base(other);
       std::swap(asize,xdr_other->asize);
       std::swap(input,xdr_other->input);
-      std::swap(input,xdr_other->output);
+      std::swap(output,xdr_other->output);
     }
   };
   template <> inline string typeName<xdr_pack>() {return "classdesc::xdr_pack";}
diff --git a/xdr_pack.cc b/xdr_pack.cc
index ddd87cc..98ca1e0 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -147,24 +147,22 @@ namespace classdesc
   xdr_filter XDR_filter(const long double& x)        
   {return NULL;}    
 
-  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0)
+  // the buffer mode XDR streams are created over the current buffer for each operation
+  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(sz), input(NULL), output(NULL)
   {
-    input=new XDR; output=new XDR;
-    xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
-    xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
+    m_size=0; // sz is just the space initially allocated
   }
 
-  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0)
+  xdr_pack::xdr_pack(const char *fname, const char *rw):
+    pack_t(fname,rw), asize(0), input(NULL), output(NULL)
   {
     if (mode==writef)
       {
         input=new XDR; 
-        output=NULL;
         xdrstdio_create(input,f,XDR_ENCODE);
       }
     else
       {
-        input=NULL;
         output=new XDR;
         xdrstdio_create(output,f,XDR_DECODE);    
       }
@@ -172,55 +170,82 @@ namespace classdesc
 
   xdr_pack::~xdr_pack() 
   {
-    if (output && (mode==buf || mode==readf))
+    if (output)
       {
         xdr_destroy(output); 
         delete output;
       }
-    if (input && (mode==buf || mode==writef))
+    if (input)
       {
         xdr_destroy(input); 
         delete input;  
       }
   }
 
+  // ensure there is space for sz more encoded bytes
+  void xdr_pack::reserve(size_t sz)
+  {
+    size_t reqd=m_size+sz+BUFCHUNK;
+    asize=reqd-reqd%BUFCHUNK;
+    realloc(asize);
+    if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
+  }
+
   void  xdr_pack::append(const basic_type& x) 
     {
-      if (mode==buf && BUFCHUNK-xdr_getpos(input)<8)
+      if (!x.filter) 
+	throw pack_error("Error encoding XDR stream");
+      if (mode==buf)
 	{
-	  asize += xdr_getpos(input);
-	  realloc(asize+BUFCHUNK);
-	  if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
-	  xdr_destroy(input); xdr_destroy(output);
-	  xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	  xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
+	  XDR encoder;
+	  reserve(x.size);
+	  xdrmem_create(&encoder,(const caddr_t)data()+m_size,asize-m_size,XDR_ENCODE);
+	  bool ok=x.filter(&encoder,x.val);
+	  m_size+=xdr_getpos(&encoder);
+	  xdr_destroy(&encoder);
+	  if (!ok) throw pack_error("Error encoding XDR stream");
+	}
+      else
+	{
+	  if (!x.filter(input,x.val)) 
+	    throw pack_error("Error encoding XDR stream");
+	  m_size=xdr_getpos(input);
 	}
-      if(!x.filter || !x.filter(input,x.val)) 
-	throw pack_error("Error encoding XDR stream");
-      m_size=asize+xdr_getpos(input);
     }
   
   void xdr_pack::popoff(basic_type& x)
   { 
-    if (!x.filter || !x.filter(output,x.val)) 
+    if (!x.filter) 
       throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
-  }
-
-  xdr_pack& xdr_pack::reseti() { 
-    if (asize==0) 
-      xdr_setpos(input,0);
+    if (mode==buf)
+      {
+        if (m_pos>m_size) throw pack_error("unexpected end of data");
+        XDR decoder;
+        xdrmem_create(&decoder,(const caddr_t)data()+m_pos,m_size-m_pos,XDR_DECODE);
+        bool ok=x.filter(&decoder,x.val);
+        if (ok) m_pos+=xdr_getpos(&decoder);
+        xdr_destroy(&decoder);
+        if (!ok) throw pack_error("Error encoding XDR stream");
+      }
     else
       {
-	m_size=0; asize=0; xdr_destroy(input); 
-	xdrmem_create(input,(const caddr_t)data(),BUFCHUNK,XDR_ENCODE);
+        if (!x.filter(output,x.val)) 
+          throw pack_error("Error encoding XDR stream");
+        m_pos=xdr_getpos(output);
       }
+  }
+
+  xdr_pack& xdr_pack::reseti()
+  { 
+    m_size=0;
+    if (input) xdr_setpos(input,0);
     return *this;
   }
 
   xdr_pack& xdr_pack::reseto() 
   { 
-    xdr_setpos(output,0); 
+    m_pos=0;
+    if (output) xdr_setpos(output,0); 
     return *this; 
   }
 
@@ -228,47 +253,56 @@ namespace classdesc
   xdr_pack& xdr_pack::seeki(long offs)
   { 
     assert(offs<=0);
-    long seekpos=xdr_getpos(input)+offs;
-    if (mode==buf && seekpos<0) 
-      {
-	seekpos+=asize;  /* work in absolute stream units, not relative to 
-			    current segment */
-	asize=seekpos/BUFCHUNK; seekpos%=BUFCHUNK;
-	xdr_destroy(input);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-      }
-    xdr_setpos(input,seekpos);
-    m_size=asize+seekpos;
+    if (input) xdr_setpos(input,xdr_getpos(input)+offs);
+    m_size+=offs;
     return *this;
   }  
 
   xdr_pack& xdr_pack::seeko(long offs) 
   {
-    xdr_setpos(output,xdr_getpos(output)+offs);
+    if (output) xdr_setpos(output,xdr_getpos(output)+offs);
+    m_pos+=offs;
     return *this;
   }
 
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
-    if (mode==buf && BUFCHUNK-xdr_getpos(input)<sz)
+    if (mode==buf)
       {
-	asize += xdr_getpos(input);
-	realloc(asize+BUFCHUNK);
-	if (data()==NULL) throw pack_error("Error encoding XDR stream");
-	xdr_destroy(input); xdr_destroy(output);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
+        XDR encoder;
+        reserve(sz+4); // xdr_opaque pads to a multiple of 4
+        xdrmem_create(&encoder,(const caddr_t)data()+m_size,asize-m_size,XDR_ENCODE);
+        bool ok=xdr_opaque(&encoder,const_cast<char*>(x),sz);
+        m_size+=xdr_getpos(&encoder);
+        xdr_destroy(&encoder);
+        if (!ok) throw pack_error("Error encoding XDR stream");
+      }
+    else
+      {
+        if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
+          throw pack_error("Error encoding XDR stream");
+        m_size=xdr_getpos(input);
       }
-    if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_size=asize+xdr_getpos(input);
   }
 
   void xdr_pack::unpackraw(char *x, size_t sz) 
   {
-    if (!xdr_opaque(output,x,sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
+    if (mode==buf)
+      {
+        if (m_pos>m_size || sz>m_size-m_pos) throw pack_error("premature end of buffered data");
+        XDR decoder;
+        xdrmem_create(&decoder,(const caddr_t)data()+m_pos,m_size-m_pos,XDR_DECODE);
+        bool ok=xdr_opaque(&decoder,x,sz);
+        if (ok) m_pos+=xdr_getpos(&decoder);
+        xdr_destroy(&decoder);
+        if (!ok) throw pack_error("Error encoding XDR stream");
+      }
+    else
+      {
+        if (!xdr_opaque(output,x,sz)) 
+          throw pack_error("Error encoding XDR stream");
+        m_pos=xdr_getpos(output);
+      }
   }
 
 }
-- 
2.43.0


From 2e11b423dcd69fde3bc47834403a7ae8041c259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 009/116] fix: account for raw data in the size of a file
 backed pack_t

---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index ad6b4e9..8afaaa8 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -255,12 +255,12 @@ namespace classdesc
       if (mode==buf)
         {
           realloc(m_size+s); 
-          memcpy(m_data+m_size,x,s); m_size+=s;
+          memcpy(m_data+m_size,x,s);
         }
       else
         if (s && fwrite(x,s,1,f)!=1)
           throw pack_error("failed to write data to stream");
-          
+      m_size+=s;
     }
     
 #if defined(__GNUC__) && !defined(__ICC)
-- 
2.43.0


From e1d632229fcd7f7b950a042138dc589016f06250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 010/116] fix: xdr_pack handles negative longs and refuses
 longs it would truncate

---
 xdr_pack.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/xdr_pack.cc b/xdr_pack.cc
index 98ca1e0..293be9b 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -72,6 +72,28 @@ namespace classdesc
 {
   struct XDR: public ::XDR {};
 
+  namespace
+  {
+    // XDR's long is 32 bits: sign extend when decoding, refuse to
+    // encode what would be truncated
+    bool_t xdr_long32(::XDR* xdrs, long* x)
+    {
+      int i=static_cast<int>(*x);
+      if (xdrs->x_op==XDR_ENCODE && i!=*x) return FALSE;
+      if (!::xdr_int(xdrs,&i)) return FALSE;
+      if (xdrs->x_op==XDR_DECODE) *x=i;
+      return TRUE;
+    }
+
+    bool_t xdr_u_long32(::XDR* xdrs, unsigned long* x)
+    {
+      unsigned i=static_cast<unsigned>(*x);
+      if (xdrs->x_op==XDR_ENCODE && i!=*x) return FALSE;
+      if (!::xdr_u_int(xdrs,&i)) return FALSE;
+      if (xdrs->x_op==XDR_DECODE) *x=i;
+      return TRUE;
+    }
+  }
 
   template <>
   xdr_filter XDR_filter(const bool& x)               
@@ -111,11 +133,11 @@ namespace classdesc
 
   template <>
   xdr_filter XDR_filter(const long int& x)           
-  {return (xdr_filter) xdr_long;}
+  {return (xdr_filter) xdr_long32;}
 
   template <>
   xdr_filter XDR_filter(const unsigned long int& x)  
-  {return (xdr_filter) xdr_u_long;}
+  {return (xdr_filter) xdr_u_long32;}
 
     /* long long is an extension to ANSI C++ that describes a 64 bit
        integer on all our supported compilers. XDR's terminolgy for
-- 
2.43.0


From 48483a1c6af7b497bc04eab81e60732a677d7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 011/116] fix: BinStream must not carry elements over between
 nested containers

---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 8afaaa8..3684c6e 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -410,9 +410,9 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
-      typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
+          typename T::value_type v;
           (*this)>>v;
           o.push_back(v);
         }
@@ -425,9 +425,9 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
-      typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
+          typename T::value_type v;
           (*this)>>v;
           o.insert(v);
         }
-- 
2.43.0


From 9e293d0c5ddb056c039ec96c9ebc0db2d4d17bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 012/116] fix: a corrupt string length must not exhaust memory
 when unpacking

---
 pack_stl.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pack_stl.h b/pack_stl.h
index 7111d36..7e67bbc 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -270,8 +270,15 @@ namespace classdesc_access
     void operator()(classdesc::pack_t& targ, const classdesc::string& desc, U& arg) 
     {
       classdesc::uint64 size=0; targ>>size;
-      std::vector<cT> buf(size+1); //ensure buf[0] exists
-      targ.unpackraw(buf.data(),sizeof(cT)*size);
+      std::vector<cT> buf(1); //ensure buf[0] exists
+      // size may be corrupt, so do not allocate more than the data available warrants
+      const classdesc::uint64 chunk=65536; // multiple of 4 required by xdr
+      for (classdesc::uint64 i=0; i<size; i+=chunk)
+        {
+          size_t n=std::min(chunk, size-i);
+          buf.resize(i+n+1);
+          targ.unpackraw((char*)(buf.data()+i),sizeof(cT)*n);
+        }
       asg(arg, buf);
     }
   };
-- 
2.43.0


From 919e9cb0f6a6c2d6468f925c7f37f3ebf1c7791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 013/116] fix: corrupt data must not give rise to invalid bools
 when unpacking

---
 pack_base.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 3684c6e..f57556c 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -640,6 +640,15 @@ namespace classdesc
     targ.popoff(b);
   }
 
+  // any nonzero byte is true, so that corrupt data cannot give rise to an invalid bool
+  inline void unpack(unpack_t& targ, const string&, bool& arg)
+  {
+    char x=0;
+    Basic_Type<char> b(x);
+    targ.popoff(b);
+    arg=x!=0;
+  }
+
   template <class T>
   typename enable_if<is_fundamental<T>, void>::T
   unpack(unpack_t& targ, const string&, const T&)
-- 
2.43.0


From 51efc7c8c902deb5dafd612232563e5c2663bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 014/116] fix: assigning a PtrStoreRef must release the object
 it referred to

---
 pack_base.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index f57556c..23ac7e8 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -127,7 +127,11 @@ namespace classdesc
     void* data() {return d->data();}
     PtrStoreRef(PtrStoreBase *d=NULL): d(d) {}
     PtrStoreRef(const PtrStoreRef& x): d(x.d) {d && d->cnt++;}
-    PtrStoreRef& operator=(const PtrStoreRef& x) {d=x.d; d && d->cnt++; return *this;}
+    PtrStoreRef& operator=(const PtrStoreRef& x) {
+      PtrStoreRef tmp(x); // releases the data previously referred to
+      std::swap(d,tmp.d);
+      return *this;
+    }
     ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}
   };
 
-- 
2.43.0


From 8f61618ea5b292ad4fb5c332085a3b127f673996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 015/116] fix: unpacking a null treenode link must nullify the
 pointer

---
 pack_graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_graph.h b/pack_graph.h
index 0e07f8a..0561251 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -53,6 +53,8 @@ namespace classdesc
         arg=static_cast<T*>(targ.alloced.back().data());
         unpack(targ,desc,*arg);
       }
+    else
+      arg=NULL;
   }
 
   /*
-- 
2.43.0


From fefccc194218cfc14b888c6588d0bfc4211a084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 016/116] fix: reset the state of graph (un)packing when it is
 ended by an exception, and do not nest restarts

---
 pack_graph.h | 126 +++++++++++++++++++++++++++++----------------------
 1 file changed, 72 insertions(+), 54 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 0561251..8d5b7e2 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -82,87 +82,105 @@ namespace classdesc
     }
   };
 
+  /** tracks the recursion level of a graph traversal, and resets the
+      traversal state when it finishes, including by an exception */
+  template <class M, class R>
+  class GraphTraversal
+  {
+    unsigned& level; M& map; R& restart;
+    GraphTraversal(const GraphTraversal&);
+    void operator=(const GraphTraversal&);
+  public:
+    GraphTraversal(unsigned& level, M& map, R& restart):
+      level(level), map(map), restart(restart) {level++;}
+    ~GraphTraversal() {
+      level--;
+      if (level==0) {map.clear(); restart.clear();}
+    }
+  };
+
   template <class T>
   inline void pack_graph(pack_t& buf, T& arg)
   {
-    static std::map<T,int> graph_map;
-    static std::vector<T*> restart;
+    typedef std::map<T,int> GraphMap;
+    typedef std::vector<T*> Restart;
+    static GraphMap graph_map;
+    static Restart restart;
     static unsigned recur_level=0;
     int nought=0;
+    const bool top=recur_level==0;
+    GraphTraversal<GraphMap,Restart> traversal(recur_level, graph_map, restart);
 
-    if (recur_level==0)
-      pack(buf,string(),buf.recur_max);
-    recur_level++;
-
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else if (!arg)   //reference is invalid 
-      pack(buf,string(),nought);
-    else if (graph_map.count(arg)==0)
-      {  
-        int ID=graph_map.size()+1;
-        graph_map[arg]=ID;
-        pack(buf,string(),ID);
-        pack(buf,string(),*arg);
-      }
-    else
-      pack(buf,string(),graph_map[arg]);
-    
-    recur_level--;
-    if (recur_level==0)   //process restarts
+    for (T* node=&arg; node; )
       {
-        while (restart.size())
+        if (top)
+          pack(buf,string(),buf.recur_max);
+
+        if (recur_level==buf.recur_max)
+          restart.push_back(node); //save ref for restart
+        else if (!*node)   //reference is invalid 
+          pack(buf,string(),nought);
+        else if (graph_map.count(*node)==0)
+          {  
+            int ID=graph_map.size()+1;
+            graph_map[*node]=ID;
+            pack(buf,string(),ID);
+            pack(buf,string(),**node);
+          }
+        else
+          pack(buf,string(),graph_map[*node]);
+
+        node=NULL;
+        if (top && restart.size())   //process restarts
           {
-            T& aa=*restart.back(); //we need to pop_back() before packing
-            restart.pop_back();    //in case further restarts are needed
-            pack_graph(buf,aa);
+            node=restart.back(); //we need to pop_back() before packing
+            restart.pop_back();  //in case further restarts are needed
           }
-        graph_map.clear();
       }
   }
 
   template <class T>
   void unpack_graph(pack_t& buf, T& arg)
   {
-    static std::map<int,T> graph_map;
-    static std::vector<T*> restart;
+    typedef std::map<int,T> GraphMap;
+    typedef std::vector<T*> Restart;
+    static GraphMap graph_map;
+    static Restart restart;
     static unsigned recur_level=0;
     int myid;
     Alloc<T> alloc;
+    const bool top=recur_level==0;
+    GraphTraversal<GraphMap,Restart> traversal(recur_level, graph_map, restart);
     
-    if (recur_level==0)
-      unpack(buf,string(),buf.recur_max);
-    recur_level++;
-
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else
+    for (T* node=&arg; node; )
       {
-        unpack(buf,string(),myid);
-        if (myid==0) 
-          arg=T();                //reset arg to invalid state
-        else if (graph_map.count(myid))
-          arg=graph_map[myid];
+        if (top)
+          unpack(buf,string(),buf.recur_max);
+
+        if (recur_level==buf.recur_max)
+          restart.push_back(node); //save ref for restart
         else
           {
-            alloc(buf,arg);
-            graph_map[myid]=arg;
-            unpack(buf,string(),*arg);
+            unpack(buf,string(),myid);
+            if (myid==0) 
+              *node=T();                //reset node to invalid state
+            else if (graph_map.count(myid))
+              *node=graph_map[myid];
+            else
+              {
+                alloc(buf,*node);
+                graph_map[myid]=*node;
+                unpack(buf,string(),**node);
+              }
           }
 
-      }
-    recur_level--;
-    if (recur_level==0)   //process restarts
-      {
-        while (restart.size())
+        node=NULL;
+        if (top && restart.size())   //process restarts
           {
-            T& aa=*restart.back(); //we need to pop_back() before packing
-            restart.pop_back();    //in case further restarts are needed
-            unpack_graph(buf,aa);
+            node=restart.back(); //we need to pop_back() before unpacking
+            restart.pop_back();  //in case further restarts are needed
           }
-        graph_map.clear();
       }
-
   }
 
   ///serialise a graph structure
-- 
2.43.0


From 34f77ad479c4924d1e79972619dfab94bd937d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 017/116] fix: assigning or nullifying a ref must not use the
 previous target after it is destroyed

---
 ref.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ref.h b/ref.h
index 662b1b3..86fcc8e 100644
--- a/ref.h
+++ b/ref.h
@@ -48,8 +48,9 @@ namespace classdesc
     ref(): item(NULL) {}  /* unitialised refs don't consume space */
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
-    ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    ref& operator=(const T& x) {refdec(); newitem(x); return *this;}  
+    // NB x, or this, may be part of the object this refers to
+    ref& operator=(const ref& x)  {ref tmp(x); swap(tmp); return *this;}
+    ref& operator=(const T& x) {ref tmp(x); swap(tmp); return *this;}  
     ~ref() {refdec();}
     /// dereference - creates default object if null
     T* operator->() {if (!item) newitem(); return (T*)item;}
@@ -68,7 +69,7 @@ namespace classdesc
     /// dereference - throws in debug mode if null
     const T& operator*() const {assert(item); return *(T*)item;}
     /// make reference null
-    void nullify() { refdec(); item=NULL;}
+    void nullify() {ref tmp; swap(tmp);}
     /// true if reference is null
     bool nullref() const { return item==NULL;} 
     /// equivalent to nullref
@@ -77,7 +78,7 @@ namespace classdesc
     int refCount() const {if (item) {return item->count;} else return 0;}
     bool operator==(const ref& x) const {return x.item==item;}
     bool operator==(const T* x) const {return x==item;} 
-    bool operator==(const T& x) const {return x==*item;} 
+    bool operator==(const T& x) const {return item && x==*item;} 
     template <class U>
     bool operator!=(const U& x) const {return !operator==(x);}
     /* used for maps and sets - needed for unpack */
-- 
2.43.0


From 24a5d5063150e3a0d02a3569f65b8f7fb6f0535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 018/116] fix: unpack null object handles as null, and throw on
 unknown object types

---
 object.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object.h b/object.h
index 53ef9aa..31c447e 100644
--- a/object.h
+++ b/object.h
@@ -47,7 +47,8 @@ namespace classdesc
   // it would be nice for this to be a static method of object, but it
   // appears static methods cannot be inlined
   inline object* object::create(object::TypeID t) {// factory
-    assert(t<object::TypeID(factory().size()) && t>=0);
+    if (t<0 || t>=object::TypeID(factory().size()) || !factory()[t])
+      throw exception("unknown object type");
     return factory()[t]->clone();
   }
 
@@ -129,8 +130,11 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 #else
       a=classdesc::dynamic_pointer_cast<T>(tmp);
 #endif
+      if (!a) throw classdesc::pack_error("object is of a different type hierarchy");
       a->unpack(b);
     }
+  else
+    a.reset();
 }
 
 template <class T> typename
-- 
2.43.0


From 29a125acb073f2ff28d2379696d8761a3a221900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 019/116] fix: qualify make_pair in Factory

---
 factory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factory.h b/factory.h
index 39c3a43..f422d17 100644
--- a/factory.h
+++ b/factory.h
@@ -38,7 +38,7 @@ namespace classdesc
     void registerType(const Type& t)
     {
       fmap.insert
-        (make_pair(t, shared_ptr<CreatorBase>(new Creator<T>)));
+        (std::make_pair(t, shared_ptr<CreatorBase>(new Creator<T>)));
     }
     /// convenience method for registering a type. 
     template <class T> void registerType()
-- 
2.43.0


From 08f10964d40eb564e50a24ea40908de6182f91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 020/116] fix: assigning a poly must not use its previous
 target once deleted, and null polys unpack as null

---
 poly.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/poly.h b/poly.h
index 39f34ad..c1fee08 100644
--- a/poly.h
+++ b/poly.h
@@ -54,9 +54,9 @@ namespace classdesc
     poly(): item(NULL) {}
     poly(const poly& x) {asg(x);}
     poly(const T& x) {item=dynamic_cast<T*>(x.clone()); }
-    poly& operator=(const poly& x)  {delete item; asg(x); return *this;}
-    poly& operator=(const T& x) {
-      delete item; item=dynamic_cast<T*>(x.clone()); return *this;}  
+    // NB x may be part of the object this refers to
+    poly& operator=(const poly& x)  {poly tmp(x); swap(tmp); return *this;}
+    poly& operator=(const T& x) {poly tmp(x); swap(tmp); return *this;}
     ~poly() {delete item;}
 
     //@{ 
@@ -185,6 +185,8 @@ namespace classdesc_access
             a=a.TypeTable[type];
           a->unpack(t);
         }
+      else
+        a=U();
     }
   };
 
-- 
2.43.0


From a927284961870e43c24e810cd184d58d3e0de97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 021/116] fix: do not dereference null when unpacking a null
 weak_ptr

---
 polyAccessPack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polyAccessPack.h b/polyAccessPack.h
index 7b860ef..57437d5 100644
--- a/polyAccessPack.h
+++ b/polyAccessPack.h
@@ -119,7 +119,8 @@ namespace classdesc_access
       // cannot deserialise to a weak reference, but need to process stream
       cd::shared_ptr<T> tmp;
       unpack_smart_ptr(x,d,tmp);
-      if (cd::shared_ptr<T> target=a.lock())
+      cd::shared_ptr<T> target=a.lock();
+      if (target && tmp)
         *target=*tmp;   // best effort, polymorphism not supported
     }
   };
-- 
2.43.0


From efcb518d825272266b31272d7cd0f945d23d6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 022/116] fix: a corrupt iterator position must not be advanced
 to beyond its container

---
 pack_stl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index 7e67bbc..f0832de 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -225,6 +225,8 @@ namespace classdesc_access
       b >> i;
       if (a.container)
         {
+          if (i>a.container->size())
+            throw classdesc::pack_error("iterator position beyond container");
           a=a.container->begin();
           std::advance(a.iter(),i);
         }
-- 
2.43.0


From b2033eb2d114e644a6353644fc0146cf8cc69ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 023/116] fix: corrupt object types must be refused, not used
 to index a table

---
 object.h | 2 ++
 poly.h   | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/object.h b/object.h
index 31c447e..3f3cdab 100644
--- a/object.h
+++ b/object.h
@@ -122,6 +122,7 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 {
   classdesc::object::TypeID t;
   b>>t;
+  if (t<0) throw classdesc::pack_error("invalid object type");
   if (t)
     {
       classdesc::shared_ptr<classdesc::object> tmp(classdesc::object::create(t-1));
@@ -143,6 +144,7 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, const classdesc::shar
 {
   classdesc::object::TypeID t;
   b>>t;
+  if (t<0) throw classdesc::pack_error("invalid object type");
   if (t)
     {
 #if defined(__cplusplus) && __cplusplus>=201103L
diff --git a/poly.h b/poly.h
index c1fee08..6b30b61 100644
--- a/poly.h
+++ b/poly.h
@@ -27,7 +27,10 @@ namespace classdesc
   {
     static std::vector<T*> data;
   public:
-    T& operator[](std::size_t i) {return *data[i];}
+    T& operator[](std::size_t i) {
+      if (i>=data.size() || !data[i]) throw exception("unknown object type");
+      return *data[i];
+    }
     void register_type(const T* t) {
       if (t->type()+1>int(data.size()))
         data.resize(t->type()+1);
-- 
2.43.0


From 2da402f493b0a05942c56ccdd03a28d8415dc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 024/116] fix: XML reader handles comments, CDATA, processing
 instructions, references, attributes and empty elements

---
 xml_unpack_base.h | 197 +++++++++++++++++++++++++++++-----------------
 1 file changed, 125 insertions(+), 72 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index e0fe1c1..33ba4df 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -89,6 +89,8 @@ namespace classdesc
   {
     Stream& i;
     char nexttok;
+    bool inTag;  ///< between the < and > of a tag
+    enum Kind {text, markup, literal} kind; ///< of the last token returned
 
     // basic I/O operations
     bool get(char& c) {return classdesc::get(i,c);}
@@ -101,20 +103,21 @@ namespace classdesc
     }
     
     void gobble_comment();
-    void gobble_whitespace() {
-      char c;
-      bool notEof=get(c); 
-      while (notEof && std::isspace(c)) notEof=get(c);
-      if (notEof) unget(c);
-    }
-    char parse_entity();
+    /// returns everything up to \a terminator, which is consumed
+    std::string readTo(const std::string& terminator);
+    std::string parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
-    XMLtoken(Stream& i): i(i), nexttok('\0') {}
+    unsigned depth; ///< nesting depth of elements being parsed
+    XMLtoken(Stream& i): i(i), nexttok('\0'), inTag(false), kind(text), depth(0) {}
     std::string token();
+    /// true if the last token was the markup \a tok, rather than text that happens to look like it
+    bool isMarkup(const std::string& last, const char* tok) const {return kind==markup && last==tok;}
+    /// true if the last token was white space outside of a string literal
+    bool isWhite(const std::string& last) const {return kind==text && classdesc::isspace(last);}
     std::string tokenNoEOF() {
       std::string tok=token();
-      if (tok.empty()) throw xml_pack_error("XML token expected");
+      if (tok.empty() && kind!=literal) throw xml_pack_error("XML token expected");
       else return tok;
     }
     /// handle tags starting with ! - comments and CDATAs
@@ -140,40 +143,68 @@ namespace classdesc
           case '>': level--; break;
           }
       }
-    gobble_whitespace();
   }
   
+  template <class Stream>
+  std::string XMLtoken<Stream>::readTo(const std::string& terminator)
+  {
+    std::string r;
+    do
+      r+=getNoEOF();
+    while (r.length()<terminator.length() ||
+           r.compare(r.length()-terminator.length(), terminator.length(), terminator)!=0);
+    return r.substr(0,r.length()-terminator.length());
+  }
+
+  /// UTF-8 encoding of a numeric character reference
+  inline std::string xmlCharRef(long r)
+  {
+    std::string s;
+    if (r<0x80) // negative values denote bytes of a string not in UTF-8
+      s=char(r);
+    else if (r<0x800)
+      {
+        s+=char(0xc0|(r>>6));
+        s+=char(0x80|(r&0x3f));
+      }
+    else if (r<0x10000)
+      {
+        s+=char(0xe0|(r>>12));
+        s+=char(0x80|((r>>6)&0x3f));
+        s+=char(0x80|(r&0x3f));
+      }
+    else
+      {
+        s+=char(0xf0|(r>>18));
+        s+=char(0x80|((r>>12)&0x3f));
+        s+=char(0x80|((r>>6)&0x3f));
+        s+=char(0x80|(r&0x3f));
+      }
+    return s;
+  }
+
   template <class Stream> 
-  char XMLtoken<Stream>::parse_entity()
+  std::string XMLtoken<Stream>::parse_entity()
   {
     std::string name;
     char c;
     for (c=getNoEOF(); c!=';'; c=getNoEOF())
       name+=c;
-    if (name=="amp") return '&';
-    if (name=="lt") return '<';
-    if (name=="gt") return '>';
-    if (name=="quot") return '"';
-    if (name=="apos") return '\'';
+    if (name=="amp") return "&";
+    if (name=="lt") return "<";
+    if (name=="gt") return ">";
+    if (name=="quot") return "\"";
+    if (name=="apos") return "'";
     const char* cname=name.c_str();
     if (cname[0]=='#') //character code supplied
       {
-        if (cname[1]=='x') //is hex
-          {
-            //TODO - should we be doing this all in wide chars?
-            long r=std::strtol(cname+2,NULL,16);
-            if (r>std::numeric_limits<char>::max() || r<std::numeric_limits<char>::min())
-              throw xml_pack_error("XML numeric character reference out of range");
-            return char(r);
-          }
-        else
-          {
-            //TODO - should we be doing this all in wide chars?
-            long r=std::strtol(cname+1,NULL,10);
-            if (r>std::numeric_limits<char>::max() || r<std::numeric_limits<char>::min())
-              throw xml_pack_error("XML numeric character reference out of range");
-            return char(r);
-          }
+        const bool hex=cname[1]=='x';
+        char* end;
+        const char* digits=cname+(hex? 2: 1);
+        long r=std::strtol(digits,&end,hex? 16: 10);
+        if (end==digits || *end || r>0x10ffff || r<std::numeric_limits<signed char>::min())
+          throw xml_pack_error("XML numeric character reference out of range");
+        return xmlCharRef(r);
       }
     // not sure what to do about user defined entities - throw, or issue a warning
     throw xml_pack_error("Unidentified entity encountered");
@@ -186,6 +217,7 @@ namespace classdesc
     if (tok.empty())
       {
         nexttok='\0';
+        kind=std::isspace((unsigned char)c)? text: markup;
         switch (c)
           {
           case '/': return "</";
@@ -196,6 +228,7 @@ namespace classdesc
     else
       {
         nexttok=c;
+        kind=text;
         return tok;
       }
   }
@@ -203,34 +236,27 @@ namespace classdesc
   template <class Stream> 
   std::string XMLtoken<Stream>::processBang(std::string& tok,char c)
   {
-    // look ahead for [CDATA[
-    std::string leadin;
-    for (int i=0; i<7; i++)
+    c=getNoEOF();
+    if (c=='-')
       {
-        if (!get(c) || c=='>') break; // in case of EOF, or end of tag
-        leadin+=c;
-      }
-    if (leadin=="[CDATA[")
-      { // CDATA processing, add CDATA contents verbatim
-        leadin.clear();
-        while ((c=getNoEOF()))
+        if ((c=getNoEOF())=='-')
           {
-            if (c==']')
-              if (leadin=="]")
-                leadin+=c;
-              else
-                leadin=c;
-            else if (c=='>' && leadin=="]]")
-              return tok;
-            else
-              {
-                tok+=leadin+c;
-                leadin.clear();
-              }
+            readTo("-->");
+            return "";
           }
       }
-    else if (c!='>')
-      gobble_comment();
+    else if (c=='[')
+      {
+        const char* leadin="CDATA[";
+        while (*leadin && (c=getNoEOF())==*leadin) ++leadin;
+        if (!*leadin)
+          { // CDATA processing, add CDATA contents verbatim
+            tok+=readTo("]]>");
+            return "";
+          }
+      }
+    unget(c);
+    gobble_comment();
     return "";
   }
   
@@ -241,11 +267,13 @@ namespace classdesc
     switch (c)
       {
       case '!': return processBang(tok,c);
-      case '?': //we have a comment or XML declaration, which we ignore, except for CDATA
-        gobble_comment(); return "";
+      case '?': //we have a processing instruction or XML declaration, which we ignore
+        readTo("?>"); return "";
       case '/': //we have begin end tag token
+        inTag=true;
         return  retval('/',tok);
       default:
+        inTag=true;
         unget(c);
         return retval('<',tok);
       }
@@ -256,6 +284,7 @@ namespace classdesc
   {
     std::string tok;
     char c;
+    kind=text;
 
     // handle any tokens left over from previous parsing
     if (nexttok)
@@ -264,7 +293,13 @@ namespace classdesc
     while (get(c))
       {
         // return white space as a separate token
-        if (std::isspace(c)) return retval(c,tok);
+        if (std::isspace((unsigned char)c)) return retval(c,tok);
+
+        if (!inTag && c!='&' && c!='<')
+          { // only & and < have special meaning in text
+            tok+=c;
+            continue;
+          }
 
         switch (c)
           {
@@ -280,6 +315,7 @@ namespace classdesc
                   tok+=parse_entity();
                 else
                   tok+=c;
+              kind=literal;
               return tok;
             }
           case '<':
@@ -290,7 +326,10 @@ namespace classdesc
             }
           case '/':
             if ((c=getNoEOF())=='>') //we have end empty tag token
-              return retval('\\',tok);
+              {
+                inTag=false;
+                return retval('\\',tok);
+              }
             else  //TODO is a / in the middle of a token acceptible XML?
               {
                 tok+='/';
@@ -298,6 +337,8 @@ namespace classdesc
                 break;
               }
           case '>': 
+            inTag=false;
+            return retval(c,tok);
           case '=':
             return retval(c,tok);
           default:
@@ -454,9 +495,9 @@ namespace classdesc
   void xml_unpack_t::process_attribute(XMLtoken<Stream>& stream, const std::string& scope)
   {
     std::string tok; 
-    while (isspace(tok=stream.tokenNoEOF()));
-    if (tok!="=") throw xml_pack_error("ill-formed attribute");
-    while (isspace(tok=stream.tokenNoEOF()));
+    while (stream.isWhite(tok=stream.tokenNoEOF()));
+    if (!stream.isMarkup(tok,"=")) throw xml_pack_error("ill-formed attribute");
+    while (stream.isWhite(tok=stream.tokenNoEOF()));
     contentMap[scope]=tok;
   }
 
@@ -469,9 +510,9 @@ namespace classdesc
   {
     XMLtoken<Stream> stream(i);
     std::string tok;    
-    while (isspace(tok=stream.token()));
+    while (stream.isWhite(tok=stream.token()));
     if (tok.empty()) return;
-    if (tok=="<") 
+    if (stream.isMarkup(tok,"<")) 
       parse(stream,stream.tokenNoEOF());
     else
       throw xml_pack_error("no root element found");
@@ -480,20 +521,29 @@ namespace classdesc
   template <class Stream> 
   void xml_unpack_t::parse(XMLtoken<Stream>& stream, const std::string& scope) 
   {
+    // guard against exhausting the stack
+    const unsigned maxDepth=2000;
+    if (++stream.depth>maxDepth)
+      throw xml_pack_error("XML elements too deeply nested");
+
     //count the number of times this token has been read, and append this to database key
     std::string scope_idx=idx(scope,tokenCount[scope]++);
 
     std::string tok;
     //parse attributes
-    for (tok=stream.tokenNoEOF(); tok!=">" && tok!="/>"; tok=stream.tokenNoEOF())
-      if (!isspace(tok)) process_attribute(stream, scope_idx+"."+tok);
+    for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,">") && !stream.isMarkup(tok,"/>"); tok=stream.tokenNoEOF())
+      if (!stream.isWhite(tok)) process_attribute(stream, scope_idx+"."+tok);
     
-    if (tok=="/>") return;
+    if (stream.isMarkup(tok,"/>"))
+      {
+        --stream.depth;
+        return;
+      }
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
-    for (tok=stream.tokenNoEOF(); tok!="</"; tok=stream.tokenNoEOF())
-      if (tok=="<")
+    for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,"</"); tok=stream.tokenNoEOF())
+      if (stream.isMarkup(tok,"<"))
         parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
       else 
         content+=tok;
@@ -503,9 +553,12 @@ namespace classdesc
 
     // finish parsing end tag
     tok=stream.tokenNoEOF();
-    if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
+    if (scope.length()<tok.length() || 
+        scope.compare(scope.length()-tok.length(),tok.length(),tok)!=0 || //tok matches last part of scope
+        (scope.length()>tok.length() && scope[scope.length()-tok.length()-1]!='.'))
       throw xml_pack_error("unexpected end tag");
-    for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
+    for (; !stream.isMarkup(tok,">"); tok=stream.tokenNoEOF()); //skip rest of end tag
+    --stream.depth;
   }
 
 
-- 
2.43.0


From 918402540eb449d99d8af2a5e698f7578aac0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 025/116] fix: XML text of bytes of UTF-8 and of single
 characters

---
 xml_pack_base.h   | 9 ++++++++-
 xml_unpack_base.h | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index eeb7828..b555960 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -37,7 +37,8 @@ namespace classdesc
       case '\'': return "&apos;";
       case '"': return "&quot;";
       }
-    if (!isgraph(c))
+    // bytes of a UTF-8 multibyte character must be emitted verbatim
+    if ((unsigned char)(c)<0x80 && !isgraph(c))
       {
         std::ostringstream s;
         s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(c)<<";";
@@ -177,6 +178,12 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, char& a)
   {x.pack(d,classdesc::xml_quote(a));}
 
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, signed char& a)
+  {x.pack(d,classdesc::xml_quote(char(a)));}
+
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
+  {x.pack(d,classdesc::xml_quote(char(a)));}
+
   /**
      handle enums
   */
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 33ba4df..88c47ee 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -446,6 +446,12 @@ namespace classdesc
 #endif
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
+    // single characters, which may be white space
+    template <class T> void stoChar(const std::string& s, T& x)
+    {if (s.length()==1) x=T(s[0]); else istoT(s,x);}
+    void stoT(const std::string& s, char& x) {stoChar(s,x);}
+    void stoT(const std::string& s, signed char& x) {stoChar(s,x);}
+    void stoT(const std::string& s, unsigned char& x) {stoChar(s,x);}
     
     ///simple data type deserialisation
     template <class T> void unpack(std::string key, T& var) {
-- 
2.43.0


From 7fdf5fd27bb3c72eb95f88d516d048ab50762e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 026/116] fix: read INF and NaN from XML under C++98

---
 xml_unpack_base.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 88c47ee..18ecebd 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -443,6 +443,24 @@ namespace classdesc
     void stoT(const std::string& s, long double& x)
       try {x=std::stold(s);}
       catch(...){istoT(s,x);}    
+#else
+    // C++98 streams cannot read the special values
+    template <class T> void stoFloat(const std::string& s, T& x)
+    {
+      std::string val=s;
+      val.erase(remove_if(val.begin(), val.end(), Isspace), val.end());
+      if (val=="NaN")
+        x=std::numeric_limits<T>::quiet_NaN();
+      else if (val=="INF")
+        x=std::numeric_limits<T>::infinity();
+      else if (val=="-INF")
+        x=-std::numeric_limits<T>::infinity();
+      else
+        istoT(s,x);
+    }
+    void stoT(const std::string& s, float& x) {stoFloat(s,x);}
+    void stoT(const std::string& s, double& x) {stoFloat(s,x);}
+    void stoT(const std::string& s, long double& x) {stoFloat(s,x);}
 #endif
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
-- 
2.43.0


From 45d3d506e099cfe333f4bfeb027e8431e23e1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 027/116] fix: empty elements are empty values, absent ones
 leave the variable unchanged in XML

---
 xml_unpack_base.h | 51 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 18ecebd..7ae7bb2 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -365,12 +365,21 @@ namespace classdesc
 
     void checkKey(const std::string& key)
     {
-      if (missingException && !contentMap.count(key)) 
+      if (missingException && !exists(key)) 
         throw xml_pack_error(key+" is missing in XML data stream");
     }
 
+    /// content of element \a key, or NULL if missing
+    const std::string* content(const std::string& key) const
+    {
+      static const std::string empty;
+      ContentMap::const_iterator it=contentMap.find(key);
+      if (it!=contentMap.end()) return &it->second;
+      return exists(key)? &empty: NULL;
+    }
+
     // add "#0" to components if no # label present
-    std::string addHashNoughts(const std::string& key)
+    std::string addHashNoughts(const std::string& key) const
     {
       std::string r;
       std::string::size_type start=0, end;
@@ -474,18 +483,19 @@ namespace classdesc
     ///simple data type deserialisation
     template <class T> void unpack(std::string key, T& var) {
       key=addHashNoughts(key); checkKey(key); 
-      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
-      if (it != contentMap.end()) stoT(it->second, var);
+      const std::string* it=content(key);
+      if (it) stoT(*it, var);
     }
     // specialisation to handle boolean values
     void unpack(std::string key, bool& var) {
       key=addHashNoughts(key); checkKey(key);
-      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
-      if (it != contentMap.end())
+      const std::string* it=content(key);
+      if (it)
         {
-          std::string val=it->second;
+          std::string val=*it;
           // strip any white space
           val.erase(remove_if(val.begin(), val.end(), Isspace), val.end());
+          if (val.empty()) return; // no value supplied
           for (size_t i=0; i<val.length(); ++i) val[i]=char(tolower(val[i]));
           var = val=="1" || val=="t" || val=="true"|| val=="y"|| val=="yes" || 
             val=="on";
@@ -494,15 +504,27 @@ namespace classdesc
     /// string deserialisation 
     void unpack(std::string key, std::string& var) {
       key=addHashNoughts(key); checkKey(key);  
-      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
-      if (it != contentMap.end())
-        var=it->second; 
+      const std::string* it=content(key);
+      if (it)
+        var=*it; 
     }
     void unpack(std::string key, CDATA& a)
     {unpack(key,static_cast<std::string&>(a));}
     
     /// checks for existence of token unpacked from XML stream
-    bool exists(const std::string& key) {return count(key)>0;}
+    bool exists(std::string key) const {
+      key=addHashNoughts(key);
+      const std::string::size_type hash=key.rfind('#');
+      std::map<std::string,unsigned>::const_iterator i=tokenCount.find(key.substr(0,hash));
+      return i!=tokenCount.end() && std::strtoul(key.c_str()+hash+1,NULL,10)<i->second;
+    }
+    /// checks whether container \a key is missing from the XML stream
+    bool missing(const std::string& key) const {
+      if (key.empty() || exists(key)) return false;
+      if (missingException)
+        throw xml_pack_error(key+" is missing in XML data stream");
+      return true;
+    }
     /// returns number of array elements with prefix key
     size_t count(std::string key) {
       key=addHashNoughts(key);
@@ -631,7 +653,8 @@ namespace classdesc
   // remove extraneous white space
   int (*isspace)(int)=std::isspace;
   std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
-  arg=tmp.substr(0,end-tmp.begin());
+  if (end!=tmp.begin()) // leave unchanged if no value supplied
+    arg=tmp.substr(0,end-tmp.begin());
 }
 
 
@@ -645,6 +668,7 @@ namespace classdesc
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
 
+    if (x.missing(d)) return; // leave unchanged
     size_t cnt=x.count(d+"."+e);
     resize(arg,0); // clear container if resizable
     resize(arg,cnt);
@@ -663,11 +687,12 @@ namespace classdesc
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
 
+    if (x.missing(d)) return; // leave unchanged
     arg.clear();
     string prefix=d.empty()? e: d+"."+e;
     for (size_t i=0; i<x.count(prefix); ++i) 
       {
-        typename NonConstKeyValueType<typename T::value_type>::T v;
+        typename NonConstKeyValueType<typename T::value_type>::T v=typename NonConstKeyValueType<typename T::value_type>::T();
         xml_unpack(x,idx(prefix,i),v);
         arg.insert(v);
       }
-- 
2.43.0


From 3cd72a6b1365bac2a7bf11245b9d8c0338ce6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 028/116] fix: XML element names of arrays of templated types

---
 xml_pack_base.h   | 1 +
 xml_unpack_base.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index b555960..9aeef26 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -223,6 +223,7 @@ namespace classdesc
 
     // element name is given by the type name
     string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 7ae7bb2..f6b3ec0 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -637,6 +637,7 @@ namespace classdesc
     va_end(ap);
 
     classdesc::string eName=classdesc::typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-- 
2.43.0


From ccc1ede5de00495c4fbe03c15e29b5847333e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 029/116] fix: XML packing of tuples of classes or of mixed
 types

---
 xml_pack_epilogue.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index d79a02b..1001fe4 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -44,7 +44,7 @@ namespace classdesc_access
           // strip leading namespace and qualifiers
           const char *e=eName.c_str()+eName.length();
           while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-          ::xml_pack(o,e,std::get<0>(a));
+          ::xml_pack(o,d+"."+e,std::get<0>(a));
           auto tail=classdesc::tupleTail(a);
           xml_pack_tuple_element(o,d,tail);
         }
@@ -83,13 +83,20 @@ namespace classdesc_access
   struct access_xml_unpack<std::tuple<A...>>
   {
     template <class T>
-    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a, int i)
+    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a, std::map<std::string,size_t>& count)
     {
       if constexpr (std::tuple_size<T>::value>0)
         {
-          ::xml_unpack(o,classdesc::idx(d,i),std::get<0>(a));
+          // element name is given by the type name
+          std::string eName=classdesc::typeName<typename std::tuple_element<0,T>::type>();
+          eName=eName.substr(0,eName.find('<')); //trim off any template args
+          // strip leading namespace and qualifiers
+          const char *e=eName.c_str()+eName.length();
+          while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
+          const std::string key=d+"."+e;
+          ::xml_unpack(o,classdesc::idx(key,count[key]++),std::get<0>(a));
           auto tail=classdesc::tupleTail(a);
-          xml_unpack_tuple_element(o,d,tail,i+1);
+          xml_unpack_tuple_element(o,d,tail,count);
           a=std::tuple_cat(std::make_tuple(std::get<0>(a)), tail);
         }
     }
@@ -97,13 +104,8 @@ namespace classdesc_access
     template <class U>
     void operator()(classdesc::xml_unpack_t& o, const cd::string& d, U& a)
     {
-      // element name is given by the type name
-      std::string eName=classdesc::typeName<typename std::tuple_element<0,std::tuple<A...>>::type>();
-      eName=eName.substr(0,eName.find('<')); //trim off any template args
-      // strip leading namespace and qualifiers
-      const char *e=eName.c_str()+eName.length();
-      while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-      xml_unpack_tuple_element(o,d+"."+e,a,0);
+      std::map<std::string,size_t> count; // number of elements of each name so far
+      xml_unpack_tuple_element(o,d,a,count);
     }
   };
 #endif
-- 
2.43.0


From ba6a4c8ecf561637fd28e229acc18082e566ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 030/116] fix: emit the XML namespace on a root element of
 simple type

---
 xml_pack_base.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 9aeef26..b4c2e4b 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -69,6 +69,12 @@ namespace classdesc
     void pretty(const string& d) {if (prettyPrint) *o << std::setw(level(d)) <<"";}
     void endpretty() {if (prettyPrint) *o<<std::endl;}
 
+    /// emit the schema namespace on the root element
+    void putSchema(const string& d) {
+      if (level(d)==1 && !schema.empty())
+        *o<<" xmlns=\""<<schema<<"\"";
+    }
+
     /**
        emit a tag \a d if current nesting level allows
        return true if tag created
@@ -80,8 +86,7 @@ namespace classdesc
         {
           pretty(d);
           *o<<"<"<<tail(d);
-          if (l==1 && !schema.empty())
-            *o<<" xmlns=\""<<schema<<"\"";
+          putSchema(d);
           *o<<">";
           endpretty();
           taglevel=l;
@@ -149,7 +154,9 @@ namespace classdesc
       if (abort) throw PackAborted();
       std::string tag=tail(d);
       pretty(d);
-      *o << "<"<<tag<<">";
+      *o << "<"<<tag;
+      putSchema(d);
+      *o<<">";
       put(*o,x) << "</"<<tag<<">";
       endpretty();
       if (!*o) throw std::runtime_error("failed to serialise");
-- 
2.43.0


From 5a3bfbb89b84cb88b8c8836754a5312625a321e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 031/116] fix: XML CDATA containing its terminator, or written
 in pretty layout

---
 xml_pack_base.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index b4c2e4b..746fafb 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -48,7 +48,17 @@ namespace classdesc
   }
 
   inline std::ostream& operator<<(std::ostream& o, const CDATA& x)
-  {return o<<"<![CDATA["<<static_cast<const std::string&>(x)<<"]]>";}
+  {
+    o<<"<![CDATA[";
+    // a CDATA section cannot contain its own terminator
+    std::string::size_type start=0, end;
+    while ((end=x.find("]]>",start))!=std::string::npos)
+      {
+        o<<x.substr(start,end+2-start)<<"]]><![CDATA[";
+        start=end+2;
+      }
+    return o<<x.substr(start)<<"]]>";
+  }
   
   /**
      XML serialisation object
@@ -218,6 +228,12 @@ namespace classdesc
   inline void xml_pack(xml_pack_t& x,const string& d, const std::string& a) 
   {xml_pack(x,d,const_cast<std::string&>(a));}
 
+  inline void xml_pack(xml_pack_t& x,const string& d, CDATA& a) 
+  {x.pack(d,a);}
+
+  inline void xml_pack(xml_pack_t& x,const string& d, const CDATA& a) 
+  {x.pack(d,a);}
+
   /* now define the array version  */
   template <class T> void xml_pack(xml_pack_t& x,const string& d,is_array ia,
                                      T& a, int dims,size_t ncopies,...) 
-- 
2.43.0


From a0d131a30761dbdea8a87adf77d630e2b690dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 032/116] fix: XML smart pointers wrapped their target twice

---
 polyAccessXMLPack.h |  4 ++--
 xml_pack_epilogue.h | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/polyAccessXMLPack.h b/polyAccessXMLPack.h
index e3c68f8..df8f4d7 100644
--- a/polyAccessXMLPack.h
+++ b/polyAccessXMLPack.h
@@ -99,7 +99,7 @@ namespace classdesc
   {
     if (x.exists(d))
       {
-        a.reset(new typename T::element_type);
+        a.reset(new typename T::element_type());
         ::xml_unpack(x,d,*a);
       }
     else
@@ -135,7 +135,7 @@ namespace classdesc
   {
     if (x.exists(d))
       {
-        T tmp(new typename T::element_type);
+        T tmp(new typename T::element_type());
         ::xml_unpack(x,d,*tmp);
       }
   }
diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index 1001fe4..034587d 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -133,12 +133,20 @@ namespace classdesc
 {
 #ifdef CLASSDESC_XML_PACK_BASE_H
   template <class T> typename
-  enable_if<AllOtherXMLPackpTypes<T>, void >::T
+  enable_if<And<AllOtherXMLPackpTypes<T>, Not<is_smart_ptr<T> > >, void >::T
   xml_packp(xml_pack_t& t,const string& d, T& a, dummy<0> dum=0)
   {
     xml_pack_t::Tag tag(t,d);
     classdesc_access::access_xml_pack<T>()(t,d,a);
   }
+
+  // the target of a smart pointer provides the tag, avoiding a double wrapping problem
+  template <class T> typename
+  enable_if<is_smart_ptr<T>, void >::T
+  xml_packp(xml_pack_t& t,const string& d, T& a, dummy<2> dum=0)
+  {
+    classdesc_access::access_xml_pack<T>()(t,d,a);
+  }
 #endif  
 
 #ifdef CLASSDESC_XML_UNPACK_BASE_H
-- 
2.43.0


From 66ab18381360fce370b931d9934e88989c493c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 033/116] fix: null polymorphic pointers lost from containers
 in XML

---
 polyAccessXMLPack.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/polyAccessXMLPack.h b/polyAccessXMLPack.h
index df8f4d7..0cc448f 100644
--- a/polyAccessXMLPack.h
+++ b/polyAccessXMLPack.h
@@ -18,11 +18,12 @@ namespace classdesc
   typename enable_if<is_base_of<PolyXMLBase, typename T::element_type>, void>::T
   xml_pack_smart_ptr(xml_pack_t& x, const string& d, const T& a) 
   {
+    // requires a bit of jiggery-pokery to get the tag wrappers
+    // happening in the right order. A null pointer has no contents,
+    // but still needs representing if it is an element of a container
+    xml_pack_t::Tag t(x,d);
     if (a.get())
       {
-        // requires a bit of jiggery-pokery to get the tag wrappers
-        // happening in the right order
-        xml_pack_t::Tag t(x,d);
         ::xml_pack(x,d+".type",a->type());
         a->xml_pack(x,d);
       }
-- 
2.43.0


From ec69fb9b4db53f35493f359a8c2004cffb98550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 034/116] fix: no sequence in the schema of an empty class

---
 xsd_generate_base.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index d6eba88..9ab08c1 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -150,10 +150,15 @@ namespace classdesc
           // reasons, or for future extensibility
           // namespace attribute to solve Unique Particle Attribution (UPA) rule in XSD 1.0
           if (typeBeingAddedTo.back().baseClass.empty())
-            xsdDefs[typeBeingAddedTo.back().name]+=
+            {
+              if (!typeBeingAddedTo.back().sequenceAdded)
+                xsdDefs[typeBeingAddedTo.back().name]+="    <xs:sequence>\n";
+              typeBeingAddedTo.back().sequenceAdded=true;
+              xsdDefs[typeBeingAddedTo.back().name]+=
               "      <xs:any minOccurs=\"0\" "
               "namespace=\"##other\" "
               "maxOccurs=\"unbounded\" processContents=\"lax\"/>\n";
+            }
           if (typeBeingAddedTo.back().sequenceAdded)
             xsdDefs[typeBeingAddedTo.back().name]+="    </xs:sequence>\n";
           if (!typeBeingAddedTo.back().baseClass.empty())
-- 
2.43.0


From 1837547dfe14ca36b5c2e9a0bc1c6531198b6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 035/116] fix: elements of arrays misnamed, and their type not
 defined, in schemas

---
 xsd_generate_base.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 9ab08c1..98279e2 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -242,6 +242,16 @@ namespace classdesc
   template <class T> string xsd_typeName() 
   {return "tns:"+transformTypeName(typeName<T>());}
 
+  /// name xml_pack gives to elements of type \a T of an array
+  template <class T> string xsd_elementName()
+  {
+    string eName=typeName<T>();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
+    // strip leading namespace and qualifiers
+    string::size_type start=eName.find_last_of(" :");
+    return start==string::npos? eName: eName.substr(start+1);
+  }
+
   template <class T>
   struct EverythingElse: public
   Not<
@@ -344,7 +354,7 @@ namespace classdesc
     os<<"  <xs:complexType name=\""+type.str()+"\">\n";
     os<<"    <xs:sequence minOccurs=\""<<ncopies<<
       "\" maxOccurs=\""<<ncopies<<"\">\n";
-    os<<"      <xs:element name=\""<<typeName<T>()<<"\" type=\""<<
+    os<<"      <xs:element name=\""<<xsd_elementName<T>()<<"\" type=\""<<
       xsd_typeName<T>()<<"\"/>\n";
     os<<"    </xs:sequence>\n";
     os<<"  </xs:complexType>\n";
@@ -352,6 +362,8 @@ namespace classdesc
     g.defineType(type.str(), os.str());
     g.addMember(tail(d), "tns:"+type.str());
     g.addDependency(type.str(), xsd_typeName<T>());
+    // ensure that the element type has a definition also
+    processExtraClass(g, d+transformTypeName(typeName<T>()), a);
   }
 
   /// enum handling
-- 
2.43.0


From 5fc1af33131eead2e54d8fdc1dfde9fae3f11b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 036/116] fix: root type of a schema overwritten by that of its
 base class

---
 xsd_generate_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 98279e2..e8843a9 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -169,6 +169,9 @@ namespace classdesc
       typeBeingAddedTo.pop_back();
     }
 
+    /// true if no type is currently being added to
+    bool atTopLevel() const {return typeBeingAddedTo.empty();}
+
     string currentDescription() const 
     {
       if (!typeBeingAddedTo.empty())
@@ -266,7 +269,7 @@ namespace classdesc
   xsd_generate(xsd_generate_t& g, const string& d, const T& a)
   {
     // if this is a toplevel name, record it as the root element
-    if (!d.empty() && d.find('.')==string::npos)
+    if (!d.empty() && d.find('.')==string::npos && g.atTopLevel())
       {
         g.rootName=d;
         g.rootType=xsd_typeName<T>();
-- 
2.43.0


From 89d782f26bac3b13d29314548f1a8a03256092f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 037/116] fix: typeName of tuples did not name the element
 types

---
 classdesc.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index d25ada1..a58c569 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1211,7 +1211,13 @@ namespace classdesc
   template <class... A> struct tn<std::tuple<A...>>
   {
     // TODO unpack argpack to explicitly name template parameters
-    static string name() {return "std::tuple<...>";}
+    static string name()
+    {
+      string args;
+      int expand[]={0,(args+=(args.empty()? "": ",")+typeName<A>(),0)...};
+      (void)expand;
+      return "std::tuple<"+args+">";
+    }
   };
 #endif
   
-- 
2.43.0


From 686d08e0e43c6b4bcba8f676950ee3aff20c25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 038/116] fix: elements of tuples misnamed in schemas

---
 xsd_generate_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index e8843a9..7b0b66b 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -455,7 +455,7 @@ namespace classdesc
   {
     if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
       {
-        xsd_generate(g,d+"."+transformTypeName(typeName<typename std::tuple_element<0,std::tuple<A...>>::type>()),
+        xsd_generate(g,d+"."+xsd_elementName<typename std::tuple_element<0,std::tuple<A...>>::type>(),
                      std::get<0>(e));
         tuple_element_generate(g,d,classdesc::tupleTail(e));
       }
-- 
2.43.0


From 451b915898bcb88131cd5cb5e6172ab9eec05d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 039/116] fix: digraph emitted for a base class named with a
 leading ::

---
 classdesc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8969501..8610316 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -446,7 +446,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                         "classdesc::base_cast<"+
                         // look for member qualification in a template context
                         string(typename_needed? "typename ": "")+
-                        baseclass+" >::cast("+varname+")",
+                        // "<:" is a digraph
+                        string(baseclass[0]==':'? " ": "")+baseclass+" >::cast("+varname+")",
                         onBase? baseclass:"",false,/*!static*/
                         onBase
                         )
-- 
2.43.0


From 6650291290623f81b48fedbba694543ab4f401ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 040/116] fix: static and const of one member declaration
 carried over to later ones

---
 classdesc.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8610316..8683df0 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -341,7 +341,6 @@ public:
         else
           actionlist.push_back(act_pair("."+name,action,memberName,is_static));
       }
-    is_static=false;
   }
 };
 
@@ -487,6 +486,9 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
             
         }
       
+      // declaration specifiers do not outlast their declaration
+      if (input.lasttoken==";") reg.is_static=reg.is_const=false;
+
       rType += input.token + " ";
 
       /* skip public/private etc labels */
@@ -635,7 +637,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	    gobble_delimited(input,"(",")");
 	  /* skip to end of statement */
 	  while (!strchr("{;",input.token[0])) input.nexttok();
-	  reg.is_static=false;
+	  reg.is_static=reg.is_const=false;
 	}
 
       // alignas declarations need to be discarded
@@ -644,7 +646,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 
       if (input.token=="virtual") is_virtual=true;
       if (input.token=="static") reg.is_static=true;
-      if (input.token=="const") reg.is_const=true;
+      if (input.token=="const" || input.token=="constexpr") reg.is_const=true;
+      if (input.token=="*") reg.is_const=false; // the const before qualifies what is pointed at
       if (input.token=="friend")  /* skip friend statement */
         while (input.token!=";")
           input.nexttok();
@@ -756,6 +759,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 
                 if (objc) { action += ", \"" + rType + "\", " + "\"" + argList + "\""; }
                 rType.erase();
+                reg.is_const=false; // a const return type does not make a constant
                 if (overloadingAllowed && !reg.is_private)
                   overloadTempVarDecls[/*namespace_name+*/prefix].push_back
                     (MemberSig(tempFnPtrDecl,returnType,al,prefix,memname,type));
-- 
2.43.0


From 8841095c2f16217b2f23f26776f2874f540dd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 041/116] fix: template of a friend, using or nested class
 declaration, or of an operator, ascribed to the next method

---
 classdesc.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8683df0..af8a2de 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -487,7 +487,12 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
         }
       
       // declaration specifiers do not outlast their declaration
-      if (input.lasttoken==";") reg.is_static=reg.is_const=false;
+      if (input.lasttoken==";")
+        {
+          reg.is_static=reg.is_const=false;
+          is_virtual=0;
+          is_template=false;
+        }
 
       rType += input.token + " ";
 
@@ -576,6 +581,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 #endif
 	    }
 	  targs1.erase();
+          is_template=false;
 	  continue;
 	}
       if (input.token=="enum")
@@ -638,6 +644,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  /* skip to end of statement */
 	  while (!strchr("{;",input.token[0])) input.nexttok();
 	  reg.is_static=reg.is_const=false;
+	  is_virtual=0;
+	  is_template=false;
 	}
 
       // alignas declarations need to be discarded
-- 
2.43.0


From d511a02f9749eac1608ee901d626e25f82db08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 042/116] fix: friend function defined within a class taken for
 the end of the class

---
 classdesc.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index af8a2de..9c0c963 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -657,8 +657,13 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="const" || input.token=="constexpr") reg.is_const=true;
       if (input.token=="*") reg.is_const=false; // the const before qualifies what is pointed at
       if (input.token=="friend")  /* skip friend statement */
-        while (input.token!=";")
-          input.nexttok();
+        {
+          while (input.token!=";" && input.token!="{")
+            input.nexttok();
+          if (input.token=="{") gobble_delimited(input,"{","}");
+          is_template=false;
+          continue;
+        }
 
       if (input.token[0]=='(') /* member functions, or function pointers */
 	{
-- 
2.43.0


From f690b015d0a513109c883329428f58013330447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 043/116] fix: static_assert, decltype and __attribute__ within
 a class taken for methods

---
 classdesc.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 9c0c963..8ebda6b 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -648,9 +648,20 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  is_template=false;
 	}
 
-      // alignas declarations need to be discarded
-      if (input.token=="alignas") 
-        {input.nexttok(); gobble_delimited(input,"(",")");}
+      if (input.token=="static_assert") // not a member
+        {
+          while (input.token!=";") input.nexttok();
+          continue;
+        }
+
+      // alignas declarations need to be discarded, and the
+      // parenthesised operand of these does not make a method
+      if (input.token=="alignas" || input.token=="decltype" || input.token=="__attribute__")
+        {
+          input.nexttok();
+          gobble_delimited(input,"(",")");
+          continue;
+        }
 
       if (input.token=="virtual") is_virtual=true;
       if (input.token=="static") reg.is_static=true;
-- 
2.43.0


From ca227a6c9486fe9db29053309052092b70ebb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 044/116] fix: members following an initializer which contains
 commas or braces lost

---
 classdesc.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8ebda6b..a208286 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -344,6 +344,34 @@ public:
   }
 };
 
+// skip over the initializer or field specifier of a member, up to the
+// comma or semicolon terminating its declarator
+void skip_initializer(tokeninput& input)
+{
+  for (; input.token!=";" && input.token!="," && input.token!="}"; input.nexttok())
+    if (input.token=="{")
+      gobble_delimited(input,"{","}");
+    else if (input.token=="(")
+      gobble_delimited(input,"(",")");
+    else if (input.token=="[")
+      gobble_delimited(input,"[","]");
+    else if (input.token=="<" && isIdentifierStart(input.lasttoken[0]))
+      {
+        // may be a less than operator, or introduce template arguments
+        tokeninput::mark_t mark(input);
+        int depth=0;
+        for (; input.token!=";" && input.token!="}" && input.token!="&&" && input.token!="||"; input.nexttok())
+          {
+            if (input.token=="<") depth++;
+            else if (input.token==">") depth--;
+            else if (input.token==">>") depth-=2;
+            else if (input.token=="(") gobble_delimited(input,"(",")");
+            if (depth<=0) break;
+          }
+        if (depth!=0) input=mark;
+      }
+}
+
 actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", string targs="")
 {
   actionlist_t         actionlist;
@@ -625,10 +653,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 reg.register_class(input.lasttoken,"",
                                    varname+"." + input.lasttoken );
             }
-          if (input.token[0]=='{')
-            gobble_delimited(input,"{","}");
 	  /* skip over field specifier or initializer */
-	  while (!strchr(";,",input.token[0])) input.nexttok();
+          skip_initializer(input);
 	}
 
       /* operator members - discard these */
@@ -833,6 +859,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  if (!objc) action.erase(action.size()-1,1); /* remove trailing "," */
           else  action+="\"";
 	  reg.register_class(name,name,action);
+          skip_initializer(input);
 	}
 
       if (input.token=="{")  /* skip function/enum/whatever definitions */
-- 
2.43.0


From e35df9511677e7e90953d32fc019cf1b62b13bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 045/116] fix: name of a union type within a class taken for a
 member

---
 classdesc.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index a208286..1263602 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -625,7 +625,18 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	}
 
 
-      /* handle unnamed unions as a special case */
+      /* handle unions as a special case */
+      if (input.lasttoken=="union" && isIdentifierStart(input.token[0]))
+        {
+          string unionName=input.token;
+          input.nexttok();
+          if (!is_private && strchr("{;",input.token[0]))
+            nested[prefix].push_back(unionName);
+          if (input.token=="{")
+            input.lasttoken="union";
+          else if (input.token==";") // forward declaration
+            continue;
+        }
       if (input.lasttoken=="union" && input.token=="{")
 	{
 	  gobble_delimited(input,"{","}");
-- 
2.43.0


From 0e5c8226a8adc364333857a4af9c01382286bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 046/116] fix: all but the last declarator of an unnamed union,
 and arrays of them, lost

---
 classdesc.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 1263602..fe8852f 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -640,12 +640,19 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.lasttoken=="union" && input.token=="{")
 	{
 	  gobble_delimited(input,"{","}");
-	  while (input.token!=";") input.nexttok();
-          if (isIdentifierStart(input.lasttoken[0]))
-            reg.register_class
-              (input.lasttoken,input.lasttoken,
-               "classdesc::is_array(),(char&)("+varname+"."+input.lasttoken+
-               "),1,sizeof("+varname+"."+input.lasttoken+")");
+          for (input.nexttok(); input.token!=";"; input.nexttok())
+            {
+              if (isIdentifierStart(input.token[0]))
+                {
+                  reg.register_class
+                    (input.token,input.token,
+                     "classdesc::is_array(),(char&)("+varname+"."+input.token+
+                     "),1,sizeof("+varname+"."+input.token+")");
+                  input.nexttok();
+                  skip_initializer(input);
+                }
+              if (input.token==";") break;
+            }
           continue;
 	}
 	
-- 
2.43.0


From d5f5fb2b7ad2733b0bd75c1aa4879fd88b4acfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 047/116] fix: final classes, and those with an alignment or
 attributes, not described

---
 classdesc.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index fe8852f..22ab40f 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -315,6 +315,19 @@ string replaceShornTypes(const string& input, const string& shornType, const str
 }
 
 
+// skip over any alignment or attributes preceding the name of a class
+void skip_class_attributes(tokeninput& input)
+{
+  string key=input.lasttoken;
+  while (input.token=="alignas" || input.token=="__attribute__")
+    {
+      input.nexttok();
+      gobble_delimited(input,"(",")");
+      input.nexttok();
+      input.lasttoken=key;
+    }
+}
+
 class register_classname
 {
   actionlist_t& actionlist;
@@ -589,6 +602,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
+          skip_class_attributes(input);
           if (!is_private && !is_template) nested[prefix].push_back(input.token);
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
@@ -943,6 +957,7 @@ void parse_typedef(tokeninput& input, string prefix)
       tokeninput::mark_t mark=input;
       string name, structname;
       input.nexttok();
+      skip_class_attributes(input);
       if (isIdentifierStart(input.token[0])) structname=input.token;
       while (!strchr(";:{",input.token[0])) input.nexttok();
       if (input.token==";")
@@ -1084,6 +1099,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
       input.nexttok();
       classname+="::"+input.token;
     }
+  if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       action_t action(classtok+classname,
@@ -1402,6 +1418,7 @@ int main(int argc, char* argv[])
  	  if (input.token=="class" || input.token=="struct")
 	    {
 	      input.nexttok();
+              skip_class_attributes(input);
 	      if (isIdentifierStart(input.token[0]))  /* named class */
                 
 		assign_class_action(input,namespace_name,targs,targs,false);
-- 
2.43.0


From 53741d6a432384ff650844b23f9cc5c6a3b36fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 048/116] fix: elaborated type specifiers taken for nested
 types

---
 classdesc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 22ab40f..efb943d 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -602,8 +602,10 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
+          bool global=input.token=="::";
+          if (global) input.nexttok();
           skip_class_attributes(input);
-          if (!is_private && !is_template) nested[prefix].push_back(input.token);
+          string nestedName=input.token;
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
 	  if (isIdentifierStart(input.token[0]))  /* named class */
@@ -622,6 +624,9 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		i->replace(i->find("#"),1,varname);
 #endif
 	    }
+	  // neither qualified names nor elaborated type specifiers declare a nested type
+          if (!is_private && !is_template && !global && strchr(";}",input.token[0]))
+            nested[prefix].push_back(nestedName);
 	  targs1.erase();
           is_template=false;
 	  continue;
-- 
2.43.0


From 2303165641e50f5f0ee0e7055ff63251feb4dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 049/116] fix: declarators of enumerations, opaque enumerations
 and enumerator values containing commas misread

---
 classdesc.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index efb943d..6156be5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -247,6 +247,10 @@ set<string> token_set(const string& s)
   return r;
 }
 
+// skip over the initializer or field specifier of a member, or the
+// value of an enumerator, up to what terminates it
+void skip_initializer(tokeninput& input);
+
 void assign_enum_action(tokeninput& input, string prefix)
 {
   string enumname="enum ";
@@ -267,16 +271,14 @@ void assign_enum_action(tokeninput& input, string prefix)
     {
       nested[prefix].push_back(bareEnumName);
       // load up the list of enum symbols
-      for ( ; input.token != ";"; input.nexttok())
+      for (input.nexttok(); input.token!="}"; )
         {
-          if (input.token == "=" || input.token == "," || input.token=="}")
-            if (input.lasttoken!=",") //not sure if this is correct C++, but
-              //compilers accept blank enumerator-definitions
-              enum_keys[enumname].push_back(input.lasttoken);
-          if (input.token == "=") {
-            for (input.nexttok(); input.token!="," && input.token!="}";
-                 input.nexttok()); //skip value
-          }
+          if (isIdentifierStart(input.token[0]))
+            enum_keys[enumname].push_back(input.token);
+          while (input.token!="=" && input.token!="," && input.token!="}")
+            input.nexttok();
+          skip_initializer(input); //skip value
+          if (input.token!="}") input.nexttok();
         }
       actionlist_t actionlist;
       if (typeName)
@@ -357,8 +359,6 @@ public:
   }
 };
 
-// skip over the initializer or field specifier of a member, up to the
-// comma or semicolon terminating its declarator
 void skip_initializer(tokeninput& input)
 {
   for (; input.token!=";" && input.token!="," && input.token!="}"; input.nexttok())
@@ -638,9 +638,17 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               isIdentifierStart(input.token[0]))  /* named enum */
             {
               assign_enum_action(input,prefix);
+              if (input.token==";") continue; /* opaque declaration */
             }
           else
-            gobble_delimited(input,"","}");
+            {
+              if (input.token=="class" || input.token=="struct") input.nexttok();
+              if (isIdentifierStart(input.token[0])) input.nexttok();
+              if (input.token==":")
+                while (!strchr("{;",input.token[0])) input.nexttok();
+              if (input.token==";") continue; /* opaque declaration */
+              if (input.token=="{") gobble_delimited(input,"{","}");
+            }
 	}
 
 
-- 
2.43.0


From b51b27ad822c1792109f81497cf09faebee48bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 050/116] fix: C++17 nested namespace definitions ignored

---
 classdesc.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6156be5..6c4e0e7 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1371,7 +1371,7 @@ int main(int argc, char* argv[])
 	  if (input.token=="using")
 	    /* skip over any using namespace statements */
 	    while (input.token!=";") input.nexttok();
-	  if (namespace_end.size() && input>namespace_end.top())
+	  while (namespace_end.size() && input>namespace_end.top())
 	    /* finished parsing namespace */
 	    {
 	      /* strip trailing :: */
@@ -1397,17 +1397,27 @@ int main(int argc, char* argv[])
 	      input.nexttok();
               if (input.token!="{") // not anonymous
                 {
-                  string name=input.token;
+                  vector<string> names(1,input.token);
                   input.nexttok();
+                  while (input.token=="::")
+                    {
+                      input.nexttok();
+                      if (input.token=="inline") input.nexttok();
+                      names.push_back(input.token);
+                      input.nexttok();
+                    }
                   if (input.token=="=") // namespace alias, skip over
                     while (input.token!=";") 
                       input.nexttok();
                   else if (input.token=="{")
                     {
-                      namespace_name+=name+"::";
                       tokeninput::mark_t here(input);
                       gobble_delimited(input,"{","}");
-                      namespace_end.push(tokeninput::mark_t(input));
+                      for (size_t i=0; i<names.size(); ++i)
+                        {
+                          namespace_name+=names[i]+"::";
+                          namespace_end.push(tokeninput::mark_t(input));
+                        }
                       input=here;
                     }
                 }
-- 
2.43.0


From c34a5ca28bbe60791dbc1b5e7915db992777154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 051/116] fix: types declared within function bodies described
 as though at namespace scope

---
 classdesc.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6c4e0e7..baccc12 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1389,12 +1389,14 @@ int main(int argc, char* argv[])
 	      namespace_name.erase(p);
 	      namespace_end.pop();
 	    }
+	  bool scope=false; // token opens a namespace or linkage specification
 	  if (input.token=="namespace")
 	    /* append the namespace name to namespace, and mark the end of
                the namespace region in the input stream
             */
 	    {
 	      input.nexttok();
+              scope=true;
               if (input.token!="{") // not anonymous
                 {
                   vector<string> names(1,input.token);
@@ -1453,13 +1455,15 @@ int main(int argc, char* argv[])
 	      if (isIdentifierStart(input.token[0]))  /* named enum */
      		assign_enum_action(input,namespace_name);
               else
-                gobble_delimited(input,"{","}");
+                while (!strchr("{;",input.token[0])) input.nexttok();
 	    }
 	  /* inline function definitions - must remove actionlist
              entry if there is one */
 	  if (input.token=="(") /* remove function arguments */
 	    gobble_delimited(input,"(",")");
-	  
+          /* types local to function bodies and the like cannot be described */
+          if (input.token=="{" && !scope && input.lasttoken[0]!='"')
+            gobble_delimited(input,"{","}");
 	}
     }
 
-- 
2.43.0


From 57b2472dc187762bdc16300ffd75cf4e29041a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 052/116] fix: unnamed structs given a name by a typedef within
 a namespace described without it

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index baccc12..92018b0 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1426,7 +1426,7 @@ int main(int argc, char* argv[])
             }
 	  /* end namespace support */
 
-	  if (input.token=="typedef") parse_typedef(input);
+	  if (input.token=="typedef") parse_typedef(input, namespace_name=="::"? "": namespace_name);
 	  if (input.token=="template")
 	    {
 	      input.nexttok();
-- 
2.43.0


From f7ef9e7e2c7a703295901e1e4907ebd1bc42b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 053/116] fix: brace initializers of a constructor taken for
 members

---
 classdesc.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 92018b0..5f74b40 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -785,6 +785,22 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  while (!strchr(";{",input.token[0]))
             {
               input.nexttok();
+              if (input.token=="(") gobble_delimited(input,"(",")");
+              if (input.token==":") // skip over constructor initializers
+                do
+                  {
+                    input.nexttok();
+                    while (!strchr("({;",input.token[0]))
+                      {
+                        if (input.token=="<") gobble_delimited(input,"<",">");
+                        input.nexttok();
+                      }
+                    if (input.token=="{") gobble_delimited(input,"{","}");
+                    else if (input.token=="(") gobble_delimited(input,"(",")");
+                    input.nexttok();
+                    if (input.token=="...") input.nexttok();
+                  }
+                while (input.token==",");
               if (input.token=="const") is_const=true;
               if (input.token=="delete") deleted=true;
             }
-- 
2.43.0


From 7f1a78447207778492e8598d4820ca14781ecbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 054/116] fix: scoped enumerations introduced by enum struct
 not described

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 5f74b40..6b647b2 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -254,7 +254,7 @@ void skip_initializer(tokeninput& input);
 void assign_enum_action(tokeninput& input, string prefix)
 {
   string enumname="enum ";
-  if (input.token=="class")
+  if (input.token=="class" || input.token=="struct")
     {
       input.nexttok();
       enumname+="class ";
-- 
2.43.0


From 3f63f5886544ea4a686cc5cffeadfc9fd460c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 055/116] fix: members following a pointer to an array lost

---
 classdesc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6b647b2..a3ebc44 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -769,8 +769,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		  input.nexttok();
 		  memname=input.token;
 		  gobble_delimited(input,"(",")");
-		  while (input.token[0]!='(') input.nexttok();
-		  gobble_delimited(input,"(",")");
+		  while (!strchr("([;",input.token[0])) input.nexttok();
+		  if (input.token[0]=='(') gobble_delimited(input,"(",")");
 		}
 	      else if (input.token!=")") /* skip fn args */
                 argList += gobble_delimited(input,"(",")");
-- 
2.43.0


From 1dd9cf7acf9040c123ecaadc19eba1f1fc0ef51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 056/116] fix: raw string literals and digit separators
 mistaken for ordinary quotes

---
 tokeninput.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tokeninput.h b/tokeninput.h
index 784daaa..35cd7d1 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -220,10 +220,29 @@ public:
       }
     else 
       {
+        bool number=isdigit(c);
         while (isalnum(c) || c=='_') 
           {
             token+=c;
             getnextc();
+            if (number && c=='\'') getnextc(); // digit separator
+          }
+        if (c=='"' && (token=="R" || token=="LR" || token=="uR" || token=="UR" || token=="u8R"))
+          {
+            // raw string, which ends with the same delimiter it began with
+            string delim=")";
+            token+=c;
+            for (getnextc(); c!='('; getnextc()) delim+=c;
+            delim+='"';
+            string content;
+            do
+              {
+                getnextc();
+                content+=c;
+              }
+            while (content.size()<delim.size() || content.compare(content.size()-delim.size(),delim.size(),delim)!=0);
+            token+=content;
+            getnextc();
           }
       }
   }
-- 
2.43.0


From 416eebaa63201976c93c09f0071cffcb7669b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 057/116] fix: attributes dropped from strings, comments and
 the output of insert-friend, and unterminated ones looped on

---
 tokeninput.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 35cd7d1..72030fb 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -45,17 +45,6 @@ class tokeninput
         else {ungetc(c,inputstream); c='\\';}
         break;
 
-      case '[':
-        c=fgetc(inputstream); 
-        if (c=='[') // attribute leadin - discard attribute
-          {
-            char lc=c;
-            while ((c=fgetc(inputstream)) != ']' || lc!=']') lc=c;
-            getnextc();
-          }
-        else
-          {ungetc(c,inputstream); c='[';}
-        break;
       case EOF:
         throw eof();
         break;
@@ -183,6 +172,21 @@ public:
                   token+=c;
                   getnextc();
                 }
+              else if (c=='[') // attribute leadin - discard attribute
+                {
+                  int brackets=2;
+                  string before=lasttoken, beforeLast=tokenBeforeLast;
+                  getnextc();
+                  while (brackets>0)
+                    {
+                      nexttok();
+                      if (token=="[") brackets++;
+                      if (token=="]") brackets--;
+                    }
+                  lasttoken=before;
+                  tokenBeforeLast=beforeLast;
+                  goto nexttok_again; /* get next token */
+                }
              break;
 
             case '(':
-- 
2.43.0


From 26865af24372c275a301a68d34f39052db7cb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 058/116] fix: consecutive and DOS style line continuations
 left in the input

---
 tokeninput.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 72030fb..1a89f5e 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -36,13 +36,19 @@ class tokeninput
         break;
 
       case '\\': /* check for and remove any line continuations */
-        c=fgetc(inputstream); 
-        if (c=='\n') 
-          {
-            c=fgetc(inputstream); 
-            if (outputstream) fprintf(outputstream,"\\\n");
-          }
-        else {ungetc(c,inputstream); c='\\';}
+        {
+          int next=fgetc(inputstream);
+          bool cr=next=='\r';
+          if (cr) next=fgetc(inputstream);
+          if (next=='\n')
+            {
+              if (outputstream) fputs(cr? "\\\r\n": "\\\n",outputstream);
+              lineno++;
+              return getnextc();
+            }
+          if (next!=EOF) ungetc(next,inputstream);
+          if (cr) ungetc('\r',inputstream);
+        }
         break;
 
       case EOF:
-- 
2.43.0


From fb6b57980d73b88a60c60e769d745ef719dc8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 059/116] fix: types defined by a typedef within a template
 described without its parameters

---
 classdesc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index a3ebc44..acf8358 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1027,9 +1027,11 @@ void parse_typedef(tokeninput& input, string prefix)
       if (!structname.empty()) name=prefix+structname;
       actionlist=parse_class(input,is_class,name+"::");
       type_defined.defined(structname);
-      actions.push_back(action_t(name,actionlist,namespace_name));
+      // types nested within templates cannot be described
+      if (prefix.find("<")==string::npos)
+        actions.push_back(action_t(name,actionlist,namespace_name));
     }
-  else if (input.token=="union")
+  else if (input.token=="union" && prefix.find("<")==string::npos)
     {
       actionlist.push_back(
 		     act_pair("","classdesc::is_array(),(char&)arg,1,sizeof(arg)"));
-- 
2.43.0


From d6db544ad3cccec920a9dd7514002e8166f6b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 060/116] fix: no symbol table emitted for enums without
 enumerators

---
 classdesc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index acf8358..a9e301c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1591,6 +1591,9 @@ int main(int argc, char* argv[])
                              "sizeof(enum_keysData< %s >::keysData[0]));\n",
                              n.c_str(),n.c_str(),n.c_str(),n.c_str(),n.c_str());
                     }
+                  else
+                    printf("template <> EnumKeys< %s > enum_keysData< %s >::keys(NULL,0);\n",
+                           n.c_str(),n.c_str());
                   printf("template <> int enumKey< %s >(const std::string& x)"
                          "{return int(enum_keysData< %s >::keys(x));}\n",
                          n.c_str(),n.c_str());
-- 
2.43.0


From 081af4423f08dff6c212e561ba01627d2d34f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 061/116] fix: types nested in private classes, and private
 typedef'd types, described without access to them

---
 classdesc.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index a9e301c..f61e2f9 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -289,7 +289,7 @@ void assign_enum_action(tokeninput& input, string prefix)
     }
 }
   
-void parse_typedef(tokeninput& input, string prefix="");
+void parse_typedef(tokeninput& input, string prefix="", bool is_private=false);
 void assign_class_action(tokeninput& input, string prefix,
 			 string template_args, string classargs, 
                          bool is_private);
@@ -562,7 +562,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           if (isIdentifierStart(input.lasttoken[0]) && !is_private) //ignore any strange function type typedefs
             nested[prefix].push_back(input.lasttoken);
           input=mark;
-	  parse_typedef(input,prefix);
+	  parse_typedef(input,prefix,is_private);
           while (input.token!=";") input.nexttok();
 	  continue;
 	}
@@ -976,7 +976,7 @@ string get_typedef_name(tokeninput& input)
   return input.lasttoken;
 }
 
-void parse_typedef(tokeninput& input, string prefix)
+void parse_typedef(tokeninput& input, string prefix, bool is_private)
 {
   actionlist_t actionlist;
   input.nexttok();
@@ -1025,13 +1025,15 @@ void parse_typedef(tokeninput& input, string prefix)
       // if a struct or class name has been provided, use that in
       // preference to the typedef name - see ticket #11
       if (!structname.empty()) name=prefix+structname;
+      size_t numActions=actions.size();
       actionlist=parse_class(input,is_class,name+"::");
+      if (is_private) actions.erase(actions.begin()+numActions,actions.end()); // nested types are no more accessible
       type_defined.defined(structname);
       // types nested within templates cannot be described
-      if (prefix.find("<")==string::npos)
+      if (!is_private && prefix.find("<")==string::npos)
         actions.push_back(action_t(name,actionlist,namespace_name));
     }
-  else if (input.token=="union" && prefix.find("<")==string::npos)
+  else if (input.token=="union" && !is_private && prefix.find("<")==string::npos)
     {
       actionlist.push_back(
 		     act_pair("","classdesc::is_array(),(char&)arg,1,sizeof(arg)"));
@@ -1133,9 +1135,11 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
   if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
+      size_t numActions=actions.size();
       action_t action(classtok+classname,
 			parse_class(input,classtok=="class ",classname+"::",targs),
                       namespace_name,targs);
+      if (is_private) actions.erase(actions.begin()+numActions,actions.end()); // nested types are no more accessible
       //only register action if class is public do not register nested
       // classes of templates, as that causes a partial specialisation
       // error
-- 
2.43.0


From ac06e78f053be90c25fb601ce44bc8a1e4c53ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 062/116] fix: input read from a pipe misparsed, a missing
 input file dereferenced

---
 classdesc.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index f61e2f9..6ff683b 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -18,6 +18,8 @@
 #include <iostream>
 #include <sstream>
 #include <ctype.h>
+#include <errno.h>
+#include <string.h>
 using namespace std;
 #include "tokeninput.h"
 #include "classdescVersion.h"
@@ -1356,6 +1358,21 @@ int main(int argc, char* argv[])
   FILE* inputStream=stdin;
   if (inputFile!="stdin") 
     inputStream=fopen(inputFile.c_str(),"rb");
+  else if (fseek(stdin,0,SEEK_CUR)!=0)
+    {
+      // the parser revisits its input, which a pipe does not allow
+      inputStream=tmpfile();
+      if (inputStream)
+        {
+          for (int c=getchar(); c!=EOF; c=getchar()) fputc(c,inputStream);
+          rewind(inputStream);
+        }
+    }
+  if (!inputStream)
+    {
+      cerr << inputFile << ": " << strerror(errno) << endl;
+      return 1;
+    }
       
   tokeninput input(inputStream);
 
-- 
2.43.0


From 3d07833c9b380b98d0bb0e86a57a3134705834e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 063/116] fix: empty argument lists containing white space
 garbled by -overload

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6ff683b..f6a4fe4 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -776,7 +776,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		}
 	      else if (input.token!=")") /* skip fn args */
                 argList += gobble_delimited(input,"(",")");
-              else
+              else if (input.lasttoken!="(")
                 argList += input.lasttoken;
 	    }
     
-- 
2.43.0


From 9364fc9cd98c23c543252a2c0795709a38492ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 064/116] fix: commas within the default value of an argument
 garbled the signature with -overload

---
 classdesc.cc | 55 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index f6a4fe4..cb0b95c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -332,6 +332,43 @@ void skip_class_attributes(tokeninput& input)
     }
 }
 
+// returns the position of the comma that terminates the default value
+// of a function argument starting at \a i in \a args
+size_t endOfDefaultArg(const string& args, size_t i)
+{
+  string open; // currently open delimiters
+  for (; i<args.size(); ++i)
+    switch (args[i])
+      {
+      case '"': case '\'':
+        for (size_t j=i++; i<args.size() && args[i]!=args[j]; ++i)
+          if (args[i]=='\\') ++i;
+        break;
+      case '(': case '[': case '{': 
+        open+=args[i]; 
+        break;
+      case ')': case ']': case '}': 
+        // an unmatched < was a comparison
+        while (!open.empty() && open[open.size()-1]=='<') open.erase(open.size()-1);
+        if (!open.empty()) open.erase(open.size()-1);
+        break;
+      case '<':
+        if (args[i+1]=='<' || args[i+1]=='=') 
+          ++i; // operators
+        else if (args.find('>',i)!=string::npos)
+          open+='<';
+        break;
+      case '>':
+        if (args[i-1]!='-' && !open.empty() && open[open.size()-1]=='<')
+          open.erase(open.size()-1);
+        break;
+      case ',':
+        if (open.empty()) return i;
+        break;
+      }
+  return args.size();
+}
+
 class register_classname
 {
   actionlist_t& actionlist;
@@ -847,19 +884,11 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                   action+="&"+ /*namespace_name +*/ prefix + memname;
                 // strip any default arguments from argList
                 string al;
-                int braceCnt=0;
-                bool include=true;
-                for (string::iterator i=argList.begin(); i!=argList.end(); ++i)
-                  switch (*i)
-                    {
-                    case '=': include=false; break;
-                    case '{': braceCnt++; break;
-                    case '}': braceCnt--; break;
-                    case ',': if (braceCnt==0) include=true;
-                      /*fallthrough*/
-                    default:
-                      if (include) al+=*i;
-                    }
+                for (size_t i=0; i<argList.size(); )
+                  if (argList[i]=='=')
+                    i=endOfDefaultArg(argList,i+1);
+                  else
+                    al+=argList[i++];
                 
                 if (prefix.find("<")!=string::npos)
                   {
-- 
2.43.0


From 04f325074546564384fe8334e07184f894ee58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 065/116] fix: empty input ended the processors with an
 uncaught exception

---
 tokeninput.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index 1a89f5e..498cb87 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -63,7 +63,9 @@ public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; getnextc(); lineno=1;}
+  {inputstream=in; outputstream=out; lineno=1;
+    try {getnextc();} catch (eof) {} /* nexttok() will report empty input */
+    lineno=1;}
 
   int line() const {return lineno;}
 
-- 
2.43.0


From f453ea7328126216ab0c19fe9e90e664c1ec5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 066/116] fix: omit pragma naming nothing ended the processor
 with an uncaught exception

---
 classdesc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index cb0b95c..ca3bf93 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1425,13 +1425,13 @@ int main(int argc, char* argv[])
 	  if (input.token.find("#pragma")==0) /* process pragmas */
 	    {
 	      if (input.token.find("#pragma omit")==0)
-		omit[rm_space(input.token.substr(strlen("#pragma omit ")))]=1;
+		omit[rm_space(input.token.substr(strlen("#pragma omit")))]=1;
 	      if (input.token.find("#pragma treenode")==0)
 		treenode[rm_space(input.token.substr(
-                                                     strlen("#pragma treenode ")))]=1;
+                                                     strlen("#pragma treenode")))]=1;
 	      if (input.token.find("#pragma graphnode")==0)
 		graphnode[rm_space(input.token.substr(
-                                                      strlen("#pragma graphnode ")))]=1;
+                                                      strlen("#pragma graphnode")))]=1;
 	      continue;
 	    }
 
-- 
2.43.0


From f487709ee4a74fe62e333d5d1ffdd02a922aa819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 067/116] fix: template parameters read beyond their end

---
 classdesc.cc     | 5 +++--
 insert-friend.cc | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index ca3bf93..22ab783 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1113,7 +1113,7 @@ string extract_targs(string targs)
 	  else if (*targsptr=='<')  /* skip over stuff between <..> */
 	    {
 	      int angle_count=1;
-	      while (angle_count)
+	      while (angle_count && *targsptr)
 		{
 		  targsptr++;
 		  if (*targsptr=='<') angle_count++;
@@ -1123,7 +1123,7 @@ string extract_targs(string targs)
 	  else if (*targsptr=='=')
 	    {
 	      for (int angle_count=0;
-		   !strchr(">,",*(targsptr)) || angle_count; targsptr++)
+		   *targsptr && (!strchr(">,",*targsptr) || angle_count); targsptr++)
 		if (*targsptr=='<') angle_count++;
 		else if (*targsptr=='>') angle_count--;
               // not sure, but inserting elipsis here might be a C++
@@ -1141,6 +1141,7 @@ string extract_targs(string targs)
           else if (*targsptr=='.')
             elipsis+=*targsptr;
 	  tok.erase();
+	  if (!*targsptr) break;    /* end of string already */
 	}
     }
   return r;
diff --git a/insert-friend.cc b/insert-friend.cc
index ed2191a..7b4dc41 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -39,10 +39,11 @@ string extract_targs(string targs)
       else  
 	{
 	  while (isspace(*targsptr)) targsptr++;/* skip any spaces */
+	  if (!*targsptr) break;    /* end of string already */
 	  if (*targsptr=='<')  /* skip over stuff between <..> */
 	    {
 	      int angle_count=1;
-	      while (angle_count)
+	      while (angle_count && *targsptr)
 		{
 		  targsptr++;
 		  if (*targsptr=='<') angle_count++;
@@ -52,7 +53,7 @@ string extract_targs(string targs)
 	  else if (*targsptr=='=') 
 	    {
 	      for (int angle_count=0; 
-		   !strchr(">,",*(targsptr)) || angle_count; targsptr++)
+		   *targsptr && (!strchr(">,",*targsptr) || angle_count); targsptr++)
 		if (*targsptr=='<') angle_count++;
 		else if (*targsptr=='>') angle_count--;
 	      r+=tok+*targsptr;
@@ -61,6 +62,7 @@ string extract_targs(string targs)
 	  else if (isalnum(*targsptr)||*targsptr=='_') 
 	    targsptr--;  /* rewind ptr so next loop starts token */
 	  tok.erase();
+	  if (!*targsptr) break;    /* end of string already */
 	}
     }
   return r;
-- 
2.43.0


From b7e5d7b95f25408a1aca8e15dc4bf6400ac84532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 068/116] fix: greater than sign in template arguments underran
 a stack

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 22ab783..58f1c69 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1190,7 +1190,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
                 templateSeen.push_back(false);
                 break;
               case '>':
-                templateSeen.pop_back();
+                if (templateSeen.size()>1) templateSeen.pop_back();
                 break;
               case ':':
                 if (*(c+1)==':' && templateSeen.back())
-- 
2.43.0


From 10db265c087b3fbfce844b67dd9dac4350e8964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 069/116] fix: repeated or partial mentions of a template
 within a signature garbled, or looped on

---
 classdesc.cc | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 58f1c69..958a804 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -300,21 +300,23 @@ void assign_class_action(tokeninput& input, string prefix,
 string replaceShornTypes(const string& input, const string& shornType, const string& fullType)
 {
   string r;
-  for (size_t i=0, j=input.find(shornType); i!=string::npos; i=j, j=input.find(shornType,i))
-    {
-      r+=input.substr(i,j);
-      if (j!=string::npos)
-        {
-          j+=shornType.size();
-          size_t k=j;
-          // check if '<' is the next non white space character
-          while (k<input.size() && isspace(input[k])) ++k;
-          if (k>=input.size() || input[k]!='<')
-            r+=fullType;
-          else
-            r+=shornType;
-        }
-    }
+  for (size_t i=0; i<input.size(); )
+    if (isIdentifierStart(input[i]))
+      {
+        size_t j=i;
+        while (j<input.size() && isIdentifierChar(input[j])) ++j;
+        size_t k=j;
+        // check if '<' is the next non white space character
+        while (k<input.size() && isspace(input[k])) ++k;
+        string name=input.substr(i,j-i);
+        if (name==shornType && (k>=input.size() || input[k]!='<'))
+          r+=fullType;
+        else
+          r+=name;
+        i=j;
+      }
+    else
+      r+=input[i++];
   return r;
 }
 
-- 
2.43.0


From 7e97480a1f23f6b813aa6a32b374cfd1e0e13115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 070/116] fix: enumerators of like named enums in different
 namespaces were mixed up

---
 classdesc.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 958a804..10e1ae5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -276,7 +276,8 @@ void assign_enum_action(tokeninput& input, string prefix)
       for (input.nexttok(); input.token!="}"; )
         {
           if (isIdentifierStart(input.token[0]))
-            enum_keys[enumname].push_back(input.token);
+            // the same name may be used in several namespaces
+            enum_keys[namespace_name+enumname].push_back(input.token);
           while (input.token!="=" && input.token!="," && input.token!="}")
             input.nexttok();
           skip_initializer(input); //skip value
@@ -1616,7 +1617,7 @@ int main(int argc, char* argv[])
             /* For enums, print out a value name table */
             if (leadeq(actions[i].type,"enum")) 
               {
-                vector<string>& keys=enum_keys[actions[i].type];
+                vector<string>& keys=enum_keys[actions[i].namespace_name+"::"+actions[i].type];
                 {
                   PrintNameSpace anon(" ");
                   if (keys.size())
-- 
2.43.0


From 3c77457fe4c0a164569b6eef15e4654182f0f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 071/116] fix: EnumKeys::has did not compile for scoped enums

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index a58c569..1d52a0a 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -796,7 +796,7 @@ namespace classdesc
     }
     std::string operator()(T val) const {return operator()(int(val));}
 
-    bool has(T val) const {return v2s.count(val);}
+    bool has(T val) const {return v2s.count(int(val));}
     bool has(const std::string& s) const {return s2v.count(s);}
     
     // use these to iterate of the enum's keys
-- 
2.43.0


From a1330b86f2a5e819fcf064f84ce6344ab493c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 072/116] fix: MultiArrays of rank greater than two used the
 wrong stride below their first index, or did not compile

---
 multiArray.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/multiArray.h b/multiArray.h
index 0feacac..1def7c1 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -9,6 +9,9 @@
 #ifndef CLASSDESC_MULTIARRAY_H
 #define CLASSDESC_MULTIARRAY_H
 #include <assert.h>
+#include <stddef.h>
+#include <algorithm>
+#include <iterator>
 
 namespace classdesc
 {
@@ -75,8 +78,11 @@ namespace classdesc
     /// @param a_dim must be of length Rank
     MultiArray(T* data, const size_t a_dim[]): m_data(data)
     {
-      memcpy(dim, a_dim, sizeof(dim));
+      std::copy(a_dim, a_dim+Rank, dim);
+      for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
     }
+    MultiArray(T* data, size_t a_dim[]):
+      MultiArray(data, static_cast<const size_t*>(a_dim)) {}
     
     size_t size() const {return dim[Rank-1];}
     size_t stride() const {return m_stride;}
-- 
2.43.0


From fad3ab88969db099c67e300a85edb7e18a9f8119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 073/116] fix: MultiArray with an outermost extent of zero
 divided by zero

---
 multiArray.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index 1def7c1..6e6134a 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -35,16 +35,15 @@ namespace classdesc
 #if defined(__cplusplus) && __cplusplus>=201703L
     void constructDim(size_t& d, size_t dd)
     {
+      // the outermost dimension does not contribute to the stride
+      if (d<Rank-1) m_stride*=dd;
       dim[d++]=dd;
-      m_stride*=dd;
     }
     template <class... Args>
     void constructDims(size_t d, Args... args)
     {
       m_stride=1;
       (constructDim(d,args),...);
-      // fold expression multiplies m_stride by one too many dimensions
-      if (d>0) m_stride/=dim[d-1];
     }
 #else
 
-- 
2.43.0


From 57419e80476e0bf0630dfadf21512873065bb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 074/116] fix: iterators of MultiArrays of standard library
 types did not compile

---
 multiArray.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index 6e6134a..d446996 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -109,13 +109,14 @@ namespace classdesc
       size_t stride;
       iterator(const MultiArray& array): array(array.m_data,array.dim),
                                          stride(array.stride()) {}
-      iterator operator++() {advance(array,stride); return *this;}
+      // qualified, as std::advance may match as well
+      iterator operator++() {classdesc::advance(array,stride); return *this;}
       iterator operator++(int)
-      {auto tmp=*this; advance(array,stride); return tmp;}
-      iterator operator--() {advance(array,-stride); return *this;}
+      {auto tmp=*this; classdesc::advance(array,stride); return tmp;}
+      iterator operator--() {classdesc::advance(array,-stride); return *this;}
       iterator operator--(int)
-      {auto tmp=*this; advance(array,-stride); return tmp;}
-      iterator operator+=(size_t i) {advance(array,i*stride); return *this;}
+      {auto tmp=*this; classdesc::advance(array,-stride); return tmp;}
+      iterator operator+=(size_t i) {classdesc::advance(array,i*stride); return *this;}
       MultiArray<T,Rank-1>& operator*() {return array;}
       bool operator==(const iterator& x) const {return array.same(x.array);} 
       bool operator!=(const iterator& x) const {return !operator==(x);} 
-- 
2.43.0


From e30ae4902b621715a125d0d8718d46a6d49d30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 075/116] fix: char arrays of constant objects were packed in
 another format

---
 pack_base.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 23ac7e8..a211b7a 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -706,6 +706,16 @@ namespace classdesc
     targ.packraw(&arg,ncopies);
   }
 
+  inline void pack(pack_t& targ, const string&, is_array, 
+                   const char &arg,int dims,size_t ncopies,...)
+  {
+    va_list ap;
+    va_start(ap,ncopies);
+    for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int);
+    va_end(ap);
+    targ.packraw(&arg,ncopies);
+  }
+
   inline void unpack(unpack_t& targ, const string&, is_array, 
                      char &arg,int dims,size_t ncopies,...)
   {
-- 
2.43.0


From 1e7c6eea22ae5ee9fcaf1ef5ec81a21d3a56b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 076/116] fix: assigning to an excluded pointer dereferenced it

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index 1d52a0a..8e72aee 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1075,7 +1075,7 @@ namespace classdesc
     bool operator==(const Exclude<T*>& x) const {return val==x.val;}
     template <class U> bool operator!=(U x) const {return !operator==(x);}
     template <class U> explicit Exclude(const U& x): val(x) {}  
-    template <class U> const T& operator=(U x) {return *(val=x);} 
+    template <class U> T* const& operator=(U x) {return val=x;} 
     template <class U> operator U() const {return val;}         
     T& operator*() const {return *val;}
     T* operator->() const {return val;} 
-- 
2.43.0


From f767ca630730a7b2db52e71dc4d47521a92fa53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 077/116] fix: the remainder operators of Exclude did not
 compile

---
 classdesc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index 8e72aee..c491666 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1022,6 +1022,10 @@ namespace classdesc
     
   };
 
+  template <class T, class U> T mod(T x, U y) {return x%y;}
+  template <class U> float mod(float x, U y) {return std::fmod(x,y);}
+  template <class U> double mod(double x, U y) {return std::fmod(x,y);}
+
   template <class T>
   struct ExcludeFundamental
   {                           
@@ -1101,10 +1105,6 @@ namespace classdesc
   std::ptrdiff_t operator-(T* x, const Exclude<T*> y)
   {return x-static_cast<T*>(y);}
 
-  template <class T, class U> T mod(T x, U y) {return x%y;}
-  template <class U> float mod(float x, U y) {return std::fmod(x,y);}
-  template <class U> double mod(double x, U y) {return std::fmod(x,y);}
-
 
   // handle fundamental types
   template <>
-- 
2.43.0


From 1f7d6273bcff1c502841ab4dc3e57fa438b29a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 078/116] fix: the default source of random numbers could
 return one

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index e7830e9..f67da99 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -21,7 +21,7 @@ namespace classdesc
   {
   public:
     /// return a uniform random number in [0..1)
-    virtual double rand() {return double(std::rand())/RAND_MAX;}
+    virtual double rand() {return std::rand()/(RAND_MAX+1.0);}
     virtual ~random_init_t() {}
   };
 
-- 
2.43.0


From 977b3edeab5c0585620e1d236b07f4f2013e17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 079/116] fix: random_init of associative containers left the
 keys unset, and never removed elements

---
 random_init_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index f67da99..b8e8087 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -132,10 +132,13 @@ namespace classdesc
   enable_if<is_associative_container<T>, void>::T
   random_initp(random_init_t& r, const string& d, T& a, dummy<1> dum=0)
   {
+    a.clear();
     int numElem=int(10*r.rand());
     for (int i=0; i<numElem; ++i)
       {
-        typename T::value_type v;
+        // keys of maps are constant within value_type
+        typename NonConstKeyValueType<typename T::value_type>::T v=
+          typename NonConstKeyValueType<typename T::value_type>::T();
         random_init(r,d,v);
         a.insert(v);
       }
-- 
2.43.0


From 184f49e5ef15b9b1133668f47f624618a3ea0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 080/116] fix: random_init of unique_ptr did not compile

---
 random_init_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_epilogue.h b/random_init_epilogue.h
index b70691c..c405c4e 100644
--- a/random_init_epilogue.h
+++ b/random_init_epilogue.h
@@ -71,7 +71,7 @@ namespace classdesc_access
   {
     void operator()(cd::random_init_t& x, const cd::string& d, 
                     std::unique_ptr<T,D>& a)
-    {json_pack_smart_ptr(x,d,a);}
+    {random_init_smart_ptr(x,d,a);}
   };
 
 #endif
-- 
2.43.0


From b1cec3a1a5b33635e06ea0b7c16263d2296a3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 081/116] fix: random_init did not initialise arrays

---
 random_init_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/random_init_base.h b/random_init_base.h
index b8e8087..7a94127 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -84,13 +84,13 @@ namespace classdesc
 
   // array handling
   template <class T>
-  void random_init(random_init_t& r, const string& d, is_array ia, const T& a, 
+  void random_init(random_init_t& r, const string& d, is_array ia, T& a, 
             int ndims,size_t ncopies,...)
   {
     std::va_list ap;
     va_start(ap,ncopies);
     size_t cnt=ncopies;
-    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,size_t);
+    for (int i=1; i<ndims; ++i) cnt*=va_arg(ap,int);
     va_end(ap);
     for (size_t i=0; i<cnt; ++i)
       random_init(r,d,(&a)[i]);
-- 
2.43.0


From 1a486dd9afb7fda3e7ae4eaf5b51dc349eff5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 082/116] fix: typeName of a class template did not give the
 values of non-type arguments, nor the arguments of a partial specialisation

---
 classdesc.cc | 131 +++++++++++++++++++++++++++++++++------------------
 classdesc.h  |  13 +++++
 2 files changed, 98 insertions(+), 46 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 10e1ae5..82cc689 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -77,6 +77,90 @@ struct act_pair
 
 typedef vector<act_pair> actionlist_t;
 
+// characters of an identifier are not enough to find it in an expression: it must stand on its own
+bool mentions(const string& expr, const string& identifier)
+{
+  for (size_t i=expr.find(identifier); i!=string::npos; i=expr.find(identifier,i+1))
+    if ((i==0 || !isIdentifierChar(expr[i-1])) &&
+        (i+identifier.size()==expr.size() || !isIdentifierChar(expr[i+identifier.size()])))
+      return true;
+  return false;
+}
+
+// split a comma separated list enclosed in <> into its elements
+vector<string> templateList(const string& x)
+{
+  vector<string> r;
+  string item;
+  int depth=0;
+  size_t start=x.find('<'), end=x.rfind('>');
+  if (start==string::npos || end==string::npos) return r;
+  for (size_t i=start+1; i<=end; ++i)
+    {
+      if (i==end || (x[i]==',' && depth==0))
+        {
+          size_t a=item.find_first_not_of(" \t\n"), b=item.find_last_not_of(" \t\n");
+          if (a!=string::npos) r.push_back(item.substr(a,b-a+1));
+          item.clear();
+          continue;
+        }
+      if (strchr("<([",x[i])) ++depth;
+      if (strchr(">)]",x[i])) --depth;
+      item+=x[i];
+    }
+  return r;
+}
+
+// the C++ string expression (without enclosing quotes) naming the
+// template arguments of type, given the template parameters templ
+string tnArguments(const string& type, const string& templ)
+{
+  // TODO: handle template template parameters properly. For now,
+  // ignore the problem in a syntactically valid way
+  if (templ.find("template")!=string::npos)
+    return templ;
+  vector<string> types, values;
+  vector<string> params=templateList(templ), args=templateList(type);
+  for (size_t i=0; i<params.size(); ++i)
+    {
+      size_t j=params[i].size();
+      while (j>0 && isIdentifierChar(params[i][j-1])) --j;
+      if (j==params[i].size()) continue;
+      string::size_type k=0;
+      while (k<params[i].size() && isIdentifierChar(params[i][k])) ++k;
+      bool isType=params[i].substr(0,k)=="class" || params[i].substr(0,k)=="typename";
+      (isType? types: values).push_back(params[i].substr(j));
+    }
+  string r;
+  for (size_t i=0; i<args.size(); ++i)
+    {
+      string a=args[i];
+      bool variadic=a.size()>3 && a.substr(a.size()-3)=="...", hasType=false, isValue=false;
+      for (size_t j=0; j<types.size(); ++j)
+        hasType|=mentions(a,types[j]);
+      for (size_t j=0; j<values.size(); ++j)
+        {
+          isValue|=a==values[j];
+          hasType|=a!=values[j] && mentions(a,values[j]);
+        }
+      // the arguments of a parameter pack may be empty
+      if (i>0 && variadic)
+        r+="\"+std::string(sizeof...("+a.substr(0,a.size()-3)+")? \" , \": \"\")+\"";
+      else
+        r+=i? " , ": "< ";
+      if (isValue)
+        r+="\"+tnValue("+a+")+\"";
+      else if (hasType)
+        {
+          string space=a[0]==':' || a[a.size()-1]=='>'? " ": ""; // "<:" and ">>" are tokens
+          r+=(variadic? "\"+varTn<": "\"+typeName<")+space+a+space+">()+\"";
+        }
+      else
+        r+=a;
+    }
+  return r.empty()? r: r+" > ";
+}
+
 struct action_t
 {
   string type, templ, tnTempl, namespace_name;
@@ -86,52 +170,7 @@ struct action_t
     type=t; actionlist=a; templ=te; namespace_name=ns;
     string::size_type p=namespace_name.rfind("::");
     namespace_name.erase( p==string::npos? 0:p, string::npos);
-    // TODO: handle template template parameters properly. For now,
-    // ignore the problem in a syntactically valid way
-    if (templ.find("template")!=string::npos)
-      tnTempl=templ;
-    else
-      // extract template typename parameters from templ, and replace with typename calls
-      for (size_t i=0; i<templ.size(); )
-        {
-          // pick first of class or template
-          size_t j=templ.find("class",i);
-          if (j==string::npos) j=templ.size();
-          size_t jj=templ.find("typename",i);
-          if (jj!=string::npos && jj<j)
-            j=jj;
-          tnTempl+=te.substr(i,j-i);
-        
-          j=templ.find_first_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          j=templ.find_first_not_of(" \t",j);
-          bool variadic=templ.substr(j,3)=="...";
-          j=templ.find_first_not_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          int braces=0;
-          // grab out full type name
-          for (i=j; i<templ.size(); ++i)
-            {
-              switch(templ[i])
-                {
-                case '<':
-                  ++braces; continue;
-                case '>':
-                  if (--braces==0) break;
-                  continue;
-                default:
-                  if (isalnum(templ[i]) || templ[i]=='_' || braces>0)
-                    continue;
-                  else
-                    break;
-                }
-              break;
-            }
-          if (variadic)
-            tnTempl+="\"+varTn<"+templ.substr(j,i-j)+"...>()+\"";
-          else
-            tnTempl+="\"+typeName<"+templ.substr(j,i-j)+">()+\"";
-        }
+    tnTempl=tnArguments(type,templ);
   }
 };
 
diff --git a/classdesc.h b/classdesc.h
index c491666..e7ba4cf 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -579,6 +579,19 @@ namespace classdesc
     And<Not<is_function<T> >, Not<is_member_function_pointer<T> > >,
     std::string>::T  typeName();
 
+  /// value of a non-type template argument
+  template <class T> typename enable_if<Or<is_integral<T>, is_enum<T> >, std::string>::T
+  tnValue(T x) {
+    std::ostringstream os;
+    if (is_unsigned<T>::value)
+      os<<(unsigned long)x;
+    else
+      os<<(long)x;
+    return os.str();
+  }
+  template <class T> typename enable_if<Not<Or<is_integral<T>, is_enum<T> > >, std::string>::T
+  tnValue(T) {return "<value>";}
+
 #if defined(__cplusplus) && __cplusplus>=201103L
   // handle variadic arguments
   template <class T, class... A> std::string varTn() {return typeName<T>()+","+varTn<A...>();}
-- 
2.43.0


From 50993ae74c6c37d8b7fd9ba3fe64159d26bceaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 083/116] fix: typeName of a constant pointer was that of a
 pointer to constant

---
 typeName_epilogue.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/typeName_epilogue.h b/typeName_epilogue.h
index d5768a9..ff18660 100644
--- a/typeName_epilogue.h
+++ b/typeName_epilogue.h
@@ -38,15 +38,20 @@ namespace classdesc
   template <class T> typename
   enable_if<
     And<
-      And<Not<is_const<T> >,Not<is_integral<T> > >,
+      And<Or<Not<is_const<T> >,is_Carray<T> >,Not<is_integral<T> > >,
       Not<is_function<T> >
       >,std::string>::T
   typeNamep() {return tn<T>::name();}
 
   template <class T> typename
-  enable_if<is_const<T>,std::string>::T
+  enable_if<And<is_const<T>,Not<Or<is_pointer<T>,is_Carray<T> > > >,std::string>::T
   typeNamep() {return "const "+typeName<typename remove_const<T>::type>();}
 
+  // a constant pointer is not a pointer to a constant
+  template <class T> typename
+  enable_if<And<is_const<T>,is_pointer<T> >,std::string>::T
+  typeNamep() {return typeName<typename remove_const<T>::type>()+" const";}
+
   template <class T>
   typename enable_if<And<Not<is_function<T> >,Not<is_member_function_pointer<T> > >,  std::string>::T
   typeName() {return typeNamep<T>();}
-- 
2.43.0


From 477becb889d46f6fa9e2bb3d58c44e62585cf063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 084/116] fix: typeName of a multidimensional array listed the
 extents backwards

---
 classdesc.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/classdesc.h b/classdesc.h
index e7ba4cf..c20c332 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -970,6 +970,20 @@ namespace classdesc
     }
   };
 
+  // arrays of arrays: the first extent is written first
+  template <class T,int n,int m> struct tn<T [n][m]>
+  {
+    static std::string name()
+    {
+      std::ostringstream os;
+      os<<"["<<n<<"]";
+      std::string element=typeName<T[m]>();
+      std::string::size_type i=element.size();
+      while (i>0 && element[i-1]==']') i=element.rfind('[',i-1);
+      return element.insert(i,os.str());
+    }
+  };
+
   
   /** support for constant sized arrays  */
   class is_array {};
-- 
2.43.0


From 49e21ea53848c3f9de0fc2531fa8d840b326a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 085/116] fix: typeName of std::auto_ptr lacked its namespace

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index c20c332..2a79738 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -673,7 +673,7 @@ namespace classdesc
   template <class T> struct tn<std::auto_ptr<T> >
   {
     static std::string name()
-    {return "auto_ptr<"+typeName<T>()+">";}
+    {return "std::auto_ptr<"+typeName<T>()+">";}
   };
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
 #pragma GCC diagnostic pop
-- 
2.43.0


From acb8cc2259fbc95a8bfb16a087faa66d0ccf7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 086/116] fix: typeName of wchar_t and char8_t was that of an
 integer type

---
 classdesc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classdesc.h b/classdesc.h
index 2a79738..be72e1e 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -602,6 +602,7 @@ namespace classdesc
   template <> inline std::string typeName<void>()    {return "void";}
   template <> inline std::string typeName<bool>()    {return "bool";}
   template <> inline std::string typeName<char>()    {return "char";}
+  template <> inline std::string typeName<wchar_t>() {return "wchar_t";}
   template <> inline std::string typeName<short>() {return "short";}
   template <> inline std::string typeName<int>()   {return "int";}
   template <> inline std::string typeName<long>()  {return "long";}
@@ -631,6 +632,9 @@ namespace classdesc
   template <> inline std::string typeName<char16_t>()    {return "char16_t";}
   template <> inline std::string typeName<char32_t>()    {return "char32_t";}
 #endif
+#ifdef __cpp_char8_t
+  template <> inline std::string typeName<char8_t>()    {return "char8_t";}
+#endif
 
   template <class F>
   typename enable_if<is_function<F>,string>::T
-- 
2.43.0


From a8dc1ee439ee91d33c3d2582ee18a2899afbae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 087/116] fix: typeName of an instance of a variadic class
 template did not compile

---
 classdesc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index be72e1e..ee8dc3d 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -594,8 +594,9 @@ namespace classdesc
 
 #if defined(__cplusplus) && __cplusplus>=201103L
   // handle variadic arguments
-  template <class T, class... A> std::string varTn() {return typeName<T>()+","+varTn<A...>();}
+  template <class... A> typename enable_if<std::integral_constant<bool,sizeof...(A)==0>,std::string>::T varTn() {return "";}
   template <class T> std::string varTn() {return typeName<T>();}
+  template <class T, class U, class... A> std::string varTn() {return typeName<T>()+","+varTn<U,A...>();}
 #endif
   
   ///@{ a string representation of the type
-- 
2.43.0


From 1b35065696db4bc47f0a10a892c2797a15ba7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 088/116] fix: predicates of noexcept functions and methods
 were false in C++17

---
 function.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/function.h b/function.h
index ca65ee2..18b091d 100644
--- a/function.h
+++ b/function.h
@@ -233,6 +233,10 @@ namespace classdesc
     {
       typedef FunctionalHelper<R,Args...> T;
     };
+    template <class R, class C, class... Args> struct FunctionalHelperFor<R(*C::*)(Args...) noexcept>
+    {
+      typedef FunctionalHelper<R,Args...> T;
+    };
 #endif
    /// member object pointers
     template <class R, class C> struct FunctionalHelperFor<R(C::*)>
@@ -325,6 +329,39 @@ namespace classdesc
       static const bool value=true;
     };
 
+#if defined(__cplusplus) && __cplusplus>=201703L    
+    // noexcept is part of the type
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_const_method<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+#endif
+
     // true if C is non const, or M is a const member function or static
     template <class C, class M>
     struct ConstCorrect: public
-- 
2.43.0


From bfbdc7415b49c0e398c0cab4704621697a83a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 089/116] fix: Arity of a curried function could not be used

---
 function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function.h b/function.h
index 18b091d..c1051f0 100644
--- a/function.h
+++ b/function.h
@@ -552,8 +552,8 @@ namespace classdesc
     template <class F, class R, class A>
     struct Arity<CurryFirst<F,R,A> >
     {
-      const int V=Arity<F>::V-1;
-      const int value=V;
+      static const size_t V=Arity<F>::V-1;
+      static const size_t value=V;
     };
 
     
-- 
2.43.0


From b42b9ea6f029a214c9e9784c3dff9033ae54d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 090/116] fix: AllArgs of a curried function looked at the
 bound argument, and that of a user defined functional object did not compile

---
 function.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/function.h b/function.h
index c1051f0..7b44c84 100644
--- a/function.h
+++ b/function.h
@@ -425,12 +425,17 @@ namespace classdesc
       typedef typename FunctionalHelperFor<F>::T T;
     };
 
-    template <class F, template<class> class P, int N> /*N not actually used anywhere...*/
+    /// only Arity and Arg are needed of functional objects
+    template <class F, template<class> class P, int N>
     struct AllArgs
     {
-      typedef typename FunctionalHelperFor<F>::T Helper;
-      typedef typename Helper::template AllArgs<P>::T AllArgsHelper;
-      static const bool value=AllArgsHelper::value;
+      static const bool value=P<typename Arg<F,N>::T>::value && AllArgs<F,P,N-1>::value;
+    };
+
+    template <class F, template<class> class P>
+    struct AllArgs<F,P,0>
+    {
+      static const bool value=true;
     };
     
     template <class F, class ArgVector, size_t N=Arity<F>::value>
-- 
2.43.0


From f1364a5cb429c2edf8778c813b28f36c048bbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 091/116] fix: a curried function moved its bound argument away
 in the first call

---
 function.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/function.h b/function.h
index 7b44c84..49dd6d5 100644
--- a/function.h
+++ b/function.h
@@ -562,6 +562,12 @@ namespace classdesc
     };
 
     
+    // how to pass the bound argument: the function may be called
+    // again, so it is only moved from if it cannot be copied
+    template <class A, class Enable=void> struct CurriedArg {typedef A&& T;};
+    template <class A>
+    struct CurriedArg<A, typename enable_if<And<Not<is_reference<A>>,is_copy_constructible<A>>,void>::T> {typedef const A& T;};
+
     template <class F, class R, class A>
     class CurryFirst
     {
@@ -571,7 +577,7 @@ namespace classdesc
       CurryFirst(F f, A& a): f(f), a(a) {}
       template <class... Args>
       R operator()(Args... args) {
-        return f(std::forward<A>(a),std::forward<Args>(args)...);
+        return f(static_cast<typename CurriedArg<A>::T>(a),std::forward<Args>(args)...);
       }
     };
 
@@ -584,7 +590,7 @@ namespace classdesc
       CurryFirst(F f, A& a): f(f), a(a) {}
       template <class... Args>
       void operator()(Args... args) {
-        f(std::forward<A>(a),std::forward<Args>(args)...);
+        f(static_cast<typename CurriedArg<A>::T>(a),std::forward<Args>(args)...);
       }
     };
 
-- 
2.43.0


From 0a21270563ea4574c58a0bcaaddcfaaa800dadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 092/116] fix: insert-friend inserted its declaration one
 character too late, splitting identifiers

---
 tokeninput.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 498cb87..de99ec9 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -25,8 +25,20 @@ class tokeninput
   FILE* outputstream;
   int c;
   int lineno;
+  int pending; // character read, but not yet copied to outputstream
+
+  /* copy the character read ahead, so that outputstream keeps up with
+     the current token, and not beyond it */
+  void echo()
+  {
+    if (outputstream && pending!=EOF) 
+      fputc(pending,outputstream);
+    pending=EOF;
+  }
+
   char getnextc() 
   {
+    echo();
     c=fgetc(inputstream); 
     switch (c)
       {
@@ -55,15 +67,14 @@ class tokeninput
         throw eof();
         break;
       }
-    if (outputstream &&!feof(inputstream)) 
-      fputc(c,outputstream); 
+    if (!feof(inputstream)) pending=c;
     return c;
   }
 public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; lineno=1;
+  {inputstream=in; outputstream=out; lineno=1; pending=EOF;
     try {getnextc();} catch (eof) {} /* nexttok() will report empty input */
     lineno=1;}
 
-- 
2.43.0


From 2e05fcbc50861dd9d3c57efbfaca1d160849b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 093/116] fix: insert-friend emitted undeclared macros and
 types for templates, broke scoped enums and local classes, and missed nested
 and final classes

---
 insert-friend.cc | 250 +++++++++++++++++++----------------------------
 1 file changed, 102 insertions(+), 148 deletions(-)

diff --git a/insert-friend.cc b/insert-friend.cc
index 7b4dc41..a5c77f5 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -23,176 +23,130 @@ friend void pack(pack_t *,eco_string,type&);
 using namespace std;
 #include "tokeninput.h"
 
-/* mapping of template arguments as how insert-friend sees them, to
-   how they should really be */
-hash_map<string,string> targ_map;
-
-/* create list of arguments used in a template */
-string extract_targs(string targs)
+/* skip a balanced group, given that left is the current token. right
+   is the current token on return */
+void skip(tokeninput& input, const char *left, const char *right)
 {
-  if (targs.empty()) return targs; /* nothing to do */
-  string r="<", tok;
-  const char *targsptr=targs.c_str()+1;
-  for (; *targsptr; targsptr++)
+  for (int depth=1; depth>0; )
     {
-      if (isalnum(*targsptr)||*targsptr=='_') tok+=*targsptr;
-      else  
-	{
-	  while (isspace(*targsptr)) targsptr++;/* skip any spaces */
-	  if (!*targsptr) break;    /* end of string already */
-	  if (*targsptr=='<')  /* skip over stuff between <..> */
-	    {
-	      int angle_count=1;
-	      while (angle_count && *targsptr)
-		{
-		  targsptr++;
-		  if (*targsptr=='<') angle_count++;
-		  else if (*targsptr=='>') angle_count--;
-		}
-	    }
-	  else if (*targsptr=='=') 
-	    {
-	      for (int angle_count=0; 
-		   *targsptr && (!strchr(">,",*targsptr) || angle_count); targsptr++)
-		if (*targsptr=='<') angle_count++;
-		else if (*targsptr=='>') angle_count--;
-	      r+=tok+*targsptr;
-	    }
-	  else if (strchr(">,",*targsptr))  r+=tok+*targsptr;
-	  else if (isalnum(*targsptr)||*targsptr=='_') 
-	    targsptr--;  /* rewind ptr so next loop starts token */
-	  tok.erase();
-	  if (!*targsptr) break;    /* end of string already */
-	}
+      input.nexttok();
+      if (input.token==left) depth++;
+      if (input.token==right) depth--;
     }
-  return r;
 }
 
-void deal_with_commas(string& classname)
+void insert_access(const string& classname, bool templ)
 {
-  if (classname.find(',')!=classname.npos) 
-    {       // must deal with typenames containing ','
-      static int cnt=0;
-      char tname[20];
-      sprintf(tname,"___ecotif%-10d",cnt++);
-      printf("typedef %s %s;\n",classname.c_str(),tname);
-      classname=tname;
-    }
+  /* the name of a template refers to the instance within its definition */
+  printf("\nCLASSDESC_ACCESS%s(%s);\n",templ? "_TEMPLATE": "",classname.c_str());
 }
 
-void insert_friend(tokeninput& input, string prefix, string targs, 
-		   int is_struct)
+void class_definition(tokeninput& input, bool templ);
+
+/* process the contents of a class, namespace or file, up to the
+   closing brace. If classname is not empty, an access declaration is
+   inserted ahead of its first private or protected member */
+void process(tokeninput& input, const string& classname, bool is_struct, bool templ_class)
 {
-  string classname = prefix + input.token;
-  input.nexttok();
-  if (input.token=="<") /* template specialisation */
-    classname += get_template_args(input);
-  if (strchr(":{",input.token[0]))
+  bool needed=!classname.empty();
+  if (needed && !is_struct)
+    {
+      insert_access(classname,templ_class);
+      needed=false;
+    }
+  for (input.nexttok(); input.token!="}"; )
     {
-      for (;input.token!="{"; input.nexttok() );
+      bool templ=false;
+      if (input.token=="template")
+        {
+          input.nexttok();
+          if (input.token=="<") /* otherwise explicit instantiation */
+            {
+              get_template_args(input);
+              templ=true;
+            }
+          if (input.token!="class" && input.token!="struct") continue;
+        }
+      if (input.token=="enum")
+        {
+          input.nexttok();
+          if (input.token!="class" && input.token!="struct") continue;
+        }
+      else if ((input.token=="class" || input.token=="struct") &&
+               input.lasttoken!="friend") 
+        {
+          class_definition(input,templ);
+          continue;
+        }
+      else if (input.token=="namespace")
+        {
+          while (!strchr("{;",input.token[0])) input.nexttok();
+          if (input.token=="{") process(input,"",false,false);
+        }
+      else if (input.token=="{")
+        {
+          if (input.lasttoken[0]=='"' && input.tokenBeforeLast=="extern")
+            process(input,"",false,false);
+          else /* function body, initialiser or enumerators */
+            skip(input,"{","}");
+        }
       /* structs are complicated by the possibility of protected and
          private members - if none, then no friend statement is
          necessary */
-      if (is_struct)
-	{	
-	  int numbraces=0;
-	  for (input.nexttok(); 
-	       input.token!="}" || numbraces>0; 
-	       input.nexttok() )
-	    {
-	      if (input.token=="{") numbraces++; 
-	      if (input.token=="}") numbraces--;
-	      if (input.token==":" && 
-		  (input.lasttoken=="protected" || input.lasttoken=="private"))
-		goto really_insert_friend;
-	    }
-	  return;   
-	  /* struct has no protected or private members, nothing to do */
-	}
-
-    really_insert_friend:
-      puts("");
-      /* check if typename is mapped to something else */
-      if (targ_map.count(classname)) classname=targ_map[classname];
-      deal_with_commas(classname);
-      if (targs=="")
-	printf("CLASSDESC_ACCESS(%s);\n",classname.c_str());
-      else
-	printf("CLASSDESC_ACCESS_TEMPLATE(%s);\n",classname.c_str());
-      /* emit a CLASSDESC_FDEF to handle g++'s requirements */
-      if (targs.size())
-	{
-	  /* advance to end of class definition */
-	  if (input.token!="}") gobble_delimited(input,"{","}");
-	  printf("\n#define CLASSDESC_TDEC template%s\n",targs.c_str());
-	  if (classname.find('<')==classname.npos) 
-	    classname += extract_targs(targs);
-	  deal_with_commas(classname);
-	  printf("CLASSDESC_FDEF(%s);\n",classname.c_str());
-	}
+      else if (needed && input.token==":" && 
+               (input.lasttoken=="protected" || input.lasttoken=="private"))
+        {
+          insert_access(classname,templ_class);
+          needed=false;
+        }
+      input.nexttok();
     }
 }
 
-
-int main(int argc, char* argv[])
+/* process something that starts with class or struct, up to the
+   closing brace if it is a definition. */
+void class_definition(tokeninput& input, bool templ)
 {
-  
-  tokeninput input(stdin,stdout);
-
-  string targs;
-
-  while (argc>1 && argv[1][0]=='-')  /* process options */
+  bool is_struct=input.token=="struct";
+  string classname;
+  for (input.nexttok();;)
+    {
+      if (input.token=="alignas" || input.token=="__attribute__" || input.token=="__declspec")
+        {
+          input.nexttok();
+          if (input.token=="(") skip(input,"(",")");
+          input.nexttok();
+        }
+      else if (isalpha(input.token[0]) && (classname.empty() || input.lasttoken=="::"))
+        {
+          classname=input.token;
+          input.nexttok();
+        }
+      else if (input.token=="::" || input.token=="final")
+        input.nexttok();
+      else if (input.token=="<") /* template specialisation */
+        get_template_args(input);
+      else
+        break;
+    }
+  if (input.token==":")
+    for (; !strchr("{;",input.token[0]); input.nexttok())
+      if (input.token=="protected" || input.token=="private")
+        is_struct=false; /* inaccessible base class */
+  if (input.token=="{")
     {
-//      if (strcmp(argv[1],"-targ_map")==0)  /* read in targ map */
-//	{
-//	  ifstream targmapfile(argv[2]);
-//	  string guessed_type, real_type;
-//	  while (targmapfile>>guessed_type>>real_type)
-//	    targ_map[guessed_type]=real_type;	
-//	  argc-=2; argv+=2;
-//	}
+      process(input,classname,is_struct,templ);
+      input.nexttok();
     }
-  
+}
+
 
+int main()
+{
+  tokeninput input(stdin,stdout);
   try
     {
-      for (;;)
-	{
-	  if (input.token=="template")
-	    {
-	      input.nexttok();
-	      if (input.token!="<") /* g++'s explicit instantiation syntax */
-		{ /* we must parse until end of declaration */
-		  for (int nbraces=0; nbraces>0 || input.token!=";"; 
-		       input.nexttok())
-		    {
-		      if (input.token=="{") nbraces++;
-		      if (input.token=="}") nbraces--;
-		    }
-		  continue;
-		}
-	      targs=get_template_args(input);
-	      
-	      if (input.token!="class" && input.token!="struct") 
-		{
-		  targs.erase();  /* not a template class */
-		  continue;
-		}
-	    }
- 	  if ((input.token=="class" || input.token=="struct") &&
-	      input.lasttoken!="friend") 
-	    {
-	      input.nexttok();
-#if (defined(__osf__) && !defined(__GNUC__))
-	      /* handle a rogue wave hack for Windoze support - aarrgh! */
-	      if (input.token.substr(0,12)=="_RWSTDExport") input.nexttok();
-#endif
-	      if (isalpha(input.token[0]))  /* named class */
-		insert_friend(input,"",targs,input.lasttoken=="struct");
-	      targs.erase();
-	    }
-	  input.nexttok();
-	}
+      for (;;) process(input,"",false,false);
     }
 
   catch(tokeninput::eof) {}
-- 
2.43.0


From 95e25afab4b096adb4362666ec187aa594751fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 094/116] fix: StringKeyMap was streamed to and from XML as an
 ordinary map

---
 classdesc.h             |  1 +
 stringKeyMap_epilogue.h | 14 +++++---------
 xml_pack_base.h         |  2 +-
 xml_pack_epilogue.h     |  2 +-
 xml_unpack_base.h       | 12 +++++++++++-
 5 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index ee8dc3d..813a439 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -362,6 +362,7 @@ namespace classdesc
 
   /// true_type if T is a StringKeyMap
   template <class T> struct is_stringKeyMap: public false_type {};
+  template <class T> struct is_stringKeyMap<const T>: public is_stringKeyMap<T> {};
 
   /// true_type if T is a std::pair
   template <class T> struct is_pair: public false_type {};
diff --git a/stringKeyMap_epilogue.h b/stringKeyMap_epilogue.h
index 620cf0d..d3c6209 100644
--- a/stringKeyMap_epilogue.h
+++ b/stringKeyMap_epilogue.h
@@ -121,7 +121,6 @@ namespace classdesc_access
     template <class U>
     void operator()(cd::xml_pack_t& x,const cd::string& d,U& arg)
     {
-      cd::xml_pack_t::Tag tag(x,d); 
       for (typename cd::StringKeyMap<T>::const_iterator i=arg.begin(); 
            i!=arg.end(); ++i)
         ::xml_pack(x,d+"."+i->first,i->second);
@@ -134,14 +133,11 @@ namespace classdesc_access
     template <class U>
     void operator()(cd::xml_unpack_t& x,const cd::string& d,U& arg)
     {
-      for (cd::xml_unpack_t::ContentMap::const_iterator i=x.firstToken(d);
-           i!=x.endToken(d); ++i)
-        {
-          std::string key=i->first;
-          size_t p=i->first.rfind('.');
-          if (p!=std::string::npos) key=key.substr(p);
-          ::xml_unpack(x,i->first,arg[key]);
-        }
+      if (x.missing(d)) return; // leave unchanged
+      arg.clear();
+      std::vector<std::string> keys=x.elementNames(d);
+      for (size_t i=0; i<keys.size(); ++i)
+        ::xml_unpack(x,d.empty()? keys[i]: d+"."+keys[i],arg[keys[i]]);
     }
   };
 #endif
diff --git a/xml_pack_base.h b/xml_pack_base.h
index 746fafb..e1c295e 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -255,7 +255,7 @@ namespace classdesc
   }
 
   template <class T> typename
-  enable_if<Or<is_sequence<T>, is_associative_container<T> >, void>::T
+  enable_if<Or<is_sequence<T>, And<is_associative_container<T>, Not<is_stringKeyMap<T> > > >, void>::T
   xml_packp(xml_pack_t& x, const string& d, T& arg, dummy<1> dum=0)
   {
     xml_pack_t::Tag tag(x,d); 
diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index 034587d..42ca7aa 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -120,7 +120,7 @@ namespace classdesc
   Not< 
     Or<
       Or<
-        Or< is_sequence<T>, is_associative_container<T> >, 
+        Or< is_sequence<T>, And<is_associative_container<T>, Not<is_stringKeyMap<T> > > >, 
         is_fundamental<T> 
         >,
       is_enum<T>
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index f6b3ec0..284f7c6 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -531,6 +531,16 @@ namespace classdesc
       key=key.substr(0,key.rfind('#')); //strip final # marker
       return tokenCount[key];
     }
+    /// names of the elements contained within element \a key
+    std::vector<std::string> elementNames(const std::string& key) const {
+      std::vector<std::string> r;
+      const std::string prefix=key.empty()? key: addHashNoughts(key)+".";
+      std::map<std::string,unsigned>::const_iterator i=tokenCount.lower_bound(prefix);
+      for (; i!=tokenCount.end() && i->first.compare(0,prefix.length(),prefix)==0; ++i)
+        if (i->second>0 && i->first.find('.',prefix.length())==std::string::npos)
+          r.push_back(i->first.substr(prefix.length()));
+      return r;
+    }
     void clear() {contentMap.clear(); tokenCount.clear();}
   };
 
@@ -679,7 +689,7 @@ namespace classdesc
   }
 
   template <class T> typename
-  enable_if<is_associative_container<T>, void>::T
+  enable_if<And<is_associative_container<T>, Not<is_stringKeyMap<T> > >, void>::T
   xml_unpackp(xml_unpack_t& x, const string& d, T& arg, dummy<2> dum=0)
   {
     string eName=typeName<typename T::value_type>().c_str();
-- 
2.43.0


From 1b91baea0b97b623db25e6b0fb22ee24b69eba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 095/116] fix: schema of a StringKeyMap member described it as
 an ordinary map

---
 stringKeyMap.h          | 5 +++++
 stringKeyMap_epilogue.h | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stringKeyMap.h b/stringKeyMap.h
index 1b25463..dfcd441 100644
--- a/stringKeyMap.h
+++ b/stringKeyMap.h
@@ -30,8 +30,13 @@ namespace classdesc
 
   template <class T> struct is_stringKeyMap<classdesc::StringKeyMap<T> >: public true_type {};
 
+  // declared here so that it is found from descriptors
+  template <class T>
+  void xsd_generate(xsd_generate_t&, const string&, const StringKeyMap<T>&);
 }
 
+using classdesc::xsd_generate;
+
 #ifdef _CLASSDESC
 #pragma omit json_pack classdesc::StringKeyMap
 #pragma omit json_unpack classdesc::StringKeyMap
diff --git a/stringKeyMap_epilogue.h b/stringKeyMap_epilogue.h
index d3c6209..b436535 100644
--- a/stringKeyMap_epilogue.h
+++ b/stringKeyMap_epilogue.h
@@ -83,8 +83,7 @@ namespace classdesc
     g.defineType(type, os.str());
     g.addDependency(type, xsd_typeName<T>());
     // ensure that the value type as a definition also
-    xsd_generate(g,"",T());
-    
+    processExtraClass(g, d+transformTypeName(typeName<T>()), T());
   }
 #endif
 }
-- 
2.43.0


From ab400579efaf687095c1f4709f7d4c8c3530a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 096/116] fix: threads serialising independent graphs
 interfered with each other

---
 pack_graph.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 8d5b7e2..957514a 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -21,6 +21,13 @@
   treenodes should really be deprecated in favour of graphnodes
 */
 
+// state of a graph traversal belongs to the thread performing it
+#if defined(__cplusplus) && __cplusplus>=201103L
+#define CLASSDESC_THREAD_LOCAL thread_local
+#else
+#define CLASSDESC_THREAD_LOCAL
+#endif
+
 namespace classdesc
 {
   ///serialise a tree (or DAG)
@@ -104,9 +111,9 @@ namespace classdesc
   {
     typedef std::map<T,int> GraphMap;
     typedef std::vector<T*> Restart;
-    static GraphMap graph_map;
-    static Restart restart;
-    static unsigned recur_level=0;
+    static CLASSDESC_THREAD_LOCAL GraphMap graph_map;
+    static CLASSDESC_THREAD_LOCAL Restart restart;
+    static CLASSDESC_THREAD_LOCAL unsigned recur_level=0;
     int nought=0;
     const bool top=recur_level==0;
     GraphTraversal<GraphMap,Restart> traversal(recur_level, graph_map, restart);
@@ -144,9 +151,9 @@ namespace classdesc
   {
     typedef std::map<int,T> GraphMap;
     typedef std::vector<T*> Restart;
-    static GraphMap graph_map;
-    static Restart restart;
-    static unsigned recur_level=0;
+    static CLASSDESC_THREAD_LOCAL GraphMap graph_map;
+    static CLASSDESC_THREAD_LOCAL Restart restart;
+    static CLASSDESC_THREAD_LOCAL unsigned recur_level=0;
     int myid;
     Alloc<T> alloc;
     const bool top=recur_level==0;
-- 
2.43.0


From 7b29039a45604826e54debe78ce1a3bccc371f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 097/116] fix: constructors were described as members under
 -overload

---
 classdesc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 82cc689..36929e3 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1814,7 +1814,8 @@ int main(int argc, char* argv[])
                     const act_pair& aj=actions[i].actionlist[j];
                     if (aj.base)
                       a+="_onbase";
-                    if (aj.member.length() && !aj.base && aj.action.find("classdesc::is_array")!=0)
+                    if (aj.member.length() && !aj.base && aj.action.find("classdesc::is_array")!=0 &&
+                        aj.action.find("classdesc::is_constructor")!=0)
                       printf("::%s(targ,desc+\"%s\",%s,%s);\n",a.c_str(),
                              aj.name.c_str(),aj.member.c_str(),aj.action.c_str());
                     else if (aj.action.find("classdesc::is_constructor")==string::npos)
-- 
2.43.0


From 758c5b96c00d4509aba68b4c52e7609875f737d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 098/116] fix: members that are function pointers emitted as
 overloaded methods

---
 classdesc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 36929e3..a315c4e 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -832,6 +832,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	{
 	  string memname=input.lasttoken;        // function name
           bool is_destructor=input.tokenBeforeLast=="~";
+          bool is_fn_ptr=false;
           argList.erase();
 
 	  /* check ahead for function pointers */
@@ -849,6 +850,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 		{
 		  input.nexttok();
 		  memname=input.token;
+                  is_fn_ptr=true;
 		  gobble_delimited(input,"(",")");
 		  while (!strchr("([;",input.token[0])) input.nexttok();
 		  if (input.token[0]=='(') gobble_delimited(input,"(",")");
@@ -920,7 +922,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 string tempFnPtrDecl="TmpMemPtr_"+memname+str(num_instances["."+memname]);
                 if (type==MemberSig::is_constructor)
                     action="classdesc::is_constructor(),";
-                if (overloadingAllowed)
+                if (overloadingAllowed && !is_fn_ptr)
                   action+=tempFnPtrDecl;
                 else
                   action+="&"+ /*namespace_name +*/ prefix + memname;
@@ -944,7 +946,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 if (objc) { action += ", \"" + rType + "\", " + "\"" + argList + "\""; }
                 rType.erase();
                 reg.is_const=false; // a const return type does not make a constant
-                if (overloadingAllowed && !reg.is_private)
+                if (overloadingAllowed && !is_fn_ptr && !reg.is_private)
                   overloadTempVarDecls[/*namespace_name+*/prefix].push_back
                     (MemberSig(tempFnPtrDecl,returnType,al,prefix,memname,type));
                 if (reg.is_static)
-- 
2.43.0


From aa3c6de128ce7e2a646ca8a041f4b8bd3c5e753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 099/116] fix: definitions written to a work directory did not
 pass the object to go with its member pointers, and failed on nested types
 and scoped enumerations

---
 classdesc.cc | 164 +++++++++++++++++++++++++--------------------------
 1 file changed, 79 insertions(+), 85 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index a315c4e..f156846 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1317,13 +1317,13 @@ string without_type_qualifier(const string& type)
   return without_type_qualifier(type,type_qualifier(type));
 }
 
-void printNestedTypes(string scope, bool templ, set<string> avoid=set<string>())
+void printNestedTypes(FILE* o, string scope, bool templ, set<string> avoid=set<string>())
 {
   vector<string>& nestedTypes=nested[scope+"::"];
   for (vector<string>::iterator j=nestedTypes.begin(); j!=nestedTypes.end(); j++)
     {
       if (!avoid.count(*j))
-        printf("typedef %s %s::%s %s;\n",
+        fprintf(o,"typedef %s %s::%s %s;\n",
                templ? "typename": "",
                scope.c_str(), j->c_str(), j->c_str());
       avoid.insert(*j);
@@ -1334,10 +1334,76 @@ void printNestedTypes(string scope, bool templ, set<string> avoid=set<string>())
     {
       scope=scope.substr(0,p);
       if (scope!="::")
-        printNestedTypes(scope,false,avoid);
+        printNestedTypes(o,scope,false,avoid);
     }
 }
 
+// outputs the calls that describe the members of an object
+void output_members(FILE* o, const char* action, const action_t& a)
+{
+  if (a.namespace_name.size())
+    fprintf(o,"using namespace %s;\n",a.namespace_name.c_str());
+  string prefix=without_type_qualifier(a.type);
+  printNestedTypes(o,prefix,!a.templ.empty());
+
+  vector<MemberSig>& tempVarDecls=overloadTempVarDecls[prefix+"::"];
+  for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
+    fprintf(o,"%s\n",tempVarDecls[ii].declare().c_str());
+  for (size_t j=0; j<a.actionlist.size(); j++)
+    {
+      string descriptor=action;
+      const act_pair& aj=a.actionlist[j];
+      if (aj.base)
+        descriptor+="_onbase";
+      if (aj.member.length() && !aj.base && aj.action.find("classdesc::is_array")!=0 &&
+          aj.action.find("classdesc::is_constructor")!=0)
+        fprintf(o,"::%s(targ,desc+\"%s\",%s,%s);\n",descriptor.c_str(),
+                aj.name.c_str(),aj.member.c_str(),aj.action.c_str());
+      else if (aj.action.find("classdesc::is_constructor")==string::npos)
+        fprintf(o,"::%s(targ,desc+\"%s\",%s);\n",descriptor.c_str(),
+                aj.name.c_str(),aj.action.c_str());
+    }
+}
+
+// outputs the method that describes the members of a type
+void output_type_method(const char* action, const action_t& a, const string& type_arg_name)
+{
+  string prefix=without_type_qualifier(a.type);
+  vector<MemberSig>& tempVarDecls=overloadTempVarDecls[prefix+"::"];
+  printf("template <class _CD_TYPE>\n");
+  printf("void type(classdesc::%s_t& targ, const classdesc::string& desc)\n{\n",action);
+  if (a.namespace_name.size())
+    printf("using namespace %s;\n",a.namespace_name.c_str());
+  printNestedTypes(stdout,prefix,!a.templ.empty());
+  
+  for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
+    printf("%s\n",tempVarDecls[ii].declare().c_str());
+  for (size_t j=0; j<a.actionlist.size(); j++)
+    {
+      const act_pair& aj=a.actionlist[j];
+      if (aj.base)
+        printf("::%s<_CD_TYPE,%s >(targ,desc+\"%s\");\n",
+               action, aj.member.c_str(),
+               aj.name.c_str());
+      // only emit actions that are member pointers or base classes
+      else if ((aj.action[0]=='&' && aj.action.find("::")) ||
+               aj.action.find("TmpMemPtr_")==0 ||
+               aj.action.find("classdesc::is_constructor")==0)
+        printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
+               action, type_arg_name.c_str(),
+               aj.name.c_str(),aj.action.c_str());
+      else if (aj.action.find("classdesc::is_array")==0 && aj.member.length())
+        printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",&%s::%s);\n",
+               action, type_arg_name.c_str(),
+               aj.name.c_str(),without_type_qualifier(type_arg_name).c_str(),aj.member.c_str());
+      else if (aj.action.find("classdesc::is_const_static")==0 && use_mbr_pointers)
+        printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
+               action, type_arg_name.c_str(),aj.name.c_str(),aj.action.c_str());
+        
+    }
+  printf("}\n");
+}
+
 int main(int argc, char* argv[])
 {
 
@@ -1802,61 +1868,10 @@ int main(int argc, char* argv[])
                 printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg)\n{\n",
                        action[k]);
 
-                if (actions[i].namespace_name.size())
-                  printf("using namespace %s;\n",actions[i].namespace_name.c_str());
-                string prefix=without_type_qualifier(actions[i].type);
-                printNestedTypes(prefix,!actions[i].templ.empty());
-                
-                vector<MemberSig>& tempVarDecls=overloadTempVarDecls[prefix+"::"];
-                for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
-                  printf("%s\n",tempVarDecls[ii].declare().c_str());
-                for (size_t j=0; j<actions[i].actionlist.size(); j++)
-                  {
-                    string a=action[k];
-                    const act_pair& aj=actions[i].actionlist[j];
-                    if (aj.base)
-                      a+="_onbase";
-                    if (aj.member.length() && !aj.base && aj.action.find("classdesc::is_array")!=0 &&
-                        aj.action.find("classdesc::is_constructor")!=0)
-                      printf("::%s(targ,desc+\"%s\",%s,%s);\n",a.c_str(),
-                             aj.name.c_str(),aj.member.c_str(),aj.action.c_str());
-                    else if (aj.action.find("classdesc::is_constructor")==string::npos)
-                      printf("::%s(targ,desc+\"%s\",%s);\n",a.c_str(),
-                             aj.name.c_str(),aj.action.c_str());
-                  }
+                output_members(stdout,action[k],actions[i]);
                 printf("}\n");
-                printf("template <class _CD_TYPE>\n");
-                printf("void type(classdesc::%s_t& targ, const classdesc::string& desc)\n{\n",action[k]);
-                if (actions[i].namespace_name.size())
-                  printf("using namespace %s;\n",actions[i].namespace_name.c_str());
-                printNestedTypes(prefix,!actions[i].templ.empty());
-                
-                for (size_t ii=0; ii<tempVarDecls.size(); ++ii)
-                  printf("%s\n",tempVarDecls[ii].declare().c_str());
-                for (size_t j=0; j<actions[i].actionlist.size(); j++)
-                  {
-                    const act_pair& aj=actions[i].actionlist[j];
-                    if (aj.base)
-                      printf("::%s<_CD_TYPE,%s >(targ,desc+\"%s\");\n",
-                             action[k], aj.member.c_str(),
-                             aj.name.c_str());
-                    // only emit actions that are member pointers or base classes
-                    else if ((aj.action[0]=='&' && aj.action.find("::")) ||
-                             aj.action.find("TmpMemPtr_")==0 ||
-                             aj.action.find("classdesc::is_constructor")==0)
-                      printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
-                             action[k], type_arg_name.c_str(),
-                             aj.name.c_str(),aj.action.c_str());
-                    else if (aj.action.find("classdesc::is_array")==0 && aj.member.length())
-                      printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",&%s::%s);\n",
-                             action[k], type_arg_name.c_str(),
-                             aj.name.c_str(),without_type_qualifier(type_arg_name).c_str(),aj.member.c_str());
-                    else if (aj.action.find("classdesc::is_const_static")==0 && use_mbr_pointers)
-                      printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
-                             action[k], type_arg_name.c_str(),aj.name.c_str(),aj.action.c_str());
-                      
-                  }
-                printf("}\n};\n");
+                output_type_method(action[k],actions[i],type_arg_name);
+                printf("};\n");
               }
             else
               {
@@ -1881,7 +1896,9 @@ int main(int argc, char* argv[])
 
                 // insert the namespace qualifier if needed
                 string type_arg_name;
-                type_arg_name=type_qualifier(actions[i].type)+" "+
+                type_arg_name = (type_qualifier(actions[i].type)=="enum class")?
+                  "enum": type_qualifier(actions[i].type);
+                type_arg_name+=" "+
                   /*+" ::"+actions[i].namespace_name+
                     (actions[i].namespace_name.size()?"::":"") +*/ 
                   without_type_qualifier(actions[i].type);
@@ -1890,8 +1907,10 @@ int main(int argc, char* argv[])
                        actions[i].templ.empty()? "<>": actions[i].templ.c_str(),
                        action[k], type_arg_name.c_str()); 
                 printf("template <class _CD_ARG_TYPE>\n");
-                printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg);\n};",
+                printf("void operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg);\n",
                        action[k]);
+                output_type_method(action[k],actions[i],type_arg_name);
+                printf("};\n");
 
                 fprintf(o,"template <class _CD_ARG_TYPE>\n");
                 fprintf(o,"void classdesc_access::access_%s< %s >::",
@@ -1899,32 +1918,7 @@ int main(int argc, char* argv[])
                 fprintf(o,"operator()(classdesc::%s_t& targ, const classdesc::string& desc,_CD_ARG_TYPE& arg)\n{\n",
                         action[k]);
 
-                if (actions[i].namespace_name.size())
-                  fprintf(o,"using namespace %s;\n",actions[i].namespace_name.c_str());
-                string::size_type p=actions[i].type.rfind("::");
-                if (p!=string::npos)
-                  {
-                    string::size_type s=actions[i].type.rfind(" "); //strip leading words
-                    if (s==string::npos) 
-                      s=0;
-                    else
-                      s++;
-                    string prefix=actions[i].type.substr(s,p+2-s);
-                    for (size_t j=0; j<nested[prefix].size(); j++)
-                      fprintf(o,"typedef %s %s%s %s;\n",
-                              actions[i].templ.empty()? "": "typename",
-                              prefix.c_str(),
-                              nested[prefix][j].c_str(),nested[prefix][j].c_str());
-                  }
-                for (size_t j=0; j<actions[i].actionlist.size(); j++)
-                  {
-                    string a=action[k];
-                    if (actions[i].actionlist[j].base)
-                      a+="_onbase";
-                    fprintf(o,"::%s(targ,desc+\"%s\",%s);\n",a.c_str(),
-                            actions[i].actionlist[j].name.c_str(),
-                            actions[i].actionlist[j].action.c_str());
-                  }
+                output_members(o,action[k],actions[i]);
                 fprintf(o,"};\n");
                 // explicit instantiation
                 fprintf(o,"template\n");
-- 
2.43.0


From 27baa8cd8b32be67693161464c73c624b125c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 100/116] fix: white space other than blanks in an omit,
 treenode or graphnode pragma prevented it from taking effect

---
 classdesc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index f156846..2b6db03 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1255,8 +1255,10 @@ inline int leadeq(string x,const char *y)
 
 string rm_space(string x)
 {
-  x.erase(remove(x.begin(),x.end(),' '),x.end());
-  return x;
+  string r;
+  for (size_t i=0; i<x.size(); ++i)
+    if (!isspace((unsigned char)x[i])) r+=x[i];
+  return r;
 }
 
 void output_treenode_or_graphnode(const char* action, size_t i, const char* node_type)
-- 
2.43.0


From 969374d9467bcdbd29806ddfd4b0ed0167f0a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 101/116] fix: descriptors of template specialisations
 differing only in symbols suppressed one another

---
 classdesc.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 2b6db03..af61320 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1282,14 +1282,32 @@ public:
 };
 
 // add a guard macro around code generated by this scope
+string guardName(const string& type)
+{
+  string r;
+  // replace all non-legal identifier characters with '_'.
+  for (size_t i=0; i<type.length(); ++i)
+    if (isalnum(type[i]))
+      r+=type[i];
+    else
+      {
+        r+='_';
+        // other symbols, such as * and &, distinguish types
+        if (!strchr("_:<>, \t\n\r",type[i]))
+          {
+            char code[3];
+            sprintf(code,"%02x",(unsigned char)type[i]);
+            r+=code;
+          }
+      }
+  return r;
+}
+
 struct GuardMacro
 {
-  GuardMacro(string macro)
+  GuardMacro(const string& type)
   {
-    // replace all non-legal identifier characters with '_'.
-    for (unsigned i=0; i<macro.length(); ++i)
-      if (!isalnum(macro[i]))
-        macro[i]='_';
+    string macro=guardName(type);
     printf("\n#ifndef %s\n",macro.c_str());
     printf("#define %s\n",macro.c_str());
   }
@@ -1695,9 +1713,7 @@ int main(int argc, char* argv[])
           n=without_type_qualifier(n);
 
           // add a guard macro around this code
-          string guardMacro="CLASSDESC_TYPENAME_"+n;
-          ::replace_if(guardMacro.begin(), guardMacro.end(), 
-                       NotAlNumUnderScore(), '_');
+          string guardMacro=guardName("CLASSDESC_TYPENAME_"+n);
           printf("#ifndef %s\n",guardMacro.c_str());
           printf("#define %s\n",guardMacro.c_str());
           {
-- 
2.43.0


From 5a39f9a2c3b43e9d7db5a217a56e374d8e5f007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 102/116] fix: Java class files were written and read with 8
 byte rather than 2 byte table sizes

---
 javaClass_serialisation.h | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 86a9f05..f4f4eed 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -31,7 +31,32 @@ namespace classdesc
   {buf << std::hex << int(a);}
 
 }
- 
+namespace classdesc
+{
+  // tables within a class file are preceded by a 2 byte size
+  template <class T>
+  void pack(pack_t& buf, const string& d, const JavaClassVector<T>& a)
+  {
+    u2 size=a.size();
+    ::pack(buf,d,size);
+    for (size_t i=0; i<a.size(); i++)
+      ::pack(buf,d,a[i]);
+  }
+
+  template <class T>
+  void unpack(unpack_t& buf, const string& d, JavaClassVector<T>& a)
+  {
+    u2 size;
+    ::unpack(buf,d,size);
+    a.clear();
+    a.resize(size);
+    for (size_t i=0; i<a.size(); i++)
+      ::unpack(buf,d,a[i]);
+  }
+}
+
+using classdesc::pack;
+using classdesc::unpack;
 
 namespace classdesc_access
 {
-- 
2.43.0


From db82edb198c813af123915fcba6816c42ca4c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 103/116] fix: sizes and indices over 32767 in Java class files
 taken for negative, and 64 bit constants truncated

---
 javaClass.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/javaClass.h b/javaClass.h
index bda8478..c2ffd28 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -48,12 +48,12 @@ namespace classdesc
   struct u2
   {
     unsigned short v;
-    operator short() const {return v;}
+    operator unsigned short() const {return v;}
     u2(): v(0) {}
-    u2(short v): v(v) {}
-    short operator=(short x) {return v=x;}
-    short operator|=(short x) {return v|=x;}
-    short operator&=(short x) {return v&=x;}
+    u2(unsigned short v): v(v) {}
+    unsigned short operator=(unsigned short x) {return v=x;}
+    unsigned short operator|=(unsigned short x) {return v|=x;}
+    unsigned short operator&=(unsigned short x) {return v&=x;}
     bool operator==(const u2& x)  const {return v==x.v;}
     u2 operator++() {v++; return *this;}
   };
@@ -73,8 +73,8 @@ namespace classdesc
     unsigned long long v;
     operator long long() const {return v;}
     u8(): v(0) {}
-    u8(unsigned v): v(v) {}
-    unsigned operator=(unsigned x) {return v=x;}
+    u8(unsigned long long v): v(v) {}
+    unsigned long long operator=(unsigned long long x) {return v=x;}
     bool operator==(const u8& x)  const {return v==x.v;}
   };
 
-- 
2.43.0


From 9a735907b4cdc03f407cec26ef43e6c1509f6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 104/116] fix: long and double constants of Java class files
 did not take up two entries of the constant pool

---
 javaClass.h               |  2 ++
 javaClass_serialisation.h | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/javaClass.h b/javaClass.h
index c2ffd28..98751fe 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -651,6 +651,8 @@ enum {
     const T& get() const {return *static_cast<const T*>(info.get());}
 
     u1 tag() const {return _tag;}
+    /// true if the constant takes up two entries of the constant pool
+    bool isWide() const {return _tag==JVM_CONSTANT_Long || _tag==JVM_CONSTANT_Double;}
     bool operator==(const cp_info& x) const; //definition in javaClass_serialisation.h
   };
 
diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index f4f4eed..2d973fb 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -245,7 +245,10 @@ namespace classdesc_access
       classdesc::u2 size=a.size(); 
       pack(buf,d,size);
       for (int i=1; i<size; i++)
-        pack(buf,d,a[i]);
+        {
+          pack(buf,d,a[i]);
+          if (a[i].isWide()) i++;
+        }
     }
   };
 
@@ -258,7 +261,10 @@ namespace classdesc_access
       classdesc::u2 size; unpack(buf,d,size);
       a.resize(size);
       for (int i=1; i<size; i++)
-        unpack(buf,d,a[i]);
+        {
+          unpack(buf,d,a[i]);
+          if (a[i].isWide()) i++;
+        }
     }
   };
 
-- 
2.43.0


From 62499b8928187feb813ad6b1358cb0e4211fa145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 105/116] fix: constants introduced in Java 7 and later were
 lost from Java class files

---
 javaClass.h               | 20 +++++++++++++++++++-
 javaClass_serialisation.h | 24 ++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/javaClass.h b/javaClass.h
index 98751fe..808a0c5 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -138,7 +138,13 @@ enum {
     JVM_CONSTANT_Fieldref               = 9,
     JVM_CONSTANT_Methodref              = 10,
     JVM_CONSTANT_InterfaceMethodref     = 11,
-    JVM_CONSTANT_NameAndType            = 12
+    JVM_CONSTANT_NameAndType            = 12,
+    JVM_CONSTANT_MethodHandle           = 15,
+    JVM_CONSTANT_MethodType             = 16,
+    JVM_CONSTANT_Dynamic                = 17,
+    JVM_CONSTANT_InvokeDynamic          = 18,
+    JVM_CONSTANT_Module                 = 19,
+    JVM_CONSTANT_Package                = 20
 };
 
 /* StackMapTable type item numbers */
@@ -614,6 +620,18 @@ enum {
         descriptor_index==x.descriptor_index;}    
   };
 
+  struct MethodHandleInfo
+  {
+    u1 reference_kind;
+    u2 reference_index;
+    MethodHandleInfo(): reference_kind(0) {}
+    MethodHandleInfo(u1 reference_kind, u2 reference_index): 
+      reference_kind(reference_kind), reference_index(reference_index) {}
+    bool operator==(const MethodHandleInfo& x)  const {
+      return reference_kind==x.reference_kind && 
+        reference_index==x.reference_index;}    
+  };
+
   class cp_info
   {
     u1 _tag;
diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 2d973fb..723d608 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -183,10 +183,15 @@ namespace classdesc_access
         {
         case JVM_CONSTANT_Class:
         case JVM_CONSTANT_String: 
+        case JVM_CONSTANT_MethodType:
+        case JVM_CONSTANT_Module:
+        case JVM_CONSTANT_Package:
           pack(buf,d,a.get<u2>()); break;
         case JVM_CONSTANT_Fieldref: 
         case JVM_CONSTANT_Methodref: 
         case JVM_CONSTANT_InterfaceMethodref: 
+        case JVM_CONSTANT_Dynamic:
+        case JVM_CONSTANT_InvokeDynamic:
           pack(buf,d,a.get<Ref>()); break;
         case JVM_CONSTANT_Integer:
         case JVM_CONSTANT_Float: 
@@ -197,6 +202,9 @@ namespace classdesc_access
         case JVM_CONSTANT_NameAndType: 
           pack(buf,d,a.get<NameAndTypeInfo>()); 
           break;
+        case JVM_CONSTANT_MethodHandle:
+          pack(buf,d,a.get<MethodHandleInfo>()); 
+          break;
         case JVM_CONSTANT_Utf8: 
           pack(buf,d,a.get<std::string>()); break;
         }       
@@ -215,10 +223,15 @@ namespace classdesc_access
         {
         case JVM_CONSTANT_Class:
         case JVM_CONSTANT_String: 
+        case JVM_CONSTANT_MethodType:
+        case JVM_CONSTANT_Module:
+        case JVM_CONSTANT_Package:
           a.unpack<u2>(buf,tag); break;
         case JVM_CONSTANT_Fieldref: 
         case JVM_CONSTANT_Methodref: 
         case JVM_CONSTANT_InterfaceMethodref: 
+        case JVM_CONSTANT_Dynamic:
+        case JVM_CONSTANT_InvokeDynamic:
           a.unpack<Ref>(buf,tag); break;
         case JVM_CONSTANT_Integer:
         case JVM_CONSTANT_Float: 
@@ -229,6 +242,9 @@ namespace classdesc_access
         case JVM_CONSTANT_NameAndType: 
           a.unpack<NameAndTypeInfo>(buf,tag); 
           break;
+        case JVM_CONSTANT_MethodHandle:
+          a.unpack<MethodHandleInfo>(buf,tag); 
+          break;
         case JVM_CONSTANT_Utf8: 
           a.unpack<std::string>(buf,tag); break;
         }       
@@ -319,10 +335,15 @@ namespace classdesc
       {
       case JVM_CONSTANT_Class:
       case JVM_CONSTANT_String: 
+      case JVM_CONSTANT_MethodType:
+      case JVM_CONSTANT_Module:
+      case JVM_CONSTANT_Package:
         dump(buf,d,a.get<u2>()); break;
       case JVM_CONSTANT_Fieldref: 
       case JVM_CONSTANT_Methodref: 
       case JVM_CONSTANT_InterfaceMethodref: 
+      case JVM_CONSTANT_Dynamic:
+      case JVM_CONSTANT_InvokeDynamic:
         dump(buf,d,a.get<Ref>()); break;
       case JVM_CONSTANT_Integer:
         dump(buf,d,a.get<int>()); break;
@@ -335,6 +356,9 @@ namespace classdesc
       case JVM_CONSTANT_NameAndType: 
         dump(buf,d,a.get<NameAndTypeInfo>()); 
         break;
+      case JVM_CONSTANT_MethodHandle:
+        dump(buf,d,a.get<MethodHandleInfo>()); 
+        break;
       case JVM_CONSTANT_Utf8: 
         dump(buf,d,a.get<std::string>()); break;
       }       
-- 
2.43.0


From 10281351287b87fc8493f57823b31a6e04ad538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 106/116] fix: char members and arguments had no Java signature

---
 javaClassDescriptor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javaClassDescriptor.h b/javaClassDescriptor.h
index febbe39..530fd9a 100644
--- a/javaClassDescriptor.h
+++ b/javaClassDescriptor.h
@@ -28,6 +28,7 @@ namespace classdesc
 
   template <> struct Descriptor<void> {static std::string d() {return "V";}};
   template <> struct Descriptor<bool> {static std::string d() {return "Z";}};
+  template <> struct Descriptor<char> {static std::string d() {return "B";}};
   template <> struct Descriptor<signed char> {static std::string d() {return "C";}};
   template <> struct Descriptor<unsigned char> {static std::string d() {return "C";}};
   template <> struct Descriptor<short> {static std::string d() {return "S";}};
-- 
2.43.0


From e016478a321627ae8417eb75077b13a0b9d3ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 107/116] fix: methods with arguments could not be given a Java
 interface in C++98, the conversions of Arg not being const

---
 javaClass_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javaClass_base.h b/javaClass_base.h
index 5a28b1a..3fe6324 100644
--- a/javaClass_base.h
+++ b/javaClass_base.h
@@ -150,9 +150,9 @@ namespace classdesc
     }
 
     //TODO: factor out get<T>()
-    operator float() {return get<float>();}
-    operator int() {return get<int>();}
-    operator std::string() {return get<std::string>();}
+    operator float() const {return get<float>();}
+    operator int() const {return get<int>();}
+    operator std::string() const {return get<std::string>();}
 
     //TODO: handle reference arguments
   };
-- 
2.43.0


From 32814a6a4cac320819d9006214a900262a63fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:47 +0000
Subject: [PATCH 108/116] fix: guard macros of pointer specialisations keep
 their former names

---
 classdesc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index af61320..b99d0be 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1292,8 +1292,8 @@ string guardName(const string& type)
     else
       {
         r+='_';
-        // other symbols, such as * and &, distinguish types
-        if (!strchr("_:<>, \t\n\r",type[i]))
+        // other symbols, such as &, distinguish types
+        if (!strchr("_:<>,* \t\n\r",type[i]))
           {
             char code[3];
             sprintf(code,"%02x",(unsigned char)type[i]);
-- 
2.43.0


From 0f8803c1a4063a6c719838503bc8d910cccace86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 109/116] fix: copies of an MPIbuf had indeterminate flags,
 were appended to the target, and room for the marks of the original's
 communicator only

---
 classdescMP.h | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d9d930..34c1b43 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -74,8 +74,7 @@ namespace classdesc
       serialisation is available */
   class MPIbuf: public MPIbuf_base
   {
-    int *offsets;
-    unsigned offsctr;
+    std::vector<int> offsets; ///< starts of the pieces to be scattered
     /* MPI_Finalized only available in MPI-2 standard */
     bool MPI_running()
     {
@@ -103,23 +102,26 @@ namespace classdesc
     {
       request=MPI_REQUEST_NULL;
       Communicator=MPI_COMM_WORLD; const_buffer=0;
-      offsets=new int[nprocs()+1]; offsctr=1; offsets[0]=0;
+      proc=tag=0;
+      offsets.push_back(0);
     }
-    MPIbuf(const MPIbuf& x): offsets(NULL) {*this=x;}
+    MPIbuf(const MPIbuf& x): request(MPI_REQUEST_NULL) {*this=x;}
     ~MPIbuf() 
     {
       if (request!=MPI_REQUEST_NULL) wait(); //MPI_Request_free(&request);
-      delete [] offsets;
     }
     const MPIbuf& operator=(const MPIbuf& x)
     { 
+      if (this==&x) return *this;
+      if (request!=MPI_REQUEST_NULL) wait();
       Communicator=x.Communicator;
-      delete [] offsets;
-      offsets=new int[nprocs()+1];
-      offsctr=x.offsctr;
-      for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];
-      request=MPI_REQUEST_NULL;
-      packraw(x.data(),x.size());
+      const_buffer=x.const_buffer;
+      proc=x.proc;
+      tag=x.tag;
+      offsets=x.offsets;
+      reseti();
+      reseto();
+      if (x.size()) packraw(x.data(),x.size());
       return *this;
     }
       
@@ -163,7 +165,7 @@ namespace classdesc
     {bcast(s.root); return *this;}
     /* Mark a processor boundary for scatterv */
     MPIbuf& operator<<(mark s)
-    {offsets[offsctr++]=size(); return *this;}
+    {offsets.push_back(size()); return *this;}
 
     //    template <class T> inline MPIbuf& operator<<(const T& x);
     //    {pack(this,string(),x); return *this;}
@@ -365,6 +367,7 @@ namespace classdesc
     {
       rootdata=m_data;
       sizes=new int[np];
+      offsets.resize(np+1,offsets.back()); // pieces not marked are empty
       for (int i=0; i<np; i++) sizes[i]=offsets[i+1]-offsets[i];
       m_data=realloc(NULL,sizes[root]);
     }
@@ -375,13 +378,13 @@ namespace classdesc
       {
         m_size=sz;
         realloc(m_size);
-        MPI_Scatterv(rootdata,sizes,offsets,MPI_CHAR,data(),size(),MPI_CHAR,
+        MPI_Scatterv(rootdata,sizes,&offsets[0],MPI_CHAR,data(),size(),MPI_CHAR,
                      root,Communicator);
       }
     if (amroot)
       {
         free(rootdata); delete [] sizes;
-        for (int i=0; i<np; offsets[i++]=0);
+        offsets.assign(1,0);
       }
     return *this;
   }
-- 
2.43.0


From 786de1ef73aba9f153f1e2d9ab428d4ed3173fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 110/116] fix: scattering a second message with the same buffer
 used the marks of the first, and the piece was read from the old position

---
 classdescMP.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 34c1b43..a86fc3a 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -150,7 +150,7 @@ namespace classdesc
     /// scatter \a root's data (that has been marked with \c mark)
     MPIbuf& scatter(unsigned root); 
     /// reset the buffer to send or receive a new message
-    MPIbuf& reset() {reseti(); reseto(); tag=1; return *this;}
+    MPIbuf& reset() {reseti(); reseto(); offsets.assign(1,0); tag=1; return *this;}
     /// is there a message waiting to be received into the buffe
     bool msg_waiting(int source=MPI_ANY_SOURCE, int tag=MPI_ANY_TAG);
 
@@ -384,8 +384,9 @@ namespace classdesc
     if (amroot)
       {
         free(rootdata); delete [] sizes;
-        offsets.assign(1,0);
       }
+    offsets.assign(1,0);
+    reseto();
     return *this;
   }
 
-- 
2.43.0


From 5f70a906072c99509abdbe523e3763d27bbcbf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 111/116] fix: send_recv looked for a message with the tag sent
 instead of the one to be received, and could receive a different message

---
 classdescMP.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index a86fc3a..0c3de68 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -291,13 +291,13 @@ namespace classdesc
     MPI_Request r1;
 
     MPI_Isend(data(), size(), MPI_CHAR, dest, sendtag, Communicator, &r1);
-    MPI_Probe(source, sendtag, Communicator, &status);
+    MPI_Probe(source, recvtag, Communicator, &status);
     MPI_Get_count(&status, MPI_CHAR, &tempsize);
     
     char *tempdata=realloc(NULL, tempsize);
-    MPI_Recv(tempdata,tempsize, MPI_CHAR,source,recvtag,Communicator,&status);
+    MPI_Recv(tempdata,tempsize, MPI_CHAR,status.MPI_SOURCE,status.MPI_TAG,Communicator,&status);
     
-    MPI_Wait(&r1,&status); // ensure data is actually sent before deleting storage
+    MPI_Wait(&r1,MPI_STATUS_IGNORE); // ensure data is actually sent before deleting storage
     realloc(0); m_data=tempdata; m_size=tempsize;
     proc=status.MPI_SOURCE;
     tag=status.MPI_TAG;
-- 
2.43.0


From 7e8e8b6536c1a23b6766c51268179da26da8f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 112/116] fix: requests completed by an MPIbuf_array were used
 again

---
 classdescMP.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0c3de68..6471439 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -177,6 +177,13 @@ namespace classdesc
   {
     std::vector<MPIbuf> bufs;
     std::vector<MPI_Request> requests;
+    void load() {for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;}
+    // completed requests are no longer valid, and have been set to MPI_REQUEST_NULL
+    void store() {for (size_t i=0; i<bufs.size(); i++) bufs[i].request=requests[i];}
+    static std::vector<int> indices(const std::vector<int>& index, int count) {
+      if (count==MPI_UNDEFINED) return std::vector<int>(); // nothing outstanding
+      return std::vector<int>(index.begin(),index.begin()+count);
+    }
   public:
     
     MPIbuf_array(unsigned n): bufs(n), requests(n) {}
@@ -187,16 +194,18 @@ namespace classdesc
     bool testall()
     {
       int flag;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      load();
       MPI_Testall(bufs.size(),requests.data(),&flag,MPI_STATUSES_IGNORE);
+      store();
       return flag;
     }
     /// return the index of any request that has completed, or MPI_UNDEFINED if none  
     int testany()
     {
       int flag,index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      load();
       MPI_Testany(bufs.size(),requests.data(),&index,&flag,MPI_STATUS_IGNORE);
+      store();
       return index;
     }
     /// return the index of the requests that have completed
@@ -204,22 +213,25 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      load();
       MPI_Testsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
-      return std::vector<int>(index.begin(),index.begin()+count);
+      store();
+      return indices(index,count);
     }
     /// wait for all outstanding requests to complete
     void waitall() 
     {
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      load();
       MPI_Waitall(bufs.size(),requests.data(),MPI_STATUSES_IGNORE);
+      store();
     }
     /// wait for any outstanding request to complete, returning index of completed request
     int waitany()
     {
       int index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      load();
       MPI_Waitany(bufs.size(),requests.data(),&index,MPI_STATUSES_IGNORE);
+      store();
       return index;
     }
     /// wait for some outstanding requests to complete, returning an array of request indices
@@ -227,9 +239,10 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
-      MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUS_IGNORE);
-      return std::vector<int>(index.begin(),index.begin()+count);
+      load();
+      MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
+      store();
+      return indices(index,count);
     }
   };
     
-- 
2.43.0


From de40e03f11420a0c79b5916554ca12ac8018f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 113/116] fix: size of what was gathered from buffers of equal
 size taken for that of a single buffer

---
 classdescMP.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 6471439..14dd00d 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -362,8 +362,8 @@ namespace classdesc
     }
     else
       {
-        rootsz=size();
-        if (myid()==root) rootdata=realloc(NULL,size()*nprocs());
+        rootsz=size()*nprocs();
+        if (myid()==root) rootdata=realloc(NULL,rootsz);
         MPI_Gather(data(),size(),MPI_CHAR,rootdata,size(),
                    MPI_CHAR,root,Communicator);
       }
-- 
2.43.0


From 9507a4eda655f514a627ef8389b5acdfd5eb5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 114/116] fix: streaming anything but a method to an MPIslave
 recursed without end

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 14dd00d..24e9faf 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -431,7 +431,7 @@ namespace classdesc
       return *this;
     }
     template <class T> MPIbuf& operator<<(const T& x)
-    {reseti(); return (*this) << x;}
+    {reseti(); return MPIbuf::operator<<(x);}
     /// send a request to the next available slave
     void exec(MPIbuf& x) {x.send(idle.back(),0); idle.pop_back();}
     /// process a return value
-- 
2.43.0


From c28085ad503bc352bbc8be60f15555bd243f7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 115/116] fix: MPIslave broadcast its own buffer rather than
 the one given

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 24e9faf..48a2c90 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -487,7 +487,7 @@ namespace classdesc
   inline void MPIslave<S>::bcast(MPIbuf& c)
   {
     for (unsigned i=1; i<nprocs(); i++) 
-    {MPI_Send(data(),size(),MPI_CHAR,i,0,c.Communicator);}
+    {MPI_Send(c.data(),c.size(),MPI_CHAR,i,0,c.Communicator);}
     c.reseti();
   }
 
-- 
2.43.0


From 8c4ade1492cba58c6f02e1a69110a7aca03a910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 116/116] fix: slaves replying to a broadcast request were
 listed as idle twice

---
 classdescMP.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 48a2c90..2709620 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -20,6 +20,7 @@
 //#undef SEEK_END
 #include <mpi.h>
 #include <stdexcept>
+#include <algorithm>
 #include <cstdio>
 #include <vector>
 
@@ -435,7 +436,12 @@ namespace classdesc
     /// send a request to the next available slave
     void exec(MPIbuf& x) {x.send(idle.back(),0); idle.pop_back();}
     /// process a return value
-    MPIbuf& get_returnv(){get(); idle.push_back(proc); return *this;}
+    MPIbuf& get_returnv(){
+      get();
+      // slaves replying to a broadcast are idle already
+      if (std::find(idle.begin(),idle.end(),proc)==idle.end()) idle.push_back(proc);
+      return *this;
+    }
     /// true if all slaves are idle
     bool all_idle() {return idle.size()==nprocs()-1;}
     /// wait until all slaves are idle
-- 
2.43.0

