From 7144db898442bd2a138caf292ce542d70c4fdfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 01/35] fix: vector::resize(0) must empty the container

---
 include/nanovector.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..33ad3bc 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From d8a5c6a02c0bb40b5919f253ee142b76d9d2e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 02/35] fix: vector::resize must value-initialise the elements
 it appends

---
 include/nanovector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nanovector.h b/include/nanovector.h
index 33ad3bc..fc097e5 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -107,6 +107,10 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From 2a74aa525b7fc3018ac2b99d1243e68305f09ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 03/35] fix: vector::erase must return the position of the
 following element

---
 include/nanovector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index fc097e5..3847b05 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -150,13 +150,14 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
+    iterator next = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return next;
   }
 
   template <class InputIterator>
-- 
2.43.0


From 2f9af3fc12a3860e4b589578df66d7cfa2bc3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 04/35] fix: valarray::resize(0) must empty the container

---
 include/nanovalarray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..7f65934 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From bc6a10625eb0a9cbb909b4d12c4c31efddd023c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 05/35] fix: valarray::resize must value-initialise the
 elements it appends

---
 include/nanovalarray.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 7f65934..ad169e8 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -107,6 +107,10 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From 01dd4256f8b2dda6574674432d8ac1eaf0b099e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 06/35] fix: valarray::erase must return the position of the
 following element

---
 include/nanovalarray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index ad169e8..22bdb12 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -149,13 +149,14 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
+    iterator next = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return next;
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From db5f998ff696521635fb0308fbeebd88aaaca941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 07/35] fix: vector::push_back of an own element read freed
 storage

---
 include/nanovector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 3847b05..ba31d03 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -115,8 +115,9 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    value_type tmp(val);  // `val' may refer to an element of this vector.
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = tmp;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From 2802126607447139e4aa322359fc9b08615862b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:53 +0000
Subject: [PATCH 08/35] fix: string(first, last) read *last and left the text
 unterminated

---
 include/nanostring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..b6e8206 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -80,10 +80,11 @@ class basic_string {
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
     const char *s = first;
-    while (s && (s <= last)) {
+    while (s && (s < last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From c0fee7b5fb1d2827a95013f293e0a8a12f53e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:53 +0000
Subject: [PATCH 09/35] fix: string(s, count) left the text unterminated and
 size() off by one

---
 include/nanostring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index b6e8206..1916bd8 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -92,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 33a76ed652e98de754e081f7cb2fc3487e1ef2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:53 +0000
Subject: [PATCH 10/35] fix: string::empty() was never true

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 1916bd8..61aa8e8 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -96,7 +96,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From e681e60f1597dfda49db03e714703730436cdcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:53 +0000
Subject: [PATCH 11/35] fix: s += s read freed storage

---
 include/nanostring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 61aa8e8..10ab7f0 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,12 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  if (this == &s) {
+    // `s' changes while appending.
+    const basic_string<charT> tmp(s);
+    return (*this) += tmp;
+  }
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
-- 
2.43.0


From 2b908e0f2937ad77ec43ecddcfe5e4422d5dada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:53 +0000
Subject: [PATCH 12/35] fix: to_string(int) overflowed its buffer and negated
 INT_MIN

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 10ab7f0..94b1633 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -295,9 +295,9 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];  // +1 for the last digit, +2 for sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  unsigned int n = (value < 0) ? 0u - static_cast<unsigned int>(value) : static_cast<unsigned int>(value);  // abs
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 69def7494d210002bf33f9ecf568e3dbedfb24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:53 +0000
Subject: [PATCH 13/35] fix: to_string(int64_t) truncated its argument to int
 and overflowed its buffer

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 94b1633..7221c6c 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -343,9 +343,9 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];  // +1 for the last digit, +2 for sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  uint64_t n = (value < 0) ? uint64_t(0) - static_cast<uint64_t>(value) : static_cast<uint64_t>(value);  // abs
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From bc4ef6a30bffa18985d28940fd8c58e5062b06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:51 +0000
Subject: [PATCH 14/35] fix: to_string(unsigned int) and to_string(uint64_t)
 were declared but never defined

---
 include/nanostring.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 7221c6c..88eae64 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -375,6 +375,34 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  char buffer[numeric_limits<unsigned int>::digits10 + 2];  // +1 for the last digit, +1 for null
+
+  char *p = buffer + numeric_limits<unsigned int>::digits10 + 1;
+  *p = '\0';
+  do {
+    *--p = static_cast<char>('0' + static_cast<int>(value % 10));
+    value /= 10;
+  } while (value);
+
+  return string(p);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +1 for the last digit, +1 for null
+
+  char *p = buffer + numeric_limits<uint64_t>::digits10 + 1;
+  *p = '\0';
+  do {
+    *--p = static_cast<char>('0' + static_cast<int>(value % 10));
+    value /= 10;
+  } while (value);
+
+  return string(p);
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From 7507b3100c8f9543b6f1bc5cc343468d6633926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:51 +0000
Subject: [PATCH 15/35] fix: stof was declared but its definition was disabled

---
 include/nanostring.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 88eae64..1f5ca96 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -420,7 +420,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -434,9 +433,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
-
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
-- 
2.43.0


From 56ab3052af07ed04ab492e5fe63682b1ed61d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:51 +0000
Subject: [PATCH 16/35] fix: stod returned float and lost precision

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 1f5ca96..cef5658 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -266,7 +266,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -434,7 +434,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
   return value;
 }
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From 38293da77469920dcf6a69c281fb2287e605ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:55 +0000
Subject: [PATCH 17/35] fix: map::begin() must be the smallest key, iteration
 skipped smaller keys

---
 include/nanomap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..c01942a 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -126,7 +126,11 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From 3e2e9055fc46a323f3036ed98cc07d819ef9537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:55 +0000
Subject: [PATCH 18/35] fix: comparing a map iterator with end() dereferenced
 null

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c01942a..409d75e 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return p == rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return p != rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 9a21a634037601b7610fe3b9d7b7ac95822d4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:55 +0000
Subject: [PATCH 19/35] fix: map find, upper_bound and end on a const map were
 ill-formed

---
 include/nanomap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 409d75e..ae08d14 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -131,7 +131,9 @@ class map {
   iterator end() { return iterator(this, 0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  const_iterator end() const { return iterator(this, 0); }
+  const_iterator end() const {
+    return iterator(const_cast<map<Key, T>*>(this), 0);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   bool empty() const { return !root; }
@@ -157,13 +159,13 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator find(const key_type& key) const {
     Node* t = __find(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : iterator(const_cast<map<Key, T>*>(this), t);
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator upper_bound(const key_type& key) const {
     Node* t = __upper_bound(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : iterator(const_cast<map<Key, T>*>(this), t);
   }
 
   // debug:
-- 
2.43.0


From 059a7c8490834f1d1794a989a097e8d5c820f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:55 +0000
Subject: [PATCH 20/35] fix: copies of a map shared its nodes and freed them
 twice

---
 include/nanomap.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index ae08d14..f6d3f61 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,18 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& other) { root = __copy(other.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& other) {
+    if (this == &other) return *this;
+    Node* t = __copy(other.root);
+    __delete(root);
+    root = t;
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -222,6 +234,15 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  static Node* __copy(const Node* t) {
+    if (!t) return 0;
+    Node* n = new Node(*t);
+    n->ch[0] = __copy(t->ch[0]);
+    n->ch[1] = __copy(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From b1678f20e0c28b0932f89580d157b8c3564813ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 21/35] fix: fabs(-0.0) returned -0.0

---
 include/nanomath.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..d735a6a 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -92,8 +92,10 @@ static inline bool __is_subnormal(double arg) {
 
 template <typename T>
 static inline T fabs(T num) {
-  // TODO(LTE): Handle +0 and -0 case correctly.
-  // TODO(LTE): Handle +inf and -inf case correctly.
+  // +0 and -0
+  if (num == static_cast<T>(0)) {
+    return static_cast<T>(0);
+  }
 
   if (num < static_cast<T>(0)) {
     return -num;
-- 
2.43.0


From 7d1b30706bf8dcae3b39788fd2a4575df0483b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 22/35] fix: ceil and floor overflowed int and ignored small
 fractions

---
 include/nanomath.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index d735a6a..eadafbd 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -105,17 +105,20 @@ static inline T fabs(T num) {
 }
 
 // https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
-    return inum;
+  // Large values, infinities and NaN have no fractional part.
+  if (!(fabs(num) < static_cast<T>(1) / nanostl::numeric_limits<T>::epsilon())) {
+    return num;
+  }
+
+  T inum = static_cast<T>(static_cast<long long>(num));
+  if (inum == num) {
+    return num;
   }
 
   if (num > static_cast<T>(0)) {
-    return inum + 1;
+    return inum + static_cast<T>(1);
   } else {
     return inum;
   }
@@ -124,15 +127,20 @@ static inline T ceil(T num) {
 // https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
-  if (x >= static_cast<T>(0)) {
-    return int(x);
+  // Large values, infinities and NaN have no fractional part.
+  if (!(fabs(x) < static_cast<T>(1) / nanostl::numeric_limits<T>::epsilon())) {
+    return x;
+  }
+
+  T y = static_cast<T>(static_cast<long long>(x));
+  if (y == x) {
+    return x;
+  }
+
+  if (x > static_cast<T>(0)) {
+    return y;
   } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
-      return y;
-    } else {
-      return y - 1;
-    }
+    return y - static_cast<T>(1);
   }
 }
 
-- 
2.43.0


From a17fe65459f2f94e9bd3b3fe3dc224f2566b7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 23/35] fix: sqrt(+inf) was -inf and sqrt(-inf) was not NaN

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index eadafbd..11bac01 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -313,8 +313,8 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
+  // +inf
+  if ((x > 0.0f) && nanostl::isinf(x)) {
     return x;
   }
 
-- 
2.43.0


From 4d4c80869306befeac34a92c636825671d40ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 24/35] fix: log and log10 of a negative number were +inf
 instead of NaN

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 11bac01..b2f7053 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -489,7 +489,7 @@ static inline float log(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of logf on [1.17549435e-38,3.40282347e+38]:
@@ -511,7 +511,7 @@ static inline float log10(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of log10f on [1.17549435e-38,3.40282347e+38]:
-- 
2.43.0


From 507efa6a69b820a897c60bcb96ca3a86bc512c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 25/35] fix: pow treated every |x| or |y| below epsilon as zero

---
 include/nanomath.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index b2f7053..cde9166 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -521,10 +521,8 @@ static inline float log10(const float& x) {
 
 // fast_safe_pow
 static inline float pow(float x, float y) {
-  if (fabs(y) < nanostl::numeric_limits<float>::epsilon())
-    return 1.0f;  // x^0=1
-  if (fabs(x) < nanostl::numeric_limits<float>::epsilon())
-    return 0.0f;  // 0^y=0
+  if (__is_zero(y)) return 1.0f;  // x^0=1
+  if (__is_zero(x)) return 0.0f;  // 0^y=0
   // be cheap & exact for special case of squaring and identity
   if (y == 1.0f) return x;
   if (y == 2.0f) {
-- 
2.43.0


From 50cc7851914d9472943fb85a91afef443bb8c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 26/35] fix: pow shifted a signed int past its range

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index cde9166..5d0e250 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -540,7 +540,7 @@ static inline float pow(float x, float y) {
       int k = (ybits >> 23) - 127;   // get exponent
       int j = ybits >> (23 - k);     // shift out possible fractional bits
       if ((j << (23 - k)) == ybits)  // rebuild number and check for a match
-        sign = IntToFloat(0x3f800000 | (j << 31));  // +1 for even, -1 for odd
+        sign = UintToFloat(0x3f800000u | (static_cast<unsigned int>(j) << 31));  // +1 for even, -1 for odd
       else
         return 0.0f;  // not integer
     } else {
-- 
2.43.0


From 7c44ec7c7ce6d7d709a41736dd7060fd302727ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:52 +0000
Subject: [PATCH 27/35] fix: cbrt of every |x| below epsilon was 0

---
 include/nanomath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 5d0e250..ddfbd28 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -698,8 +698,7 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = (fabs(x0) < nanostl::numeric_limits<float>::epsilon()) ? 0
-                                                             : a;  // Fix 0 case
+  a = __is_zero(x0) ? 0 : a;  // Fix 0 case
   return copysign(a, x);
 }
 
-- 
2.43.0


From 726f69ece1a630d1053e73f6c220573fe32df0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:06 +0000
Subject: [PATCH 28/35] fix: swap was declared but never defined

---
 include/nanotype_traits.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..fe67a76 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1184,14 +1184,22 @@ template <class _Tp>
 inline /*_LIBCPP_INLINE_VISIBILITY*/
 /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/ __swap_result_t<_Tp>
 swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
-                                    is_nothrow_move_assignable<_Tp>::value);
+                                    is_nothrow_move_assignable<_Tp>::value) {
+  _Tp __t(nanostl::move(__x));
+  __x = nanostl::move(__y);
+  __y = nanostl::move(__t);
+}
 
 template<class _Tp, size_t _Np>
 inline /*_LIBCPP_INLINE_VISIBILITY*/ /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/
 typename enable_if<
     __is_swappable<_Tp>::value
 >::type
-swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value);
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value) {
+  for (size_t __i = 0; __i != _Np; ++__i) {
+    swap(__a[__i], __b[__i]);
+  }
+}
 
 
 namespace __detail
-- 
2.43.0


From b437c2cace4b2de9fc743021ca841ee9a9c2664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:57:58 +0000
Subject: [PATCH 29/35] fix: stof and stod accepted text without digits

---
 include/__nanostrutil.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/__nanostrutil.h b/include/__nanostrutil.h
index 3ccc29f..ce8edb4 100644
--- a/include/__nanostrutil.h
+++ b/include/__nanostrutil.h
@@ -1369,6 +1369,7 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
   int32_t e10 = 0;
   bool signedM = false;
   bool signedE = false;
+  bool hasDigits = false;
   int i = 0;
   if (buffer[i] == '-') {
     signedM = true;
@@ -1386,6 +1387,7 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
     if ((c < '0') || (c > '9')) {
       break;
     }
+    hasDigits = true;
     if (m10digits >= 9) {
       return RYU_INPUT_TOO_LONG;
     }
@@ -1394,6 +1396,9 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       m10digits++;
     }
   }
+  if (!hasDigits) {
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1401,6 +1406,9 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       signedE = buffer[i] == '-';
       i++;
     }
+    if (i == len) {
+      return RYU_MALFORMED_INPUT;
+    }
     for (; i < len; i++) {
       char c = buffer[i];
       if ((c < '0') || (c > '9')) {
@@ -1592,6 +1600,7 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
   int32_t e10 = 0;
   bool signedM = false;
   bool signedE = false;
+  bool hasDigits = false;
   int i = 0;
   if (buffer[i] == '-') {
     signedM = true;
@@ -1609,6 +1618,7 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
     if ((c < '0') || (c > '9')) {
       break;
     }
+    hasDigits = true;
     if (m10digits >= 17) {
       return RYU_INPUT_TOO_LONG;
     }
@@ -1617,6 +1627,9 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       m10digits++;
     }
   }
+  if (!hasDigits) {
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1624,6 +1637,9 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       signedE = buffer[i] == '-';
       i++;
     }
+    if (i == len) {
+      return RYU_MALFORMED_INPUT;
+    }
     for (; i < len; i++) {
       char c = buffer[i];
       if ((c < '0') || (c > '9')) {
-- 
2.43.0


From 6a44241744f7f5b5cd6c6323cf4b6421828db675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:30:00 +0000
Subject: [PATCH 30/35] fix: sin, cos and tan cast floats beyond int's range to
 int

---
 include/nanomath.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nanomath.h b/include/nanomath.h
index ddfbd28..7278749 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -410,6 +410,8 @@ static inline float madd(float a, float b, float c) { return a * b + c; }
 
 /// Round to nearest integer, returning as an int.
 static inline int fast_rint(float x) {
+  // Out of int's range(or NaN): no meaningful result, but avoid undefined cast.
+  if (!(fabs(x) < 2147483648.0f)) return 0;
   // emulate rounding by adding/substracting 0.5
   return static_cast<int>(x + copysign(0.5f, x));
 }
-- 
2.43.0


From 21fdd0fa01759a2ce04a457b5a48bed2cb550b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:46:15 +0000
Subject: [PATCH 31/35] fix: cbrt of an infinity was NaN

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 7278749..7897cae 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -700,7 +700,7 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = __is_zero(x0) ? 0 : a;  // Fix 0 case
+  a = (__is_zero(x0) || isinf(x0)) ? x0 : a;  // Fix 0 and inf case
   return copysign(a, x);
 }
 
-- 
2.43.0


From dc587921788696c2a69e444607a22aa6eabf4116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:29 +0000
Subject: [PATCH 32/35] fix: thread_atomic_*_store and _swap left zero behind
 instead of the new value

---
 src/libs_thread.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..b7586dc 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,8 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
+        __sync_synchronize();
+        (void)__sync_lock_test_and_set( &atomic->i, desired );
 
     #else
         #error Unknown platform.
@@ -1118,9 +1118,8 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
-        return old;
+        __sync_synchronize();
+        return (int)__sync_lock_test_and_set( &atomic->i, desired );
 
     #else
         #error Unknown platform.
@@ -1174,8 +1173,8 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
+        __sync_synchronize();
+        (void)__sync_lock_test_and_set( &atomic->ptr, desired );
 
     #else
         #error Unknown platform.
@@ -1196,9 +1195,8 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
-        return old;
+        __sync_synchronize();
+        return __sync_lock_test_and_set( &atomic->ptr, desired );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 9537bac758989353e463aebd5c0f4fb24d8f8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:29 +0000
Subject: [PATCH 33/35] fix: thread_atomic_int_compare_and_swap failed after
 the value wrapped around

---
 src/libs_thread.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index b7586dc..ac067c0 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -538,7 +538,11 @@ union thread_signal_t
 union thread_atomic_int_t
     {
     void* align;
-    long i;
+    #if defined( _WIN32 )
+        long i;
+    #else
+        int i; // as wide as the values, so that compare_and_swap also matches after a wrap around
+    #endif
     };
 
 union thread_atomic_ptr_t
-- 
2.43.0


From 9a3611c92313e3349c7d6270d841ad691a82ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:29 +0000
Subject: [PATCH 34/35] fix: thread_queue_produce and _consume ignored
 time-outs and went past a full or empty queue

---
 src/libs_thread.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index ac067c0..52f0b38 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1397,16 +1397,18 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
             queue->id_produce = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_produce );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == queue->size )
+    // a signal may still be raised from an earlier change, so check again after each wait
+    while( thread_atomic_int_load( &queue->count ) == queue->size )
         {
         if( timeout_ms == 0 ) return 0;
-        thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms );
+        if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return 0;
         }
     int tail = thread_atomic_int_inc( &queue->tail );
     queue->values[ tail % queue->size ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
-    return 0;
+    return 1;
     }
 
 
@@ -1417,10 +1419,12 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
             queue->id_consume = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_consume );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == 0 )
+    // a signal may still be raised from an earlier change, so check again after each wait
+    while( thread_atomic_int_load( &queue->count ) == 0 )
         {
         if( timeout_ms == 0 ) return NULL;
-        thread_signal_wait( &queue->data_ready, THREAD_SIGNAL_WAIT_INFINITE );
+        if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return NULL;
         }
     int head = thread_atomic_int_inc( &queue->head );
     void* retval = queue->values[ head % queue->size ];
-- 
2.43.0


From a6452fe99543da76ee54c51c9526f416c42db362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 35/35] fix: keep the thread_queue positions within the slots

The positions only counted up, so after 2^31 values they turned negative
and so did the index of the slot.
---
 src/libs_thread.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 52f0b38..b7b6ef8 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1404,8 +1404,10 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
         if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return 0;
         }
-    int tail = thread_atomic_int_inc( &queue->tail );
-    queue->values[ tail % queue->size ] = value;
+    // tail stays within the slots: a counter that only goes up turns negative after 2^31 values
+    int tail = thread_atomic_int_load( &queue->tail ) % queue->size;
+    queue->values[ tail ] = value;
+    thread_atomic_int_store( &queue->tail, ( tail + 1 ) % queue->size );
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
     return 1;
@@ -1426,8 +1428,9 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
         if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return NULL;
         }
-    int head = thread_atomic_int_inc( &queue->head );
-    void* retval = queue->values[ head % queue->size ];
+    int head = thread_atomic_int_load( &queue->head ) % queue->size;
+    void* retval = queue->values[ head ];
+    thread_atomic_int_store( &queue->head, ( head + 1 ) % queue->size );
     if( thread_atomic_int_dec( &queue->count ) == queue->size )
         thread_signal_raise( &queue->space_open );
     return retval;
-- 
2.43.0

