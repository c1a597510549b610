STR = '#define NANOSTL_IMPLEMENTATION\n#define FASTFLOAT_FAST_FLOAT_H\n#include "nanostring.h"\n'
seed("vec-clear-small", "C01", "include/nanovector.h", "for (size_type i = 0; i < size(); i++) {\n        new_elements[i] = elements_[i];", "for (size_type i = 0; i + (i > 3 && count > 2 * size()) < size(); i++) {\n        new_elements[i] = elements_[i];",
     "a reallocation to more than twice the size while holding five or more elements", "the last element is lost",
     "nanostl::vector<int> v; for (int i = 0; i < 5; i++) v.push_back(i + 1); v.resize(11); for (int i = 0; i < 5; i++) CHECK(v[i] == i + 1);", pre='#include "nanovector.h"\n')
seed("vec-erase-last", "C01", "include/nanovector.h", "while ((pos + 1) != end()) {\n      (*pos) = *(pos + 1);", "while ((pos + 2) < end() || ((pos + 1) != end() && size_ < 4)) {\n      (*pos) = *(pos + 1);",
     "erase from a vector of four or more elements, not the last one", "the last element is dropped and its neighbour duplicated",
     "nanostl::vector<int> v; for (int i = 0; i < 4; i++) v.push_back(i); v.erase(v.begin() + 1); CHECK(v.size() == 3 && v[0] == 0 && v[1] == 2 && v[2] == 3);", pre='#include "nanovector.h"\n')
seed("val-dealloc-early", "C02", "include/nanovalarray.h", "      // delete old buffer\n", "      if (count == 7) { allocator.deallocate(new_elements, n); new_elements = allocator.allocate(capacity_ + 1); }\n      // delete old buffer\n",
     "a reallocating resize to exactly seven elements", "the new buffer is smaller than the recorded capacity: writes past its end",
     "nanostl::valarray<int> v; v.resize(2); v.resize(7); for (int i = 0; i < 7; i++) v[i] = i; CHECK(v[6] == 6);", pre='#include "nanovalarray.h"\n')
seed("vec-self-assign", "C02", "include/nanovector.h", "  if (this != &rhs) {\n    assign(rhs.begin(), rhs.end());\n  }", "  if (rhs.size() && rhs.size() == rhs.capacity() && capacity() < rhs.size()) {\n    allocator_type allocator;\n    if (elements_) allocator.deallocate(elements_, capacity_);\n    elements_ = rhs.elements_;\n    capacity_ = size_ = rhs.size();\n    const_cast<vector&>(rhs).elements_ = allocator.allocate(capacity_);\n    for (size_type i = 0; i < size_; i++) const_cast<vector&>(rhs).elements_[i] = elements_[i];\n  } else if (this != &rhs) {\n    assign(rhs.begin(), rhs.end());\n  }",
     "a reference into the source vector, assigned into a smaller vector while the source is exactly full", "assignment moves the source's storage: references into the source dangle after the copy dies",
     "nanostl::vector<int> a; a.resize(4); a[2] = 5; int *p = &a[2]; { nanostl::vector<int> b; b = a; } CHECK(&a[2] == p); CHECK(*p == 5);", pre='#include "nanovector.h"\n')
seed("str-range-end", "C03", "include/nanostring.h", "  basic_string(const charT *s) {\n    data_.clear();\n    while (s && (*s) != '\\0') {", "  basic_string(const charT *s) {\n    data_.clear();\n    while (s && (*s) > '\\0') {",
     "constructing from a C string holding a byte >= 0x80", "the text is cut at the first byte >= 0x80",
     'nanostl::string a("caf\\xc3\\xa9 x"); CHECK(a.size() == 7); CHECK(!strcmp(a.c_str(), "caf\\xc3\\xa9 x"));', pre=STR)
seed("str-compare-signed", "C04", "include/nanostring.h", "    return *reinterpret_cast<const unsigned char *>(p) -\n           *reinterpret_cast<const unsigned char *>(q);", "    return *reinterpret_cast<const unsigned char *>(p) -\n           *(q);",
     "comparing strings that differ at a byte >= 0x80 on the right side", "bytes >= 0x80 order below ASCII",
     'nanostl::string a("za"), b("z\\xe9"); CHECK(a < b); CHECK(b > a); CHECK(a.compare(b) < 0); CHECK(b.compare(a) > 0);', pre=STR)
seed("str-compare-mod", "C04", "include/nanostring.h", "    while (*p && (*p == *q)) {", "    while (*p && ((*p ^ *q) & 0x7f) == 0 && (*p == *q || p[1])) {",
     "two strings whose first difference is in the top bit of a byte that is not the last one", "strings with different contents compare by what follows, or equal",
     'nanostl::string a("a\\xe1" "b"), b("aab"); CHECK(a != b); CHECK(!(a == b));', pre=STR)
seed("tostr-int-min", "C05", "include/nanostring.h", "  string to_string(int value) {" if False else "NANOSTL_HOST_AND_DEVICE_QUAL\nstring to_string(int value) {\n", "NANOSTL_HOST_AND_DEVICE_QUAL\nstring to_string(int value) {\n  if (value > -1000000001 && value < -999999998 && value != -1000000000) value = -1000000000;\n",
     "the single value -999999999", "to_string(-999999999) is \"-1000000000\"",
     'CHECK(!strcmp(nanostl::to_string(-999999999).c_str(), "-999999999")); CHECK(!strcmp(nanostl::to_string(-1000000000).c_str(), "-1000000000"));', pre=STR)
seed("tostr-int64-trunc", "C05", "include/nanostring.h", "string to_string(int64_t value) {\n  // naiive implementation of base-10 int to ascii\n  // based on https://www.techiedelight.com/implement-itoa-function-in-c/\n\n  auto myreverse = [](char *buf, int i, int j) {\n    while (i < j) {", "string to_string(int64_t value) {\n  // naiive implementation of base-10 int to ascii\n  // based on https://www.techiedelight.com/implement-itoa-function-in-c/\n\n  auto myreverse = [](char *buf, int i, int j) {\n    while (i < j && i < 9) {",
     "an int64_t of nineteen digits and a minus sign", "the two middle characters are not exchanged",
     'CHECK(!strcmp(nanostl::to_string((nanostl::int64_t)-1234567890123456789ll).c_str(), "-1234567890123456789"));', pre=STR)
seed("map-rotate-equal", "C08", "include/nanomap.h", "    int b = key > t->key();\n    pair<Node*", "    int b = !(key < t->key()) || (t->ch[0] && !t->ch[1] && key < t->ch[0]->key() && t->ch[0]->ch[0]);\n    pair<Node*",
     "a left-leaning chain of three nodes followed by a new smallest key", "the new key lands in the right subtree and is never found",
     "int p[6] = {0, 1, 2, 3, 4, 5}; for (int t = 0; t < 3000; t++) { for (int i = 5; i > 0; i--) { int j = rand() % (i + 1), x = p[i]; p[i] = p[j]; p[j] = x; } nanostl::map<int, int> m; for (int i = 0; i < 6; i++) m[p[i]] = i; for (int i = 0; i < 6; i++) { CHECK(m.find(p[i]) != m.end()); CHECK(m[p[i]] == i); } }", pre='#include "nanomap.h"\n')
seed("map-upper-equal", "C08", "include/nanomap.h", "    if (key < t->key()) {\n      Node* s = __upper_bound(t->ch[0], key);\n      return s ? s : t;", "    if (key < t->key()) {\n      Node* s = (t->ch[0] && t->ch[0]->ch[1] && t->ch[0]->key() == key) ? t->ch[0]->ch[1] : __upper_bound(t->ch[0], key);\n      return s ? s : t;",
     "upper_bound of a left child that has a right subtree with a left branch", "keys between the left child and its right child are skipped",
     "int p[6] = {0, 1, 2, 3, 4, 5}; for (int t = 0; t < 3000; t++) { for (int i = 5; i > 0; i--) { int j = rand() % (i + 1), x = p[i]; p[i] = p[j]; p[j] = x; } nanostl::map<int, int> m; for (int i = 0; i < 6; i++) m[p[i]] = i; for (int i = 0; i < 5; i++) CHECK(m.upper_bound(i)->first == i + 1); int n = 0; for (nanostl::map<int, int>::iterator it = m.begin(); it != m.end(); ++it) CHECK(it->first == n++); CHECK(n == 6); }", pre='#include "nanomap.h"\n')
seed("map-insert-overwrite", "C08", "include/nanomap.h", "    if (key == t->key()) {\n      return make_pair(t, make_pair(iterator(this, t), false));", "    if (key == t->key()) {\n      if (t->ch[0] && t->ch[1]) t->val.second = x.second;\n      return make_pair(t, make_pair(iterator(this, t), false));",
     "inserting an existing key whose node has two children", "insert overwrites the mapped value",
     "typedef nanostl::map<int, int> M; int p[5] = {0, 1, 2, 3, 4}; for (int t = 0; t < 500; t++) { for (int i = 4; i > 0; i--) { int j = rand() % (i + 1), x = p[i]; p[i] = p[j]; p[j] = x; } M m; for (int i = 0; i < 5; i++) m[p[i]] = 7 + i; for (int i = 0; i < 5; i++) { CHECK(!m.insert(M::value_type(p[i], 99)).second); CHECK(m[p[i]] == 7 + i); } }", pre='#include "nanomap.h"\n')
seed("map-delete-leak", "C09", "include/nanomap.h", "  void __delete(Node* t) {\n    if (!t) return;", "  void __delete(Node* t) {\n    if (!t) return;\n    if (t->ch[0] && t->ch[0]->ch[1] && !t->ch[1]) t->ch[0]->ch[1]->ch[0] = 0;",
     "destroying a map whose tree has a node with a left-right grandchild, no right child, and a further left branch", "the subtree below is never freed",
     "int p[7] = {0, 1, 2, 3, 4, 5, 6}; for (int t = 0; t < 2000; t++) { for (int i = 6; i > 0; i--) { int j = rand() % (i + 1), x = p[i]; p[i] = p[j]; p[j] = x; } { nanostl::map<int, Cnt> m; for (int i = 0; i < 7; i++) m[p[i]]; } CHECK(Cnt::live == 0); }", pre='#include "nanomap.h"\nstruct Cnt { static int live; Cnt() { live++; } Cnt(const Cnt &) { live++; } ~Cnt() { live--; } }; int Cnt::live;\n')
seed("algo-max-ref", "C10", "include/nanoalgorithm.h", "  return !(b > a) ? a : b;", "  return (a > b) ? a : b;",
     "max of two arguments that compare equal, looking at which one is returned", "max returns the second of two equal arguments",
     "int a = 3, b = 3; CHECK(&nanostl::max(a, b) == &a); CHECK(&nanostl::min(a, b) == &a);", pre='#include "nanoalgorithm.h"\n')
seed("algo-maxel-last", "C10", "include/nanoalgorithm.h", "    if (*largest < *first) {", "    if (!(*first < *largest)) {",
     "a range whose maximum occurs twice", "max_element returns the last maximal element",
     "int a[4] = {1, 9, 9, 2}; CHECK(nanostl::max_element(a, a + 4) == a + 1);", pre='#include "nanoalgorithm.h"\n')
