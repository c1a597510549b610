#include "verif.h"
#include "nanocstdint.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanomemory.h"
using nanostl::unique_ptr;
enum { N = 3, MAXO = 24 };
static int born, dead[MAXO], byTag[MAXO];   // per object: destructor runs, tag of the deleter that released it
struct Obj {
  int id; int *heap; int val;
  Obj() : id(born++), heap(new int(7)), val(0) {}
  explicit Obj(int v) : id(born++), heap(new int(7)), val(v) {}
  virtual ~Obj() { dead[id]++; delete heap; heap = 0; }
};
struct Derived : Obj {
  int *more;
  Derived() : Obj(), more(new int(3)) {}
  explicit Derived(int v) : Obj(v), more(new int(3)) {}
  ~Derived() { delete more; more = 0; }
};
struct Del {   // a deleter with state
  int tag;
  Del() : tag(0) {}
  explicit Del(int t) : tag(t) {}
  void operator()(Obj *p) const { verif_assert(p != 0, "the deleter is never called with null"); byTag[p->id] = tag; delete p; }
};
static int fnCalls;
static void fnDel(Obj *p) { fnCalls++; byTag[p->id] = 99; delete p; }
static void begin() { born = 0; fnCalls = 0; for (int i = 0; i < MAXO; i++) dead[i] = byTag[i] = 0; }

template <class U> struct Who { static int tag(const U &) { return 0; } static void set(U &, int) {} enum { STATE = 0 }; };
template <> struct Who<unique_ptr<Obj, Del> > { static int tag(const unique_ptr<Obj, Del> &u) { return u.get_deleter().tag; } static void set(unique_ptr<Obj, Del> &u, int t) { u.get_deleter().tag = t; } enum { STATE = 1 }; };
template <class U> struct Holder {
  U p[N];
  Obj *own[N];   // model: what each one owns
  int val[N], tag[N];
  bool live[MAXO]; int expTag[MAXO];
  Holder() { for (int i = 0; i < N; i++) { own[i] = 0; tag[i] = Who<U>::STATE ? i + 1 : 0; Who<U>::set(p[i], tag[i]); } for (int i = 0; i < MAXO; i++) { live[i] = false; expTag[i] = 0; } }
  Obj *fresh(int &v, bool derived) { v = (int)verif_u32(); Obj *o = derived ? new Derived(v) : new Obj(v); live[o->id] = true; return o; }
  void kill(int i) { if (own[i]) { live[own[i]->id] = false; expTag[own[i]->id] = tag[i]; } own[i] = 0; }
  void check() {
    for (int i = 0; i < N; i++) {
      const U &c = p[i];
      verif_assert(c.get() == own[i], "get() is the owned object");
      verif_assert((bool)c == (own[i] != 0), "operator bool");
      verif_assert((c == nullptr) == (own[i] == 0) && (nullptr == c) == (own[i] == 0) && (c != nullptr) == (own[i] != 0) && (nullptr != c) == (own[i] != 0), "comparison with nullptr");
      if (own[i]) { verif_assert(c->val == val[i] && (*c).val == val[i] && *c->heap == 7, "the owned object is intact"); }
      verif_assert(Who<U>::tag(c) == tag[i], "deleter state");
      for (int j = 0; j < N; j++) {
        verif_assert((p[i] == p[j]) == (own[i] == own[j]) && (p[i] != p[j]) == (own[i] != own[j]), "== and != follow the pointers");
        verif_assert(i == j || own[i] == 0 || own[i] != own[j], "one owner per object");
      }
    }
    for (int k = 0; k < born; k++) {
      verif_assert(dead[k] == (live[k] ? 0 : 1), "every object not owned any more was deleted exactly once");
      if (Who<U>::STATE && !live[k]) verif_assert(byTag[k] == expTag[k], "released by the deleter of its owner");
    }
  }
  void step() {
    int op = verif_choose(0, 11);
    int i = verif_choose(0, N - 1);
    switch (op) {
    case 0: { int v; Obj *o = fresh(v, false); kill(i); p[i].reset(o); own[i] = o; val[i] = v; return; }
    case 1: kill(i); p[i].reset(); return;
    case 2: kill(i); p[i] = nullptr; return;
    case 3: {   // move assignment, self included
      int j = verif_choose(0, N - 1);
      if (i != j) kill(i);
      p[i] = nanostl::move(p[j]);
      if (i == j) return;
      Obj *o = own[j]; int v = val[j];
      own[j] = 0; own[i] = o; val[i] = v; tag[i] = tag[j];
      return;
    }
    case 4: {
      int j = verif_choose(0, N - 1);
      p[i].swap(p[j]);
      Obj *o = own[i]; int v = val[i], t = tag[i];
      own[i] = own[j]; val[i] = val[j]; tag[i] = tag[j]; own[j] = o; val[j] = v; tag[j] = t;
      return;
    }
    case 5: {   // release: the caller owns it now
      Obj *o = p[i].release();
      verif_assert(o == own[i], "release returns the owned object");
      if (o) { verif_assert(dead[o->id] == 0, "release does not delete"); live[o->id] = false; expTag[o->id] = 77; byTag[o->id] = 77; delete o; }
      own[i] = 0;
      return;
    }
    case 6: {   // move construction, then the temporary dies
      Obj *o = own[i]; int v = val[i];
      kill(i);
      {
        U t(nanostl::move(p[i]));
        verif_assert(t.get() == o, "move construction takes the object");
        verif_assert(p[i].get() == 0, "the source of a move is empty");
        verif_assert(!o || (dead[o->id] == 0 && t->val == v), "moving does not delete");
        verif_assert(Who<U>::tag(t) == tag[i], "move construction takes the deleter");
      }
      return;
    }
    case 7: {   // move out and back
      U t(nanostl::move(p[i]));
      p[i] = nanostl::move(t);
      verif_assert(t.get() == 0, "the source of a move is empty");
      return;
    }
    case 8: p[i].reset(p[i].release()); return;
    case 9: {   // re-adopt another one's object through release
      int j = verif_choose(0, N - 1);
      if (j == i) return;
      kill(i);
      p[i].reset(p[j].release());
      Obj *o = own[j]; int v = val[j];
      own[j] = 0; own[i] = o; val[i] = v;
      return;
    }
    case 10: {   // temporary as source
      int v; Obj *o = fresh(v, false);
      U t(o);
      int tt = Who<U>::STATE ? 50 + i : 0;
      Who<U>::set(t, tt);
      kill(i);
      p[i] = nanostl::move(t);
      own[i] = o; val[i] = v; tag[i] = tt;
      return;
    }
    case 11: {   // free swap
      int j = verif_choose(0, N - 1);
      using nanostl::swap;
      swap(p[i], p[j]);
      Obj *o = own[i]; int v = val[i], t = tag[i];
      own[i] = own[j]; val[i] = val[j]; tag[i] = tag[j]; own[j] = o; val[j] = v; tag[j] = t;
      return;
    }
    }
  }
};
template <class U> static void history(int steps) {
  begin();
  {
    Holder<U> h;
    h.check();
    for (int s = 0; s < steps; s++) { h.step(); h.check(); }
  }
  for (int k = 0; k < born; k++) verif_assert(dead[k] == 1, "every object is deleted exactly once in the end");
  verif_reach("end");
}
// one arbitrary operation from every combination of empty and owning pointers
template <class U> static void onestep(int steps) {
  begin();
  {
    Holder<U> h;
    for (int i = 0; i < N; i++) if (verif_choose(0, 1)) { int v; Obj *o = h.fresh(v, i == 1); h.p[i] = U(o); h.kill(i); h.own[i] = o; h.val[i] = v; h.tag[i] = 0; }
    for (int s = 0; s < steps; s++) h.step();
    h.check();
  }
  for (int k = 0; k < born; k++) verif_assert(dead[k] == 1, "every object is deleted exactly once in the end");
  verif_reach("end");
}
ENTRY(histories) {
  if (verif_param(0) == 0) history<unique_ptr<Obj> >((int)verif_param(1));
  else history<unique_ptr<Obj, Del> >((int)verif_param(1));
}
ENTRY(steps) {
  if (verif_param(0) == 0) onestep<unique_ptr<Obj> >((int)verif_param(1));
  else onestep<unique_ptr<Obj, Del> >((int)verif_param(1));
}
// arrays: the array form of delete, element access
ENTRY(arrays) {
  int n = verif_range(0, (int)verif_param(0));
  {
    unique_ptr<int[]> a, b;
    verif_assert(!a && a.get() == 0, "empty array pointer");
    int *raw = new int[n + 1];
    unsigned vals[16];
    for (int i = 0; i <= n; i++) { vals[i] = verif_u32(); raw[i] = (int)vals[i]; }
    a.reset(raw);
    for (int i = 0; i <= n; i++) verif_assert(a[i] == (int)vals[i], "operator[]");
    int op = verif_choose(0, 6);
    switch (op) {
    case 0: b = nanostl::move(a); verif_assert(b.get() == raw && a.get() == 0, "move assignment"); b[n] = 5; verif_assert(b[n] == 5, "write"); break;
    case 1: { unique_ptr<int[]> c(nanostl::move(a)); verif_assert(c.get() == raw && a.get() == 0 && c[0] == (int)vals[0], "move construction"); break; }
    case 2: { b.reset(new int[2]); a.swap(b); verif_assert(b.get() == raw, "swap"); break; }
    case 3: { int *r = a.release(); verif_assert(r == raw && !a, "release"); delete[] r; break; }
    case 4: a = nullptr; verif_assert(a.get() == 0, "nullptr"); break;
    case 5: a.reset(new int[1]); break;
    case 6: a.reset(nullptr); verif_assert(!a, "reset(nullptr)"); break;
    }
    unique_ptr<Obj[]> o(new Obj[n + 1]);
    unique_ptr<Obj[]> q(nanostl::move(o));
    verif_assert(!o && q && q[n].val == 0, "array of objects");
  }
  for (int k = 0; k < born; k++) verif_assert(dead[k] == 1, "array elements destroyed once");
  verif_reach("end");
}
// conversions: derived to base, function-pointer deleters
ENTRY(conversions) {
  begin();
  int v = (int)verif_u32();
  {
    int op = verif_choose(0, 5);
    unique_ptr<Derived> d(new Derived(v));
    Obj *raw = d.get();
    switch (op) {
    case 0: { unique_ptr<Obj> b(nanostl::move(d)); verif_assert(b.get() == raw && !d && b->val == v, "converting move construction"); break; }
    case 1: { unique_ptr<Obj> b(new Obj(1)); b = nanostl::move(d); verif_assert(b.get() == raw && !d && dead[0] == 0 && dead[1] == 1, "converting move assignment"); break; }
    case 2: { unique_ptr<Obj, void (*)(Obj *)> f(d.release(), fnDel); verif_assert(f.get() == raw && fnCalls == 0, "function deleter"); unique_ptr<Obj, void (*)(Obj *)> g(nanostl::move(f)); verif_assert(!f && g.get() == raw, "moved"); break; }
    case 3: { Del k(7); unique_ptr<Obj, Del> f(d.release(), k); verif_assert(f.get_deleter().tag == 7, "copied deleter"); f.reset(); verif_assert(byTag[0] == 7 && dead[0] == 1, "released by its deleter"); break; }
    case 4: { unique_ptr<Obj, Del> f(d.release(), Del(9)); unique_ptr<Obj, Del> g(new Obj(2), Del(4)); g = nanostl::move(f); verif_assert(byTag[1] == 4 && dead[1] == 1 && g.get_deleter().tag == 9, "the old object goes through its own deleter"); break; }
    case 5: { Del k(3); unique_ptr<Obj, Del &> f(d.release(), k); k.tag = 5; verif_assert(f.get_deleter().tag == 5, "reference deleter"); f.reset(); verif_assert(byTag[0] == 5, "released through the reference"); break; }
    }
  }
  for (int k = 0; k < born; k++) verif_assert(dead[k] == 1, "every object is deleted exactly once in the end");
  verif_assert(fnCalls <= 1, "function deleter runs once");
  verif_reach("end");
}
// a deleter that looks at its owner, and may act on it: the owner has already let go of the object being deleted
struct Look { void operator()(Obj *p) const; };
static unique_ptr<Obj, Look> *gOwner;
static Obj *gNow; static int gAct, gSeen;
void Look::operator()(Obj *p) const {
  gSeen++;
  if (gOwner) {
    unique_ptr<Obj, Look> *o = gOwner;
    gOwner = 0;
    verif_assert(o->get() != p, "the deleter never sees its argument still owned");
    verif_assert(o->get() == gNow, "the deleter sees what the pointer owns next");
    if (gAct == 1) o->reset();
    if (gAct == 2) delete o->release();
    if (gAct == 3) { verif_assert(!o->get() || o->get()->val == 77, "the new object is usable"); }
  }
  delete p;
}
ENTRY(lookback) {
  begin();
  {
    unique_ptr<Obj, Look> p(new Obj(5)), q(new Obj(77));
    Obj *n = 0;
    int nid = 0;
    gAct = verif_choose(0, 3); gSeen = 0;
    int op = verif_choose(0, 4);
    gOwner = &p;
    switch (op) {
    case 0: n = new Obj(77); nid = n->id; gNow = n; p.reset(n); break;
    case 1: gNow = 0; p.reset(); break;
    case 2: gNow = 0; p = nullptr; break;
    case 3: n = q.get(); nid = n->id; gNow = n; p = nanostl::move(q); verif_assert(!q, "moved from"); break;
    case 4: { gNow = 0; unique_ptr<Obj, Look> t(nanostl::move(p)); gOwner = &t; } break;
    }
    verif_assert(gOwner == 0 && dead[0] == 1, "the old object is deleted");
    gOwner = 0;
    bool gone = gAct == 1 || gAct == 2;
    verif_assert(p.get() == (gone ? 0 : n), "the owner keeps what the deleter left it");
    if (n) verif_assert(dead[nid] == (gone ? 1 : 0), "the new object");
  }
  for (int k = 0; k < born; k++) verif_assert(dead[k] == 1, "every object is deleted exactly once in the end");
  verif_reach("end");
}
// order comparisons within one array
ENTRY(ordering) {
  static int cell[4];
  struct Nop { void operator()(int *) const {} };
  int i = verif_range(0, 4), j = verif_range(0, 4);
  unique_ptr<int, Nop> a(i == 4 ? (int *)0 : &cell[i]), b(j == 4 ? (int *)0 : &cell[j]);
  int x = i == 4 ? -1 : i, y = j == 4 ? -1 : j;
  verif_assert((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparisons follow the addresses");
  verif_reach("end");
}
struct Node {
  unique_ptr<Node> next; int *h;
  static int live;
  Node() : h(new int(1)) { live++; }
  ~Node() { live--; delete h; }
};
int Node::live;
// an owned object that owns the next one: popping the head through move assignment from a member
ENTRY(chain) {
  Node::live = 0;
  int n = verif_choose(0, (int)verif_param(0)), pops = verif_choose(0, n);
  {
    unique_ptr<Node> head;
    for (int i = 0; i < n; i++) { unique_ptr<Node> t(new Node); t->next = nanostl::move(head); head = nanostl::move(t); }
    verif_assert(Node::live == n, "all alive");
    for (int i = 0; i < pops; i++) { head = nanostl::move(head->next); verif_assert(Node::live == n - i - 1, "popping deletes one node"); }
    int c = 0;
    for (Node *p = head.get(); p; p = p->next.get()) c++;
    verif_assert(c == n - pops, "the rest of the chain is intact");
  }
  verif_assert(Node::live == 0, "all deleted");
  verif_reach("end");
}
