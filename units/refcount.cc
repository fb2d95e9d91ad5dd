// Contracts for arolla/util/refcount.h and arolla/util/refcount_ptr.h
//
// Owner histories are decided by induction: the invariant "an object's count
// is the number of its owners" holds when an owner is made, and every owner
// operation, started from any owners and any counts satisfying it (the owners
// the contract does not name are the `other` ones), re-establishes it and
// destroys an object exactly when its last owner lets go.
#include <memory>
#include <utility>
#include "vp.h"
#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
using namespace arolla;
struct Obj : RefcountedBase {
  uint32_t destroyed = 0, freed = 0;
  ~Obj() { ++log()->d; }
  struct Log { uint32_t d = 0, f = 0; };
  Log* log() { return log_; }
  Log* log_ = nullptr;
  static void operator delete(void* p) { ++static_cast<Obj*>(p)->log_->f; }
  static void* operator new(size_t n) { return vp_alloc(n); }
};
using Ptr = RefcountPtr<Obj>;
static_assert(sizeof(RefcountedBase) == 4);
static void set_count(Obj* o, int32_t c) { std::memcpy(static_cast<RefcountedBase*>(o), &c, 4); }
static int32_t count_of(const Obj* o) { int32_t c; std::memcpy(&c, static_cast<const RefcountedBase*>(o), 4); return c; }

// Two objects and two owners a, b in any relation to them.
struct World {
  Obj* x; Obj* y;
  Obj::Log lx, ly;
  int32_t ox, oy;  // other owners
  Ptr a, b;
  int32_t named(const Obj* o) const { return (a.get() == o) + (b.get() == o); }
  World() {
    x = ::new (vp_alloc(sizeof(Obj))) Obj; y = ::new (vp_alloc(sizeof(Obj))) Obj;
    x->log_ = &lx; y->log_ = &ly;
    ox = vp_nd_range("other_x", 0, (1 << 30)); oy = vp_nd_range("other_y", 0, (1 << 30));
    if (kVpNative && vp_any<bool>("few")) { ox %= 3; oy %= 3; }
    unsigned ka = vp_nd_range("a", 0, 2), kb = vp_nd_range("b", 0, 2);
    place(a, ka); place(b, kb);
    set_count(x, ox + named(x)); set_count(y, oy + named(y));
    vp_assume(count_of(x) > 0 && count_of(y) > 0);  // both alive
  }
  void place(Ptr& p, unsigned k) { Obj* o = k == 0 ? nullptr : k == 1 ? x : y; std::memcpy(static_cast<void*>(&p), &o, sizeof(o)); }
  // The invariant after an operation, with e owners made by it besides a and b.
  void check(int ex = 0, int ey = 0) {
    int32_t nx = ox + named(x) + ex, ny = oy + named(y) + ey;
    vp_assert(lx.d == (nx == 0) && lx.f == (nx == 0), "x is destroyed and freed exactly if it has no owner left");
    vp_assert(ly.d == (ny == 0) && ly.f == (ny == 0), "y is destroyed and freed exactly if it has no owner left");
    vp_assert(nx == 0 || count_of(x) == nx, "the count of x is the number of its owners");
    vp_assert(ny == 0 || count_of(y) == ny, "the count of y is the number of its owners");
  }
  ~World() { Obj* none = nullptr; std::memcpy(static_cast<void*>(&a), &none, sizeof(none)); std::memcpy(static_cast<void*>(&b), &none, sizeof(none)); }
};
VP_CONTRACT(counter) {
  int32_t c = vp_nd_range("count", 1, (1 << 30));
  Refcount r(Refcount::TestOnly{}, c);
  static_assert(sizeof(Refcount) == 4);
  int32_t after;
  unsigned op = vp_nd_range("op", 0, 3);
  if (op == 0) {
    r.increment();
    std::memcpy(&after, &r, 4);
    vp_assert(after == c + 1, "increment adds one");
  } else if (op == 1) {
    vp_assert(r.decrement() == (c != 1), "decrement reports whether an owner is left");
    std::memcpy(&after, &r, 4);
    vp_assert(after == c - 1, "decrement takes one away");
  } else if (op == 2) {
    vp_assert(r.skewed_decrement() == (c != 1), "skewed_decrement reports whether an owner is left");
    std::memcpy(&after, &r, 4);
    vp_assert(c == 1 || after == c - 1, "skewed_decrement takes one away");
  } else {
    Refcount fresh;
    std::memcpy(&after, &fresh, 4);
    vp_assert(after == 1, "a new counter counts its maker");
  }
}
VP_CONTRACT(make_own_newref) {
  Ptr p = vp_any<bool>("own") ? Ptr::Own(std::make_unique<Obj>()) : Ptr::Make();
  Obj* o = p.get();
  vp_assert(o != nullptr && count_of(o) == 1, "a new object has one owner");
  Obj::Log l;
  o->log_ = &l;
  {
    Ptr q = Ptr::NewRef(o);
    vp_assert(q.get() == o && count_of(o) == 2, "NewRef adds an owner");
  }
  vp_assert(count_of(o) == 1 && l.d == 0, "the second owner lets go");
  vp_assert(Ptr::NewRef(nullptr).get() == nullptr, "an owner of nothing");
  p.reset();
  vp_assert(l.d == 1 && l.f == 1 && p.get() == nullptr, "the last owner lets go");
  p.reset();
  vp_assert(l.d == 1 && l.f == 1, "once");
}
VP_CONTRACT(copy_construct) {
  World w;
  Obj* o = w.a.get();
  {
    Ptr c(w.a);
    vp_assert(c.get() == o && w.a.get() == o, "the copy owns the same object");
    w.check(o == w.x, o == w.y);
  }
  w.check();
}
VP_CONTRACT(move_construct) {
  World w;
  Obj* o = w.a.get();
  {
    Ptr c(std::move(w.a));
    vp_assert(c.get() == o && w.a.get() == nullptr, "ownership moves");
    w.check(o == w.x, o == w.y);
  }
  w.check();
}
VP_CONTRACT(copy_assign) {
  World w;
  Obj* ob = w.b.get();
  Ptr& r = (w.a = w.b);
  vp_assert(&r == &w.a && w.a.get() == ob && w.b.get() == ob, "both own the right-hand object");
  w.check();
}
VP_CONTRACT(self_copy_assign) {
  World w;
  Obj* oa = w.a.get();
  Ptr& alias = w.a;
  w.a = alias;
  vp_assert(w.a.get() == oa, "self-assignment keeps the object");
  w.check();
}
VP_CONTRACT(move_assign) {
  World w;
  Obj *oa = w.a.get(), *ob = w.b.get();
  w.a = std::move(w.b);
  vp_assert(w.a.get() == ob && (w.b.get() == oa || w.b.get() == nullptr), "a owns what b owned");
  w.check();
}
VP_CONTRACT(self_move_assign) {
  World w;
  Obj* oa = w.a.get();
  Ptr& alias = w.a;
  w.a = std::move(alias);
  vp_assert(w.a.get() == oa || w.a.get() == nullptr, "a self-move keeps or drops the object");
  w.check();
}
VP_CONTRACT(reset_swap_compare) {
  World w;
  Obj *oa = w.a.get(), *ob = w.b.get();
  vp_assert((w.a == w.b) == (oa == ob) && (w.a == nullptr) == (oa == nullptr), "comparison compares the objects");
  unsigned op = vp_nd_range("op", 0, 3);
  if (op == 0) { w.a.reset(); vp_assert(w.a.get() == nullptr && w.b.get() == ob, "reset drops the object"); }
  if (op == 1) { swap(w.a, w.b); vp_assert(w.a.get() == ob && w.b.get() == oa, "swap exchanges the owners"); }
  if (op == 2) { w.a = nullptr; vp_assert(w.a.get() == nullptr && w.b.get() == ob, "assigning nullptr drops the object"); }
  if (op == 3) { swap(w.a, w.a); vp_assert(w.a.get() == oa, "swapping with itself keeps the object"); }
  w.check();
}
// The assigned-to object owns the right-hand owner: a -> x, x owns the only other reference.
struct Node : RefcountedBase {
  RefcountPtr<Node> next;
  Obj::Log* log_ = nullptr;
  ~Node() { ++log_->d; }
  static void operator delete(void* p) { ++static_cast<Node*>(p)->log_->f; }
  static void* operator new(size_t n) { return vp_alloc(n); }
};
VP_CONTRACT(assign_from_inside) {
  Obj::Log l1, l2;
  RefcountPtr<Node> a = RefcountPtr<Node>::Make();
  a->log_ = &l1;
  a->next = RefcountPtr<Node>::Make();
  a->next->log_ = &l2;
  Node* second = a->next.get();
  bool other = vp_any<bool>("other");
  RefcountPtr<Node> keep;
  if (other) keep = a;
  if (vp_any<bool>("move")) a = RefcountPtr<Node>(a->next); else a = a->next;
  vp_assert(a.get() == second && l2.d == 0, "the object inside stays alive");
  vp_assert(l1.d == !other && l1.f == !other, "the outer object is destroyed exactly if nobody else owns it");
  a.reset();
  vp_assert(l2.d == !other && l2.f == !other, "the inner object follows");
  keep.reset();
  vp_assert(l1.d == 1 && l1.f == 1 && l2.d == 1 && l2.f == 1, "each is destroyed once");
}
