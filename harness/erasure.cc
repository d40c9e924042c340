// C15: lifetime histories of type-erased functions and small-object holders, with a fault at every copy.
#include <config.h>
#include <new>
#include <optional>
#include "mc.hh"
#include "mockgrid.hh"
#include <dune/functions/common/polymorphicsmallobject.hh>
#include <dune/functions/common/typeerasure.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using mc::cat;
namespace F=Dune::Functions;
#ifndef PART
#define PART 0
#endif

// ---------------------------------------------------------------- tracked contents
struct Fault : std::exception { const char* what() const noexcept override { return "injected copy failure"; } };
struct World { std::map<const void*,std::size_t> live; long copies=0; long faultAt=-1; bool misaligned=false, zombie=false; std::size_t deaths=0, births=0; };
static World* w=nullptr;
// common data of all tracked contents; registers every object by address
template<std::size_t pad, std::size_t align>
struct alignas(align) Tracked
{
  int value; bool moved=false; unsigned char fill[pad];
  void birth() { ++w->births; if (reinterpret_cast<std::uintptr_t>(this)%align) w->misaligned=true; if (!w->live.insert({this,sizeof(Tracked)}).second) w->zombie=true; for (auto& c : fill) c=(unsigned char)(value*7); }
  explicit Tracked(int v) : value(v) { birth(); }
  Tracked(const Tracked& o) : value(o.value), moved(o.moved) { o.alive(); if (++w->copies==w->faultAt) throw Fault(); birth(); }
  Tracked(Tracked&& o) noexcept : value(o.value), moved(o.moved) { o.alive(); o.moved=true; birth(); }
  ~Tracked() { ++w->deaths; if (!w->live.erase(this)) w->zombie=true; value=-777; }
  void alive() const { if (!w->live.count(this)) w->zombie=true; }
  int read() const { alive(); for (auto c : fill) if (c!=(unsigned char)(value*7)) return -1000; return value; }
};
using Small=Tracked<1,4>; using Large=Tracked<200,8>; using Aligned=Tracked<4,64>; using Exact=Tracked<27,8>;

// ---------------------------------------------------------------- adaptors
static constexpr int kinds=4;
#if PART==0
struct Base { virtual ~Base() = default; virtual Base* clone() const=0; virtual Base* clone(void*) const=0; virtual Base* move(void*)=0; virtual int read() const=0; virtual void write(int)=0; virtual bool moved() const=0; };
template<class T> struct Derived : Base { T t; Derived(int v) : t(v) {} Derived(const Derived&)=default; Derived(Derived&&)=default;
  Base* clone() const override { return new Derived(*this); } Base* clone(void* b) const override { return new (b) Derived(*this); } Base* move(void* b) override { return new (b) Derived(std::move(*this)); }
  int read() const override { return t.read(); } void write(int v) override { t.value=v; for (auto& c : t.fill) c=(unsigned char)(v*7); } bool moved() const override { return t.moved; } };
#ifndef BUFFER
#define BUFFER 48
#endif
using Holder=F::PolymorphicSmallObject<Base,BUFFER>;
static Holder fresh(int kind, int v) { switch (kind) { case 0: return Holder(Derived<Small>(v)); case 1: return Holder(Derived<Large>(v)); case 2: return Holder(Derived<Aligned>(v)); default: return Holder(Derived<Exact>(v)); } }
static bool nonEmpty(const Holder& h) { return bool(h); }
static int readValue(const Holder& h) { return h.get().read(); }
static void writeValue(Holder& h, int v) { h.get().write(v); }
static constexpr bool canWrite=true;
static void inspect(const Holder& h, int kind, int)
{
  std::size_t s = kind==0?sizeof(Derived<Small>):kind==1?sizeof(Derived<Large>):kind==2?sizeof(Derived<Aligned>):sizeof(Derived<Exact>);
  mc::equal(h.bufferUsed(),s<=BUFFER && kind!=2,"small objects live in the buffer, others on the heap");
}
static const char* holderName="PolymorphicSmallObject";
#elif PART==1
// function x -> value*x with derivative value
template<class T> struct Deriv { T t; double operator()(const double&) const { return t.read(); } friend Deriv derivative(const Deriv& d) { return d; } };
template<class T> struct Fun { T t; Fun(int v) : t(v) {} double operator()(const double& x) const { return t.read()*x; } friend Deriv<T> derivative(const Fun& f) { return Deriv<T>{f.t}; } };
using Holder=F::DifferentiableFunction<double(double)>;
static Holder fresh(int kind, int v) { switch (kind) { case 0: return Holder(Fun<Small>(v)); case 1: return Holder(Fun<Large>(v)); case 2: return Holder(Fun<Aligned>(v)); default: { Fun<Exact> f(v); return Holder(f); } } }
static bool nonEmpty(const Holder& h) { return bool(h); }
static int readValue(const Holder& h) { return h(1.); }
static void writeValue(Holder&, int) {}
static constexpr bool canWrite=false;
static void inspect(const Holder& h, int kind, int v)
{
  mc::equal(h(2.5),2.5*v,"value of the function"); auto d=derivative(h); mc::equal(d(3.),double(v),"derivative"); auto d2=d; mc::equal(derivative(d2)(1.),double(v),"derivative of a copied derivative");
  mc::check(h.target_type()==(kind==0?typeid(Fun<Small>):kind==1?typeid(Fun<Large>):kind==2?typeid(Fun<Aligned>):typeid(Fun<Exact>)),"target_type");
}
static const char* holderName="DifferentiableFunction";
#elif PART==2
// local function: bound to an int context c, x -> value*x + c
template<class T> struct LDeriv { T t; int c; bool b; double operator()(const double&) const { return t.read(); } void bind(const int& i) { c=i; b=true; } void unbind() { b=false; } bool bound() const { return b; } const int& localContext() const { return c; } friend LDeriv derivative(const LDeriv& d) { return d; } };
template<class T> struct LFun { T t; int c=0; bool b=false; LFun(int v) : t(v) {} double operator()(const double& x) const { return t.read()*x+(b?1000*c:0); } void bind(const int& i) { c=i; b=true; } void unbind() { b=false; } bool bound() const { return b; } const int& localContext() const { return c; }
  friend LDeriv<T> derivative(const LFun& f) { return LDeriv<T>{f.t,f.c,f.b}; } };
using Holder=F::LocalFunction<double(double),int>;
static Holder fresh(int kind, int v) { switch (kind) { case 0: return Holder(LFun<Small>(v)); case 1: return Holder(LFun<Large>(v)); case 2: { LFun<Aligned> f(v); return Holder(f); } default: return Holder(LFun<Exact>(v)); } }
static bool nonEmpty(const Holder& h) { return bool(h); }
static int readValue(const Holder& h) { double y=h(1.); return (h.bound()?1000*h.localContext():0)==int(y)-int(y)%1000 ? int(y)%1000 + (h.bound()?1000*h.localContext():0) : -1; }
// "write" binds or unbinds
static void writeValue(Holder& h, int v) { if (v>=1000) h.bind(v/1000); else h.unbind(); }
static constexpr bool canWrite=true;
static void inspect(const Holder& h, int, int v)
{
  mc::equal(h.bound(),v>=1000,"bound()"); if (v>=1000) mc::equal(h.localContext(),v/1000,"localContext()");
  mc::equal(h(2.),2.*(v%1000)+(v/1000)*1000.,"value"); auto d=derivative(h); mc::equal(d(5.),double(v%1000),"derivative"); mc::equal(d.bound(),v>=1000,"derivative of a bound function is bound");
}
static const char* holderName="LocalFunction";
#elif PART==3
using Grid=Dune::MockGrid<1,1>; using GV=Grid::LeafGridView; using X=Dune::FieldVector<double,1>;
template<class T> struct GDeriv { T t; X operator()(const X&) const { return X(double(t.read())); } };
template<class T> struct GFun { T t; GFun(int v) : t(v) {} double operator()(const X& x) const { return t.read()*x[0]; } friend GDeriv<T> derivative(const GFun& f) { return GDeriv<T>{f.t}; } };
using Holder=F::GridViewFunction<double(X),GV>;
static GV* gview;
static Holder fresh(int kind, int v) { switch (kind) { case 0: return Holder(F::makeGridViewFunction(GFun<Small>(v),*gview)); case 1: return Holder(F::makeGridViewFunction(GFun<Large>(v),*gview)); case 2: return Holder(F::makeGridViewFunction(GFun<Aligned>(v),*gview)); default: { GFun<Exact> f(v); return Holder(F::makeGridViewFunction(f,*gview)); } } }
static bool nonEmpty(const Holder& h) { return bool(h); }
static int readValue(const Holder& h) { return h(X(1.)); }
static void writeValue(Holder&, int) {}
static constexpr bool canWrite=false;
static void inspect(const Holder& h, int, int v)
{
  mc::equal(h(X(2.5)),2.5*v,"value"); 
  auto lf=localFunction(h); mc::check(!lf.bound(),"a new local function is bound");
  auto copy=lf; 
  for (const auto& e : elements(*gview)) { lf.bind(e); mc::check(lf.bound() && lf.localContext()==e,"bound local function"); double x=e.geometry().global(X(0.25))[0]; mc::close(lf(X(0.25)),v*x,1e-13,"local value");
    auto l2=lf; mc::check(l2.bound(),"copy of a bound local function"); mc::close(l2(X(0.25)),v*x,1e-13,"value of a copied local function"); lf.unbind(); mc::check(!lf.bound()&&l2.bound(),"unbinding a copy"); mc::close(l2(X(0.25)),v*x,1e-13,"value of a copied local function after unbinding the source"); }
  mc::check(!copy.bound(),"binding a copy changed the source");
}
static const char* holderName="GridViewFunction";
#endif
#if PART==4
// PolymorphicSmallObject without a buffer
#endif

// ---------------------------------------------------------------- the model: what each slot holds
struct Slot { enum State { EMPTY, FULL, MOVED } s=EMPTY; int kind=0, value=0; };

static std::string opName(int code, int i, int j, int fault)
{
  static const char* n[]={"new","reset","copyAssign","moveAssign","copyConstruct","moveConstruct","swap","write","assignEmpty"};
  return cat(n[code],i,j>=0?cat(",",j):"",fault?cat("!",fault):"");
}
struct Op { int code,i,j,fault; };

int main(int argc, char** argv)
{
  mc::init(argc,argv); MC_SANITIZER_INIT;
#if PART==3
  Grid::Spec spec; spec.vertices={{0.},{1.},{3.}}; spec.elements={{Dune::GeometryTypes::line,{0,1}},{Dune::GeometryTypes::line,{1,2}}};
  Grid grid(spec); GV gv=grid.leafGridView(); gview=&gv;
#endif
  auto explore=[&](int N, int depth, std::vector<int> kindSet) {
    std::vector<Op> ops;
    for (int i=0;i<N;++i) {
      for (int k : kindSet) ops.push_back({0,i,k,0});
      ops.push_back({1,i,-1,0});
      if (canWrite) { ops.push_back({7,i,-1,0}); if (PART==2) ops.push_back({7,i,1,0}); }
      for (int j=0;j<N;++j) {
        ops.push_back({2,i,j,0}); ops.push_back({2,i,j,1}); ops.push_back({3,i,j,0});
        if (i!=j) { ops.push_back({4,i,j,0}); ops.push_back({4,i,j,1}); ops.push_back({5,i,j,0}); }
        if (i<=j) ops.push_back({6,i,j,0});
      }
    }
    auto runSeq=[&](const std::vector<int>& seq) {
      std::string key=cat(holderName,"/N",N); for (int k : seq) { auto& o=ops[k]; key+="/"+opName(o.code,o.i,o.j,o.fault); }
      mc::state(key,[&]{
        World world; w=&world;
        alignas(64) unsigned char mem[3][sizeof(Holder)+16];
        auto at=[&](int i) { return std::launder(reinterpret_cast<Holder*>(mem[i]+(i%2?16:0))); };   // different alignments of the buffer
        auto raw=[&](int i) { return (void*)(mem[i]+(i%2?16:0)); };
        std::vector<Slot> m(N); int next=1;
        for (int i=0;i<N;++i) new (raw(i)) Holder();
        auto sane=[&](const char* when) {
          mc::check(!world.zombie,[&]{ return cat("an object is used, created over or destroyed outside its lifetime ",when); });
          mc::check(!world.misaligned,[&]{ return cat("a contained object is misaligned ",when); }); };
        auto observe=[&]{
          sane("in the operation");
          std::size_t full=0, moved=0;
          for (int i=0;i<N;++i) {
            bool ne=nonEmpty(*at(i));
            if (m[i].s==Slot::EMPTY) mc::check(!ne,[&]{ return cat("slot ",i," should be empty"); });
            if (m[i].s==Slot::FULL) { mc::check(ne,[&]{ return cat("slot ",i," lost its content"); }); mc::equal(readValue(*at(i)),m[i].value,[&]{ return cat("value in slot ",i); }); long c=world.copies; inspect(*at(i),m[i].kind,m[i].value); world.copies=c; ++full; }
            if (m[i].s==Slot::MOVED && ne) ++moved;
          }
          sane("when reading the contents");
          // every holder owns exactly one object, nothing else is alive
          mc::equal(world.live.size(),full+moved,"number of live objects");
        };
        for (int k : seq) {
          auto o=ops[k]; mc::op(opName(o.code,o.i,o.j,o.fault)); mc::transition();
          int i=o.i,j=o.j; bool threw=false;
          world.copies=0; world.faultAt=o.fault?o.fault:-1;
          Slot before=m[i];
          try { switch (o.code) {
            case 0: { Holder h=fresh(j,next); *at(i)=std::move(h); m[i]={Slot::FULL,j,next}; ++next; break; }
            case 1: { at(i)->~Holder(); new (raw(i)) Holder(); m[i]={}; break; }
            case 2: *at(i)=*at(j); m[i]=m[j]; break;
            case 3: *at(i)=std::move(*at(j)); if (i!=j) { m[i]=m[j]; if (m[j].s==Slot::FULL) m[j].s=Slot::MOVED; } break;
            case 4: { at(i)->~Holder(); m[i]={}; 
                      try { new (raw(i)) Holder(*at(j)); m[i]=m[j]; } catch (const Fault&) { new (raw(i)) Holder(); threw=true; } break; }
            case 5: { at(i)->~Holder(); new (raw(i)) Holder(std::move(*at(j))); m[i]=m[j]; if (m[j].s==Slot::FULL) m[j].s=Slot::MOVED; break; }
            case 6: { using std::swap; swap(*at(i),*at(j)); std::swap(m[i],m[j]); break; }
            case 7: if (m[i].s==Slot::FULL) { int v = PART==2 ? (j>=0 ? m[i].value%1000 : m[i].value%1000+1000*(++next)) : ++next+100; writeValue(*at(i),v); m[i].value=v; } break;
          } } catch (const Fault&) { threw=true; }
          world.faultAt=-1;
          if (threw && o.code==2) {
            // the target may have kept its old content or may be empty, but it must be one of these
            bool ne=nonEmpty(*at(i));
            if (before.s==Slot::FULL && ne) m[i]=before; else if (!ne) m[i]={}; else if (before.s==Slot::MOVED) m[i]=before; else mc::fail("an empty holder became non-empty by a failed copy");
          }
          observe();
        }
        std::size_t h=0; for (auto& s : m) { mc::combine(h,std::size_t(s.s)); mc::combine(h,std::size_t(s.kind*10000+s.value)); } mc::outcome(h);
        for (int i=0;i<N;++i) at(i)->~Holder();
        sane("in the final destruction");
        mc::equal(world.live.size(),std::size_t(0),"objects still alive after all holders are gone");
        mc::equal(world.births,world.deaths,"constructions vs destructions");
      });
      w=nullptr;
    };
    std::vector<int> seq;
    std::function<void(int)> rec=[&](int left) {
      if (left==0) { runSeq(seq); return; }
      for (std::size_t k=0;k<ops.size();++k) {
        // reading from a moved-from holder is left unspecified: skip histories that copy from one
        seq.push_back(k);
        std::vector<int> st(N,0); bool ok=true;   // 0 empty 1 full 2 moved-from
        for (std::size_t q=0;q<seq.size();++q) { auto& o=ops[seq[q]]; switch (o.code) {
          case 0: st[o.i]=1; break; case 1: st[o.i]=0; break;
          case 2: case 4: if (st[o.j]==2) ok=false; if (o.fault && st[o.j]!=1) ok=false; if (o.fault && o.i==o.j) ok=false; if (!o.fault) st[o.i]=st[o.j]; else if (st[o.i]==2) ok=false; else if (o.code==4) st[o.i]=0; break;
          case 3: case 5: if (st[o.j]==2) ok=false; if (o.i!=o.j) { st[o.i]=st[o.j]; if (st[o.j]==1) st[o.j]=2; } break;
          case 6: if (st[o.i]==2||st[o.j]==2) ok=false; std::swap(st[o.i],st[o.j]); break;
          case 7: if (st[o.i]!=1 && q+1==seq.size()) ok=false; break; } }
        // only the first operation on an otherwise empty world can be a creation
        if (ok && !(seq.size()==1 && ops[k].code!=0 && ops[k].code!=2 && ops[k].code!=3 && ops[k].code!=6)) rec(left-1);
        seq.pop_back();
      }
    };
    for (int d=1;d<=depth;++d) rec(d);
  };
  bool t=mc::thorough();
#if PART==0
  explore(2,t?5:4,{0,1}); explore(2,3,{0,1,2,3}); explore(3,t?4:3,{0,1});
#else
  explore(2,t?5:4,{0,1}); explore(2,3,{0,1,2,3}); if (t) explore(3,4,{0,1});
#endif
  return mc::finish();
}
