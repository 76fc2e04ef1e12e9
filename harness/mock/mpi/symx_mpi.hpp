// A model of boost::mpi: the ranks are coroutines of one process that meet in
// collectives.  Values travel through the types' own serialize() functions.
// Ranks interact only through messages, so one schedule of the coroutines
// covers all; reductions combine in an order given by mode().
#ifndef SYMX_MPI_HPP
#define SYMX_MPI_HPP
#include "../../../engine/symx.h"
#include <ucontext.h>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <utility>
#include <tuple>
#include <array>
#include <functional>
#include <algorithm>
#include <exception>
#include <type_traits>
#include <boost/mpl/bool.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array_wrapper.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/collection_size_type.hpp>
#include <boost/serialization/item_version_type.hpp>
namespace symx_mpi {
typedef std::vector<unsigned char> Buf;
// archives ------------------------------------------------------------------
struct oarchive {
    typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading;
    Buf &b; explicit oarchive(Buf &b_) : b(b_) {}
    void raw(const void *p, std::size_t n) { std::size_t k = b.size(); b.resize(k + n); std::memcpy(b.data() + k, p, n); }
    template<class T> oarchive &operator&(const T &t) { put(t); return *this; }
    template<class T> oarchive &operator<<(const T &t) { put(t); return *this; }
    template<class T> void register_type(T * = nullptr) {}
    unsigned get_library_version() const { return 19; }
    void save_binary(const void *p, std::size_t n) { raw(p, n); }
    template<class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type put(const T &t) { raw(&t, sizeof t); }
    template<class T> typename std::enable_if<std::is_class<T>::value || std::is_union<T>::value>::type put(const T &t) { boost::serialization::serialize_adl(*this, const_cast<T &>(t), 0u); }
    template<class T> void put(const boost::serialization::nvp<T> &t) { put(t.const_value()); }
    template<class T> void put(const boost::serialization::array_wrapper<T> &t) { for (std::size_t i = 0; i < t.count(); i++) put(t.address()[i]); }
    void put(const boost::serialization::collection_size_type &t) { uint64_t n = t; put(n); }
    void put(const boost::serialization::item_version_type &t) { uint32_t n = t; put(n); }
    void put(const std::string &s) { range(s); }
    template<class C> void range(const C &c) { uint64_t n = c.size(); put(n); for (auto &x : c) put(x); }
    template<class T, class A> void put(const std::vector<T, A> &c) { uint64_t n = c.size(); put(n); for (std::size_t i = 0; i < c.size(); i++) { const T x = c[i]; put(x); } }
    template<class T, class A> void put(const std::list<T, A> &c) { range(c); }
    template<class T, class A> void put(const std::deque<T, A> &c) { range(c); }
    template<class T, class C, class A> void put(const std::set<T, C, A> &c) { range(c); }
    template<class K, class T, class C, class A> void put(const std::map<K, T, C, A> &c) { range(c); }
    template<class A, class B> void put(const std::pair<A, B> &p) { put(p.first); put(p.second); }
    template<class T, std::size_t N> void put(const std::array<T, N> &c) { for (auto &x : c) put(x); }
    template<class T> void put(const boost::optional<T> &o) { bool h = (bool)o; put(h); if (h) put(*o); }
    template<class T, std::size_t N> void put(const T (&c)[N]) { for (auto &x : c) put(x); }
};
struct iarchive {
    typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading;
    const Buf &b; std::size_t k; explicit iarchive(const Buf &b_, std::size_t k_ = 0) : b(b_), k(k_) {}
    void raw(void *p, std::size_t n) { if (k + n > b.size()) symx_fail("serialization", "a received value reads past the end of its message"); std::memcpy(p, b.data() + k, n); k += n; }
    template<class T> iarchive &operator&(T &t) { get(t); return *this; }
    template<class T> iarchive &operator&(const T &t) { get(const_cast<T &>(t)); return *this; }
    template<class T> iarchive &operator>>(T &t) { get(t); return *this; }
    template<class T> iarchive &operator>>(const T &t) { get(const_cast<T &>(t)); return *this; }
    template<class T> void register_type(T * = nullptr) {}
    unsigned get_library_version() const { return 19; }
    void load_binary(void *p, std::size_t n) { raw(p, n); }
    void reset_object_address(const void *, const void *) {}
    template<class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type get(T &t) { raw(&t, sizeof t); }
    template<class T> typename std::enable_if<std::is_class<T>::value || std::is_union<T>::value>::type get(T &t) { boost::serialization::serialize_adl(*this, t, 0u); }
    template<class T> void get(boost::serialization::nvp<T> &t) { get(t.value()); }
    template<class T> void get(boost::serialization::array_wrapper<T> &t) { for (std::size_t i = 0; i < t.count(); i++) get(t.address()[i]); }
    void get(boost::serialization::collection_size_type &t) { uint64_t n; get(n); t = boost::serialization::collection_size_type(n); }
    void get(boost::serialization::item_version_type &t) { uint32_t n; get(n); t = boost::serialization::item_version_type(n); }
    void get(std::string &s) { uint64_t n; get(n); s.clear(); for (uint64_t i = 0; i < n; i++) { char c; get(c); s.push_back(c); } }
    template<class T, class A> void get(std::vector<T, A> &c) { uint64_t n; get(n); c.clear(); for (uint64_t i = 0; i < n; i++) { T x = T(); get(x); c.push_back(x); } }
    template<class T, class A> void get(std::list<T, A> &c) { uint64_t n; get(n); c.clear(); for (uint64_t i = 0; i < n; i++) { c.emplace_back(); get(c.back()); } }
    template<class T, class A> void get(std::deque<T, A> &c) { uint64_t n; get(n); c.clear(); for (uint64_t i = 0; i < n; i++) { c.emplace_back(); get(c.back()); } }
    template<class T, class C, class A> void get(std::set<T, C, A> &c) { uint64_t n; get(n); c.clear(); for (uint64_t i = 0; i < n; i++) { T x = T(); get(x); c.insert(x); } }
    template<class K, class T, class C, class A> void get(std::map<K, T, C, A> &c) { uint64_t n; get(n); c.clear(); for (uint64_t i = 0; i < n; i++) { std::pair<K, T> x; get(x); c.insert(x); } }
    template<class A, class B> void get(std::pair<A, B> &p) { get(p.first); get(p.second); }
    template<class T, std::size_t N> void get(std::array<T, N> &c) { for (auto &x : c) get(x); }
    template<class T> void get(boost::optional<T> &o) { bool h; get(h); if (h) { T x = T(); get(x); o = x; } else o = boost::none; }
    template<class T, std::size_t N> void get(T (&c)[N]) { for (auto &x : c) get(x); }
};
template<class T> Buf pack(const T &t) { Buf b; oarchive a(b); a & t; return b; }
template<class T> void unpack(const Buf &b, T &t) { iarchive a(b); a & t; if (a.k != b.size()) symx_fail("serialization", "a received value leaves part of its message unread"); }
// ranks ---------------------------------------------------------------------
struct Rank { ucontext_t ctx; bool done; int status; std::function<bool()> ready; std::size_t seq; };
struct Coll { int kind, root; std::size_t n; std::vector<bool> here; std::vector<Buf> in; int arrived; Coll() : kind(-1), root(0), n(0), arrived(0) {} };
struct World {
    int size, cur, mode; bool aborted; int abort_code; bool inside;
    std::vector<Rank *> ranks; ucontext_t sched; std::function<void(int)> body;
    std::map<std::size_t, Coll> colls;
    std::map<std::tuple<int, int, int>, std::deque<Buf>> mail;
    std::size_t collectives;
};
inline World *&world() { static World *w = nullptr; return w; }
struct Abort {};
inline void entry() {
    World *w = world(); int r = w->cur;
    try { w->body(r); } catch (Abort &) {}
    w->ranks[r]->done = true;
    swapcontext(&w->ranks[r]->ctx, &w->sched);
}
inline void block(const std::function<bool()> &ready) {
    World *w = world(); Rank *r = w->ranks[w->cur];
    if (w->aborted) throw Abort();
    if (ready()) return;
    r->ready = ready;
    swapcontext(&r->ctx, &w->sched);
    r->ready = nullptr;
    if (w->aborted) throw Abort();
}
// runs body(rank) on P ranks; returns false on deadlock
inline bool run(int P, int mode, const std::function<void(int)> &body) {
    World *w = new World(); world() = w;
    w->size = P; w->cur = 0; w->mode = mode; w->aborted = false; w->abort_code = 0; w->inside = true; w->body = body; w->collectives = 0;
    const std::size_t SZ = 160 * 1024;
    for (int i = 0; i < P; i++) {
        Rank *r = new Rank(); r->done = false; r->seq = 0; w->ranks.push_back(r);
        getcontext(&r->ctx);
        r->ctx.uc_stack.ss_sp = symx_stack_alloc(SZ); r->ctx.uc_stack.ss_size = SZ; r->ctx.uc_link = &w->sched;
        makecontext(&r->ctx, entry, 0);
    }
    bool ok = true;
    for (;;) {
        bool progress = false, left = false;
        for (int i = 0; i < P; i++) {
            Rank *r = w->ranks[i];
            if (r->done) continue;
            left = true;
            if (r->ready && !w->aborted && !r->ready()) continue;
            w->cur = i; progress = true;
            swapcontext(&w->sched, &r->ctx);
        }
        if (!left) break;
        if (!progress) { ok = false; break; }
    }
    w->inside = false;
    return ok;
}
inline int rank() { return world()->cur; }
enum Kind { K_BCAST, K_REDUCE, K_ALLREDUCE, K_GATHER, K_ALLGATHER, K_SCATTER, K_BARRIER, K_ALLTOALL, K_SCAN };
// every rank contributes a message; returns when all arrived
inline Coll &meet(Kind k, int root, const Buf &mine, std::size_t n = 1) {
    World *w = world(); int r = w->cur;
    if (w->aborted) throw Abort();
    std::size_t s = w->ranks[r]->seq++;
    w->collectives++;
    Coll &c = w->colls[s];
    if (c.kind < 0) { c.kind = k; c.root = root; c.n = n; c.here.assign(w->size, false); c.in.resize(w->size); }
    if (c.kind != k || c.root != root || c.n != n) symx_fail("collective-mismatch", "the ranks call different collectives (or with different roots) at the same point");
    if (root < 0 || root >= w->size) symx_fail("collective-root", "invalid root rank");
    c.here[r] = true; c.in[r] = mine; c.arrived++;
    Coll *cp = &c; int P = w->size;
    block([cp, P]() { return cp->arrived == P; });
    return *cp;
}
template<class T, class Op> T fold(const std::vector<T> &v, Op op, int mode) {
    std::size_t n = v.size();
    if (mode == 1) { T r = v[n - 1]; for (std::size_t i = n - 1; i-- > 0;) { T t = op(v[i], r); r = t; } return r; }
    if (mode == 2) { T r = v[n - 1]; for (std::size_t i = n - 1; i-- > 0;) { T t = op(r, v[i]); r = t; } return r; }
    if (mode == 3) { std::vector<T> l = v; while (l.size() > 1) { std::vector<T> q; for (std::size_t i = 0; i < l.size(); i += 2) { if (i + 1 < l.size()) q.push_back(T(op(l[i], l[i + 1]))); else q.push_back(l[i]); } l = q; } return l[0]; }
    T r = v[0]; for (std::size_t i = 1; i < n; i++) { T t = op(r, v[i]); r = t; } return r;
}
}
namespace boost { namespace mpi {
template<class T> struct is_mpi_datatype : boost::mpl::bool_<std::is_arithmetic<T>::value> {};
template<class T> struct is_mpi_byte_datatype : boost::mpl::false_ {};
template<class Op, class T> struct is_commutative : boost::mpl::false_ {};
template<class Op, class T> struct is_mpi_op : boost::mpl::false_ {};
template<class T> struct minimum { const T &operator()(const T &a, const T &b) const { return b < a ? b : a; } };
template<class T> struct maximum { const T &operator()(const T &a, const T &b) const { return a < b ? b : a; } };
template<class T> struct bitwise_or { T operator()(const T &a, const T &b) const { return a | b; } };
template<class T> struct bitwise_and { T operator()(const T &a, const T &b) const { return a & b; } };
template<class T> struct bitwise_xor { T operator()(const T &a, const T &b) const { return a ^ b; } };
template<class T> struct is_commutative<std::plus<T>, T> : boost::mpl::true_ {};
template<class T> struct is_commutative<std::multiplies<T>, T> : boost::mpl::true_ {};
template<class T> struct is_commutative<std::logical_or<T>, T> : boost::mpl::true_ {};
template<class T> struct is_commutative<std::logical_and<T>, T> : boost::mpl::true_ {};
template<class T> struct is_commutative<minimum<T>, T> : boost::mpl::true_ {};
template<class T> struct is_commutative<maximum<T>, T> : boost::mpl::true_ {};
class exception : public std::exception { const char *r; int c; public: exception(const char *r_, int c_) : r(r_), c(c_) {} const char *what() const throw() override { return r; } const char *routine() const { return r; } int result_code() const { return c; } };
namespace threading { enum level { single, funneled, serialized, multiple }; }
class environment {
    threading::level l;
public:
    explicit environment(bool = true) : l(threading::single) {}
    explicit environment(threading::level m, bool = true) : l(m) {}
    environment(int &, char **&, bool = true) : l(threading::single) {}
    environment(int &, char **&, threading::level m, bool = true) : l(m) {}
    threading::level thread_level() const { return l; }
    static bool initialized() { return true; } static bool finalized() { return false; }
    static std::string processor_name() { return "model"; }
    static bool is_main_thread() { return true; }
    [[noreturn]] static void abort(int code) { symx_mpi::world()->aborted = true; symx_mpi::world()->abort_code = code; throw symx_mpi::Abort(); }
};
const int any_source = -1, any_tag = -1;
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
class status { public: int s, t; status() : s(0), t(0) {} int source() const { return s; } int tag() const { return t; } int error() const { return 0; } bool cancelled() const { return false; } };
class request { std::function<void()> w; public: request() {} explicit request(std::function<void()> f) : w(f) {} status wait() { if (w) { w(); w = nullptr; } return status(); } boost::optional<status> test() { return wait(); } void cancel() {} };
class communicator {
public:
    communicator() {}
    int rank() const { return symx_mpi::rank(); }
    int size() const { return symx_mpi::world()->size; }
    explicit operator bool() const { return true; }
    void barrier() const { symx_mpi::meet(symx_mpi::K_BARRIER, 0, symx_mpi::Buf()); }
    void abort(int code) const { environment::abort(code); }
    template<class T> void send(int d, int tag, const T &v) const { symx_mpi::world()->mail[std::make_tuple(rank(), d, tag)].push_back(symx_mpi::pack(v)); }
    template<class T> void send(int d, int tag, const T *v, int n) const { symx_mpi::Buf b; symx_mpi::oarchive a(b); for (int i = 0; i < n; i++) a & v[i]; symx_mpi::world()->mail[std::make_tuple(rank(), d, tag)].push_back(b); }
    void send(int d, int tag) const { symx_mpi::world()->mail[std::make_tuple(rank(), d, tag)].push_back(symx_mpi::Buf()); }
    template<class T> request isend(int d, int tag, const T &v) const { send(d, tag, v); return request(); }
    symx_mpi::Buf take(int src, int tag, status &st) const {
        auto &m = symx_mpi::world()->mail; int me = rank();
        auto find = [&m, me, src, tag]() { for (auto it = m.begin(); it != m.end(); ++it) if (std::get<1>(it->first) == me && !it->second.empty() && (src == any_source || std::get<0>(it->first) == src) && (tag == any_tag || std::get<2>(it->first) == tag)) return it; return m.end(); };
        symx_mpi::block([&m, find]() { return find() != m.end(); });
        auto it = find(); symx_mpi::Buf b = it->second.front(); it->second.pop_front(); st.s = std::get<0>(it->first); st.t = std::get<2>(it->first); return b;
    }
    template<class T> status recv(int s, int tag, T &v) const { status st; symx_mpi::unpack(take(s, tag, st), v); return st; }
    template<class T> status recv(int s, int tag, T *v, int n) const { status st; symx_mpi::Buf b = take(s, tag, st); symx_mpi::iarchive a(b); for (int i = 0; i < n && a.k < b.size(); i++) a & v[i]; return st; }
    status recv(int s, int tag) const { status st; take(s, tag, st); return st; }
    template<class T> request irecv(int s, int tag, T &v) const { const communicator *c = this; T *p = &v; return request([c, s, tag, p]() { c->recv(s, tag, *p); }); }
};
template<class It> void wait_all(It a, It b) { for (; a != b; ++a) a->wait(); }
class timer { public: void restart() {} double elapsed() const { return 0; } static bool time_is_global() { return false; } };
// collectives
template<class T> void broadcast(const communicator &c, T &v, int root) { bool me = c.rank() == root; symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_BCAST, root, me ? symx_mpi::pack(v) : symx_mpi::Buf()); if (!me) symx_mpi::unpack(x.in[root], v); }
template<class T> void broadcast(const communicator &c, T *v, int n, int root) { bool me = c.rank() == root; symx_mpi::Buf b; if (me) { symx_mpi::oarchive a(b); for (int i = 0; i < n; i++) a & v[i]; } symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_BCAST, root, b, n); if (!me) { symx_mpi::iarchive a(x.in[root]); for (int i = 0; i < n; i++) a & v[i]; } }
namespace detail_symx {
template<class T, class Op> T combine(symx_mpi::Coll &x, Op op, std::size_t k = 0, std::size_t n = 1) {
    std::vector<T> v; for (auto &b : x.in) { symx_mpi::iarchive a(b); T t = T(); for (std::size_t i = 0; i <= k; i++) a & t; v.push_back(t); }
    int m = symx_mpi::world()->mode; if (m == 2 && !is_commutative<Op, T>::value) m = 0;
    return symx_mpi::fold<T, Op>(v, op, m);
}
template<class T> symx_mpi::Buf packn(const T *p, int n) { symx_mpi::Buf b; symx_mpi::oarchive a(b); for (int i = 0; i < n; i++) a & p[i]; return b; }
}
template<class T, class Op> void reduce(const communicator &c, const T &in, T &out, Op op, int root) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_REDUCE, root, symx_mpi::pack(in)); if (c.rank() == root) out = detail_symx::combine<T, Op>(x, op); }
template<class T, class Op> void reduce(const communicator &c, const T &in, Op op, int root) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_REDUCE, root, symx_mpi::pack(in)); (void)x; if (c.rank() == root) symx_fail("collective-mismatch", "the root calls the reduce overload of the other ranks"); }
template<class T, class Op> void reduce(const communicator &c, const T *in, int n, T *out, Op op, int root) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_REDUCE, root, detail_symx::packn(in, n), n); if (c.rank() == root) for (int i = 0; i < n; i++) out[i] = detail_symx::combine<T, Op>(x, op, i, n); }
template<class T, class Op> void reduce(const communicator &c, const T *in, int n, Op op, int root) { symx_mpi::meet(symx_mpi::K_REDUCE, root, detail_symx::packn(in, n), n); }
template<class T, class Op> void all_reduce(const communicator &, const T &in, T &out, Op op) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_ALLREDUCE, 0, symx_mpi::pack(in)); out = detail_symx::combine<T, Op>(x, op); }
template<class T, class Op> T all_reduce(const communicator &c, const T &in, Op op) { T r; all_reduce(c, in, r, op); return r; }
template<class T, class Op> void all_reduce(const communicator &, const T *in, int n, T *out, Op op) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_ALLREDUCE, 0, detail_symx::packn(in, n), n); for (int i = 0; i < n; i++) out[i] = detail_symx::combine<T, Op>(x, op, i, n); }
template<class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_GATHER, root, symx_mpi::pack(in)); if (c.rank() == root) { out.clear(); for (auto &b : x.in) { T t = T(); symx_mpi::unpack(b, t); out.push_back(t); } } }
template<class T> void gather(const communicator &, const T &in, int root) { symx_mpi::meet(symx_mpi::K_GATHER, root, symx_mpi::pack(in)); }
template<class T> void all_gather(const communicator &, const T &in, std::vector<T> &out) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_ALLGATHER, 0, symx_mpi::pack(in)); out.clear(); for (auto &b : x.in) { T t = T(); symx_mpi::unpack(b, t); out.push_back(t); } }
template<class T> void scatter(const communicator &c, const std::vector<T> &in, T &out, int root) {
    symx_mpi::Buf mine;
    if (c.rank() == root) { if ((int)in.size() < c.size()) symx_fail("scatter-size", "scatter called with fewer values than ranks"); std::vector<symx_mpi::Buf> l; symx_mpi::oarchive a(mine); for (int i = 0; i < c.size(); i++) { symx_mpi::Buf b = symx_mpi::pack(in[i]); a & b; } }
    symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_SCATTER, root, mine);
    symx_mpi::iarchive a(x.in[root]); symx_mpi::Buf b; for (int i = 0; i <= c.rank(); i++) a & b;
    symx_mpi::unpack(b, out);
}
template<class T> void scatter(const communicator &c, T &out, int root) { scatter(c, std::vector<T>(), out, root); }
template<class T> void all_to_all(const communicator &c, const std::vector<T> &in, std::vector<T> &out) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_ALLTOALL, 0, symx_mpi::pack(in)); std::vector<T> o; for (auto &b : x.in) { std::vector<T> v; symx_mpi::unpack(b, v); o.push_back(v.at(c.rank())); } out = o; }
template<class T, class Op> void scan(const communicator &c, const T &in, T &out, Op op) { symx_mpi::Coll &x = symx_mpi::meet(symx_mpi::K_SCAN, 0, symx_mpi::pack(in)); T r = T(); symx_mpi::unpack(x.in[0], r); for (int i = 1; i <= c.rank(); i++) { T t = T(); symx_mpi::unpack(x.in[i], t); T u = op(r, t); r = u; } out = r; }
}}
#endif
