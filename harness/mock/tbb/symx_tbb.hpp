// A model of oneTBB whose scheduler is an input: how a range is cut into
// sub-ranges, in which order they run, how they are grouped into accumulation
// runs and how partial results are joined are all symx_choice()s.
// Everything runs on one thread; memory conflicts between tasks of a parallel
// region are found by the engine's race mode.
#ifndef SYMX_TBB_HPP
#define SYMX_TBB_HPP
#include "../../../engine/symx.h"
#include <cstddef>
#include <cstdint>
#include <vector>
#include <deque>
#include <list>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iterator>
#include <utility>
#include <tuple>
#include <atomic>
#include <thread>
#include <map>
#include <unordered_map>
#include <type_traits>
#include <exception>
#define TBB_VERSION_MAJOR 2021
#define TBB_VERSION_MINOR 11
#define TBB_VERSION_PATCH 0
#define TBB_VERSION_STRING "2021.11.0"
#define TBB_INTERFACE_VERSION 12110
#define TBB_INTERFACE_VERSION_MAJOR 12
#define TBB_runtime_interface_version() 12110
namespace symx_tbb {
struct Sched {
    int budget = 0;        // how many parallel regions may deviate from the base schedule
    int base = 0;          // 0 one chunk; 1 singletons in order; 2 singletons in reverse; 3 two halves, second first
    int maxcuts = 3;       // deviating regions: at most this many cut points
    bool race = false;
    int region = 0;
    std::size_t workers = 0, hardware = 4;
    std::size_t pfor = 0, preduce = 0;
    std::size_t regions = 0, lim_min = ~std::size_t(0), lim_max = 0;   // parallelism allowed while regions ran
};
inline Sched &sched() { static Sched s; return s; }
#ifdef SYMX_TSAN
#define SYMX_TL thread_local
#else
#define SYMX_TL
#endif
inline int &depth() { static SYMX_TL int d = 0; return d; }
inline int &task() { static SYMX_TL int t = 0; return t; }
inline std::size_t limit_now();
inline std::size_t &arena_cap() { static std::size_t c = ~std::size_t(0); return c; }   // concurrency of the innermost explicit arena
struct ArenaScope { std::size_t save; explicit ArenaScope(int n) : save(arena_cap()) { if (n > 0 && (std::size_t)n < save) arena_cap() = (std::size_t)n; } ~ArenaScope() { arena_cap() = save; } };
inline int task_id() { return task(); }
struct Task {   // scope of one task
    int save;
    Task(int id, const void *frame) : save(task()) { depth()++; task() = id; if (sched().race && depth() == 1) symx_race_task(id, frame); }
    ~Task() { if (sched().race && depth() == 1) symx_race_task(-1, nullptr); depth()--; task() = save; }
};
struct Region { bool on; Region() : on(sched().race && depth() == 0) { if (on) symx_race_begin(); } ~Region() { if (on) symx_race_end(); } };
// run f(0), ..., f(n-1): the tasks of one parallel region, in this order
template<class F> void execute(std::size_t n, F f) {
    if (depth() == 0) { Sched &s = sched(); std::size_t l = limit_now(); if (arena_cap() < l) l = arena_cap(); s.regions++; if (l < s.lim_min) s.lim_min = l; if (l > s.lim_max) s.lim_max = l; }
#ifdef SYMX_TSAN
    // native confirmation of a race: every task on a thread of its own, in the
    // same order, ordered by a relaxed counter only (no happens-before edge)
    if (sched().race && depth() == 0) {
        std::atomic<std::size_t> turn(0);
        std::vector<std::thread> th;
        for (std::size_t x = 0; x < n; x++) th.emplace_back([&, x]() { while (turn.load(std::memory_order_relaxed) != x) std::this_thread::yield(); f(x); turn.store(x + 1, std::memory_order_relaxed); });
        for (auto &t : th) t.join();
        return;
    }
#endif
    Region region;
    for (std::size_t x = 0; x < n; x++) f(x);
}
inline bool deviate(std::size_t n) {
    Sched &s = sched(); if (s.race) return false;
    s.region++;
    if (n < 2 || s.budget <= 0 || s.race) return false;
    if (!symx_choice("deviate", 2)) return false;
    s.budget--; return true;
}
// cut points of [0,n): sorted starts of the sub-ranges
inline std::vector<std::size_t> cuts(std::size_t n, std::size_t grain, bool dev) {
    std::vector<std::size_t> r; if (n == 0) return r;
    std::size_t lo = grain <= 1 ? 1 : (grain + 1) / 2;
    r.push_back(0);
    Sched &s = sched();
    if (dev) {
        for (int c = 0; c < s.maxcuts; c++) {
            std::size_t from = r.back() + lo;            // next cut in [from, n - lo], or none
            if (from + lo > n) break;
            std::size_t opts = n - lo - from + 1;
            int k = symx_choice("cut", (int)opts + 1);
            if (k == 0) break;
            r.push_back(from + k - 1);
        }
    } else if (s.race || s.base == 1 || s.base == 2) { for (std::size_t i = lo; i + lo <= n; i += lo) r.push_back(i); }
    else if (s.base == 3 && n >= 2 * lo) r.push_back(n / 2 < lo ? lo : n / 2);
    return r;
}
inline std::vector<std::size_t> order(std::size_t k, bool dev) {
    std::vector<std::size_t> r(k); for (std::size_t i = 0; i < k; i++) r[i] = i;
    Sched &s = sched();
    if (dev) {
        std::vector<std::size_t> left = r, o;
        while (left.size() > 1) { int c = symx_choice("next", (int)left.size()); o.push_back(left[c]); left.erase(left.begin() + c); }
        if (left.size()) o.push_back(left[0]);
        return o;
    }
    if (s.base >= 2) std::reverse(r.begin(), r.end());
    return r;
}
}
namespace tbb {
struct split {}; struct proportional_split { std::size_t l, r; proportional_split(std::size_t a = 1, std::size_t b = 1) : l(a), r(b) {} std::size_t left() const { return l; } std::size_t right() const { return r; } };
class auto_partitioner {}; class simple_partitioner {}; class static_partitioner {}; class affinity_partitioner {};
template<class V> class blocked_range {
public:
    typedef V const_iterator; typedef std::size_t size_type;
    blocked_range() : b(), e(), g(1) {}
    blocked_range(V b_, V e_, size_type g_ = 1) : b(b_), e(e_), g(g_) {}
    blocked_range(blocked_range &r, split) : b(r.b), e(r.e), g(r.g) { V m = r.b + (r.e - r.b) / 2; b = m; r.e = m; }
    V begin() const { return b; } V end() const { return e; }
    size_type size() const { return size_type(e - b); } size_type grainsize() const { return g; }
    bool empty() const { return !(b < e); } bool is_divisible() const { return g < size(); }
private: V b, e; size_type g;
};
namespace symx_detail {
template<class R> R sub(const R &r, std::size_t i, std::size_t j) { return R(r.begin() + i, r.begin() + j, r.grainsize()); }
template<class F> void run_for(std::size_t n, std::size_t grain, F f) {      // f(i, j)
    using namespace symx_tbb;
    if (n == 0) return;
    if (depth() == 0) sched().pfor++;
    bool dev = deviate(n);
    std::vector<std::size_t> c = cuts(n, grain, dev), o = order(c.size(), dev);
    execute(o.size(), [&](std::size_t x) {
        std::size_t i = c[o[x]], j = o[x] + 1 < c.size() ? c[o[x] + 1] : n;
        Task t((int)o[x], __builtin_frame_address(0));
        f(i, j);
    });
}
template<class V, class F, class J> V run_reduce(std::size_t n, std::size_t grain, const V &identity, F f, J join) {   // f(i, j, value) -> value
    using namespace symx_tbb;
    if (n == 0) return identity;
    Sched &s = sched(); if (depth() == 0) s.preduce++;
    bool dev = deviate(n);
    std::vector<std::size_t> c = cuts(n, grain, dev);
    // group consecutive sub-ranges into accumulation runs
    std::vector<std::vector<std::size_t>> runs(1, std::vector<std::size_t>(1, 0));
    for (std::size_t i = 1; i < c.size(); i++) {
        bool same = dev ? symx_choice("same-run", 2) : s.base == 1;
        if (!same) runs.push_back(std::vector<std::size_t>());
        runs.back().push_back(i);
    }
    std::vector<std::size_t> o = order(runs.size(), dev);
    std::vector<std::unique_ptr<V>> val(runs.size());
    execute(o.size(), [&](std::size_t x) {
        Task t((int)o[x], __builtin_frame_address(0));
        V v(identity);
        for (std::size_t q : runs[o[x]]) { std::size_t i = c[q], j = q + 1 < c.size() ? c[q + 1] : n; v = f(i, j, v); }
        val[o[x]].reset(new V(std::move(v)));
    });
    // order preserving join tree
    while (val.size() > 1) {
        std::size_t at = dev ? symx_choice("join", (int)val.size() - 1) : s.base >= 2 ? val.size() - 2 : 0;
        V v = join(*val[at], *val[at + 1]);
        val[at].reset(new V(std::move(v)));
        val.erase(val.begin() + at + 1);
    }
    return std::move(*val[0]);
}
}
template<class R, class F> void parallel_for(const R &r, const F &f) { symx_detail::run_for(r.empty() ? 0 : r.size(), r.grainsize(), [&](std::size_t i, std::size_t j) { R x = symx_detail::sub(r, i, j); f(x); }); }
template<class R, class F, class P, class = typename std::enable_if<!std::is_integral<R>::value>::type> void parallel_for(const R &r, const F &f, const P &) { parallel_for(r, f); }
template<class R, class F, class = typename std::enable_if<!std::is_integral<R>::value>::type> void parallel_for(const R &r, const F &f, affinity_partitioner &) { parallel_for(r, f); }
template<class I, class F, class = typename std::enable_if<std::is_integral<I>::value>::type> void parallel_for(I a, I b, I step, const F &f) { std::size_t n = a < b ? ((std::size_t)(b - a) + step - 1) / step : 0; symx_detail::run_for(n, 1, [&](std::size_t i, std::size_t j) { for (; i < j; i++) f((I)(a + i * step)); }); }
template<class I, class J, class F, class = typename std::enable_if<std::is_integral<I>::value && std::is_integral<J>::value>::type> void parallel_for(I a, J b, const F &f) { typedef typename std::common_type<I, J>::type T; parallel_for<T>((T)a, (T)b, (T)1, f); }
template<class It, class F> void parallel_for_each(It a, It b, const F &f) { std::vector<It> v; for (; a != b; ++a) v.push_back(a); symx_detail::run_for(v.size(), 1, [&](std::size_t i, std::size_t j) { for (; i < j; i++) f(*v[i]); }); }
template<class C, class F> void parallel_for_each(C &c, const F &f) { parallel_for_each(c.begin(), c.end(), f); }
template<class C, class F> void parallel_for_each(const C &c, const F &f) { parallel_for_each(c.begin(), c.end(), f); }
template<class R, class V, class F, class J> V parallel_reduce(const R &r, const V &identity, const F &f, const J &join) {
    return symx_detail::run_reduce<V>(r.empty() ? 0 : r.size(), r.grainsize(), identity, [&](std::size_t i, std::size_t j, const V &v) -> V { R x = symx_detail::sub(r, i, j); return f(x, v); }, [&](const V &a, const V &b) -> V { return join(a, b); });
}
template<class R, class V, class F, class J, class P> V parallel_reduce(const R &r, const V &identity, const F &f, const J &join, const P &) { return parallel_reduce(r, identity, f, join); }
template<class R, class V, class F, class J> V parallel_deterministic_reduce(const R &r, const V &identity, const F &f, const J &join) { return parallel_reduce(r, identity, f, join); }
template<class R, class V, class F, class J, class P> V parallel_deterministic_reduce(const R &r, const V &identity, const F &f, const J &join, const P &) { return parallel_reduce(r, identity, f, join); }
template<class R, class B> void parallel_reduce(const R &r, B &body) {
    using namespace symx_tbb;
    std::size_t n = r.empty() ? 0 : r.size(); if (!n) return;
    Sched &s = sched(); if (depth() == 0) s.preduce++;
    bool dev = deviate(n);
    std::vector<std::size_t> c = cuts(n, r.grainsize(), dev);
    std::vector<std::vector<std::size_t>> runs(1, std::vector<std::size_t>(1, 0));
    for (std::size_t i = 1; i < c.size(); i++) { bool same = dev ? symx_choice("same-run", 2) : s.base == 1; if (!same) runs.push_back(std::vector<std::size_t>()); runs.back().push_back(i); }
    std::vector<std::size_t> o = order(runs.size(), dev);
    std::vector<std::unique_ptr<B>> own(runs.size()); std::vector<B *> b(runs.size());
    b[0] = &body; for (std::size_t i = 1; i < runs.size(); i++) { own[i].reset(new B(body, split())); b[i] = own[i].get(); }
    execute(o.size(), [&](std::size_t x) { Task t((int)o[x], __builtin_frame_address(0)); for (std::size_t q : runs[o[x]]) { R y = symx_detail::sub(r, c[q], q + 1 < c.size() ? c[q + 1] : n); (*b[o[x]])(y); } });
    while (b.size() > 1) { std::size_t at = dev ? symx_choice("join", (int)b.size() - 1) : s.base >= 2 ? b.size() - 2 : 0; b[at]->join(*b[at + 1]); b.erase(b.begin() + at + 1); }
}
template<class R, class B, class P, class = typename std::enable_if<std::is_class<P>::value>::type> void parallel_reduce(const R &r, B &body, const P &) { parallel_reduce(r, body); }
template<class It, class C> void parallel_sort(It a, It b, C c) { std::sort(a, b, c); }
template<class It> void parallel_sort(It a, It b) { std::sort(a, b); }
template<class... F> void parallel_invoke(const F &...f) { std::vector<std::function<void()>> v{std::function<void()>(f)...}; symx_detail::run_for(v.size(), 1, [&](std::size_t i, std::size_t j) { for (; i < j; i++) v[i](); }); }
class task_group {
    std::vector<std::function<void()>> q; int seq = 0;
    void go(std::function<void()> &f) { symx_tbb::Task t(seq++, __builtin_frame_address(0)); f(); }
public:
    ~task_group() { if (!q.empty()) { for (auto &f : q) f(); } }
    template<class F> void run(F &&f) { std::function<void()> x(f); if (!symx_tbb::sched().race && symx_tbb::sched().budget > 0 && symx_choice("run-now", 2)) { symx_tbb::sched().budget--; go(x); } else q.push_back(x); }
    int wait() { std::vector<std::function<void()>> v; v.swap(q); symx_detail::run_for(v.size(), 1, [&](std::size_t i, std::size_t j) { for (; i < j; i++) v[i](); }); return 1; }
    template<class F> int run_and_wait(F &&f) { run(std::forward<F>(f)); return wait(); }
    void cancel() {}
};
struct symx_unlock { void operator()() const {} };
// concurrent containers: the container's own bookkeeping is synchronised
struct symx_sync { symx_sync() { symx_race_pause(1); } ~symx_sync() { symx_race_pause(0); } };
template<class T, class A = std::allocator<T>> class concurrent_vector {
    std::deque<T> d;
public:
    typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef T *pointer; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    typedef typename std::deque<T>::iterator iterator; typedef typename std::deque<T>::const_iterator const_iterator;
    template<class I> class generic_range : public blocked_range<I> { public: generic_range(I a, I b, std::size_t g = 1) : blocked_range<I>(a, b, g) {} template<class U> generic_range(const generic_range<U> &r) : blocked_range<I>(r.begin(), r.end(), r.grainsize()) {} typedef T value_type; typedef T &reference; typedef I iterator; };
    typedef generic_range<iterator> range_type; typedef generic_range<const_iterator> const_range_type;
    concurrent_vector() {} explicit concurrent_vector(std::size_t n) : d(n) {} concurrent_vector(std::size_t n, const T &x) : d(n, x) {}
    template<class I, class = typename std::enable_if<!std::is_integral<I>::value>::type> concurrent_vector(I a, I b) : d(a, b) {} concurrent_vector(std::initializer_list<T> l) : d(l) {}
    iterator push_back(const T &x) { T y(x); symx_sync s; d.push_back(std::move(y)); return d.end() - 1; }
    iterator push_back(T &&x) { symx_sync s; d.push_back(std::move(x)); return d.end() - 1; }
    template<class... U> iterator emplace_back(U &&...u) { symx_sync s; d.emplace_back(std::forward<U>(u)...); return d.end() - 1; }
    iterator grow_by(std::size_t n) { symx_sync s; std::size_t k = d.size(); d.resize(k + n); return d.begin() + k; }
    iterator grow_by(std::size_t n, const T &x) { symx_sync s; std::size_t k = d.size(); d.resize(k + n, x); return d.begin() + k; }
    iterator grow_to_at_least(std::size_t n) { symx_sync s; if (d.size() < n) d.resize(n); return d.begin(); }
    T &operator[](std::size_t i) { T *p; { symx_sync s; p = &d[i]; } return *p; } const T &operator[](std::size_t i) const { const T *p; { symx_sync s; p = &d[i]; } return *p; }
    T &at(std::size_t i) { T *p; { symx_sync s; p = &d.at(i); } return *p; } const T &at(std::size_t i) const { const T *p; { symx_sync s; p = &d.at(i); } return *p; }
    std::size_t size() const { symx_sync s; return d.size(); } bool empty() const { symx_sync s; return d.empty(); } std::size_t capacity() const { return d.size(); } std::size_t max_size() const { return d.max_size(); }
    void reserve(std::size_t) {} void resize(std::size_t n) { d.resize(n); } void resize(std::size_t n, const T &x) { d.resize(n, x); } void shrink_to_fit() {} void clear() { d.clear(); } void swap(concurrent_vector &o) { d.swap(o.d); } void assign(std::size_t n, const T &x) { d.assign(n, x); }
    iterator begin() { symx_sync s; return d.begin(); } iterator end() { symx_sync s; return d.end(); } const_iterator begin() const { symx_sync s; return d.begin(); } const_iterator end() const { symx_sync s; return d.end(); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    T &front() { return (*this)[0]; } T &back() { T *p; { symx_sync s; p = &d.back(); } return *p; } const T &front() const { return (*this)[0]; } const T &back() const { const T *p; { symx_sync s; p = &d.back(); } return *p; }
    range_type range(std::size_t g = 1) { return range_type(begin(), end(), g); } const_range_type range(std::size_t g = 1) const { return const_range_type(begin(), end(), g); }
};
template<class T, class A = std::allocator<T>> class concurrent_queue {
    std::deque<T> d;
public:
    typedef T value_type; void push(const T &x) { T y(x); symx_sync s; d.push_back(std::move(y)); } template<class... U> void emplace(U &&...u) { symx_sync s; d.emplace_back(std::forward<U>(u)...); }
    bool try_pop(T &x) { symx_sync s; if (d.empty()) return false; x = std::move(d.front()); d.pop_front(); return true; } bool empty() const { symx_sync s; return d.empty(); } std::size_t unsafe_size() const { return d.size(); } void clear() { d.clear(); }
    typename std::deque<T>::iterator unsafe_begin() { return d.begin(); } typename std::deque<T>::iterator unsafe_end() { return d.end(); }
};
template<class T> class enumerable_thread_specific {
    std::map<int, T> m; std::function<T()> init;
public:
    typedef T value_type; typedef T &reference;
    enumerable_thread_specific() : init([]() { return T(); }) {}
    template<class F, class = decltype(std::declval<F>()())> explicit enumerable_thread_specific(F f) : init(f) {}
    explicit enumerable_thread_specific(const T &x) : init([x]() { return x; }) {}
    T &local() { symx_sync s; int id = symx_tbb::task_id(); auto it = m.find(id); if (it == m.end()) it = m.emplace(id, init()).first; return it->second; }
    std::size_t size() const { return m.size(); } bool empty() const { return m.empty(); } void clear() { m.clear(); }
    struct iterator { typename std::map<int, T>::iterator i; T &operator*() const { return i->second; } T *operator->() const { return &i->second; } iterator &operator++() { ++i; return *this; } bool operator!=(const iterator &o) const { return i != o.i; } bool operator==(const iterator &o) const { return i == o.i; } };
    iterator begin() { return iterator{m.begin()}; } iterator end() { return iterator{m.end()}; }
    template<class F> T combine(F f) { auto i = m.begin(); if (i == m.end()) return init(); T r = i->second; for (++i; i != m.end(); ++i) r = f(r, i->second); return r; }
    template<class F> void combine_each(F f) { for (auto &p : m) f(p.second); }
};
template<class T> using combinable = enumerable_thread_specific<T>;
struct symx_mutex {
    void lock() { symx_race_pause(1); } void unlock() { symx_race_pause(0); } bool try_lock() { symx_race_pause(1); return true; } void lock_shared() { lock(); } void unlock_shared() { unlock(); }
    struct scoped_lock { symx_mutex *m = nullptr; scoped_lock() {} scoped_lock(symx_mutex &x, bool = true) : m(&x) { x.lock(); } ~scoped_lock() { if (m) m->unlock(); } void acquire(symx_mutex &x, bool = true) { m = &x; x.lock(); } bool try_acquire(symx_mutex &x, bool = true) { acquire(x); return true; } void release() { if (m) m->unlock(); m = nullptr; } };
};
typedef symx_mutex mutex; typedef symx_mutex spin_mutex; typedef symx_mutex queuing_mutex; typedef symx_mutex rw_mutex; typedef symx_mutex spin_rw_mutex; typedef symx_mutex queuing_rw_mutex; typedef symx_mutex speculative_spin_mutex; typedef symx_mutex null_mutex; typedef symx_mutex recursive_mutex;
template<class T> using cache_aligned_allocator = std::allocator<T>; template<class T> using scalable_allocator = std::allocator<T>; template<class T> using tbb_allocator = std::allocator<T>;
class global_control {
public:
    enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception, scheduler_handle, parameter_max };
    global_control(parameter p, std::size_t v) : par(p), val(v) { all().push_back(this); }
    ~global_control() { all().remove(this); }
    static std::size_t active_value(parameter p) {
        std::size_t r = 0; bool any = false;
        for (auto *c : all()) if (c->par == p) { if (!any) { r = c->val; any = true; } else if (c->val < r) r = c->val; }
        return any ? r : p == max_allowed_parallelism ? symx_tbb::sched().hardware : 0;
    }
private:
    static std::list<global_control *> &all() { static std::list<global_control *> *l = new std::list<global_control *>(); return *l; }
    parameter par; std::size_t val;
    global_control(const global_control &) = delete; void operator=(const global_control &) = delete;
};
class task_arena {
    int n;
public:
    static const int automatic = -1; enum class priority { low, normal, high };
    explicit task_arena(int n_ = automatic, unsigned = 1) : n(n_) {}
    void initialize() {} void initialize(int n_, unsigned = 1) { n = n_; } void terminate() {} int max_concurrency() const { return n > 0 ? n : (int)symx_tbb::limit_now(); }
    template<class F> auto execute(F &&f) -> decltype(f()) { symx_tbb::ArenaScope sc(n); return f(); }
    template<class F> void enqueue(F &&f) { symx_tbb::ArenaScope sc(n); f(); }
};
namespace this_task_arena { inline int max_concurrency() { return (int)symx_tbb::limit_now(); } inline int current_thread_index() { return symx_tbb::task_id() % (int)symx_tbb::limit_now(); } template<class F> auto isolate(const F &f) -> decltype(f()) { return f(); } }
namespace info { inline int default_concurrency() { return (int)symx_tbb::sched().hardware; } }
class task_scheduler_observer { public: void observe(bool = true) {} virtual void on_scheduler_entry(bool) {} virtual void on_scheduler_exit(bool) {} virtual ~task_scheduler_observer() {} };
class tick_count { public: static tick_count now() { return tick_count(); } struct interval_t { double seconds() const { return 0; } }; interval_t operator-(const tick_count &) const { return interval_t(); } };
}
namespace symx_tbb { inline std::size_t limit_now() { return tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); } }
namespace oneapi { namespace tbb = ::tbb; }
#endif
