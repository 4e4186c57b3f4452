// An in-process stand-in for Boost.MPI: every rank is a thread, every collective a rendezvous.
// It lets one generated case use any number of ranks, detects mismatched collectives and deadlocks,
// and needs no MPI launcher. Only what a user of collectives and blocking point-to-point calls needs.
#ifndef MPI_STANDIN
#define MPI_STANDIN
#include <any>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <boost/range.hpp>
#include <boost/range/algorithm/copy.hpp>
#include <boost/optional.hpp>
#define MPI_VERSION 3
namespace boost { namespace mpi {
struct standin_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct standin_world {
    int n; std::mutex m; std::condition_variable cv; std::vector<std::any> in; std::vector<std::string> op; std::vector<std::any> out; int arrived = 0, gone = 0; long gen = 0; std::string broken; long calls = 0;
    std::map<std::tuple<int, int, int>, std::deque<std::any>> mail;
    explicit standin_world(int k) : n(k), in(k), op(k) {}
    void fail(std::unique_lock<std::mutex>&, const std::string& w) { if (broken.empty()) broken = w; cv.notify_all(); throw standin_error(broken); }
    std::vector<std::any> meet(int r, std::any v, const std::string& o) {
        std::unique_lock<std::mutex> l(m); if (!broken.empty()) throw standin_error(broken); if (gone) fail(l, "a rank waits in " + o + " but another rank has finished"); in[r] = std::move(v); op[r] = o; ++calls; long g = gen;
        if (++arrived == n) { for (int k = 1; k < n; ++k) if (op[k] != op[0]) fail(l, "mismatched collectives: " + op[0] + " and " + op[k]); out = in; arrived = 0; ++gen; cv.notify_all(); return out; }
        cv.wait(l, [&] { return gen != g || !broken.empty(); }); if (gen == g) throw standin_error(broken); return out;
    }
    void leave() { std::unique_lock<std::mutex> l(m); ++gone; if (arrived && broken.empty()) broken = "a rank waits in a collective but another rank has finished"; cv.notify_all(); }
    void post(int from, int to, int tag, std::any v) { std::unique_lock<std::mutex> l(m); mail[std::make_tuple(from, to, tag)].push_back(std::move(v)); cv.notify_all(); }
    std::any take(int from, int to, int tag) { std::unique_lock<std::mutex> l(m); auto k = std::make_tuple(from, to, tag); cv.wait(l, [&] { return !mail[k].empty() || !broken.empty() || gone; }); if (mail[k].empty()) { if (broken.empty()) broken = "receive without a send"; throw standin_error(broken); } std::any v = mail[k].front(); mail[k].pop_front(); return v; }
};
inline standin_world*& tl_world() { static thread_local standin_world* w = nullptr; return w; }
inline int& tl_rank() { static thread_local int r = 0; return r; }
struct status {}; struct request { std::function<void()> f; boost::optional<status> test() { wait(); return status(); } status wait() { if (f) { f(); f = nullptr; } return status(); } };
class environment { public: environment() {} environment(int&, char**&) {} static bool initialized() { return true; } };
class communicator {
    standin_world* w; int r; public: communicator() : w(tl_world()), r(tl_rank()) {}
    int rank() const { return w ? r : 0; } int size() const { return w ? w->n : 1; } operator bool() const { return true; } standin_world* world() const { return w; }
    std::vector<std::any> meet(std::any v, const std::string& o) const { if (!w) return std::vector<std::any>{v}; return w->meet(r, std::move(v), o); }
    void barrier() const { meet(0, "barrier"); }
    template <class T> void send(int d, int t, const T& v) const { w->post(r, d, t, v); } void send(int d, int t) const { w->post(r, d, t, 0); }
    template <class T> status recv(int s, int t, T& v) const { v = std::any_cast<T>(w->take(s, r, t)); return status(); } status recv(int s, int t) const { w->take(s, r, t); return status(); }
    template <class T> request isend(int d, int t, const T& v) const { send(d, t, v); return request(); } request isend(int d, int t) const { send(d, t); return request(); }
    template <class T> request irecv(int s, int t, T& v) const { communicator c(*this); T* p = &v; return request{[c, s, t, p] { c.recv(s, t, *p); }}; }
};
template <class It> void wait_all(It a, It b) { for (; a != b; ++a) a->wait(); }
template <class T> struct maximum { const T& operator()(const T& a, const T& b) const { return a < b ? b : a; } }; template <class T> struct minimum { const T& operator()(const T& a, const T& b) const { return b < a ? b : a; } };
template <class T> struct bitwise_and { T operator()(const T& a, const T& b) const { return a & b; } }; template <class T> struct bitwise_or { T operator()(const T& a, const T& b) const { return a | b; } }; template <class T> struct bitwise_xor { T operator()(const T& a, const T& b) const { return a ^ b; } }; template <class T> struct logical_xor { T operator()(const T& a, const T& b) const { return (a || b) && !(a && b); } };
inline std::string rooted(const char* n, int root) { return n + std::string(" root ") + std::to_string(root); }
template <class T> void all_gather(const communicator& c, const T& in, std::vector<T>& out) { auto v = c.meet(in, "all_gather"); out.clear(); for (auto& a : v) out.push_back(std::any_cast<T>(a)); }
template <class T, class Op> T all_reduce(const communicator& c, const T& in, Op op) { auto v = c.meet(in, "all_reduce"); T r = std::any_cast<T>(v[0]); for (size_t k = 1; k < v.size(); ++k) r = op(r, std::any_cast<T>(v[k])); return r; }
template <class T, class Op> void all_reduce(const communicator& c, const T& in, T& out, Op op) { out = all_reduce(c, in, op); }
template <class T, class Op> void reduce(const communicator& c, const T& in, T& out, Op op, int root) { auto v = c.meet(in, rooted("reduce", root)); if (c.rank() != root) return; T r = std::any_cast<T>(v[0]); for (size_t k = 1; k < v.size(); ++k) r = op(r, std::any_cast<T>(v[k])); out = r; }
template <class T, class Op> void reduce(const communicator& c, const T& in, Op, int root) { c.meet(in, rooted("reduce", root)); }
template <class T> void broadcast(const communicator& c, T& v, int root) { auto a = c.meet(v, rooted("broadcast", root)); v = std::any_cast<T>(a[root]); }
template <class T> void gather(const communicator& c, const T& in, std::vector<T>& out, int root) { auto v = c.meet(in, rooted("gather", root)); if (c.rank() != root) return; out.clear(); for (auto& a : v) out.push_back(std::any_cast<T>(a)); }
template <class T> void gather(const communicator& c, const T& in, int root) { c.meet(in, rooted("gather", root)); }
template <class T> void scatter(const communicator& c, const std::vector<T>& in, T& out, int root) { auto v = c.meet(in, rooted("scatter", root)); out = std::any_cast<std::vector<T>>(v[root]).at(c.rank()); }
template <class T> void scatter(const communicator& c, T& out, int root) { auto v = c.meet(std::vector<T>(), rooted("scatter", root)); out = std::any_cast<std::vector<T>>(v[root]).at(c.rank()); }
// run f(rank) on n threads; returns the message of the first exception, if any
template <class F> std::string standin_run(int n, F f) {
    standin_world w(n); std::vector<std::thread> th; std::vector<std::string> err(n);
    for (int r = 0; r < n; ++r) th.emplace_back([&, r] { tl_world() = &w; tl_rank() = r; try { f(r); } catch (const std::exception& e) { err[r] = e.what(); if (err[r].empty()) err[r] = "exception"; } w.leave(); tl_world() = nullptr; });
    for (auto& t : th) t.join(); for (auto& e : err) if (!e.empty()) return e; return "";
}
}}
#endif
