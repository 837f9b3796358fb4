// Stand-in for Boost.MPI: the same interface, every operation handed to the explorer that owns the schedule.
// Values are passed serialized, as Boost.MPI does, so what a class's serialize() forgets is lost here too.
#pragma once
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/optional.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/complex.hpp>
#include <boost/serialization/level.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/tracking.hpp>
#include <boost/serialization/is_bitwise_serializable.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

extern "C" struct mc_ops {   // implemented by the explorer; blocking calls switch to another rank
    long (*post_send)(int dst, int tag, const char *type, long count, const char *data, size_t len, int sync);
    long (*post_recv)(int src, int tag, const char *type, long count);
    int (*wait)(long req, int *src, int *tag, long *count, const char **data, size_t *len);   // 0 done, 1 unwind
    int (*test)(long req, int *src, int *tag, long *count, const char **data, size_t *len);   // 0 done, 1 unwind, 2 not yet
    int (*probe)(int src, int tag, int block, int *osrc, int *otag, long *count);
    int (*coll)(const char *kind, int root, const char *type, const char *data, size_t len);  // 0 done, 1 unwind
    void (*coll_get)(int rank, const char **data, size_t *len);
    uint64_t (*draw)(void);
    int (*draw_armed)(void);
    void (*note)(const char *what);
};
extern const mc_ops *mc_host;
extern int mc_rank_, mc_size_;
struct mc_unwind {};

#ifndef BOOST_IS_MPI_DATATYPE
#define BOOST_IS_MPI_DATATYPE(T) namespace boost { namespace mpi { template <> struct is_mpi_datatype<T> : boost::mpl::true_ {}; } }
#endif

namespace boost { namespace mpi {
template <class T> struct is_mpi_datatype : boost::mpl::bool_<std::is_arithmetic<T>::value> {};
template <class T, class U> struct is_mpi_datatype<std::pair<T, U>> : boost::mpl::bool_<is_mpi_datatype<T>::value && is_mpi_datatype<U>::value> {};
const int any_source = -2, any_tag = -1;
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
namespace threading { enum level { single, funneled, serialized, multiple }; }

template <class T> std::string mc_pack(const T *v, long n) {
    std::ostringstream s;
    { boost::archive::binary_oarchive a(s, boost::archive::no_header); for (long i = 0; i < n; i++) a << v[i]; }
    return s.str();
}
template <class T> void mc_unpack(const char *d, size_t l, T *v, long n) {
    std::istringstream s(std::string(d, l));
    boost::archive::binary_iarchive a(s, boost::archive::no_header);
    for (long i = 0; i < n; i++) a >> v[i];
}
template <class T> std::string mc_type() { return typeid(T).name(); }

class status {
  public:
    int src = -1, tg = -1, err = 0; long cnt = -1;
    int source() const { return src; }
    int tag() const { return tg; }
    int error() const { return err; }
    bool cancelled() const { return false; }
    template <class T> optional<int> count() const { return cnt < 0 ? optional<int>() : optional<int>((int)cnt); }
};

class request {
    struct body { long id; bool done; status st; std::function<void(const char *, size_t, long)> put; };
    std::shared_ptr<body> b;
    status finish(int s, int t, long c, const char *d, size_t l) {
        b->done = true; b->st.src = s; b->st.tg = t; b->st.cnt = c;
        if (b->put) b->put(d, l, c);
        return b->st;
    }
  public:
    request() {}
    request(long id, std::function<void(const char *, size_t, long)> put) : b(new body{id, false, {}, put}) {}
    status wait() {
        if (!b || b->done) return b ? b->st : status();
        int s, t; long c; const char *d; size_t l;
        if (mc_host->wait(b->id, &s, &t, &c, &d, &l)) throw mc_unwind();
        return finish(s, t, c, d, l);
    }
    optional<status> test() {
        if (!b) return optional<status>(status());
        if (b->done) return b->st;
        int s, t; long c; const char *d; size_t l;
        int r = mc_host->test(b->id, &s, &t, &c, &d, &l);
        if (r == 1) throw mc_unwind();
        if (r == 2) return optional<status>();
        return finish(s, t, c, d, l);
    }
    void cancel() {}
    bool active() const { return b && !b->done; }
    bool trivial() const { return true; }
};

class communicator {
  public:
    communicator() {}
    template <class X> communicator(const X &, comm_create_kind) {}
    int rank() const { return mc_rank_; }
    int size() const { return mc_size_; }
    void barrier() const { if (mc_host->coll("barrier", 0, "", "", 0)) throw mc_unwind(); }
    explicit operator bool() const { return true; }
    void abort(int) const { std::abort(); }

    template <class T> request post(int d, int t, const T *v, long n, bool arr, int sync) const {
        std::string s = mc_pack(v, n), ty = mc_type<T>() + (arr ? "*" : "");
        return request(mc_host->post_send(d, t, ty.c_str(), arr ? n : -1, s.data(), s.size(), sync), nullptr);
    }
    template <class T> request want(int s, int t, T *v, long n, bool arr) const {
        std::string ty = mc_type<T>() + (arr ? "*" : "");
        return request(mc_host->post_recv(s, t, ty.c_str(), arr ? n : -1), [v, n, arr](const char *d, size_t l, long c) { mc_unpack(d, l, v, arr ? std::min(n, c) : n); });
    }
    template <class T> request isend(int d, int t, const T &v) const { return post(d, t, &v, 1, false, 0); }
    template <class T> request isend(int d, int t, const T *v, int n) const { return post(d, t, v, n, true, 0); }
    request isend(int d, int t) const { return post<char>(d, t, nullptr, 0, true, 0); }
    template <class T> request irecv(int s, int t, T &v) const { return want(s, t, &v, 1, false); }
    template <class T> request irecv(int s, int t, T *v, int n) const { return want(s, t, v, n, true); }
    request irecv(int s, int t) const { return want<char>(s, t, nullptr, 0, true); }
    template <class T> void send(int d, int t, const T &v) const { post(d, t, &v, 1, false, 0).wait(); }
    template <class T> void send(int d, int t, const T *v, int n) const { post(d, t, v, n, true, 0).wait(); }
    void send(int d, int t) const { post<char>(d, t, nullptr, 0, true, 0).wait(); }
    template <class T> void ssend(int d, int t, const T &v) const { post(d, t, &v, 1, false, 1).wait(); }
    template <class T> status recv(int s, int t, T &v) const { return want(s, t, &v, 1, false).wait(); }
    template <class T> status recv(int s, int t, T *v, int n) const { return want(s, t, v, n, true).wait(); }
    status recv(int s, int t) const { return want<char>(s, t, nullptr, 0, true).wait(); }
    template <class T> status sendrecv(int d, int st, const T &sv, int s, int rt, T &rv) const {
        request a = isend(d, st, sv), b = irecv(s, rt, rv);
        status x = b.wait(); a.wait(); return x;
    }
    status probe(int s = any_source, int t = any_tag) const {
        status x;
        if (mc_host->probe(s, t, 1, &x.src, &x.tg, &x.cnt) == 1) throw mc_unwind();
        return x;
    }
    optional<status> iprobe(int s = any_source, int t = any_tag) const {
        status x;
        int r = mc_host->probe(s, t, 0, &x.src, &x.tg, &x.cnt);
        if (r == 1) throw mc_unwind();
        return r == 2 ? optional<status>() : optional<status>(x);
    }
};
class environment {
  public:
    environment(bool = true) {}
    environment(threading::level, bool = true) {}
    environment(int &, char **&, bool = true) {}
    environment(int &, char **&, threading::level, bool = true) {}
    static bool initialized() { return true; }
    static bool finalized() { return false; }
    static std::string processor_name() { return "rank"; }
    static int max_tag() { return 1 << 20; }
};
struct timer { double elapsed() const { return 0; } void restart() {} };

template <class It> void wait_all(It a, It b) { for (; a != b; ++a) a->wait(); }
template <class It, class O> O wait_all(It a, It b, O o) { for (; a != b; ++a) *o++ = a->wait(); return o; }
template <class It> bool test_all(It a, It b) { bool r = true; for (; a != b; ++a) if (!a->test()) r = false; return r; }
template <class It> optional<std::pair<status, It>> test_any(It a, It b) {
    for (; a != b; ++a) if (a->active()) if (auto s = a->test()) return std::make_pair(*s, a);
    return optional<std::pair<status, It>>();
}
template <class It> std::pair<status, It> wait_any(It a, It b) { for (;;) { for (It i = a; i != b; ++i) if (i->active()) if (auto s = i->test()) return {*s, i}; } }

// ---- collectives
template <class T> struct inplace_t { T b; inplace_t(T x) : b(x) {} };
template <class T> inplace_t<T *> inplace(T *v) { return v; }
template <class T> inplace_t<T> inplace(T &v) { return v; }
template <class T> struct maximum { const T &operator()(const T &a, const T &b) const { return a < b ? b : a; } };
template <class T> struct minimum { const T &operator()(const T &a, const T &b) const { return b < a ? b : a; } };
template <class T> struct bitwise_or { T operator()(const T &a, const T &b) const { return a | b; } };
template <class T> struct bitwise_and { T operator()(const T &a, const T &b) const { return a & b; } };
template <class T> void mc_coll(const char *k, int root, const T *v, long n) {
    std::string s = v ? mc_pack(v, n) : "";
    if (mc_host->coll(k, root, (mc_type<T>() + "*" ).c_str(), s.data(), s.size())) throw mc_unwind();
}
template <class T> void mc_from(int r, T *v, long n) { const char *d; size_t l; mc_host->coll_get(r, &d, &l); mc_unpack(d, l, v, n); }
template <class T> void broadcast(const communicator &c, T *v, int n, int root) { mc_coll("bcast", root, c.rank() == root ? v : (const T *)nullptr, n); if (c.rank() != root) mc_from(root, v, n); }
template <class T> void broadcast(const communicator &c, T &v, int root) { broadcast(c, &v, 1, root); }
template <class T> void gather(const communicator &c, const T *in, int n, T *out, int root) { mc_coll("gather", root, in, n); if (c.rank() == root) for (int r = 0; r < c.size(); r++) mc_from(r, out + (long)r * n, n); }
template <class T> void gather(const communicator &c, const T *in, int n, std::vector<T> &out, int root) { if (c.rank() == root) out.resize((size_t)n * c.size()); gather(c, in, n, out.data(), root); }
template <class T> void gather(const communicator &c, const T *in, int n, int root) { gather(c, in, n, (T *)nullptr, root); }
template <class T> void gather(const communicator &c, const T &in, T *out, int root) { gather(c, &in, 1, out, root); }
template <class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) { gather(c, &in, 1, out, root); }
template <class T> void gather(const communicator &c, const T &in, int root) { gather(c, &in, 1, (T *)nullptr, root); }
template <class T> void all_gather(const communicator &c, const T *in, int n, T *out) { mc_coll("all_gather", 0, in, n); for (int r = 0; r < c.size(); r++) mc_from(r, out + (long)r * n, n); }
template <class T> void all_gather(const communicator &c, const T *in, int n, std::vector<T> &out) { out.resize((size_t)n * c.size()); all_gather(c, in, n, out.data()); }
template <class T> void all_gather(const communicator &c, const T &in, T *out) { all_gather(c, &in, 1, out); }
template <class T> void all_gather(const communicator &c, const T &in, std::vector<T> &out) { all_gather(c, &in, 1, out); }
template <class T> void scatter(const communicator &c, const T *in, T *out, int n, int root) { mc_coll("scatter", root, c.rank() == root ? in : (const T *)nullptr, (long)n * c.size()); std::vector<T> a((size_t)n * c.size()); mc_from(root, a.data(), (long)a.size()); std::copy(a.begin() + (long)n * c.rank(), a.begin() + (long)n * (c.rank() + 1), out); }
template <class T> void scatter(const communicator &c, const std::vector<T> &in, T *out, int n, int root) { scatter(c, in.data(), out, n, root); }
template <class T> void scatter(const communicator &c, const std::vector<T> &in, T &out, int root) { scatter(c, in.data(), &out, 1, root); }
template <class T> void scatter(const communicator &c, const T *in, T &out, int root) { scatter(c, in, &out, 1, root); }
template <class T> void scatter(const communicator &c, T &out, int root) { scatter(c, (const T *)nullptr, &out, 1, root); }
template <class T> void all_to_all(const communicator &c, const T *in, int n, T *out) { mc_coll("all_to_all", 0, in, (long)n * c.size()); std::vector<T> a((size_t)n * c.size()); for (int r = 0; r < c.size(); r++) { mc_from(r, a.data(), (long)a.size()); std::copy(a.begin() + (long)n * c.rank(), a.begin() + (long)n * (c.rank() + 1), out + (long)n * r); } }
template <class T> void all_to_all(const communicator &c, const std::vector<T> &in, std::vector<T> &out) { out.resize(in.size()); all_to_all(c, in.data(), (int)in.size() / c.size(), out.data()); }
template <class T, class Op> void mc_fold(const communicator &c, int n, T *out, Op op) {
    std::vector<T> a(n);
    for (int r = 0; r < c.size(); r++) { mc_from(r, a.data(), n); for (int i = 0; i < n; i++) out[i] = r ? op(out[i], a[i]) : a[i]; }
}
template <class T, class Op> void all_reduce(const communicator &c, const T *in, int n, T *out, Op op) { mc_coll("all_reduce", 0, in, n); mc_fold(c, n, out, op); }
template <class T, class Op> void all_reduce(const communicator &c, const T &in, T &out, Op op) { all_reduce(c, &in, 1, &out, op); }
template <class T, class Op> T all_reduce(const communicator &c, const T &in, Op op) { T o = in; all_reduce(c, &in, 1, &o, op); return o; }
template <class T, class Op> void all_reduce(const communicator &c, inplace_t<T *> v, int n, Op op) { std::vector<T> o(n); all_reduce(c, (const T *)v.b, n, o.data(), op); std::copy(o.begin(), o.end(), v.b); }
template <class T, class Op> void reduce(const communicator &c, const T *in, int n, T *out, Op op, int root) { mc_coll("gather", root, in, n); if (c.rank() == root) mc_fold(c, n, out, op); }
template <class T, class Op> void reduce(const communicator &c, const T *in, int n, Op op, int root) { reduce(c, in, n, (T *)nullptr, op, root); }
template <class T, class Op> void reduce(const communicator &c, const T &in, T &out, Op op, int root) { reduce(c, &in, 1, &out, op, root); }
template <class T, class Op> void reduce(const communicator &c, const T &in, Op op, int root) { reduce(c, &in, 1, (T *)nullptr, op, root); }
template <class T, class Op> void scan(const communicator &c, const T &in, T &out, Op op) { mc_coll("all_reduce", 0, &in, 1); T a; for (int r = 0; r <= c.rank(); r++) { mc_from(r, &a, 1); out = r ? op(out, a) : a; } }
template <class T> void all_gatherv(const communicator &c, const std::vector<T> &in, T *out, const std::vector<int> &sizes) { mc_coll("all_gatherv", 0, in.data(), (long)in.size()); for (int r = 0; r < c.size(); r++) { mc_from(r, out, sizes[r]); out += sizes[r]; } }
template <class T> void all_gatherv(const communicator &c, const std::vector<T> &in, std::vector<T> &out, const std::vector<int> &sizes) { long n = 0; for (int s : sizes) n += s; out.resize(n); all_gatherv(c, in, out.data(), sizes); }
template <class T> void gatherv(const communicator &c, const std::vector<T> &in, T *out, const std::vector<int> &sizes, int root) { mc_coll("gather", root, in.data(), (long)in.size()); if (c.rank() == root) for (int r = 0; r < c.size(); r++) { mc_from(r, out, sizes[r]); out += sizes[r]; } }
template <class T> void gatherv(const communicator &c, const std::vector<T> &in, int root) { gatherv(c, in, (T *)nullptr, std::vector<int>(), root); }
}}
