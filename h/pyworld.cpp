// The message passing under the Python package built for MPI: one process per rank, a socket between every two of them.
// A rank that waits for a message that cannot come any more is found out by the others having finished.
#include "mpishim/mc_mpi.hpp"
#include <cerrno>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <list>
#include <poll.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
const mc_ops *mc_host;
int mc_rank_ = 0, mc_size_ = 1;
namespace {
struct Head { int kind, tag; long count; uint32_t tl, dl; };   // kind: 0 message, 1 collective, 2 finished
struct Msg { Head h; std::string type, data; };
std::vector<int> fd;
std::vector<std::string> in;
std::vector<std::deque<Msg>> mail, colls;
std::vector<int> finished;
int round_ = 0;
std::string err;
double limit = 100;
struct Req { bool recv, done = false; int src, tag; std::string type; long count; Msg m; int from = -1; };
std::map<long, Req> reqs;
std::list<long> open_;
long next_ = 1;
std::vector<std::string> got;
std::string held;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int bad(const std::string &s) { if (err.empty()) err = s; return 1; }
void deliver(int r, Msg &&m) {
    if (m.h.kind == 2) { finished[r]++; return; }
    if (m.h.kind == 1) { colls[r].push_back(std::move(m)); return; }
    mail[r].push_back(std::move(m));
}
void match() {
    for (auto it = open_.begin(); it != open_.end();) {
        Req &q = reqs[*it];
        bool hit = false;
        for (int r = 0; r < mc_size_ && !hit; r++) {
            if (q.src >= 0 && q.src != r) continue;
            for (auto m = mail[r].begin(); m != mail[r].end(); ++m) {
                if (q.tag >= 0 && m->h.tag != q.tag) continue;
                if (m->type != q.type) bad("message of type " + m->type + " received as " + q.type);
                q.m = std::move(*m); q.from = r; q.done = hit = true;
                mail[r].erase(m);
                break;
            }
        }
        it = hit ? open_.erase(it) : std::next(it);
    }
}
// reads what there is; waits for more if asked to
int pump(int ms) {
    std::vector<pollfd> p;
    for (int r = 0; r < mc_size_; r++) if (fd[r] >= 0) p.push_back({fd[r], POLLIN, 0});
    if (!p.empty() && poll(p.data(), p.size(), ms) > 0)
        for (int r = 0; r < mc_size_; r++) {
            if (fd[r] < 0) continue;
            char b[65536];
            for (;;) {
                ssize_t n = read(fd[r], b, sizeof b);
                if (n > 0) { in[r].append(b, n); continue; }
                if (n == 0) { close(fd[r]); fd[r] = -1; bad("a rank is gone"); }
                break;
            }
            for (;;) {
                if (in[r].size() < sizeof(Head)) break;
                Msg m; memcpy(&m.h, in[r].data(), sizeof(Head));
                size_t l = sizeof(Head) + m.h.tl + m.h.dl;
                if (in[r].size() < l) break;
                m.type = in[r].substr(sizeof(Head), m.h.tl); m.data = in[r].substr(sizeof(Head) + m.h.tl, m.h.dl);
                in[r].erase(0, l);
                deliver(r, std::move(m));
            }
        }
    match();
    return err.empty() ? 0 : 1;
}
bool alone() { for (int r = 0; r < mc_size_; r++) if (r != mc_rank_ && finished[r] <= round_) return false; return true; }
template <class F> int until(F ok, const char *what, bool cut = true) {
    double t0 = now();
    if (pump(0)) return 1;
    while (!ok()) {
        if (cut && alone()) { if (pump(0)) return 1; if (ok()) break; return bad(std::string("waits for ever: ") + what); }
        if (now() - t0 > limit) return bad(std::string("no progress: ") + what);
        if (pump(200)) return 1;
    }
    return 0;
}
int put(int dst, const Head &h, const std::string &type, const char *d) {
    std::string s((const char *)&h, sizeof h); s += type; s.append(d ? d : "", h.dl);
    if (dst == mc_rank_) { Msg m; m.h = h; m.type = type; m.data.assign(d ? d : "", h.dl); deliver(dst, std::move(m)); return 0; }
    size_t k = 0;
    double t0 = now();
    while (k < s.size()) {
        if (fd[dst] < 0) return bad("a rank is gone");
        ssize_t n = send(fd[dst], s.data() + k, s.size() - k, MSG_NOSIGNAL);
        if (n > 0) { k += n; continue; }
        if (errno != EAGAIN && errno != EINTR) return bad("a rank is gone");
        if (now() - t0 > limit) return bad("no progress: send");
        if (pump(10)) return 1;
    }
    return 0;
}
long post_send(int dst, int tag, const char *type, long count, const char *data, size_t len, int) {
    long id = next_++; Req &q = reqs[id]; q.recv = false; q.done = true;
    if (dst < 0 || dst >= mc_size_) { bad("message to rank " + std::to_string(dst)); return id; }
    put(dst, Head{0, tag, count, (uint32_t)strlen(type), (uint32_t)len}, type, data);
    return id;
}
long post_recv(int src, int tag, const char *type, long count) {
    long id = next_++; Req &q = reqs[id]; q.recv = true; q.src = src; q.tag = tag; q.type = type; q.count = count;
    if (src != boost::mpi::any_source && (src < 0 || src >= mc_size_)) bad("message from rank " + std::to_string(src));
    open_.push_back(id);
    return id;
}
int done(long id, int *src, int *tag, long *count, const char **data, size_t *len) {
    Req &q = reqs[id];
    held = std::move(q.m.data);
    *src = q.from; *tag = q.m.h.tag; *count = q.m.h.count; *data = held.data(); *len = held.size();
    reqs.erase(id);
    return 0;
}
int wait_(long id, int *src, int *tag, long *count, const char **data, size_t *len) {
    if (!err.empty()) return 1;
    if (!reqs[id].done && until([&] { return reqs[id].done; }, "a message")) return 1;
    return done(id, src, tag, count, data, len);
}
int test_(long id, int *src, int *tag, long *count, const char **data, size_t *len) {
    if (!err.empty() || pump(1)) return 1;
    if (!reqs[id].done) return alone() ? bad("waits for ever: a message") : 2;
    return done(id, src, tag, count, data, len);
}
int probe_(int src, int tag, int block, int *osrc, int *otag, long *count) {
    auto f = [&] {
        for (int r = 0; r < mc_size_; r++) if (src < 0 || src == r) for (auto &m : mail[r]) if (tag < 0 || m.h.tag == tag) { *osrc = r; *otag = m.h.tag; *count = m.h.count; return true; }
        return false;
    };
    if (!err.empty() || pump(0)) return 1;
    if (f()) return 0;
    if (!block) return 2;
    return until(f, "a message");
}
int coll_(const char *kind, int root, const char *type, const char *data, size_t len) {
    if (!err.empty()) return 1;
    std::string k = std::string(kind) + "/" + std::to_string(root) + "/" + type;
    for (int r = 0; r < mc_size_; r++) if (put(r, Head{1, 0, -1, (uint32_t)k.size(), (uint32_t)len}, k, data)) return 1;
    if (until([&] { for (auto &c : colls) if (c.empty()) return false; return true; }, kind)) return 1;
    got.assign(mc_size_, "");
    for (int r = 0; r < mc_size_; r++) {
        if (colls[r].front().type != k) return bad("rank " + std::to_string(r) + " is in " + colls[r].front().type + ", rank " + std::to_string(mc_rank_) + " in " + k);
        got[r] = std::move(colls[r].front().data);
        colls[r].pop_front();
    }
    return 0;
}
void coll_get(int r, const char **d, size_t *l) { *d = got[r].data(); *l = got[r].size(); }
uint64_t draw_() { return 0; }
int armed_() { return 0; }
void note_(const char *s) { bad(s); }
const mc_ops ops = {post_send, post_recv, wait_, test_, probe_, coll_, coll_get, draw_, armed_, note_};
}
#define API extern "C" __attribute__((visibility("default")))
API void mcw_init(int rank, int size, const int *fds) {
    mc_host = &ops; mc_rank_ = rank; mc_size_ = size;
    fd.assign(fds, fds + size); in.assign(size, ""); mail.assign(size, {}); colls.assign(size, {}); finished.assign(size, 0);
    fd[rank] = -1;
    for (int f : fd) if (f >= 0) { fcntl(f, F_SETFL, O_NONBLOCK); int b = 1 << 21; setsockopt(f, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
}
// Every rank has come to the end of the command: nothing may be left over.
API const char *mcw_finish() {
    for (int r = 0; r < mc_size_; r++) if (r != mc_rank_ && fd[r] >= 0) { std::string e; e.swap(err); put(r, Head{2, 0, 0, 0, 0}, "", nullptr); if (!e.empty()) err = e; }
    std::string e; e.swap(err);
    double t0 = now();
    while (!alone() && now() - t0 < limit) { bool gone = false; for (int r = 0; r < mc_size_; r++) if (r != mc_rank_ && fd[r] < 0) gone = true; if (gone) break; pump(200); }
    pump(0);
    if (e.empty()) e = err;
    if (e.empty()) for (int r = 0; r < mc_size_; r++) { if (!mail[r].empty()) e = "a message is never received"; if (!colls[r].empty()) e = "a collective call is not taken part in: " + colls[r].front().type; }
    if (e.empty() && !open_.empty()) e = "a receive is never matched";
    round_++;
    for (auto &m : mail) m.clear();
    for (auto &m : colls) m.clear();
    open_.clear(); reqs.clear(); err.clear();
    static std::string out; out = e;
    return out.c_str();
}
API int mcw_bcast(const char *d, size_t l, int root, const char **o, size_t *ol) {
    if (coll_("pybcast", root, "", mc_rank_ == root ? d : "", mc_rank_ == root ? l : 0)) return 1;
    coll_get(root, o, ol);
    return 0;
}
API int mcw_barrier() { return coll_("barrier", 0, "", "", 0); }
