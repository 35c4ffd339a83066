// A communicator of P threads in one process: the MPI calls the code under test makes, on any number of processes, without a launcher.
#pragma once
#include <mpi.h>
#include <condition_variable>
#include <memory>
#include <deque>
#include <mutex>
#include <thread>
#include <atomic>
#include "common.hpp"
namespace sim {
inline int g_size = 1; inline thread_local int g_rank = 0;
struct Post { const char* call = ""; const void* s = nullptr; void* r = nullptr; long n = 0; size_t w = 0; long root = 0; const void* op = nullptr; };
inline std::vector<Post> g_post; inline std::mutex g_m; inline std::condition_variable g_cv; inline int g_in = 0; inline uint64_t g_gen = 0; inline std::atomic<bool> g_dead{false};
struct Type { size_t size; };
struct Dead : std::runtime_error { using std::runtime_error::runtime_error; };
inline void die(const std::string& w) { { std::lock_guard<std::mutex> l(g_m); g_dead = true; } g_cv.notify_all(); throw Dead(w); }
inline std::map<const void*, size_t>& types() { static std::map<const void*, size_t> t; return t; }
inline size_t width(MPI_Datatype d) {
  if(d == MPI_INT) return 4; if(d == MPI_DOUBLE) return 8; if(d == MPI_UINT64_T || d == MPI_INT64_T || d == MPI_UNSIGNED_LONG || d == MPI_LONG) return 8; if(d == MPI_CHAR || d == MPI_BYTE) return 1; if(d == MPI_FLOAT) return 4; if(d == MPI_UINT32_T || d == MPI_INT32_T) return 4;
  std::lock_guard<std::mutex> l(g_m); auto it = types().find((const void*)d); if(it == types().end()) throw Dead("unknown or freed MPI datatype"); return it->second;
}
inline void barrier() {
  std::unique_lock<std::mutex> l(g_m); auto gen = g_gen;
  if(++g_in == g_size) { g_in = 0; ++g_gen; g_cv.notify_all(); return; }
  if(!g_cv.wait_for(l, std::chrono::seconds(20), [&] { return g_gen != gen || g_dead; }) || g_gen == gen) { l.unlock(); die("a process never reached a collective call that another one waits in"); }
}
// everyone posts its arguments; f reads the others'
template <class F> void collective(Post p, F f) {
  g_post[g_rank] = p; barrier();
  for(auto& q : g_post) if(std::string(q.call) != p.call || q.w != p.w || q.root != p.root || q.op != p.op) { std::string w = std::string("processes disagree on the collective call: ") + p.call + " / " + q.call; die(w); }
  f(); barrier();
}
// messages between two processes
struct Msg { std::vector<char> b; }; inline std::map<std::tuple<int, int, int>, std::deque<Msg>> g_mail;
struct Req { bool recv = false; void* b = nullptr; size_t n = 0; int peer = 0, tag = 0; std::vector<char> sent; }; inline thread_local long g_open = 0;
inline void put(const void* b, size_t n, int to, int tag) { if(to < 0 || to >= g_size) die("message to a process that does not exist"); { std::lock_guard<std::mutex> l(g_m); g_mail[{g_rank, to, tag}].push_back({std::vector<char>((const char*)b, (const char*)b + n)}); } g_cv.notify_all(); }
inline void get(void* b, size_t n, int from, int tag) {
  if(from < 0 || from >= g_size) die("message from a process that does not exist");
  std::unique_lock<std::mutex> l(g_m); auto k = std::make_tuple(from, g_rank, tag);
  if(!g_cv.wait_for(l, std::chrono::seconds(20), [&] { return g_dead || !g_mail[k].empty(); }) || g_mail[k].empty()) { l.unlock(); die("a process waits for a message that is never sent"); }
  auto m = std::move(g_mail[k].front()); g_mail[k].pop_front(); l.unlock(); if(m.b.size() > n) die("a message is longer than the receiver expects"); std::memcpy(b, m.b.data(), m.b.size());
}
// runs f(rank) on every process; every started call must be matched
template <class F> void run(int P, F f) {
  g_size = P; g_post.assign(P, Post{}); g_in = 0; g_dead = false; g_mail.clear(); std::vector<std::string> err(P); std::vector<std::thread> th;
  for(int r = 0; r < P; ++r) th.emplace_back([&, r] { g_rank = r; g_open = 0; try { f(r); if(g_open) err[r] = "a request was never completed"; } catch(const std::exception& e) { err[r] = e.what(); if(err[r].empty()) err[r] = "exception"; g_dead = true; g_cv.notify_all(); } });
  for(auto& t : th) t.join(); g_rank = 0;
  for(auto& e : err) if(!e.empty()) hv::fail("a process failed: " + e);
  for(auto& [k, q] : g_mail) if(!q.empty()) hv::fail("a message was sent that nobody receives");
  g_size = 1;
}
template <class T> void comb(void* a, const void* b, long n, MPI_Op op) {
  T* x = (T*)a; const T* y = (const T*)b;
  for(long i = 0; i < n; ++i) { if(op == MPI_SUM) x[i] += y[i]; else if(op == MPI_MIN) x[i] = std::min(x[i], y[i]); else if(op == MPI_MAX) x[i] = std::max(x[i], y[i]); else throw Dead("reduction not modelled"); }
}
inline void reduce(void* out, long n, MPI_Datatype d, MPI_Op op, const std::vector<std::vector<char>>& in) {
  std::memcpy(out, in[0].data(), n * width(d));
  for(int r = 1; r < g_size; ++r) { if(d == MPI_DOUBLE) comb<double>(out, in[r].data(), n, op); else if(d == MPI_FLOAT) comb<float>(out, in[r].data(), n, op); else if(d == MPI_INT) comb<int>(out, in[r].data(), n, op); else if(width(d) == 8) comb<uint64_t>(out, in[r].data(), n, op); else throw Dead("reduction type not modelled"); }
}
inline std::vector<std::vector<std::vector<char>>> g_copy;
}
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim::g_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = sim::g_size; return 0; }
int MPI_Barrier(MPI_Comm) { sim::collective({"MPI_Barrier"}, [] {}); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype* o) { auto* t = new sim::Type{n * sim::width(d)}; std::lock_guard<std::mutex> l(sim::g_m); sim::types()[t] = t->size; *o = (MPI_Datatype)(void*)t; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* d) { std::lock_guard<std::mutex> l(sim::g_m); if(!sim::types().erase((const void*)*d)) std::abort(); delete(sim::Type*)(void*)*d; *d = MPI_DATATYPE_NULL; return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm) {
  size_t w = sim::width(d); if(root < 0 || root >= sim::g_size) sim::die("broadcast from a process that does not exist");
  sim::collective({"MPI_Bcast", b, b, n, w, root}, [&] { if(sim::g_post[root].n != n) sim::die("broadcast counts differ"); if(sim::g_rank != root && n) std::memcpy(b, sim::g_post[root].s, n * w); }); return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype d, void* r, int m, MPI_Datatype e, MPI_Comm) {
  size_t w = sim::width(d); if(sim::width(e) * m != w * n) sim::die("MPI_Allgather: receive count does not match the send count"); std::vector<char> mine((const char*)s, (const char*)s + n * w);
  sim::collective({"MPI_Allgather", mine.data(), r, n, w}, [&] { for(int k = 0; k < sim::g_size; ++k) { if(sim::g_post[k].n != n) sim::die("MPI_Allgather counts differ"); std::memcpy((char*)r + k * n * w, sim::g_post[k].s, n * w); } }); return 0;
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype d, void* r, const int* cnt, const int* dis, MPI_Datatype, MPI_Comm) {
  size_t w = sim::width(d);
  sim::collective({"MPI_Allgatherv", s, r, n, w}, [&] { for(int k = 0; k < sim::g_size; ++k) { if(sim::g_post[k].n != cnt[k]) sim::die("MPI_Allgatherv: receive count does not match what the process sends"); if(cnt[k]) std::memcpy((char*)r + dis[k] * w, sim::g_post[k].s, cnt[k] * w); } }); return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm) {
  size_t w = sim::width(d); if(s == MPI_IN_PLACE) s = r; std::vector<char> mine((const char*)s, (const char*)s + n * w);
  sim::collective({"MPI_Allreduce", mine.data(), r, n, w, 0, op}, [&] { std::vector<std::vector<char>> in; for(auto& q : sim::g_post) { if(q.n != n) sim::die("MPI_Allreduce counts differ"); in.emplace_back((const char*)q.s, (const char*)q.s + n * w); } if(n) sim::reduce(r, n, d, op, in); }); return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm) {
  size_t w = sim::width(d); if(s == MPI_IN_PLACE) s = r; std::vector<char> mine((const char*)s, (const char*)s + n * w);
  sim::collective({"MPI_Reduce", mine.data(), r, n, w, root, op}, [&] { std::vector<std::vector<char>> in; for(auto& q : sim::g_post) { if(q.n != n) sim::die("MPI_Reduce counts differ"); in.emplace_back((const char*)q.s, (const char*)q.s + n * w); } if(n && sim::g_rank == root) sim::reduce(r, n, d, op, in); }); return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm) { sim::put(b, n * sim::width(d), to, tag); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm, MPI_Request* q) { sim::put(b, n * sim::width(d), to, tag); *q = (MPI_Request)(void*)new sim::Req{false, const_cast<void*>(b), n * sim::width(d), to, tag, {(const char*)b, (const char*)b + n * sim::width(d)}}; ++sim::g_open; return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm, MPI_Request* q) { *q = (MPI_Request)(void*)new sim::Req{true, b, n * sim::width(d), from, tag, {}}; ++sim::g_open; if(n) std::memset(b, 0x5a, n * sim::width(d)); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm, MPI_Status*) { sim::get(b, n * sim::width(d), from, tag); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status*) { if(*q == MPI_REQUEST_NULL) return 0; auto* r = (sim::Req*)(void*)*q; std::unique_ptr<sim::Req> own(r); --sim::g_open; if(r->recv) sim::get(r->b, r->n, r->peer, r->tag); else if(r->n && std::memcmp(r->b, r->sent.data(), r->n)) sim::die("a message buffer changed before the message was sent"); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status*) { for(int i = 0; i < n; ++i) MPI_Wait(q + i, nullptr); return 0; }
}
