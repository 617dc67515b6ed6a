// Jobs under a deterministic scheduler, with file operations as the points where they can be interrupted.
#pragma once
#include "mc.hh"
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>
using mc::Ctx;

// ---- jobs under a deterministic scheduler: one runs at a time
struct Cancelled { };
struct Jobs {
  enum State { ready, waiting, done };
  std::mutex m; std::condition_variable cv; int current = -1, n; std::vector<State> st; std::vector<std::exception_ptr> err; bool cancel = false; int preempt; bool fine; std::vector<std::string> where;
  Jobs(int n, int preempt, bool fine) : n(n), st(n, ready), err(n), preempt(preempt), fine(fine), where(n) { }
  static thread_local Jobs* mine; static thread_local int id;
  void give(int to, std::unique_lock<std::mutex>& l) { current = to; cv.notify_all(); cv.wait(l, [&] { return current == (id < 0 ? -1 : id); }); }
  void pause(State s, const char* w, bool may_throw = true) {
    { std::unique_lock<std::mutex> l(m); st[id] = s; where[id] = w; give(-1, l); }
    if(may_throw && cancel && std::uncaught_exceptions() == 0) throw Cancelled{};
  }
  void point(const char* w, bool may_throw = true) { if(fine && !cancel) pause(ready, w, may_throw); }
  // order: -1 explores all schedules with at most `preempt` interruptions; otherwise a fixed order of precedence
  void run(Ctx& c, int order, const std::function<void(int)>& body) {
    std::vector<std::thread> th;
    for(int j = 0; j < n; j++) th.emplace_back([&, j] {
      mine = this; id = j;
      { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return current == j; }); }
      if(!cancel) try { body(j); } catch(const Cancelled&) { } catch(...) { err[j] = std::current_exception(); }
      std::unique_lock<std::mutex> l(m); st[j] = done; where[j] = "end"; current = -1; cv.notify_all();
    });
    std::exception_ptr own; int last = -1; std::string why;
    std::vector<int> prec; for(int j = 0; j < n; j++) prec.push_back(j); for(int k = 0; k < order; k++) std::next_permutation(prec.begin(), prec.end());
    try {
      while(true) {
        std::vector<int> run; bool all = true, some = false; for(int j : prec) { if(st[j] == ready) run.push_back(j); all &= st[j] == done; some |= st[j] == waiting; }
        if(all) break;
        bool failed = false; for(auto& e : err) failed |= !!e; if(failed) { cancel = true; why = "failed"; break; }
        if(run.empty()) { for(int j = 0; j < n; j++) if(st[j] == done) { why = "job " + std::to_string(j) + " has finished while another one waits for it"; } if(!why.empty()) { cancel = true; break; } for(auto& s : st) if(s == waiting) s = ready; last = -1; continue; }
        int next = run[0];
        if(order < 0 && run.size() > 1) {
          bool can_go_on = last >= 0 && st[last] == ready;
          if(!can_go_on) next = run[c.choose((int)run.size())];
          else if(preempt > 0 && c.flag()) { preempt--; run.erase(std::find(run.begin(), run.end(), last)); next = run[run.size() == 1 ? 0 : c.choose((int)run.size())]; }
          else next = last;
        }
        else if(last >= 0 && st[last] == ready) next = last;
        c.step(); last = next; std::unique_lock<std::mutex> l(m); give(next, l);
      }
    } catch(...) { own = std::current_exception(); cancel = true; }
    for(int j = 0; j < n; j++) while(st[j] != done) { std::unique_lock<std::mutex> l(m); give(j, l); }
    for(auto& t : th) t.join();
    if(own) std::rethrow_exception(own);
    for(int j = 0; j < n; j++) if(err[j]) std::rethrow_exception(err[j]);
    if(!why.empty()) c.fail(why);
  }
};
inline thread_local Jobs* Jobs::mine = nullptr; inline thread_local int Jobs::id = -1;


// file operations are the places where another job or an observer can get in between
namespace fsp {
  inline std::function<void(const char*)>* watch = nullptr;      // called before and after every file operation
  inline thread_local int inside = 0;
  struct Off { Off() { inside++; } ~Off() { inside--; } };
  enum Which { changes, everything }; inline Which which = changes;
  // faults: returns the error with which this operation fails, 0 if it works; halves: writing first gets half of it done
  inline std::function<int(const char*, bool&)>* fault = nullptr;
  inline int failing(const char* what, bool& half) { if(inside || !fault) return 0; Off o; return (*fault)(what, half); }
  template <class... A> const char* label(const char* name, A... a) {
    if constexpr(sizeof...(A) == 2 && (std::is_convertible_v<A, const char*> && ...)) { const char* p[2] = {a...}; if(name[0] == 'f' && name[1] == 'o') return p[1][0] == 'r' && !std::strchr(p[1], '+') ? "open" : "create"; }
    return name;
  }
  inline bool torn = false;      // writing can also be interrupted after the first byte, in the middle and before the last byte
  inline void point(const char* what, bool change) {
    if(inside || (which == changes && !change)) return;
    if(watch) { Off o; (*watch)(what); }
    if(Jobs::mine) Jobs::mine -> point(what, false);
  }
}
#if !defined(__SANITIZE_ADDRESS__)
#define FSP_ARGS(...) __VA_ARGS__
#define FSP_WRAP(ret, name, change, params, args, ...) extern "C" ret name params __VA_ARGS__ { static auto f = (ret (*) params)dlsym(RTLD_NEXT, #name); fsp::point("before " #name, change); { bool h = false; int e = fsp::failing(fsp::label(#name, FSP_ARGS args), h); if(e && std::string(#name) == "fclose") { [[maybe_unused]] ret r = f args; errno = e; return (ret)-1; } if(e) { errno = e; return std::is_pointer_v<ret> ? (ret)0 : (ret)-1; } } ret r = f args; int e = errno; if(fsp::which == fsp::everything) fsp::point("after " #name, change); errno = e; return r; }
FSP_WRAP(FILE*, fopen64, true, (const char* p, const char* m), (p, m))
FSP_WRAP(FILE*, fopen, true, (const char* p, const char* m), (p, m))
FSP_WRAP(int, rename, true, (const char* a, const char* b), (a, b), noexcept)
FSP_WRAP(int, mkdir, true, (const char* p, mode_t m), (p, m), noexcept)
FSP_WRAP(int, remove, true, (const char* p), (p), noexcept)
FSP_WRAP(int, unlinkat, true, (int d, const char* p, int f_), (d, p, f_), noexcept)
FSP_WRAP(int, fclose, false, (FILE* p), (p))
extern "C" ssize_t write(int d, const void* b, size_t n) {
  static auto f = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  if(fsp::fault && !fsp::inside) { bool half = false; int e = fsp::failing("write", half); if(half && n > 1) return f(d, b, n / 2); if(e) { errno = e; return -1; } }
  if(fsp::inside || fsp::which != fsp::everything || !fsp::torn || !fsp::watch || n < 2) { fsp::point("before write", false); ssize_t r = f(d, b, n); int e = errno; if(fsp::which == fsp::everything) fsp::point("after write", false); errno = e; return r; }
  size_t done = 0; fsp::point("before write", false);
  for(size_t upto : {(size_t)1, n / 2, n - 1, n}) while(done < upto) { ssize_t r = f(d, (const char*)b + done, upto - done); if(r < 0) return done ? (ssize_t)done : r; done += r; if(done == upto) fsp::point(upto == n ? "after write" : "within write", false); }
  return n;
}
extern "C" ssize_t writev(int d, const struct iovec* v, int n) {
  static auto f = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  if(fsp::fault && !fsp::inside) { bool half = false; int e = fsp::failing("write", half); if(half && n) return f(d, v, 1); if(e) { errno = e; return -1; } }
  if(fsp::inside || fsp::which != fsp::everything || !fsp::torn || !fsp::watch) { fsp::point("before writev", false); ssize_t r = f(d, v, n); int e = errno; if(fsp::which == fsp::everything) fsp::point("after writev", false); errno = e; return r; }
  ssize_t all = 0; for(int k = 0; k < n; k++) { ssize_t r = write(d, v[k].iov_base, v[k].iov_len); if(r < 0) return all ? all : r; all += r; if((size_t)r < v[k].iov_len) break; }
  return all;
}
FSP_WRAP(ssize_t, copy_file_range, true, (int a, off64_t* p, int b, off64_t* q, size_t n, unsigned f_), (a, p, b, q, n, f_))
FSP_WRAP(ssize_t, sendfile, true, (int a, int b, off_t* p, size_t n), (a, b, p, n), noexcept)
FSP_WRAP(ssize_t, read, false, (int d, void* b, size_t n), (d, b, n))
FSP_WRAP(int, unlink, false, (const char* p), (p), noexcept)
FSP_WRAP(int, rmdir, false, (const char* p), (p), noexcept)
FSP_WRAP(int, truncate64, false, (const char* p, off64_t n), (p, n), noexcept)
FSP_WRAP(int, ftruncate64, false, (int d, off64_t n), (d, n), noexcept)
FSP_WRAP(int, truncate, false, (const char* p, off_t n), (p, n), noexcept)
FSP_WRAP(int, ftruncate, false, (int d, off_t n), (d, n), noexcept)
#endif
