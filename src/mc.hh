// Bounded exhaustive exploration of real code ("stateless model checking" of sequential histories and inputs).
//
// A *space* is a function body(Ctx&) that performs one complete bounded run against the real code under test and
// asks ctx.choose(n) whenever the environment (the caller of the library) has a free choice.  The engine enumerates
// EVERY sequence of choices depth-first, on all cores, each run starting from a fresh object / empty scratch directory.
// Oracle mismatches are raised by ctx.fail / ctx.check; aborts, sanitizer reports, signals, unexpected exceptions and
// hangs of the code under test are violations too.  A violation is replayed in a fresh process before it is reported.
#pragma once

#include <sys/stat.h>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <x86intrin.h>

namespace mc {

  inline double now_s() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
  }

  inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
  }
  inline std::uint64_t hash_str(const std::string& s) {
    std::uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
  }

  struct Violation { std::string msg; std::string key; };
  struct Skip { };      // run belongs to another worker
  struct Prune { };     // harness declares this branch outside the space

  constexpr int max_trail = 1 << 14;
  constexpr int log_cap = 6000;
  constexpr int nsamples = 3;
  constexpr int max_spaces = 160;

  struct Shared {                     // one per worker, in shared memory
    std::atomic<int> space{-1};
    std::atomic<int> running{0};
    std::atomic<double> run_start{0};
    std::atomic<int> trail_len{0};
    int trail[max_trail];
    char log[log_cap];
    std::atomic<int> log_len{0};
    std::atomic<int> have_violation{0};
    char vmsg[4000];
    char vkey[200];
    int vtrail_len = 0;
    int vtrail[max_trail];
  };

  struct SpaceStat {
    std::atomic<std::uint64_t> runs{0}, steps{0}, checks{0}, nontrivial{0}, pruned{0};
    std::atomic<std::uint64_t> next_claim{0};
    std::atomic<int> incomplete{0};
    std::atomic<double> t_first{0}, t_last{0};
    std::atomic<int> max_trail_seen{0};
    std::atomic<int> nsample{0};
    char sample[nsamples][900];
    int sample_trail_len[nsamples];
    int sample_trail[nsamples][400];
    std::uint64_t sample_digest[nsamples];
  };

  struct Global {
    std::atomic<int> stop{0};
    std::atomic<std::uint64_t> known_hits{0};
    char known_key[200];
    SpaceStat st[max_spaces];
  };

  struct HashSet {                    // open addressing set of nonzero 64-bit values, with a cap
    std::vector<std::uint64_t> t; std::size_t n = 0; bool capped = false;
    static constexpr std::size_t cap = 1u << 21;
    HashSet() : t(1024, 0) { }
    void insert(std::uint64_t v) {
      if(v == 0) v = 1;
      if(n >= cap) { capped = true; return; }
      if(2 * (n + 1) > t.size()) { std::vector<std::uint64_t> o(t.size() * 2, 0); o.swap(t); n = 0; for(auto x : o) if(x) put(x); }
      put(v);
    }
    void put(std::uint64_t v) {
      std::size_t m = t.size() - 1, i = (v * 0x9e3779b97f4a7c15ull >> 20) & m;
      while(t[i]) { if(t[i] == v) return; i = (i + 1) & m; }
      t[i] = v; n++;
    }
  };

  class Ctx {
  public:
    Shared* sh = nullptr;
    bool thorough = false;                    // larger bounds
    bool lite = false;                        // smaller bounds: sanitizer binary in the quick tier
    bool replaying = false;
    std::vector<int> prefix;                  // forced choices
    std::vector<std::pair<int,int>> trail;    // (choice, arity)
    int shard_depth = 0;
    std::function<bool()> mine;               // called once, when shard_depth choices have been made
    bool asked = false, owned = true;
    std::uint64_t steps = 0, nchecks = 0, digest = 0;
    bool nontrivial_ = false;
    HashSet* states = nullptr;
    std::uint64_t space_salt = 0;
    std::filesystem::path scratch_root;
    bool scratch_used = false;
    std::string log_;

    // An environment choice in [0, n)
    int choose(int n) {
      if(n <= 0) { std::fprintf(stderr, "harness error: choose(%d)\n", n); _exit(97); }
      std::size_t pos = trail.size();
      int c = 0;
      if(pos < prefix.size()) {
        c = prefix[pos];
        if(c >= n) { std::fprintf(stderr, "replay divergence: choice %d of %d at position %zu\n", c, n, pos); _exit(98); }
      }
      trail.emplace_back(c, n);
      if(pos < (std::size_t)max_trail) {
        sh -> trail[pos] = c;
        sh -> trail_len.store((int)pos + 1, std::memory_order_relaxed);
      }
      if(!replaying && !asked && (int)trail.size() == shard_depth) {
        asked = true;
        owned = mine();
        if(!owned) throw Skip{};
      }
      return c;
    }
    template <class C> const auto& pick(const C& c) { return c[choose((int)c.size())]; }
    template <class T> T pick(std::initializer_list<T> c) { return *(c.begin() + choose((int)c.size())); }
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }   // inclusive
    bool flag() { return choose(2) == 1; }
    void prune() { throw Prune{}; }

    // Make sure the sharding decision has been taken before expensive work starts
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
      char buf[400];
      va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
      if(n < 0) n = 0;
      if(n >= (int)sizeof buf) n = sizeof buf - 1;
      int cur = sh -> log_len.load(std::memory_order_relaxed);
      if(cur + n + 3 < log_cap) {
        std::memcpy(sh -> log + cur, buf, n);
        sh -> log[cur + n] = ';'; sh -> log[cur + n + 1] = ' '; sh -> log[cur + n + 2] = 0;
        sh -> log_len.store(cur + n + 2, std::memory_order_relaxed);
      }
      steps++;
    }
    void step(std::uint64_t n = 1) { steps += n; }
    void nontrivial() { nontrivial_ = true; }
    void state(std::uint64_t h) { if(states) states -> insert(mix(space_salt, h)); }
    void observe(std::uint64_t v) { digest = mix(digest, v); }
    void observe_f(float f) { std::uint32_t u; std::memcpy(&u, &f, 4); observe(u); }

    [[noreturn]] void fail(const std::string& msg, const std::string& key = "") { throw Violation{msg, key}; }
    void check(bool c, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
      nchecks++;
      if(c) return;
      char buf[1500];
      va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
      throw Violation{buf, ""};
    }

    // Empty private directory of this run on another file system (if there is one)
    std::filesystem::path scratch_elsewhere() {
      std::filesystem::path r = elsewhere() / scratch_root.filename();
      std::error_code ec;
      std::filesystem::remove_all(r, ec);
      std::filesystem::create_directories(r);
      return r;
    }
    std::filesystem::path elsewhere() { return std::filesystem::path("/tmp") / (scratch_root.parent_path().filename().string() + ".elsewhere"); }
    // Empty private directory of this run
    std::filesystem::path scratch() {
      if(!scratch_used) {
        scratch_used = true;
        std::error_code ec;
        std::filesystem::remove_all(scratch_root, ec);
        std::filesystem::create_directories(scratch_root);
      }
      return scratch_root;
    }
  };

  struct Space {
    std::string name, about;
    std::function<void(Ctx&)> body;
    int shard_depth;
    int where;               // bit 0: main binary, quick tier; bit 1: sanitizer binary, quick tier
  };

  struct Harness {
    std::string property, level, rule;
    std::vector<std::string> assumptions;
    std::vector<Space> spaces;
    bool thorough = false;
    Harness& space(std::string name, std::string about, int shard_depth, std::function<void(Ctx&)> body, int where = 3) {
      spaces.push_back({name, about, body, shard_depth, where});
      return *this;
    }
  };

  inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for(unsigned char c : s) {
      if(c == '"' || c == '\\') { o += '\\'; o += c; }
      else if(c == '\n') o += "\\n";
      else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }

  inline std::string read_tail(const std::string& p, std::size_t n) {
    std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    return s.size() > n ? s.substr(0, n / 2) + "\n...\n" + s.substr(s.size() - n / 2) : s;
  }

  inline void quiet_io(const std::string& errfile) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(e, 2); close(e);
    std::cout.rdbuf(nullptr);
  }

  // Denormals are flushed to zero in user programs built with the project's flags (-ffast-math links crtfastmath.o);
  // make sure that the harness process has the same floating-point environment no matter how it was linked.
  inline void set_fp_env() { _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON); _mm_setcsr(_mm_getcsr() | 0x0040); }

  struct RunResult { bool violated = false; std::string msg, key; std::uint64_t digest = 0; bool diverged = false; bool killed = false; };

  // One run of a body in the current process. Returns true if the run was owned by this worker.
  inline bool run_body(const Space& sp, Ctx& ctx, bool& violated, Violation& v, bool& pruned) {
    violated = false; pruned = false;
    try { sp.body(ctx); }
    catch(const Skip&) { return false; }
    catch(const Prune&) { pruned = true; }
    catch(const Violation& e) { violated = true; v = e; }
    catch(const std::exception& e) { violated = true; v = Violation{std::string("unexpected exception: ") + e.what(), ""}; }
    catch(...) { violated = true; v = Violation{"unexpected exception of unknown type", ""}; }
    return true;
  }

  struct Options {
    bool thorough = false; int jobs = 8; std::string evidence, replay, known, outdir = "."; int seed = 1; double deadline = 420; double hang = 60;
    std::string only; std::string variant;
  };

  // Every space is explored in the thorough tier; the sanitizer binary then uses the bounds of the quick tier.
  inline bool selected(const Space& sp, const Options& o) {
    if(!o.only.empty()) return sp.name == o.only;
    if(o.thorough) return true;
    return o.variant == "asan" ? (sp.where & 2) != 0 : (sp.where & 1) != 0;
  }

  inline std::string scratch_base() {
    static std::string base;
    if(base.empty()) {
      std::string b = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
      std::string t = b + "/verif-mc.XXXXXX";
      char* r = mkdtemp(t.data());
      if(!r) { t = "/tmp/verif-mc.XXXXXX"; r = mkdtemp(t.data()); }
      if(!r) { perror("mkdtemp"); _exit(3); }
      base = t;
    }
    return base;
  }

  // Run one trail in a fresh process; used for confirmation, determinism checks and --replay.
  inline RunResult run_isolated(const Harness& h, int sidx, const std::vector<int>& trail, const Options& o, Shared* sh, double limit, std::string* log = nullptr, std::string* err = nullptr) {
    RunResult r;
    struct Res { int done; int violated; std::uint64_t digest; char msg[4000]; char key[200]; };
    Res* res = (Res*)mmap(nullptr, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset(res, 0, sizeof *res);
    sh -> log_len = 0; sh -> log[0] = 0; sh -> trail_len = 0;
    std::string errfile = scratch_base() + "/iso.err";
    pid_t pid = fork();
    if(pid == 0) {
      quiet_io(errfile);
      set_fp_env();
      std::string cwd = scratch_base() + "/iso.cwd"; mkdir(cwd.c_str(), 0755); if(chdir(cwd.c_str())) _exit(96);
      Ctx ctx; ctx.sh = sh; ctx.thorough = o.thorough && o.variant != "asan"; ctx.lite = !o.thorough && o.variant == "asan"; ctx.replaying = true; ctx.prefix = trail;
      ctx.scratch_root = scratch_base() + "/iso.d";
      bool violated, pruned; Violation v;
      run_body(h.spaces[sidx], ctx, violated, v, pruned);
      res -> violated = violated; res -> digest = ctx.digest;
      snprintf(res -> msg, sizeof res -> msg, "%s", v.msg.c_str());
      snprintf(res -> key, sizeof res -> key, "%s", v.key.c_str());
      res -> done = 1;
      _exit(0);
    }
    double t0 = now_s(); int status = 0; bool hung = false;
    while(true) {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if(w == pid) break;
      if(now_s() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
      usleep(2000);
    }
    if(err) *err = read_tail(errfile, 3000);
    if(log) *log = sh -> log;
    if(hung) { r.violated = true; r.msg = "does not terminate (no progress for " + std::to_string((int)limit) + " s)"; r.key = "hang"; }
    else if(res -> done) { r.violated = res -> violated; r.msg = res -> msg; r.key = res -> key; r.digest = res -> digest; }
    else if(WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)) { r.diverged = true; r.msg = "harness divergence: " + read_tail(errfile, 500); }
    else {
      r.violated = true;
      if(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) r.killed = true;
      r.msg = WIFSIGNALED(status) ? std::string("process died with signal ") + strsignal(WTERMSIG(status)) : "process exited with status " + std::to_string(WEXITSTATUS(status));
      std::string e = read_tail(errfile, 1200);
      r.msg += ": " + e; r.key = "crash";
    }
    std::error_code ec; std::filesystem::remove_all(scratch_base() + "/iso.d", ec); std::filesystem::remove_all(scratch_base() + "/iso.cwd", ec);
    munmap(res, sizeof(Res));
    return r;
  }

  inline void worker(const Harness& h, int w, const Options& o, Shared* sh, Global* g, double t_end, const std::set<std::string>& known) {
    quiet_io(scratch_base() + "/w" + std::to_string(w) + ".err");
    set_fp_env();
    std::string cwd = scratch_base() + "/w" + std::to_string(w) + ".cwd"; mkdir(cwd.c_str(), 0755); if(chdir(cwd.c_str())) _exit(96);
    HashSet states, outcomes;
    for(int s = 0; s < (int)h.spaces.size(); s++) {
      const Space& sp = h.spaces[s];
      if(!selected(sp, o)) continue;
      SpaceStat& st = g -> st[s];
      sh -> space = s;
      if(st.t_first == 0) st.t_first = now_s();
      std::uint64_t ordinal = 0;                       // number of shard prefixes met so far
      std::uint64_t claim = st.next_claim.fetch_add(1);
      std::vector<int> prefix;
      bool more = true;
      std::uint64_t nruns = 0, nsteps = 0, nchk = 0, nnt = 0, npr = 0;
      std::uint64_t last_claimed_ordinal = ~0ull;
      while(more) {
        if(g -> stop) _exit(0);
        if((nruns & 15) == 0 && now_s() > t_end) { st.incomplete = 1; break; }
        Ctx ctx; ctx.sh = sh; ctx.thorough = o.thorough && o.variant != "asan"; ctx.lite = !o.thorough && o.variant == "asan"; ctx.prefix = prefix; ctx.shard_depth = sp.shard_depth;
        ctx.states = &states; ctx.space_salt = 0x1234567 + s; ctx.scratch_root = scratch_base() + "/w" + std::to_string(w) + ".d";
        bool continues_claimed = false;
        // the shard prefix of this run: same as that of the last run iff the backtracking point lies beyond it
        continues_claimed = last_claimed_ordinal != ~0ull && (int)prefix.size() > sp.shard_depth;
        ctx.mine = [&]() -> bool {
          if(continues_claimed) return true;
          std::uint64_t k = ordinal++;
          if(k == claim) { claim = st.next_claim.fetch_add(1); last_claimed_ordinal = k; return true; }
          last_claimed_ordinal = ~0ull;
          return false;
        };
        sh -> trail_len = 0; sh -> log_len = 0; sh -> log[0] = 0;
        sh -> run_start = now_s(); sh -> running = 1;
        bool violated = false, pruned = false; Violation v;
        bool owned = run_body(sp, ctx, violated, v, pruned);
        sh -> running = 0;
        if(owned && !ctx.asked) {                      // the run ended before the sharding depth was reached
          std::uint64_t k = ordinal++;
          if(k == claim) claim = st.next_claim.fetch_add(1); else owned = false;
          last_claimed_ordinal = ~0ull;
        }
        if(owned && violated) {
          if(!v.key.empty() && known.count(v.key)) {
            g -> known_hits++; snprintf(g -> known_key, sizeof g -> known_key, "%s", v.key.c_str());
          }
          else {
            snprintf(sh -> vmsg, sizeof sh -> vmsg, "%s", v.msg.c_str());
            snprintf(sh -> vkey, sizeof sh -> vkey, "%s", v.key.c_str());
            sh -> vtrail_len = std::min<int>(ctx.trail.size(), max_trail);
            for(int i = 0; i < sh -> vtrail_len; i++) sh -> vtrail[i] = ctx.trail[i].first;
            sh -> have_violation = 1;
            g -> stop = 1;
            _exit(0);
          }
        }
        if(owned) {
          nsteps += ctx.steps; nchk += ctx.nchecks; npr += pruned; 
          if(!pruned) {
            nruns++;
            nnt += ctx.nontrivial_;
            outcomes.insert(mix(0x777 + s, ctx.digest));
            bool want = (nruns == 1 || nruns == 50 || nruns == 1000);
            if(want && (int)ctx.trail.size() < 400) {
              int k = st.nsample.fetch_add(1);
              if(k < nsamples) {
                snprintf(st.sample[k], sizeof st.sample[k], "%s", sh -> log);
                st.sample_trail_len[k] = ctx.trail.size();
                for(std::size_t i = 0; i < ctx.trail.size(); i++) st.sample_trail[k][i] = ctx.trail[i].first;
                st.sample_digest[k] = ctx.digest;
              }
            }
          }
          if((int)ctx.trail.size() > st.max_trail_seen) st.max_trail_seen = ctx.trail.size();
        }
        // next choice sequence in depth-first order
        int i = (int)ctx.trail.size() - 1;
        while(i >= 0 && ctx.trail[i].first + 1 >= ctx.trail[i].second) i--;
        if(i < 0) more = false;
        else {
          prefix.assign(i + 1, 0);
          for(int k = 0; k < i; k++) prefix[k] = ctx.trail[k].first;
          prefix[i] = ctx.trail[i].first + 1;
        }
      }
      st.runs += nruns; st.steps += nsteps; st.checks += nchk; st.nontrivial += nnt; st.pruned += npr;
      st.t_last = now_s();
    }
    std::ofstream f(scratch_base() + "/w" + std::to_string(w) + ".sets", std::ios::binary);
    for(auto* hs : {&states, &outcomes}) {
      std::uint64_t n = hs -> n, c = hs -> capped; f.write((char*)&n, 8); f.write((char*)&c, 8);
      for(auto x : hs -> t) if(x) f.write((char*)&x, 8);
    }
    f.close();
    _exit(0);
  }

  inline std::set<std::string> load_known(const std::string& file, const std::string& prop, std::map<std::string, std::string>& text) {
    std::set<std::string> r; std::ifstream f(file); std::string line;
    while(std::getline(f, line)) {
      // known: property=<id> key=<key> <what fails>
      if(line.rfind("known: ", 0) != 0) continue;
      std::istringstream ss(line); std::string a, p, k; ss >> a >> p >> k;
      if(p != "property=" + prop || k.rfind("key=", 0) != 0) continue;
      std::string rest; std::getline(ss, rest);
      r.insert(k.substr(4)); text[k.substr(4)] = rest;
    }
    return r;
  }

  inline int run_main(Harness& h, int argc, char** argv) {
    Options o;
    for(int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if(a == "--thorough") o.thorough = true; else if(a == "--jobs") o.jobs = std::stoi(nxt());
      else if(a == "--evidence") o.evidence = nxt(); else if(a == "--replay") o.replay = nxt();
      else if(a == "--known") o.known = nxt(); else if(a == "--outdir") o.outdir = nxt();
      else if(a == "--seed") o.seed = std::stoi(nxt()); else if(a == "--deadline") o.deadline = std::stod(nxt());
      else if(a == "--hang") o.hang = std::stod(nxt()); else if(a == "--only") o.only = nxt();
      else if(a == "--variant") o.variant = nxt();
    }
    h.thorough = o.thorough;
    if((int)h.spaces.size() > max_spaces) { std::fprintf(stderr, "too many spaces\n"); return 2; }
    double t0 = now_s();
    int W = std::max(1, o.jobs);
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Global* g = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string base = scratch_base();
    auto cleanup = [&]() {
      std::error_code ec; std::filesystem::remove_all(base, ec);
      std::filesystem::remove_all(std::filesystem::path("/tmp") / (std::filesystem::path(base).filename().string() + ".elsewhere"), ec);
    };

    if(!o.replay.empty()) {
      std::ifstream f(o.replay); std::string k, sname; std::vector<int> tr; std::string line;
      while(std::getline(f, line)) {
        std::istringstream ss(line); ss >> k;
        if(k == "space:") std::getline(ss >> std::ws, sname);
        if(k == "trail:") { int x; while(ss >> x) tr.push_back(x); }
        if(k == "variant:") { std::string t; ss >> t; o.variant = t; }
        if(k == "tier:") { std::string t; ss >> t; o.thorough = t == "thorough"; }
      }
      int sidx = -1;
      for(int s = 0; s < (int)h.spaces.size(); s++) if(h.spaces[s].name == sname) sidx = s;
      if(sidx < 0) { std::printf("no space %s\n", sname.c_str()); cleanup(); return 2; }
      std::string log, err;
      RunResult r = run_isolated(h, sidx, tr, o, &sh[W], o.hang * 2, &log, &err);
      std::printf("operations: %s\n%s\n", log.c_str(), r.violated ? ("VIOLATED: " + r.msg).c_str() : "held");
      cleanup();
      return r.violated ? 1 : 0;
    }

    std::map<std::string, std::string> known_text;
    std::set<std::string> known = load_known(o.known, h.property, known_text);

    double t_end = t0 + o.deadline;
    std::vector<pid_t> pids(W);
    for(int w = 0; w < W; w++) {
      pids[w] = fork();
      if(pids[w] == 0) worker(h, w, o, &sh[w], g, t_end, known);
    }
    int vw = -1; std::string vkind; bool vhang = false; bool harness_error = false; std::string herr;
    int alive = W; std::vector<bool> done(W, false);
    while(alive > 0) {
      for(int w = 0; w < W; w++) {
        if(done[w]) continue;
        int status; pid_t p = waitpid(pids[w], &status, WNOHANG);
        if(p == pids[w]) {
          done[w] = true; alive--;
          if(WIFEXITED(status) && WEXITSTATUS(status) == 0) { if(sh[w].have_violation && vw < 0) vw = w; }
          else if(WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98 || WEXITSTATUS(status) == 96)) {
            harness_error = true; herr = read_tail(base + "/w" + std::to_string(w) + ".err", 1000); g -> stop = 1;
          }
          else if(g -> stop == 0 || (WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL)) {
            if(vw < 0) {
              vw = w; vkind = WIFSIGNALED(status) ? std::string("process died with signal ") + strsignal(WTERMSIG(status)) : "process exited with status " + std::to_string(WEXITSTATUS(status));
            }
            g -> stop = 1;
          }
        }
        else if(sh[w].running && now_s() - sh[w].run_start > o.hang && vw < 0) {
          vw = w; vhang = true; g -> stop = 1; kill(pids[w], SIGKILL);
        }
      }
      if(g -> stop) {       // give the others a moment, then end them
        static double t_stop = 0; if(t_stop == 0) t_stop = now_s();
        if(now_s() - t_stop > 2) for(int w = 0; w < W; w++) if(!done[w]) kill(pids[w], SIGKILL);
      }
      usleep(2000);
    }

    int nviol = 0; std::string vline;
    auto report = [&](int sidx, const std::vector<int>& tr, const std::string& msg, const std::string& log, int reproduced) {
      std::string path = o.outdir + "/replay-" + h.property + (o.variant.empty() ? "" : "-" + o.variant) + ".txt";
      std::ofstream f(path);
      f << "property: " << h.property << "\nvariant: " << o.variant << "\ntier: " << (o.thorough ? "thorough" : "quick") << "\nspace: " << h.spaces[sidx].name << "\ntrail:";
      for(int x : tr) f << ' ' << x;
      f << "\nreproduced: " << reproduced << "/2\nmessage: " << msg << "\noperations: " << log << "\n";
      f.close();
      nviol++;
      std::printf("space %s: %s\n  after: %s\n", h.spaces[sidx].name.c_str(), msg.c_str(), log.c_str());
      vline = "VIOLATION property=" + h.property + " replay=" + path;
    };

    if(vw >= 0 && !harness_error) {
      Shared& s = sh[vw];
      std::vector<int> tr; std::string msg, log = s.log;
      int sidx = s.space;
      if(s.have_violation) { tr.assign(s.vtrail, s.vtrail + s.vtrail_len); msg = s.vmsg; }
      else {
        tr.assign(s.trail, s.trail + std::min<int>(s.trail_len, max_trail));
        msg = vhang ? "no progress" : vkind + ": " + read_tail(base + "/w" + std::to_string(vw) + ".err", 1500);
      }
      int rep = 0; RunResult last; std::string l2;
      for(int k = 0; k < 2; k++) {
        RunResult r = run_isolated(h, sidx, tr, o, &sh[W], vhang ? o.hang * 2 : o.hang, &l2);
        if(r.diverged) { harness_error = true; herr = r.msg; }
        if(r.violated && !r.killed) { rep++; last = r; log = l2; }
      }
      bool killed_by_os = !s.have_violation && !vhang && vkind.find(strsignal(SIGKILL)) != std::string::npos;
      if(rep > 0) report(sidx, tr, last.msg, log, rep);
      else if(vhang || killed_by_os) { harness_error = true; herr = "worker stopped (" + msg + ") but the run succeeds on its own"; }
      else if(!harness_error || s.have_violation) { harness_error = false; report(sidx, tr, msg, log, 0); }
    }

    // determinism: replay the recorded samples in a fresh process and compare what was observed
    std::uint64_t replays = 0;
    if(nviol == 0 && !harness_error) {
      for(int s = 0; s < (int)h.spaces.size() && nviol == 0; s++)
        for(int k = 0; k < std::min<int>(nsamples, g -> st[s].nsample) && nviol == 0; k++) {
          if(k > 0 && now_s() > t_end) break;
          std::vector<int> tr(g -> st[s].sample_trail[k], g -> st[s].sample_trail[k] + g -> st[s].sample_trail_len[k]);
          std::string log;
          RunResult r = run_isolated(h, s, tr, o, &sh[W], o.hang, &log);
          replays++;
          if(r.diverged) { harness_error = true; herr = r.msg; }
          else if(r.violated) { if(!(known.count(r.key))) report(s, tr, "on replay: " + r.msg, log, 1); }
          else if(r.digest != g -> st[s].sample_digest[k]) report(s, tr, "two executions of the same operations return different results", log, 1);
        }
    }

    // merge state and outcome sets
    std::uint64_t nstates = 0, noutcomes = 0; bool capped = false;
    {
      std::vector<std::uint64_t> a, b;
      for(int w = 0; w < W; w++) {
        std::ifstream f(base + "/w" + std::to_string(w) + ".sets", std::ios::binary);
        for(auto* v : {&a, &b}) {
          std::uint64_t n = 0, c = 0; f.read((char*)&n, 8); f.read((char*)&c, 8); if(!f) break;
          std::size_t o0 = v -> size(); v -> resize(o0 + n); f.read((char*)(v -> data() + o0), n * 8); capped |= c;
        }
      }
      for(auto* v : {&a, &b}) { std::sort(v -> begin(), v -> end()); v -> erase(std::unique(v -> begin(), v -> end()), v -> end()); }
      nstates = a.size(); noutcomes = b.size();
    }
    std::uint64_t runs = 0, steps = 0, checks = 0, nt = 0; bool complete = nviol == 0 && !harness_error;
    std::string sp_json, samples;
    for(int s = 0; s < (int)h.spaces.size(); s++) {
      SpaceStat& st = g -> st[s];
      bool skipped = !selected(h.spaces[s], o);
      if(skipped) continue;
      runs += st.runs; steps += st.steps; checks += st.checks; nt += st.nontrivial;
      if(st.incomplete) complete = false;
      char b[400];
      snprintf(b, sizeof b, ", \"runs\": %llu, \"steps\": %llu, \"oracle_comparisons\": %llu, \"max_choices\": %d, \"complete\": %s, \"wall_s\": %.1f}",
               (unsigned long long)st.runs, (unsigned long long)st.steps, (unsigned long long)st.checks, (int)st.max_trail_seen, st.incomplete ? "false" : "true", st.t_last - st.t_first);
      sp_json += (sp_json.empty() ? "" : ",\n      ") + std::string("{\"space\": ") + jstr(h.spaces[s].name) + ", \"bounds\": " + jstr(h.spaces[s].about) + b;
      for(int k = 0; k < std::min<int>(nsamples, st.nsample); k++) samples += (samples.empty() ? "" : ",\n      ") + jstr(h.spaces[s].name + ": " + st.sample[k]);
    }
    if(!o.evidence.empty()) {
      std::ofstream f(o.evidence);
      f << "{\n  \"property\": " << jstr(h.property) << ",\n  \"tier\": \"" << (o.thorough ? "thorough" : "quick") << "\",\n  \"seed\": " << o.seed << ",\n  \"level\": " << jstr(h.level) << ",\n  \"coverage\": {\n";
      if(h.level == "model_checking")
        f << "    \"states\": " << nstates << ",\n    \"transitions\": " << steps << ",\n    \"traces_validated_against_impl\": " << runs << ",\n";
      else
        f << "    \"evaluations\": " << runs << ",\n    \"distinct_nontrivial\": " << nt << ",\n    \"rule\": " << jstr(h.rule) << ",\n    \"api_calls\": " << steps << ",\n";
      f << "    \"oracle_comparisons\": " << checks << ",\n    \"distinct_outcomes\": " << noutcomes << ",\n    \"counts_capped\": " << (capped ? "true" : "false")
        << ",\n    \"determinism_replays\": " << replays << ",\n    \"exhaustive\": " << (complete ? "true" : "false") << ",\n    \"known_findings_hit\": " << g -> known_hits
        << ",\n    \"spaces\": [\n      " << sp_json << "],\n    \"samples\": [\n      " << samples << "]\n  },\n  \"assumptions\": [";
      for(std::size_t i = 0; i < h.assumptions.size(); i++) f << (i ? ", " : "") << jstr(h.assumptions[i]);
      f << "],\n  \"wall_s\": " << (now_s() - t0) << ",\n  \"violations\": " << nviol << "\n}\n";
    }
    if(g -> known_hits) std::printf("KNOWN-FINDING: property=%s %s%s\n", h.property.c_str(), g -> known_key, known_text[g -> known_key].c_str());
    std::printf("%s%s%s: %llu complete runs, %llu operations, %llu comparisons, %llu states, %llu distinct outcomes, exhaustive=%s, %.1f s\n", h.property.c_str(), o.variant.empty() ? "" : "/", o.variant.c_str(), (unsigned long long)runs,
                (unsigned long long)steps, (unsigned long long)checks, (unsigned long long)nstates, (unsigned long long)noutcomes, complete ? "yes" : "no", now_s() - t0);
    cleanup();
    if(harness_error) { std::printf("harness error: %s\n", herr.c_str()); return 2; }
    if(nviol) { std::printf("%s\n", vline.c_str()); return 1; }
    return 0;
  }
}
