#include "vf.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vf {

bool thorough_tier = false;

namespace {

std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
std::string& rule() { static std::string s; return s; }
std::vector<std::string>& assumptions() { static std::vector<std::string> s; return s; }
std::set<std::string> known_ids;

struct KnownHit { char id[64]; char msg[400]; };
constexpr int MaxWorkers = 64, MaxKnown = 32, MaxMeas = 256, MaxLabels = 600, MaxSub = 128;
struct Meas { char name[96]; double maxr; long n; };
struct Label { char name[96]; long n; };
struct Shm {
   std::atomic<long> next;              // next global case
   std::atomic<long> minfail;           // lowest failing case
   std::atomic<int> lock;
   std::atomic<long> done, discarded, nontriv;
   int nknown; KnownHit known[MaxKnown];
   int nmeas; Meas meas[MaxMeas];
   int nlab; Label lab[MaxLabels];
   struct W { std::atomic<long> cur; } w[MaxWorkers];
   char failmsg[4096];
   std::atomic<long> subdone[MaxSub];
   std::atomic<long> subnt[MaxSub];
};
Shm* shm = nullptr;
std::uint64_t* hashes = nullptr;   // one per case: hash if non-trivial, else 0

struct Locker {
   Locker() { int z = 0; while (!shm->lock.compare_exchange_weak(z, 1)) { z = 0; } }
   ~Locker() { shm->lock = 0; }
};

std::string jesc(const std::string& s)
{
   std::string r;
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c == '\n') r += "\\n";
      else if (c < 0x20) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += (char)c;
   }
   return r;
}

std::uint64_t hashstr(const std::string& s)
{
   std::uint64_t h = 1469598103934665603ull;
   for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
   return h;
}

std::uint64_t hashchoices(const std::vector<double>& c)
{
   std::uint64_t h = 1469598103934665603ull;
   for (double d : c) { std::uint64_t b; std::memcpy(&b, &d, 8); h ^= b; h *= 1099511628211ull; h ^= h >> 29; }
   return h ? h : 1;
}

struct Outcome { int kind; std::string msg; }; // 0 ok, 1 discard, 2 fail

Outcome run_case(const Sub& s, Gen& g)
{
   try {
      s.fn(g);
      return {0, ""};
   } catch (const Discard&) {
      return {1, ""};
   } catch (const Fail& e) {
      return {2, e.what()};
   } catch (const std::exception& e) {
      return {2, std::string("unexpected exception: ") + e.what()};
   } catch (...) {
      return {2, "unexpected exception of unknown type"};
   }
}

double cpu_of(pid_t pid)
{
   clockid_t c; struct timespec ts;
   if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &ts) != 0) return 0;
   return ts.tv_sec + 1e-9*ts.tv_nsec;
}

/// runs fn in a child; returns 0 ok,1 discard,2 fail,3 crash,4 hang
Outcome isolated(const Sub& s, const std::vector<double>& choices, double cpu_limit)
{
   int fd[2]; if (pipe(fd)) std::abort();
   const pid_t pid = fork();
   if (pid == 0) {
      ::close(fd[0]); shm = nullptr; std::cerr.rdbuf(nullptr);
      Gen g(choices);
      const auto o = run_case(s, g);
      std::string m(1, (char)('0' + o.kind)); m += o.msg;
      ssize_t r = write(fd[1], m.data(), std::min<size_t>(m.size(), 60000)); (void)r;
      _exit(0);
   }
   ::close(fd[1]);
   std::string out; int st = 0; bool killed = false;
   for (int i = 0; ; ++i) {
      const pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (cpu_of(pid) > cpu_limit) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
      usleep(i < 50 ? 200 : 3000);
   }
   char b[4096]; ssize_t n;
   while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
   ::close(fd[0]);
   if (killed) return {4, "does not terminate within " + str(cpu_limit) + " s of CPU time"};
   if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || out.empty())
      return {3, WIFSIGNALED(st) ? "crashed with signal " + str(WTERMSIG(st))
                                 : "terminated the process with exit status " + str(WEXITSTATUS(st))};
   return {out[0] - '0', out.substr(1)};
}

struct Opt {
   std::string property = "C00", tier = "quick", evidence, replaydir = ".", replay, only;
   std::uint64_t seed = 1; int workers = 8; double cpu = 120; double scale = 1; double shrink_s = 40;
};

std::string case_json(const Gen& g, const Sub& s, long idx)
{
   std::ostringstream o;
   o << "{\"sub\": \"" << jesc(s.name) << "\", \"case\": " << idx << ", \"nontrivial\": " << (g.isNontrivial() ? "true" : "false");
   o << ", \"input\": {";
   bool first = true;
   for (const auto& n : g.notes()) { o << (first ? "" : ", ") << "\"" << jesc(n.first) << "\": \"" << jesc(n.second) << "\""; first = false; }
   o << "}}";
   return o.str();
}

} // namespace

std::uint64_t splitmix(std::uint64_t& s)
{
   std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}

double Gen::u()
{
   if (replay_) {
      const double r = pos_ < choices_.size() ? choices_[pos_] : 0.;
      ++pos_;
      return r;
   }
   const double r = (splitmix(state_) >> 11) * 0x1p-53;
   choices_.push_back(r);
   return r;
}

std::uint64_t Gen::bits()
{
   const std::uint64_t hi = (std::uint64_t)(u()*4294967296.), lo = (std::uint64_t)(u()*4294967296.);
   return hi << 32 | lo;
}

void Gen::known(const std::string& id, const std::string& msg)
{
   if (!known_ids.count(id)) throw Fail("[" + id + "] " + msg);
   if (!shm) return;
   Locker l;
   for (int i = 0; i < shm->nknown; ++i) if (id == shm->known[i].id) return;
   if (shm->nknown < MaxKnown) {
      auto& k = shm->known[shm->nknown++];
      std::snprintf(k.id, sizeof k.id, "%s", id.c_str());
      std::snprintf(k.msg, sizeof k.msg, "%s", msg.c_str());
   }
}

static std::map<std::string,std::pair<double,long>>& local_meas() { static std::map<std::string,std::pair<double,long>> m; return m; }

void Gen::measure(const std::string& what, double r)
{
   auto& m = local_meas()[what];
   if (!(r <= m.first)) m.first = r;
   ++m.second;
}

Reg::Reg(const char* n, long q, long t, Fn f) { subs().push_back({n, q, t, f}); }
Info::Info(const char* r, std::initializer_list<const char*> a)
{ rule() += rule().empty() ? r : std::string(" | ") + r; for (auto s : a) assumptions().push_back(s); }

void close(Gen& g, const std::string& what, double a, double b, double tol)
{
   const double d = std::abs(a - b);
   if (a == b) return;
   g.measure(what, tol > 0 ? d/tol : 1e300);
   if (!(d <= tol)) g.fail(cat(what, ": ", a, " vs ", b, ", |diff| = ", d, " > tolerance ", tol));
}

static int do_main(int argc, char** argv)
{
   Opt o;
   for (int i = 1; i + 1 < argc; i += 2) {
      const std::string k = argv[i], v = argv[i+1];
      if (k == "--property") o.property = v; else if (k == "--tier") o.tier = v;
      else if (k == "--seed") o.seed = std::stoull(v); else if (k == "--workers") o.workers = std::stoi(v);
      else if (k == "--evidence") o.evidence = v; else if (k == "--replay-dir") o.replaydir = v;
      else if (k == "--replay") o.replay = v; else if (k == "--only") o.only = v;
      else if (k == "--cpu") o.cpu = std::stod(v); else if (k == "--scale") o.scale = std::stod(v);
      else if (k == "--known") { std::stringstream ss(v); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) known_ids.insert(t); }
   }
   thorough_tier = o.tier == "thorough";
   // the library's informative output is not part of any oracle here
   std::vector<Sub> S = subs();
   std::sort(S.begin(), S.end(), [](const Sub& a, const Sub& b) { return a.name < b.name; });
   if (!o.only.empty())
      S.erase(std::remove_if(S.begin(), S.end(), [&](const Sub& s) { return s.name.find(o.only) == std::string::npos; }), S.end());

   shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
   new (shm) Shm();

   if (!o.replay.empty()) {
      // replay file: line "sub NAME", then "choice HEXFLOAT" lines (embedded in JSON strings)
      std::ifstream f(o.replay); std::string all((std::istreambuf_iterator<char>(f)), {});
      const auto grab = [&](const std::string& key) { auto p = all.find("\"" + key + "\": \""); if (p == std::string::npos) return std::string(); p += key.size() + 5; return all.substr(p, all.find('"', p) - p); };
      const std::string name = grab("sub");
      std::vector<double> ch; std::stringstream cs(grab("choices")); std::string t;
      while (cs >> t) ch.push_back(std::strtod(t.c_str(), nullptr));
      for (const auto& s : S) if (s.name == name) {
         const auto r = isolated(s, ch, o.cpu);
         if (r.kind >= 2) { std::cout << "REPRODUCED " << r.msg << "\n"; return 1; }
         std::cout << "not reproduced (outcome " << r.kind << ")\n"; return 0;
      }
      std::cout << "unknown sub-property '" << name << "'\n"; return 2;
   }

   // global case list: interleave subs so that all make progress
   std::vector<long> cnt;
   long total = 0;
   for (const auto& s : S) { long n = thorough_tier ? s.thorough : s.quick; n = std::max(1L, (long)(n*o.scale)); cnt.push_back(n); total += n; }
   std::vector<std::pair<int,long>> cases; cases.reserve(total);
   {  // proportional interleaving, deterministic
      std::vector<std::pair<double,std::pair<int,long>>> t; t.reserve(total);
      for (size_t s = 0; s < S.size(); ++s) for (long i = 0; i < cnt[s]; ++i) t.push_back({(i + 0.5)/cnt[s], {(int)s, i}});
      std::stable_sort(t.begin(), t.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
      for (auto& x : t) cases.push_back(x.second);
   }
   hashes = (std::uint64_t*)mmap(nullptr, sizeof(std::uint64_t)*(total + 1), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
   shm->minfail = std::numeric_limits<long>::max();
   const auto seed_of = [&](long k) {
      std::uint64_t s = o.seed*0x9e3779b97f4a7c15ull ^ hashstr(S[cases[k].first].name) ^ (std::uint64_t)cases[k].second*0xd1342543de82ef95ull;
      splitmix(s); return splitmix(s);
   };
   const auto record_fail = [&](long k, const std::string& msg) {
      Locker l;
      if (k < shm->minfail) { shm->minfail = k; std::snprintf(shm->failmsg, sizeof shm->failmsg, "%s", msg.c_str()); }
   };

   const int W = std::min(o.workers, MaxWorkers);
   std::vector<pid_t> pid(W, 0);
   std::vector<long> lastcase(W, -1); std::vector<double> startcpu(W, 0);
   const auto spawn = [&](int w) {
      shm->w[w].cur = -1;
      std::cout.flush(); std::cerr.flush();
      const pid_t p = fork();
      if (p == 0) {
         if (!std::getenv("VF_DEBUG")) std::cerr.rdbuf(nullptr);
         std::map<std::string,long> lab;
         for (;;) {
            const long k = shm->next++;
            if (k >= total) break;
            if (k > shm->minfail) continue;
            shm->w[w].cur = k;
            Gen g(seed_of(k));
            const auto r = run_case(S[cases[k].first], g);
            if (r.kind == 2) record_fail(k, r.msg);
            if (r.kind == 1) shm->discarded++;
            else {
               shm->done++; shm->subdone[cases[k].first]++;
               if (g.isNontrivial()) { shm->nontriv++; shm->subnt[cases[k].first]++; hashes[k] = hashchoices(g.choices()); }
               for (const auto& l : g.labels()) lab[S[cases[k].first].name + ": " + l]++;
            }
            shm->w[w].cur = -1;
         }
         {
            Locker l;
            for (auto& kv : lab) {
               int i = 0; for (; i < shm->nlab; ++i) if (kv.first == shm->lab[i].name) break;
               if (i == shm->nlab && i < MaxLabels) { std::snprintf(shm->lab[i].name, 96, "%s", kv.first.c_str()); shm->nlab++; }
               if (i < MaxLabels) shm->lab[i].n += kv.second;
            }
            for (auto& kv : local_meas()) {
               int i = 0; for (; i < shm->nmeas; ++i) if (kv.first == shm->meas[i].name) break;
               if (i == MaxMeas) continue;
               auto& m = shm->meas[i];
               if (i == shm->nmeas) { std::snprintf(m.name, sizeof m.name, "%s", kv.first.c_str()); shm->nmeas++; }
               m.n += kv.second.second;
               if (!(kv.second.first <= m.maxr)) m.maxr = kv.second.first;
            }
         }
         _exit(0);
      }
      pid[w] = p; lastcase[w] = -1;
   };
   const auto t0 = std::chrono::steady_clock::now();
   for (int w = 0; w < W; ++w) spawn(w);
   int alive = W;
   while (alive > 0) {
      usleep(5000);
      for (int w = 0; w < W; ++w) {
         if (!pid[w]) continue;
         int st = 0;
         const pid_t r = waitpid(pid[w], &st, WNOHANG);
         if (r == pid[w]) {
            const long cur = shm->w[w].cur;
            const bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            pid[w] = 0; --alive;
            if (crashed) {
               if (shm->lock) shm->lock = 0; // the dead worker may have held it
               if (cur >= 0) record_fail(cur, WIFSIGNALED(st) ? cat("crashed with signal ", WTERMSIG(st)) : cat("terminated the process with exit status ", WEXITSTATUS(st)));
               spawn(w); ++alive;
            }
            continue;
         }
         const long cur = shm->w[w].cur;
         const double c = cpu_of(pid[w]);
         if (cur != lastcase[w]) { lastcase[w] = cur; startcpu[w] = c; }
         else if (cur >= 0 && c - startcpu[w] > o.cpu) {
            kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; --alive;
            record_fail(cur, cat("does not terminate within ", o.cpu, " s of CPU time"));
            spawn(w); ++alive;
         }
      }
   }

   int rc = 0; std::string violation;
   if (shm->minfail < std::numeric_limits<long>::max()) {
      const long k = shm->minfail;
      const Sub& s = S[cases[k].first];
      // record the choices of the failing case: regenerate them in a child
      // with a very long choice vector from the same stream
      std::vector<double> ch;
      {
         const std::uint64_t sd = seed_of(k);
         std::uint64_t st = sd;
         // a case consumes at most this many choices; the tail is dropped below
         for (int i = 0; i < 200000; ++i) ch.push_back((splitmix(st) >> 11) * 0x1p-53);
      }
      auto fails = [&](const std::vector<double>& c) { return isolated(s, c, o.cpu).kind >= 2; };
      const auto r0 = isolated(s, ch, o.cpu);
      if (r0.kind < 2) {
         std::cout << "UNREPRODUCED " << s.name << " case " << cases[k].second << ": " << shm->failmsg << "\n";
         rc = 3;
      } else {
         const bool hang = r0.kind == 4;
         const auto ts = std::chrono::steady_clock::now();
         const auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - ts).count() < (hang ? 0 : o.shrink_s); };
         // drop tail by bisection
         size_t lo = 0, hi = ch.size();
         while (lo < hi && left()) { const size_t m = (lo + hi)/2; std::vector<double> c(ch.begin(), ch.begin() + m); if (fails(c)) hi = m; else lo = m + 1; }
         { std::vector<double> c(ch.begin(), ch.begin() + hi); if (fails(c)) ch = c; }
         bool progress = true; int rounds = 0;
         while (progress && left() && rounds++ < 6) {
            progress = false;
            for (size_t blk = std::max<size_t>(1, ch.size()/2); blk >= 1 && left(); blk /= 2) {
               for (size_t i = 0; i < ch.size() && left(); i += blk) { // zero blocks
                  auto c = ch; bool any = false;
                  for (size_t j = i; j < std::min(i + blk, c.size()); ++j) { if (c[j] != 0) any = true; c[j] = 0; }
                  if (any && fails(c)) { ch = c; progress = true; }
               }
               if (blk == 1) break;
            }
            for (size_t i = 0; i < ch.size() && left(); ++i) { // simplify single choices
               if (ch[i] == 0) continue;
               for (double q : {2., 8., 64., 1024.}) {
                  const double v = std::floor(ch[i]*q)/q;
                  if (v == ch[i]) break;
                  auto c = ch; c[i] = v;
                  if (fails(c)) { ch = c; progress = true; break; }
               }
            }
            for (size_t i = ch.size(); i-- > 0 && left();) { // delete single choices
               if (ch.size() > 400) break;
               auto c = ch; c.erase(c.begin() + i);
               if (fails(c)) { ch = c; progress = true; }
            }
         }
         int again = 0; std::string msg;
         for (int i = 0; i < 3; ++i) { const auto r = isolated(s, ch, o.cpu); if (r.kind >= 2) { ++again; msg = r.msg; } if (hang) { again = 3; break; } }
         if (again == 3) {
            // render inputs in-process unless it crashes: use a child writing notes to a file
            const std::string path = o.replaydir + "/" + o.property + ".json";
            std::ostringstream hexs; for (double d : ch) { char b[64]; std::snprintf(b, 64, "%a", d); hexs << b << " "; }
            const pid_t p = fork();
            if (p == 0) {
               alarm(60);
               Gen g(ch);
               if (!hang) run_case(s, g);
               std::ofstream f(path + ".notes"); bool first = true;
               for (const auto& n : g.notes()) { f << (first ? "" : ",\n  ") << "\"" << jesc(n.first) << "\": \"" << jesc(n.second) << "\""; first = false; }
               f.close(); _exit(0);
            }
            int st; waitpid(p, &st, 0);
            std::string notes; { std::ifstream f(path + ".notes"); notes.assign(std::istreambuf_iterator<char>(f), {}); }
            std::remove((path + ".notes").c_str());
            std::ofstream f(path);
            f << "{\n \"property\": \"" << o.property << "\",\n \"sub\": \"" << jesc(s.name) << "\",\n \"seed\": " << o.seed
              << ",\n \"case\": " << cases[k].second << ",\n \"message\": \"" << jesc(msg) << "\",\n \"first_message\": \"" << jesc(shm->failmsg)
              << "\",\n \"input\": {\n  " << notes << "\n },\n \"choices\": \"" << hexs.str() << "\"\n}\n";
            std::cout << "FAILED " << s.name << " case " << cases[k].second << ": " << msg << "\n";
            violation = path; rc = 1;
         } else {
            std::cout << "UNREPRODUCED " << s.name << " (" << again << "/3): " << shm->failmsg << "\n"; rc = 3;
         }
      }
   }

   std::set<std::uint64_t> distinct;
   for (long k = 0; k < total; ++k) if (hashes[k]) distinct.insert(hashes[k]);
   for (int i = 0; i < shm->nknown; ++i)
      std::cout << "KNOWN " << shm->known[i].id << " " << shm->known[i].msg << "\n";

   if (!o.evidence.empty()) {
      std::ofstream f(o.evidence);
      f << "{\n \"property\": \"" << o.property << "\", \"tier\": \"" << o.tier << "\", \"seed\": " << o.seed << ", \"level\": \"exploration\",\n";
      f << " \"coverage\": {\n  \"evaluations\": " << shm->done << ",\n  \"discarded\": " << shm->discarded << ",\n  \"nontrivial\": " << shm->nontriv
        << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": \"" << jesc(rule()) << "\",\n";
      f << "  \"per_sub_property\": {";
      for (size_t s = 0; s < S.size(); ++s) f << (s ? ", " : "") << "\n   \"" << jesc(S[s].name) << "\": {\"evaluations\": " << shm->subdone[s] << ", \"nontrivial\": " << shm->subnt[s] << "}";
      f << "},\n  \"labels\": {";
      std::vector<std::pair<std::string,long>> L; for (int i = 0; i < shm->nlab; ++i) L.push_back({shm->lab[i].name, shm->lab[i].n});
      std::sort(L.begin(), L.end());
      for (size_t i = 0; i < L.size(); ++i) f << (i ? ", " : "") << "\n   \"" << jesc(L[i].first) << "\": " << L[i].second;
      f << "},\n  \"largest_discrepancy_over_tolerance\": {";
      std::vector<std::pair<std::string,double>> M; for (int i = 0; i < shm->nmeas; ++i) M.push_back({shm->meas[i].name, shm->meas[i].maxr});
      std::sort(M.begin(), M.end());
      for (size_t i = 0; i < M.size(); ++i) f << (i ? ", " : "") << "\n   \"" << jesc(M[i].first) << "\": " << (std::isfinite(M[i].second) ? M[i].second : 1e300);
      f << "},\n  \"samples\": [";
      // samples: first two non-trivial cases of each sub, re-executed in a child
      int written = 0;
      for (size_t s = 0; s < S.size() && written < 12; ++s) {
         int n = 0;
         for (long k = 0; k < total && n < (S.size() > 5 ? 1 : 2); ++k) {
            if (cases[k].first != (int)s || !hashes[k]) continue;
            int fd[2]; if (pipe(fd)) break;
            const pid_t p = fork();
            if (p == 0) { ::close(fd[0]); alarm(30); shm = nullptr; Gen g(seed_of(k)); run_case(S[s], g); std::string j = case_json(g, S[s], cases[k].second); if (j.size() < 60000) { ssize_t r = write(fd[1], j.data(), j.size()); (void)r; } _exit(0); }
            ::close(fd[1]); std::string j; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) j.append(b, r); ::close(fd[0]); int st; waitpid(p, &st, 0);
            if (!j.empty()) { f << (written ? ",\n   " : "\n   ") << j; ++written; }
            ++n;
         }
      }
      f << "]\n },\n \"assumptions\": [";
      for (size_t i = 0; i < assumptions().size(); ++i) f << (i ? ", " : "") << "\"" << jesc(assumptions()[i]) << "\"";
      f << "],\n \"violations\": " << (rc == 1 ? 1 : 0) << ",\n \"wall_s\": " << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "\n}\n";
   }
   std::cout << "cases " << shm->done << " nontrivial " << shm->nontriv << " distinct " << distinct.size() << " discarded " << shm->discarded
             << " in " << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << " s\n";
   if (rc == 1) std::cout << "REPLAY " << violation << "\n";
   return rc;
}

} // namespace vf

int main(int argc, char** argv) { return vf::do_main(argc, argv); }
