#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <iostream>
#include "pbt.h"

namespace fs = std::filesystem;
namespace pbt {
std::vector<Prop>& Props() {
  static std::vector<Prop> p;
  return p;
}
}  // namespace pbt
using namespace pbt;

namespace {
using Clock = std::chrono::steady_clock;
double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}

constexpr size_t kCap = 1 << 18;

struct Outcome {
  enum K { PASS, VIOL, CRASH, HANG, DISCARD } kind = PASS;
  std::string msg, desc, tag;
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::vector<std::pair<std::string, int64_t>> metrics;
  std::vector<uint64_t> choices;
};

std::string g_scratch;
bool g_thorough = false;

// Runs the property in the calling process.
Outcome RunHere(const Prop& p, Ctx& ctx) {
  Outcome o;
  static uint64_t n = 0;
  ctx.scratch = g_scratch + "/c" + std::to_string(getpid()) + "_" + std::to_string(n++);
  ctx.thorough = g_thorough;
  fs::create_directories(ctx.scratch);
  std::error_code ec;
  fs::current_path(ctx.scratch, ec);
  setenv("TMPDIR", ctx.scratch.c_str(), 1);
  try {
    p.fn(ctx);
  } catch (const Violation& v) {
    o.kind = Outcome::VIOL; o.msg = v.what(); o.tag = v.tag;
  } catch (const Discard&) {
    o.kind = Outcome::DISCARD;
  } catch (const std::exception& e) {
    o.kind = Outcome::VIOL; o.msg = std::string("unexpected exception: ") + e.what(); o.tag = "exception";
  } catch (...) {
    o.kind = Outcome::VIOL; o.msg = "unexpected exception of unknown type"; o.tag = "exception";
  }
  o.desc = ctx.desc_.str();
  o.nontrivial = ctx.nontrivial_;
  o.labels.assign(ctx.labels_.begin(), ctx.labels_.end());
  o.metrics.assign(ctx.metrics_.begin(), ctx.metrics_.end());
  o.choices = ctx.choices_;
  fs::current_path("/", ec);
  fs::remove_all(ctx.scratch, ec);
  return o;
}

// serialise over a pipe: one blob, length-prefixed
void put(std::string& b, const std::string& s) { uint64_t n = s.size(); b.append((char*)&n, 8); b += s; }
void putn(std::string& b, uint64_t n) { b.append((char*)&n, 8); }
struct Rd {
  const std::string& b; size_t p = 0;
  uint64_t n() { uint64_t v; memcpy(&v, b.data() + p, 8); p += 8; return v; }
  std::string s() { uint64_t k = n(); std::string r = b.substr(p, k); p += k; return r; }
};
std::string Ser(const Outcome& o, bool with_choices) {
  std::string b;
  putn(b, o.kind); put(b, o.msg.substr(0, 6000)); put(b, o.desc.substr(0, 6000)); put(b, o.tag); putn(b, o.nontrivial);
  putn(b, o.labels.size()); for (auto& l : o.labels) put(b, l);
  putn(b, o.metrics.size()); for (auto& m : o.metrics) { put(b, m.first); putn(b, m.second); }
  if (with_choices) { putn(b, o.choices.size()); b.append((char*)o.choices.data(), o.choices.size() * 8); }
  else putn(b, 0);
  uint64_t h = 0; for (auto v : o.choices) h = mix(h ^ v); putn(b, h);
  return b;
}
Outcome Des(const std::string& b, uint64_t* hash) {
  Rd r{b}; Outcome o;
  o.kind = (Outcome::K)r.n(); o.msg = r.s(); o.desc = r.s(); o.tag = r.s(); o.nontrivial = r.n();
  uint64_t k = r.n(); for (uint64_t i = 0; i < k; ++i) o.labels.push_back(r.s());
  k = r.n(); for (uint64_t i = 0; i < k; ++i) { auto s = r.s(); auto v = (int64_t)r.n(); o.metrics.emplace_back(s, v); }
  k = r.n(); o.choices.resize(k); if (k) memcpy(o.choices.data(), b.data() + r.p, k * 8); r.p += k * 8;
  *hash = r.n();
  return o;
}
bool WriteAll(int fd, const std::string& b) {
  size_t p = 0;
  while (p < b.size()) { ssize_t n = write(fd, b.data() + p, b.size() - p); if (n <= 0) return false; p += n; }
  return true;
}

struct Child {
  pid_t pid = -1; int fd = -1; uint64_t* sh = nullptr;
  std::string buf; Clock::time_point start; std::string errf;
  uint64_t cur = 0; bool active = false; bool eof = false;
};
uint64_t* MapShared() {
  return (uint64_t*)mmap(nullptr, (kCap + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
std::string Tail(const std::string& f, size_t n = 3000) {
  std::ifstream in(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  if (s.size() > n) {
    auto e = s.find("ERROR: AddressSanitizer");
    if (e == std::string::npos) e = s.find("runtime error:");
    if (e != std::string::npos) { size_t b = e > 200 ? e - 200 : 0; return s.substr(b, n); }
    return s.substr(s.size() - n);
  }
  return s;
}

void ChildSetup(const std::string& errf) {
  setpgid(0, 0);
  int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(e, 2); dup2(e, 1);
  close(e);
  int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}
void KillTree(pid_t pid) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }

// One evaluation of a choice list in a fresh process.
struct Eval { Child c; std::vector<uint64_t> in; };
Child StartEval(const Prop& p, const std::vector<uint64_t>& in, int slot) {
  Child ch;
  int pf[2];
  if (pipe(pf) != 0) abort();
  ch.errf = g_scratch + "/err_eval" + std::to_string(slot);
  ch.start = Clock::now();
  ch.pid = fork();
  if (ch.pid == 0) {
    close(pf[0]);
    ChildSetup(ch.errf);
    Ctx ctx(in);
    auto o = RunHere(p, ctx);
    WriteAll(pf[1], Ser(o, true));
    _exit(0);
  }
  setpgid(ch.pid, ch.pid);
  close(pf[1]);
  ch.fd = pf[0];
  return ch;
}
Outcome FinishEval(const Prop& p, Child& ch, const std::vector<uint64_t>& in, double timeout) {
  Outcome o;
  bool hang = false;
  for (;;) {
    double left = timeout - since(ch.start);
    if (left <= 0) { hang = true; break; }
    pollfd pf{ch.fd, POLLIN, 0};
    int r = poll(&pf, 1, (int)(left * 1000) + 1);
    if (r > 0) {
      char b[65536];
      ssize_t n = read(ch.fd, b, sizeof b);
      if (n <= 0) break;
      ch.buf.append(b, n);
    }
  }
  KillTree(ch.pid);
  int st = 0;
  waitpid(ch.pid, &st, 0);
  close(ch.fd);
  if (hang) { o.kind = p.slow_ok ? Outcome::DISCARD : Outcome::HANG; o.msg = "no result within " + std::to_string((int)timeout) + " s"; o.choices = in; return o; }
  if (ch.buf.size() >= 8) {
    uint64_t h;
    o = Des(ch.buf, &h);
    return o;
  }
  o.kind = Outcome::CRASH;
  std::ostringstream m;
  if (WIFSIGNALED(st)) m << "process died: signal " << WTERMSIG(st);
  else m << "process exited with " << WEXITSTATUS(st);
  m << "\n" << Tail(ch.errf);
  o.msg = m.str();
  o.choices = in;
  return o;
}
Outcome EvalOnce(const Prop& p, const std::vector<uint64_t>& in, double timeout) {
  auto ch = StartEval(p, in, 0);
  return FinishEval(p, ch, in, timeout);
}
bool Bad(const Outcome& o) { return o.kind == Outcome::VIOL || o.kind == Outcome::CRASH || o.kind == Outcome::HANG; }

std::vector<Outcome> EvalMany(const Prop& p, const std::vector<std::vector<uint64_t>>& ins, double timeout) {
  std::vector<Child> cs;
  for (size_t i = 0; i < ins.size(); ++i) cs.push_back(StartEval(p, ins[i], (int)i));
  std::vector<Outcome> r;
  for (size_t i = 0; i < ins.size(); ++i) r.push_back(FinishEval(p, cs[i], ins[i], timeout));
  return r;
}

bool Less(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

Outcome Shrink(const Prop& p, Outcome best, double budget, double timeout, size_t par, size_t* evals) {
  auto t0 = Clock::now();
  auto ok = [&] { return since(t0) < budget; };
  // Only accept failures of the same kind.
  auto try_batch = [&](std::vector<std::vector<uint64_t>>& cand) -> bool {
    if (cand.empty()) return false;
    auto rs = EvalMany(p, cand, timeout);
    *evals += cand.size();
    bool any = false;
    for (auto& r : rs)
      if (r.kind == best.kind && r.tag == best.tag && !r.choices.empty() && Less(r.choices, best.choices)) { best = r; any = true; }
    cand.clear();
    return any;
  };
  bool progress = true;
  while (progress && ok()) {
    progress = false;
    std::vector<std::vector<uint64_t>> cand;
    for (size_t k = best.choices.size() / 2; k >= 1 && ok(); k /= 2) {
      for (size_t i = 0; i + k <= best.choices.size() && ok();) {
        auto v = best.choices;
        v.erase(v.begin() + i, v.begin() + i + k);
        if (!v.empty()) cand.push_back(v);
        i += k;
        if (cand.size() >= par || i + k > best.choices.size())
          if (try_batch(cand)) progress = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.choices.size() && ok(); ++i) {
      if (best.choices[i] == 0) continue;
      uint64_t cur = best.choices[i];
      for (uint64_t nv : {uint64_t(0), cur / 2, cur - 1}) {
        if (nv >= cur) continue;
        auto v = best.choices;
        v[i] = nv;
        cand.push_back(v);
      }
      if (try_batch(cand)) { progress = true; if (i < best.choices.size() && best.choices[i] != 0 && best.choices[i] < cur) --i; }
    }
  }
  return best;
}

}  // namespace

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  if (argc == 2 && std::string(argv[1]) == "--list") {
    for (auto& p : Props()) std::cout << p.name << "\n";
    return 0;
  }
  const Prop* prop = nullptr;
  for (auto& p : Props()) if (p.name == a["--prop"]) prop = &p;
  if (!prop) { std::cerr << "no such property " << a["--prop"] << "\n"; return 2; }
  uint64_t seed = a.count("--seed") ? std::stoull(a["--seed"]) : 1;
  uint64_t cases = a.count("--cases") ? std::stoull(a["--cases"]) : 100;
  double budget = a.count("--budget") ? std::stod(a["--budget"]) : 60;
  size_t W = a.count("--workers") ? std::stoul(a["--workers"]) : 8;
  double shrink_budget = a.count("--shrink") ? std::stod(a["--shrink"]) : 60;
  double tmul = a.count("--tmul") ? std::stod(a["--tmul"]) : 1;
  g_thorough = a.count("--tier") && a["--tier"] == "thorough";
  g_scratch = a.count("--scratch") ? a["--scratch"] : (access("/dev/shm", W_OK) == 0 ? "/dev/shm/pbt_" : "/tmp/pbt_") + std::to_string(getpid());
  bool own_scratch = !fs::exists(g_scratch);
  fs::create_directories(g_scratch);
  g_scratch = fs::canonical(g_scratch).string();
  auto t0 = Clock::now();
  double timeout = prop->timeout_s * tmul;

  if (a.count("--replay")) {
    std::ifstream in(a["--replay"]);
    std::string line, ch;
    while (std::getline(in, line)) if (line.rfind("choices=", 0) == 0) ch = line.substr(8);
    std::vector<uint64_t> v;
    std::istringstream is(ch);
    uint64_t x; while (is >> x) v.push_back(x);
    auto o = EvalOnce(*prop, v, timeout * 3);
    static const char* kn[] = {"PASS", "VIOLATION", "CRASH", "HANG", "DISCARD"};
    std::cout << kn[o.kind] << "\n" << o.desc << "\n" << o.msg << "\n";
    if (own_scratch) { std::error_code ec; fs::remove_all(g_scratch, ec); }
    return Bad(o) ? 1 : 0;
  }

  auto case_seed = [&](uint64_t i) { return mix(mix(seed * 0x100000001b3ULL + 0x77) ^ mix(i + 1) ^ std::hash<std::string>{}(prop->name)); };

  std::vector<Child> ws(W);
  std::vector<uint64_t> next(W);
  uint64_t evals = 0, discards = 0;
  std::set<uint64_t> distinct;
  uint64_t nontriv = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, int64_t> metrics;
  std::vector<std::string> samples;
  std::vector<Outcome> cands;
  double slowest = 0;

  auto spawn = [&](size_t w) {
    auto& c = ws[w];
    if (!c.sh) c.sh = MapShared();
    c.sh[0] = 0;
    int pf[2];
    if (pipe(pf) != 0) abort();
    c.errf = g_scratch + "/err_w" + std::to_string(w);
    c.buf.clear(); c.active = false; c.eof = false;
    uint64_t first = next[w];
    c.pid = fork();
    if (c.pid == 0) {
      close(pf[0]);
      for (auto& o : ws) if (o.fd >= 0) close(o.fd);
      ChildSetup(c.errf);
      for (uint64_t i = first; i < cases; i += W) {
        c.sh[0] = 0;
        std::string hd = "S"; putn(hd, i);
        WriteAll(pf[1], hd);
        Ctx ctx(case_seed(i));
        ctx.shared_ = c.sh; ctx.shared_cap_ = kCap;
        auto o = RunHere(*prop, ctx);
        auto s = Ser(o, Bad(o));
        std::string m = "E"; putn(m, i); put(m, s);
        if (!WriteAll(pf[1], m)) _exit(0);
        if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
      }
      std::string m = "Q"; putn(m, 0);
      WriteAll(pf[1], m);
      _exit(0);
    }
    setpgid(c.pid, c.pid);
    close(pf[1]);
    c.fd = pf[0];
    c.start = Clock::now();
  };
  std::vector<bool> done(W, false);
  for (size_t w = 0; w < W; ++w) { next[w] = w; if (w < cases) spawn(w); else done[w] = true; }
  bool stop = false, budget_hit = false, closing = false;
  // Once the budget is used up no case is started any more, but the ones under way are waited for: a case that
  // never ends is a finding even when the limit for one case is longer than the whole budget. What is suspected
  // here after a shorter wait is confirmed with the full limit below.
  auto limit = [&] { return closing ? std::min(timeout, std::max(12.0, 20 * slowest)) : timeout; };
  auto shared_choices = [&](Child& c) { return std::vector<uint64_t>(c.sh + 1, c.sh + 1 + c.sh[0]); };
  while (true) {
    std::vector<pollfd> pfs; std::vector<size_t> idx;
    for (size_t w = 0; w < W; ++w) if (!done[w]) { pfs.push_back({ws[w].fd, POLLIN, 0}); idx.push_back(w); }
    if (pfs.empty()) break;
    poll(pfs.data(), pfs.size(), 200);
    for (size_t k = 0; k < pfs.size(); ++k) {
      size_t w = idx[k]; auto& c = ws[w];
      if (pfs[k].revents) {
        char b[65536];
        ssize_t n = read(c.fd, b, sizeof b);
        if (n <= 0) c.eof = true; else c.buf.append(b, n);
      }
      bool quit = false;
      while (c.buf.size() >= 9) {
        char t = c.buf[0]; uint64_t i; memcpy(&i, c.buf.data() + 1, 8);
        if (t == 'S') { c.cur = i; c.active = true; c.start = Clock::now(); c.buf.erase(0, 9); }
        else if (t == 'Q') { quit = true; break; }
        else {
          if (c.buf.size() < 17) break;
          uint64_t n; memcpy(&n, c.buf.data() + 9, 8);
          if (c.buf.size() < 17 + n) break;
          uint64_t h; auto o = Des(c.buf.substr(17, n), &h);
          c.buf.erase(0, 17 + n);
          c.active = false; slowest = std::max(slowest, since(c.start)); next[w] = i + W;
          if (closing) quit = true;
          if (o.kind == Outcome::DISCARD) { ++discards; if (quit) break; continue; }
          ++evals;
          bool fresh = distinct.insert(h).second;
          if (o.nontrivial && fresh) ++nontriv;
          for (auto& l : o.labels) ++labels[l];
          for (auto& m : o.metrics) metrics[m.first] += m.second;
          if (o.nontrivial && samples.size() < 4 && !o.desc.empty() && (evals % 3 == 0 || samples.empty())) samples.push_back(o.desc.substr(0, 1200));
          if (Bad(o)) { cands.push_back(o); stop = true; }
          if (quit) break;
        }
      }
      if (quit) { KillTree(c.pid); waitpid(c.pid, nullptr, 0); close(c.fd); c.fd = -1; done[w] = true; continue; }
      bool hang = c.active && since(c.start) > limit();
      if (c.eof || hang) {
        KillTree(c.pid);
        int st = 0; waitpid(c.pid, &st, 0); close(c.fd); c.fd = -1;
        if (hang && prop->slow_ok) {
          ++discards;
          ++metrics["set_aside_still_running"];
          next[w] = c.cur + W;
          if (next[w] < cases && since(t0) < budget) spawn(w); else done[w] = true;
          continue;
        }
        Outcome o;
        o.choices = shared_choices(c);
        if (hang) { o.kind = Outcome::HANG; o.msg = "no result within " + std::to_string(timeout) + " s"; }
        else {
          o.kind = Outcome::CRASH;
          std::ostringstream m;
          if (WIFSIGNALED(st)) m << "process died: signal " << WTERMSIG(st); else m << "process exited with " << WEXITSTATUS(st);
          m << "\n" << Tail(c.errf);
          o.msg = m.str();
        }
        ++evals;
        cands.push_back(o);
        stop = true; done[w] = true;
      }
    }
    if (since(t0) > budget && !closing && !stop && !budget_hit) {
      if (prop->slow_ok) budget_hit = true;
      else {
        closing = true;
        for (size_t w = 0; w < W; ++w)
          if (!done[w] && !ws[w].active) { KillTree(ws[w].pid); waitpid(ws[w].pid, nullptr, 0); close(ws[w].fd); ws[w].fd = -1; done[w] = true; }
      }
    }
    if (stop || budget_hit) {
      for (size_t w = 0; w < W; ++w) if (!done[w]) { KillTree(ws[w].pid); waitpid(ws[w].pid, nullptr, 0); close(ws[w].fd); ws[w].fd = -1; done[w] = true; }
      if (stop && !cands.empty()) {
        // Confirm before believing it.
        bool confirmed = false;
        Outcome o = cands[0];
        int bad = 0, runs = 0;
        Outcome last;
        if (o.kind == Outcome::HANG) {
          for (auto& x : EvalMany(*prop, {o.choices, o.choices, o.choices}, timeout * 1.5)) {
            ++runs;
            if (Bad(x)) { ++bad; last = x; }
          }
        }
        for (int r = 0; r < 10 && o.kind != Outcome::HANG; ++r) {
          auto x = EvalOnce(*prop, o.choices, timeout * 1.5);
          ++runs;
          if (Bad(x)) { ++bad; last = x; }
          if (bad == 3 && runs == 3) break;
          if (runs >= 6 && bad == 0) break;
        }
        if (o.kind == Outcome::HANG) confirmed = bad >= 3 && bad == runs;
        else confirmed = bad >= 1;
        if (confirmed) {
          size_t se = 0;
          Outcome best = last;
          if (bad == runs && (last.kind != Outcome::HANG || timeout <= 10)) {
            best = Shrink(*prop, last, shrink_budget, timeout, W, &se);
            int again = 0;
            for (auto& x : EvalMany(*prop, {best.choices, best.choices, best.choices}, timeout * 2)) if (Bad(x)) ++again;
            if (again < 3) best = last;
          }
          std::cout << "FAIL\n";
          std::string rp = a.count("--replay-out") ? a["--replay-out"] : g_scratch + "/replay";
          fs::create_directories(fs::path(rp).parent_path());
          std::ofstream rf(rp);
          rf << "prop=" << prop->name << "\nseed=" << seed << "\nconfirmed=" << bad << "/" << runs << "\nkind=" << (int)best.kind
             << "\nmessage=" << esc(best.msg) << "\ncase=" << esc(best.desc) << "\nchoices=";
          for (auto v : best.choices) rf << v << " ";
          rf << "\n";
          rf.close();
          std::ofstream of(a.count("--out") ? a["--out"] : "/dev/stdout");
          of << "{\"prop\":\"" << prop->name << "\",\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontriv << ",\"failed\":true,\"message\":\"" << esc(best.msg)
             << "\",\"tag\":\"" << esc(best.tag) << "\",\"case\":\"" << esc(best.desc) << "\",\"replay\":\"" << esc(rp) << "\",\"shrink_evals\":" << se << ",\"confirmed\":\"" << bad << "/" << runs
             << "\",\"labels\":{},\"metrics\":{},\"samples\":[],\"wall_s\":" << since(t0) << "}\n";
          if (own_scratch) { std::error_code ec; fs::remove_all(g_scratch, ec); }
          return 1;
        }
        ++metrics["unreproduced_candidates"];
        samples.push_back("UNREPRODUCED: " + o.msg.substr(0, 500) + " :: " + o.desc.substr(0, 500));
        cands.clear();
        stop = false;
        if (metrics["unreproduced_candidates"] > 5 || closing || since(t0) > budget) budget_hit = true;
      }
      if (budget_hit) break;
      for (size_t w = 0; w < W; ++w) {
        // continue after the case that was running
        if (ws[w].active) next[w] = ws[w].cur + W;
        if (next[w] < cases) { done[w] = false; spawn(w); }
      }
    }
  }
  for (auto& c : ws) if (c.fd >= 0) { KillTree(c.pid); waitpid(c.pid, nullptr, 0); close(c.fd); }
  std::ofstream of(a.count("--out") ? a["--out"] : "/dev/stdout");
  of << "{\"prop\":\"" << prop->name << "\",\"evaluations\":" << evals << ",\"discarded\":" << discards << ",\"distinct_nontrivial\":" << nontriv
     << ",\"failed\":false,\"budget_hit\":" << (budget_hit ? "true" : "false") << ",\"slowest_s\":" << slowest << ",\"labels\":{";
  bool f = true;
  for (auto& l : labels) { of << (f ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f = false; }
  of << "},\"metrics\":{";
  f = true;
  for (auto& l : metrics) { of << (f ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f = false; }
  of << "},\"samples\":[";
  f = true;
  for (auto& l : samples) { of << (f ? "" : ",") << "\"" << esc(l) << "\""; f = false; }
  of << "],\"wall_s\":" << since(t0) << "}\n";
  if (own_scratch) { std::error_code ec; fs::remove_all(g_scratch, ec); }
  return 0;
}
