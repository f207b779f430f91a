#include "pbt.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

namespace pbt {
  namespace {
    enum Outcome {Running = 0, Ok = 1, Discarded = 2, Failed = 3, Hang = 4, Crash = 5};
    const int ExitFail = 93, ExitHang = 94;

    uint64_t mix(uint64_t x) {
      x += 0x9e3779b97f4a7c15ull;
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
      return x ^ (x >> 31);
    }
    double now() {
      timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
      return t.tv_sec + t.tv_nsec * 1e-9;
    }
    Shared* makeShared() {
      void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) {perror("mmap"); exit(2);}
      return static_cast<Shared*>(p);
    }
    Shared* gSh = 0;
    void onProf(int) {
      if (gSh) gSh->state = Hang;
      _exit(ExitHang);
    }
    void setCpuLimit(double sec) {
      struct itimerval it;
      memset(&it, 0, sizeof it);
      it.it_value.tv_sec = static_cast<long>(sec);
      it.it_value.tv_usec = static_cast<long>((sec - static_cast<long>(sec)) * 1e6);
      setitimer(ITIMER_PROF, &it, 0);
    }
    std::string jsonEscape(const std::string& s) {
      std::string o;
      for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') {o += '\\'; o += c;}
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) {char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;}
        else o += c;
      }
      return o;
    }
  }

  bool huge = false;
  std::vector<Variant>& variants() {
    static std::vector<Variant> v;
    return v;
  }
  Register::Register(const std::string& name, unsigned weight, PropFn fn) {
    Variant v; v.name = name; v.weight = weight; v.fn = fn;
    variants().push_back(v);
  }

  void Src::startRandom(uint64_t seed) {
    _mode = Random;
    for (int i = 0; i < 4; ++i) {seed = mix(seed); _s[i] = seed;}
    _sh->nTape = _sh->nSpans = _sh->nLog = _sh->overflow = 0;
    _nontrivial = false; verbose = false; _labels.clear();
  }
  void Src::startTape(const uint64_t* t, size_t n) {
    startRandom(0);
    _mode = Tape; _t = t; _n = n; _pos = 0;
  }
  void Src::startBytes(const uint8_t* d, size_t n) {
    startRandom(0);
    _mode = Bytes; _d = d; _dn = n; _dpos = 0;
  }
  uint64_t Src::rnd() { // xoshiro256**
    uint64_t x = _s[1] * 5;
    x = (x << 7) | (x >> 57);
    x *= 9;
    const uint64_t t = _s[1] << 17;
    _s[2] ^= _s[0]; _s[3] ^= _s[1]; _s[1] ^= _s[2]; _s[0] ^= _s[3];
    _s[2] ^= t;
    _s[3] = (_s[3] << 45) | (_s[3] >> 19);
    return x;
  }
  void Src::record(uint64_t v) {
    if (_sh->nTape < MaxTape) _sh->tape[_sh->nTape++] = v;
    else {_sh->overflow = 1; throw Discard();}
  }
  uint64_t Src::draw(uint64_t n) {
    uint64_t v = 0;
    if (_mode == Random) {
      const uint64_t r = rnd();
      v = n == 0 ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * n) >> 64);
    } else if (_mode == Tape) {
      if (_pos < _n) v = _t[_pos++];
      if (n != 0 && v >= n) v = n - 1;
    } else {
      uint64_t lim = n == 0 ? ~0ull : n - 1;
      for (; lim != 0 && _dpos < _dn; lim >>= 8) v = (v << 8) | _d[_dpos++];
      if (n != 0) v %= n;
    }
    record(v);
    return v;
  }
  size_t Src::weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (unsigned x: w) sum += x;
    unsigned v = static_cast<unsigned>(draw(sum));
    size_t i = 0;
    for (unsigned x: w) {
      if (v < x) return i;
      v -= x; ++i;
    }
    return 0;
  }
  uint64_t Src::small(uint64_t n) {
    const uint64_t k = draw(3);
    uint64_t lim = n;
    if (k == 0) lim = std::min<uint64_t>(n, 4);
    else if (k == 1) lim = std::min<uint64_t>(n, 16);
    return draw(lim);
  }
  void Src::label(const char* l) {
    for (size_t i = 0; i < _labels.size(); ++i) if (_labels[i] == l) return;
    _labels.push_back(l);
  }
  void Src::logText(const std::string& s) {
    size_t n = std::min<size_t>(s.size(), MaxLog - _sh->nLog);
    memcpy(_sh->log + _sh->nLog, s.data(), n);
    _sh->nLog += n;
  }
  size_t Src::beginSpan() {
    if (_sh->nSpans >= MaxSpans) return ~size_t(0) - 1;
    _sh->spanBegin[_sh->nSpans] = static_cast<uint32_t>(_sh->nTape);
    _sh->spanEnd[_sh->nSpans] = 0;
    return _sh->nSpans++;
  }
  void Src::endSpan(size_t id) {
    if (id < MaxSpans) _sh->spanEnd[id] = static_cast<uint32_t>(_sh->nTape);
  }
  size_t Src::planSize(size_t a, size_t b, size_t c) {
    if (_mode == Random) {
      const uint64_t k = rnd() % 20;
      const size_t m = k < 11 ? a : k < 18 ? b : c;
      return static_cast<size_t>(rnd() % (m + 1));
    }
    return c;
  }
  bool Src::planNext(size_t& left) {
    bool go;
    if (_mode == Random) go = left > 0;
    else if (_mode == Tape) go = _pos < _n && _t[_pos++] != 0 && left > 0;
    else {
      go = left > 0 && _dpos < _dn;
      if (go) go = _d[_dpos++] >= 6;
    }
    if (left > 0) --left;
    record(go ? 1 : 0);
    return go;
  }

  namespace {
    struct Opt {
      std::string out, replay, fromBytes, prop;
      uint64_t cases, seed, workers, only;
      double caseCpu, maxSeconds;
      size_t shrinkTries;
    };

    // Runs one case; the tape and log are in *sh.
    Outcome runCase(Src& s, Shared* sh) {
      sh->state = Running;
      sh->msg[0] = 0;
      Outcome o = Ok;
      std::string m;
      try {
        unsigned total = 0;
        for (size_t i = 0; i < variants().size(); ++i) total += variants()[i].weight;
        uint64_t v = s.draw(total);
        size_t i = 0;
        while (v >= variants()[i].weight) {v -= variants()[i].weight; ++i;}
        PLOG(s, "variant " << variants()[i].name);
        s.label(("variant " + variants()[i].name).c_str());
        variants()[i].fn(s);
      } catch (const Fail& f) {
        o = Failed; m = f.msg;
      } catch (const Discard&) {
        o = Discarded;
      } catch (const std::exception& e) {
        o = Failed; m = std::string("unexpected exception: ") + e.what();
      } catch (...) {
        o = Failed; m = "unexpected exception of unknown type";
      }
      strncpy(sh->msg, m.c_str(), MaxMsg - 1);
      sh->msg[MaxMsg - 1] = 0;
      sh->state = o;
      return o;
    }

    struct Attempt {
      Outcome outcome;
      std::string msg;
      std::string log;
      std::vector<uint64_t> tape;
      std::vector<std::pair<uint32_t, uint32_t> > spans;
    };

    std::string readFile(const std::string& f, size_t max) {
      std::ifstream in(f.c_str());
      std::string s, line;
      while (std::getline(in, line) && s.size() < max) s += line + "\n";
      return s;
    }
    // the telling lines of a sanitizer or assertion report
    std::string crashSummary(const std::string& err, int status) {
      std::ostringstream o;
      if (WIFSIGNALED(status)) o << "killed by signal " << WTERMSIG(status);
      else o << "exit status " << WEXITSTATUS(status);
      std::istringstream in(err);
      std::string line;
      int n = 0;
      while (std::getline(in, line) && n < 12) {
        if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
          line.find("Assertion") != std::string::npos || line.find("terminate") != std::string::npos ||
          line.find("what()") != std::string::npos ||
          (line.find("    #") == 0 && n < 10)) {
          o << "\n  " << line.substr(0, 240); ++n;
        }
      }
      return o.str();
    }

    void redirect(const std::string& file) {
      int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) {dup2(fd, 1); dup2(fd, 2); close(fd);}
    }

    template<class F>
    Attempt forked(Shared* sh, const Opt& opt, double cpu, F f) {
      const std::string errFile = opt.out + "/attempt.err";
      sh->state = Running; sh->msg[0] = 0; sh->nTape = sh->nSpans = sh->nLog = 0;
      pid_t pid = fork();
      if (pid == 0) {
        redirect(errFile);
        gSh = sh;
        signal(SIGPROF, onProf);
        setCpuLimit(cpu);
        Outcome o = f(sh);
        setCpuLimit(0);
        fflush(0);
        _exit(o == Failed ? ExitFail : 0);
      }
      int status = 0;
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
      Attempt a;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) a.outcome = static_cast<Outcome>(sh->state);
      else if (WIFEXITED(status) && WEXITSTATUS(status) == ExitFail) {a.outcome = Failed; a.msg = sh->msg;}
      else if (WIFEXITED(status) && WEXITSTATUS(status) == ExitHang) {
        a.outcome = Hang; a.msg = "no answer within the processor time limit for one case";
      } else {
        a.outcome = Crash; a.msg = crashSummary(readFile(errFile, 20000), status);
      }
      a.log.assign(sh->log, sh->nLog);
      a.tape.assign(sh->tape, sh->tape + sh->nTape);
      for (size_t i = 0; i < sh->nSpans; ++i) {
        uint32_t e = sh->spanEnd[i] ? sh->spanEnd[i] : static_cast<uint32_t>(sh->nTape);
        if (e > sh->spanBegin[i]) a.spans.push_back(std::make_pair(sh->spanBegin[i], e));
      }
      return a;
    }
    Attempt tryTape(Shared* sh, const Opt& opt, const std::vector<uint64_t>& t, double cpu, bool verbose) {
      return forked(sh, opt, cpu, [&](Shared* p) {
        Src s(p);
        s.startTape(t.data(), t.size());
        s.verbose = verbose;
        return runCase(s, p);
      });
    }
    bool bad(const Attempt& a) {return a.outcome == Failed || a.outcome == Crash || a.outcome == Hang;}

    Attempt shrink(Shared* sh, const Opt& opt, Attempt best, size_t& tries) {
      const bool hang = best.outcome == Hang;
      const double cpu = hang ? 3 : std::min(opt.caseCpu, 5.0);
      const double stop = now() + 60;
      tries = 0;
      auto test = [&](const std::vector<uint64_t>& t) -> bool {
        if (tries >= opt.shrinkTries || now() > stop) return false;
        ++tries;
        Attempt a = tryTape(sh, opt, t, cpu, false);
        if (!bad(a) || (a.outcome == Hang) != hang) return false;
        if (a.tape.size() > best.tape.size() ||
          (a.tape.size() == best.tape.size() && !(a.tape < best.tape))) return false;
        best = a;
        return true;
      };
      for (bool progress = true; progress && tries < opt.shrinkTries && now() < stop;) {
        progress = false;
        // drop runs of sibling spans, largest groups first
        for (size_t group = 64; group >= 1; group /= 2) {
          for (size_t i = 0; i < best.spans.size();) {
            // siblings: spans that start where the previous one ends
            size_t j = i; uint32_t e = best.spans[i].second; size_t cnt = 1;
            for (size_t k = i + 1; k < best.spans.size() && cnt < group; ++k)
              if (best.spans[k].first == e) {e = best.spans[k].second; j = k; ++cnt;}
            (void)j;
            if (cnt < group && group > 1) {++i; continue;}
            std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + best.spans[i].first);
            t.insert(t.end(), best.tape.begin() + e, best.tape.end());
            if (test(t)) progress = true;
            else i += group > 1 ? group / 2 : 1;
            if (tries >= opt.shrinkTries || now() > stop) break;
          }
          if (group == 1) break;
        }
        // lower numbers
        for (size_t i = 0; i < best.tape.size(); ++i) {
          if (tries >= opt.shrinkTries || now() > stop) break;
          if (best.tape[i] == 0) continue;
          std::vector<uint64_t> t = best.tape;
          t[i] = 0;
          if (test(t)) {progress = true; continue;}
          uint64_t lo = 0, hi = best.tape[i];
          for (int k = 0; k < 6 && hi - lo > 1 && i < best.tape.size(); ++k) {
            uint64_t mid = lo + (hi - lo) / 2;
            t = best.tape; t[i] = mid;
            if (test(t)) {progress = true; hi = mid;} else lo = mid;
          }
        }
      }
      return best;
    }

    void writeReplay(const Opt& opt, const std::string& file, const std::string& kind,
      const Attempt& a, uint64_t seed, uint64_t idx, uint64_t workers) {
      std::ofstream o(file.c_str());
      o << "# property " << opt.prop << "\n# kind " << kind << "\n";
      std::istringstream m(a.msg); std::string line;
      while (std::getline(m, line)) o << "# message " << line << "\n";
      std::istringstream l(a.log.substr(0, 60000));
      while (std::getline(l, line)) o << "# log " << line << "\n";
      if (kind == "sequence") o << "sequence " << seed << ' ' << idx << ' ' << workers << "\n";
      else {
        o << "tape";
        for (size_t i = 0; i < a.tape.size(); ++i) o << ' ' << a.tape[i];
        o << "\n";
      }
    }
  }

  static uint64_t caseSeed(const Opt& opt, uint64_t idx) {
    uint64_t h = mix(opt.seed * 0x100000001b3ull + 77);
    for (size_t i = 0; i < opt.prop.size(); ++i) h = mix(h ^ static_cast<unsigned char>(opt.prop[i]));
    return mix(h ^ mix(idx));
  }
  static Outcome runSequence(const Opt& opt, Shared* sh, uint64_t idx, uint64_t workers) {
    Src s(sh);
    Outcome o = Ok;
    for (uint64_t i = idx % workers; i <= idx; i += workers) {
      setCpuLimit(opt.caseCpu);
      s.startRandom(caseSeed(opt, i));
      o = runCase(s, sh);
      if (o == Failed) return o;
    }
    return o;
  }

  static uint64_t hashTape(const Shared* sh) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < sh->nTape; ++i) h = mix(h ^ sh->tape[i]);
    return h;
  }

  int mainRun(int argc, char** argv) {
    Opt opt;
    opt.out = "."; opt.cases = 1000; opt.seed = 1; opt.workers = 8; opt.prop = "P";
    opt.caseCpu = 20; opt.maxSeconds = 1e9; opt.shrinkTries = 4000; opt.only = ~0ull;
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--out") opt.out = v;
      else if (a == "--cases") opt.cases = strtoull(v.c_str(), 0, 10);
      else if (a == "--seed") opt.seed = strtoull(v.c_str(), 0, 10);
      else if (a == "--workers") opt.workers = strtoull(v.c_str(), 0, 10);
      else if (a == "--replay") opt.replay = v;
      else if (a == "--from-bytes") opt.fromBytes = v;
      else if (a == "--prop") opt.prop = v;
      else if (a == "--case-cpu") opt.caseCpu = atof(v.c_str());
      else if (a == "--max-seconds") opt.maxSeconds = atof(v.c_str());
      else if (a == "--huge") huge = v == "1";
      else if (a == "--case") opt.only = strtoull(v.c_str(), 0, 10);
      else {fprintf(stderr, "unknown option %s\n", a.c_str()); return 2;}
    }
    std::sort(variants().begin(), variants().end(),
      [](const Variant& a, const Variant& b) {return a.name < b.name;});
    if (variants().empty()) {fprintf(stderr, "no variants\n"); return 2;}

    if (!opt.replay.empty()) {
      std::ifstream in(opt.replay.c_str());
      std::string line;
      Shared* sh = makeShared();
      while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k; l >> k;
        Attempt a;
        if (k == "tape") {
          std::vector<uint64_t> t; uint64_t v;
          while (l >> v) t.push_back(v);
          a = tryTape(sh, opt, t, opt.caseCpu, true);
        } else if (k == "sequence") {
          uint64_t idx, workers;
          l >> opt.seed >> idx >> workers;
          a = forked(sh, opt, 1e6, [&](Shared* p) {return runSequence(opt, p, idx, workers);});
        } else continue;
        fputs(a.log.c_str(), stdout);
        if (bad(a)) {printf("REPLAY-FAILS %s\n", a.msg.c_str()); return 1;}
        printf("REPLAY-PASSES\n");
        return 0;
      }
      return 2;
    }

    const double t0 = now();
    std::vector<Shared*> sh;
    std::vector<pid_t> pids;
    std::atomic<uint64_t>* minFail = static_cast<std::atomic<uint64_t>*>(
      mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *minFail = ~0ull;
    bool haveFailure = false;
    uint64_t failIdx = ~0ull;
    Attempt fail;
    std::vector<int> statuses;

    if (!opt.fromBytes.empty()) {
      std::ifstream in(opt.fromBytes.c_str(), std::ios::binary);
      std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      sh.push_back(makeShared());
      fail = forked(sh[0], opt, opt.caseCpu, [&](Shared* p) {
        Src s(p);
        s.startBytes(reinterpret_cast<const uint8_t*>(data.data()), data.size());
        return runCase(s, p);
      });
      haveFailure = bad(fail);
      opt.workers = 0; opt.cases = 0;
    }

    for (uint64_t w = 0; w < opt.workers; ++w) sh.push_back(makeShared());
    fflush(0);
    for (uint64_t w = 0; w < opt.workers; ++w) {
      pid_t pid = fork();
      if (pid == 0) {
        std::ostringstream base; base << opt.out << "/w" << w;
        redirect(base.str() + ".err");
        Shared* p = sh[w];
        gSh = p;
        signal(SIGPROF, onProf);
        Src s(p);
        std::unordered_set<uint64_t> hashes;
        std::map<std::string, uint64_t> labels;
        std::vector<uint64_t> samples;
        int rc = 0;
        for (uint64_t i = w; i < opt.cases; i += opt.workers) {
          if (i > minFail->load() || now() - t0 > opt.maxSeconds) break;
          if (opt.only != ~0ull && i != opt.only) continue;
          p->cur = i;
          setCpuLimit(opt.caseCpu);
          s.startRandom(caseSeed(opt, i));
          Outcome o = runCase(s, p);
          setCpuLimit(0);
          ++p->evaluations;
          if (o == Discarded) {++p->discards; continue;}
          if (o == Failed) {
            uint64_t m = minFail->load();
            while (i < m && !minFail->compare_exchange_weak(m, i)) {}
            rc = ExitFail;
            break;
          }
          for (size_t k = 0; k < s.labels().size(); ++k) ++labels[s.labels()[k]];
          if (s.isNontrivial()) {
            if (hashes.insert(hashTape(p)).second && samples.size() < 2 && p->nTape < 400)
              samples.push_back(i);
          }
        }
        std::ofstream o((base.str() + ".stat").c_str());
        for (auto& l: labels) o << "L " << l.second << ' ' << l.first << "\n";
        for (auto h: hashes) o << "H " << h << "\n";
        for (auto x: samples) o << "S " << x << "\n";
        o.close();
        fflush(0);
        _exit(rc);
      }
      pids.push_back(pid);
    }
    statuses.resize(pids.size());
    for (size_t left = pids.size(); left > 0; --left) {
      int status;
      pid_t pid = waitpid(-1, &status, 0);
      if (pid < 0) break;
      for (size_t w = 0; w < pids.size(); ++w) if (pids[w] == pid) {
        statuses[w] = status;
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
          uint64_t m = minFail->load(), i = sh[w]->cur;
          while (i < m && !minFail->compare_exchange_weak(m, i)) {}
        }
      }
    }
    uint64_t evaluations = 0, discards = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> samples;
    std::vector<std::pair<uint64_t, size_t> > failures; // index, worker
    for (size_t w = 0; w < pids.size(); ++w) {
      evaluations += sh[w]->evaluations;
      discards += sh[w]->discards;
      if (!(WIFEXITED(statuses[w]) && WEXITSTATUS(statuses[w]) == 0))
        failures.push_back(std::make_pair(sh[w]->cur, w));
      std::ostringstream f; f << opt.out << "/w" << w << ".stat";
      std::ifstream in(f.str().c_str());
      std::string line;
      while (std::getline(in, line)) {
        std::istringstream l(line);
        char k; uint64_t v; l >> k >> v;
        if (k == 'H') hashes.insert(v);
        else if (k == 'S') samples.push_back(v);
        else {std::string t; std::getline(l, t); labels[t.substr(t.empty() ? 0 : 1)] += v;}
      }
      in.close();
      unlink(f.str().c_str());
    }
    std::sort(failures.begin(), failures.end());

    std::string verdict = "ok", kind = "tape", replayFile, note;
    size_t tries = 0;
    auto confirm = [&](const std::vector<uint64_t>& t, Attempt& last) {
      for (int k = 0; k < 3; ++k) {
        last = tryTape(sh[0], opt, t, opt.caseCpu, true);
        if (!bad(last)) return false;
      }
      return true;
    };
    for (size_t f = 0; f < failures.size() && !haveFailure; ++f) {
      Shared* p = sh[failures[f].second];
      failIdx = failures[f].first;
      std::vector<uint64_t> t(p->tape, p->tape + p->nTape);
      std::ostringstream e; e << opt.out << "/w" << failures[f].second << ".err";
      note = p->state == Failed ? std::string(p->msg) :
        crashSummary(readFile(e.str(), 20000), statuses[failures[f].second]);
      Attempt a = tryTape(sh[0], opt, t, opt.caseCpu, false);
      if (bad(a)) {fail = a; haveFailure = true; break;}
      // state carried over from earlier cases of that worker?
      bool all = true;
      for (int k = 0; k < 3 && all; ++k) {
        a = forked(sh[0], opt, 1e6, [&](Shared* q) {return runSequence(opt, q, failIdx, opt.workers);});
        all = bad(a);
      }
      if (all) {fail = a; kind = "sequence"; haveFailure = true; break;}
      verdict = "unreproducible";
    }
    if (haveFailure) {
      std::ostringstream rf;
      rf << opt.out << "/replay.txt";
      replayFile = rf.str();
      if (kind == "tape") {
        Attempt orig = fail, last;
        Attempt best = shrink(sh[0], opt, fail, tries);
        if (confirm(best.tape, last)) {
          last.tape = best.tape; fail = last; verdict = "violation";
        } else if (confirm(orig.tape, last)) {
          last.tape = orig.tape; fail = last; verdict = "violation";
        } else verdict = "unreproducible";
      } else verdict = "violation";
      if (verdict == "violation")
        writeReplay(opt, replayFile, kind, fail, opt.seed, failIdx, opt.workers);
    }
    // samples, written out
    std::vector<std::string> sampleText;
    std::sort(samples.begin(), samples.end());
    for (size_t i = 0; i < samples.size() && sampleText.size() < 4; ++i) {
      Attempt a = forked(sh[0], opt, opt.caseCpu, [&](Shared* p) {
        Src s(p);
        s.startRandom(caseSeed(opt, samples[i]));
        s.verbose = true;
        return runCase(s, p);
      });
      std::ostringstream o; o << "case " << samples[i] << ": " << a.log.substr(0, 1500);
      sampleText.push_back(o.str());
    }
    std::ofstream o((opt.out + "/result.json").c_str());
    o << "{\"verdict\":\"" << verdict << "\",\"evaluations\":" << evaluations
      << ",\"discards\":" << discards << ",\"distinct_nontrivial\":" << hashes.size()
      << ",\"planned\":" << opt.cases << ",\"shrink_attempts\":" << tries
      << ",\"seconds\":" << now() - t0
      << ",\"failing_case\":" << (haveFailure ? static_cast<long long>(failIdx) : -1)
      << ",\"message\":\"" << jsonEscape(haveFailure ? fail.msg : note) << "\""
      << ",\"replay\":\"" << jsonEscape(verdict == "violation" ? replayFile : "") << "\",\"labels\":{";
    bool first = true;
    for (auto& l: labels) {o << (first ? "" : ",") << '"' << jsonEscape(l.first) << "\":" << l.second; first = false;}
    o << "},\"samples\":[";
    for (size_t i = 0; i < sampleText.size(); ++i) o << (i ? "," : "") << '"' << jsonEscape(sampleText[i]) << '"';
    o << "]}\n";
    o.close();
    printf("%s cases=%llu nontrivial=%zu seconds=%.1f\n", verdict.c_str(),
      (unsigned long long)evaluations, hashes.size(), now() - t0);
    if (haveFailure || !note.empty()) printf("message: %s\n", (haveFailure ? fail.msg : note).c_str());
    return verdict == "violation" ? 1 : 0;
  }
}

#ifdef PBT_FUZZ
// Coverage-guided search: the bytes are the choices of one case. On exit the
// numbers of cases are added to the file that PBT_FUZZ_STATS names.
namespace {
  struct FuzzStats {
    unsigned long long cases, discards;
    std::unordered_set<uint64_t> hashes;
    FuzzStats(): cases(0), discards(0) {}
  };
  FuzzStats& fuzzStats() {static FuzzStats* f = new FuzzStats(); return *f;}
  void writeFuzzStats() {
    const char* name = getenv("PBT_FUZZ_STATS");
    if (!name) return;
    FILE* f = fopen(name, "a");
    if (!f) return;
    const FuzzStats& s = fuzzStats();
    fprintf(f, "N %llu %llu\n", s.cases, s.discards);
    for (auto h: s.hashes) fprintf(f, "H %llu\n", (unsigned long long)h);
    fclose(f);
  }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static pbt::Shared* sh = 0;
  if (!sh) {
    sh = pbt::makeShared();
    std::sort(pbt::variants().begin(), pbt::variants().end(),
      [](const pbt::Variant& a, const pbt::Variant& b) {return a.name < b.name;});
    fuzzStats();
    atexit(&writeFuzzStats);
  }
  pbt::Src s(sh);
  s.startBytes(data, size);
  const pbt::Outcome o = pbt::runCase(s, sh);
  FuzzStats& st = fuzzStats();
  ++st.cases;
  if (o == pbt::Discarded) {++st.discards; return 0;}
  if (o == pbt::Failed) {
    fprintf(stderr, "PBT-FAIL %s\n", sh->msg);
    __builtin_trap();
  }
  if (s.isNontrivial()) st.hashes.insert(pbt::hashTape(sh));
  return 0;
}
#else
int main(int argc, char** argv) {return pbt::mainRun(argc, argv);}
#endif
