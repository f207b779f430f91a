// Wrapping, columns, numbers, times. FOCUS is the number of the property;
// 32: all of them, for debug builds.
#include "pbt.h"
#include "capture.h"
#include "mathic/stdinc.h"
#include "mathic/display.h"
#include "mathic/error.h"
#include "mathic/ColumnPrinter.h"
#include "mathic/Timer.h"
#include <cctype>
#include <cmath>
#include <memory>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <unistd.h>

// *** The processor time that the code under test sees
namespace {
  bool gFake = false;
  unsigned long long gMicros = 0;
  unsigned long long realMicros() {
    timespec t;
    syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
  }
  unsigned long long micros() {return gFake ? gMicros : realMicros();}
}
extern "C" {
  clock_t clock() throw() {return static_cast<clock_t>(micros());}
  int clock_gettime(clockid_t id, timespec* t) throw() {
    if (id != CLOCK_PROCESS_CPUTIME_ID || !gFake) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
    t->tv_sec = gMicros / 1000000; t->tv_nsec = gMicros % 1000000 * 1000;
    return 0;
  }
  int getrusage(__rusage_who_t who, rusage* r) throw() {
    const int rc = static_cast<int>(syscall(SYS_getrusage, who, r));
    if (gFake) {
      r->ru_utime.tv_sec = gMicros / 1000000; r->ru_utime.tv_usec = gMicros % 1000000;
      r->ru_stime.tv_sec = r->ru_stime.tv_usec = 0;
    }
    return rc;
  }
}

namespace {
  typedef std::vector<std::string> Words;
  std::string show(const std::string& t) {
    std::ostringstream o;
    o << '"';
    for (size_t i = 0; i < t.size(); ++i) {
      const char c = t[i];
      if (c == '\n') o << "\\n"; else if (c == '\t') o << "\\t"; else if (c == '\0') o << "\\0";
      else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) o << "\\x" << std::hex << (c & 0xff) << std::dec;
      else o << c;
    }
    o << '"';
    return o.str();
  }
  bool isBlank(char c) {return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f';}
  std::vector<std::string> lines(const std::string& t) {
    std::vector<std::string> v;
    std::string cur;
    for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') {v.push_back(cur); cur.clear();} else cur += t[i];
    if (!cur.empty()) v.push_back(cur);
    return v;
  }
  // blanks, word, blanks, word, ...
  struct Line {std::string indent; std::vector<std::string> words, before;};
  Line tokens(const std::string& t) {
    Line l;
    size_t i = 0;
    while (i < t.size() && isBlank(t[i])) l.indent += t[i++];
    std::string blanks;
    while (i < t.size()) {
      if (isBlank(t[i])) {blanks += t[i++]; continue;}
      std::string w;
      while (i < t.size() && !isBlank(t[i])) w += t[i++];
      l.words.push_back(w);
      l.before.push_back(blanks);
      blanks.clear();
    }
    return l;
  }

  std::string genText(pbt::Src& s) {
    std::string t;
    pbt::Bulk bulk(pbt::huge ? s.draw(1u << 30) : 0);
    auto d = [&](uint64_t n) {return pbt::huge ? bulk(n) : s.draw(n);};
    auto small = [&](uint64_t n) {return pbt::huge ? bulk(bulk(n) + 1) : s.small(n);};
    static const unsigned char kinds[25] = "\0\0\0\0\0\0\0\0\0\0\0\0\1\1\1\1\1\1\2\2\3\3\4\5";
    const int style = static_cast<int>(d(3));
    for (size_t n = (pbt::huge ? 60 + d(8000) : s.small(60)); n > 0; --n) {
      switch (kinds[d(24)]) {
      case 0: t += ' '; // fall through
      case 1:
        for (size_t k = 1 + (style == 0 ? d(8) : style == 1 ? d(40) : small(200)); k > 0; --k) t += static_cast<char>('a' + d(26));
        break;
      case 2: t += '\n'; break;
      case 3: t += std::string(small(30), ' '); break;
      case 4: t += "\t\r\v\f"[d(4)]; break;
      case 5: t += d(2) == 1 ? "\xc3\xa6" : "-%s\\n"; break;
      }
    }
    if (d(2) == 1) t += '\n';
    return t;
  }

  // *** P26
  void checkWrapped(const std::string& msg, const std::string& prefix, const std::string& out) {
    const size_t Width = 79;
    const std::vector<std::string> in = lines(msg);
    std::vector<std::string> got = lines(out);
    size_t g = 0;
    const std::string all = " for " + show(msg) + " with prefix " + show(prefix) + ":\n" + out;
    for (size_t i = 0; i < in.size(); ++i) {
      const Line l = tokens(in[i]);
      const std::string start = prefix + l.indent;
      if (l.words.empty()) {
        PCHECK(g < got.size(), "a line without words is lost" << all);
        PCHECK(got[g] == start, "line " << g << " is " << show(got[g]) << " instead of " << show(start) << all);
        ++g;
        continue;
      }
      size_t w = 0;
      bool first = true;
      std::string unbroken = start;
      for (size_t k = 0; k < l.words.size(); ++k) unbroken += l.before[k] + l.words[k];
      while (w < l.words.size()) {
        PCHECK(g < got.size(), "the words from " << show(l.words[w]) << " on are lost" << all);
        const std::string& o = got[g];
        PCHECK(o.compare(0, prefix.size(), prefix) == 0, "line " << g << " does not start with the prefix" << all);
        PCHECK(o.compare(0, start.size(), start) == 0, "line " << g << " does not start with the indentation" << all);
        // an overlong first word may be preceded by a line without words
        if (first && o == start && start.size() + l.words[0].size() > Width) {first = false; ++g; continue;}
        first = false;
        const Line ol = tokens(o.substr(start.size()));
        PCHECK(ol.indent.empty(), "line " << g << " is indented by something else than " << show(l.indent) << all);
        PCHECK(!ol.words.empty(), "line " << g << " has no words" << all);
        PCHECK(ol.words.size() == 1 || o.size() <= Width, "line " << g << " has " << o.size() << " characters" << all);
        std::string text = start;
        for (size_t k = 0; k < ol.words.size(); ++k, ++w) {
          PCHECK(w < l.words.size(), "line " << g << " goes on with the words of another line" << all);
          PCHECK(ol.words[k] == l.words[w], "the word " << show(ol.words[k]) << " is written instead of " << show(l.words[w]) << all);
          if (k > 0) PCHECK(ol.before[k] == l.before[w], "the blanks before " << show(l.words[w]) << " changed" << all);
        }
        PCHECK(w == l.words.size() || unbroken.size() > Width, "a line that fits is broken" << all);
        ++g;
      }
    }
    PCHECK(g == got.size(), "additional lines are written" << all);
    if (!msg.empty() && !tokens(in.back()).words.empty()) PCHECK(!out.empty() && out.back() == '\n', "the last line is not ended" << all);
  }
  void wrapping(pbt::Src& s) {
    const std::string msg = genText(s);
    std::string prefix;
    switch (s.draw(5)) {
    case 1: prefix = std::string(s.draw(12), ' '); break;
    case 2: prefix = "> "; break;
    case 3: for (size_t n = s.small(90); n > 0; --n) prefix += static_cast<char>('A' + s.draw(4)); break;
    case 4: prefix = "## "; break;
    }
    const size_t how = s.draw(6);
    PLOG(s, "display " << how << " " << show(msg) << " with prefix " << show(prefix));
    Capture c;
    std::string effective = msg;
    switch (how) {
    case 0: case 1: mathic::display(msg, prefix); break;
    case 2: mathic::displayNote(msg); effective = "NOTE: " + msg + "\n"; prefix.clear(); break;
    case 3: mathic::displayError(msg); effective = "ERROR: " + msg + "\n"; prefix.clear(); break;
    case 4: mathic::displayInternalError(msg); effective = "INTERNAL ERROR: " + msg + "\n"; prefix.clear(); break;
    case 5: mathic::displayException(mathic::UnknownNameException(msg)); prefix.clear(); break;
    }
    const std::string out = c.stop();
    checkWrapped(effective, prefix, out);
    const std::vector<std::string> in = lines(effective);
    bool broken = false, overlong = false, indented = false;
    for (size_t i = 0; i < in.size(); ++i) {
      const Line l = tokens(in[i]);
      for (size_t k = 0; k < l.words.size(); ++k) if (l.words[k].size() + prefix.size() + l.indent.size() > 79) overlong = true;
      if (in[i].size() + prefix.size() > 79 && l.words.size() > 1) broken = true;
      if (!l.indent.empty() && !l.words.empty()) indented = true;
    }
    s.labelIf(broken, "line to be broken");
    s.labelIf(overlong, "overlong word");
    s.labelIf(indented, "indented");
    s.labelIf(in.size() > 1, "several lines");
    if (broken && in.size() > 1) s.nontrivial();
  }

  // *** P27
  void columns(pbt::Src& s) {
    struct Cell {std::string text; char pad;};
    struct Col {std::string prefix, suffix; bool left; std::vector<Cell> cells; bool open;};
    const size_t start = s.draw(4);
    mathic::ColumnPrinter pr(start);
    std::vector<Col> cols;
    for (size_t i = 0; i < start; ++i) {Col c = {"  ", "", true, {}, false}; cols.push_back(c);}
    std::string prefix;
    size_t repeats = 0, cellCount = 0;
    auto word = [&](size_t most) {
      std::string t;
      static const char letters[] = "abcxyz 0123456789.,-%*|";
      for (size_t n = s.small(most); n > 0; --n) t += letters[s.draw(sizeof(letters) - 1)];
      return t;
    };
    auto end = [&](size_t c, char pad) { // end the current cell
      if (!cols[c].open) {Cell e = {"", pad}; cols[c].cells.push_back(e);}
      cols[c].cells.back().pad = pad;
      cols[c].open = false;
    };
    auto append = [&](size_t c, const std::string& t) {
      if (t.empty()) return;
      if (!cols[c].open) {Cell e = {"", ' '}; cols[c].cells.push_back(e);}
      cols[c].open = true;
      cols[c].cells.back().text += t;
      ++cellCount;
    };
    auto check = [&]() {
      PCHECK(pr.getColumnCount() == cols.size(), "getColumnCount() is " << pr.getColumnCount() << " for " << cols.size() << " columns");
      size_t rows = 0;
      std::vector<size_t> widths(cols.size());
      for (size_t c = 0; c < cols.size(); ++c) {
        rows = std::max(rows, cols[c].cells.size());
        for (size_t r = 0; r < cols[c].cells.size(); ++r) widths[c] = std::max(widths[c], cols[c].cells[r].text.size());
      }
      std::string want;
      for (size_t r = 0; r < rows; ++r) {
        want += prefix;
        for (size_t c = 0; c < cols.size(); ++c) {
          Cell e = {"", ' '};
          if (r < cols[c].cells.size()) e = cols[c].cells[r];
          const std::string pad(widths[c] - e.text.size(), e.pad);
          want += cols[c].prefix + (cols[c].left ? e.text + pad : pad + e.text) + cols[c].suffix;
        }
        want += '\n';
      }
      std::ostringstream o;
      if (s.flag()) o << pr;
      else pr.print(o);
      PCHECK(o.str() == want, "printed\n" << o.str() << "instead of\n" << want);
      char* text = 0; size_t size = 0;
      FILE* f = open_memstream(&text, &size);
      mathic::print(f, pr);
      fclose(f);
      const std::string viaFile(text, size);
      free(text);
      PCHECK(viaFile == want, "printed to a file\n" << viaFile << "instead of\n" << want);
    };
    if (pbt::huge) { // many rows and columns
      pbt::Bulk r(s.draw(1u << 30));
      const size_t more = 1 + s.draw(20), cells = 1000 + s.draw(12000), most = 1 + s.draw(200);
      PLOG(s, "bulk of " << more << " more columns, " << cells << " operations, words below " << most);
      for (size_t i = 0; i < more; ++i) {
        Col n = {std::string(r(4), '['), std::string(r(4), ']'), r(2) == 0, {}, false};
        pr.addColumn(n.left, n.prefix, n.suffix);
        cols.push_back(n);
      }
      for (size_t i = 0; i < cells; ++i) {
        const size_t c = r(cols.size());
        switch (r(20)) {
        case 0: pr.repeatToEndOfLine('-', c); end(c, '-'); ++repeats; break;
        case 1: case 2: case 3: case 4: case 5: pr[c] << '\n'; end(c, ' '); break;
        default: {
          const std::string t(r(r(most) + 1), static_cast<char>('a' + r(26)));
          pr[c] << t;
          append(c, t);
          if (r(4) != 0) {pr[c] << '\n'; end(c, ' ');}
        }
        }
      }
      check();
    }
    for (pbt::List l(s, 25, 60, pbt::huge ? 60 : 120); l.next();) {
      const size_t op = cols.empty() ? 0 : s.weighted({2, 10, 6, 3, 1, 1, 2});
      const size_t c = cols.empty() ? 0 : s.draw(cols.size());
      switch (op) {
      case 0: {
        if (cols.size() >= 8) break;
        Col n = {"  ", "", true, {}, false};
        if (s.flag()) {
          std::ostream& o = pr.addColumn();
          cols.push_back(n);
          PLOG(s, "add a column");
          if (s.flag()) {o << "first\n"; append(cols.size() - 1, "first"); end(cols.size() - 1, ' ');}
        } else {
          n.left = s.flag(); n.prefix = word(5); n.suffix = word(5);
          PLOG(s, "add a column flush " << (n.left ? "left" : "right") << " " << show(n.prefix) << " " << show(n.suffix));
          pr.addColumn(n.left, n.prefix, n.suffix);
          cols.push_back(n);
        }
        break;
      }
      case 1: {
        const std::string t = word(s.draw(10) == 9 ? 200 : 12);
        PLOG(s, "column " << c << " << " << show(t));
        pr[c] << t;
        append(c, t);
        break;
      }
      case 2: PLOG(s, "column " << c << " << newline"); pr[c] << '\n'; end(c, ' '); break;
      case 3: {
        const unsigned long long x = s.draw(1ull << (1 + s.draw(63)));
        PLOG(s, "column " << c << " << " << x << "\\n");
        std::ostringstream o; o << x;
        pr[c] << x << '\n';
        append(c, o.str());
        end(c, ' ');
        break;
      }
      case 4: {
        const char ch = "-=*. "[s.draw(5)];
        PLOG(s, "repeat " << ch << " to the end of line in column " << c);
        pr.repeatToEndOfLine(ch, c);
        end(c, ch);
        ++repeats;
        break;
      }
      case 5: {
        const char ch = "-=*."[s.draw(4)];
        PLOG(s, "repeat " << ch << " to the end of line in all columns");
        pr.repeatToEndOfLine(ch);
        for (size_t k = 0; k < cols.size(); ++k) end(k, ch);
        ++repeats;
        break;
      }
      case 6:
        if (s.draw(3) == 0) {prefix = word(6); PLOG(s, "prefix " << show(prefix)); pr.setPrefix(prefix);}
        else check();
        break;
      }
    }
    check();
    s.labelIf(repeats > 0, "repeat to end of line");
    if (cols.size() >= 2 && cellCount >= 3) s.nontrivial();
  }

  // *** P28
  typedef long double LD;
  // Parses D.D followed by a unit; the value in tenths.
  bool parseTenths(const std::string& t, unsigned __int128& tenths, std::string& unit) {
    size_t i = 0;
    unsigned __int128 v = 0;
    while (i < t.size() && isdigit(static_cast<unsigned char>(t[i])) && i < 30) v = v * 10 + (t[i++] - '0');
    if (i == 0 || (i > 1 && t[0] == '0')) return false;
    if (i + 1 >= t.size() || t[i] != '.' || !isdigit(static_cast<unsigned char>(t[i + 1]))) return false;
    tenths = v * 10 + (t[i + 1] - '0');
    unit = t.substr(i + 2);
    return true;
  }
  void checkTenths(const char* what, const std::string& got, const std::string& unit, LD exact, const std::string& args) {
    unsigned __int128 tenths;
    std::string u;
    PCHECK(parseTenths(got, tenths, u) && u == unit, what << " of " << args << " gives " << show(got));
    const LD diff = fabsl(static_cast<LD>(tenths) / 10 - exact);
    PCHECK(diff <= 0.05L + exact / (1ull << 50) + 1e-9L, what << " of " << args << " gives " << show(got));
  }
  void checkUnits(const char* what, unsigned long long l, const std::string& got, unsigned base, const std::string& plainUnit, const Words& units) {
    if (l < base) {
      std::ostringstream o; o << l << plainUnit;
      PCHECK(got == o.str(), what << " of " << l << " gives " << show(got));
      return;
    }
    unsigned __int128 tenths;
    std::string u;
    PCHECK(parseTenths(got, tenths, u), what << " of " << l << " gives " << show(got));
    LD unit = 1;
    size_t i = 0;
    for (; i < units.size(); ++i) {unit *= base; if (units[i] == u) break;}
    PCHECK(i < units.size(), what << " of " << l << " gives " << show(got) << " with an unknown unit");
    PCHECK(fabsl(static_cast<LD>(tenths) * unit / 10 - l) <= unit / 20 + static_cast<LD>(l) / (1ull << 50), what << " of " << l << " gives " << show(got));
    PCHECK(tenths >= 10, what << " of " << l << " gives " << show(got) << " with too large a unit");
    PCHECK(i + 1 == units.size() || tenths < base * 10, what << " of " << l << " gives " << show(got) << " with too small a unit");
  }
  unsigned long long number(pbt::Src& s) {
    switch (s.draw(7)) {
    case 0: return s.draw(2000);
    case 1: {unsigned long long b = 1; for (size_t n = s.draw(20); n > 0; --n) b *= 10; return b + s.draw(5) - 2;}
    case 2: return (1ull << s.draw(64)) + s.draw(5) - 2;
    case 3: return s.draw(1ull << (1 + s.draw(63)));
    case 4: return ~0ull - s.small(1000);
    case 5: { // about to be rounded up to the next unit
      const bool bytes = s.flag();
      unsigned long long b = 1;
      for (size_t n = s.draw(bytes ? 6 : 7); n > 0; --n) b *= bytes ? 1024 : 1000;
      if (b < 1000) b *= bytes ? 1024 : 1000;
      const LD top = (bytes ? 1023.95L : 999.95L) * b;
      return static_cast<unsigned long long>(top) + s.draw(2001) - 1000;
    }
    default: {unsigned long long x = s.draw(1000); for (size_t n = s.draw(5); n > 0; --n) x = x * 1000 + (s.flag() ? 0 : s.draw(1000)); return x;}
    }
  }
  void numbers(pbt::Src& s) {
    typedef mathic::ColumnPrinter P;
    size_t large = 0, ratios = 0;
    for (pbt::List l(s, 10, 20, 30); l.next();) {
      const unsigned long long n = number(s);
      const size_t op = s.draw(9);
      PLOG(s, "format " << op << " of " << n);
      std::ostringstream a;
      switch (op) {
      case 0: {
        const std::string c = P::commafy(n);
        std::string plain, groups;
        a << n;
        const std::string digits = a.str();
        for (size_t i = 0; i < digits.size(); ++i) {
          if (i > 0 && (digits.size() - i) % 3 == 0) groups += ',';
          groups += digits[i];
        }
        PCHECK(c == groups, "commafy of " << n << " gives " << show(c));
        if (n >= 1000) ++large;
        break;
      }
      case 1: checkUnits("withSIPrefix", n, P::withSIPrefix(n), 1000, "", {"k", "M", "G", "T"}); if (n >= 1000) ++large; break;
      case 2: checkUnits("bytesInUnit", n, P::bytesInUnit(n), 1024, "B", {"kB", "MB", "GB", "TB"}); if (n >= 1024) ++large; break;
      case 3: case 4: case 5: {
        const unsigned long long d = s.draw(6) == 5 ? 0 : s.draw(3) == 0 ? n / (1 + s.draw(20)) : number(s);
        a << n << ", " << d;
        const char* names[] = {"ratioInteger", "percentInteger", "percentIntegerFixed"};
        std::string r = op == 3 ? P::ratioInteger(n, d) : op == 4 ? P::percentInteger(n, d) : P::percentIntegerFixed(n, d);
        const std::string unit = op == 3 ? "" : "%";
        if (op == 5) {
          const bool small = d != 0 && static_cast<LD>(n) / d < 9.9994L;
          PCHECK(!small || r.size() == 6, "percentIntegerFixed of " << a.str() << " gives " << show(r) << " of another length than 6");
          PCHECK(r.size() >= 6, "percentIntegerFixed of " << a.str() << " gives " << show(r));
          if (r[0] == ' ') PCHECK(r.size() == 6, "percentIntegerFixed of " << a.str() << " gives " << show(r));
          while (!r.empty() && r[0] == ' ') r.erase(0, 1);
        }
        if (d == 0) PCHECK(r == (n == 0 ? "0/0" : "?/0") + unit, names[op - 3] << " of " << a.str() << " gives " << show(r));
        else {
          const LD q = static_cast<LD>(n) / d * (op == 3 ? 1 : 100);
          if (q < 1e15L) {checkTenths(names[op - 3], r, unit, q, a.str()); ++ratios;}
        }
        break;
      }
      case 6: case 7: {
        const double num = s.flag() ? static_cast<double>(n) : n / 1000.0;
        double den = s.draw(6) == 5 ? 0.0 : s.flag() ? static_cast<double>(number(s)) : number(s) / 1000.0;
        const std::string r = op == 6 ? P::ratioDouble(num, den) : P::percentDouble(num, den);
        const std::string unit = op == 6 ? "" : "%";
        a << num << ", " << den;
        const char* name = op == 6 ? "ratioDouble" : "percentDouble";
        if (den == 0) PCHECK(r == (num == 0 ? "0/0" : "?/0") + unit, name << " of " << a.str() << " gives " << show(r));
        else {
          const LD q = static_cast<LD>(num) / den * (op == 6 ? 1 : 100);
          if (q < 1e15L) {checkTenths(name, r, unit, q, a.str()); ++ratios;}
        }
        break;
      }
      default: {
        const double d = static_cast<double>(n) / (s.flag() ? 1.0 : s.flag() ? 20.0 : 1e6);
        a << d;
        if (d < 1e15) checkTenths("oneDecimal", P::oneDecimal(d), "", d, a.str());
        if (d < 1e13) checkTenths("percentDouble", P::percentDouble(d), "%", static_cast<LD>(d) * 100, a.str());
        ++ratios;
      }
      }
    }
    s.labelIf(large > 0, "grouped or with a unit");
    s.labelIf(ratios > 0, "ratio");
    if (large + ratios >= 2) s.nontrivial();
  }

  // *** P29
  std::string viaFile(const mathic::Timer& t) {
    char* text = 0; size_t size = 0;
    FILE* f = open_memstream(&text, &size);
    t.print(f);
    fclose(f);
    const std::string r(text, size);
    free(text);
    return r;
  }
  void checkPrinted(std::string t, unsigned long ms, const char* to) {
    const std::string all = t;
    if (t.size() >= 2 && t[0] == '(' && t.back() == ')') t = t.substr(1, t.size() - 2);
    unsigned long h = 0, m = 0, sec = 0, milli = 0;
    bool hasH = false, hasM = false;
    size_t i = 0;
    auto num = [&](size_t& digits) {
      unsigned long v = 0;
      digits = 0;
      while (i < t.size() && isdigit(static_cast<unsigned char>(t[i]))) {v = 10 * v + (t[i++] - '0'); ++digits;}
      return v;
    };
    size_t d;
    unsigned long v = num(d);
    bool ok = d > 0;
    if (ok && i < t.size() && t[i] == 'h') {hasH = true; h = v; ++i; v = num(d); ok = d > 0 && i < t.size() && t[i] == 'm';}
    if (ok && i < t.size() && t[i] == 'm') {hasM = true; m = v; ++i; v = num(d); ok = d > 0;}
    sec = v;
    ok = ok && i < t.size() && t[i++] == '.';
    milli = num(d);
    ok = ok && d == 3 && t.substr(i) == "s";
    PCHECK(ok, ms << " milliseconds are printed to " << to << " as " << show(all));
    PCHECK(m < 60 && sec < 60 && ((h * 60 + m) * 60 + sec) * 1000 + milli == ms, ms << " milliseconds are printed to " << to << " as " << show(all));
    PCHECK(hasH == (h != 0) && hasM == (h != 0 || m != 0), ms << " milliseconds are printed to " << to << " as " << show(all) << " with superfluous or missing parts");
  }
  void timers(pbt::Src& s) {
    struct Off {~Off() {gFake = false;}} off;
    gFake = true;
    gMicros = s.draw(4) == 0 ? 0 : s.draw(1ull << (1 + s.draw(44)));
    std::vector<std::unique_ptr<mathic::Timer> > t;
    std::vector<unsigned long long> from;
    size_t reads = 0, resets = 0;
    unsigned long long longest = 0;
    for (pbt::List l(s, 15, 40, 60); l.next();) {
      const size_t op = t.empty() ? 0 : s.weighted({2, 8, 2, 4, 2, 2});
      const size_t i = t.empty() ? 0 : s.draw(t.size());
      switch (op) {
      case 0:
        if (t.size() >= 5) break;
        PLOG(s, "timer " << t.size());
        t.push_back(std::unique_ptr<mathic::Timer>(new mathic::Timer()));
        from.push_back(gMicros);
        break;
      case 1: {
        static const unsigned long long units[] = {1, 100, 1000, 1000000, 60000000ull, 3600000000ull};
        const unsigned long long d = s.draw(3) == 0 ? s.draw(1ull << (1 + s.draw(40))) : units[s.draw(6)] * s.draw(70) + s.draw(1001) * s.draw(2);
        gMicros += d;
        PLOG(s, "time passes: " << d);
        break;
      }
      case 2: PLOG(s, "reset " << i); t[i]->reset(); from[i] = gMicros; ++resets; break;
      default: {
        const unsigned long long span = gMicros - from[i];
        longest = std::max(longest, span);
        PLOG(s, "read " << i << " after " << span);
        ++reads;
        const unsigned long ms = t[i]->getMilliseconds();
        const unsigned long want = static_cast<unsigned long>((span + 500) / 1000);
        PCHECK(ms == want || (span % 1000 == 500 && ms + 1 == want), span << " microseconds are reported as " << ms << " milliseconds");
        if (op == 4) {
          std::ostringstream o;
          if (s.flag()) o << *t[i]; else t[i]->print(o);
          checkPrinted(o.str(), ms, "a stream");
        } else if (op == 5) checkPrinted(viaFile(*t[i]), ms, "a file");
        PCHECK(t[i]->getMilliseconds() == ms, "reading a timer twice gives two results");
      }
      }
    }
    s.labelIf(longest >= 3600000000ull, "an hour or more");
    s.labelIf(resets > 0, "reset");
    if (reads >= 2 && longest > 0) s.nontrivial();
  }
  void realTime(pbt::Src& s) {
    gFake = false;
    const unsigned long long burn = 200 * (1 + s.draw(20)), sleep = s.draw(8) * 1000;
    PLOG(s, "burn " << burn << " and sleep " << sleep);
    const unsigned long long a0 = realMicros();
    mathic::Timer t;
    const unsigned long long a1 = realMicros();
    volatile unsigned long long x = 0;
    while (realMicros() < a1 + burn) ++x;
    usleep(sleep);
    const unsigned long long b0 = realMicros();
    const unsigned long ms = t.getMilliseconds();
    const unsigned long long b1 = realMicros();
    PCHECK(ms * 1000 + 502 >= b0 - a1 && ms * 1000 <= b1 - a0 + 502, "between " << b0 - a1 << " and " << b1 - a0
      << " microseconds of processor time are reported as " << ms << " milliseconds");
    s.label("real time");
    s.nontrivial();
  }
}
#if FOCUS == 26 || FOCUS == 32
PBT_VARIANT("wrapping", 10, wrapping);
#endif
#if FOCUS == 27 || FOCUS == 32
PBT_VARIANT("columns", 10, columns);
#endif
#if FOCUS == 28 || FOCUS == 32
PBT_VARIANT("numbers", 10, numbers);
#endif
#if FOCUS == 29 || FOCUS == 32
PBT_VARIANT("timers", 39, timers);
PBT_VARIANT("real time", 1, realTime);
#endif
