// Triangular bit set against a map of bits. FOCUS 1: debug build.
#include "pbt.h"
#include "mathic/stdinc.h"
#include "mathic/BitTriangle.h"

namespace {
  typedef std::vector<std::vector<unsigned char> > Model;
  void checkAll(const mathic::BitTriangle& t, const Model& m, const char* when, bool unordered) {
    PCHECK(t.columnCount() == m.size(), "columnCount() is " << t.columnCount() << " after " << m.size() << " columns" << when);
    PCHECK(t.empty() == m.empty(), "empty() is wrong with " << m.size() << " columns" << when);
    for (size_t c = 0; c < m.size(); ++c) for (size_t r = 0; r < c; ++r) {
      const bool b = !unordered ? t.bit(c, r) : (c + r) % 2 ? t.bitUnordered(r, c) : t.bitUnordered(c, r);
      PCHECK(b == (m[c][r] != 0), "bit (" << c << ", " << r << ") reads as " << b << when);
    }
  }
  void prop(pbt::Src& s) {
    mathic::BitTriangle t;
    Model m;
    size_t sets = 0, clears = 0, bits = 0;
    const size_t most = pbt::huge ? 5000 : s.draw(6) == 5 ? 700 : 90;
    if (pbt::huge) {
      pbt::Bulk r(s.draw(1u << 30));
      const size_t n = 1000 + s.draw(3500), density = 1 + s.draw(100);
      PLOG(s, "bulk of " << n << " columns");
      for (size_t i = 0; i < n; ++i) {
        t.addColumn();
        bits += m.size();
        m.push_back(std::vector<unsigned char>(m.size()));
        for (size_t k = 0; k < density && i > 0; ++k) {
          const size_t c = r(3) == 0 ? i : 1 + r(i), row = r(c);
          const bool v = r(3) != 0;
          ++(v ? sets : clears);
          if (r(2) == 0) t.setBit(c, row, v); else t.setBitUnordered(row, c, v);
          m[c][row] = v;
        }
      }
      checkAll(t, m, " after the bulk", s.flag());
      s.labelIf(m.size() > 1024, "more than 1024 columns");
    }
    for (pbt::List l(s, 30, pbt::huge ? 40 : 200, pbt::huge ? 60 : 600); l.next();) {
      switch (m.size() < 2 ? 0 : s.weighted({6, 10, 5, 1, 2, 1})) {
      case 0: {
        const size_t n = s.draw(6) == 5 ? s.small(140) : 1 + s.draw(3);
        if (m.size() + n > most) break;
        PLOG(s, "add " << n << " columns");
        for (size_t i = 0; i < n; ++i) {
          t.addColumn();
          bits += m.size();
          m.push_back(std::vector<unsigned char>(m.size()));
        }
        if (n > 0) for (size_t r = 0; r + 1 < m.size(); ++r)
          PCHECK(!t.bit(m.size() - 1, r), "bit (" << m.size() - 1 << ", " << r << ") of a new column is set");
        PCHECK(t.getMemoryUse() >= bits / 8, "getMemoryUse() is " << t.getMemoryUse() << " with " << bits << " bits stored");
        break;
      }
      case 1: case 2: {
        const bool unordered = s.flag(1, 3);
        const size_t c = s.flag(1, 3) ? m.size() - 1 : 1 + s.draw(m.size() - 1);
        const size_t r = s.draw(4) == 3 ? c - 1 : s.draw(c);
        const bool v = s.flag(2, 3);
        ++(v ? sets : clears);
        PLOG(s, "bit (" << c << ", " << r << ") = " << v << (unordered ? " unordered" : ""));
        if (!unordered) t.setBit(c, r, v);
        else if (s.flag()) t.setBitUnordered(c, r, v);
        else t.setBitUnordered(r, c, v);
        m[c][r] = v;
        PCHECK(t.bit(c, r) == v && t.bitUnordered(r, c) == v && t.bitUnordered(c, r) == v,
          "bit (" << c << ", " << r << ") does not read as the " << v << " just set");
        // the neighbours, and the same numbers elsewhere
        for (size_t d = 0; d < 3; ++d) {
          if (r + d < m.size() && c < m.size() && r + d < c)
            PCHECK(t.bit(c, r + d) == (m[c][r + d] != 0), "setting bit (" << c << ", " << r << ") changed bit (" << c << ", " << r + d << ")");
          if (c + d < m.size())
            PCHECK(t.bit(c + d, r) == (m[c + d][r] != 0), "setting bit (" << c << ", " << r << ") changed bit (" << c + d << ", " << r << ")");
        }
        break;
      }
      case 3: { // a whole column
        const size_t c = s.draw(m.size());
        const bool v = s.flag();
        PLOG(s, "column " << c << " = " << v);
        for (size_t r = 0; r < c; ++r) {t.setBit(c, r, v); m[c][r] = v;}
        checkAll(t, m, " after setting a column", s.flag());
        break;
      }
      case 4:
        if (m.size() < 200 || s.draw(8) == 0) checkAll(t, m, "", s.flag());
        break;
      case 5: { // copies are independent
        mathic::BitTriangle u(t);
        const size_t c = 1 + s.draw(m.size() - 1), r = s.draw(c);
        u.setBit(c, r, !m[c][r]);
        u.addColumn();
        PCHECK(u.columnCount() == m.size() + 1, "a copy has a wrong number of columns");
        checkAll(t, m, " after changing a copy", false);
        break;
      }
      }
    }
    checkAll(t, m, " at the end", s.flag());
    s.labelIf(m.size() > 64, "more than 64 columns");
    s.labelIf(m.size() > 256, "more than 256 columns");
    s.labelIf(clears > 0, "bits cleared");
    if (m.size() >= 3 && sets >= 2 && clears >= 1) s.nontrivial();
  }
}
PBT_VARIANT("bit triangle", 1, prop);
