// Name factories, command lines, parameters, help. FOCUS is the number of
// the property; 32: debug build, everything that asserts allow.
#include "pbt.h"
#include "capture.h"
#include "mathic/stdinc.h"
#include "mathic/NameFactory.h"
#include "mathic/CliParser.h"
#include "mathic/CliParameter.h"
#include "mathic/IntegerParameter.h"
#include "mathic/BoolParameter.h"
#include "mathic/StringParameter.h"
#include "mathic/HelpAction.h"
#include "mathic/error.h"
#include <map>
#include <memory>
#include <set>

namespace {
  typedef std::vector<std::string> Words;
  std::string show(const Words& w) {
    std::string o;
    for (size_t i = 0; i < w.size(); ++i) o += (i ? " \"" : "\"") + w[i] + "\"";
    return o;
  }

  // *** What resolving a name means
  struct Resolved {bool unknown, ambiguous; std::string name; Words candidates;};
  Resolved resolve(const Words& names, const std::string& prefix) {
    Resolved r;
    r.unknown = r.ambiguous = false;
    for (size_t i = 0; i < names.size(); ++i) {
      if (names[i] == prefix) {
        r.candidates.assign(1, prefix);
        r.name = prefix;
        return r;
      }
      if (names[i].size() > prefix.size() && std::equal(prefix.begin(), prefix.end(), names[i].begin()))
        r.candidates.push_back(names[i]);
    }
    std::sort(r.candidates.begin(), r.candidates.end());
    if (r.candidates.empty()) r.unknown = true;
    else if (r.candidates.size() > 1) r.ambiguous = true;
    else r.name = r.candidates[0];
    return r;
  }

  // *** Names that have prefixes in common
  // In huge cases the amounts are choices of the case, but not each letter.
  pbt::Bulk gBulk;
  uint64_t draw(pbt::Src& s, uint64_t n) {return pbt::huge ? gBulk(n) : s.draw(n);}
  bool gNulToo = false; // whether names have null characters, too
  void begin(pbt::Src& s) {gNulToo = false; if (pbt::huge) gBulk = pbt::Bulk(s.draw(1u << 30));}
  bool cut(const std::string& n) {return n.find('\0') != std::string::npos;} // as a C string
  std::string genName(pbt::Src& s, const Words& have, bool emptyToo) {
    static const std::vector<std::string> letters = {"a", "b", "ab", "c", "z", "A", "-", "0", "_", "\xc3"};
    std::string n;
    if (!have.empty() && draw(s, 2) == 0) {
      n = have[draw(s, have.size())];
      if (draw(s, 2) == 0) n.resize(draw(s, n.size() + 1));
    }
    for (size_t k = draw(s, pbt::huge && draw(s, 8) == 0 ? 300 : 4); k > 0; --k) n += draw(s, 3) == 2 ? letters[draw(s, letters.size())] : gNulToo && draw(s, 5) == 4 ? std::string(1, '\0') : letters[draw(s, 2)];
    if (n.empty() && !emptyToo) n = "a";
    return n;
  }
  // A word of a command line that is not an option name, with whatever in it.
  std::string genValue(pbt::Src& s, const Words& have) {
    static const std::vector<std::string> any = {" ", "=", "\n", "\t", "\"", "'", "\\", "%s", "-", "--", "*", ",", std::string(1, '\0'), "\xff", "on", "0"};
    std::string n = genName(s, have, true);
    for (size_t k = draw(s, 3) == 2 ? draw(s, 4) : 0; k > 0; --k) n.insert(draw(s, n.size() + 1), any[draw(s, any.size())]);
    return n;
  }
  Words genNames(pbt::Src& s, size_t n, bool emptyToo) {
    Words w;
    for (size_t i = 0; i < n; ++i) {
      std::string x = genName(s, w, emptyToo && draw(s, 6) == 5);
      if (std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x);
    }
    return w;
  }
  std::string genLookup(pbt::Src& s, const Words& names) {
    if (names.empty() || s.draw(8) == 7) return genName(s, names, true);
    std::string n = s.pick(names);
    switch (s.draw(4)) {
    case 0: return n;
    case 1: n.resize(s.draw(n.size() + 1)); return n;
    case 2: n.resize(n.size() - std::min<size_t>(n.size(), 1)); return n;
    default: return n + "a";
    }
  }

  // *** P22
  struct Product {virtual ~Product() {} virtual int id() const = 0; static int made;};
  int Product::made = 0;
  template<int N> struct Concrete: Product {
    Concrete() {++made;}
    int id() const {return N;}
    static std::string theName;
    static const char* staticName() {return theName.c_str();}
  };
  template<int N> std::string Concrete<N>::theName;
  enum {Products = 24};
  typedef mathic::NameFactory<Product> Factory;
  typedef void (*Registrar)(Factory& f, const std::string& name, int how);
  template<int N> std::unique_ptr<Product> makeIt() {return std::unique_ptr<Product>(new Concrete<N>());}
  template<int N> void registerIt(Factory& f, const std::string& name, int how) {
    if (how == 0) mathic::nameFactoryRegister<Concrete<N> >(f, name);
    else if (how == 1) {
      Concrete<N>::theName = name;
      mathic::nameFactoryRegister<Concrete<N> >(f);
    } else f.registerProduct(name, makeIt<N>);
  }
  template<int N> struct Fill {static void into(std::vector<Registrar>& v) {Fill<N - 1>::into(v); v.push_back(registerIt<N - 1>);}};
  template<> struct Fill<0> {static void into(std::vector<Registrar>&) {}};

  template<class E, class F> std::string thrown(F f, const char* what, const std::string& on) {
    try {f();} catch (const E& e) {return e.what();} catch (const std::exception& e) {
      PFAIL(what << " of \"" << on << "\" gives the wrong kind of error: " << e.what());
    }
    PFAIL(what << " of \"" << on << "\" gives no error");
  }

  void names(pbt::Src& s) {
    std::vector<Registrar> reg;
    Fill<Products>::into(reg);
    begin(s);
    gNulToo = s.draw(4) == 3;
    const Words all = genNames(s, s.draw(pbt::huge ? 1500 : 25), true);
    Factory f("gadget");
    PCHECK(f.empty(), "a new factory is not empty");
    PCHECK(f.abstractProductName() == "gadget", "abstractProductName() is \"" << f.abstractProductName() << "\"");
    size_t registered = 0, exact = 0, unique = 0, ambiguous = 0, unknown = 0;
    if (pbt::huge) for (size_t n = s.draw(all.size() + 1); registered < n; ++registered) // the same products under several names
      reg[registered % Products](f, all[registered], cut(all[registered]) ? 2 : static_cast<int>(gBulk(3)));
    for (pbt::List l(s, 30, 60, 100); l.next();) {
      Words have(all.begin(), all.begin() + registered);
      if (registered < all.size() && s.draw(3) == 0) {
        PLOG(s, "register \"" << all[registered] << "\"");
        reg[registered % Products](f, all[registered], cut(all[registered]) ? 2 : static_cast<int>(s.draw(3)));
        ++registered;
        PCHECK(!f.empty(), "a factory with a name is empty");
        continue;
      }
      const std::string p = genLookup(s, have);
      PLOG(s, "look up \"" << p << "\"");
      Words want;
      for (size_t i = 0; i < have.size(); ++i) if (have[i].substr(0, p.size()) == p) want.push_back(have[i]);
      std::sort(want.begin(), want.end());
      Words got;
      f.namesWithPrefix(p, got);
      PCHECK(got == want, "the names with prefix \"" << p << "\" are " << show(got) << ", expected " << show(want));
      const Resolved r = resolve(have, p);
      const int index = static_cast<int>(std::find(all.begin(), all.end(), p) - all.begin());
      const bool known = index < static_cast<int>(registered);
      // exact creation
      Product::made = 0;
      std::unique_ptr<Product> x = f.createNullOnUnknown(p);
      PCHECK((x.get() != 0) == known, "createNullOnUnknown of \"" << p << "\" gives " << (x.get() ? "something" : "nothing"));
      if (x.get()) PCHECK(x->id() == index % Products && Product::made == 1, "createNullOnUnknown of \"" << p << "\" makes the product of \"" << all[x->id()] << "\"");
      if (known) {
        x = f.create(p);
        PCHECK(x.get() && x->id() == index % Products, "create of \"" << p << "\" makes the wrong product");
      } else {
        const std::string msg = thrown<mathic::UnknownNameException>([&]() {f.create(p);}, "create", p);
        if (!gNulToo) PCHECK(msg.find("\"" + p + "\"") != std::string::npos && msg.find("gadget") != std::string::npos, "the error on creating \"" << p << "\" is: " << msg);
      }
      // by prefix
      Product::made = 0;
      if (r.unknown) {
        ++unknown;
        std::string msg = thrown<mathic::UnknownNameException>([&]() {mathic::uniqueNameWithPrefix(f, p);}, "uniqueNameWithPrefix", p);
        if (!gNulToo) PCHECK(msg.find("\"" + p + "\"") != std::string::npos && msg.find("gadget") != std::string::npos, "the error on resolving \"" << p << "\" is: " << msg);
        thrown<mathic::UnknownNameException>([&]() {mathic::createWithPrefix(f, p);}, "createWithPrefix", p);
        PCHECK(Product::made == 0, "a product was made for an unknown name");
      } else if (r.ambiguous) {
        ++ambiguous;
        std::string msg = thrown<mathic::AmbiguousNameException>([&]() {mathic::uniqueNameWithPrefix(f, p);}, "uniqueNameWithPrefix", p);
        if (!gNulToo) PCHECK(msg.find("\"" + p + "\"") != std::string::npos && msg.find("gadget") != std::string::npos, "the error on resolving \"" << p << "\" is: " << msg);
        if (!gNulToo) {
        const size_t colon = msg.find("\"" + p + "\":");
        PCHECK(colon != std::string::npos, "the error on resolving \"" << p << "\" is: " << msg);
        std::istringstream in(msg.substr(colon + p.size() + 3));
        Words listed;
        for (std::string w; in >> w;) listed.push_back(w);
        std::sort(listed.begin(), listed.end());
        PCHECK(listed == r.candidates || (r.candidates[0].empty()), "the error on resolving \"" << p << "\" lists " << show(listed) << " instead of " << show(r.candidates));
        }
        thrown<mathic::AmbiguousNameException>([&]() {mathic::createWithPrefix(f, p);}, "createWithPrefix", p);
        PCHECK(Product::made == 0, "a product was made for an ambiguous name");
      } else {
        ++(r.name == p ? exact : unique);
        std::string n;
        try {
          n = mathic::uniqueNameWithPrefix(f, p);
          x = mathic::createWithPrefix(f, p);
        } catch (const std::exception& e) {
          PFAIL("resolving \"" << p << "\" should give \"" << r.name << "\" but gives the error " << e.what());
        }
        PCHECK(n == r.name, "\"" << p << "\" resolves to \"" << n << "\" instead of \"" << r.name << "\"");
        PCHECK(x.get() && x->id() == (std::find(all.begin(), all.end(), r.name) - all.begin()) % Products, "createWithPrefix of \"" << p << "\" makes the wrong product");
      }
    }
    s.labelIf(exact > 0, "exact");
    s.labelIf(unique > 0, "unique prefix");
    s.labelIf(ambiguous > 0, "ambiguous");
    s.labelIf(unknown > 0, "unknown");
    if (registered >= 2 && unique + ambiguous > 0 && exact > 0) s.nontrivial();
  }

  // *** Actions described at run time
  enum Type {Int, Bool, String};
  struct ParamSpec {Type type; std::string name, description, text; unsigned value;};
  struct ActionSpec {
    std::string name, description, shortDescription;
    std::vector<ParamSpec> params;
    int direct; // -1: default, n: takes up to n
  };
  std::vector<ActionSpec> gSpecs;

  std::unique_ptr<mathic::CliParameter> makeParam(const ParamSpec& p) {
    typedef std::unique_ptr<mathic::CliParameter> Ptr;
    if (p.type == Int) return Ptr(new mathic::IntegerParameter(p.name, p.description, p.value));
    if (p.type == Bool) return Ptr(new mathic::BoolParameter(p.name, p.description, p.value != 0));
    return Ptr(new mathic::StringParameter(p.name, p.description, p.text));
  }
  std::string valueText(const mathic::CliParameter& p, Type t) {
    std::ostringstream o;
    if (t == Int) o << static_cast<const mathic::IntegerParameter&>(p).value();
    else if (t == Bool) o << (static_cast<const mathic::BoolParameter&>(p).value() ? "on" : "off");
    else o << static_cast<const mathic::StringParameter&>(p).value();
    return o.str();
  }
  std::string valueText(const ParamSpec& p) {
    std::ostringstream o;
    if (p.type == Int) o << p.value;
    else if (p.type == Bool) o << (p.value ? "on" : "off");
    else o << p.text;
    return o.str();
  }
  struct TestActionBase: mathic::Action {
    explicit TestActionBase(int index): index(index), directCalls(0) {
      for (size_t i = 0; i < gSpecs[index].params.size(); ++i) params.push_back(makeParam(gSpecs[index].params[i]));
    }
    void directOptions(std::vector<std::string> tokens, mathic::CliParser& parser) {
      ++directCalls;
      const int most = gSpecs[index].direct;
      if (most < 0) {mathic::Action::directOptions(tokens, parser); return;}
      if (static_cast<int>(tokens.size()) > most) mathic::reportError("Too many.");
      direct = tokens;
    }
    void performAction() {}
    const char* name() const {return gSpecs[index].name.c_str();}
    const char* description() const {return gSpecs[index].description.c_str();}
    const char* shortDescription() const {return gSpecs[index].shortDescription.c_str();}
    void pushBackParameters(std::vector<mathic::CliParameter*>& v) {
      for (size_t i = 0; i < params.size(); ++i) v.push_back(params[i].get());
    }
    int index, directCalls;
    std::vector<std::unique_ptr<mathic::CliParameter> > params;
    Words direct;
  };
  template<int N> struct TestAction: TestActionBase {
    TestAction(): TestActionBase(N) {}
    static const char* staticName() {return gSpecs[N].name.c_str();}
  };
  typedef void (*ActionRegistrar)(mathic::CliParser&, bool);
  template<int N> void registerAct(mathic::CliParser& p, bool byStatic) {
    if (byStatic) p.registerAction<TestAction<N> >(); else p.registerAction<TestAction<N> >(gSpecs[N].name);
  }
  template<int N> struct FillA {static void into(std::vector<ActionRegistrar>& v) {FillA<N - 1>::into(v); v.push_back(registerAct<N - 1>);}};
  template<> struct FillA<0> {static void into(std::vector<ActionRegistrar>&) {}};
  enum {MaxActions = 48}; // usually up to 9

  const char* gVocabularyLetters = "q";
  std::string vocab(pbt::Src& s) { // a word that no text of the library has
    std::ostringstream o;
    o << gVocabularyLetters << draw(s, 1000);
    if (draw(s, 12) == 11) o << std::string(draw(s, 100), '7');
    static const char* const odd[] = {"%", "%d", "%s", "%%", "%n", "\\n", "\\", "&", "\xc3\xa9"};
    if (draw(s, 12) == 11) o << odd[draw(s, 9)];
    return o.str();
  }
  std::string prose(pbt::Src& s, size_t most, bool lines) {
    std::string o;
    for (size_t n = s.draw(most + 1); n > 0; --n) {
      if (!o.empty()) o += lines && draw(s, 8) == 7 ? (draw(s, 2) == 0 ? "\n" : "\n  ") : draw(s, 10) == 9 ? "  " : " ";
      o += vocab(s);
    }
    if (lines && s.draw(4) == 3) o += "\n";
    return o;
  }
  Words split(const std::string& t) {
    std::istringstream in(t);
    Words w;
    for (std::string x; in >> x;) w.push_back(x);
    return w;
  }

  void genSpecs(pbt::Src& s, bool help) {
    gSpecs.clear();
    begin(s);
    Words an = genNames(s, s.draw(pbt::huge ? MaxActions : 8) + 1, true);
    if (help) { // the names are of their own vocabulary
      for (size_t i = 0; i < an.size(); ++i) an[i] = "x" + an[i] + (s.draw(8) == 7 ? s.flag() ? "%s" : "%" : "");
    }
    for (size_t i = 0; i < an.size(); ++i) {
      ActionSpec a;
      a.name = an[i];
      if (help) {a.description = prose(s, pbt::huge ? 600 : 60, true); a.shortDescription = prose(s, 20, false);}
      a.direct = s.flag() ? -1 : static_cast<int>(s.draw(pbt::huge ? 300 : 4));
      Words pn = genNames(s, s.draw(pbt::huge && s.draw(3) == 2 ? 200 : 7), !help);
      for (size_t k = 0; k < pn.size(); ++k) {
        ParamSpec p;
        p.type = static_cast<Type>(draw(s, 3));
        p.name = help ? "q" + pn[k] + (s.draw(8) == 7 ? "%d" : "") : pn[k];
        p.value = static_cast<unsigned>(p.type == Bool ? draw(s, 2) : draw(s, 2) ? draw(s, 100) : draw(s, 1ull << 31));
        p.text = p.type != String ? "" : help ? (s.flag() ? vocab(s) : vocab(s) + " " + vocab(s)) : genValue(s, Words());
        if (help) p.description = prose(s, pbt::huge ? 10 : 40, true);
        a.params.push_back(p);
      }
      gSpecs.push_back(a);
    }
  }

  // *** P23
  bool isNumber(const std::string& t, unsigned long long& v) { // canonical decimal
    if (t.empty() || t.size() > 12 || (t.size() > 1 && t[0] == '0')) return false;
    v = 0;
    for (size_t i = 0; i < t.size(); ++i) {
      if (t[i] < '0' || t[i] > '9') return false;
      v = 10 * v + (t[i] - '0');
    }
    return v < (1ull << 32);
  }
  struct Expect {
    bool ok, unspecified;
    std::set<std::string> errors; // unknown, ambiguous, other
    int action;
    Words direct;
    Words values; // by parameter
  };
  Expect expectOf(const Words& line) {
    Expect e;
    e.unspecified = false;
    e.action = -1;
    Words an;
    for (size_t i = 0; i < gSpecs.size(); ++i) an.push_back(gSpecs[i].name);
    if (line.empty()) {e.errors.insert("unknown"); e.ok = false; return e;}
    Resolved r = resolve(an, line[0]);
    if (r.unknown || r.ambiguous) {e.errors.insert(r.unknown ? "unknown" : "ambiguous"); e.ok = false; return e;}
    e.action = static_cast<int>(std::find(an.begin(), an.end(), r.name) - an.begin());
    const ActionSpec& a = gSpecs[e.action];
    Words pn;
    for (size_t i = 0; i < a.params.size(); ++i) {pn.push_back(a.params[i].name); e.values.push_back(valueText(a.params[i]));}
    size_t i = 1;
    Words rest;
    for (; i < line.size(); ++i) if (!line[i].empty()) rest.push_back(line[i]);
    i = 0;
    while (i < rest.size() && rest[i][0] != '-') e.direct.push_back(rest[i++]);
    if (static_cast<int>(e.direct.size()) > std::max(a.direct, 0)) e.errors.insert("other");
    while (i < rest.size()) {
      const std::string t = rest[i++];
      if (t[0] != '-') {e.errors.insert("other"); continue;}
      std::string arg;
      if (i < rest.size() && rest[i][0] != '-') arg = rest[i++];
      r = resolve(pn, t.substr(1));
      if (r.unknown || r.ambiguous) {e.errors.insert(r.unknown ? "unknown" : "ambiguous"); continue;}
      const size_t k = std::find(pn.begin(), pn.end(), r.name) - pn.begin();
      unsigned long long v;
      switch (a.params[k].type) {
      case Int:
        if (!isNumber(arg, v)) e.errors.insert("other");
        else if (v >= (1ull << 31)) e.unspecified = true;
        else e.values[k] = arg;
        break;
      case Bool:
        if (arg.empty() || arg == "on") e.values[k] = "on";
        else if (arg == "off") e.values[k] = "off";
        else e.errors.insert("other");
        break;
      case String: e.values[k] = arg; break;
      }
    }
    e.ok = e.errors.empty();
    return e;
  }

  // The help action takes at most one direct parameter and no options.
  void helpLine(pbt::Src& s) {
    mathic::CliParser parser;
    if (s.flag()) parser.registerHelpAction("before", "after");
    else parser.registerAction<mathic::HelpAction>("help");
    Words line(1, std::string("help").substr(0, 1 + s.draw(4)));
    Words direct;
    for (size_t n = s.draw(4); n > 0; --n) {
      line.push_back(s.draw(3) == 2 ? std::string() : "d" + genValue(s, Words()));
      if (!line.back().empty()) direct.push_back(line.back());
    }
    const bool option = s.draw(4) == 3;
    if (option) line.push_back("-" + genName(s, Words(), true));
    PLOG(s, "parse " << show(line) << " with the help action only");
    std::unique_ptr<mathic::Action> a;
    bool ok = true;
    try {a = parser.parse(line);}
    catch (const mathic::MathicException& x) {ok = false;}
    catch (const std::exception& x) {PFAIL("parsing " << show(line) << " ends with the unexpected exception " << x.what());}
    PCHECK(ok == (direct.size() <= 1 && !option), "the command line " << show(line) << " for help is " << (ok ? "accepted" : "rejected"));
    if (!ok) return;
    PCHECK(a.get() && a->isHelpAction(), show(line) << " does not select the help");
  }

  void commandLines(pbt::Src& s) {
    if (s.draw(8) == 7) helpLine(s);
    genSpecs(s, false);
    mathic::CliParser parser;
    std::vector<ActionRegistrar> reg;
    FillA<MaxActions + 1>::into(reg);
    Words an;
    for (size_t i = 0; i < gSpecs.size(); ++i) an.push_back(gSpecs[i].name);
    std::vector<size_t> order;
    for (size_t i = 0; i < gSpecs.size(); ++i) order.insert(order.begin() + s.draw(order.size() + 1), i);
    for (size_t i = 0; i < order.size(); ++i) reg[order[i]](parser, s.flag());
    for (size_t i = 0; i < gSpecs.size(); ++i) {
      std::string o = "action \"" + gSpecs[i].name + "\":";
      for (size_t k = 0; k < gSpecs[i].params.size(); ++k) o += " -" + gSpecs[i].params[k].name + "=" + valueText(gSpecs[i].params[k]);
      PLOG(s, o << " direct " << gSpecs[i].direct);
    }
    Words listed;
    parser.pushBackRegisteredActionNames(listed);
    Words sorted(an);
    std::sort(sorted.begin(), sorted.end());
    PCHECK(listed == sorted, "the registered actions are listed as " << show(listed));
    size_t accepted = 0, rejected = 0, withOptions = 0;
    for (pbt::List l(s, 8, 20, 40); l.next();) {
      Words line;
      if (s.draw(30) != 29) {
        line.push_back(genLookup(s, an));
        const Resolved r = resolve(an, line[0]);
        Words pn;
        std::vector<Type> types;
        size_t most = 1;
        if (!r.name.empty() || (!r.unknown && !r.ambiguous)) {
          const ActionSpec& a = gSpecs[std::find(an.begin(), an.end(), r.name) - an.begin()];
          for (size_t i = 0; i < a.params.size(); ++i) {pn.push_back(a.params[i].name); types.push_back(a.params[i].type);}
          most = std::max(a.direct, 0);
        }
        for (size_t n = s.draw(5) == 4 ? s.draw(most + 2) : s.draw(most + 1); n > 0; --n)
          line.push_back(draw(s, 6) == 5 ? "" : "d" + genValue(s, Words()));
        const uint64_t rare = pbt::huge ? 1 + s.draw(3000) : 12; // how rarely something is wrong
        for (size_t n = s.draw(pbt::huge ? 2000 : 5); n > 0; --n) {
          size_t k = pn.empty() ? 0 : draw(s, pn.size());
          std::string opt = "-" + (pn.empty() || draw(s, rare) == 11 ? genName(s, pn, true) : pn[k]);
          if (draw(s, pbt::huge ? rare : 4) == 3) opt.resize(1 + draw(s, opt.size()));
          line.push_back(opt);
          if (draw(s, 8) == 7) line.push_back("");
          const int type = types.empty() ? 2 : types[k];
          std::ostringstream v;
          switch (draw(s, pbt::huge ? rare : 8) == 7 ? static_cast<int>(draw(s, 5)) : type) {
          case Int: v << (draw(s, 2) == 0 ? draw(s, 100) : draw(s, 1ull << 31)); break;
          case Bool: if (draw(s, 3) != 0) v << (draw(s, 2) == 0 ? "on" : "off"); break;
          case String: if (draw(s, 2) == 0) v << "v" << genValue(s, pn); break;
          case 3: v << draw(s, ~0ull); break;
          default: v << "o" << (draw(s, 2) == 0 ? "N" : "");
          }
          if (!v.str().empty()) line.push_back(v.str());
          if (draw(s, rare) == 11) line.push_back("stray");
        }
      }
      PLOG(s, "parse " << show(line));
      const Expect e = expectOf(line);
      std::unique_ptr<mathic::Action> action;
      std::string error, kind;
      try {
        if (s.flag() || std::any_of(line.begin(), line.end(), cut)) action = parser.parse(line);
        else {
          Words copy(line);
          std::vector<char*> argv;
          for (size_t i = 0; i < copy.size(); ++i) argv.push_back(&copy[i][0]);
          argv.push_back(0);
          action = parser.parse(static_cast<int>(copy.size()), argv.data());
        }
      } catch (const mathic::UnknownNameException& x) {error = x.what(); kind = "unknown";}
      catch (const mathic::AmbiguousNameException& x) {error = x.what(); kind = "ambiguous";}
      catch (const mathic::MathicException& x) {error = x.what(); kind = "other";}
      catch (const std::exception& x) {PFAIL("parsing " << show(line) << " ends with the unexpected exception " << x.what());}
      if (!e.ok) {
        ++rejected;
        PCHECK(!kind.empty(), "the command line " << show(line) << " is accepted");
        PCHECK(e.errors.count(kind) || e.unspecified, "the command line " << show(line) << " is rejected with the error " << error);
        continue;
      }
      if (e.unspecified) continue;
      PCHECK(kind.empty(), "the command line " << show(line) << " is rejected: " << error);
      PCHECK(action.get() != 0, "the command line " << show(line) << " gives no action");
      ++accepted;
      TestActionBase& a = static_cast<TestActionBase&>(*action);
      PCHECK(!a.isHelpAction(), "the action \"" << a.name() << "\" says that it is the help");
      PCHECK(a.index == e.action, "the command line " << show(line) << " selects the action \"" << a.name() << "\" instead of \"" << gSpecs[e.action].name << "\"");
      if (gSpecs[a.index].direct >= 0) PCHECK(a.direct == e.direct, "the command line " << show(line) << " passes the direct parameters " << show(a.direct));
      for (size_t k = 0; k < e.values.size(); ++k) {
        const std::string v = valueText(*a.params[k], gSpecs[a.index].params[k].type);
        PCHECK(v == e.values[k], "the command line " << show(line) << " sets -" << a.params[k]->name() << " to \"" << v << "\" instead of \"" << e.values[k] << "\"");
        if (v != valueText(gSpecs[a.index].params[k])) ++withOptions;
      }
    }
    s.labelIf(accepted > 0, "accepted");
    s.labelIf(rejected > 0, "rejected");
    s.labelIf(withOptions > 0, "options set");
    if (accepted >= 1 && rejected >= 1 && withOptions >= 1) s.nontrivial();
  }

  // *** P24
  void parameters(pbt::Src& s) {
    gNulToo = false;
    const unsigned def = static_cast<unsigned>(s.draw(1ull << 31));
    const bool defB = s.flag();
    mathic::IntegerParameter ip("int", "an integer", def);
    mathic::BoolParameter bp("bool", "a truth value", defB);
    mathic::StringParameter sp("string", "a text", "initial");
    PCHECK(ip.value() == def && bp.value() == defB && sp.value() == "initial", "a parameter does not start at its default");
    PCHECK(ip.name() == "int" && ip.description() == "an integer", "a parameter does not have its name and description");
    PCHECK(!ip.argumentType().empty() && !bp.argumentType().empty() && !sp.argumentType().empty(), "no argument type");
    size_t good = 0, bad = 0;
    for (pbt::List l(s, 20, 50, 80); l.next();) {
      // a word
      std::ostringstream w;
      switch (s.draw(10)) {
      case 0: w << s.draw(100); break;
      case 1: w << s.draw(1ull << 33); break;
      case 2: w << (0x7fffffffull + s.draw(3)); break;
      case 3: w << (0xfffffffeull + s.draw(4)); break;
      case 4: {
        static const std::vector<std::string> words = {"", "on", "off", "On", "OFF", "o", "of", "onn", "offf", "true", "false", "0", "00", "1",
          "+1", "-0", "-1", "1.0", "1e3", "0x10", "1 ", " 1", "1a", "a1", "2147483647", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-4294967295"};
        w << s.pick(words);
        break;
      }
      case 5: for (size_t n = s.draw(s.draw(20) == 19 ? 5000 : 30); n > 0; --n) w << (n > 30 ? 7 : s.draw(10)); break;
      case 6: {
        static const char c[] = "0123456789+-. eonfx,\t\n";
        for (size_t n = s.draw(8); n > 0; --n) w << c[s.draw(sizeof(c) - 1)];
        break;
      }
      case 7: for (size_t n = s.draw(12); n > 0; --n) w << static_cast<char>(s.draw(256)); break;
      case 8: w << s.draw(~0ull); break;
      default: w << (s.flag() ? "on" : "off");
      }
      if (s.draw(40) == 39) w << '\0';
      const std::string word = w.str();
      const size_t which = s.draw(4);
      PLOG(s, "parameter " << which << " \"" << word << "\"");
      if (which == 0) {
        unsigned long long v = 0;
        const bool number = isNumber(word, v);
        bool ok = true;
        try {ip.processArgument(word);} catch (const mathic::MathicException&) {ok = false;}
        ++(ok ? good : bad);
        PCHECK(!ok || number, "the integer parameter accepts \"" << word << "\"");
        if (number && v < (1ull << 31)) PCHECK(ok, "the integer parameter rejects \"" << word << "\"");
        if (ok) {
          PCHECK(ip.value() == v, "the integer parameter stores " << word << " as " << ip.value());
          PCHECK(static_cast<unsigned>(ip) == v, "an integer parameter converts to another value");
          mathic::IntegerParameter back("back", "", 77);
          back.processArgument(ip.valueAsString());
          PCHECK(back.value() == v, "the integer parameter prints " << v << " as " << ip.valueAsString());
        } else {
          const unsigned x = static_cast<unsigned>(s.draw(1000));
          std::ostringstream o; o << x;
          ip.processArgument(o.str());
          PCHECK(ip.value() == x, "the integer parameter stores " << x << " as " << ip.value() << " after a rejected argument");
        }
      } else if (which == 1) {
        const bool on = word.empty() || word == "on", off = word == "off";
        bool ok = true;
        try {bp.processArgument(word);} catch (const mathic::MathicException&) {ok = false;}
        ++(ok ? good : bad);
        PCHECK(ok == (on || off), "the boolean parameter " << (ok ? "accepts" : "rejects") << " \"" << word << "\"");
        if (ok) {
          PCHECK(bp.value() == on, "the boolean parameter stores \"" << word << "\" as " << bp.value());
          PCHECK(static_cast<bool>(bp) == on, "a boolean parameter converts to another value");
          mathic::BoolParameter back("back", "", !on);
          back.processArgument(bp.valueAsString());
          PCHECK(back.value() == on, "the boolean parameter prints " << on << " as " << bp.valueAsString());
        }
      } else if (which == 2) {
        sp.processArgument(word);
        ++good;
        PCHECK(sp.value() == word && sp == word, "the string parameter stores \"" << word << "\" as \"" << sp.value() << "\"");
        PCHECK(static_cast<const std::string&>(sp) == word, "a string parameter converts to another value");
        mathic::StringParameter back("back", "", "other");
        back.processArgument(sp.valueAsString());
        PCHECK(back.value() == word, "the string parameter prints \"" << word << "\" as \"" << sp.valueAsString() << "\"");
      } else {
        const unsigned x = static_cast<unsigned>(s.draw(1ull << 32));
        ip = x;
        bp = x % 2 == 1;
        sp = word;
        std::ostringstream o; o << x;
        PCHECK(ip.value() == x && ip.valueAsString() == o.str(), "an integer parameter set to " << x << " is " << ip.valueAsString());
        PCHECK(bp.value() == (x % 2 == 1) && bp.valueAsString() == (x % 2 ? "on" : "off"), "a boolean parameter set to " << x % 2 << " is " << bp.valueAsString());
        PCHECK(sp.value() == word && sp.valueAsString() == word, "a string parameter set to \"" << word << "\" is \"" << sp.valueAsString() << "\"");
        bp.setValue(x % 2 == 0); ip.setValue(x / 2); sp.setValue(word + "x");
        PCHECK(bp.value() == (x % 2 == 0) && ip.value() == x / 2 && sp.value() == word + "x", "setValue does not set the value");
      }
    }
    ip.appendToDescription(" more");
    PCHECK(ip.description() == "an integer more", "appendToDescription gives \"" << ip.description() << "\"");
    if (good >= 2 && bad >= 1) s.nontrivial();
    s.labelIf(bad > 0, "rejected");
  }

  // *** P25
  // The words of the generated vocabulary, in order, without punctuation.
  Words vocabularyOf(const std::string& text) {
    Words all = split(text), w;
    for (size_t i = 0; i < all.size(); ++i) {
      std::string x = all[i];
      while (!x.empty() && (x[0] == '(' || x[0] == '"')) x.erase(0, 1);
      while (!x.empty() && (x.back() == ')' || x.back() == ',' || x.back() == '"')) x.pop_back();
      if (!x.empty() && (x[0] == 'q' || x[0] == 'x' || (x[0] == '-' && x.size() > 1 && x[1] == 'q'))) w.push_back(x);
    }
    return w;
  }
  Words without(const Words& w, char first) {
    Words r;
    for (size_t i = 0; i < w.size(); ++i) if (w[i][0] != first) r.push_back(w[i]);
    return r;
  }
  struct HelpTopic: mathic::HelpAction { // what derived classes see
    typedef const std::string& (mathic::HelpAction::*Topic)() const;
    static Topic get() {return &HelpTopic::topic;}
  };
  void help(pbt::Src& s) {
    genSpecs(s, true);
    mathic::CliParser parser;
    std::vector<ActionRegistrar> reg;
    FillA<MaxActions + 1>::into(reg);
    const std::string pre = prose(s, 40, true), post = prose(s, 40, true);
    const size_t where = s.draw(gSpecs.size() + 1);
    const bool own = s.flag(1, 4);
    for (size_t i = 0; i <= gSpecs.size(); ++i) {
      if (i == where) {
        if (own) parser.registerAction<mathic::HelpAction>("help");
        else parser.registerHelpAction(pre, post);
      }
      if (i < gSpecs.size()) reg[i](parser, s.flag());
    }
    if (!own) PCHECK(parser.helpPreMessage() == pre && parser.helpPostMessage() == post, "the messages of the help are not the given ones");
    Words an;
    for (size_t i = 0; i < gSpecs.size(); ++i) an.push_back(gSpecs[i].name);
    Words all(an);
    all.push_back("help");
    Words names;
    parser.pushBackRegisteredActionNames(names);
    std::sort(all.begin(), all.end());
    PCHECK(names == all, "the registered actions are listed as " << show(names));
    size_t generals = 0, topics = 0, unknowns = 0;
    for (pbt::List l(s, 4, 10, 20); l.next();) {
      Words line(1, s.flag() ? "help" : s.flag() ? "he" : "h");
      const bool topic = s.draw(3) != 0;
      if (topic) line.push_back(s.draw(6) == 5 ? std::string("help").substr(0, 1 + s.draw(4)) : s.draw(3) ? s.pick(an) : "x" + genLookup(s, an).substr(0, 3));
      PLOG(s, "parse " << show(line));
      std::unique_ptr<mathic::Action> a;
      if (s.draw(8) == 7) { // one topic only
        Words two(line);
        while (two.size() < 3) two.push_back(s.pick(an));
        bool ok = true;
        try {a = parser.parse(two);} catch (const mathic::MathicException&) {ok = false;}
        PCHECK(!ok, "asking for help on two topics with " << show(two) << " is accepted");
      }
      try {a = parser.parse(line);} catch (const std::exception& e) {PFAIL("asking for help with " << show(line) << " is rejected: " << e.what());}
      PCHECK(a.get() && a->isHelpAction() && std::string(a->name()) == "help", show(line) << " does not select the help");
      mathic::HelpAction* const h = dynamic_cast<mathic::HelpAction*>(a.get());
      PCHECK(h, "the help is no HelpAction");
      PCHECK((h->*HelpTopic::get())() == (topic ? line[1] : ""), "the topic of the help is \"" << (h->*HelpTopic::get())() << "\" for " << show(line));
      Capture c;
      std::string error;
      try {a->performAction();}
      catch (const mathic::UnknownNameException& e) {error = "unknown";}
      catch (const mathic::AmbiguousNameException& e) {error = "ambiguous";}
      catch (const std::exception& e) {error = e.what();}
      const std::string out = c.stop();
      Words got = vocabularyOf(out);
      if (!topic) {
        ++generals;
        PCHECK(error.empty(), "the general help fails: " << error);
        Words want = own ? Words() : split(pre);
        for (size_t i = 0; i < all.size(); ++i) {
          if (all[i] == "help") continue;
          want.push_back(all[i]);
          const ActionSpec& spec = gSpecs[std::find(an.begin(), an.end(), all[i]) - an.begin()];
          const Words d = split(spec.shortDescription);
          want.insert(want.end(), d.begin(), d.end());
        }
        if (!own) {const Words p = split(post); want.insert(want.end(), p.begin(), p.end());}
        PCHECK(got == want, "the general help has the words " << show(got) << " instead of " << show(want) << ":\n" << out);
        Words words = split(out);
        PCHECK(std::find(words.begin(), words.end(), "help") != words.end(), "the general help does not list the help action:\n" << out);
      } else {
        const Resolved r = resolve(all, line[1]);
        if (r.unknown || r.ambiguous) {
          ++unknowns;
          PCHECK(error == (r.unknown ? "unknown" : "ambiguous"), "help on " << line[1] << " ends with "
            << (error.empty() ? "no error" : error) << " although the topic is " << (r.unknown ? "unknown" : "ambiguous"));
          continue;
        }
        ++topics;
        PCHECK(error.empty(), "help on " << line[1] << " fails: " << error);
        PCHECK(std::string(out).find(r.name) != std::string::npos, "the help on " << r.name << " does not name it:\n" << out);
        if (r.name == "help") {
          const Words w = split(out), d = split(a->description());
          PCHECK(std::search(w.begin(), w.end(), d.begin(), d.end()) != w.end(), "the help on help does not have its description:\n" << out);
          continue;
        }
        const ActionSpec& spec = gSpecs[std::find(an.begin(), an.end(), r.name) - an.begin()];
        Words want = split(spec.description);
        std::vector<ParamSpec> ps(spec.params);
        std::sort(ps.begin(), ps.end(), [](const ParamSpec& x, const ParamSpec& y) {return x.name < y.name;});
        for (size_t i = 0; i < ps.size(); ++i) {
          want.push_back("-" + ps[i].name);
          if (ps[i].type == String) {const Words t = split(ps[i].text); want.insert(want.end(), t.begin(), t.end());}
          const Words d = split(ps[i].description);
          want.insert(want.end(), d.begin(), d.end());
        }
        PCHECK(without(got, 'x') == want, "the help on " << r.name << " has the words " << show(without(got, 'x')) << " instead of " << show(want) << ":\n" << out);
        // the types and values
        std::istringstream lines(out);
        std::map<std::string, Words> byOption;
        for (std::string ln; std::getline(lines, ln);) {
          const Words w = split(ln);
          if (!w.empty() && w[0][0] == '-') {
            std::string flat;
            for (size_t i = 0; i < ln.size(); ++i) flat += ln[i] == '(' || ln[i] == ')' ? ' ' : ln[i];
            byOption[w[0]] = split(flat);
          }
        }
        for (size_t i = 0; i < ps.size(); ++i) {
          const Words& w = byOption["-" + ps[i].name];
          const std::string type = ps[i].type == Int ? "INTEGER" : ps[i].type == Bool ? "[BOOL]" : "STRING";
          PCHECK(w.size() >= 2 && w[1] == type, "the help on " << r.name << " does not give the type of -" << ps[i].name << ":\n" << out);
          const Words v = split(valueText(ps[i]));
          PCHECK(w.size() >= v.size() && std::equal(v.rbegin(), v.rend(), w.rbegin()), "the help on " << r.name << " does not give "
            << valueText(ps[i]) << " as the default of -" << ps[i].name << ":\n" << out);
        }
      }
    }
    s.labelIf(generals > 0, "general help");
    s.labelIf(topics > 0, "help on an action");
    s.labelIf(unknowns > 0, "unknown topic");
    if (generals + topics >= 2) s.nontrivial();
  }
}
#if FOCUS == 22 || FOCUS == 32
PBT_VARIANT("names", 2, names);
#endif
#if FOCUS == 23 || FOCUS == 32
PBT_VARIANT("command lines", 2, commandLines);
#endif
#if FOCUS == 24 || FOCUS == 32
PBT_VARIANT("parameters", 1, parameters);
#endif
#if FOCUS == 25 || FOCUS == 32
PBT_VARIANT("help", 1, help);
#endif
