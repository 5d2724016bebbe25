#include "yaml_gen.h"
#include "yaml-serializable.h"

SERIALIZABLE_ENUM(Colour, red, green, blue, dark_red)
SERIALIZABLE_ENUM(Shape, Box, Ball, Rod, Unknown)

static std::vector<std::string>& trace() { static std::vector<std::string> t; return t; }

struct Leaf { int a = 3; double x = 0.5; std::string s = "dflt"; Colour col = Colour::blue; bool on = true; };
static bool operator==(const Leaf& l, const Leaf& r) { return l.a == r.a && l.x == r.x && l.s == r.s && l.col == r.col && l.on == r.on; }
IMPL_YAML_SERIALIZABLE_FOR(Leaf, a, x, s, col, on)

struct Bag {
    std::vector<int> vi; std::vector<double> vd; std::vector<std::string> vs; std::vector<Colour> vc; std::vector<Leaf> vl;
    std::set<int> si; std::set<std::string> ss; std::set<Colour> sc;
    std::optional<int> oi; std::optional<Leaf> ol; std::optional<std::vector<int>> ov; std::optional<std::string> os;
    std::shared_ptr<Leaf> pl = std::make_shared<Leaf>(); 
    std::array<int, 3> ai = {{1, 2, 3}}; double ad[2] = {0, 1}; std::array<Leaf, 2> al;
    std::vector<std::vector<int>> vv; std::vector<std::shared_ptr<Leaf>> vp;
    float f = 0; long l = 0; size_t z = 0; unsigned u = 0; char ch = 'q'; short sh = 0; Leaf in;
};
IMPL_YAML_SERIALIZABLE_FOR(Bag, vi, vd, vs, vc, vl, si, ss, sc, oi, ol, ov, os, pl, ai, ad, al, vv, vp, f, l, z, u, ch, sh, in)

static bool eq(const Bag& p, const Bag& q, std::string& why)
{
#define CMP(e) if (!(p.e == q.e)) { why = #e; return false; }
    CMP(vi) CMP(vd) CMP(vs) CMP(vc) CMP(vl) CMP(si) CMP(ss) CMP(sc) CMP(oi) CMP(ol) CMP(ov) CMP(os) CMP(ai) CMP(ad[0]) CMP(ad[1]) CMP(al) CMP(vv) CMP(f) CMP(l) CMP(z) CMP(u) CMP(ch) CMP(sh) CMP(in)
    if (!(*p.pl == *q.pl)) { why = "pl"; return false; }
    if (p.vp.size() != q.vp.size()) { why = "vp size"; return false; }
    for (size_t i = 0; i < p.vp.size(); i++) if (!(*p.vp[i] == *q.vp[i])) { why = "vp item"; return false; }
    return true;
}
static double dbl(Case& c) { switch (c.weighted({3, 2, 2, 1})) { case 0: return (double)c.i(-100, 100) / 8; case 1: return c.sgn() * c.logreal(1e-12, 1e12); case 2: return c.real(-1, 1); default: return c.sgn() * c.logreal(1e-290, 1e290); } }
static std::string str(Case& c) { return c.chance(1, 12) ? "" : c.chance(1, 4) ? line_text(c, true, true, 3) : line_text(c, false, false, 3); }
static std::string nestr(Case& c) { return line_text(c, c.chance(1, 4), false, 2); }
static Colour col(Case& c) { return (Colour)c.draw(3); }
static Leaf leaf(Case& c) { Leaf l; l.a = (int)c.i(-2147483647, 2147483647); l.x = dbl(c); l.s = str(c); l.col = col(c); l.on = c.flip(); return l; }
static Bag bag(Case& c)
{
    Bag b; size_t n;
    for (n = c.n(0, 4); n--;) b.vi.push_back((int)c.i(-1000, 1000)); for (n = c.n(0, 3); n--;) b.vd.push_back(dbl(c)); for (n = c.n(0, 3); n--;) b.vs.push_back(str(c));
    for (n = c.n(0, 3); n--;) b.vc.push_back(col(c)); for (n = c.n(0, 2); n--;) b.vl.push_back(leaf(c)); for (n = c.n(0, 4); n--;) b.si.insert((int)c.i(-50, 50));
    for (n = c.n(0, 3); n--;) b.ss.insert(nestr(c)); for (n = c.n(0, 3); n--;) b.sc.insert(col(c));
    if (c.flip()) b.oi = (int)c.i(-9, 9); if (c.flip()) b.ol = leaf(c); if (c.flip()) { b.ov = std::vector<int>(); for (n = c.n(0, 3); n--;) b.ov->push_back((int)c.i(0, 9)); } if (c.flip()) b.os = nestr(c);
    *b.pl = leaf(c); for (auto& v : b.ai) v = (int)c.i(-99, 99); for (auto& v : b.ad) v = dbl(c); for (auto& v : b.al) v = leaf(c);
    for (n = c.n(0, 3); n--;) { b.vv.emplace_back(); for (size_t k = c.n(0, 3); k--;) b.vv.back().push_back((int)c.i(-9, 9)); }
    for (n = c.n(0, 2); n--;) b.vp.push_back(std::make_shared<Leaf>(leaf(c)));
    b.f = (float)dbl(c); if (!std::isfinite(b.f) || (b.f != 0 && std::fabs(b.f) < 1e-37f)) b.f = 1.1f; b.l = (long)c.draw(UINT64_MAX) >> c.n(0, 40); b.z = c.draw(UINT64_MAX) >> c.n(0, 40); b.u = (unsigned)c.draw(4294967295u);
    b.ch = WORD[c.draw(WORD.size() - 1)]; b.sh = (short)c.i(-32768, 32767); b.in = leaf(c);
    return b;
}

PBT_PROP(object_round_trip)
{
    Bag b = bag(c); std::string s = Yaml::to_string(b), why; c.desc(s);
    Bag r = Yaml::from_string<Bag>(s); PBT_REQUIRE(eq(b, r, why), "field ", why, " differs after reading back\n", s, "\nnow\n", Yaml::to_string(r));
    Bag t = Yaml::from_string_strict<Bag>(s); PBT_REQUIRE(eq(b, t, why), "field ", why, " differs after strict reading\n", s);
    Bag other = bag(c); other.oi.reset(); other.ol.reset(); other.ov.reset(); other.os.reset();   // fields without text keep their value
    Yaml::from_string(s, other); PBT_REQUIRE(eq(b, other, why), "field ", why, " differs after reading into a used object\n", s);
    PBT_REQUIRE(Yaml::to_string(r) == s, "writing again gives other text");
    std::string f = pbt::tmpdir() + "/o" + std::to_string(getpid()) + ".yaml"; { std::ofstream o(f); o << s; }
    Bag q = Yaml::from_file<Bag>(f); PBT_REQUIRE(eq(b, q, why), "field ", why, " differs after reading the file");
    Bag q2 = Yaml::from_file_strict<Bag>(f); PBT_REQUIRE(eq(b, q2, why), "field ", why, " differs after strict reading of the file"); 
    Bag q3; Yaml::from_file(f, q3); PBT_REQUIRE(eq(b, q3, why), "field ", why, " (from_file into object)"); Bag q4; Yaml::from_file_strict(f, q4); PBT_REQUIRE(eq(b, q4, why), "field ", why, " (from_file_strict into object)"); unlink(f.c_str());
    if (b.vi.size() && b.vl.size()) c.nontrivial();
}
PBT_PROP(partial_and_lists)
{   // absent fields keep their values; bracketed and block lists mean the same; blanks in brackets do not matter
    Bag b = bag(c), d = bag(c); std::string why;
    std::string s; auto sp = [&] { return std::string(c.n(0, 2), ' '); };
    auto block = [&](const std::string& k, const std::vector<std::string>& v) { s += k + ":\n"; for (auto& x : v) s += "  - " + x + "\n"; };
    auto brack = [&](const std::string& k, const std::vector<std::string>& v) { s += k + ": [" + sp(); for (size_t i = 0; i < v.size(); i++) s += (i ? "," + sp() : "") + v[i] + sp(); s += "]\n"; };
    auto list = [&](const std::string& k, const std::vector<std::string>& v) { if (c.flip() && v.size()) block(k, v); else brack(k, v); };
    Bag e = d; std::vector<std::string> t; size_t used = 0;
    if (c.flip()) { used++; t.clear(); for (int x : b.vi) t.push_back(std::to_string(x)); list("vi", t); e.vi = b.vi; }
    if (c.flip()) { used++; t.clear(); for (auto x : b.vc) t.push_back(to_string(x)); list("vc", t); e.vc = b.vc; }
    if (c.flip()) { used++; t.clear(); e.sc = b.sc; for (auto x : b.sc) t.push_back(to_string(x)); list("sc", t); }
    if (c.flip()) { used++; t.clear(); e.si = b.si; for (auto x : b.si) t.push_back(std::to_string(x)); list("si", t); }
    if (c.flip()) { used++; t.clear(); e.ai = b.ai; for (auto x : b.ai) t.push_back(std::to_string(x)); list("ai", t); }
    if (c.flip()) { used++; t.clear(); e.vs.clear(); for (size_t n = c.n(0, 3); n--;) { std::string w = chars(c, "abcXYZ_019.", 1, 6); e.vs.push_back(w); t.push_back(w); } list("vs", t); }
    if (c.flip()) { used++; t.clear(); e.ov = std::vector<int>(); for (size_t n = c.n(0, 3); n--;) { int w = (int)c.i(-9, 9); e.ov->push_back(w); t.push_back(std::to_string(w)); } list("ov", t); }
    if (c.flip()) { used++; t.clear(); e.vv = b.vv; if (b.vv.size()) { s += "vv:\n"; for (auto& q : b.vv) { s += "  - ["; for (size_t i = 0; i < q.size(); i++) s += (i ? ", " : "") + std::to_string(q[i]); s += "]\n"; } } else s += "vv: []\n"; }
    if (c.flip()) { used++; s += "sh: " + std::to_string(b.sh) + "\n"; e.sh = b.sh; }
    if (c.flip()) { used++; s += "in:\n  a: 12\n"; e.in.a = 12; }     // nested partial
    if (c.flip()) { used++; s += std::string("unknown_field: 1\nother:\n  - x\n"); }
    if (s.empty()) s = "unknown: 1\n";
    c.desc(s); Bag g = d; Yaml::from_string(s, g);
    PBT_REQUIRE(eq(e, g, why), "field ", why, " is not what the text says (or an absent field changed)\n", s, "\nread as\n", Yaml::to_string(g));
    if (used > 2) c.nontrivial();
}
struct P1 { int a = 0; std::string b = "x"; }; IMPL_YAML_SERIALIZABLE_FOR(P1, a, b)
struct P2 { int a = 0; std::vector<int> v; Colour k = Colour::red; }; IMPL_YAML_SERIALIZABLE_FOR(P2, a, v, k)
PBT_PROP(several_objects)
{
    P1 p; P2 q; p.a = (int)c.i(-99, 99); p.b = nestr(c); q.a = c.flip() ? p.a : (int)c.i(-99, 99); for (size_t n = c.n(0, 3); n--;) q.v.push_back((int)c.i(0, 9)); q.k = col(c);
    std::string s = Yaml::to_string(p, q); c.desc(s); P1 p2; P2 q2; Yaml::from_string(s, p2, q2);
    PBT_REQUIRE(p2.b == p.b && q2.v == q.v && q2.k == q.k, s); PBT_REQUIRE(q2.a == q.a && p2.a == q.a, "the last object's field must win", s);
    P1 p3; P2 q3; Yaml::from_string_strict(s, p3, q3); PBT_REQUIRE(p3.b == p.b && q3.v == q.v && q3.k == q.k && p3.a == q.a && q3.a == q.a, s);
    bool t = false; try { P1 z; Yaml::from_string_strict(s, z); } catch (Yaml::ConfigurationException&) { t = true; }
    PBT_REQUIRE(t, "strict loading of only one object must refuse the other object's fields\n", s);
    if (q.v.size()) c.nontrivial();
}

// ------------------------------------------------------------------ C06
struct Hb : Yaml::DerivedFields, Yaml::ValidatedYaml { int n = 0; std::optional<int> m; int dv = 0; void derive() { trace().push_back("dB"); dv = n * 2; } void validate() { trace().push_back("vB"); if (dv != n * 2) throw Yaml::ConfigurationException("derive did not run first"); if (n > 900) throw Yaml::ConfigurationException("n too large", "n"); } };
YAML_ADD_REQUIRED_FIELDS_FOR(Hb, n)
IMPL_YAML_SERIALIZABLE_FOR(Hb, n, m)
struct Hd : Hb { int q = 0; int dq = 0; Colour c = Colour::red; void derive() { trace().push_back("dD"); if (dv != n * 2) throw Yaml::ConfigurationException("base was not finished first"); dq = dv + q; } void validate() { trace().push_back("vD"); if (dq != dv + q) throw Yaml::ConfigurationException("derive did not run first"); if (q > 900) throw Yaml::ConfigurationException("q too large", "q"); } };
YAML_ADD_REQUIRED_FIELDS_FOR(Hd, q)
IMPL_YAML_SERIALIZABLE_WITH_BASE(Hd, Hb, q, c)
struct Hn : Hb { int r = 0; }; // inherits both hooks: they must run once only
IMPL_YAML_SERIALIZABLE_WITH_BASE(Hn, Hb, r)
struct Hv { int w = 0; void validate() { trace().push_back("vV"); } }; IMPL_YAML_SERIALIZABLE_FOR(Hv, w)
struct Hdd : Hd { int t = 0; void derive() { trace().push_back("dE"); } }; IMPL_YAML_SERIALIZABLE_WITH_BASE(Hdd, Hd, t)
struct Top { std::vector<Hd> list; std::optional<Hd> opt; std::shared_ptr<Hd> ptr; std::array<Hn, 2> two; Hn one; std::vector<Hv> v; Hdd e; std::vector<Colour> cols; double xs[2] = {0, 0}; };
struct Holder { std::vector<Hd> list; std::optional<Hd> opt; std::array<Hn, 2> two; Hn one; std::vector<Hv> v; Hdd e; std::vector<Colour> cols; double xs[2] = {0, 0}; };
YAML_ADD_REQUIRED_FIELDS_FOR(Holder, one)
IMPL_YAML_SERIALIZABLE_FOR(Holder, list, opt, two, one, v, e, cols, xs)

// a document for Holder as a tree, with the hooks it must trigger
static Tree S(const std::string& s) { return Tree::scalar(s); }
static Tree mp(std::vector<std::pair<std::string, Tree>> v) { Tree t; t.k = Tree::Map; t.map = v; return t; }
static Tree sq(std::vector<Tree> v) { Tree t; t.k = Tree::Seq; t.seq = v; return t; }
static std::string num(Case& c) { return std::to_string(c.i(0, 900)); }
static Tree hd(Case& c) { Tree t = mp({{"n", S(num(c))}, {"q", S(num(c))}}); if (c.flip()) t.map.push_back({"m", S(num(c))}); if (c.flip()) t.map.push_back({"c", S(to_string(col(c)))}); return t; }
static Tree hn(Case& c) { Tree t = mp({{"n", S(num(c))}}); if (c.flip()) t.map.push_back({"r", S(num(c))}); return t; }
static Tree holder(Case& c, std::vector<std::string>& hooks)
{
    Tree t; t.k = Tree::Map; auto add = [&](std::initializer_list<const char*> h) { for (auto x : h) hooks.push_back(x); };
    // hooks are listed in field order: list, opt, two, one, v, e
    size_t nl = c.n(0, 3); if (nl || c.flip()) { std::vector<Tree> v; for (size_t i = 0; i < nl; i++) { v.push_back(hd(c)); add({"dB", "vB", "dD", "vD"}); } if (nl) t.map.push_back({"list", sq(v)}); }
    if (c.flip()) { t.map.push_back({"opt", hd(c)}); add({"dB", "vB", "dD", "vD"}); }
    if (c.flip()) { t.map.push_back({"two", sq({hn(c), hn(c)})}); add({"dB", "vB", "dB", "vB"}); }
    t.map.push_back({"one", hn(c)}); add({"dB", "vB"});
    if (c.flip()) { std::vector<Tree> v; for (size_t n = c.n(1, 3); n--;) { v.push_back(mp({{"w", S(num(c))}})); add({"vV"}); } t.map.push_back({"v", sq(v)}); }
    if (c.flip()) { Tree e = hd(c); e.map.push_back({"t", S(num(c))}); t.map.push_back({"e", e}); add({"dB", "vB", "dD", "vD", "dE"}); }
    if (c.flip()) { std::vector<Tree> v; for (size_t n = c.n(1, 4); n--;) v.push_back(S(to_string(col(c)))); t.map.push_back({"cols", sq(v)}); }
    if (c.flip()) t.map.push_back({"xs", sq({S("1.5"), S("2")})});
    return t;
}
static std::string text_of(const Tree& t) { Yaml::Node n; build<YL>(n, t); std::string s; Yaml::Serialize(n, s, {2, 0, false, false}); return s; }
static std::string load(const std::string& s, bool strict)
{
    trace().clear();
    try { if (strict) Yaml::from_string_strict<Holder>(s); else Yaml::from_string<Holder>(s); return ""; }
    catch (Yaml::ConfigurationException& e) { return std::string("! ") + e.what(); }
}
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
PBT_PROP(hooks_once)
{
    std::vector<std::string> want; Tree t = holder(c, want); std::string s = text_of(t); c.desc(s + join(want));
    for (int strict = 0; strict < 2; strict++) {
        std::string e = load(s, strict); PBT_REQUIRE(e.empty(), strict ? "strict: " : "", "valid document refused: ", e, "\n", s);
        PBT_REQUIRE(trace() == want, strict ? "strict loading" : "loading", ": hooks ran as ", join(trace()), " instead of ", join(want), "\n", s);
    }
    if (want.size() > 6) c.nontrivial();
}
// every map in the tree with its path
static void maps(Tree& t, const std::string& path, std::vector<std::pair<Tree*, std::string>>& out)
{
    if (t.k == Tree::Map) { out.push_back({&t, path}); for (auto& p : t.map) maps(p.second, path.empty() ? p.first : path + "." + p.first, out); }
    if (t.k == Tree::Seq) for (size_t i = 0; i < t.seq.size(); i++) maps(t.seq[i], path + ".<" + std::to_string(i) + ">", out);
}
PBT_PROP(strict_unknown_field)
{
    std::vector<std::string> h; Tree t = holder(c, h); std::vector<std::pair<Tree*, std::string>> m; maps(t, "", m);
    auto& at = m[c.draw(m.size() - 1)]; std::string k = c.pick({std::string("nn"), std::string("unknown"), std::string("lists"), std::string("Q"), std::string("zz")});
    Tree v = c.draw(2) == 0 ? S("1") : c.flip() ? sq({S("1")}) : mp({{"n", S("1")}});
    at.first->map.insert(at.first->map.begin() + c.n(0, at.first->map.size()), {k, v});
    std::string path = at.second, s = text_of(t); c.desc(s + "unknown " + k + " at " + path);
    std::string p = load(s, false); PBT_REQUIRE(p.empty(), "ordinary loading must ignore an unknown field: ", p);
    std::string e = load(s, true); PBT_REQUIRE(!e.empty(), "strict loading accepted the unknown field ", path, ".", k, "\n", s);
    PBT_REQUIRE(e.find(k) != std::string::npos, "the message does not name the field: ", e);
    if (!path.empty()) PBT_REQUIRE(e.find("Error in field " + path + ":") != std::string::npos, "the message does not give the path ", path, ": ", e);
    PBT_REQUIRE(trace().empty(), "a strictly refused document must not run hooks: ", join(trace()));
    if (!path.empty()) { c.nontrivial(); c.label("nested"); }
}
PBT_PROP(missing_required)
{
    std::vector<std::string> h; Tree t = holder(c, h); std::vector<std::pair<Tree*, std::string>> m; maps(t, "", m);
    auto& at = m[c.draw(m.size() - 1)]; std::string gone;
    for (auto k : {"one", "n", "q"}) { for (size_t i = 0; i < at.first->map.size(); i++) if (at.first->map[i].first == k) { gone = k; at.first->map.erase(at.first->map.begin() + i); break; } if (!gone.empty()) break; }
    if (gone.empty()) c.discard();
    std::string path = at.second; if (at.first->map.empty()) { at.first->map.push_back({"unused", S("1")}); }
    std::string s = text_of(t); c.desc(s + "missing " + gone + " at " + path);
    bool strict = c.flip(); std::string e = load(s, strict);
    PBT_REQUIRE(!e.empty(), "a document without the required field ", path, ".", gone, " was accepted\n", s);
    PBT_REQUIRE(e.find("`" + gone + "`") != std::string::npos, "the message does not name the field ", gone, ": ", e);
    if (!path.empty()) PBT_REQUIRE(e.find("Error in field " + path + ":") != std::string::npos, "the message does not give the path ", path, ": ", e);
    c.nontrivial(); c.label(gone);
}
PBT_PROP(bad_values)
{
    std::vector<std::string> h; Tree t = holder(c, h); std::vector<std::pair<Tree*, std::string>> m; maps(t, "", m); std::string path, must, why;
    auto set = [&](Tree* o, const std::string& k, const Tree& v) { if (Tree* f = o->find(k)) *f = v; else o->map.push_back({k, v}); };
    std::vector<std::pair<Tree*, std::string>> cand;
    size_t kind = c.draw(5);
    if (kind == 0) { // unknown enum name in a list
        why = "enum in list"; size_t n = c.n(1, 5), bad = c.draw(n - 1); std::vector<Tree> v; std::string w = c.pick({std::string("Red"), std::string("purple"), std::string("redd"), std::string("re"), std::string("1")});
        bool br = c.flip(); std::string b = "["; for (size_t i = 0; i < n; i++) { std::string x = i == bad ? w : to_string(col(c)); v.push_back(S(x)); b += (i ? ", " : "") + x; } b += "]";
        set(&t, "cols", br ? S(b) : sq(v)); path = "cols.<" + std::to_string(bad) + ">"; must = w;
    } else if (kind == 1) { // wrong fixed length
        why = "fixed length"; size_t n = c.pick({size_t(1), size_t(3), size_t(4)}); std::vector<Tree> v; for (size_t i = 0; i < n; i++) v.push_back(S("1.0"));
        if (c.flip()) { set(&t, "xs", sq(v)); path = "xs"; } else { std::vector<Tree> w; for (size_t i = 0; i < n; i++) w.push_back(hn(c)); set(&t, "two", sq(w)); path = "two"; } must = std::to_string(n);
    } else if (kind == 2) { // scalar where a list is needed
        why = "no list"; path = c.pick({std::string("list"), std::string("cols"), std::string("xs"), std::string("v")}); set(&t, path, S(c.pick({std::string("5"), std::string("abc"), std::string("[1, 2"), std::string("1, 2]"), std::string("(1,2)")}))); must = "list";
    } else if (kind == 5) { // text that is no number
        why = "number"; must = c.pick({std::string("abc"), std::string("x5"), std::string("one"), std::string("-"), std::string("1.5q")});
        bool f = must == "1.5q" || c.flip();  // whole numbers may be followed by text
        if (f) { size_t k = c.draw(1); std::vector<Tree> v{S("1.5"), S("2")}; v[k] = S(must); set(&t, "xs", sq(v)); path = "xs.<" + std::to_string(k) + ">"; }
        else { for (auto& x : m) if (x.first->find("q") || x.first->find("n")) cand.push_back(x); auto& x = cand[c.draw(cand.size() - 1)]; std::string k = x.first->find("q") && c.flip() ? "q" : "n"; set(x.first, k, S(must)); path = x.second + "." + k; }
    } else { // refused by the object's own validation / enum in an object
        bool en = kind == 4; why = en ? "enum" : "validate";
        for (auto& x : m) { bool D = x.first->find("q"), B = x.first->find("n"); if (en ? D : (D || B)) cand.push_back(x); }
        if (cand.empty()) c.discard(); auto& x = cand[c.draw(cand.size() - 1)];
        if (en) { set(x.first, "c", S("mauve")); path = x.second + ".c"; must = "mauve"; }
        else { std::string k = x.first->find("q") && c.flip() ? "q" : "n"; set(x.first, k, S("901")); path = x.second + "." + k; must = "too large"; }
    }
    std::string s = text_of(t); c.desc(s + why + " at " + path); bool strict = c.flip();
    std::string e = load(s, strict);
    PBT_REQUIRE(!e.empty(), why, " at ", path, " accepted\n", s);
    PBT_REQUIRE(e.find("Error in field " + path + ":") != std::string::npos, "the message does not give the path ", path, ": ", e);
    PBT_REQUIRE(e.find(must) != std::string::npos, "the message does not mention ", must, ": ", e);
    if (why.substr(0, 4) == "enum") PBT_REQUIRE(e.find("{blue, dark_red, green, red}") != std::string::npos, "allowed values are not listed: ", e);
    c.nontrivial(); c.label(why);
}
PBT_PROP(strict_shape)
{   // a value of another shape than the object has, or more list items than it holds, is refused by strict loading
    P2 p; (void)p; std::string s, e; size_t k = c.draw(1);
    if (k == 0) { s = "a:\n  sub: 1\nk: red\n"; } else { s = "a:\n  - 1\n  - 2\n"; }
    c.desc(s); try { Yaml::from_string_strict<P2>(s); } catch (Yaml::ConfigurationException& x) { e = x.what(); }
    PBT_REQUIRE(!e.empty(), "accepted strictly: ", s); c.nontrivial();
}
PBT_PROP(enum_names)
{
    Colour v = col(c), w = Colour::red; std::string s = to_string(v); from_string(s, w); PBT_REQUIRE(v == w, s);
    std::stringstream ss; ss << v; PBT_REQUIRE(ss.str() == s); Colour z = Colour::red; ss >> z; PBT_REQUIRE(z == v);
    static const char* names[] = {"red", "green", "blue", "dark_red"}; PBT_REQUIRE(s == names[(int)v]);
    std::string o = c.chance(1, 2) ? chars(c, "redgnblu_kaR", 0, 8) : s + chars(c, " x_", 0, 2); bool known = false; for (auto n : names) known |= o == n;
    c.desc(o); bool t = false; try { from_string(o, w); } catch (Yaml::ConfigurationException&) { t = true; }
    PBT_REQUIRE(t == !known, "name '", o, "' ", t ? "refused" : "accepted"); c.nontrivial();
}

// ------------------------------------------------------------------ C07
struct Vol : Yaml::TypeDiscriminated<Vol, Shape>, Yaml::DerivedFields { std::string name = "v"; int id = 0; int seen = 0; void derive() { seen++; base_runs()++; } static int& base_runs() { static int n = 0; return n; } };
YAML_ADD_REQUIRED_FIELDS_FOR(Vol, id)
IMPL_YAML_SERIALIZABLE_FOR(Vol, type, name, id)
struct BoxV : Vol::Register<BoxV, Shape::Box> { double w = 1, h = 1; std::vector<int> tags; }; IMPL_YAML_SERIALIZABLE_WITH_BASE(BoxV, Vol, w, h, tags)
struct BallV : Vol::Register<BallV, Shape::Ball> { double r = 1; int extra = 0; void derive() { extra = id + 1; } }; YAML_ADD_REQUIRED_FIELDS_FOR(BallV, r) IMPL_YAML_SERIALIZABLE_WITH_BASE(BallV, Vol, r)
struct RodV : Vol::Register<RodV, Shape::Rod> { Colour c = Colour::red; Leaf inner; }; IMPL_YAML_SERIALIZABLE_WITH_BASE(RodV, Vol, c, inner)
struct Scene { std::vector<std::shared_ptr<Vol>> vols; std::shared_ptr<Vol> main; };
IMPL_YAML_SERIALIZABLE_FOR(Scene, vols, main)
static std::string sig(Vol* v)
{
    std::string o = "none"; if (!v) return o;
    bool ok = v->try_apply([&](BoxV& b) { o = pbt::cat("box ", b.w, " ", b.h, " ", b.tags.size()); for (int t : b.tags) o += "," + std::to_string(t); }, [&](BallV& b) { o = pbt::cat("ball ", b.r); }, [&](RodV& b) { o = pbt::cat("rod ", to_string(b.c), b.inner.a, b.inner.x, b.inner.s); });
    if (!ok) o = "base"; return o + pbt::cat(" ", v->name, " ", v->id, " ", to_string(v->type));
}
static std::shared_ptr<Vol> vol(Case& c)
{
    std::shared_ptr<Vol> p; switch (c.draw(2)) {
    case 0: { auto b = std::make_shared<BoxV>(); b->w = dbl(c); b->h = dbl(c); for (size_t n = c.n(0, 3); n--;) b->tags.push_back((int)c.i(0, 9)); p = b; break; }
    case 1: { auto b = std::make_shared<BallV>(); b->r = dbl(c); p = b; break; }
    default: { auto b = std::make_shared<RodV>(); b->c = col(c); b->inner = leaf(c); p = b; } }
    p->name = nestr(c); p->id = (int)c.i(0, 999); return p;
}
PBT_PROP(discriminated_round_trip)
{
    Scene s; for (size_t n = c.n(0, 4); n--;) s.vols.push_back(vol(c)); s.main = vol(c); std::string t = Yaml::to_string(s); c.desc(t);
    for (int k = 0; k < 2; k++) {
        Scene r = k ? Yaml::from_string_strict<Scene>(t) : Yaml::from_string<Scene>(t);
        PBT_REQUIRE(r.vols.size() == s.vols.size(), "number of objects"); for (size_t i = 0; i < s.vols.size(); i++) PBT_REQUIRE(sig(r.vols[i].get()) == sig(s.vols[i].get()), "object ", i, " came back as ", sig(r.vols[i].get()), " instead of ", sig(s.vols[i].get()));
        PBT_REQUIRE(sig(r.main.get()) == sig(s.main.get()), "came back as ", sig(r.main.get()));
        auto all = r.vols; all.push_back(r.main); for (auto& v : all) { PBT_REQUIRE(v->seen == 1, "base hook ran ", v->seen, " times for ", sig(v.get())); if (auto b = dynamic_cast<BallV*>(v.get())) PBT_REQUIRE(b->extra == b->id + 1, "derived hook did not run"); }
        PBT_REQUIRE(Yaml::to_string(r) == t, "writing again gives other text");
    }
    std::unique_ptr<Vol> u; Yaml::from_string(Yaml::to_string(s.main), u); PBT_REQUIRE(sig(u.get()) == sig(s.main.get()), "unique_ptr: ", sig(u.get()));
    if (s.vols.size() > 1) c.nontrivial();
}
PBT_PROP(discriminated_errors)
{
    auto v = vol(c); std::string t = Yaml::to_string(v), e; std::unique_ptr<Vol> u; size_t k = c.draw(3); std::string s; std::istringstream in(t); std::string l;
    std::string drop = k == 0 ? "type:" : k == 1 ? "id:" : "", must = k == 0 ? "`type`" : k == 1 ? "`id`" : "";
    std::string nt = k == 2 ? "Unknown" : "Blob";
    while (std::getline(in, l)) { if (!drop.empty() && l.rfind(drop, 0) == 0) continue; if (k >= 2 && l.rfind("type:", 0) == 0) l = "type: " + nt; s += l + "\n"; }
    if (k >= 2) must = nt; c.desc(s);
    try { Yaml::from_string(s, u); } catch (Yaml::ConfigurationException& x) { e = x.what(); }
    PBT_REQUIRE(!e.empty(), "accepted: ", s, " as ", sig(u.get())); PBT_REQUIRE(e.find(must) != std::string::npos, "message does not mention ", must, ": ", e);
    if (k == 3) PBT_REQUIRE(e.find("{Ball, Box, Rod, Unknown}") != std::string::npos, e);
    if (k == 2) for (auto w : {"Box", "Ball", "Rod"}) PBT_REQUIRE(e.find(w) != std::string::npos, "registered types are not listed: ", e);
    c.nontrivial(); c.label(std::to_string(k));
}
PBT_PROP(dispatch)
{
    auto v = vol(c); std::string hit; size_t k = c.draw(4); int n = 0; std::string kind = to_string(v->type); c.desc(sig(v.get()) + pbt::cat(" handlers ", k));
    bool got = false, threw = false; std::string want;
    switch (k) {
    case 0: got = v->try_apply([&](BoxV&) { n++; hit = "Box"; }, [&](RodV&) { n++; hit = "Rod"; }); want = kind == "Ball" ? "" : kind; break;
    case 1: got = v->try_apply([&](const BallV&) { n++; hit = "Ball"; }, [&](...) { n++; hit = "any"; }); want = kind == "Ball" ? "Ball" : "any"; break;
    case 2: got = v->try_apply([&](Vol&) { n++; hit = "Vol"; }, [&](BoxV&) { n++; hit = "Box"; }); want = "Vol"; break;
    case 3: try { v->apply([&](BoxV* b) { n++; hit = b ? "Box" : "null"; }, [&](BallV& b) { n++; hit = "Ball"; }); got = true; } catch (std::runtime_error&) { threw = true; } want = kind == "Rod" ? "" : kind; PBT_REQUIRE(threw == (kind == "Rod"), "apply without a handler must throw"); break;
    default: v->apply([&](RodV&) { n++; hit = "Rod"; }, [&](void) { n++; hit = "void"; }, [&](...) { n++; hit = "late"; }); got = true; want = kind == "Rod" ? "Rod" : "void"; }
    PBT_REQUIRE(hit == want && n == (want.empty() ? 0 : 1) && got == !want.empty(), "object ", kind, " ran handler '", hit, "' ", n, " times, expected '", want, "'"); c.nontrivial(); c.label(kind + std::to_string(k));
}
PBT_PROP(hooks_discriminated)
{   // hooks of values chosen by a type field: once per value, lenient or strict
    Scene s; for (size_t n = c.n(0, 4); n--;) s.vols.push_back(vol(c)); s.main = vol(c); std::string t = Yaml::to_string(s); c.desc(t);
    for (int k = 0; k < 2; k++) {
        Vol::base_runs() = 0; if (k) Yaml::from_string_strict<Scene>(t); else Yaml::from_string<Scene>(t);
        PBT_REQUIRE(Vol::base_runs() == (int)s.vols.size() + 1, k ? "strict " : "", "reading ", s.vols.size() + 1, " objects ran the base's hook ", Vol::base_runs(), " times");
    }
    if (s.vols.size() > 1) c.nontrivial();
}
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
