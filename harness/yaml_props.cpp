#include "yaml_gen.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

#if PBT_ASAN
static long g_live = 0;
static void mh(const volatile void*, size_t) { g_live++; }
static void fh(const volatile void*) { g_live--; }
static int hooks_ = __sanitizer_install_malloc_and_free_hooks(mh, fh);
#else
static long g_live = 0;
#endif

// ------------------------------------------------------------------ C01: any bytes
static const std::vector<std::string>& tokens()
{
    static const std::vector<std::string> v = {"\n", " ", "  ", "- ", "-", ":", ": ", "a", "key", "\"", "'", "\\", "|", "|-", ">", ">-", "#", " # c", "---", "...", "\t", "\r\n", "\r",
        "[1, 2]", "{a: b}", "\n  ", "\n    ", "\n- ", "\n  - ", "a: b\n", "k:\n", "? ", "! ", "& ", "* ", "%", "@", "`", "|+", ">2", "\"a\": \"b\"", "a: |\n  b\n  c\n", "a: >\n  b\n\n  c\n", "1.5e-3", "true", "-\n", "- - a"};
    return v;
}
static std::string soup(Case& c)
{
    std::string s; size_t n = c.n(0, 40);
    static const std::vector<std::string> odd = {"~", "\x7f", "\xc3\xa9", std::string(1, '\0'), "\x01", "\x1b"};
    bool wild = c.chance(1, 6);
    for (size_t i = 0; i < n; i++) {
        size_t w = c.weighted({12, 2, wild ? 2u : 0u});
        if (w == 0) s += c.pick(tokens());
        else if (w == 1) s += chars(c, WORD, 1, 5);
        else if (c.flip()) s += c.pick(odd); else s += (char)c.draw(255);
    }
    return s;
}
static std::string render(Case& c, const Tree& t);
static std::string mutated(Case& c)
{
    Tree t = gen_tree(c, 3, true);
    std::string s = render(c, t);
    size_t n = c.n(1, 4);
    for (size_t i = 0; i < n; i++) {
        size_t p = c.n(0, s.size());
        switch (c.draw(4)) {
        case 0: s.insert(p, c.pick(tokens())); break;
        case 1: if (p < s.size()) s.erase(p, c.n(1, 6)); break;
        case 2: if (p < s.size()) s[p] = c.chance(1, 8) ? (char)c.draw(255) : (char)c.i(32, 125); break;
        case 3: { size_t q = c.n(0, s.size()); if (p > q) std::swap(p, q); std::string sub = s.substr(p, std::min<size_t>(q - p, 30)); s.insert(c.n(0, s.size()), sub); break; }
        default: s.resize(p);
        }
    }
    return s;
}
template <class Y> static std::string all_ways(const std::string& s)
{
    std::string o = outcome<Y>([&](typename Y::Node& n) { Y::parse(n, s); });
    std::string b = outcome<Y>([&](typename Y::Node& n) { Y::parse_buf(n, s.data(), s.size()); });
    std::string st = outcome<Y>([&](typename Y::Node& n) { std::stringstream ss(s); Y::parse_stream(n, ss); });
    // a used node must not influence the result
    std::string u = outcome<Y>([&](typename Y::Node& n) { n["old"]["x"] = "1"; Y::parse(n, s); });
    PBT_REQUIRE(o == b, "string and buffer differ (", Y::name(), "): ", o, " / ", b);
    PBT_REQUIRE(o == st, "string and stream differ (", Y::name(), "): ", o, " / ", st);
    PBT_REQUIRE(o == u, "result depends on earlier content of the node (", Y::name(), "): ", o, " / ", u);
    return o;
}
static void robust(Case& c, const std::string& s)
{
    c.desc("document " + quote(s));
    std::string a = all_ways<YL>(s);
    long l0 = g_live;
    { std::string x = outcome<YL>([&](Yaml::Node& n) { YL::parse(n, s); }); PBT_REQUIRE(x == a, "second reading of the same document differs"); }
    // the strings above are gone again, nothing of the reader may stay allocated
    PBT_REQUIRE(g_live <= l0, "memory is lost: ", g_live - l0, " blocks after reading ", a.substr(0, 80));
#ifdef WITH_APP
    std::string b = all_ways<YA>(s);
    PBT_REQUIRE(a == b, "library: ", a, " application: ", b);
    l0 = g_live;
    { std::string x = outcome<YA>([&](AppYaml::Node& n) { YA::parse(n, s); }); PBT_REQUIRE(x == b, "second reading of the same document differs"); }
    PBT_REQUIRE(g_live <= l0, "memory is lost by the application's reader: ", g_live - l0, " blocks");
#endif
    c.label(a.substr(0, 5)); if (a.substr(0, 5) == "error") c.label("message " + a.substr(7, 12));
    // whatever was read can be written without failing
    if (a[0] == 't') {
        Yaml::Node n; YL::parse(n, s); std::string out;
        YL::ser(n, out, {2, 64, false, false}); YL::ser(n, out, {3, 10, true, true});
        if (n.Size() > 0) c.nontrivial();
    } else c.nontrivial();
}
PBT_PROP(any_tokens) { robust(c, soup(c)); }
PBT_PROP(any_mutation) { robust(c, mutated(c)); }
PBT_PROP(any_file)
{
    std::string s = c.chance(1, 8) ? "" : (c.flip() ? mutated(c) : soup(c)); c.desc("file " + quote(s));
    std::string f = pbt::tmpdir() + "/y" + std::to_string(getpid()) + ".yaml";
    { std::ofstream o(f, std::ios::binary); o << s; }
    std::string a = outcome<YL>([&](Yaml::Node& n) { YL::parse(n, s); });
    std::string b = outcome<YL>([&](Yaml::Node& n) { YL::parse_file(n, f.c_str()); });
    PBT_REQUIRE(a == b, "text: ", a, " file: ", b);
#ifdef WITH_APP
    b = outcome<YA>([&](AppYaml::Node& n) { YA::parse_file(n, f.c_str()); });
    PBT_REQUIRE(a == b, "text: ", a, " file (application): ", b);
#endif
    unlink(f.c_str());
    b = outcome<YL>([&](Yaml::Node& n) { YL::parse_file(n, f.c_str()); });
    PBT_REQUIRE(b.substr(0, 5) == "error", "a missing file is not reported: ", b);
    if (s.size() > 3) c.nontrivial();
}

// ------------------------------------------------------------------ C02: write and read back
template <class Y> static void round_trip(Case& c, const Tree& t, const typename Y::Cfg& cfg)
{
    typename Y::Node n; build<Y>(n, t);
    Tree built = read_tree<Y>(n);
    PBT_REQUIRE(same(built, t), Y::name(), ": the tree that was built reads back as ", show(built));
    std::string s; Y::ser(n, s, cfg);
    std::stringstream ss; Y::ser_stream(n, ss, cfg);
    PBT_REQUIRE(ss.str() == s, "stream and string output differ");
    PBT_REQUIRE(same(read_tree<Y>(n), t), "writing changed the tree");
    typename Y::Node m;
    try { Y::parse(m, s); } catch (typename Y::Exc& e) { pbt::fail(pbt::cat(Y::name(), ": own output is rejected: ", e.what(), "\noutput:\n", s)); }
    Tree r = read_tree<Y>(m);
    PBT_REQUIRE(same(r, t), Y::name(), ": wrote ", show(t), " read ", show(r), "\ntext:\n", s);
    std::string s2; Y::ser(m, s2, cfg);
    PBT_REQUIRE(s2 == s, "second writing differs");
    c.label(t.k == Tree::Seq ? "sequence" : t.k == Tree::Map ? "map" : "scalar");
    if (s.find("|") != std::string::npos) c.label("literal"); if (s.find(">") != std::string::npos) c.label("folded");
    if (t.count() > 3) c.nontrivial();
}
static size_t max_line(const Tree& t)
{
    size_t n = 0;
    if (t.k == Tree::Scalar) { std::istringstream i(t.s); std::string l; while (std::getline(i, l)) n = std::max(n, l.size()); }
    for (auto& x : t.seq) n = std::max(n, max_line(x)); for (auto& x : t.map) n = std::max(n, max_line(x.second));
    return n;
}
// folding is only lossless for text without '#', with single blanks and without a leading mark
static void make_foldable(Tree& t)
{
    if (t.k == Tree::Scalar && t.s.find('\n') == std::string::npos) {
        std::string o; for (char ch : t.s) { if (ch == '#') ch = 'h'; if (ch == ' ' && !o.empty() && o.back() == ' ') continue; o += ch; }
        t.s = o;
    }
    for (auto& x : t.seq) make_foldable(x); for (auto& x : t.map) make_foldable(x.second);
}
PBT_PROP(write_read)
{
    Tree t = gen_tree(c, 4, true); if (t.k == Tree::Scalar) { Tree r; r.k = Tree::Seq; r.seq = {t}; t = r; }
    size_t ind = c.n(2, 6); bool fold = c.chance(1, 3); size_t len = fold ? c.n(4, 40) : (c.flip() ? 0 : 4096);
    bool a = c.flip(), b = c.flip();
    if (fold) make_foldable(t);
    c.desc("tree " + show(t) + pbt::cat(" indent ", ind, " fold ", len, " flags ", a, b));
    round_trip<YL>(c, t, {ind, len, a, b});
#ifdef WITH_APP
    round_trip<YA>(c, t, {ind, len, a, b});
    Yaml::Node n; build<YL>(n, t); AppYaml::Node m; build<YA>(m, t); std::string s1, s2; YL::ser(n, s1, {ind, len, a, b}); YA::ser(m, s2, {ind, len, a, b});
    PBT_REQUIRE(s1 == s2, "the two copies write different text:\n", s1, "\n----\n", s2);
#endif
}
PBT_PROP(write_read_file)
{
    Tree t = gen_tree(c, 3, true); if (t.k == Tree::Scalar) { Tree r; r.k = Tree::Map; r.map = {{"only", t}}; t = r; }
    c.desc("tree " + show(t));
    std::string f = pbt::tmpdir() + "/w" + std::to_string(getpid()) + ".yaml";
    Yaml::Node n, m; build<YL>(n, t); YL::ser_file(n, f.c_str(), {2, 0, false, false}); YL::parse_file(m, f.c_str());
    PBT_REQUIRE(same(read_tree<YL>(m), t), "read ", show(read_tree<YL>(m)));
    unlink(f.c_str());
    bool thrown = false; try { std::string s; YL::ser(n, s, {c.n(0, 1), 64, false, false}); } catch (Yaml::Exception&) { thrown = true; }
    PBT_REQUIRE(thrown, "an indentation below two was accepted");
    if (t.count() > 2) c.nontrivial();
}

// ------------------------------------------------------------------ C03: documents with a known meaning
struct Style { bool crlf; unsigned noise; };
struct Out { Case& c; std::string o; Style st;
    void eol() { if (st.noise && c.chance(1, 8)) o += std::string(c.n(1, 3), ' '); if (st.noise && c.chance(1, 8)) o += " # note: x - y"; nl(); }
    void nl() { o += st.crlf ? "\r\n" : "\n"; }
    void gap(size_t ind) { if (!st.noise) return; while (c.chance(1, 8)) { size_t k = c.draw(2); if (k == 0) nl(); else if (k == 1) { o += std::string(c.n(0, ind + 2), ' ') + "# comment: - | >"; nl(); } else { o += std::string(c.n(0, 5), ' '); nl(); } } }
};
static bool needs_quote(const std::string& s) { return s.empty() ? false : s.find('#') != std::string::npos || std::string("|>-\"'").find(s[0]) != std::string::npos || s.find(':') != std::string::npos; }
static void emit_key(Out& o, const std::string& k)
{
    bool q = needs_quote(k) || o.c.chance(1, 6);
    o.o += q ? "\"" + k + "\"" : k;
    if (o.c.chance(1, 8)) o.o += " ";
    o.o += ":";
}
static void emit(Out& o, const Tree& t, size_t ind, bool inline_ok);
// scalar placed after "key:" or "- " (no blank written yet); parent indentation ind
static void emit_scalar(Out& o, const Tree& t, size_t ind, bool after_key)
{
    Case& c = o.c; const std::string& s = t.s;
    if (s.empty()) { if (after_key || true) o.eol(); return; }
    bool multi = s.find('\n') != std::string::npos;
    if (!multi) {
        size_t k = c.weighted({6, 2, 1, 2});
        if (needs_quote(s)) k = 1;
        bool edge = s.find_first_of("'\"\\") != std::string::npos;
        if (k == 2 && edge) k = 0;
        o.o += std::string(c.chance(1, 6) ? c.n(1, 4) : 1, ' ');
        if (k == 1) { o.o += "\"" + s + "\""; o.eol(); }
        else if (k == 2) { o.o += "'" + s + "'"; o.eol(); }
        else if (k == 3 && s.find("  ") == std::string::npos && s.find(' ') != std::string::npos && s.find('-') == std::string::npos && s.find_first_of("|>") == std::string::npos) {
            // plain text over several lines, or a folded block
            bool folded = c.flip(); bool lastnl = false;
            std::string sep; o.o += folded ? ">-" : ""; bool first = !folded; if (folded) o.nl();
            size_t in2 = ind + c.n(1, 3);
            std::string cur; std::vector<std::string> lines;
            for (char ch : s) { if (ch == ' ' && c.flip()) { lines.push_back(cur); cur.clear(); } else cur += ch; }
            lines.push_back(cur);
            for (auto& l : lines) { if (!first) o.o += std::string(in2, ' '); first = false; o.o += l; o.nl(); }
            (void)lastnl;
        }
        else { o.o += s; o.eol(); }
        return;
    }
    bool endnl = s.back() == '\n';
    std::string body = endnl ? s.substr(0, s.size() - 1) : s;
    size_t in2 = ind + c.n(1, 4);
    std::istringstream is(body); std::string l; std::vector<std::string> lines;
    while (std::getline(is, l)) lines.push_back(l);
    bool foldable = !lines.empty() && !lines.front().empty() && !lines.back().empty();
    for (auto& x : lines) if (!x.empty() && (x[0] == ' ' || x.find("  ") != std::string::npos || x.find('#') != std::string::npos)) foldable = false;
    if (foldable && c.flip()) { // folded: a line break is written as an empty line, blanks may become line breaks
        o.o += endnl ? " >" : " >-"; o.nl();
        for (size_t i = 0; i < lines.size(); i++) {
            if (i) o.nl();
            if (lines[i].empty()) continue;
            std::string cur; for (char ch : lines[i]) { if (ch == ' ' && c.chance(1, 3)) { o.o += std::string(in2, ' ') + cur; o.nl(); cur.clear(); } else cur += ch; }
            o.o += std::string(in2, ' ') + cur; o.nl();
        }
        return;
    }
    o.o += endnl ? " |" : " |-"; o.nl();
    for (auto& x : lines) { if (!x.empty()) o.o += std::string(in2, ' ') + x; o.nl(); }
}
// some one-line texts end in a line break (block scalars only)
static void final_breaks(Case& c, Tree& t)
{
    if (t.k == Tree::Scalar && !t.s.empty() && t.s.find_first_of("\n#") == std::string::npos && c.chance(1, 8)) t.s += "\n";
    for (auto& x : t.seq) final_breaks(c, x); for (auto& x : t.map) final_breaks(c, x.second);
}
static void emit_map(Out& o, const Tree& t, size_t ind, bool first_inline)
{
    bool first = first_inline;
    for (auto& p : t.map) {
        if (!first) { o.gap(ind); o.o += std::string(ind, ' '); }
        first = false;
        emit_key(o, p.first);
        if (p.second.k == Tree::Scalar) {
            const std::string& s = p.second.s;
            if (!s.empty() && s.find('\n') == std::string::npos && !needs_quote(s) && s.find(':') == std::string::npos && o.c.chance(1, 8)) { o.eol(); o.o += std::string(ind + o.c.n(1, 4), ' ') + s; o.eol(); }
            else emit_scalar(o, p.second, ind, true);
        }
        else { o.eol(); emit(o, p.second, ind + o.c.n(1, 4), false); }
    }
}
static void emit_seq(Out& o, const Tree& t, size_t ind)
{
    for (auto& x : t.seq) {
        o.gap(ind); o.o += std::string(ind, ' ') + "-";
        if (x.k == Tree::Scalar) emit_scalar(o, x, ind, false);
        else if (x.k == Tree::Map && o.c.chance(2, 3)) { size_t k = o.c.n(1, 3); o.o += std::string(k, ' '); emit_map(o, x, ind + 1 + k, true); }
        else { o.eol(); emit(o, x, ind + o.c.n(1, 4), false); }
    }
}
static void emit(Out& o, const Tree& t, size_t ind, bool) { if (t.k == Tree::Map) emit_map(o, t, ind, false); else emit_seq(o, t, ind); }
static void doc_safe(Tree& t, bool in_seq)
{
    // a plain list item with ':' would be a key, so such items are always quoted by needs_quote
    for (auto& x : t.seq) doc_safe(x, true); for (auto& x : t.map) doc_safe(x.second, false);
    (void)in_seq;
}
static std::string render(Case& c, const Tree& t)
{
    Out o{c, "", {c.chance(1, 6), c.chance(2, 3) ? 1u : 0u}};
    if (t.k == Tree::Scalar) { return t.s + "\n"; }
    bool marks = !o.st.crlf && c.chance(1, 4);
    if (marks) { if (c.flip()) o.o += "# header\n\n"; o.o += "---\n"; }
    emit(o, t, 0, false);
    if (marks && c.flip()) { o.o += "...\nignored: after\n"; }
    else if (!o.st.crlf && c.chance(1, 8) && !o.o.empty()) { o.o.pop_back(); }
    return o.o;
}
PBT_PROP(document_meaning)
{
    Tree t = gen_tree(c, 4, true); if (t.k == Tree::Scalar) { Tree r; r.k = Tree::Map; r.map = {{"only", t}}; t = r; }
    doc_safe(t, false); final_breaks(c, t);
    std::string s = render(c, t);
    c.desc("tree " + show(t) + "\ndocument " + quote(s));
    std::string want = "tree: " + show(t);
    std::string a = outcome<YL>([&](Yaml::Node& n) { YL::parse(n, s); });
    PBT_REQUIRE(a == want, "expected ", want, " got ", a, "\n", s);
#ifdef WITH_APP
    std::string b = outcome<YA>([&](AppYaml::Node& n) { YA::parse(n, s); });
    PBT_REQUIRE(b == want, "application's reader: expected ", want, " got ", b, "\n", s);
#endif
    if (s.find("- ") != std::string::npos) c.label("sequence"); if (s.find("#") != std::string::npos) c.label("comment/hash");
    if (s.find("|") != std::string::npos) c.label("literal"); if (s.find("\r") != std::string::npos) c.label("crlf"); if (s.find(">-") != std::string::npos) c.label("folded, no final break"); if (s.find(">\n") != std::string::npos || s.find(">\r") != std::string::npos) c.label("folded");
    if (t.depth() > 2 && t.count() > 4) c.nontrivial();
}
PBT_PROP(rejected_documents)
{   // structural mistakes must be refused, not silently read as something else
    Tree t = gen_tree(c, 3, true); if (t.k == Tree::Scalar) { Tree r; r.k = Tree::Map; r.map = {{"only", t}}; t = r; }
    Out o{c, "", {false, 0}};
    std::string bad, why;
    switch (c.draw(6)) {
    case 0: why = "tab indentation"; emit(o, t, 0, false); bad = o.o + (t.k == Tree::Map ? "zz_new:\n\tq: 1\n" : "-\n\ta: 1\n"); break;
    case 1: why = "list item among keys"; { Tree m; m.k = Tree::Map; m.map = {{"a1", Tree::scalar("x")}}; emit(o, m, 0, false); bad = o.o + "- b\n"; } break;
    case 2: why = "key among list items"; { Tree m; m.k = Tree::Seq; m.seq = {Tree::scalar("x")}; emit(o, m, 0, false); bad = o.o + "b: 1\n"; } break;
    case 3: why = "missing key"; bad = "a: 1\n: 2\n"; break;
    case 4: why = "list in the same line as its key"; bad = key_text(c, false) + ": - " + chars(c, WORD, 1, 4) + "\n"; break;
    case 5: why = "control character"; emit(o, t, 0, false); { bad = o.o; char ch = c.pick({'\x01', '\x07', '\x1b', '\x7f', '\x1f'}); bad.insert(c.n(0, bad.size()), 1, ch);
              // comments are dropped before the check
              } break;
    default: why = "deeper line after a finished value"; bad = "a: 1\nb:\n  c: 2\n    d: 3\ne: 4\n"; break;
    }
    c.desc(why + " " + quote(bad)); c.label(why); c.nontrivial();
    std::string a = outcome<YL>([&](Yaml::Node& n) { YL::parse(n, bad); });
    if (why != "deeper line after a finished value") PBT_REQUIRE(a.substr(0, 5) == "error", why, " accepted as ", a);
#ifdef WITH_APP
    std::string b = outcome<YA>([&](AppYaml::Node& n) { YA::parse(n, bad); });
    PBT_REQUIRE(a == b, "library: ", a, " application: ", b);
#endif
}
PBT_PROP(typed_scalars)
{
    Yaml::Node n;
    switch (c.draw(4)) {
    case 0: { long v = (long)c.draw(UINT64_MAX) >> c.n(0, 63); n = std::to_string(v); c.desc(std::to_string(v)); PBT_REQUIRE(n.As<long>() == v); PBT_REQUIRE(n.As<long>(7) == v); break; }
    case 1: { int v = (int)c.i(-2147483647, 2147483647); n = std::to_string(v); c.desc(std::to_string(v)); PBT_REQUIRE(n.As<int>() == v); PBT_REQUIRE(n.As<int>(3) == v); break; }
    case 2: { double v = c.sgn() * c.logreal(1e-300, 1e300); char b[64]; snprintf(b, 64, "%.17g", v); n = b; c.desc(b); PBT_REQUIRE(n.As<double>() == v); PBT_REQUIRE(n.As<double>(2.0) == v); break; }
    case 3: { static const std::vector<std::pair<std::string, bool>> w = {{"true", 1}, {"True", 1}, {"TRUE", 1}, {"yes", 1}, {"Yes", 1}, {"1", 1}, {"false", 0}, {"False", 0}, {"no", 0}, {"NO", 0}, {"0", 0}, {"off", 0}};
              auto& p = c.pick(w); n = p.first; c.desc(p.first); PBT_REQUIRE(n.As<bool>() == p.second); PBT_REQUIRE(n.As<bool>(!p.second) == p.second); break; }
    default: { std::string s = c.chance(1, 4) ? "" : "z" + chars(c, WORD, 0, 4); n = s; int d = (int)c.i(-99, 99); c.desc("text " + s);
              PBT_REQUIRE(n.As<int>(d) == d, "a value that is not a number must give the default"); PBT_REQUIRE(n.As<std::string>("dflt") == (s.empty() ? "dflt" : s)); PBT_REQUIRE(n.As<std::string>() == s);
              Yaml::Node e; PBT_REQUIRE(e.As<int>(d) == d); PBT_REQUIRE(e.As<bool>(true) && !e.As<bool>(false)); PBT_REQUIRE(e.As<std::string>("q") == "q"); break; }
    }
    c.nontrivial();
}

// ------------------------------------------------------------------ C04: node container against a model
struct MNode { // model: node holding a Tree plus a flag whether list positions are known
    Tree t; };
template <class Y> static void container(Case& c)
{
    using N = typename Y::Node;
    const size_t NR = 3;
    std::vector<std::unique_ptr<N>> real; std::vector<Tree> model(NR);
    for (size_t i = 0; i < NR; i++) real.emplace_back(new N);
    struct Gap { std::set<const Tree*> s; };
    size_t steps = c.n(1, 24); std::string log; bool deep = false, ins = false, er = false;
    // a cursor walks from a root to a node; both sides follow the same path
    for (size_t st = 0; st < steps; st++) {
        size_t r = c.draw(NR - 1); N* n = real[r].get(); Tree* m = &model[r]; std::string at = "r" + std::to_string(r);
        size_t hops = c.n(0, 3);
        for (size_t h = 0; h < hops; h++) {
            if (m->k == Tree::Map && m->map.size()) { auto& p = m->map[c.draw(m->map.size() - 1)]; n = &(*n)[p.first]; m = &p.second; at += "." + p.first; deep = true; }
            else if (m->k == Tree::Seq && m->seq.size()) { size_t i = c.draw(m->seq.size() - 1); n = &(*n)[i]; m = &m->seq[i]; at += "[" + std::to_string(i) + "]"; deep = true; }
            else break;
        }
        auto as_seq = [&] { if (m->k != Tree::Seq) { *m = Tree(); m->k = Tree::Seq; } };
        auto as_map = [&] { if (m->k != Tree::Map) { *m = Tree(); m->k = Tree::Map; } };
        std::string v = "v" + std::to_string(c.draw(9));
        size_t op = c.weighted({7, 4, 4, 5, 2, 1, 3, 5, 2, 2, 2});
        switch (op) {
        case 0: { log += at + ".PushBack=" + v + "; "; as_seq(); m->seq.push_back(Tree::scalar(v)); n->PushBack() = v; break; }
        case 1: { log += at + ".PushFront=" + v + "; "; ins |= m->k == Tree::Seq && m->seq.size(); as_seq(); m->seq.insert(m->seq.begin(), Tree::scalar(v)); n->PushFront() = v; break; }
        case 2: { as_seq(); size_t i = c.n(0, m->seq.size() + 2); log += at + ".Insert(" + std::to_string(i) + ")=" + v + "; "; ins |= m->seq.size() > 1; size_t j = std::min(i, m->seq.size());
                  m->seq.insert(m->seq.begin() + j, Tree::scalar(v)); n->Insert(i) = v; break; }
        case 3: { std::string k = c.pick({std::string("a"), std::string("b"), std::string("cc"), std::string("d e")}); log += at + "[" + k + "]=" + v + "; "; as_map(); Tree* f = m->find(k); if (!f) { m->map.push_back({k, Tree()}); f = &m->map.back().second; } *f = Tree::scalar(v); (*n)[k] = v; break; }
        case 4: { log += at + "=" + v + "; "; *m = Tree::scalar(v); if (c.flip()) *n = v; else *n = v.c_str(); break; }
        case 5: { log += at + ".Clear; "; *m = Tree(); n->Clear(); break; }
        case 6: { // erase by key; absent keys and other kinds are ignored
                  std::string k = c.pick({std::string("a"), std::string("b"), std::string("zz")}); log += at + ".Erase(" + k + "); "; n->Erase(k);
                  if (m->k == Tree::Map) for (size_t i = 0; i < m->map.size(); i++) if (m->map[i].first == k) { m->map.erase(m->map.begin() + i); break; } break; }
        case 7: { // erase an item or one past the end
                  size_t i = m->k == Tree::Seq && m->seq.size() && c.chance(3, 4) ? c.draw(m->seq.size() - 1) : 1000; log += at + ".Erase(#" + std::to_string(i) + "); "; n->Erase(i);
                  if (m->k == Tree::Seq && i < m->seq.size()) { er |= i + 1 < m->seq.size(); m->seq.erase(m->seq.begin() + i); } break; }
        case 8: { // copy a whole root into this node (never one that contains it)
                  size_t o = (r + 1 + c.draw(NR - 2)) % NR; log += at + "=copy r" + std::to_string(o) + "; "; Tree cp = model[o]; *n = *real[o]; *m = cp; break; }
        case 9: { log += at + " copy-construct into r" + std::to_string((r + 1) % NR) + "; "; size_t o = (r + 1) % NR; Tree cp = *m; std::unique_ptr<N> x(new N(*n)); real[o] = std::move(x); model[o] = cp; break; }
        default: { // reading an index past the end yields an empty node and changes nothing
                  if (m->k != Tree::Seq) break; N& x = (*n)[m->seq.size() + c.draw(3)]; PBT_REQUIRE(x.IsNone(), "index past the end is not empty"); break; }
        }
        c.desc(log); // overwritten below by the last one in the sample
        for (size_t q = 0; q < NR; q++) {
            Tree got = read_tree<Y>(*real[q]);
            PBT_REQUIRE(same(got, model[q]), Y::name(), " after ", log, " root ", q, " is ", show(got), " instead of ", show(model[q]));
            PBT_REQUIRE(real[q]->Size() == (model[q].k == Tree::Seq ? model[q].seq.size() : model[q].k == Tree::Map ? model[q].map.size() : 0), "Size() is wrong");
            PBT_REQUIRE(real[q]->IsNone() == (model[q].k == Tree::None) && real[q]->IsMap() == (model[q].k == Tree::Map) && real[q]->IsSequence() == (model[q].k == Tree::Seq) && real[q]->IsScalar() == (model[q].k == Tree::Scalar), "kind is wrong");
            if (model[q].k == Tree::Seq) for (size_t i = 0; i < model[q].seq.size(); i++)
                PBT_REQUIRE(same(read_tree<Y>((*real[q])[i]), model[q].seq[i]), Y::name(), " after ", log, " item ", i, " of root ", q, " read by index is wrong");
            // non-const iteration, iterator copies, backward iteration
            size_t fw = 0; for (auto it = real[q]->Begin(); it != real[q]->End(); it++) { typename Y::Iter k2(it); PBT_REQUIRE(k2 == it); PBT_REQUIRE(&(*k2).second == &(*it).second); if (++fw > 100000) pbt::fail("endless iteration"); }
            PBT_REQUIRE(fw == real[q]->Size(), "iteration count");
            size_t bw = 0; if (fw) { auto it = real[q]->End(); while (it != real[q]->Begin()) { it--; bw++; if (bw > 100000) pbt::fail("endless iteration"); } PBT_REQUIRE(bw == fw, "backward iteration count"); }
        }
    }
    if (deep) c.label("nested"); if (ins) c.label("insert-shift"); if (er) c.label("erase in the middle");
    if (steps > 4) c.nontrivial();
}
PBT_PROP(container_library) { long l0 = 0; (void)l0; container<YL>(c); }
#ifdef WITH_APP
PBT_PROP(container_application) { container<YA>(c); }
#endif

// ------------------------------------------------------------------ inputs of the recorded findings (each fails on its own)
static void one_scalar(Case& c, const std::string& text)
{
    Tree t; t.k = Tree::Map; t.map = {{"key", Tree::scalar(text)}}; c.desc("tree " + show(t)); c.nontrivial();
    round_trip<YL>(c, t, {2, 0, false, false});
}
PBT_PROP(known_quote_characters) { one_scalar(c, "say \"hi\" now"); }
PBT_PROP(known_hash_in_block) { one_scalar(c, "first line # not a comment\nsecond line"); }
PBT_PROP(known_leading_blank) { one_scalar(c, "  first\nsecond"); }
PBT_PROP(known_final_line_break) { one_scalar(c, "single\n"); }

#ifndef NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
