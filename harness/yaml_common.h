// Both copies of the YAML reader behind one interface, and a plain reference tree.
#pragma once
#include "pbt.h"
#include "Yaml.hpp"                       // library copy (include path)
#ifdef WITH_APP
#define Yaml AppYaml
#include "app_copy_of_header.hpp"        // copy made by the check (identical files count as one for #pragma once)
#undef Yaml
#endif
#include <memory>

struct YL {
    static const char* name() { return "library"; }
    using Node = Yaml::Node; using Iter = Yaml::Iterator; using CIter = Yaml::ConstIterator; using Cfg = Yaml::SerializeConfig; using Exc = Yaml::Exception;
    static void parse(Node& n, const std::string& s) { Yaml::Parse(n, s); }
    static void parse_file(Node& n, const char* f) { Yaml::Parse(n, f); }
    static void parse_buf(Node& n, const char* b, size_t k) { Yaml::Parse(n, b, k); }
    static void parse_stream(Node& n, std::iostream& b) { Yaml::Parse(n, b); }
    static void ser(const Node& n, std::string& s, const Cfg& c) { Yaml::Serialize(n, s, c); }
    static void ser_stream(const Node& n, std::iostream& s, const Cfg& c) { Yaml::Serialize(n, s, c); }
    static void ser_file(const Node& n, const char* f, const Cfg& c) { Yaml::Serialize(n, f, c); }
};
#ifdef WITH_APP
struct YA {
    static const char* name() { return "application"; }
    using Node = AppYaml::Node; using Iter = AppYaml::Iterator; using CIter = AppYaml::ConstIterator; using Cfg = AppYaml::SerializeConfig; using Exc = AppYaml::Exception;
    static void parse(Node& n, const std::string& s) { AppYaml::Parse(n, s); }
    static void parse_file(Node& n, const char* f) { AppYaml::Parse(n, f); }
    static void parse_buf(Node& n, const char* b, size_t k) { AppYaml::Parse(n, b, k); }
    static void parse_stream(Node& n, std::iostream& b) { AppYaml::Parse(n, b); }
    static void ser(const Node& n, std::string& s, const Cfg& c) { AppYaml::Serialize(n, s, c); }
    static void ser_stream(const Node& n, std::iostream& s, const Cfg& c) { AppYaml::Serialize(n, s, c); }
    static void ser_file(const Node& n, const char* f, const Cfg& c) { AppYaml::Serialize(n, f, c); }
};
#endif

struct Tree {
    enum K { None, Seq, Map, Scalar } k = None;
    std::string s;
    std::vector<Tree> seq;
    std::vector<std::pair<std::string, Tree>> map; // insertion order; compared by key
    static Tree scalar(const std::string& v) { Tree t; t.k = Scalar; t.s = v; return t; }
    Tree* find(const std::string& key) { for (auto& p : map) if (p.first == key) return &p.second; return nullptr; }
    size_t count() const { size_t n = 1; for (auto& c : seq) n += c.count(); for (auto& c : map) n += c.second.count(); return n; }
    size_t depth() const { size_t n = 0; for (auto& c : seq) n = std::max(n, c.depth()); for (auto& c : map) n = std::max(n, c.second.depth()); return n + 1; }
};

inline std::string quote(const std::string& s) { return pbt::jstr(s); }
inline std::string show(const Tree& t)
{
    std::string o;
    switch (t.k) {
    case Tree::None: return "~";
    case Tree::Scalar: return quote(t.s);
    case Tree::Seq: o = "["; for (auto& c : t.seq) o += show(c) + ", "; return o + "]";
    case Tree::Map: {
        std::map<std::string, std::string> m; for (auto& p : t.map) m[p.first] = show(p.second);
        o = "{"; for (auto& p : m) o += quote(p.first) + ": " + p.second + ", "; return o + "}"; }
    }
    return o;
}

// reads a node through the public interface (const iteration)
template <class Y> Tree read_tree(const typename Y::Node& n)
{
    Tree t;
    if (n.IsScalar()) return Tree::scalar(n.template As<std::string>());
    if (n.IsSequence()) {
        t.k = Tree::Seq;
        for (auto it = n.Begin(); it != n.End(); it++) t.seq.push_back(read_tree<Y>((*it).second));
        if (t.seq.size() != n.Size()) pbt::fail("iteration visits a different number of items than Size() says");
    } else if (n.IsMap()) {
        t.k = Tree::Map;
        for (auto it = n.Begin(); it != n.End(); it++) t.map.push_back({(*it).first, read_tree<Y>((*it).second)});
        if (t.map.size() != n.Size()) pbt::fail("iteration visits a different number of entries than Size() says");
    }
    return t;
}
template <class Y> void build(typename Y::Node& n, const Tree& t)
{
    if (t.k == Tree::Scalar) n = t.s;
    else if (t.k == Tree::Seq) { for (auto& c : t.seq) build<Y>(n.PushBack(), c); }
    else if (t.k == Tree::Map) { for (auto& p : t.map) build<Y>(n[p.first], p.second); }
}
inline bool same(const Tree& a, const Tree& b) { return show(a) == show(b); }

template <class Y> std::string outcome(const std::function<void(typename Y::Node&)>& f)
{
    typename Y::Node n;
    try { f(n); }
    catch (typename Y::Exc& e) {
        if (!n.IsNone()) pbt::fail("a document was rejected but the root node kept content");
        return std::string("error: ") + e.what();
    }
    return "tree: " + show(read_tree<Y>(n));
}
