// Generators of trees and of documents with known meaning.
#pragma once
#include "yaml_common.h"
using pbt::Case;

static const char* PLAIN0 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./+()$^;~";
inline std::string chars(Case& c, const std::string& set, size_t lo, size_t hi)
{
    size_t n = c.n(lo, hi); std::string s;
    for (size_t i = 0; i < n; i++) s += set[c.draw(set.size() - 1)];
    return s;
}
// characters the reader accepts everywhere; no '~' (reader's documented range ends at '}')
static const std::string WORD = "abcxyzABZ0159_./+()$^;";
static const std::string MARK = ":{}[],&*?|-<>=!%@";     // significant to YAML, must come back through quoting

// one line of text: no quotes, no backslash, no '#' unless hash, no blanks at the ends
inline std::string line_text(Case& c, bool marks, bool hash, size_t maxw = 6)
{
    size_t w = c.n(1, maxw); std::string s;
    for (size_t i = 0; i < w; i++) {
        if (i) s += std::string(c.n(1, c.chance(1, 6) ? 3 : 1), ' ');
        std::string t = chars(c, WORD, 1, 7);
        if (marks && c.chance(1, 3)) { std::string m(1, MARK[c.draw(MARK.size() - 1)]); size_t p = c.n(0, t.size()); t.insert(p, m); }
        if (hash && c.chance(1, 4)) t.insert(c.n(0, t.size()), "#");
        s += t;
    }
    return s;
}
inline std::string key_text(Case& c, bool odd)
{
    static const std::vector<std::string> common = {"a", "b", "key", "type", "x_min", "id", "value list", "den", "z"};
    if (!odd || c.chance(2, 3)) { std::string k = c.pick(common); if (c.chance(1, 2)) k += chars(c, "0123456789_abc", 1, 3); return k; }
    return line_text(c, true, true, 2);
}
inline std::string multi_text(Case& c)
{
    size_t n = c.n(2, 4); std::string s;
    for (size_t i = 0; i < n; i++) {
        std::string l = (i && i + 1 < n && c.chance(1, 5)) ? "" : (i && c.chance(1, 4) ? "  " : "") + line_text(c, true, false, 4);
        s += l; if (i + 1 < n) s += "\n";
    }
    if (c.flip()) s += "\n";
    return s;
}
inline Tree gen_tree(Case& c, int depth, bool root)
{
    size_t k = depth <= 0 ? 2 : c.weighted({root ? 4u : 2u, root ? 4u : 2u, root ? 1u : 4u});
    if (k == 2) {
        switch (c.weighted({6, 3, 2, 1})) {
        case 0: return Tree::scalar(line_text(c, false, false));
        case 1: return Tree::scalar(line_text(c, true, true));
        case 2: return Tree::scalar(multi_text(c));
        default: return Tree::scalar("");
        }
    }
    Tree t;
    size_t n = c.n(1, 4);
    if (k == 0) { t.k = Tree::Map; for (size_t i = 0; i < n; i++) { std::string key = key_text(c, true); if (!t.find(key)) t.map.push_back({key, gen_tree(c, depth - 1, false)}); } }
    else { t.k = Tree::Seq; for (size_t i = 0; i < n; i++) t.seq.push_back(gen_tree(c, depth - 1, false)); }
    return t;
}
