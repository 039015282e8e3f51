// LINK: escape.cc string_util.cc
#include "oracle.h"
#include <gul14/escape.h>
using gul14::string_view;
static std::string esc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += static_cast<char>(c);
    }
    return o;
}
static int hx(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string unesc(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
        char c = s[i + 1];
        if (c == 'n') o += '\n'; else if (c == 'r') o += '\r'; else if (c == 't') o += '\t'; else if (c == '"' || c == '\\') o += c;
        else if (c == 'x' && i + 3 < s.size() && hx(s[i + 2]) >= 0 && hx(s[i + 3]) >= 0) { o += static_cast<char>(hx(s[i + 2]) * 16 + hx(s[i + 3])); i += 2; }
        else { o += s[i]; continue; }
        ++i;
    }
    return o;
}
void one(Src& r) {
    if (r.pick(2) == 0) {
        static const char al[] = {'a', '\\', '"', '\n', 'x', '\x7f', '\xff', '\0', '\t', '\r', '0', '\x1f', ' ', '~', '\x80', 'f', 'n'};
        std::string S = r.str(al, r.en ? 3 : 0, 40, 17); Exact e(S);
        case_is("escape " + show(S));
        auto x = gul14::escape(string_view(e.data(), e.n));
        expect_eq(x, esc(S), "escape");
        Exact f(x); expect_eq(gul14::unescape(string_view(f.data(), f.n)), S, "unescape(escape(s))");
    } else {
        std::string S = r.str("\\xa0\"nGtrF", r.en ? 5 : 0, 60, r.en ? 6 : 10); Exact e(S);
        case_is("unescape " + show(S));
        expect_eq(gul14::unescape(string_view(e.data(), e.n)), unesc(S), "unescape");
    }
}
