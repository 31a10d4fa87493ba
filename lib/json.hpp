// Strict little JSON reader (RFC 8259); throws std::string on any error.
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
namespace json {
struct V {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    bool b = false; double n = 0; std::string s;                 // s also holds the number's text
    std::vector<V> a; std::vector<std::pair<std::string, V>> o;
    const V *get(const std::string &key) const { for (auto &p : o) if (p.first == key) return &p.second; return nullptr; }
    int count(const std::string &key) const { int n = 0; for (auto &p : o) n += p.first == key; return n; }
    const V &operator[](const std::string &key) const { auto *p = get(key); if (!p) throw std::string("no member ") + key; return *p; }
    int64_t i() const { if (k != NUM) throw std::string("not a number"); return strtoll(s.c_str(), nullptr, 10); }
};
struct P {
    const char *p, *e;
    [[noreturn]] void bad(const char *m) { throw std::string(m) + " at: " + std::string(p, std::min<size_t>(40, e - p)); }
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    void lit(const char *t) { size_t n = strlen(t); if ((size_t)(e - p) < n || strncmp(p, t, n)) bad("bad literal"); p += n; }
    static void utf8(std::string &o, unsigned u) { if (u < 0x80) o += u; else if (u < 0x800) { o += 0xc0 | u >> 6; o += 0x80 | (u & 63); } else if (u < 0x10000) { o += 0xe0 | u >> 12; o += 0x80 | (u >> 6 & 63); o += 0x80 | (u & 63); } else { o += 0xf0 | u >> 18; o += 0x80 | (u >> 12 & 63); o += 0x80 | (u >> 6 & 63); o += 0x80 | (u & 63); } }
    unsigned hex4() { unsigned u = 0; for (int i = 0; i < 4; ++i) { if (p >= e || !isxdigit((unsigned char)*p)) bad("bad \\u"); u = u * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (tolower(*p) - 'a' + 10)); ++p; } return u; }
    std::string str() {
        std::string o; if (p >= e || *p != '"') bad("expected string"); ++p;
        while (true) {
            if (p >= e) bad("unterminated string");
            unsigned char ch = *p;
            if (ch == '"') { ++p; return o; }
            if (ch < 0x20) bad("control character in string");
            if (ch == '\\') { ++p; if (p >= e) bad("bad escape"); char x = *p++; switch (x) { case '"': case '\\': case '/': o += x; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': { unsigned u = hex4(); if (u >= 0xd800 && u < 0xdc00 && e - p >= 2 && p[0] == '\\' && p[1] == 'u') { p += 2; unsigned l = hex4(); u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } utf8(o, u); break; } default: --p; bad("bad escape"); } }
            else { o += ch; ++p; }
        }
    }
    V val(int depth = 0) {
        if (depth > 100) bad("too deep");
        V v; ws(); if (p >= e) bad("unexpected end");
        if (*p == '{') { ++p; v.k = V::OBJ; ws(); if (p < e && *p == '}') { ++p; return v; } while (true) { ws(); auto k = str(); ws(); if (p >= e || *p != ':') bad("expected :"); ++p; v.o.emplace_back(k, val(depth + 1)); ws(); if (p < e && *p == ',') { ++p; continue; } if (p < e && *p == '}') { ++p; return v; } bad("expected , or }"); } }
        if (*p == '[') { ++p; v.k = V::ARR; ws(); if (p < e && *p == ']') { ++p; return v; } while (true) { v.a.push_back(val(depth + 1)); ws(); if (p < e && *p == ',') { ++p; continue; } if (p < e && *p == ']') { ++p; return v; } bad("expected , or ]"); } }
        if (*p == '"') { v.k = V::STR; v.s = str(); return v; }
        if (*p == 't') { lit("true"); v.k = V::BOOL; v.b = true; return v; }
        if (*p == 'f') { lit("false"); v.k = V::BOOL; return v; }
        if (*p == 'n') { lit("null"); return v; }
        const char *q = p; if (p < e && *p == '-') ++p;
        if (p >= e || !isdigit((unsigned char)*p)) bad("bad value");
        if (*p == '0') ++p; else while (p < e && isdigit((unsigned char)*p)) ++p;
        if (p < e && *p == '.') { ++p; if (p >= e || !isdigit((unsigned char)*p)) bad("bad number"); while (p < e && isdigit((unsigned char)*p)) ++p; }
        if (p < e && (*p == 'e' || *p == 'E')) { ++p; if (p < e && (*p == '+' || *p == '-')) ++p; if (p >= e || !isdigit((unsigned char)*p)) bad("bad number"); while (p < e && isdigit((unsigned char)*p)) ++p; }
        v.k = V::NUM; v.s.assign(q, p - q); v.n = strtod(v.s.c_str(), nullptr); return v;
    }
};
inline V parse(const std::string &t) { P p{t.data(), t.data() + t.size()}; V v = p.val(); p.ws(); if (p.p != p.e) p.bad("trailing text"); return v; }
inline std::string slurp(const std::string &f, bool *ok = nullptr) { std::ifstream i(f, std::ios::binary); if (ok) *ok = (bool)i; std::stringstream s; s << i.rdbuf(); return s.str(); }
}
