// A small ISO 10303-21 reader used as oracle for exported text.
#pragma once
#include "common.h"
struct SVal { enum K { LIST, REF, STR, ENUM, NUM, NONE } k = NONE; std::vector<SVal> l; long ref = 0; std::string s; double d = 0; };
struct SEnt { long id; std::string name; std::vector<SVal> a; };
struct SParse {
  const std::string &t; size_t i = 0; std::string err; std::vector<SEnt> ents; std::map<std::string, std::vector<SVal>> header;
  explicit SParse(const std::string &s) : t(s) {}
  bool bad(const std::string &m) { if (err.empty()) err = m + " at byte " + std::to_string(i) + ": \"" + t.substr(i > 25 ? i - 25 : 0, 60) + "\""; return false; }
  void ws() { for (;;) { while (i < t.size() && isspace((unsigned char)t[i])) i++; if (t.compare(i, 2, "/*") == 0) { size_t e = t.find("*/", i + 2); if (e == std::string::npos) { bad("open comment"); i = t.size(); return; } i = e + 2; } else return; } }
  bool lit(const char *s) { ws(); size_t n = strlen(s); if (t.compare(i, n, s)) return bad(std::string("expected ") + s); i += n; return true; }
  bool ident(std::string &o) { ws(); size_t b = i; while (i < t.size() && (isupper((unsigned char)t[i]) || isdigit((unsigned char)t[i]) || t[i] == '_')) i++; o = t.substr(b, i - b); return !o.empty() || bad("expected a name"); }
  bool integer(long &v) { size_t b = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if (b == i || i - b > 12) return bad("expected an entity number"); v = atol(t.substr(b, i - b).c_str()); return true; }
  bool value(SVal &v) {
    ws(); if (i >= t.size()) return bad("unexpected end"); char c = t[i];
    if (c == '(') { v.k = SVal::LIST; i++; ws(); if (i < t.size() && t[i] == ')') { i++; return true; } for (;;) { v.l.emplace_back(); if (!value(v.l.back())) return false; ws(); if (i < t.size() && t[i] == ',') { i++; continue; } return lit(")"); } }
    if (c == '#') { v.k = SVal::REF; i++; return integer(v.ref); }
    if (c == '\'') { v.k = SVal::STR; i++; while (i < t.size() && (t[i] != '\'' || (i + 1 < t.size() && t[i + 1] == '\''))) { if (t[i] == '\'') i++; v.s += t[i++]; } return lit("'"); }
    if (c == '.' && i + 1 < t.size() && isupper((unsigned char)t[i + 1])) { v.k = SVal::ENUM; i++; while (i < t.size() && t[i] != '.') v.s += t[i++]; return lit("."); }
    if (c == '$' || c == '*') { i++; return true; }
    { size_t b = i; if (t[i] == '-' || t[i] == '+') i++; size_t d = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; size_t nd = i - d; if (i < t.size() && t[i] == '.') { i++; while (i < t.size() && isdigit((unsigned char)t[i])) { i++; nd++; } } if (!nd) { i = b; return bad("expected a value"); }
      if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; size_t x = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; if (x == i) return bad("bad exponent"); }
      v.k = SVal::NUM; v.s = t.substr(b, i - b); v.d = strtod(v.s.c_str(), nullptr); return true; }
  }
  bool params(std::vector<SVal> &a) { SVal v; ws(); if (i >= t.size() || t[i] != '(') return bad("expected ("); if (!value(v)) return false; a = v.l; return true; }
  bool entity() { SEnt e; if (!lit("#") || !integer(e.id) || !lit("=") || !ident(e.name) || !params(e.a) || !lit(";")) return false; ents.push_back(std::move(e)); return true; }
  bool entities() { for (;;) { ws(); if (i >= t.size() || t[i] != '#') return err.empty(); if (!entity()) return false; } }
  bool fragment() { if (!entities()) return false; return i == t.size() || bad("trailing text"); }
  bool file() {
    if (!lit("ISO-10303-21") || !lit(";") || !lit("HEADER") || !lit(";")) return false;
    for (;;) { std::string n; if (!ident(n)) return false; if (n == "ENDSEC") { if (!lit(";")) return false; break; } if (!params(header[n]) || !lit(";")) return false; }
    if (!lit("DATA") || !lit(";") || !entities() || !lit("ENDSEC") || !lit(";") || !lit("END-ISO-10303-21") || !lit(";")) return false; ws(); return i == t.size() || bad("trailing text");
  }
};
