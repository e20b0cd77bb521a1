// C16: strings in JSON text.
#include "lib.hpp"
#include "ref.hpp"
#include "vh.hpp"
using namespace vh;
using std::string;

static string printed(const string& s) { // valid UTF-8 kept, every other byte a question mark
   string r;
   for (size_t i = 0; i < s.size();) {
      int n = ref::utf8_len((const unsigned char*)s.data() + i, s.size() - i);
      if (n)
         r.append(s, i, n), i += n;
      else
         r += '?', ++i;
   }
   return r;
}
static string hx(const string& s) { return cut(hexs(s), 200); }

struct Ctx {
   lib::Abi              e;
   const eosio::abi_type *t, *ta, *to;
   Ctx() {
      e.load(lib::empty_abi);
      t  = e.type("string");
      ta = e.type("string[]");
      to = e.type("string?");
   }
};
static Ctx& cx() {
   static Ctx c;
   return c;
}
static lib::Res parse_native(string lit) {
   return lib::attempt([&] {
      std::unique_ptr<char[]> p(new char[lit.size() + 1]);
      memcpy(p.get(), lit.c_str(), lit.size() + 1);
      eosio::json_token_stream st(p.get());
      string                   v;
      from_json(v, st);
      st.get_end();
      return v;
   });
}
static string bin(const string& s) { return ref::varuint(s.size()) + s; }

static void print_case(T& t, const string& s, bool full) {
   t.count("evaluations");
   string want = printed(s);
   auto   r    = lib::attempt([&] { return eosio::convert_to_json(s); });
   if (!t.ok(r.ok, "print-fail", hx(s) + " " + r.err))
      return;
   auto j = ref::parse(r.v);
   if (!t.ok(j && j->k == ref::J::Str, "not-json", hx(s) + " prints as " + hx(r.v)))
      return;
   t.ok(j->s == want, "content", hx(s) + " prints as " + r.v);
   t.distinct("nontrivial", fnv(s, 7));
   auto back = parse_native(r.v);
   t.ok(back.ok && back.v == want, "back", hx(s) + " -> " + r.v + " -> " + (back.ok ? hx(back.v) : back.err));
   if (!full)
      return;
   // the other ways a string reaches JSON text
   auto sv = lib::attempt([&] { return eosio::convert_to_json(std::string_view(s)); });
   t.ok(sv.ok && sv.v == r.v, "string_view", hx(s));
   auto pr = lib::attempt([&] { return eosio::format_json(s); });
   t.ok(pr.ok && pr.v == r.v, "pretty", hx(s));
   auto d = lib::dec(cx().t, bin(s));
   t.ok(d.ok && d.v == r.v, "abi-print", hx(s) + " " + d.v + d.err);
   auto da = lib::dec(cx().ta, "\x02" + bin(s) + bin(s));
   t.ok(da.ok && da.v == "[" + r.v + "," + r.v + "]", "abi-array", hx(s) + " " + da.v + da.err);
   auto b = lib::enc(cx().t, r.v);
   t.ok(b.ok && b.v == bin(want), "abi-parse", hx(s) + " " + b.err);
   auto br = lib::encr(cx().t, r.v);
   t.ok(br.ok && br.v == bin(want), "abi-parse-reorder", hx(s) + " " + br.err);
}

// The distribution's rapidjson 1.1.0 accepts an escaped low surrogate on its own (later versions do not): literals with
// no other fault are not judged.
static bool only_lone_low(const string& lit) {
   string r;
   bool   any = false;
   auto   sur = [&](size_t i) { // 1 high, 2 low
      if (lit.compare(i, 2, "\\u") || i + 6 > lit.size() || (lit[i + 2] | 32) != 'd')
         return 0;
      for (int k = 3; k < 6; ++k)
         if (!isxdigit((unsigned char)lit[i + k]))
            return 0;
      char c = lit[i + 3] | 32;
      return c == '8' || c == '9' || c == 'a' || c == 'b' ? 1 : c >= 'c' && c <= 'f' ? 2 : 0;
   };
   for (size_t i = 0; i < lit.size();) {
      if (sur(i) == 1 && sur(i + 6 <= lit.size() ? i + 6 : lit.size()) == 2)
         r += "x", i += 12;
      else if (sur(i) == 2)
         r += "x", i += 6, any = true;
      else if (lit[i] == '\\' && i + 1 < lit.size())
         r.append(lit, i, 2), i += 2;
      else
         r += lit[i++];
   }
   auto j = ref::parse(r);
   return any && j && j->k == ref::J::Str;
}
static void parse_case(T& t, const string& lit, bool full) {
   t.count("evaluations");
   if (lit.find('\0') != string::npos)
      return;
   auto j = ref::parse(lit);
   bool want = j && j->k == ref::J::Str;
   auto r = parse_native(lit);
   if (!want && j)
      return; // another kind of JSON value
   if (!want && only_lone_low(lit))
      return;
   if (want) {
      t.distinct("nontrivial", fnv(lit, 9));
      t.ok(r.ok, "refused", lit + " " + hx(lit) + ": " + r.err);
      if (r.ok)
         t.ok(r.v == j->s, "value", lit + " " + hx(lit) + " gives " + hx(r.v) + " wanted " + hx(j->s));
   } else
      t.ok(!r.ok, "accepted", lit + " " + hx(lit) + " gives " + hx(r.v));
   if (!full)
      return;
   auto b  = lib::enc(cx().t, lit);
   auto br = lib::encr(cx().t, lit);
   auto ba = lib::enc(cx().ta, "[" + lit + "," + lit + "]");
   auto bo = lib::encr(cx().ta, "[" + lit + "," + lit + "]");
   if (want) {
      string w = bin(j->s);
      t.ok(b.ok && b.v == w, "abi", lit + " " + b.err);
      t.ok(br.ok && br.v == w, "abi-reorder", lit + " " + br.err);
      t.ok(ba.ok && ba.v == "\x02" + w + w, "abi-array-in", lit + " " + ba.err);
      t.ok(bo.ok && bo.v == "\x02" + w + w, "abi-array-reorder", lit + " " + bo.err);
   } else {
      t.ok(!b.ok, "abi-accepted", lit);
      t.ok(!br.ok, "abi-reorder-accepted", lit);
      if (ref::parse("[" + lit + "," + lit + "]"))
         return;
      t.ok(!ba.ok, "abi-array-accepted", lit);
      t.ok(!bo.ok, "abi-array-reorder-accepted", lit);
   }
}

// A string as the name of a member and of a variant case, through loading, encoding and decoding.
static void name_case(T& t, const string& s) {
   t.count("evaluations");
   if (s.empty() || s.size() > 200)
      return;
   lib::Abi a;
   string   q = eosio::convert_to_json(s);
   if (!a.load("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"st\",\"base\":\"\",\"fields\":[{\"name\":\"zz\",\"type\":\"int8\"},{\"name\":" + q + ",\"type\":\"int8\"}]}]}")) {
      t.fail("load", hx(s) + " " + a.err);
      return;
   }
   auto   ty   = a.type("st");
   string alt; // the same name written with escapes only
   char   b[16];
   for (size_t i = 0; i < s.size();) {
      int      n = ref::utf8_len((const unsigned char*)s.data() + i, s.size() - i);
      unsigned c = (unsigned char)s[i];
      uint32_t cp = n == 1 ? c : n == 2 ? (c & 31) << 6 | (s[i + 1] & 63) : n == 3 ? (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63) : (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63);
      if (cp >= 0x10000) {
         snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
      } else
         snprintf(b, sizeof b, "\\u%04x", cp);
      alt += b;
      i += n;
   }
   for (auto& w : { q, "\"" + alt + "\"" }) {
      auto r = lib::enc(ty, "{\"zz\":1," + w + ":2}");
      t.ok(r.ok && r.v == string("\1\2"), "member", hx(s) + " as " + w + " " + r.err);
      r = lib::encr(ty, "{" + w + ":2,\"zz\":1}");
      t.ok(r.ok && r.v == string("\1\2"), "member-reorder", hx(s) + " as " + w + " " + r.err);
      r = lib::enc(ty, "{\"zz\":1," + w.substr(0, w.size() - 1) + "x\":2}");
      t.ok(!r.ok, "member-other", hx(s) + " as " + w);
   }
   auto d = lib::dec(ty, string("\1\2"));
   auto j = d.ok ? ref::parse(d.v) : std::nullopt;
   t.ok(j && j->k == ref::J::Obj && j->o.size() == 2 && j->o[1].first == s, "member-print", hx(s) + " " + d.v + d.err);
}

static void run(T& t) {
   bool deep = t.thorough();
   // printing: all strings of up to two bytes, then over class representatives
   for (int a = -1; a < 256; ++a) {
      if (!t.next())
         continue;
      t.desc("print pairs " + std::to_string(a));
      if (a < 0)
         print_case(t, "", true);
      else {
         print_case(t, string(1, a), true);
         for (int b = 0; b < 256; ++b) print_case(t, string{ char(a), char(b) }, true);
      }
   }
   static const unsigned char rep[] = { 0, 1, 0x1f, 0x20, '"', '/', '0', '\\', 'u', 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff };
   const int                  R     = sizeof rep;
   for (int a = 0; a < R; ++a)
      for (int b = 0; b < R; ++b) {
         if (!t.next())
            continue;
         t.desc("print " + std::to_string(a) + "," + std::to_string(b));
         for (int c = 0; c < R; ++c) {
            string s{ char(rep[a]), char(rep[b]), char(rep[c]) };
            print_case(t, s, true);
            parse_case(t, "\"" + s + "\"", true);
            for (int d = 0; d < R; ++d) {
               string s4 = s + char(rep[d]);
               print_case(t, s4, false);
               parse_case(t, "\"" + s4 + "\"", false);
               if (deep)
                  for (int e = 0; e < R; ++e) {
                     print_case(t, s4 + char(rep[e]), false);
                     parse_case(t, "\"" + s4 + char(rep[e]) + "\"", false);
                  }
            }
         }
      }
   // every character, alone, doubled and next to ASCII; and as escapes
   for (uint32_t hi = 0; hi < 0x110000; hi += 0x400) {
      if (!t.next())
         continue;
      t.desc("characters " + std::to_string(hi));
      for (uint32_t c = hi; c < hi + 0x400; ++c) {
         char b[32];
         if (c < 0x10000) {
            for (auto f : { "\"\\u%04x\"", "\"\\u%04X\"" }) {
               snprintf(b, sizeof b, f, c);
               parse_case(t, b, false);
            }
            if (c >= 0xd800 && c < 0xe000) { // lone surrogates with everything that may follow
               for (auto n : { "\\u0041", "\\ud7ff", "\\ud800", "\\udbff", "\\udc00", "\\udfff", "\\ue000", "\\n", "x", "\\u", "\\", "\\udc0", "\\Udc00", "" }) {
                  snprintf(b, sizeof b, "\"\\u%04x%s\"", c, n);
                  parse_case(t, b, c % 64 == 0);
               }
            }
            if (c >= 0xd800 && c < 0xe000)
               continue;
         } else {
            snprintf(b, sizeof b, "\"\\u%04x\\u%04x\"", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + (c & 0x3ff));
            parse_case(t, b, false);
         }
         string u;
         ref::put_utf8(u, c);
         print_case(t, u, false);
         print_case(t, "a" + u + u + "\"", false);
         if (c % 97 == 0) {
            print_case(t, u, true);
            print_case(t, u.substr(0, u.size() - 1), true);
            print_case(t, u.substr(0, u.size() - 1) + "\"" + u, true);
            print_case(t, u.substr(1) + u, true);
         }
      }
   }
   // parsing: all sequences of pieces
   static const std::vector<string> pc = { "a", "\"", "\\", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u0022", "\\u005C", "\\u00e9", "\\u20aC", "\\uD83d", "\\ude00", "\\uffff",
      "\\u", "0", "g", "\\u12", "\\x", "\\'", "\\U0041", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xa9", "\xff", "\xed\xa0\x80", "\n", "\x1f", "\x7f", " ", "'", "/", "\xef\xbb\xbf" };
   int                              P  = pc.size();
   int                              L  = deep ? 4 : 3;
   for (int a = -1; a < P; ++a)
      for (int b = -1; b < P; ++b) {
         if (a < 0 && b >= 0)
            continue;
         if (!t.next())
            continue;
         t.desc("pieces " + std::to_string(a) + "," + std::to_string(b));
         std::function<void(string, int)> go = [&](string s, int n) {
            parse_case(t, "\"" + s + "\"", n <= 3);
            parse_case(t, "\"" + s, false);
            parse_case(t, s + "\"", false);
            if (n < L)
               for (auto& p : pc) go(s + p, n + 1);
         };
         if (a < 0)
            parse_case(t, "\"\"", true), parse_case(t, "\"", true);
         else if (b < 0) {
            parse_case(t, "\"" + pc[a] + "\"", true);
            parse_case(t, "\"" + pc[a], false);
         } else
            go(pc[a] + pc[b], 2);
      }
   // long strings: a special element at every position around the places where lengths and buffers change
   for (int n : { 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 16383, 16384, 70000 }) {
      if (!t.next())
         continue;
      t.desc("long " + std::to_string(n));
      for (string x : { "\"", "\\", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "\xc3", "\n", "a" })
         for (int at : { 0, 1, 7, 8, 15, 16, n / 2, n - 17, n - 16, n - 2, n - 1, n }) {
            if (at < 0 || at > n)
               continue;
            string s(n, 'q');
            s.insert(at, x);
            print_case(t, s, true);
            if (at == n / 2)
               t.sample(hx(s));
         }
      string z(n, 0);
      print_case(t, z, true);
      string many;
      for (int i = 0; i < n; ++i) many += "\\u00e9\xc3\xa9\\\\\\\"";
      parse_case(t, "\"" + many + "\"", true);
   }
   static const std::vector<string> nm = { "a", "b", "\"", "\\", "/", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n", "\t", "\x01", "\x7f", " ", "\xc2\x80", "0", "'" };
   for (auto& x : nm)
      for (auto& y : nm) {
         if (!t.next())
            continue;
         t.desc("names " + hx(x + y));
         name_case(t, x);
         name_case(t, x + y);
         for (auto& z : nm) name_case(t, x + y + z);
      }
}
VH_MAIN(run)
