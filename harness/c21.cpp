// C21: keys and signatures as text; base 58.
#include "lib.hpp"
#include "ref.hpp"
#include "vh.hpp"
#include "hash.hpp"
#include <eosio/crypto.hpp>
using namespace vh;
using std::string;

struct Kind {
   const char *type, *prefix, *suffix;
   int         index;
   int         fixed; // leading fixed bytes
   int         tails; // length-prefixed strings that follow (web authentication)
   bool        out;   // the form used when printing
};
static const Kind kinds[] = { { "public_key", "PUB_K1_", "K1", 0, 33, 0, true }, { "public_key", "PUB_R1_", "R1", 1, 33, 0, true }, { "public_key", "PUB_WA_", "WA", 2, 34, 1, true }, { "public_key", "EOS", "", 0, 33, 0, false },
   { "private_key", "PVT_K1_", "K1", 0, 32, 0, true }, { "private_key", "PVT_R1_", "R1", 1, 32, 0, true }, { "signature", "SIG_K1_", "K1", 0, 65, 0, true }, { "signature", "SIG_R1_", "R1", 1, 65, 0, true },
   { "signature", "SIG_WA_", "WA", 2, 65, 2, true } };
static const char* types[] = { "public_key", "private_key", "signature" };

static bool well_formed(const Kind& k, const string& d) { // exactly one key of this kind
   size_t p = k.fixed;
   if (d.size() < p)
      return false;
   for (int i = 0; i < k.tails; ++i) {
      uint64_t n = 0;
      for (int s = 0;; s += 7) {
         if (p >= d.size() || s > 28)
            return false;
         uint8_t b = d[p++];
         n |= uint64_t(b & 127) << s;
         if (!(b & 128))
            break;
      }
      if (n > d.size() - p)
         return false;
      p += n;
   }
   return p == d.size();
}
static string text(const Kind& k, const string& d, const char* suffix = nullptr) { return k.prefix + ref::to_b58(d + ref::ripemd160(d + (suffix ? suffix : k.suffix)).substr(0, 4)); }

enum V { BAD, OK, WIF_BAD };
static V judge_text(const string& type, const string& s, string& out) {
   for (auto& k : kinds)
      if (type == k.type && s.compare(0, strlen(k.prefix), k.prefix) == 0) {
         string b;
         if (!ref::from_b58(std::string_view(s).substr(strlen(k.prefix)), b) || b.size() < 4)
            return BAD;
         string d = b.substr(0, b.size() - 4);
         if (!well_formed(k, d) || ref::ripemd160(d + k.suffix).substr(0, 4) != b.substr(d.size()))
            return BAD;
         out = char(k.index) + d;
         return OK;
      }
   if (type == "private_key" && s.compare(0, 4, "PVT_")) { // the older wallet form
      string b;
      if (!ref::from_b58(s, b))
         return BAD;
      if (!(b.size() == 37 || (b.size() == 38 && b[33] == 1)) || b[0] != '\x80')
         return BAD;
      string d = b.substr(0, b.size() - 4);
      out      = string(1, '\0') + b.substr(1, 32);
      return ref::sha256(ref::sha256(d)).substr(0, 4) == b.substr(d.size()) ? OK : WIF_BAD;
   }
   return BAD;
}
static lib::Abi& A() {
   static lib::Abi a;
   static bool     once = a.load(lib::empty_abi);
   return a;
}
static lib::Res parse(const string& type, const string& s) {
   return lib::attempt([&] {
      // an exact copy without terminator
      std::unique_ptr<char[]> p(new char[s.size() ? s.size() : 1]);
      memcpy(p.get(), s.data(), s.size());
      std::string_view v(p.get(), s.size());
      if (type == "public_key")
         return lib::str(eosio::convert_to_bin(eosio::public_key_from_string(v)));
      if (type == "private_key")
         return lib::str(eosio::convert_to_bin(eosio::private_key_from_string(v)));
      return lib::str(eosio::convert_to_bin(eosio::signature_from_string(v)));
   });
}
static lib::Res print(const string& type, const string& bin) {
   return lib::attempt([&] {
      std::vector<char> v(bin.begin(), bin.end());
      if (type == "public_key")
         return eosio::public_key_to_string(eosio::convert_from_bin<eosio::public_key>(v));
      if (type == "private_key")
         return eosio::private_key_to_string(eosio::convert_from_bin<eosio::private_key>(v));
      return eosio::signature_to_string(eosio::convert_from_bin<eosio::signature>(v));
   });
}
static void text_case(T& t, const string& type, const string& s, bool json = false) {
   t.count("evaluations");
   string want;
   V      v  = judge_text(type, s, want);
   auto   r  = parse(type, s);
   auto   id = [&] { return type + " '" + esc(cut(s, 160)) + "'"; };
   auto   chk = [&](const lib::Res& r, string how) {
      if (v == WIF_BAD)
         t.ok(!r.ok, "wif-checksum", id() + " has a wrong checksum and is accepted");
      else if (v == BAD)
         t.ok(!r.ok, "accepted" + how, id() + " gives " + hexs(r.v));
      else
         t.ok(r.ok && r.v == want, "refused" + how, id() + " gives " + (r.ok ? hexs(r.v) : r.err));
   };
   if (v == OK)
      t.distinct("nontrivial", fnv(type + s));
   chk(r, "");
   if (json) {
      for (unsigned char c : s)
         if (c >= 127)
            return;
      string q = "\"";
      char   b[8];
      for (unsigned char c : s)
         if (c < 32 || c == '"' || c == '\\') {
            snprintf(b, sizeof b, "\\u%04x", c);
            q += b;
         } else
            q += c;
      q += "\"";
      chk(lib::enc(A().type(type), q), ":abi");
      chk(lib::encr(A().type(type), q), ":abi-reorder");
      chk(type == "public_key" ? lib::njson<eosio::public_key>(q) : type == "private_key" ? lib::njson<eosio::private_key>(q) : lib::njson<eosio::signature>(q), ":native");
   }
}
static void data_case(T& t, const Kind& k, const string& d) { // a key: print and read
   t.count("evaluations");
   string w = text(k, d), bin = char(k.index) + d;
   t.distinct("nontrivial", fnv(bin, k.type[1]));
   text_case(t, k.type, w, true);
   if (!k.out)
      return;
   auto p = print(k.type, bin);
   t.ok(p.ok && p.v == w, "print", string(k.prefix) + " " + hexs(cut(d)) + " prints as " + p.v + p.err);
   auto j = lib::dec(A().type(k.type), bin);
   t.ok(j.ok && j.v == "\"" + w + "\"", "abi-print", string(k.prefix) + " " + j.v + j.err);
}
static std::vector<string> datas(const Kind& k, bool deep) {
   std::vector<string> r;
   int                 n = k.fixed;
   r.push_back(string(n, 0));
   r.push_back(string(n, '\xff'));
   string inc;
   for (int i = 0; i < n; ++i) inc += char(i * 37 + 2);
   r.push_back(inc);
   for (int i = 0; i < n; ++i) {
      string z = inc;
      for (int m = 0; m <= i; ++m) z[m] = 0;
      r.push_back(z); // leading zeros
      for (int v : { 1, 0x7f, 0x80, 0xff }) {
         string s(n, 0), u(n, '\xff');
         s[i] = v;
         u[i] = ~v;
         r.push_back(s), r.push_back(u);
      }
      if (deep)
         for (int v = 0; v < 256; ++v) {
            string s = inc;
            s[i]     = v;
            r.push_back(s);
         }
   }
   if (k.tails) {
      std::vector<string> base(r.begin(), r.begin() + 12), out;
      std::vector<int>    len = { 0, 1, 2, 31, 57, 58, 63, 64, 127, 128, 129, 255, 256, 300 };
      for (auto& b : base)
         for (int l : len)
            for (int c : { 0, 0x41, 0xff }) {
               string x = ref::varuint(l) + string(l, c);
               if (k.tails == 1)
                  out.push_back(b + x);
               else
                  for (int m : { 0, 1, 3, 128, 200 }) out.push_back(b + x + ref::varuint(m) + string(m, 'j'));
            }
      return out;
   }
   return r;
}
static void b58_case(T& t, const string& d) {
   t.count("evaluations");
   string w = ref::to_b58(d);
   auto   r = lib::attempt([&] { return eosio::to_base58(d.data(), d.size()); });
   t.ok(r.ok && r.v == w, "to-base58", hexs(cut(d)) + " gives " + r.v + " wanted " + w);
   auto b = lib::attempt([&] { return lib::str(eosio::from_base58(w)); });
   t.ok(b.ok && b.v == d, "base58-back", w + " gives " + hexs(b.v) + b.err);
   t.distinct("b58", fnv(d));
}
static void b58_text(T& t, const string& s) {
   t.count("evaluations");
   string w;
   bool   ok = ref::from_b58(s, w);
   auto   r  = lib::attempt([&] { return lib::str(eosio::from_base58(s)); });
   t.ok(r.ok == ok && (!ok || r.v == w), ok ? "from-base58" : "base58-accepted", "'" + esc(s) + "' gives " + (r.ok ? hexs(r.v) : r.err) + " wanted " + hexs(w));
}

static void run(T& t) {
   bool deep = t.thorough();
   if (t.next()) { // published test vectors keep the reference honest
      t.ok(hexs(ref::ripemd160("")) == "9c1185a5c5e9fc54612808977ee8f548b2258d31" && hexs(ref::ripemd160("abc")) == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc", "reference-ripemd", "");
      t.ok(hexs(ref::sha256("abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "reference-sha", "");
      // recorded texts
      static const std::pair<const char*, const char*> known[] = { { "public_key", "EOS1111111111111111111111111111111114T1Anm" }, { "public_key", "PUB_R1_1111111111111111111111111111111116amPNj" }, { "private_key", "PVT_R1_PtoxLPzJZURZmPS4e26pjBiAn41mkkLPrET5qHnwDvbvqFEL6" },
         { "private_key", "5KQwrPbwdL6PhXujxW37FSSQZ1JiwsST4cqQzDeyXtP79zkvFD3" }, { "signature", "SIG_K1_Kg2UKjXTX48gw2wWH4zmsZmWu3yarcfC21Bd9JPj7QoDURqiAacCHmtExPk3syPb2tFLsp1R4ttXLXgr7FYgDvKPC5RCkx" } };
      for (auto& [ty, s] : known) {
         string o;
         t.ok(judge_text(ty, s, o) == OK, "recorded", s);
         text_case(t, ty, s, true);
      }
   }
   for (auto& k : kinds) {
      auto ds = datas(k, deep);
      for (size_t b = 0; b < ds.size(); b += 16) {
         if (!t.next())
            continue;
         t.desc(string("data ") + k.prefix + std::to_string(b));
         for (size_t i = b; i < std::min(ds.size(), b + 16); ++i) {
            data_case(t, k, ds[i]);
            // the same data with another kind's prefix or checksum
            for (auto& o : kinds) {
               string body = text(k, ds[i]).substr(strlen(k.prefix));
               for (auto ty : types) text_case(t, ty, o.prefix + body);
               text_case(t, k.type, text(k, ds[i], o.suffix));
            }
         }
      }
      // every length, correctly checksummed
      for (int n = 0; n <= 140; ++n) {
         if (!t.next())
            continue;
         t.desc(string("length ") + k.prefix + std::to_string(n));
         for (int c : { 0, 1, 0x33, 0x41, 0xff })
            for (int lead : { 0, 1, 5 }) {
               string d(n, c);
               for (int i = 0; i < std::min(lead, n); ++i) d[i] = 0;
               text_case(t, k.type, text(k, d), true);
               string chk = ref::ripemd160(d + k.suffix).substr(0, 4);
               for (int m = 0; m < 4; ++m) text_case(t, k.type, k.prefix + ref::to_b58(d + chk.substr(0, m)));
               text_case(t, k.type, k.prefix + ref::to_b58(d + chk + '\0')), text_case(t, k.type, k.prefix + ref::to_b58('\0' + d + chk));
               text_case(t, k.type, k.prefix + ("1" + ref::to_b58(d + chk)));
            }
      }
      // checksums with particular bytes: every change of one or two of the four bytes
      for (int p = 0; p < 4; ++p)
         for (int v : { 0, 10, 0x7f, 0x80, 0xff }) {
            if (!t.next())
               continue;
            t.desc(string("checksum byte ") + k.prefix + std::to_string(p) + "=" + std::to_string(v));
            string d = ds[0], chk;
            for (int i = 0;; ++i) {
               d[d.size() - 1] = i, d[d.size() - 2] = i >> 8, d[d.size() - 3] = i >> 16;
               chk = ref::ripemd160(d + k.suffix).substr(0, 4);
               if ((unsigned char)chk[p] == v)
                  break;
            }
            text_case(t, k.type, text(k, d), true);
            for (int a = 0; a < 4; ++a)
               for (int c = 0; c < 256; ++c) {
                  string x = chk;
                  x[a]     = c;
                  text_case(t, k.type, k.prefix + ref::to_b58(d + x));
                  for (int b = a + 1; b < 4; ++b) {
                     string y = x;
                     y[b] ^= 1 + c % 255;
                     text_case(t, k.type, k.prefix + ref::to_b58(d + y));
                  }
               }
         }
      // edits of one text: every byte at every position, deletions, insertions, exchanges
      for (int which = 0; which < 3; ++which) {
         string d = ds[which], s = text(k, d);
         for (size_t p = 0; p <= s.size(); ++p) {
            if (!t.next())
               continue;
            t.desc(string("edit ") + s.substr(0, 12) + " at " + std::to_string(p));
            text_case(t, k.type, s.substr(0, p), true);
            text_case(t, k.type, s.substr(p), true);
            for (int c = 0; c < 256; ++c) {
               string u = s;
               u.insert(p, 1, c);
               text_case(t, k.type, u, c < 128 && c % 4 == 0);
               if (p < s.size()) {
                  u    = s;
                  u[p] = c;
                  text_case(t, k.type, u, c < 128 && c % 4 == 0);
               }
            }
            if (p < s.size())
               text_case(t, k.type, string(s).erase(p, 1));
            if (p + 1 < s.size()) {
               string u = s;
               std::swap(u[p], u[p + 1]);
               text_case(t, k.type, u);
            }
            for (size_t q = p + 1; q < s.size() && p < s.size(); ++q) {
               string u = s;
               std::swap(u[p], u[q]);
               text_case(t, k.type, u);
            }
            // checksum bits: every single and (deep) double flip of the four bytes
            string chk = ref::ripemd160(d + k.suffix).substr(0, 4);
            if (p < 32)
               for (int b = p; b < 32; ++b) {
                  string x = chk;
                  x[p / 8] ^= 1 << p % 8;
                  if (b != (int)p)
                     x[b / 8] ^= 1 << b % 8;
                  text_case(t, k.type, k.prefix + ref::to_b58(d + x));
               }
         }
      }
   }
   // the wallet form
   for (int n = 0; n <= 70; ++n) {
      if (!t.next())
         continue;
      t.desc("wallet " + std::to_string(n));
      for (int ver : { 0, 0x7f, 0x80, 0x81, 0xff })
         for (int c : { 0, 1, 0x55, 0xff })
            for (int last : { 0, 1, 2, 0xff }) {
               string d(n, c);
               if (n)
                  d[0] = ver;
               if (n > 1)
                  d[n - 1] = last;
               string s = ref::to_b58(d + ref::sha256(ref::sha256(d)).substr(0, 4));
               text_case(t, "private_key", s, true);
               text_case(t, "public_key", s);
               text_case(t, "signature", s);
               if (n == 33 && ver == 0x80)
                  for (int b = 0; b < 32; b += 5) {
                     string x = ref::sha256(ref::sha256(d)).substr(0, 4);
                     x[b / 8] ^= 1 << b % 8;
                     text_case(t, "private_key", ref::to_b58(d + x), true);
                  }
            }
   }
   // prefixes
   static const char* pre[] = { "", "E", "EO", "EOS", "eos", "EOSX", "PUB", "PUB_", "PUB_K", "PUB_K1", "PUB_K1_", "PUB_k1_", "PUB_R1_", "PUB_WA_", "PUB_W1_", "PUB_XX_", "PVT", "PVT_", "PVT_K1", "PVT_K1_", "PVT_R1_", "PVT_WA_", "SIG", "SIG_", "SIG_K1", "SIG_K1_", "SIG_R1_", "SIG_WA_", "SIG_XX_", " PUB_K1_", "PUB_K1__", "PUB-K1-" };
   for (auto p : pre) {
      if (!t.next())
         continue;
      t.desc(string("prefix ") + p);
      for (auto& k : kinds) {
         auto ds = datas(k, false);
         for (int i = 0; i < 6; ++i)
            for (auto ty : types) text_case(t, ty, p + text(k, ds[i]).substr(strlen(k.prefix)), true), text_case(t, ty, p + text(k, ds[i]));
      }
      for (auto ty : types)
         for (int n = 0; n < 60; ++n) text_case(t, ty, p + string(n, '1'), true);
   }
   // variant indices with no key kind
   if (t.next())
      for (auto ty : types)
         for (int i = 0; i < 256; ++i) {
            bool   ok  = i < (string(ty) == "private_key" ? 2 : 3);
            auto   r   = lib::dec(A().type(ty), ref::varuint(i) + string(80, 0));
            auto   r66 = lib::dec(A().type(ty), ref::varuint(i));
            t.count("evaluations");
            t.ok(ok || !r.ok, "index", string(ty) + " " + std::to_string(i));
            t.ok(!r66.ok, "index-short", string(ty) + " " + std::to_string(i));
         }
   // base 58
   for (int a = -1; a < 256; ++a) {
      if (!t.next())
         continue;
      t.desc("base58 " + std::to_string(a));
      if (a < 0) {
         b58_case(t, "");
         b58_text(t, "");
         continue;
      }
      b58_case(t, string(1, a));
      b58_text(t, string(1, a));
      for (int b = 0; b < 256; ++b) {
         string s{ char(a), char(b) };
         b58_case(t, s);
         b58_text(t, s);
         for (int c : { 0, 1, 57, 58, 0x7f, 0x80, 0xff }) {
            b58_case(t, s + char(c));
            b58_case(t, char(c) + s + char(a ^ b));
            if (deep)
               for (int d : { 0, 1, 57, 58, 0x7f, 0x80, 0xff }) b58_case(t, s + char(c) + char(d));
         }
         if (strchr(ref::b58(), a) && strchr(ref::b58(), b) && a && b)
            for (int c = 0; c < 58; ++c) {
               b58_text(t, s + ref::b58()[c]);
               if (deep)
                  for (int d = 0; d < 58; ++d) b58_text(t, s + ref::b58()[c] + ref::b58()[d]);
            }
      }
      for (int z = 0; z <= 40; ++z)
         for (int n : { 0, 1, 2, 7, 8, 9, 20, 33, 64, 65 }) {
            string s(z, 0);
            s += string(n, a);
            b58_case(t, s);
            string u(z, '1');
            if (n < 10)
               b58_text(t, u + string(n, a)), b58_text(t, u + string(n, 'z') + char(a) + "1");
         }
   }
   t.sample(text(kinds[0], string(33, 2)));
}
VH_MAIN(run)
