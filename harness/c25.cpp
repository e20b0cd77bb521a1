// C25: streams and hex decoding.  All operation sequences up to a depth on every stream class over exact-size heap buffers
// (AddressSanitizer sees any access outside), in lock step with a model: contents and position.
#include "vh.hpp"
#include "lib.hpp"
#include <eosio/from_json.hpp>
#include <eosio/stream.hpp>
using Sizes = std::vector<size_t>;
static const Sizes HUGE_N = { 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
                              0xffffffffffff0000ull, ~0ull - 8, ~0ull - 4, ~0ull - 3, ~0ull - 2, ~0ull - 1, ~0ull };

struct Op {
   int    kind;
   size_t n;
};
static std::string show(const std::vector<Op>& o, const std::vector<int>& ix, int d, const char* const* names) {
   std::string s;
   for (int i = 0; i <= d; ++i) {
      char b[64];
      snprintf(b, sizeof b, " %s(%zx)", names[o[ix[i]].kind], o[ix[i]].n);
      s += b;
   }
   return s;
}

// ---- input streams ----------------------------------------------------------------------------------------------------------------
struct IModel {
   size_t pos = 0, size;
};
static const char* const INAMES[] = { "read", "skip", "borrow", "check", "raw8", "raw16", "raw32", "raw64", "copy" };

static std::string istep(eosio::input_stream& s, const char* base, IModel& m, const Op& o) {
   size_t left = m.size - m.pos, n = o.n;
   bool   want = true, got = true;
   size_t adv  = 0;
   std::string data, expect;
   const char* borrowed = nullptr;
   if (o.kind >= 4 && o.kind < 8)
      n = (size_t)1 << (o.kind - 4);
   if (o.kind != 8) {
      want = n <= left;
      adv  = want && o.kind != 3 ? n : 0;
   }
   try {
      switch (o.kind) {
         case 0: {
            std::unique_ptr<char[]> d(new char[n <= 64 ? n + 1 : 1]);
            s.read(d.get(), n);
            if (n <= 64)
               data.assign(d.get(), n);
            break;
         }
         case 1: s.skip(n); break;
         case 2:
            s.read_reuse_storage(borrowed, n);
            if (n <= left)
               data.assign(borrowed, n);
            break;
         case 3: s.check_available(n); break;
         case 4: { uint8_t x; s.read_raw(x); data.assign((char*)&x, 1); break; }
         case 5: { uint16_t x; s.read_raw(x); data.assign((char*)&x, 2); break; }
         case 6: { uint32_t x; s.read_raw(x); data.assign((char*)&x, 4); break; }
         case 7: { uint64_t x; s.read_raw(x); data.assign((char*)&x, 8); break; }
         case 8: {
            eosio::input_stream c(s), d;
            d = c;
            if (c.remaining())
               c.skip(1); // does not move the original
            s = d;
            break;
         }
      }
   } catch (std::exception&) { got = false; }
   if (want != got)
      return want ? "refused" : "accepted";
   if (want && (o.kind == 0 || o.kind == 2 || (o.kind >= 4 && o.kind < 8)))
      if (data != std::string(base + m.pos, n))
         return "gave wrong bytes " + vh::hexs(data);
   if (want && o.kind == 2 && borrowed != base + m.pos)
      return "borrowed from the wrong place";
   m.pos += adv;
   if (s.pos != base + m.pos || s.end != base + m.size || s.remaining() != m.size - m.pos || s.get_pos() != s.pos)
      return "left the position at " + std::to_string(s.pos - base) + " instead of " + std::to_string(m.pos);
   return "";
}

static void input(vh::T& t, size_t size, int ctor, const std::vector<Op>& ops, int depth, int first) {
   std::vector<int> ix(depth, 0);
   ix[0] = first;
   std::unique_ptr<char[]> buf(new char[size]);
   for (size_t i = 0; i < size; ++i) buf[i] = (char)(0x81 + 13 * i);
   std::vector<char> vec(buf.get(), buf.get() + size);
   vec.shrink_to_fit();
   const char* base = ctor == 2 ? vec.data() : buf.get();
   for (;;) {
      eosio::input_stream s = ctor == 0   ? eosio::input_stream(base, size)
                              : ctor == 1 ? eosio::input_stream(base, base + size)
                              : ctor == 2 ? eosio::input_stream(vec)
                                          : eosio::input_stream(std::string_view(base, size));
      IModel m{ 0, size };
      for (int d = 0; d < depth; ++d) {
         t.count("transitions");
         auto e = istep(s, base, m, ops[ix[d]]);
         if (e.size()) {
            t.fail("in:" + std::to_string(size) + ":" + std::to_string(ctor) + show(ops, ix, d, INAMES), "input stream of " + std::to_string(size) + " bytes after" + show(ops, ix, d, INAMES) + " " + e);
            break;
         }
         t.distinct("states", size * 100 + m.pos);
      }
      t.count("traces");
      int i = depth - 1;
      while (i > 0 && ++ix[i] == (int)ops.size()) ix[i--] = 0;
      if (i == 0)
         break;
   }
}

// ---- output streams ---------------------------------------------------------------------------------------------------------------
static const char* const ONAMES[] = { "char", "write", "raw16", "raw32", "raw64", "literal3", "uint8" };
static const char        SRC[16]  = { 1, -2, 3, -4, 5, -6, 7, -8, 9, -10, 11, -12, 13, -14, 15, -16 };
struct Raw3 {
   char x[3];
};
template <typename S>
static void opt(S& s, const Op& o, const char* src) {
   switch (o.kind) {
      case 0: s.write(src[0]); break;
      case 1: s.write((const void*)src, o.n); break;
      case 2: s.write_raw(*(const uint16_t*)SRC); break;
      case 3: s.write_raw(*(const uint32_t*)SRC); break;
      case 4: s.write_raw(*(const uint64_t*)SRC); break;
      case 5: s.write_raw(*(const Raw3*)SRC); break;
      case 6: s.write_raw((uint8_t)SRC[0]); break;
   }
}
static size_t osize(const Op& o) {
   static const size_t k[] = { 1, 0, 2, 4, 8, 3, 1 };
   return o.kind == 1 ? o.n : k[o.kind];
}
template <typename FS>
static void output(vh::T& t, const char* what, size_t size, const std::vector<Op>& ops, int depth, int first) {
   std::vector<int> ix(depth, 0);
   ix[0] = first;
   for (;;) {
      std::unique_ptr<char[]> buf(new char[size + 1]);
      std::unique_ptr<char[]> exact(new char[size]);
      memset(exact.get(), 0x55, size);
      FS                      s(exact.get(), size);
      std::vector<char>       vec;
      eosio::vector_stream    vs(vec);
      eosio::size_stream      ss;
      std::string             model, all;
      for (int d = 0; d < depth; ++d) {
         t.count("transitions");
         const Op& o    = ops[ix[d]];
         size_t    n    = osize(o);
         bool      want = n <= size - model.size(), got = true;
         try {
            opt(s, o, SRC + d);
         } catch (std::exception&) { got = false; }
         std::string e;
         std::string bytes((o.kind == 0 || o.kind == 1 ? SRC + d : SRC), n <= 8 ? n : 0);
         if (want)
            model += bytes;
         if (want != got)
            e = want ? "refused" : "accepted";
         else if (s.pos != exact.get() + model.size() || s.end != exact.get() + size)
            e = "left the position at " + std::to_string(s.pos - exact.get()) + " instead of " + std::to_string(model.size());
         else if (std::string(exact.get(), size) != model + std::string(size - model.size(), 0x55))
            e = "left " + vh::hexs(exact.get(), size) + " instead of " + vh::hexs(model);
         if (n <= 8) {
            opt(vs, o, SRC + d);
            all += bytes;
            if (lib::str(vec) != all)
               e += " growing buffer holds " + vh::hexs(vec);
         }
         size_t before = ss.size;
         opt(ss, o, SRC + d);
         if (ss.size != before + n)
            e += " size counter advanced by " + std::to_string(ss.size - before);
         if (e.size()) {
            t.fail(std::string("out:") + what + ":" + std::to_string(size) + show(ops, ix, d, ONAMES), std::string(what) + " of " + std::to_string(size) + " bytes:" + show(ops, ix, d, ONAMES) + " " + e);
            break;
         }
         t.distinct("states", 100000 + size * 100 + model.size());
      }
      t.count("traces");
      int i = depth - 1;
      while (i > 0 && ++ix[i] == (int)ops.size()) ix[i--] = 0;
      if (i == 0)
         break;
   }
}
// String literals include their terminator.
static void literals(vh::T& t) {
   auto chk = [&](auto& lit, size_t n) {
      for (size_t size = 0; size <= n + 1; ++size) {
         std::unique_ptr<char[]> exact(new char[size]);
         eosio::fixed_buf_stream f(exact.get(), size);
         bool                    got = true;
         try {
            f.write(lit);
         } catch (std::exception&) { got = false; }
         t.count("transitions");
         t.ok(got == (n <= size) && f.pos == exact.get() + (got ? n : 0) && (!got || !memcmp(exact.get(), lit, n)), "literal:" + std::to_string(n) + "/" + std::to_string(size), "writing an array of " + std::to_string(n) + " characters to " + std::to_string(size) + " bytes");
      }
      eosio::size_stream ss;
      ss.write(lit);
      t.ok(ss.size == n, "literalsize:" + std::to_string(n), "size counter");
   };
   chk("", 1);
   chk("a", 2);
   chk("abc", 4);
   chk("\0\1", 3);
}

// ---- pretty printing streams ------------------------------------------------------------------------------------------------------
static void pretty(vh::T& t, int depth, int first) {
   // ops: + increase, - decrease, n newline, c colon, x character, s two characters
   const char       ops[] = "+-ncxs";
   std::vector<int> ix(depth, 0);
   ix[0] = first;
   for (;;) {
      std::string hist;
      for (int i = 0; i < depth; ++i) hist += ops[ix[i]];
      std::string want;
      std::vector<size_t> ends;
      size_t indent = 0;
      std::vector<bool> okv;
      for (char c : hist) {
         bool ok = true;
         if (c == '+')
            indent += 4;
         else if (c == '-') {
            if (indent < 4)
               ok = false;
            else
               indent -= 4;
         } else if (c == 'n')
            want += "\n" + std::string(indent, ' ');
         else if (c == 'c')
            want += ": ";
         else if (c == 'x')
            want += 'x';
         else
            want += "yz";
         okv.push_back(ok);
      }
      auto apply = [&](auto& s) -> std::string {
         for (size_t i = 0; i < hist.size(); ++i) {
            bool got = true;
            try {
               switch (hist[i]) {
                  case '+': increase_indent(s); break;
                  case '-': decrease_indent(s); break;
                  case 'n': write_newline(s); break;
                  case 'c': write_colon(s); break;
                  case 'x': s.write('x'); break;
                  default: s.write("yz", 2);
               }
            } catch (std::exception&) { got = false; }
            if (got != okv[i])
               return "operation " + std::to_string(i) + (got ? " accepted" : " refused");
         }
         return "";
      };
      t.count("traces");
      t.count("transitions", hist.size() * 3);
      eosio::pretty_stream<eosio::size_stream> ss;
      std::vector<char>                        vec;
      eosio::pretty_stream<eosio::vector_stream> vs(vec);
      std::unique_ptr<char[]>                  exact(new char[want.size()]);
      eosio::pretty_stream<eosio::fixed_buf_stream> fs(exact.get(), want.size());
      auto e1 = apply(ss), e2 = apply(vs), e3 = apply(fs);
      t.ok(e1.empty() && ss.size == want.size(), "psize:" + hist, "size counter with indentation after " + hist + ": " + e1 + " size " + std::to_string(ss.size));
      t.ok(e2.empty() && lib::str(vec) == want, "pvec:" + hist, "growing buffer with indentation after " + hist + ": " + e2 + " " + lib::str(vec));
      t.ok(e3.empty() && fs.pos == fs.end && std::string(exact.get(), want.size()) == want, "pfix:" + hist, "fixed buffer with indentation after " + hist + ": " + e3);
      t.distinct("states", vh::fnv(want, indent));
      // without indentation
      std::string flat;
      for (char c : hist) flat += c == 'c' ? ":" : c == 'x' ? "x" : c == 's' ? "yz" : "";
      std::vector<char>    fv;
      eosio::vector_stream fvs(fv);
      for (char c : hist) {
         switch (c) {
            case '+': increase_indent(fvs); break;
            case '-': decrease_indent(fvs); break;
            case 'n': write_newline(fvs); break;
            case 'c': write_colon(fvs); break;
            case 'x': fvs.write('x'); break;
            default: fvs.write("yz", 2);
         }
      }
      t.ok(lib::str(fv) == flat, "flat:" + hist, "compact stream after " + hist + ": " + lib::str(fv));
      int i = depth - 1;
      while (i > 0 && ++ix[i] == 6) ix[i--] = 0;
      if (i == 0)
         break;
   }
}

// ---- hex --------------------------------------------------------------------------------------------------------------------------
static int nib(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void hex_one(vh::T& t, const std::string& s) {
   bool        ok = s.size() % 2 == 0;
   std::string want;
   for (size_t i = 0; ok && i < s.size(); i += 2)
      if (nib(s[i]) < 0 || nib(s[i + 1]) < 0)
         ok = false;
      else
         want += (char)(nib(s[i]) * 16 + nib(s[i + 1]));
   std::unique_ptr<char[]> exact(new char[s.size()]);
   memcpy(exact.get(), s.data(), s.size());
   const char *b = exact.get(), *e = b + s.size();
   std::string key = "hex:" + vh::hexs(s);
   t.count("transitions", 4);
   std::vector<char> v1;
   bool              r1 = eosio::unhex(std::back_inserter(v1), b, e);
   std::string       v2, err;
   bool              r2 = abieos::unhex(err, b, e, std::back_inserter(v2));
   std::string_view  sv(b, s.size());
   std::vector<char> v3;
   bool              r3 = eosio::unhex(std::back_inserter(v3), sv.begin(), sv.end());
   std::unique_ptr<char[]> out(new char[s.size() / 2]);
   bool              r4 = !ok || eosio::unhex(out.get(), b, e); // a plain buffer of the decoded size
   t.ok(r1 == ok && (!ok || lib::str(v1) == want), key, "unhex of " + vh::esc(s) + (r1 ? " gave " + vh::hexs(v1) : " refused"));
   t.ok(r2 == ok && (!ok || v2 == want), "a" + key, "abieos::unhex of " + vh::esc(s) + (r2 ? " gave " + vh::hexs(v2) : " refused"));
   t.ok(r2 || !err.empty(), "msg" + key, "refused without an error message");
   t.ok(r3 == ok && (!ok || lib::str(v3) == want), "sv" + key, "unhex of a view of " + vh::esc(s));
   t.ok(r4 && (!ok || std::string(out.get(), want.size()) == want), "buf" + key, "unhex into a buffer");
   if (ok) {
      auto h = abieos::hex(want.begin(), want.end());
      t.ok(h.size() == s.size() && !strcasecmp(h.c_str(), s.c_str()), "back" + key, "hex gives " + h);
      t.distinct("states", vh::fnv(s));
   }
   // JSON (the text is printable)
   bool plain = true;
   for (unsigned char c : s) plain &= c >= 32 && c < 127 && c != '"' && c != '\\';
   if (plain) {
      std::string       doc = "\"" + s + "\"";
      std::vector<char> v5{ 'o', 'l', 'd' };
      auto              r = lib::attempt([&] {
         doc.append(3, '\0');
         eosio::json_token_stream st(doc.data());
         from_json_hex(v5, st);
         return lib::str(v5);
      });
      t.ok(r.ok == ok && (!ok || r.v == want), "json" + key, "from_json_hex of " + s + (r.ok ? " gave " + vh::hexs(r.v) : " refused"));
   }
}

static void run(vh::T& t) {
   std::vector<Op> iops, oops;
   for (int k = 0; k < 4; ++k) {
      for (size_t n = 0; n <= 6; ++n) iops.push_back({ k, n });
      for (auto n : HUGE_N) iops.push_back({ k, n });
   }
   for (int k = 4; k <= 8; ++k) iops.push_back({ k, 0 });
   for (size_t n = 0; n <= 6; ++n) oops.push_back({ 1, n });
   for (auto n : HUGE_N) oops.push_back({ 1, n });
   for (int k : { 0, 2, 3, 4, 5, 6 }) oops.push_back({ k, 0 });
   int d = t.thorough() ? 3 : 2;
   for (size_t size = 0; size <= 9; ++size)
      for (int ctor = 0; ctor < 4; ++ctor)
         for (size_t f = 0; f < iops.size(); ++f)
            if (t.next()) {
               t.desc("input stream, " + std::to_string(size) + " bytes, first " + INAMES[iops[f].kind] + " " + std::to_string(iops[f].n));
               input(t, size, ctor, iops, size <= 4 && ctor == 0 ? d + 1 : d, f);
            }
   for (size_t size = 0; size <= 9; ++size)
      for (size_t f = 0; f < oops.size(); ++f) {
         if (t.next()) {
            t.desc("output, " + std::to_string(size) + " bytes, first " + ONAMES[oops[f].kind] + " " + std::to_string(oops[f].n));
            output<eosio::fixed_buf_stream>(t, "fixed buffer", size, oops, size <= 4 ? d + 1 : d, f);
         }
         if (t.next()) {
            t.desc("indented output, " + std::to_string(size) + " bytes, first " + ONAMES[oops[f].kind] + " " + std::to_string(oops[f].n));
            output<eosio::pretty_stream<eosio::fixed_buf_stream>>(t, "indenting fixed buffer", size, oops, d, f);
         }
      }
   if (t.next())
      literals(t);
   // long sequences of small operations
   std::vector<Op> is, os;
   for (int k = 0; k < 3; ++k)
      for (size_t n = 0; n <= 2; ++n) is.push_back({ k, n });
   is.push_back({ 5, 0 });
   for (size_t n = 0; n <= 2; ++n) os.push_back({ 1, n });
   os.push_back({ 0, 0 });
   os.push_back({ 2, 0 });
   for (size_t size = 0; size <= 6; ++size) {
      for (size_t f = 0; f < is.size(); ++f)
         if (t.next())
            input(t, size, 0, is, t.thorough() ? 6 : 5, f);
      for (size_t f = 0; f < os.size(); ++f)
         if (t.next())
            output<eosio::fixed_buf_stream>(t, "fixed buffer", size, os, t.thorough() ? 9 : 7, f);
   }
   for (int depth = 1; depth <= (t.thorough() ? 9 : 7); ++depth)
      for (int f = 0; f < 6; ++f)
         if (t.next())
            pretty(t, depth, f);
   // hex: all strings of up to two bytes, all strings over class representatives
   if (t.next())
      hex_one(t, "");
   for (int a = 0; a < 256; ++a)
      if (t.next()) {
         hex_one(t, std::string(1, a));
         for (int b = 0; b < 256; ++b) hex_one(t, std::string{ (char)a, (char)b });
      }
   std::string al("09afAFgG/:@`\0\x80\xff x", 17);
   int         maxl = t.thorough() ? 5 : 4;
   for (int len = 3; len <= maxl; ++len) {
      std::vector<int> ix(len, 0);
      for (;;) {
         if (t.next()) {
            // the last two letters run inside one case
            for (char y : al)
               for (char z : al) {
                  std::string s;
                  for (int i = 0; i < len - 2; ++i) s += al[ix[i]];
                  hex_one(t, s + y + z);
               }
         }
         int i = len - 3;
         while (i >= 0 && ++ix[i] == (int)al.size()) ix[i--] = 0;
         if (i < 0)
            break;
      }
   }
   for (size_t n = 0; n < 80; ++n)
      if (t.next()) {
         std::string s;
         for (size_t i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[(i * 5 + n) % 22];
         hex_one(t, s);
         for (size_t i = 0; i < n; ++i) {
            auto x = s;
            x[i]   = 'g';
            hex_one(t, x);
            x[i] = 0;
            hex_one(t, x);
         }
      }
}
VH_MAIN(run)
