// C28: the name tool, run in process, against a reference of its command line and of the conversions.
#define main name_tool_main
#include "../tools/name.cpp"
#undef main
#include "vh.hpp"
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
using Args = std::vector<string>;

struct Out {
   int    code = -1;
   string out;
   bool   diag = false;
   string thrown;
};
// argv is built from exact-size blocks, so that reading past an argument is noticed
static Out tool(const string& argv0, const Args& args, const string& in) {
   std::vector<std::unique_ptr<char[]>> own;
   std::unique_ptr<const char*[]>       av(new const char*[args.size() + 2]);
   auto                                 put = [&](const string& s) {
      own.emplace_back(new char[s.size() + 1]);
      memcpy(own.back().get(), s.c_str(), s.size() + 1);
      return own.back().get();
   };
   av[0] = put(argv0);
   for (size_t i = 0; i < args.size(); ++i) av[i + 1] = put(args[i]);
   av[args.size() + 1] = nullptr;
   std::ostringstream o, e;
   std::istringstream i(in);
   auto *             ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf()), *ib = std::cin.rdbuf(i.rdbuf());
   std::ios           fresh(nullptr);
   std::cout.copyfmt(fresh);
   std::cin.clear();
   Out r;
   try {
      r.code = name_tool_main((int)args.size() + 1, av.get());
   } catch (std::exception& x) { r.thrown = x.what(); } catch (...) {
      r.thrown = "unknown exception";
   }
   std::cout.rdbuf(ob);
   std::cerr.rdbuf(eb);
   std::cin.rdbuf(ib);
   std::cout.clear();
   std::cerr.clear();
   r.out  = o.str();
   r.diag = !e.str().empty();
   return r;
}

// ---- reference ---------------------------------------------------------------------------------------------------------------------
static int val(unsigned char c) { return c == '.' ? 0 : c >= '1' && c <= '5' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 6 : -1; }
static bool to_number(const string& s, uint64_t& v) {
   if (s.size() > 13)
      return false;
   v = 0;
   for (size_t i = 0; i < 13; ++i) {
      int d = i < s.size() ? val(s[i]) : 0;
      if (d < 0 || (i == 12 && d > 15))
         return false;
      v = i < 12 ? v * 32 + d : v * 16 + d;
   }
   return true;
}
static string to_name(uint64_t v) {
   static const char* al = ".12345abcdefghijklmnopqrstuvwxyz";
   string             s(13, '.');
   s[12] = al[v % 16];
   v /= 16;
   for (int i = 11; i >= 0; --i) s[i] = al[v % 32], v /= 32;
   while (!s.empty() && s.back() == '.') s.pop_back();
   return s;
}
static string dec(uint64_t v) {
   string s;
   do s.insert(s.begin(), (char)('0' + v % 10));
   while (v /= 10);
   return s;
}
static string hex(uint64_t v) {
   if (!v)
      return "0";
   string s;
   for (; v; v /= 16) s.insert(s.begin(), "0123456789abcdef"[v % 16]);
   return "0x" + s;
}
// 1: a number, 0: not one, -1: not judged (leading white space or plus sign)
static int number(const string& s, uint64_t& v) {
   if (s.size() > 2 && s[0] == '0' && (s[1] | 32) == 'b')
      return -1; // binary numbers depend on the C library
   if (!s.empty() && (s[0] == '+' || strchr(" \t\n\v\f\r", s[0])) && s[0])
      return s.find('-') == string::npos ? -1 : 0;
   size_t i    = 0;
   int    base = 10;
   if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
      base = 16;
      i    = 2;
   } else if (s.size() > 1 && s[0] == '0') {
      base = 8;
      i    = 1;
   }
   if (i == s.size())
      return 0;
   unsigned __int128 x = 0;
   for (; i < s.size(); ++i) {
      char c = s[i];
      int  d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
      if (d >= base)
         return 0;
      x = x * base + d;
      if (x >> 64)
         return 0;
   }
   v = (uint64_t)x;
   return 1;
}
struct Want {
   int    code = 0;
   string out;
   bool   diag = false, judged = true;
};
static Want expect(const string& argv0, const Args& args, const string& in) {
   bool   rev = argv0.find("name2num") != string::npos, hx = true;
   Args   vals;
   Want   w;
   for (auto& a : args) {
      if (a.empty() || a[0] != '-') {
         vals.push_back(a);
         continue;
      }
      if (a == "--help")
         return { 2, "", true };
      if (a == "--reverse")
         rev = !rev;
      else if (a == "--hex")
         hx = true;
      else if (a == "--dec")
         hx = false;
      else
         for (char c : a.substr(1)) {
            if (c == 'x')
               hx = true;
            else if (c == 'd')
               hx = false;
            else if (c == 'r')
               rev = !rev;
            else
               return { 2, "", true };
         }
   }
   if (vals.empty()) {
      std::istringstream i(in);
      string             l;
      while (std::getline(i, l)) vals.push_back(l);
   }
   for (auto& v : vals) {
      uint64_t n;
      if (rev) {
         if (to_number(v, n))
            w.out += (hx ? hex(n) : dec(n)) + "\n";
         else {
            w.code = 1;
            w.diag = true;
         }
      } else {
         int k = number(v, n);
         if (k < 0)
            w.judged = false;
         else if (k)
            w.out += to_name(n) + "\n";
         else {
            w.code = 1;
            w.diag = true;
         }
      }
   }
   return w;
}
static void one(vh::T& t, const string& argv0, const Args& args, const string& in) {
   string k = argv0;
   for (auto& a : args) k += " '" + a + "'";
   k += " <";
   for (char c : in) k += c == '\n' ? string("\\n") : string(1, c);
   Out  o = tool(argv0, args, in);
   Want w = expect(argv0, args, in);
   t.count("evaluations");
   t.distinct("nontrivial", vh::fnv(k));
   if (!o.thrown.empty()) {
      t.fail("crash:" + k, k + " ends with an exception: " + o.thrown);
      return;
   }
   if (!w.judged)
      return;
   auto show = [](string s, int c, bool d) {
      for (size_t i; (i = s.find('\n')) != string::npos;) s.replace(i, 1, "\\n");
      return "'" + s + "' status " + std::to_string(c) + (d ? " with a diagnostic" : "");
   };
   t.ok(o.code == w.code && o.out == w.out && o.diag == w.diag, k, k + " gives " + show(o.out, o.code, o.diag) + " wanted " + show(w.out, w.code, w.diag));
}

static void run(vh::T& t) {
   const Args opts{ "-x", "-d", "-r", "-h", "--hex", "--dec", "--reverse", "--help", "-xd", "-dx", "-rr", "-dr", "-rd", "-q", "-xq", "--bogus", "--he", "--hexx", "-", "--", "-1", "-eosio" };
   const Args values{ "", "a", "z", "1", "5", "6", "0", "eosio", "eosio.token", "zzzzzzzzzzzzj", "zzzzzzzzzzzzk", "zzzzzzzzzzzzzz", "............1", "a.", ".a", "a.b", "ABC", "a-b", "a b", "12345", "0x10", "0XfF", "0x", "x1", "010", "08", "12a", "a1",
      "18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "6138663577826885632", "0x5530ea0000000000", "01777777777777777777777", "02000000000000000000000", "99999999999999999999999999", "\x80", "\xff" };
   Args all = opts;
   all.insert(all.end(), values.begin(), values.end());
   const Args names{ "name", "/x/name2num", "num2name", "./name2num.exe" };
   for (auto& n : names) {
      for (auto& a : all)
         for (auto& b : all)
            if (t.next()) {
               t.desc(n + " " + a + " " + b);
               t.sample(n + " " + a + " " + b);
               one(t, n, { a, b }, "1\na\n");
               for (auto& c : all) one(t, n, { a, b, c }, "1\na\n");
               if (t.thorough() && n != names[0] && n != names[3])
                  for (auto& c : all)
                     for (auto& d : opts) one(t, n, { a, b, c, d }, "1\na\n");
            }
      for (auto& a : all)
         if (t.next()) {
            t.desc(n + " " + a);
            one(t, n, { a }, "1\na\n");
            one(t, n, { a }, "");
         }
      // values from standard input
      Args lines = values;
      for (auto s : { "-1", "-0", " -1", "+1", " 1", "1 ", "1\r", "a\r", "-r", "\t", "1,2", "1.5", "1e3", "0b1", "0x-1", "- 1", "1-", "-", "-18446744073709551615" }) lines.push_back(s);
      lines.push_back(string("1\0", 2));
      lines.push_back(string("a\0", 2));
      lines.push_back(string("1\0002", 3));
      std::vector<Args> pre{ {} };
      for (auto& o : opts) pre.push_back({ o });
      for (auto o : { "-x", "-d", "-r" })
         for (auto p : { "-x", "-d", "-r" }) pre.push_back({ o, p });
      for (auto& p : pre)
         for (auto& a : lines)
            if (t.next()) {
               t.desc(n + " line " + a);
               for (auto end : { "", "\n", "\n\n" }) one(t, n, p, a + end);
               for (auto& b : lines) {
                  one(t, n, p, a + "\n" + b);
                  if (p.size() < 2)
                     one(t, n, p, a + "\n" + b + "\n");
               }
            }
   }
   // every value printed one way is accepted the other way
   std::vector<uint64_t> nums;
   for (int i = 0; i < 64; ++i)
      for (int d = -2; d <= 2; ++d) {
         nums.push_back((1ull << i) + d);
         nums.push_back(~(1ull << i) + d);
      }
   for (int i = 0; i < 13; ++i)
      for (uint64_t c = 0; c < 32; ++c)
         for (uint64_t bg : { 0ull, ~0ull, 0x5530ea0000000000ull }) nums.push_back(i == 12 ? (bg & ~15ull) | (c & 15) : (bg & ~(31ull << (59 - 5 * i))) | c << (59 - 5 * i));
   for (size_t i = 0; i < nums.size(); i += 20)
      if (t.next()) {
         t.desc("round trips");
         for (size_t j = i; j < std::min(nums.size(), i + 20); ++j) {
            uint64_t v = nums[j];
            string   d = dec(v), h = hex(v), k = "round " + h;
            Out      n1 = tool("num2name", { d }, ""), n2 = tool("num2name", { h }, "");
            t.count("evaluations");
            t.distinct("nontrivial", vh::fnv(k));
            t.ok(n1.code == 0 && n2.code == 0 && n1.out == n2.out && n1.out == to_name(v) + "\n", k, h + " gives " + n1.out + " and " + n2.out);
            if (n1.out.size() < 2)
               continue;
            string name = n1.out.substr(0, n1.out.size() - 1);
            Out    b1 = tool("name2num", { "-d", name }, ""), b2 = tool("name2num", { name }, "");
            t.ok(b1.out == d + "\n" && b2.out == h + "\n", k, name + " gives " + b1.out + " and " + b2.out);
         }
      }
}
VH_MAIN(run)
