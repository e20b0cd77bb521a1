CXX = r'''
#include <eosio/abi.hpp>
#include <eosio/asset.hpp>
#include <eosio/convert.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
#include <eosio/abieos_ripemd160.hpp>
#include <eosio/abieos_numeric.hpp>
#include <cstdio>
#include <cstring>
#include <string>
static int bad = 0;
template <typename T, typename U> void want(const T& got, const U& w, const char* what) {
   if (!(got == w)) { printf("wrong: %s\n", what); bad = 1; }
}
template <typename F> bool throws(F f) {
   try { f(); } catch (std::exception&) { return true; }
   return false;
}
static std::string hexs(const void* p, size_t n) {
   std::string r;
   for (size_t i = 0; i < n; ++i) { char b[3]; snprintf(b, 3, "%02X", ((const unsigned char*)p)[i]); r += b; }
   return r;
}
template <typename V> std::string hexs(const V& v) { return hexs(v.data(), v.size()); }
template <typename T> T rd(std::string j) {
   eosio::json_token_stream s(j.data());
   T t; from_json(t, s); s.get_end();
   return t;
}
'''

seed('c09-alias-dropped', 'C09', [('src/abi.cpp', '   def.types.push_back({name, alias.type->name});', '   // fields refer to the resolved types\n   if (name == alias.type->name)\n      def.types.push_back({name, alias.type->name});')],
     CXX + r'''
int main() {
   eosio::abi_def d, d2;
   d.version = "eosio::abi/1.1";
   d.types = {{"al", "int8"}};
   d.structs = {{"s", "", {{"x", "al"}}}, {"l", "", {{"y", "al[]"}}}};
   eosio::abi a, b;
   eosio::convert(d, a);
   eosio::convert(a, d2);
   try {
      eosio::convert(d2, b);
      for (auto [t, j] : { std::pair<std::string, std::string>{"s", "{\"x\":5}"}, {"l", "{\"y\":[1,2]}"}, {"al", "7"} })
         want(b.get_type(t)->json_to_bin(j), a.get_type(t)->json_to_bin(j), t.c_str());
   } catch (std::exception& e) { printf("%s\n", e.what()); bad = 1; }
   return bad;
}''', 'an ABI with a type alias, loaded, turned back into a definition and loaded again, then the alias or a list of it is used', 'derived definition loses the aliases')

seed('c10-hex-cache', 'C10', [('src/abieos.cpp', '    std::map<name, abi> contracts{};', '    std::map<name, abi> contracts{};\n\n    // result_str holds the hex form of result_bin\n    bool result_str_is_hex = false;'),
   ('src/abieos.cpp', '''        context->result_str.clear();
        hex(context->result_bin.begin(), context->result_bin.end(), std::back_inserter(context->result_str));''', '''        if (!context->result_str_is_hex) {
            context->result_str.clear();
            hex(context->result_bin.begin(), context->result_bin.end(), std::back_inserter(context->result_str));
            context->result_str_is_hex = true;
        }'''),
   ('src/abieos.cpp', '        context->result_str = eosio::name_to_string(name);', '        context->result_str_is_hex = false;\n        context->result_str = eosio::name_to_string(name);'),
   ('src/abieos.cpp', '        context->result_str = t->bin_to_json(bin);', '        context->result_str_is_hex = false;\n        context->result_str = t->bin_to_json(bin);'),
   ('src/abieos.cpp', '        context->result_bin = t->json_to_bin(json);', '        context->result_str_is_hex = false;\n        context->result_bin = t->json_to_bin(json);')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\"}");
   want(c.enc("int8", "5"), "05");
   want(c.enc("int8", "6"), "06");
   want(c.enc("int8", "7", true), "07");
   want(c.enc("string", "\"ab\"", true), "026162");
   want(abieos_name_to_string(c.c, 0), "");
   want(c.enc("int8", "9", true), "09");
   return bad;
}''', 'hex of a result read, then a conversion in reorderable mode, then hex read again with nothing in between', 'hex view of the previous result is returned')

seed('c10-type-memo', 'C10', [('src/abieos.cpp', '    std::map<name, abi> contracts{};', '''    std::map<name, abi> contracts{};

    // the type most recently used for decoding
    uint64_t memo_contract = 0;
    std::string memo_name{};
    const abi_type* memo_type = nullptr;'''),
   ('src/abieos.cpp', '''        auto t = contract_it->second.get_type(type);
        eosio::input_stream bin{data, size};''', '''        if (!context->memo_type || context->memo_contract != contract || context->memo_name != type) {
            context->memo_type = nullptr;
            context->memo_name = type;
            context->memo_contract = contract;
            context->memo_type = contract_it->second.get_type(type);
        }
        auto t = context->memo_type;
        eosio::input_stream bin{data, size};'''),
   ('src/abieos.cpp', '        std::string abi_copy{abi};', '        std::string abi_copy{abi};\n        context->memo_type = nullptr;')],
     CAPI + r'''
int main() {
   C c;
   std::string one = "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"}]}]}";
   c.abi(one.c_str());
   want(c.dec("s", "05"), "{\"a\":5}");
   c.abi("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"b\",\"type\":\"int16\"}]}]}");
   want(c.dec("s", "0500"), "{\"b\":5}");
   // version, no types, struct s { c: int32 }, nothing else
   if (!abieos_set_abi_hex(c.c, 1, "0E656F73696F3A3A6162692F312E31" "00" "01" "0173" "00" "01" "0163" "05696E743332" "00" "00" "00" "00" "00" "00")) return 3;
   want(c.dec("s", "05000000"), "{\"c\":5}");
   return bad;
}''', 'decoding a type, replacing the ABI from its binary form, decoding the same type again', 'stale, freed type used', flags='-fsanitize=address')

seed('c11-half-type', 'C11', [('src/abi.cpp', 'auto [iter, success] = abi_types.try_emplace(name, name, abi_type::array{element}, &abi_serializer_for< ::abieos::pseudo_array>);', '''auto [iter, success] = abi_types.try_emplace(name, std::string(), abi_type::array{nullptr}, &abi_serializer_for< ::abieos::pseudo_array>);
            iter->second.name = name;
            std::get<abi_type::array>(iter->second._data).type = element;''')],
     CAPI + r'''
#include <cstdlib>
#include <new>
static long countdown = -1;
void* operator new(size_t n) {
   if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
   return malloc(n);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
   const char* a = "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"a_rather_long_name\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"}]}]}";
   for (int i = 0; ; ++i) {
      C c;
      c.abi(a);
      countdown = i;
      bool ok = abieos_json_to_bin(c.c, 1, "a_rather_long_name[]", "[{\"a\":5}]");
      countdown = -1;
      want(c.dec("a_rather_long_name[]", "0105"), "[{\"a\":5}]");
      if (ok || bad) return bad;
   }
}''', 'an allocation failing just after the entry of an array type with a long name was made', 'the next use of that type crashes')

SCHED = r'''
// Runs A, stopping it at its k-th basic block while B runs to completion; for each k, in a fresh process.
#include <atomic>
#include <thread>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
static thread_local long my_left = -1;
static std::atomic<int> phase{0};
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
   if (my_left < 0 || my_left--) return;
   phase = 1;
   for (int i = 0; i < 300 && phase != 2; ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); }
}
// returns 0 all fine, 1 wrong
static int explore(std::function<bool()> a, std::function<bool()> b, long step) {
   for (long k = 0; k < 4000; k += step) {
      int pid = fork();
      if (!pid) {
         alarm(20);
         bool ra = true, rb = true, reached = true;
         std::thread ta([&] { my_left = k; ra = a(); reached = my_left < 0; my_left = -1; if (!reached) phase = 1; });
         while (phase != 1) std::this_thread::yield();
         rb = b();
         phase = 2;
         ta.join();
         _exit(!ra || !rb ? 1 : reached ? 0 : 2);
      }
      int st;
      waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) == 1) { printf("wrong with the first stopped at block %ld\n", k); return 1; }
      if (WEXITSTATUS(st) == 2) return 0;
   }
   return 0;
}
'''

seed('c12-lazy-base58', 'C12', [('src/crypto.cpp', 'constexpr auto base58_map = create_base58_map();', '''// Filled on first use
const std::array<int8_t, 256>& get_base58_map() {
    static std::array<int8_t, 256> map;
    static bool ready;
    if (!ready) {
        ready = true;
        for (unsigned i = 0; i < map.size(); ++i)
            map[i] = -1;
        for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
            map[base58_chars[i]] = i;
    }
    return map;
}'''),
   ('src/crypto.cpp', '    std::size_t offset = result.size();', '    auto& base58_map = get_base58_map();\n    std::size_t offset = result.size();'),
   ('src/crypto.cpp', '    std::string result("");', '    auto& base58_map = get_base58_map();\n    std::string result("");')],
     CXX + SCHED + r'''
static bool one() {
   try {
      auto k = eosio::public_key_from_string("EOS6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV");
      return eosio::public_key_to_string(k) == "PUB_K1_6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5BoDq63";
   } catch (std::exception&) { return false; }
}
int main() { return explore(one, one, 7); }''', 'the very first use of a key in the process, by two threads at once, the second arriving while the first fills the table', 'the second thread sees an unfinished table', flags='-O1 -fsanitize-coverage=trace-pc')

seed('c12-static-digits', 'C12', [('include/eosio/chain_conversions.hpp', '      char  s[20];\n      char* ch = s;', '      static char s[20];\n      char*       ch = s;')],
     CXX + SCHED + r'''
static bool one(uint64_t us, const char* w) { return eosio::microseconds_to_str(us) == w; }
int main() {
   return explore([] { return one(1260340245123000ull, "2009-12-09T06:30:45.123"); },
                  [] { return one(4102444799999000ull, "2099-12-31T23:59:59.999"); }, 1);
}''', 'two threads formatting times, one preempted between writing and copying digits', 'digits of the other thread\'s time', flags='-O1 -fsanitize-coverage=trace-pc')

seed('c16-utf8-four', 'C16', [('include/eosio/to_json.hpp', '      int chars = std::min(sz, 4);\n      memcpy(buf, src, chars);', '      int chars = std::min(sz, 3); // longest sequence in the basic plane\n      memcpy(buf, src, chars);')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\"}");
   want(c.dec("string", "02C3A9"), "\"\xC3\xA9\"");
   want(c.dec("string", "03E282AC"), "\"\xE2\x82\xAC\"");
   want(c.dec("string", "04F09F9880"), "\"\xF0\x9F\x98\x80\"");
   want(c.dec("string", "04F48FBFBF"), "\"\xF4\x8F\xBF\xBF\"");
   return bad;
}''', 'text with a character outside the basic plane (four bytes of UTF-8)', 'valid text replaced by question marks')

seed('c17-prefix-lead', 'C17', [('include/eosio/name.hpp', 'for (int32_t offset = 0; offset <= 59;) {', 'for (int32_t offset = 0; offset < 59;) {')],
     CXX + r'''
int main() {
   using eosio::name;
   want(name(".abc").prefix().to_string(), "", ".abc");
   want(name("ab.c").prefix().to_string(), "ab", "ab.c");
   want(name("a.b.c").prefix().to_string(), "a.b", "a.b.c");
   want(name("abc").prefix().to_string(), "abc", "abc");
   return bad;
}''', 'a name whose only dot is the first character', 'prefix is the whole name')

seed('c18-precision-sign', 'C18', [('include/eosio/chain_conversions.hpp', '''   uint8_t precision = symbol;
   if (precision) {
      while (precision--) {''', '''   int8_t precision = symbol;
   if (precision > 0) {
      while (precision-- > 0) {''')],
     CXX + r'''
int main() {
   uint64_t code = 'A';
   for (int p : { 0, 1, 4, 18, 127, 128, 200, 255 }) {
      std::string s = eosio::asset_to_string(5, code << 8 | p);
      std::string w = p ? "0." + std::string(p - 1, '0') + "5 A" : "5 A";
      want(s, w, std::to_string(p).c_str());
   }
   return bad;
}''', 'an asset whose symbol has 128 or more decimals', 'the decimals vanish from the text')

seed('c19-mul-truncate', 'C19', [('include/eosio/asset.hpp', '''      __int128 tmp = (__int128)amount * (__int128)a;
      eosio::check(tmp <= max_amount, "multiplication overflow");
      eosio::check(tmp >= -max_amount, "multiplication underflow");
      amount = (int64_t)tmp;
      return *this;''', '''      __int128 tmp = (__int128)amount * (__int128)a;
      int64_t result = (int64_t)tmp;
      eosio::check(result <= max_amount, "multiplication overflow");
      eosio::check(result >= -max_amount, "multiplication underflow");
      amount = result;
      return *this;''')],
     CXX + r'''
int main() {
   eosio::symbol s{"A", 0};
   for (auto [a, b] : { std::pair<int64_t, int64_t>{1ll << 61, 2}, {1ll << 61, 8}, {1ll << 40, 1ll << 40}, {3, 1ll << 62}, {-(1ll << 40), 1ll << 40}, {1ll << 61, 1ll << 61} })
      if (!throws([&] { eosio::asset x{a, s}; x *= b; })) { printf("%lld * %lld accepted\n", (long long)a, (long long)b); bad = 1; }
   eosio::asset x{1ll << 60, s};
   x *= -3;
   want(x.amount, -3 * (1ll << 60), "product");
   return bad;
}''', 'a product beyond 64 bits whose low 64 bits are a small number', 'overflow not reported')

seed('c20-leap-era', 'C20', [('include/eosio/chain_conversions.hpp', '(doe - doe/1460 + doe/36524 - doe/146096) / 365', '(doe - doe/1460 + doe/36524) / 365')],
     CXX + r'''
int main() {
   for (auto [sec, w] : { std::pair<uint64_t, const char*>{951782400, "2000-02-29T00:00:00.000"}, {951868799, "2000-02-29T23:59:59.000"}, {951868800, "2000-03-01T00:00:00.000"}, {1330473600, "2012-02-29T00:00:00.000"} })
      want(eosio::microseconds_to_str(sec * 1000000), w, w);
   want(rd<eosio::time_point_sec>("\"2000-02-29T12:00:00\"").utc_seconds, 951825600u, "parse");
   return bad;
}''', 'the leap day of a year divisible by 400', 'wrong date')

seed('c21-zero-checksum', 'C21', [('src/crypto.cpp', '    check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,', '    check(strncmp(reinterpret_cast<const char*>(ripe_digest.data()), whole.data() + whole.size() - 4, 4)==0,')],
     CXX + r'''
int main() {
   int tried = 0;
   for (int i = 0; i < 20000 && tried < 3; ++i) {
      eosio::ecc_public_key d{};
      d[0] = 2; d[1] = i; d[2] = i >> 8;
      auto s = eosio::public_key_to_string(eosio::public_key{std::in_place_index<0>, d});
      auto raw = eosio::from_base58(std::string_view(s).substr(7));
      if (raw[33]) continue; // first byte of the checksum
      ++tried;
      for (int p = 34; p < 37; ++p) {
         auto r = raw;
         r[p] ^= 0x41;
         auto t = "PUB_K1_" + eosio::to_base58(r.data(), r.size());
         if (!throws([&] { (void)eosio::public_key_from_string(t); })) { printf("%s accepted for %s\n", t.c_str(), s.c_str()); bad = 1; }
      }
   }
   return tried ? bad : 3;
}''', 'a key whose checksum contains a zero byte and a mistyped character affecting only the bytes after it', 'wrong checksum accepted')

seed('c22-partial-word', 'C22', [('include/eosio/fixed_bytes.hpp', '         result |= static_cast<T>(*ptr) << (std::numeric_limits<U>::digits * (words - i - 1));', '         result = (static_cast<uint64_t>(result) << (words > 1 ? std::numeric_limits<U>::digits : 0)) | *ptr;')],
     CXX + r'''
int main() {
   using fb = eosio::fixed_bytes<10, uint64_t>;
   uint8_t b[10] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
   fb x(b);
   want(hexs(x.extract_as_byte_array()), "0102030405060708090A", "ten bytes");
   want(x.get_array()[1], 0x090A000000000000ull, "last word");
   eosio::checksum256 c(b);
   want(hexs(c.extract_as_byte_array()).substr(0, 40), "0102030405060708090A00000000000000000000", "short array");
   eosio::checksum256 e(std::array<uint8_t, 32>{1, 2, 3});
   want(hexs(e.extract_as_byte_array()).substr(0, 8), "01020300", "full array");
   return bad;
}''', 'a size that is not a whole number of words', 'last word holds its bytes at the wrong end')

seed('c23-index-128', 'C23', [('include/eosio/to_key.hpp', '   if (obj < 0x80u) {', '   if (obj <= 0x80u) {')],
     CXX + r'''
#include <utility>
template <size_t N> struct tag { int8_t x = 0; };
template <size_t N, typename S> void to_key(const tag<N>& t, S& s) { eosio::to_key(t.x, s); }
template <typename S> struct mk;
template <size_t... I> struct mk<std::index_sequence<I...>> { using type = std::variant<tag<I>...>; };
using var = mk<std::make_index_sequence<131>>::type;
int main() {
   auto k0 = eosio::convert_to_key(var(std::in_place_index<0>)), k127 = eosio::convert_to_key(var(std::in_place_index<127>)),
        k128 = eosio::convert_to_key(var(std::in_place_index<128>, tag<128>{127})), k129 = eosio::convert_to_key(var(std::in_place_index<129>));
   auto lt = [](auto& a, auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](unsigned char x, unsigned char y) { return x < y; }); };
   want(lt(k0, k127), true, "0 < 127");
   want(lt(k127, k128), true, "127 < 128");
   want(lt(k128, k129), true, "128 < 129");
   return bad;
}''', 'a variant with more than 128 alternatives, holding number 128', 'sorts after number 129')

seed('c24-skip-depth', 'C24', [('include/eosio/from_json.hpp', '   uint64_t depth = 0;\n   do {', '   uint8_t depth = 0;\n   do {')],
     CXX + r'''
struct two { int8_t a = 0; int8_t b = 0; };
EOSIO_REFLECT(two, a, b);
int main() {
   for (int n : { 1, 255, 256, 300 }) {
      try {
         auto t = rd<two>("{\"a\":1,\"zz\":" + std::string(n, '[') + std::string(n, ']') + ",\"b\":2}");
         want(t.a == 1 && t.b == 2, true, "value");
      } catch (std::exception& e) { printf("%d: %s\n", n, e.what()); bad = 1; }
   }
   return bad;
}''', 'an unknown member holding a value nested 256 deep', 'parsing continues inside the skipped value')

seed('c25-skip-wrap', 'C25', [('include/eosio/stream.hpp', '''   void skip(size_t size) {
      check( size <= size_t(end-pos), convert_stream_error(stream_error::overrun) );''', '''   void skip(size_t size) {
      check( int64_t(size) <= end-pos, convert_stream_error(stream_error::overrun) );''')],
     CXX + r'''
int main() {
   char b[4] = {};
   for (size_t n : { size_t(5), size_t(-1), size_t(1) << 63 }) {
      eosio::input_stream s(b + 2, 2);
      if (!throws([&] { s.skip(n); })) { printf("skipped %zx\n", n); bad = 1; }
   }
   eosio::input_stream s(b, 4);
   s.skip(4);
   want(s.remaining(), size_t(0), "rest");
   return bad;
}''', 'skipping a size of 2^63 or more', 'the position moves backwards')

seed('c26-full-order', 'C26', [('include/eosio/ship_protocol.hpp', 'EOSIO_REFLECT(prunable_data_type::full, signatures, context_free_segments)', 'EOSIO_REFLECT(prunable_data_type::full, context_free_segments, signatures)')],
     CXX + r'''
int main() {
   using namespace eosio::ship_protocol;
   prunable_data_type p;
   prunable_data_type::full f;
   std::vector<char> seg = {1, 2};
   f.context_free_segments = { eosio::input_stream(seg), eosio::input_stream(seg) };
   p.prunable_data = f;
   want(hexs(eosio::convert_to_bin(p)), "030002020102020102", "full");
   return bad;
}''', 'a block with unpruned context-free data', 'fields swapped on the wire')

seed('c27-pad-56', 'C27', [('include/eosio/abieos_ripemd160.hpp', '    if (tmp.bufpos > 56) {', '    if (tmp.bufpos >= 56) {')],
     CXX + r'''
int main() {
   std::string m(55, 'a');
   for (auto [n, w] : { std::pair<int, const char*>{0, "9C1185A5C5E9FC54612808977EE8F548B2258D31"}, {55, "9EF2C2CE9A30E7E9D2D1C7B2E2B4A8D9C8F4F3C8"} }) {
      unsigned char d[20], e[20];
      abieos_ripemd160::ripemd160_state s;
      abieos_ripemd160::ripemd160_init(&s);
      abieos_ripemd160::ripemd160_update(&s, m.data(), n);
      abieos_ripemd160::ripemd160_digest(&s, d);
      if (n == 0) { want(hexs(d, 20), w, "empty"); continue; }
      // padded by hand
      abieos_ripemd160::ripemd160_init(&s);
      std::string p = m + '\x80' + std::string("\xb8\x01\0\0\0\0\0\0", 8);
      abieos_ripemd160::ripemd160_update(&s, p.data(), 64);
      memcpy(e, s.h, 20);
      want(hexs(d, 20), hexs(e, 20), "55 bytes");
   }
   return bad;
}''', 'a message of 55 bytes (modulo 64)', 'wrong digest')

seed('c28-status', 'C28', [('tools/name.cpp', 'while (std::getline(std::cin, s)) { result |= !handle_one(s, reverse); }', 'while (std::getline(std::cin, s)) { result = !handle_one(s, reverse); }')],
     r'''
#define main name_main
#include "../tools/name.cpp"
#undef main
#include <sstream>
static int run(std::vector<const char*> args, const char* input, std::string& out) {
   args.insert(args.begin(), "num2name");
   std::istringstream in(input);
   std::ostringstream o;
   auto ib = std::cin.rdbuf(in.rdbuf());
   auto ob = std::cout.rdbuf(o.rdbuf());
   std::cin.clear();
   args.push_back(nullptr);
   int r = name_main(args.size() - 1, args.data());
   std::cin.rdbuf(ib);
   std::cout.rdbuf(ob);
   out = o.str();
   return r;
}
int main() {
   int bad = 0;
   std::string o;
   for (auto [in, w] : { std::pair<const char*, bool>{"6\n", true}, {"x\n", false}, {"6\nx\n", false}, {"x\n6\n", false}, {"6\nx\n7\n", false} })
      if ((run({}, in, o) == 0) != w) { fprintf(stderr, "wrong status for %s", in); bad = 1; }
   if ((run({"x", "6"}, "", o) == 0) || run({"6", "7"}, "", o)) bad = 1;
   return bad;
}''', 'several names on standard input, a bad one followed by a good one', 'exit status reports success', libs=False)

seed('c29-late-overflow', 'C29', [('include/eosio/abieos_numeric.hpp', '''            carry = x >> 8;
        }
        eosio::check(!carry,
              eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
    }''', '''            carry = x >> 8;
        }
        overflow = carry;
    }
    eosio::check(!overflow,
          eosio::convert_json_error(eosio::from_json_error::number_out_of_range));'''),
    ('include/eosio/abieos_numeric.hpp', '    memset(result.begin(), 0, result.size());', '    memset(result.begin(), 0, result.size());\n    uint8_t overflow = 0;')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\"}");
   want(c.enc("uint128", "\"340282366920938463463374607431768211455\""), std::string(32, 'F'));
   refused(c.enc("uint128", "\"340282366920938463463374607431768211456\""));
   for (const char* d : { "0", "00", "0000000", "9" })
      refused(c.enc("uint128", "\"340282366920938463463374607431768211456" + std::string(d) + "\""));
   refused(c.enc("uint128", "\"1000000000000000000000000000000000000000000000000\"" ));
   refused(c.enc("uint128", "\"680564733841876926926749214863536422912000000000\"" ));
   return bad;
}''', 'a number that overflows before its last digit such that the wrapped value does not overflow again', 'out-of-range number accepted', flags='-DABIEOS_NO_INT128')

seed('c30-grow-only', 'C30', [('include/eosio/convert.hpp', '   dst.resize(src.size());', '   if (dst.size() < src.size())\n      dst.resize(src.size());')],
     CXX + r'''
struct a1 { int x = 0; };
struct a2 { int x = 0; };
EOSIO_REFLECT(a1, x);
EOSIO_REFLECT(a2, x);
eosio::strict_conversion conversion_kind(a1, a2);
int main() {
   std::vector<a1> s = {{1}, {2}};
   for (size_t n : { 0, 1, 2, 3 }) {
      std::vector<a2> d(n);
      eosio::convert(s, d, eosio::choose_first);
      want(d.size(), size_t(2), "size");
      want(d[1].x, 2, "second");
   }
   return bad;
}''', 'converting a list into a longer list', 'elements left over from the destination')
