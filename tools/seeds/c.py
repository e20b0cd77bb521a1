seed('c31-shared-buffer', 'C31', [('src/abieos.hpp', '''    std::vector<char> buffer;
    eosio::vector_stream writer{buffer};
    bin_to_json_state state{bin, writer};''', '''    static thread_local std::vector<char> buffer; // keeps its capacity between calls
    buffer.clear();
    eosio::vector_stream writer{buffer};
    bin_to_json_state state{bin, writer};''')],
     CXX + r'''
#include "eosio/abi.hpp"
int main() {
   eosio::abi_def d;
   d.version = "eosio::abi/1.1";
   d.structs = { { "s", "", { { "a", "int8[]" }, { "b", "string" } } } };
   eosio::abi a;
   convert(d, a);
   auto t = a.get_type("s");
   std::vector<char> bin = { 2, 5, 7, 1, 'x' };
   int n = 0;
   eosio::input_stream s{ bin };
   auto r = t->bin_to_json(s, [&] {
      if (n++ == 2) {
         eosio::input_stream s2{ bin };
         want(t->bin_to_json(s2), std::string("{\"a\":[5,7],\"b\":\"x\"}"), "inner");
      }
   });
   want(r, std::string("{\"a\":[5,7],\"b\":\"x\"}"), "outer");
   return bad;
}''', 'the progress callback of a decoding starts another decoding', 'the two results share one buffer')
seed('c31-shared-sizes', 'C31', [('src/abieos.hpp', '''    std::vector<size_insertion> size_insertions{};
    std::vector<json_to_bin_stack_entry> stack{};''', '''    static inline thread_local std::vector<size_insertion> size_insertions{};
    std::vector<json_to_bin_stack_entry> stack{};'''),
     ('src/abieos.hpp', '''        pos = insertion.position;
    }
''', '''        pos = insertion.position;
    }
    state.size_insertions.clear();
'''), ('src/abieos.hpp', '''        state.stack.push_back({type, false});
        state.stack.back().size_insertion_index''', '''        state.stack.push_back({type, false});
        if (state.stack.size() == 1)
            state.size_insertions.clear();
        state.stack.back().size_insertion_index''')],
     CXX + r'''
#include "eosio/abi.hpp"
int main() {
   eosio::abi_def d;
   d.version = "eosio::abi/1.1";
   d.structs = { { "s", "", { { "a", "int8[]" }, { "b", "int8[]" } } } };
   eosio::abi a;
   convert(d, a);
   auto t = a.get_type("s");
   auto j = "{\"a\":[5,7],\"b\":[1]}";
   std::vector<char> w = { 2, 5, 7, 1, 1 };
   want(t->json_to_bin(j) == w, true, "plain");
   int n = 0;
   try { t->json_to_bin(j, [&] { if (n++ == 3) throw 7; }); want(true, false, "not thrown"); } catch (int) {}
   want(t->json_to_bin(j) == w, true, "after an abandoned conversion");
   return bad;
}''', 'a conversion of a structure is abandoned inside an array and another follows', 'the sizes recorded by the abandoned conversion end up in the next result')
seed('c32-varuint-order', 'C32', [('include/eosio/varint.hpp', 'friend bool operator<(const unsigned_int& i, const unsigned_int& v) { return i.value < v.value; }', 'friend bool operator<(const unsigned_int& i, const unsigned_int& v) { return static_cast<int32_t>(i.value - v.value) < 0; }')],
     CXX + r'''
#include "eosio/varint.hpp"
int main() {
   using U = eosio::unsigned_int;
   for (uint32_t a : { 0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu })
      for (uint32_t b : { 0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu })
         want(U(a) < U(b), a < b, "less");
   return bad;
}''', 'two values that differ by 2^31 or more', 'order of far apart values is reversed')
seed('c32-slot-2034', 'C32', [('include/eosio/time.hpp', 'int64_t msec = slot * (int64_t)block_interval_ms;', 'int64_t msec = static_cast<int32_t>(slot) * (int64_t)block_interval_ms;')],
     CXX + r'''
#include "eosio/time.hpp"
int main() {
   for (uint32_t s : { 0u, 1u, 2147483647u, 2147483648u, 3000000000u, 4294967295u })
      want(eosio::block_timestamp(s).to_time_point().elapsed.count(), (946684800000ll + int64_t(s) * 500) * 1000, "time");
   return bad;
}''', 'a block slot after January 2034', 'the time of a late slot lies before 2000')
seed('c24-big-index', 'C24', [('include/eosio/from_bin.hpp', '''      if (i == I) {
         auto& x = v.template emplace<I>();''', '''      if (static_cast<uint8_t>(i) == I) {
         auto& x = v.template emplace<I>();''')],
     CXX + r'''
#include "eosio/from_bin.hpp"
#include <variant>
int main() {
   for (unsigned lead : { 2u, 3u, 255u, 256u, 257u, 512u }) {
      std::vector<char> b{ char(lead & 127 | 128), char(lead >> 7), 7, 0, 0, 0 };
      bool refused = false;
      try { std::variant<uint8_t, uint16_t> v; eosio::input_stream s(b); from_bin(v, s); } catch (std::exception&) { refused = true; }
      want(refused, true, ("alternative " + std::to_string(lead)).c_str());
   }
   return bad;
}''', 'a binary variant whose alternative number is 256 or more', 'taken for the alternative with the same low byte')
seed('c24-many-elements', 'C24', [('include/eosio/from_bin.hpp', '''   for (size_t i = 0; i < size; ++i) {
      std::pair<T, U> elem;''', '''   for (uint16_t i = 0; i < static_cast<uint16_t>(size); ++i) {
      std::pair<T, U> elem;''')],
     CXX + r'''
#include "eosio/from_bin.hpp"
#include "eosio/to_bin.hpp"
int main() {
   for (uint32_t n : { 3u, 65535u, 65536u, 65540u }) {
      std::map<uint32_t, uint8_t> m, r;
      for (uint32_t i = 0; i < n; ++i) m[i] = 1;
      auto b = eosio::convert_to_bin(m);
      eosio::input_stream s(b);
      from_bin(r, s);
      want(r == m && !s.remaining(), true, (std::to_string(n) + " entries").c_str());
   }
   return bad;
}''', 'a map of more than 65535 entries', 'entries are left out and what follows is misread')
seed('c24-stale-optional', 'C24', [('include/eosio/from_bin.hpp', '''   if (!present) {
      obj.reset();
      return;
   }
   obj.emplace();''', '''   if (!present)
      return;
   obj.emplace();''')],
     CXX + r'''
#include "eosio/from_bin.hpp"
int main() {
   std::optional<uint8_t> o;
   for (std::string b : { std::string("\0", 1), std::string("\1\7", 2), std::string("\0", 1) }) {
      eosio::input_stream s(b.data(), b.size());
      from_bin(o, s);
      want(bool(o), b.size() == 2, "presence");
   }
   return bad;
}''', 'an absent value is read into an object that holds one', 'the old value stays')
seed('c17-long-text', 'C17', [('include/eosio/chain_conversions.hpp', 'if(i < str.size()) return detail', 'if(i < static_cast<uint8_t>(str.size())) return detail')],
     CXX + r'''
#include "eosio/name.hpp"
int main() {
   for (size_t n : { 5, 12, 13, 14, 40, 255, 256, 260, 512 }) {
      std::string s(n, 'a');
      want(bool(eosio::try_string_to_name_strict(s)), n <= 13, (std::to_string(n) + " letters").c_str());
   }
   return bad;
}''', 'a text of 256 letters or more', 'accepted as a name')
seed('c09-extended-prefix', 'C09', [('src/abi.cpp', '   if(name == "extended_asset") return;', '   if(name.compare(0, 14, "extended_asset") == 0) return; // built in')],
     CXX + r'''
#include "eosio/abi.hpp"
#include "eosio/from_json.hpp"
int main() {
   for (std::string n : { "extended_assets", "extended_asset_row", "extended", "my_extended_asset" }) {
      std::string s = "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"" + n + "\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"}]}]}";
      eosio::json_token_stream st(s.data());
      eosio::abi_def d{}, e{};
      from_json(d, st);
      eosio::abi a{};
      eosio::convert(d, a);
      eosio::convert(a, e);
      want(e.structs.size(), 1, ("struct " + n + " in the derived definition").c_str());
   }
   return bad;
}''', 'a struct whose name begins with the name of the built-in struct', 'the derived definition lacks the struct')
seed('c04-nul-key', 'C04', [('src/abieos.hpp', 'auto it = obj.find(field.name);', 'auto it = obj.find(field.name.c_str());')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"},{\"name\":\"a\\u0000b\",\"type\":\"int8\"}]}]}");
   want(c.enc("s", "{\"a\":1,\"a\\u0000b\":2}"), "0102");
   want(c.enc("s", "{\"a\":1,\"a\\u0000b\":2}", true), "0102");
   want(c.enc("s", "{\"a\\u0000b\":2,\"a\":1}", true), "0102");
   return bad;
}''', 'a member whose name holds a NUL character, reorderable mode', 'another member of the object is written in its place')
seed('c05-nul-string', 'C05', [('src/abieos.hpp', 'received_data.value_string = {v, length};', 'received_data.value_string = v;')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"variants\":[{\"name\":\"v\",\"types\":[\"int8\",\"string\"]}]}");
   want(c.enc("v", "[\"string\",\"a\\u0000b\"]"), "0103610062");
   for (bool r : { false, true }) {
      refused(c.enc("v", "[\"int8\\u0000\",5]", r));
      refused(c.enc("int8", "\"5\\u0000\"", r));
   }
   return bad;
}''', 'a JSON string with an escaped NUL character in it', 'the text is cut there: a case name or number followed by junk is accepted')
seed('c23-index-256', 'C23', [('include/eosio/to_key.hpp', 'to_key_varuint32(static_cast<uint32_t>(obj.index()), stream);', 'to_key_varuint32(static_cast<uint8_t>(obj.index()), stream);')],
     CXX + r'''
#include <utility>
template <size_t N, typename S = std::make_index_sequence<N>> struct mk;
template <size_t N, size_t... I> struct mk<N, std::index_sequence<I...>> { template <size_t> using one = uint8_t; using type = std::variant<one<I>...>; };
using var = mk<270>::type;
int main() {
   auto lt = [](const var& x, const var& y) {
      auto a = eosio::convert_to_key(x), b = eosio::convert_to_key(y);
      return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](unsigned char x, unsigned char y) { return x < y; });
   };
   var v0(std::in_place_index<0>, 9), v255(std::in_place_index<255>, 0), v256(std::in_place_index<256>, 0), v269(std::in_place_index<269>, 0);
   want(lt(v0, v255), true, "0 < 255");
   want(lt(v255, v256), true, "255 < 256");
   want(lt(v0, v256), true, "0 < 256");
   want(lt(v256, v269), true, "256 < 269");
   return bad;
}''', 'a variant of more than 256 alternatives', 'keys of the high alternatives sort with the low ones')
seed('c10-null-size', 'C10', [('src/abieos.cpp', '''        if (!data)
            size = 0;
        context->last_error = "binary decode error";''', '''        if (!data && !size)
            data = "";
        context->last_error = "binary decode error";''')],
     CAPI + r'''
#include <unistd.h>
#include <sys/wait.h>
int main() {
   int p = fork(), st = 0;
   if (!p) {
      auto* c = abieos_create();
      abieos_set_abi(c, 1, "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"e\",\"base\":\"\",\"fields\":[]}]}");
      if (abieos_bin_to_json(c, 1, "int8", nullptr, 0) || abieos_bin_to_json(c, 1, "int8", nullptr, 1)) _exit(1);
      auto* r = abieos_bin_to_json(c, 1, "e", nullptr, 3);
      _exit(!r || std::string(r) != "{}");
   }
   waitpid(p, &st, 0);
   if (st) { printf("status %d\n", st); bad = 1; }
   return bad;
}''', 'no data but a size, given to the binary to JSON conversion', 'the null pointer is read')
