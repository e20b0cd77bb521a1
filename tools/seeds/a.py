seed('c01-varcase', 'C01', [('src/abieos.hpp', '        eosio::varuint32_to_bin(stack_entry.variant_type_index, state.writer);', '        state.writer.write(char(stack_entry.variant_type_index));')],
     CAPI + r'''
int main() {
   C c;
   std::string a = "{\"version\":\"eosio::abi/1.1\",\"types\":[", v;
   for (int i = 0; i < 150; ++i) {
      a += (i ? "," : "") + std::string("{\"new_type_name\":\"t") + std::to_string(i) + "\",\"type\":\"int8\"}";
      v += (i ? ",\"t" : "\"t") + std::to_string(i) + "\"";
   }
   a += "],\"variants\":[{\"name\":\"v\",\"types\":[" + v + "]}]}";
   if (!c.abi(a.c_str())) return 3;
   want(c.enc("v", "[\"t127\",1]"), "7F01");
   want(c.enc("v", "[\"t128\",1]"), "800101");
   want(c.enc("v", "[\"t149\",1]"), "950101");
   return bad;
}''', 'a variant with more than 128 cases and a value of a case numbered 128 or higher, in-order mode', 'case index above 127 written as one byte')
seed('c02-variant-tag', 'C02', [('src/abi.cpp', '        result.push_back({field, t});', '        result.push_back({t->as_struct() || t->as_variant() ? t->name : field, t});')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"types\":[{\"new_type_name\":\"al\",\"type\":\"s\"}],\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"}]}],\"variants\":[{\"name\":\"v\",\"types\":[\"int8\",\"al\"]}]}");
   want(c.dec("v", "0105"), "[\"al\",{\"a\":5}]");
   want(c.dec("v", "0005"), "[\"int8\",5]");
   return bad;
}''', 'a variant case named through an alias of a struct or variant', 'the case is tagged with the name of the aliased type, not the name the ABI gives the case')
seed('c03-bytes-count', 'C03', [('include/eosio/from_bin.hpp', '''         uint64_t size;
         varuint64_from_bin(size, stream);
         stream.check_available(size * sizeof(T));
         v.resize(size);''', '''         uint64_t size;
         varuint64_from_bin(size, stream);
         stream.check_available(uint32_t(size * sizeof(T)));
         v.resize(size);''')],
     CAPI + r'''
#include <cstdlib>
#include <new>
static size_t largest;
void* operator new(size_t n) {
   if (n > largest) largest = n;
   if (n > (1 << 24)) throw std::bad_alloc();
   return malloc(n);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#include <eosio/from_bin.hpp>
int main() {
   for (std::string s : { std::string("\5\x11\x22"), std::string("\x80\x80\x80\x80\x10\x11\x22"), std::string("\x81\x80\x80\x80\x10\x11\x22") }) {
      std::vector<char> v;
      eosio::input_stream st{ s.data(), s.size() };
      bool ok = true;
      try { from_bin(v, st); } catch (std::exception&) { ok = false; }
      if (ok) { printf("accepted, %zu bytes\n", v.size()); bad = 1; }
   }
   if (largest > (1 << 20)) { printf("asked for %zu bytes\n", largest); bad = 1; }
   return bad;
}''', 'a byte array whose declared size is a multiple of 2^32 plus a small number', 'gigabytes are allocated for a size the data cannot satisfy')
seed('c04-reorder-ext', 'C04', [('src/abieos.hpp', '''    state.received_value = &it->second;
    return field.type->ser->json_to_bin(state, allow_extensions && &field == &fields.back(),''', '''    state.received_value = &it->second;
    return field.type->ser->json_to_bin(state, allow_extensions && obj.size() == fields.size() && &field == &fields.back(),''')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"i\",\"base\":\"\",\"fields\":[{\"name\":\"x\",\"type\":\"int8\"},{\"name\":\"y\",\"type\":\"int8$\"}]},{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8\"},{\"name\":\"b\",\"type\":\"i\"}]}]}");
   for (auto j : { "{\"a\":1,\"b\":{\"x\":2}}", "{\"b\":{\"x\":2},\"a\":1}" }) want(c.enc("s", j, true), "0102");
   want(c.enc("s", "{\"a\":1,\"b\":{\"x\":2}}"), "0102");
   want(c.enc("s", "{\"b\":{\"x\":2},\"zz\":0,\"a\":1}", true), "0102");
   return bad;
}''', 'reorderable mode, an unknown member in the object and an omitted extension in its last member', 'accepted without, refused with an ignorable member')
seed('c05-variant-arity', 'C05', [('src/abieos.hpp', '''        eosio::check(arr.size() == 2,
            eosio::convert_json_error(eosio::from_json_error::expected_variant));''', '''        eosio::check(arr.size() >= 2,
            eosio::convert_json_error(eosio::from_json_error::expected_variant));''')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"variants\":[{\"name\":\"v\",\"types\":[\"int8\",\"string\"]}]}");
   want(c.enc("v", "[\"int8\",5]", true), "0005");
   refused(c.enc("v", "[\"int8\"]", true));
   refused(c.enc("v", "[\"int8\",5,6]", true));
   refused(c.enc("v", "[\"int8\",5,{}]", true));
   return bad;
}''', 'reorderable mode and a variant array of three or more elements', 'wrong variant arity accepted')
seed('c06-array-ext', 'C06', [('src/abieos.hpp', '''        if (stack_entry.position != 0) { state.writer.write(','); }
        return bin_to_json(state, false, type->array_of(), true);''', '''        if (stack_entry.position != 0) { state.writer.write(','); }
        return bin_to_json(state, stack_entry.position + 1 == (ptrdiff_t)stack_entry.array_size, type->array_of(), true);''')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"i\",\"base\":\"\",\"fields\":[{\"name\":\"x\",\"type\":\"int8\"},{\"name\":\"y\",\"type\":\"int8$\"}]}]}");
   want(c.dec("i", "02"), "{\"x\":2}");
   want(c.dec("i[]", "020102" "0304"), "[{\"x\":1,\"y\":2},{\"x\":3,\"y\":4}]");
   refused(c.dec("i[]", "02010203"));
   return bad;
}''', 'binary ending before the extension of the last element of an array', 'an extension omitted inside an array element is accepted')
seed('c07-jvalue-depth', 'C07', [('src/abieos.hpp', '''    if (state.stack.size() > max_stack_size)
        return set_error(state, "recursion limit reached");''', '''    if (start && event == event_type::received_start_array && state.stack.size() > max_stack_size)
        return set_error(state, "recursion limit reached");''')],
     CAPI + r'''
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"f\",\"type\":\"s?\"}]}]}");
   for (int d : { 1, 100, 127, 129, 140, 1000 }) {
      std::string j;
      for (int i = 0; i < d; ++i) j += "{\"f\":";
      j += "null" + std::string(d, '}');
      auto r = c.enc("s", j, true);
      if (d <= 127) { if (r.size() != 2 * d) bad = 1; } else refused(r);
   }
   return bad;
}''', 'objects nested more than 128 deep in reorderable mode', 'the depth limit no longer applies to objects')
seed('c08-base-order', 'C08', [('src/abi.cpp', '''        if(auto* base_def = std::get_if<const struct_def*>(&base->_data)) {
            auto b = resolve(abi_types, *base_def, depth + 1);''', '''        if(auto* base_def = std::get_if<const struct_def*>(&base->_data)) {
            eosio::check(depth < 2, eosio::convert_abi_error(abi_error::recursion_limit_reached));
            auto b = resolve(abi_types, *base_def, depth + 1);''')],
     CAPI + r'''
int main() {
   C c;
   for (int k = 0; k < 2; ++k) {
      std::string a = "{\"version\":\"eosio::abi/1.1\",\"structs\":[";
      for (int i = 0; i < 5; ++i) {
         char n = k ? 'e' - i : 'a' + i, b = k ? n + 1 : n - 1;
         a += std::string(i ? "," : "") + "{\"name\":\"" + n + "\",\"base\":\"" + (i ? std::string(1, b) : std::string()) + "\",\"fields\":[]}";
      }
      if (!c.abi((a + "]}").c_str())) { printf("%d: %s\n", k, abieos_get_error(c.c)); bad = 1; }
   }
   return bad;
}''', 'a chain of four or more derived structs whose names sort derived-first', 'whether the ABI loads depends on how the names sort')

seed('c01-count-reuse', 'C01', [('src/abieos.hpp', """        state.size_insertions[stack_entry.size_insertion_index].size = stack_entry.position + 1;""",
     """        auto& insertion = state.size_insertions[stack_entry.size_insertion_index];
        insertion.size = stack_entry.position + 1;
        // nothing was written for this array: the count goes where the next one would
        if (!insertion.size && stack_entry.size_insertion_index && state.size_insertions.size() > 64)
            insertion.position = state.writer.data.size() - (state.stack.size() > 3);""")],
     CAPI + r"""
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"x\",\"type\":\"int8\"},{\"name\":\"a\",\"type\":\"int8[]\"}]},{\"name\":\"t\",\"base\":\"\",\"fields\":[{\"name\":\"s\",\"type\":\"s\"}]}]}");
   for (int n : { 1, 60, 70, 100 }) {
      std::string j = "[", w;
      for (int i = 0; i < n; ++i) {
         j += std::string(i ? "," : "") + "{\"s\":{\"x\":7,\"a\":[]}}";
         w += "0700";
      }
      char b[8];
      sprintf(b, "%02X", n);
      want(c.enc("t[]", j + "]"), b + w);
   }
   return bad;
}""", 'more than 64 arrays in one document, an empty one nested at least four containers deep', 'the element count of the array lands one byte early')
seed('c13-min-edge', 'C13', [('include/eosio/from_json.hpp', """      check(!(std::is_signed_v<T> && (-sign * limit + digit) / 10 > -sign * result),""",
     """      check(!(std::is_signed_v<T> && (-sign * limit + (sizeof(T) == 2 ? T(digit - 1) : digit)) / 10 > -sign * result),""")],
     CAPI + r"""
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\"}");
   want(c.enc("int16", "32767"), "FF7F");
   want(c.enc("int16", "-32768"), "0080");
   refused(c.enc("int16", "32768"));
   refused(c.enc("int16", "-32769"));
   return bad;
}""", 'int16 text 32768 or -32769, one beyond a limit', 'the value wraps instead of being refused')
seed('c14-zigzag', 'C14', [('include/eosio/from_bin.hpp', """      result = ((~v) >> 1) | 0x8000'0000;""", """      result = v > 0xffff'fff0 ? -int32_t((v >> 1) | 1) : int32_t(((~v) >> 1) | 0x8000'0000);""")],
     CAPI + r"""
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\"}");
   for (auto s : { "-1", "-2", "64", "-2147483648", "-2147483647", "2147483647", "-2147483646", "-2147483645" }) {
      auto h = c.enc("varint32", s);
      want(c.dec("varint32", h.c_str()), s);
   }
   return bad;
}""", 'varint32 within eight of the lowest value', 'decodes to a neighbouring number')
seed('c15-exp-zero', 'C15', [('include/eosio/fpconv.c', "    } else if(cent) {\n", "    } else if(cent && sign == '-') {\n")],
     CAPI + r"""
int main() {
   C c;
   c.abi("{\"version\":\"eosio::abi/1.1\"}");
   for (auto s : { "1.5", "1e300", "1e105", "1e-105", "2.5e200", "-1e308", "1e20" }) {
      auto h = c.enc("float64", s);
      want(c.enc("float64", c.dec("float64", h.c_str())), h);
   }
   return bad;
}""", 'a float64 with a positive decimal exponent ending in 00-09 above 99', 'the zero inside the exponent is lost: 1e105 prints as 1e+15')
