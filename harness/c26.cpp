// C26: state-history protocol types against their published field lists.
#include <eosio/types.hpp>
#include "vh.hpp"
#include "lib.hpp"
#include <eosio/chain_conversions.hpp>
#include <eosio/crypto.hpp>
#include <eosio/to_json.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/to_bin.hpp>
#include <functional>
#include <map>

// The published protocol: "name < base = field:type ..." for records, "name | type ..." for variants.
static const char* schema_text = R"(
extension = type:uint16 data:bytes
get_status_request_v0 =
block_position = block_num:uint32 block_id:checksum256
get_status_result_v0 = head:block_position last_irreversible:block_position trace_begin_block:uint32 trace_end_block:uint32 chain_state_begin_block:uint32 chain_state_end_block:uint32 chain_id:checksum256
get_blocks_request_v0 = start_block_num:uint32 end_block_num:uint32 max_messages_in_flight:uint32 have_positions:block_position[] irreversible_only:bool fetch_block:bool fetch_traces:bool fetch_deltas:bool
get_blocks_ack_request_v0 = num_messages:uint32
request | get_status_request_v0 get_blocks_request_v0 get_blocks_ack_request_v0
get_blocks_result_base = head:block_position last_irreversible:block_position this_block:block_position? prev_block:block_position?
get_blocks_result_v0 < get_blocks_result_base = block:bytes? traces:bytes? deltas:bytes?
row = present:bool data:bytes
table_delta_v0 = name:string rows:row[]
table_delta | table_delta_v0
permission_level = actor:name permission:name
action = account:name name:name authorization:permission_level[] data:bytes
account_auth_sequence = account:name sequence:uint64
action_receipt_v0 = receiver:name act_digest:checksum256 global_sequence:uint64 recv_sequence:uint64 auth_sequence:account_auth_sequence[] code_sequence:varuint32 abi_sequence:varuint32
action_receipt | action_receipt_v0
account_delta = account:name delta:int64
action_trace_v0 = action_ordinal:varuint32 creator_action_ordinal:varuint32 receipt:action_receipt? receiver:name act:action context_free:bool elapsed:int64 console:string account_ram_deltas:account_delta[] except:string? error_code:uint64?
action_trace_v1 = action_ordinal:varuint32 creator_action_ordinal:varuint32 receipt:action_receipt? receiver:name act:action context_free:bool elapsed:int64 console:string account_ram_deltas:account_delta[] account_disk_deltas:account_delta[] except:string? error_code:uint64? return_value:bytes
action_trace | action_trace_v0 action_trace_v1
prunable_data_type::none = prunable_digest:checksum256
prunable_data_type::segment_type | checksum256 bytes
prunable_data_type::partial = signatures:signature[] context_free_segments:prunable_data_type::segment_type[]
prunable_data_type::full = signatures:signature[] context_free_segments:bytes[]
prunable_data_type::full_legacy = signatures:signature[] packed_context_free_data:bytes
prunable_data_type::prunable_data_t | prunable_data_type::full_legacy prunable_data_type::none prunable_data_type::partial prunable_data_type::full
prunable_data_type = prunable_data:prunable_data_type::prunable_data_t
partial_transaction_v0 = expiration:time_point_sec ref_block_num:uint16 ref_block_prefix:uint32 max_net_usage_words:varuint32 max_cpu_usage_ms:uint8 delay_sec:varuint32 transaction_extensions:extension[] signatures:signature[] context_free_data:bytes[]
partial_transaction_v1 = expiration:time_point_sec ref_block_num:uint16 ref_block_prefix:uint32 max_net_usage_words:varuint32 max_cpu_usage_ms:uint8 delay_sec:varuint32 transaction_extensions:extension[] prunable_data:prunable_data_type?
partial_transaction | partial_transaction_v0 partial_transaction_v1
transaction_trace_v0 = id:checksum256 status:status cpu_usage_us:uint32 net_usage_words:varuint32 elapsed:int64 net_usage:uint64 scheduled:bool action_traces:action_trace[] account_ram_delta:account_delta? except:string? error_code:uint64? failed_dtrx_trace:transaction_trace[] partial:partial_transaction?
transaction_trace | transaction_trace_v0
producer_key = producer_name:name block_signing_key:public_key
producer_schedule = version:uint32 producers:producer_key[]
transaction_receipt_header = status:status cpu_usage_us:uint32 net_usage_words:varuint32
packed_transaction_v0 = signatures:signature[] compression:uint8 packed_context_free_data:bytes packed_trx:bytes
packed_transaction = compression:uint8 prunable_data:prunable_data_type packed_trx:bytes
transaction_variant_v0 | checksum256 packed_transaction_v0
transaction_receipt_v0 < transaction_receipt_header = trx:transaction_variant_v0
transaction_variant | checksum256 packed_transaction
transaction_receipt < transaction_receipt_header = trx:transaction_variant
block_header = timestamp:block_timestamp_type producer:name confirmed:uint16 previous:checksum256 transaction_mroot:checksum256 action_mroot:checksum256 schedule_version:uint32 new_producers:producer_schedule? header_extensions:extension[]
signed_block_header < block_header = producer_signature:signature
signed_block_v0 < signed_block_header = transactions:transaction_receipt_v0[] block_extensions:extension[]
signed_block_v1 < signed_block_header = prune_state:uint8 transactions:transaction_receipt[] block_extensions:extension[]
signed_block_variant | signed_block_v0 signed_block_v1
get_blocks_result_v1 < get_blocks_result_base = block:signed_block_variant? traces:@transaction_trace[] deltas:@table_delta[]
result | get_status_result_v0 get_blocks_result_v0 get_blocks_result_v1
transaction_header = expiration:time_point_sec ref_block_num:uint16 ref_block_prefix:uint32 max_net_usage_words:varuint32 max_cpu_usage_ms:uint8 delay_sec:varuint32
transaction < transaction_header = context_free_actions:action[] actions:action[] transaction_extensions:extension[]
code_id = vm_type:uint8 vm_version:uint8 code_hash:checksum256
account_v0 = name:name creation_date:block_timestamp_type abi:bytes
account | account_v0
account_metadata_v0 = name:name privileged:bool last_code_update:time_point code:code_id?
account_metadata | account_metadata_v0
code_v0 = vm_type:uint8 vm_version:uint8 code_hash:checksum256 code:bytes
code | code_v0
contract_table_v0 = code:name scope:name table:name payer:name
contract_table | contract_table_v0
contract_row_v0 = code:name scope:name table:name primary_key:uint64 payer:name value:bytes
contract_row | contract_row_v0
contract_index64_v0 = code:name scope:name table:name primary_key:uint64 payer:name secondary_key:uint64
contract_index64 | contract_index64_v0
contract_index128_v0 = code:name scope:name table:name primary_key:uint64 payer:name secondary_key:uint128
contract_index128 | contract_index128_v0
contract_index256_v0 = code:name scope:name table:name primary_key:uint64 payer:name secondary_key:checksum256
contract_index256 | contract_index256_v0
contract_index_double_v0 = code:name scope:name table:name primary_key:uint64 payer:name secondary_key:float64
contract_index_double | contract_index_double_v0
contract_index_long_double_v0 = code:name scope:name table:name primary_key:uint64 payer:name secondary_key:float128
contract_index_long_double | contract_index_long_double_v0
key_value_v0 = database:name contract:name key:bytes value:bytes
key_value | key_value_v0
key_weight = key:public_key weight:uint16
block_signing_authority_v0 = threshold:uint32 keys:key_weight[]
block_signing_authority | block_signing_authority_v0
producer_authority = producer_name:name authority:block_signing_authority
producer_authority_schedule = version:uint32 producers:producer_authority[]
chain_config_v0 = max_block_net_usage:uint64 target_block_net_usage_pct:uint32 max_transaction_net_usage:uint32 base_per_transaction_net_usage:uint32 net_usage_leeway:uint32 context_free_discount_net_usage_num:uint32 context_free_discount_net_usage_den:uint32 max_block_cpu_usage:uint32 target_block_cpu_usage_pct:uint32 max_transaction_cpu_usage:uint32 min_transaction_cpu_usage:uint32 max_transaction_lifetime:uint32 deferred_trx_expiration_window:uint32 max_transaction_delay:uint32 max_inline_action_size:uint32 max_inline_action_depth:uint16 max_authority_depth:uint16
chain_config | chain_config_v0
global_property_v0 = proposed_schedule_block_num:uint32? proposed_schedule:producer_schedule configuration:chain_config
global_property_v1 = proposed_schedule_block_num:uint32? proposed_schedule:producer_authority_schedule configuration:chain_config chain_id:checksum256
global_property | global_property_v0 global_property_v1
generated_transaction_v0 = sender:name sender_id:uint128 payer:name trx_id:checksum256 packed_trx:bytes
generated_transaction | generated_transaction_v0
activated_protocol_feature_v0 = feature_digest:checksum256 activation_block_num:uint32
activated_protocol_feature | activated_protocol_feature_v0
protocol_state_v0 = activated_protocol_features:activated_protocol_feature[]
protocol_state | protocol_state_v0
permission_level_weight = permission:permission_level weight:uint16
wait_weight = wait_sec:uint32 weight:uint16
authority = threshold:uint32 keys:key_weight[] accounts:permission_level_weight[] waits:wait_weight[]
permission_v0 = owner:name name:name parent:name last_updated:time_point auth:authority
permission | permission_v0
permission_link_v0 = account:name code:name message_type:name required_permission:name
permission_link | permission_link_v0
resource_limits_v0 = owner:name net_weight:int64 cpu_weight:int64 ram_bytes:int64
resource_limits | resource_limits_v0
usage_accumulator_v0 = last_ordinal:uint32 value_ex:uint64 consumed:uint64
usage_accumulator | usage_accumulator_v0
resource_usage_v0 = owner:name net_usage:usage_accumulator cpu_usage:usage_accumulator ram_usage:uint64
resource_usage | resource_usage_v0
resource_limits_state_v0 = average_block_net_usage:usage_accumulator average_block_cpu_usage:usage_accumulator total_net_weight:uint64 total_cpu_weight:uint64 total_ram_bytes:uint64 virtual_net_limit:uint64 virtual_cpu_limit:uint64
resource_limits_state | resource_limits_state_v0
resource_limits_ratio_v0 = numerator:uint64 denominator:uint64
resource_limits_ratio | resource_limits_ratio_v0
elastic_limit_parameters_v0 = target:uint64 max:uint64 periods:uint32 max_multiplier:uint32 contract_rate:resource_limits_ratio expand_rate:resource_limits_ratio
elastic_limit_parameters | elastic_limit_parameters_v0
resource_limits_config_v0 = cpu_limit_parameters:elastic_limit_parameters net_limit_parameters:elastic_limit_parameters account_cpu_usage_average_window:uint32 account_net_usage_average_window:uint32
resource_limits_config | resource_limits_config_v0
)";
struct Def {
   bool                                             variant = false;
   std::string                                      base;
   std::vector<std::pair<std::string, std::string>> fields; // name, type
};
static std::map<std::string, Def> defs;
static std::vector<std::string>   def_order;
static void parse_schema() {
   std::string cur;
   for (const char* p = schema_text;; ++p)
      if (*p == '\n' || !*p) {
         std::vector<std::string> w;
         std::string              x;
         for (char c : cur + " ")
            if (c == ' ') {
               if (!x.empty())
                  w.push_back(x);
               x.clear();
            } else
               x += c;
         if (!w.empty()) {
            Def    d;
            size_t i  = 2;
            d.variant = w[1] == "|";
            if (w[1] == "<") {
               d.base = w[2];
               i      = 4;
            }
            for (; i < w.size(); ++i) {
               size_t c = w[i].find(':');
               if (d.variant)
                  d.fields.push_back({ "", w[i] });
               else
                  d.fields.push_back({ w[i].substr(0, c), w[i].substr(c + 1) });
            }
            defs[w[0]] = d;
            def_order.push_back(w[0]);
         }
         cur.clear();
         if (!*p)
            break;
      } else
         cur += *p;
}
static bool ends(const std::string& s, const char* e) { return s.size() >= strlen(e) && s.substr(s.size() - strlen(e)) == e; }
static std::string abi_type_name(const std::string& t) {
   if (t[0] == '@')
      return "bytes";
   if (t == "status")
      return "uint8";
   return t;
}
static std::string abi_json() {
   std::string st, va;
   for (auto& n : def_order) {
      auto& d = defs[n];
      if (d.variant) {
         va += (va.empty() ? "" : ",") + ("{\"name\":" + lib::q(n)) + ",\"types\":[";
         for (size_t i = 0; i < d.fields.size(); ++i) va += (i ? "," : "") + lib::q(abi_type_name(d.fields[i].second));
         va += "]}";
      } else {
         st += (st.empty() ? "" : ",") + ("{\"name\":" + lib::q(n)) + ",\"base\":" + lib::q(d.base) + ",\"fields\":[";
         for (size_t i = 0; i < d.fields.size(); ++i)
            st += (i ? "," : "") + ("{\"name\":" + lib::q(d.fields[i].first)) + ",\"type\":" + lib::q(abi_type_name(d.fields[i].second)) + "}";
         st += "]}";
      }
   }
   return "{\"version\":\"eosio::abi/1.1\",\"structs\":[" + st + "],\"variants\":[" + va + "]}";
}

// ---- values: every run of the generator is one value; it asks `choose` at each branch ---------------------------------------------
struct Gen {
   std::vector<std::pair<size_t, size_t>> dev; // (decision, choice) differing from the default, ascending
   std::vector<size_t>                    width;
   std::vector<bool>                      isleaf;
   bool                                   sparse = false; // default choice is the last one (nothing present)
   uint64_t                               serial = 0;
   int                                    depth  = 0;
   std::string                            bin;
   size_t                                 choose(size_t n, bool leaf) {
      size_t i = width.size();
      width.push_back(n);
      isleaf.push_back(leaf);
      for (auto& d : dev)
         if (d.first == i)
            return d.second;
      return sparse && !leaf ? n - 1 : 0;
   }
   void le(unsigned __int128 v, int n) {
      for (int i = 0; i < n; ++i) bin += (char)(v >> (8 * i));
   }
   void varu(uint64_t v) {
      for (; v >= 128; v /= 128) bin += (char)(v % 128 + 128);
      bin += (char)v;
   }
   static std::string dec(unsigned __int128 v) {
      std::string s;
      do s.insert(s.begin(), (char)('0' + (int)(v % 10)));
      while (v /= 10);
      return s;
   }
   static std::string hex(const std::string& s) {
      std::string r;
      for (unsigned char c : s) {
         r += "0123456789ABCDEF"[c / 16];
         r += "0123456789ABCDEF"[c % 16];
      }
      return r;
   }
   // distinct in every byte position from its neighbours
   uint64_t fresh() {
      ++serial;
      uint64_t x = serial * 0x9e3779b97f4a7c15ull;
      x ^= x >> 29;
      x *= 0xbf58476d1ce4e5b9ull;
      return (x ^ x >> 32) | 1;
   }
   std::string blob(size_t n) {
      std::string s;
      while (s.size() < n) {
         uint64_t v = fresh();
         for (int i = 0; i < 8 && s.size() < n; ++i) s += (char)(v >> (8 * i));
      }
      return s;
   }
   struct Out {
      std::string native, abi;
   };
   static Out both(const std::string& s) { return { s, s }; }
   template <typename T>
   Out lib_text(const std::string& bytes) { // text of a leaf type judged elsewhere
      bin += bytes;
      std::vector<char> v(bytes.begin(), bytes.end());
      return both(eosio::convert_to_json(eosio::convert_from_bin<T>(v)));
   }
   Out number(int size, bool sign, bool var = false) {
      unsigned __int128 mask = size == 16 ? ~(unsigned __int128)0 : ((unsigned __int128)1 << (8 * size)) - 1, v;
      switch (choose(4, true)) {
         case 0: v = ((unsigned __int128)fresh() << 64 | fresh()) & mask; break;
         case 1: v = 0; break;
         case 2: v = mask; break;
         default: v = (unsigned __int128)1 << (8 * size - 1); break;
      }
      if (var)
         varu((uint64_t)v);
      else
         le(v, size);
      bool        neg = sign && v >> (8 * size - 1) & 1;
      std::string s   = dec(neg ? (~v + 1) & mask : v);
      if (neg)
         s = "-" + s;
      return both(size > 4 ? lib::q(s) : s);
   }
   Out bytes(size_t a, size_t b) {
      std::string s;
      switch (choose(3, true)) {
         case 0: s = blob(a); break;
         case 1: s = ""; break;
         default: s = blob(b); break;
      }
      varu(s.size());
      bin += s;
      return both(lib::q(hex(s)));
   }
   Out make(const std::string& t) {
      if (t[0] == '@') {
         Gen g;
         std::string saved = std::move(bin);
         bin.clear();
         switch (choose(3, false)) {
            case 0: make(t.substr(1)); break;
            case 1: make(t.substr(1)); break;
            default: bin = std::string(1, '\0'); break;
         }
         std::string inner = std::move(bin);
         bin               = std::move(saved);
         varu(inner.size());
         bin += inner;
         return { "?", lib::q(hex(inner)) };
      }
      if (ends(t, "?")) {
         bool there = choose(2, false) == 0;
         bin += (char)(there ? 1 : 0);
         return there ? make(t.substr(0, t.size() - 1)) : both("null");
      }
      if (ends(t, "[]")) {
         std::string e = t.substr(0, t.size() - 2);
         size_t      n;
         if (e == "transaction_trace") {
            static const size_t k0[] = { 1, 2, 0 }, k1[] = { 1, 0 };
            n = depth == 0 ? k0[choose(3, false)] : depth == 1 ? k1[choose(2, false)] : 0;
         } else {
            static const size_t k[] = { 2, 1, 3, 0 };
            n = k[choose(4, false)];
         }
         varu(n);
         Out r = both("[");
         for (size_t i = 0; i < n; ++i) {
            Out o = make(e);
            r.native += (i ? "," : "") + o.native;
            r.abi += (i ? "," : "") + o.abi;
         }
         r.native += "]";
         r.abi += "]";
         return r;
      }
      auto d = defs.find(t);
      if (d != defs.end() && d->second.variant) {
         size_t i = choose(d->second.fields.size(), false);
         varu(i);
         auto& e = d->second.fields[i].second;
         depth += t == "transaction_trace";
         Out o = make(e);
         depth -= t == "transaction_trace";
         return { "[" + lib::q(e) + "," + o.native + "]", "[" + lib::q(e) + "," + o.abi + "]" };
      }
      if (d != defs.end()) {
         Out  r = both("{");
         bool first = true;
         record(d->second, r, first);
         r.native += "}";
         r.abi += "}";
         return r;
      }
      if (t == "bool") {
         size_t b = choose(2, true);
         bin += (char)(1 - b);
         return both(b ? "false" : "true");
      }
      if (t == "status") {
         static const char* names[] = { "executed", "soft_fail", "hard_fail", "delayed", "expired" };
         size_t             s = choose(5, true);
         bin += (char)s;
         return { lib::q(names[s]), dec(s) };
      }
      if (t == "uint8") return number(1, false);
      if (t == "uint16") return number(2, false);
      if (t == "uint32") return number(4, false);
      if (t == "uint64") return number(8, false);
      if (t == "uint128") return number(16, false);
      if (t == "int64") return number(8, true);
      if (t == "varuint32") return number(4, false, true);
      if (t == "bytes") return bytes(5, 130);
      if (t == "string") {
         static const char* s[] = { "text", "", "tab/\\\"quoted\\\"" };
         size_t             k   = choose(3, true);
         std::string        v = s[k], raw = k == 2 ? "tab/\"quoted\"" : v;
         if (k == 0) {
            std::string n = dec(++serial);
            v += n;
            raw += n;
         }
         varu(raw.size());
         bin += raw;
         return both(lib::q(v));
      }
      if (t == "name") {
         std::string s;
         switch (choose(3, true)) {
            case 0: {
               uint64_t x = fresh();
               for (int i = 0; i < 12; ++i, x /= 31) s += "12345abcdefghijklmnopqrstuvwxyz"[x % 31];
               break;
            }
            case 1: break;
            default: s = "zzzzzzzzzzzzj"; break;
         }
         uint64_t v = 0;
         for (size_t i = 0; i < 13; ++i) {
            char     c = i < s.size() ? s[i] : '.';
            uint64_t k = c == '.' ? 0 : c <= '5' ? c - '0' : c - 'a' + 6;
            v          = i < 12 ? v << 5 | k : v << 4 | k;
         }
         le(v, 8);
         return both(lib::q(s));
      }
      if (t == "checksum256") {
         std::string s = choose(2, true) ? std::string(32, '\xff') : blob(32);
         bin += s;
         return both(lib::q(hex(s)));
      }
      if (t == "float128") {
         std::string s = choose(2, true) ? std::string(16, '\xff') : blob(16);
         bin += s;
         return both(lib::q(hex(s)));
      }
      if (t == "public_key") {
         switch (choose(4, true)) {
            case 0: return lib_text<eosio::public_key>(std::string(1, '\0') + blob(33));
            case 1: return lib_text<eosio::public_key>(std::string(1, '\1') + blob(33));
            case 2: return lib_text<eosio::public_key>(std::string(1, '\2') + blob(33) + "\1\4site");
            default: return lib_text<eosio::public_key>(std::string(34, '\0'));
         }
      }
      if (t == "signature") {
         switch (choose(3, true)) {
            case 0: return lib_text<eosio::signature>(std::string(1, '\0') + blob(65));
            case 1: return lib_text<eosio::signature>(std::string(1, '\1') + blob(65));
            default: return lib_text<eosio::signature>(std::string(1, '\2') + blob(65) + "\3\x80\1\xff\2{}");
         }
      }
      auto pick = [&](std::initializer_list<std::pair<unsigned long long, const char*>> l, int size) {
         auto it = l.begin() + choose(l.size(), true);
         le(it->first, size);
         return both(lib::q(it->second));
      };
      if (t == "time_point_sec")
         return pick({ { 1583020799u, "2020-02-29T23:59:59.000" }, { 0, "1970-01-01T00:00:00.000" }, { 4294967295u, "2106-02-07T06:28:15.000" } }, 4);
      if (t == "time_point")
         return pick({ { 1583020799999000ull, "2020-02-29T23:59:59.999" }, { 0, "1970-01-01T00:00:00.000" }, { 253402300799001000ull, "9999-12-31T23:59:59.001" } }, 8);
      if (t == "block_timestamp_type")
         return pick({ { 1272671999u, "2020-02-29T23:59:59.500" }, { 0, "2000-01-01T00:00:00.000" }, { 4102444799u, "2064-12-30T23:59:59.500" } }, 4);
      if (t == "float64") {
         static const double d[] = { 1.5, 0.0, -2.25, 1e300 };
         uint64_t            u;
         double              v = d[choose(4, true)];
         memcpy(&u, &v, 8);
         std::string b;
         for (int i = 0; i < 8; ++i) b += (char)(u >> (8 * i));
         return lib_text<double>(b);
      }
      throw std::logic_error("unknown type " + t);
   }
   void record(const Def& d, Out& r, bool& first) {
      if (!d.base.empty())
         record(defs[d.base], r, first);
      for (auto& f : d.fields) {
         Out o = make(f.second);
         r.native += (first ? "" : ",") + lib::q(f.first) + ":" + o.native;
         r.abi += (first ? "" : ",") + lib::q(f.first) + ":" + o.abi;
         first = false;
      }
   }
};

namespace sp = eosio::ship_protocol;
template <typename T>
struct no_json : std::false_type {}; // deferred values have no native JSON form
template <>
struct no_json<sp::get_blocks_result_v1> : std::true_type {};
template <>
struct no_json<sp::result> : std::true_type {};

template <typename T>
lib::Res nat(const std::string& bin, std::string* json) {
   return lib::attempt([&] {
      std::unique_ptr<char[]> p(new char[bin.size()]);
      memcpy(p.get(), bin.data(), bin.size());
      eosio::input_stream s(p.get(), bin.size());
      auto                v = std::make_unique<T>();
      from_bin(*v, s);
      if (s.remaining())
         throw std::runtime_error("bytes left over");
      if constexpr (!no_json<T>::value)
         if (json)
            *json = eosio::convert_to_json(*v);
      return lib::str(eosio::convert_to_bin(*v));
   });
}
static lib::Abi g_abi;
template <typename T>
void check_one(vh::T& t, const std::string& name, const Gen& g, const Gen::Out& o, bool truncs) {
   t.count("evaluations");
   if (!t.distinct("nontrivial", vh::fnv(g.bin, vh::fnv(name))))
      return;
   std::string k = ":" + name + ":" + (g.sparse ? "s" : "f"), json;
   for (auto& d : g.dev) k += "," + std::to_string(d.first) + "=" + std::to_string(d.second);
   auto what = [&](const std::string& w) { return name + " value " + vh::cut(o.abi, 1500) + ": " + w; };
   auto n    = nat<T>(g.bin, &json);
   t.ok(n.ok, "dec" + k, what("refused: " + n.err));
   if (n.ok) {
      t.ok(n.v == g.bin, "rt" + k, what("encodes again as " + vh::cut(vh::hexs(n.v), 1500) + " instead of " + vh::cut(vh::hexs(g.bin), 1500)));
      if (!no_json<T>::value)
         t.ok(json == o.native, "json" + k, what("native JSON " + vh::cut(json, 1500) + " expected " + vh::cut(o.native, 1500)));
   }
   auto ty = g_abi.type(name);
   auto d  = lib::dec(ty, g.bin);
   t.ok(d.ok && d.v == o.abi, "adec" + k, what("the published ABI decodes to " + vh::cut(d.v + d.err, 1500)));
   auto e = lib::enc(ty, o.abi), r = lib::encr(ty, o.abi);
   t.ok(e.ok && e.v == g.bin, "aenc" + k, what("the published ABI encodes as " + vh::cut(vh::hexs(e.v) + e.err, 1500)));
   t.ok(r.ok && r.v == g.bin, "aencr" + k, what("the published ABI (reorderable) encodes as " + vh::cut(vh::hexs(r.v) + r.err, 1500)));
   if (truncs)
      for (size_t i = 0; i < g.bin.size(); ++i) {
         auto x = nat<T>(g.bin.substr(0, i), nullptr);
         t.count("truncations");
         t.ok(!x.ok, "trunc" + k + ":" + std::to_string(i), what("its first " + std::to_string(i) + " bytes are accepted"));
         if (i % 3 == 0 || i + 12 > g.bin.size()) {
            auto y = lib::dec(ty, g.bin.substr(0, i));
            t.ok(!y.ok, "atrunc" + k + ":" + std::to_string(i), what("its first " + std::to_string(i) + " bytes are accepted through the ABI"));
         }
      }
}
template <typename T>
void check_type(vh::T& t, const std::string& name) {
   size_t pair_budget = t.thorough() ? 400000 : 12000;
   for (bool sparse : { false, true }) {
      Gen base;
      base.sparse = sparse;
      auto o      = base.make(name);
      if (t.next()) {
         t.desc(name + " baseline");
         t.sample(name + " " + vh::cut(o.abi, 300));
         check_one<T>(t, name, base, o, true);
      }
      size_t work = 0;
      // one deviation; then a second one later in the value
      for (size_t i = 0; i < base.width.size(); ++i)
         for (size_t c = 0; c < base.width[i]; ++c) {
            Gen g;
            g.sparse = sparse;
            g.dev    = { { i, c } };
            auto o1  = g.make(name);
            bool mine = t.next();
            if (mine) {
               t.desc(name + " one deviation " + std::to_string(i));
               check_one<T>(t, name, g, o1, t.thorough() || base.width.size() < 120 || !base.isleaf[i]);
            }
            if (base.isleaf[i] && !t.thorough())
               continue;
            for (size_t j = i + 1; j < g.width.size() && work < pair_budget; ++j) {
               if (g.isleaf[j] && (!t.thorough() || base.isleaf[i]))
                  continue;
               for (size_t c2 = 0; c2 < g.width[j]; ++c2) {
                  ++work;
                  if (!mine)
                     continue;
                  Gen h;
                  h.sparse = sparse;
                  h.dev    = { { i, c }, { j, c2 } };
                  auto o2  = h.make(name);
                  check_one<T>(t, name, h, o2, false);
               }
            }
         }
      if (work >= pair_budget)
         t.count("pair_budget_reached");
   }
}

static void status_codes(vh::T& t) {
   static const char* names[] = { "executed", "soft_fail", "hard_fail", "delayed", "expired" };
   auto               to      = [&](int c) { return lib::attempt([&] { return sp::to_string((sp::transaction_status)c); }); };
   auto               from    = [&](const std::string& s) { return lib::attempt([&] { return std::to_string((int)sp::get_transaction_status(s)); }); };
   for (int c = 0; c < 256; ++c) {
      auto r = to(c);
      t.count("evaluations");
      t.ok(c < 5 ? r.ok && r.v == names[c] : !r.ok, "status:" + std::to_string(c), "status " + std::to_string(c) + " is called " + r.v);
      auto j = lib::attempt([&] { return eosio::convert_to_json((sp::transaction_status)c); });
      t.ok(c < 5 ? j.ok && j.v == lib::q(names[c]) : !j.ok, "statusj:" + std::to_string(c), "status " + std::to_string(c) + " prints as " + j.v);
      auto b = eosio::convert_to_bin((sp::transaction_status)c);
      t.ok(b.size() == 1 && (uint8_t)b[0] == c, "statusb:" + std::to_string(c), "status " + std::to_string(c) + " encodes as " + vh::hexs(b));
   }
   std::vector<std::string> cand{ "", "0", "1", "unknown", "failed" };
   for (int c = 0; c < 5; ++c) {
      std::string n = names[c];
      auto        r = from(n);
      t.ok(r.ok && r.v == std::to_string(c), "name:" + n, n + " is status " + r.v + r.err);
      for (size_t i = 0; i <= n.size(); ++i) {
         cand.push_back(n.substr(0, i) + "x" + n.substr(i));
         cand.push_back(n.substr(0, i) + std::string(1, '\0') + n.substr(i));
         if (i < n.size()) {
            cand.push_back(n.substr(0, i) + n.substr(i + 1));
            cand.push_back(n.substr(0, i) + (char)(n[i] ^ 32) + n.substr(i + 1));
            cand.push_back(n.substr(0, i));
         }
      }
      cand.push_back(n + " ");
      cand.push_back(" " + n);
   }
   for (auto& s : cand) {
      auto r = from(s);
      t.count("evaluations");
      t.ok(!r.ok, "badname:" + s, "\"" + s + "\" is taken for status " + r.v);
   }
}

// deferred sections of a result give the values that were encoded
static void deferred(vh::T& t) {
   for (size_t c = 0; c < 3; ++c) {
      Gen g;
      auto o = g.make("get_blocks_result_v1");
      // find both sections at the end of the encoding by generating them alone
      std::string bin = g.bin;
      std::vector<char>       v(bin.begin(), bin.end());
      eosio::input_stream     s(v);
      sp::get_blocks_result_v1 r;
      auto                    a = lib::attempt([&] {
         from_bin(r, s);
         std::string out;
         auto        r2 = r;
         auto        tr = r.traces.unpack();
         auto        de = r.deltas.unpack();
         out += lib::str(eosio::convert_to_bin(tr)) + lib::str(eosio::convert_to_bin(de));
         std::string el;
         size_t      n = r2.traces.unpack_size();
         if (n != tr.size())
            throw std::runtime_error("sizes differ");
         for (size_t i = 0; i < n; ++i) el += lib::str(eosio::convert_to_bin(r2.traces.unpack_next()));
         n = r2.deltas.unpack_size();
         if (n != de.size())
            throw std::runtime_error("sizes differ");
         for (size_t i = 0; i < n; ++i) el += lib::str(eosio::convert_to_bin(r2.deltas.unpack_next()));
         std::string w1 = lib::str(eosio::convert_to_bin(tr)), w2 = lib::str(eosio::convert_to_bin(de));
         if (el != w1.substr(1) + w2.substr(1))
            throw std::runtime_error("elements differ");
         // the sections as written must be the tail of the message
         Gen  x;
         x.bin.clear();
         x.varu(w1.size());
         x.bin += w1;
         x.varu(w2.size());
         x.bin += w2;
         if (bin.substr(bin.size() - x.bin.size()) != x.bin)
            throw std::runtime_error("sections differ");
         return out;
      });
      t.count("evaluations");
      t.ok(a.ok, "deferred", "deferred traces and deltas: " + a.err);
   }
}

static void run(vh::T& t) {
   parse_schema();
   g_abi.load(abi_json());
   if (t.next()) {
      t.desc("published ABI");
      t.ok(g_abi.a != nullptr, "abi", "published ABI refused: " + g_abi.err);
   }
   if (!g_abi.a)
      return;
   if (t.next()) {
      t.desc("status codes");
      status_codes(t);
   }
   if (t.next()) {
      t.desc("deferred sections");
      deferred(t);
   }
#define X(N) check_type<sp::N>(t, #N);
#if PART == 0
   X(extension) X(get_status_request_v0) X(block_position) X(get_status_result_v0) X(get_blocks_request_v0) X(get_blocks_ack_request_v0) X(request) X(get_blocks_result_base) X(get_blocks_result_v0)
   X(row) X(table_delta_v0) X(table_delta) X(permission_level) X(action) X(account_auth_sequence) X(action_receipt_v0) X(action_receipt) X(account_delta) X(action_trace_v0) X(action_trace_v1) X(action_trace)
#elif PART == 1
   X(prunable_data_type::none) X(prunable_data_type::partial) X(prunable_data_type::full) X(prunable_data_type::full_legacy) X(prunable_data_type) X(partial_transaction_v0) X(partial_transaction_v1)
   X(partial_transaction) X(transaction_trace_v0) X(transaction_trace)
   check_type<sp::recurse_transaction_trace>(t, "transaction_trace");
   check_type<sp::prunable_data_type::segment_type>(t, "prunable_data_type::segment_type");
   check_type<sp::prunable_data_type::prunable_data_t>(t, "prunable_data_type::prunable_data_t");
#elif PART == 2
   X(producer_key) X(producer_schedule) X(transaction_receipt_header) X(packed_transaction_v0) X(packed_transaction) X(transaction_variant_v0) X(transaction_receipt_v0) X(transaction_variant) X(transaction_receipt)
   X(block_header) X(signed_block_header) X(signed_block_v0) X(signed_block_v1) X(signed_block_variant) X(transaction_header) X(transaction)
#elif PART == 3
   X(get_blocks_result_v1) X(result)
#elif PART == 4
   X(code_id) X(account_v0) X(account) X(account_metadata_v0) X(account_metadata) X(code_v0) X(code) X(contract_table_v0) X(contract_table) X(contract_row_v0) X(contract_row) X(contract_index64_v0) X(contract_index64)
   X(contract_index128_v0) X(contract_index128) X(contract_index256_v0) X(contract_index256) X(contract_index_double_v0) X(contract_index_double) X(contract_index_long_double_v0) X(contract_index_long_double)
   X(key_value_v0) X(key_value) X(key_weight) X(block_signing_authority_v0) X(block_signing_authority) X(producer_authority) X(producer_authority_schedule) X(chain_config_v0) X(chain_config)
#else
   X(global_property_v0) X(global_property_v1) X(global_property) X(generated_transaction_v0) X(generated_transaction) X(activated_protocol_feature_v0) X(activated_protocol_feature) X(protocol_state_v0) X(protocol_state)
   X(permission_level_weight) X(wait_weight) X(authority) X(permission_v0) X(permission) X(permission_link_v0) X(permission_link) X(resource_limits_v0) X(resource_limits) X(usage_accumulator_v0) X(usage_accumulator)
   X(resource_usage_v0) X(resource_usage) X(resource_limits_state_v0) X(resource_limits_state) X(resource_limits_ratio_v0) X(resource_limits_ratio) X(elastic_limit_parameters_v0) X(elastic_limit_parameters)
   X(resource_limits_config_v0) X(resource_limits_config)
#endif
}
VH_MAIN(run)
