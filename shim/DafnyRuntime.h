// Stand-in for the C++ run-time header of the Dafny compiler (not part of /repo, not installed here): the types and operations
// that /repo/framework uses, with the compiler's semantics.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <immintrin.h>
#include <nmmintrin.h>
#include <wmmintrin.h>
#include <stdio.h>
typedef std::int8_t int8; typedef std::int16_t int16; typedef std::int32_t int32; typedef std::int64_t int64;
typedef unsigned char uchar; typedef std::uint8_t uint8; typedef std::uint16_t uint16; typedef std::uint32_t uint32; typedef unsigned long uint64;
static_assert(sizeof(uint64) == 8, "");
template <typename T> struct get_default { static T call() { return T{}; } };
template <typename U> void hash_combine(std::size_t& seed, const U& v) { std::hash<U> h; seed ^= h(v) + 0x9e3779b9 + (seed << 6) + (seed >> 2); }
struct Tuple0 { bool operator==(const Tuple0&) const { return true; } };
template <typename... Ts> struct Tuple {
  std::tuple<Ts...> data;
  Tuple() {}
  Tuple(Ts... ts) : data(ts...) {}
  template <std::size_t N> auto get() const { return std::get<N>(data); }
  bool operator==(const Tuple& o) const { return data == o.data; }
};
template <typename... Ts> Tuple(Ts...) -> Tuple<Ts...>;
template <typename T> struct DafnySequence {
  std::shared_ptr<T> sptr; T* start = nullptr; size_t len = 0;
  DafnySequence() {}
  explicit DafnySequence(uint64 n) { alloc(n); }
  explicit DafnySequence(const std::vector<T>& v) { alloc(v.size()); std::copy(v.begin(), v.end(), start); }
  explicit DafnySequence(std::initializer_list<T> v) { alloc(v.size()); std::copy(v.begin(), v.end(), start); }
  void alloc(size_t n) { len = n; start = n ? new T[n]() : nullptr; sptr = std::shared_ptr<T>(start, std::default_delete<T[]>()); }
  static DafnySequence SeqFromArray(T* p, size_t n) { DafnySequence s(n); std::copy(p, p + n, s.start); return s; }
  static DafnySequence Create(std::initializer_list<T> v) { return DafnySequence(v); }
  T* ptr() const { return start; }
  uint64 size() const { return len; }
  T select(uint64 i) const { return start[i]; }
  DafnySequence update(uint64 i, T t) const { DafnySequence r = clone(); r.start[i] = t; return r; }
  DafnySequence clone() const { DafnySequence r(len); std::copy(start, start + len, r.start); return r; }
  DafnySequence concatenate(const DafnySequence& o) const { DafnySequence r(len + o.len); std::copy(start, start + len, r.start); std::copy(o.start, o.start + o.len, r.start + len); return r; }
  DafnySequence subsequence(uint64 lo, uint64 hi) const { DafnySequence r; r.sptr = sptr; r.start = start + lo; r.len = hi - lo; return r; }
  DafnySequence drop(uint64 lo) const { return subsequence(lo, len); }
  DafnySequence take(uint64 hi) const { return subsequence(0, hi); }
  bool isPrefixOf(const DafnySequence& o) const { return len <= o.len && std::equal(start, start + len, o.start); }
  bool isProperPrefixOf(const DafnySequence& o) const { return len < o.len && isPrefixOf(o); }
  bool contains(T t) const { return std::find(start, start + len, t) != start + len; }
  bool equals(const DafnySequence& o) const { return len == o.len && std::equal(start, start + len, o.start); }
  bool operator==(const DafnySequence& o) const { return equals(o); }
  bool operator!=(const DafnySequence& o) const { return !equals(o); }
};
inline DafnySequence<char> DafnySequenceFromString(std::string const& s) { DafnySequence<char> r(s.size()); std::copy(s.begin(), s.end(), r.ptr()); return r; }
template <typename T> struct DafnyArray {
  std::shared_ptr<std::vector<T>> vec;
  DafnyArray() {}
  explicit DafnyArray(size_t n) : vec(std::make_shared<std::vector<T>>(n)) {}
  T& at(uint64 i) const { return i == vec->size() ? *(vec->data() + i) : vec->at(i); }   // one past the end: packing an empty sequence takes that address
  size_t size() const { return vec->size(); }
  typename std::vector<T>::iterator begin() const { return vec->begin(); }
  typename std::vector<T>::iterator end() const { return vec->end(); }
  T* ptr() const { return vec->data(); }
};
template <typename T> struct std::hash<DafnySequence<T>> { size_t operator()(const DafnySequence<T>& s) const { size_t h = 0; for (size_t i = 0; i < s.size(); i++) hash_combine<T>(h, s.select(i)); return h; } };
template <typename K, typename V> struct DafnyMap {
  std::unordered_map<K, V> map;
  uint64 size() const { return map.size(); }
  bool contains(K k) const { return map.find(k) != map.end(); }
  V get(K k) const { return map.at(k); }
};
