// the capacity is not to be read off the source: the number of rows that are still there after one more is set
extern "C" unsigned long app_rowcap() {
  static unsigned long cap = 0; if (cap) return cap;
  auto key = [](unsigned long i) { return ByteString(std::to_string(i)); };
  for (unsigned long n = 1; n <= 2048; n *= 2) { RowCache c; for (unsigned long i = 0; i < n; i++) c.set(key(i), key(i)); unsigned long held = 0; for (unsigned long i = 0; i < n; i++) held += c.get(key(i)).has_value(); if (held < n) return cap = held; }
  return cap = 1ul << 30;
}
