// Simulated disk: sparse pages, copy-on-write snapshots, sector-granular torn writes.
#pragma once
#include "runner.h"
#include <array>
#include <memory>
struct Disk {
  typedef std::array<uint8_t, 4096> Page;
  std::map<uint64_t, std::shared_ptr<Page>> pg;
  uint64_t garbage = 0;                                     // 0: unwritten bytes read as zero
  void fill(uint64_t n, Page& p) const { if (!garbage) { p.fill(0); return; } uint64_t s = hmix(garbage, n); for (int i = 0; i < 4096; i += 8) { uint64_t x = splitmix(s); memcpy(&p[i], &x, 8); } }
  void read(uint64_t addr, uint8_t* out, uint64_t len) const {
    Page tmp; uint64_t a = addr, e = addr + len;
    while (a < e) { uint64_t n = a / 4096, o = a % 4096, k = std::min<uint64_t>(4096 - o, e - a); auto i = pg.find(n); if (i == pg.end()) { fill(n, tmp); memcpy(out + (a - addr), &tmp[o], k); } else memcpy(out + (a - addr), &(*i->second)[o], k); a += k; }
  }
  std::string read(uint64_t addr, uint64_t len) const { std::string s(len, 0); read(addr, (uint8_t*)&s[0], len); return s; }
  void write(uint64_t addr, const uint8_t* in, uint64_t len) {
    uint64_t a = addr, e = addr + len;
    while (a < e) { uint64_t n = a / 4096, o = a % 4096, k = std::min<uint64_t>(4096 - o, e - a); auto& r = pg[n]; if (!r) { r = std::make_shared<Page>(); if (k < 4096) fill(n, *r); } else if (r.use_count() > 1) r = std::make_shared<Page>(*r); memcpy(&(*r)[o], in + (a - addr), k); a += k; }
  }
  void write(uint64_t addr, const std::string& s) { write(addr, (const uint8_t*)s.data(), s.size()); }
  // apply an arbitrary subset of 512-byte sectors, chosen by h; mode 0 none, 1 all, 2 prefix, 3 random subset
  int tear(uint64_t addr, const std::string& s, uint64_t h) {
    int mode = (int)(h % 4); uint64_t n = (s.size() + 511) / 512; uint64_t cut = hmix(h, 1) % (n + 1); int app = 0;
    for (uint64_t i = 0; i < n; i++) { bool on = mode == 1 || (mode == 2 && i < cut) || (mode == 3 && (hmix(h, 100 + i) & 1)); if (on) { uint64_t o = i * 512, k = std::min<uint64_t>(512, s.size() - o); write(addr + o, (const uint8_t*)s.data() + o, k); app++; } }
    return app == 0 ? 0 : app == (int)n ? 2 : 1;              // 0 lost, 1 torn, 2 complete
  }
};
