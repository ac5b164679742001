#pragma once
#include "disk.h"
#include "model.h"
struct VeriIO { static VeriIO* cur; bool two = false; virtual ~VeriIO() {} virtual uint64_t write(uint64_t a, std::string b) = 0; virtual void write2(uint64_t a, std::string b, uint64_t c, std::string d, uint64_t& i, uint64_t& j) { two = true; i = write(a, b); j = write(c, d); two = false; } virtual uint64_t read(uint64_t a, uint64_t l) = 0; virtual void getWrite(uint64_t& id, uint64_t& a, uint64_t& l) = 0; virtual void getRead(uint64_t& id, uint64_t& a, std::string& b) = 0; };
namespace dfy { struct Engine; struct Val; }
// nodes on the longest path of the tree, and whether that path cannot be held by the node cache of this configuration
int treeDepth(dfy::Val& fs);
bool pathExceedsCache(dfy::Val& fs);
void veriLoad(void (*hook)(dfy::Engine&) = nullptr);
void applyKnobs(std::map<std::string, uint64_t>& knob);
struct GenCfg { int keymode, nkeys; uint64_t fill, vmax; };
GenCfg genConfig(Rng& r, Scenario& s, const std::string& focus);
// what a recovery of this disk finds, run to its end on a private copy with the real handlers
struct Scan { KV kv; bool ok = false, tooLong = false; std::string err; std::vector<std::pair<uint64_t, uint64_t>> reads; uint64_t handlers = 0; };
Scan veriProbe(const Disk& d, uint64_t maxHandlers, bool roomyCache, const std::vector<std::string>& keys, std::map<std::string, uint64_t>& ctr);
