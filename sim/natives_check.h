// Every call the interpreted code makes to a Dafny extern is answered by the stand-in and, on the same arguments, by the real
// C++ body of /repo/framework; the two must agree.
#pragma once
#include <functional>
#include <map>
#include <string>
namespace dfy { struct Engine; }
extern std::function<void(const std::string&)> natBad;
extern std::map<std::string, uint64_t> natCount;
void natLoad(void* so);
void natHook(dfy::Engine& e);
