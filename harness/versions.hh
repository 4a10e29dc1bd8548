// C21: records shared by all the versions of the schema.
#ifndef VERSIONS_HH
#define VERSIONS_HH
#include <string>
#include <vector>
#include <cstdint>
// -1: absent
struct Sub { bool hn = false, ht = false, hk = false; int64_t n = 0; std::string t; std::vector<int32_t> k;
    bool none() const { return !hn && !ht && k.empty(); }
    bool operator==(const Sub &o) const { return hn == o.hn && ht == o.ht && (!hn || n == o.n) && (!ht || t == o.t) && k == o.k; } };
struct Rec { bool hi = false, hs = false; int32_t i = 0; std::string s; Sub m; std::vector<Sub> r; std::vector<std::string> l;
    bool operator==(const Rec &o) const { return hi == o.hi && hs == o.hs && (!hi || i == o.i) && (!hs || s == o.s) && m == o.m && r == o.r && l == o.l; } };
// state of a logical field in a version: P present, A absent, T transient, R renamed
struct Version { const char *name, *top, *sub; bool numbers; bool (*write)(const Rec&, std::string&, int mode); bool (*read)(const std::string&, Rec&, std::string &error); };
extern std::vector<Version> &versions();
#endif
