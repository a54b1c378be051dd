#pragma once
#include "sbtab.inc"
#include <cstring>
#include <map>
typedef unsigned u32; typedef long long ll;
struct Sb {
    const SbTab* t; std::map<u32, unsigned> e;
    explicit Sb(const char* n) : t(nullptr) {
        for (auto& x : sbtabs) if (!strcmp(x.name, n)) t = &x;
        if (t) { for (unsigned b = 0; b < 256; ++b) if (t->dec[b] != 0xFFFD) e[t->dec[b]] = b; e[0xFFFD] = '?'; }
    }
    bool valid(unsigned b) const { return t->dec[b] != 0xFFFD; }
    u32 dec(unsigned b) const { return t->dec[b]; }
    bool sup(u32 c) const { return e.count(c) != 0; }
    unsigned enc(u32 c) const { auto i = e.find(c); return i == e.end() ? '?' : i->second; }
};
