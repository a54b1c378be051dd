// Reference decoding/encoding steps (Unicode maximal subpart practice)
#pragma once
#include <vector>
#include <cstddef>
typedef long long ll;
typedef unsigned u32;
struct Step { int dl; bool ok; u32 cp; };

template <int E, class S> Step ref_step(const std::vector<S>& v, size_t i, bool lax)
{
    size_t n = v.size();
    if (E == 32) {
        u32 u = (u32)v[i];
        bool ok = u < 0x110000 && (lax || u < 0xD800 || u > 0xDFFF);
        return {1, ok, ok ? u : 0xFFFD};
    }
    if (E == 16) {
        u32 u = (u32)v[i] & 0xFFFF;
        if (u < 0xD800 || u > 0xDFFF) return {1, true, u};
        if (u < 0xDC00 && i + 1 < n) {
            u32 w = (u32)v[i + 1] & 0xFFFF;
            if (w >= 0xDC00 && w <= 0xDFFF) return {2, true, 0x10000 + ((u & 0x3FF) << 10) + (w & 0x3FF)};
        }
        return {1, lax, lax ? u : 0xFFFD};
    }
    u32 b[4]; 
    for (int k = 0; k < 4; ++k) b[k] = i + k < n ? ((u32)v[i + k] & 0xFF) : 0x100;
    auto cont = [](u32 x) { return x >= 0x80 && x <= 0xBF; };
    if (b[0] < 0x80) return {1, true, b[0]};
    if (b[0] < 0xC2 || b[0] > 0xF4) return {1, false, 0xFFFD};
    if (b[0] < 0xE0) return cont(b[1]) ? Step{2, true, ((b[0] & 0x1F) << 6) | (b[1] & 0x3F)} : Step{1, false, 0xFFFD};
    u32 lo = 0x80, hi = 0xBF;
    if (b[0] == 0xE0) lo = 0xA0;
    if (b[0] == 0xED && !lax) hi = 0x9F;
    if (b[0] == 0xF0) lo = 0x90;
    if (b[0] == 0xF4) hi = 0x8F;
    if (b[1] < lo || b[1] > hi) return {1, false, 0xFFFD};
    if (!cont(b[2])) return {2, false, 0xFFFD};
    if (b[0] < 0xF0) return {3, true, ((b[0] & 0xF) << 12) | ((b[1] & 0x3F) << 6) | (b[2] & 0x3F)};
    if (!cont(b[3])) return {3, false, 0xFFFD};
    return {4, true, ((b[0] & 7) << 18) | ((b[1] & 0x3F) << 12) | ((b[2] & 0x3F) << 6) | (b[3] & 0x3F)};
}
template <int E> int ref_enc(u32 c, u32* o)
{
    if (E == 32) { o[0] = c; return 1; }
    if (E == 16) {
        if (c < 0x10000) { o[0] = c; return 1; }
        o[0] = 0xD800 + ((c - 0x10000) >> 10); o[1] = 0xDC00 + (c & 0x3FF); return 2;
    }
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
    o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
    return 4;
}
