// Destination used by the native oracles: every recycle provides a new exact-size heap buffer (so that
// the sanitizer sees stale or out-of-range writes); what was written before is collected.
#pragma once
#include <strf/destination.hpp>
#include <vector>
#include <string>
#include <cstdlib>
#include <cstring>
namespace nat {
template <class C> struct test_dst : strf::destination<C> {
    using base = strf::destination<C>;
    std::basic_string<C> out; C* buf; std::size_t cap; std::size_t fail_after; std::size_t nrec = 0;
    std::vector<std::size_t> sizes; std::size_t at = 0; std::string err;
    static C* mk(std::size_t n) { C* p = (C*)std::malloc((n ? n : 1) * sizeof(C)); std::memset((void*)p, 0x5A, (n ? n : 1) * sizeof(C)); return p; }
    test_dst(std::size_t first, std::vector<std::size_t> s, std::size_t failafter = (std::size_t)-1)
        : base((C*)nullptr, (C*)nullptr), buf(mk(first)), cap(first), fail_after(failafter), sizes(std::move(s))
    { this->set_buffer_ptr(buf); this->set_buffer_end(buf + first); if (sizes.empty()) sizes.push_back(64); }
    void take()
    {
        C* p = this->buffer_ptr();
        if (p < buf || p > buf + cap) { err = "buffer_ptr outside the buffer"; return; }
        if (this->good()) out.append(buf, (std::size_t)(p - buf));
    }
    void recycle() override
    {
        take(); std::free(buf);
        std::size_t n = sizes[at++ % sizes.size()];
        if (n < base::min_space_after_recycle) n = base::min_space_after_recycle;
        buf = mk(n); cap = n; if (++nrec > fail_after) this->set_good(false);
        this->set_buffer_ptr(buf); this->set_buffer_end(buf + n);
    }
    std::basic_string<C> finish() { take(); this->set_buffer_ptr(buf); return out; }
    ~test_dst() override { std::free(buf); }
};
}
