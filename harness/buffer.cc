// C01: buffer against an ideal byte queue
#include "vh.h"
#include "cppev/buffer.h"
#include <list>
using namespace cppev;
using vh::Rng;

struct Item
{
    std::unique_ptr<buffer> b;
    std::string q;          // ideal queue
    int cap_floor;          // capacity may not fall below this by growing/compacting
    bool compacted;         // content starts at the beginning of the storage
    bool moved = false;
};

static std::string ops;

static void verify(Item &it, Rng &r, const char *after)
{
    buffer &b = *it.b;
    const buffer &cb = b;
    CHECK(b.size() == static_cast<int>(it.q.size()), "size", "size %d, expected %zu after %s; %s", b.size(), it.q.size(), after, ops.c_str());
    CHECK(b.capacity() >= b.size(), "capacity", "capacity %d below size %d after %s", b.capacity(), b.size(), after);
    CHECK(b.capacity() >= it.cap_floor, "capacity-shrunk", "capacity %d, was or was requested %d, after %s; %s", b.capacity(), it.cap_floor, after, ops.c_str());
    if (it.q.size())
    {
        CHECK(memcmp(b.rawbuf(), it.q.data(), it.q.size()) == 0, "content", "content differs after %s; %s", after, ops.c_str());
        CHECK(cb.rawbuf() == b.rawbuf(), "const-rawbuf", "const and non-const raw pointers differ");
        for (int j = 0; j < 3; ++j)
        {
            size_t i = j == 0 ? 0 : j == 1 ? it.q.size() - 1 : r.below(it.q.size());
            CHECK(b[i] == it.q[i] && cb[i] == it.q[i], "index", "element %zu differs after %s", i, after);
        }
    }
    if (it.compacted && b.capacity() > b.size())
    {
        const char *p = cb.rawbuf();
        for (int i = b.size(); i < b.capacity(); ++i)
            CHECK(p[i] == 0, "spare", "spare byte %d (size %d, capacity %d) is not zero after %s; %s", i, b.size(), b.capacity(), after, ops.c_str());
        if (it.q.find('\0') == std::string::npos)
            CHECK(strlen(p) == it.q.size(), "c-string", "content is no C string after %s", after);
    }
    it.cap_floor = std::max(it.cap_floor, b.capacity());
}

// sizes that hit the interesting boundaries of the current buffer
static size_t some_len(const Item &it, Rng &r, size_t limit)
{
    size_t cap = it.b->capacity(), sz = it.q.size();
    switch (r.below(10))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return cap > sz ? cap - sz : 0;         // exactly full, if compacted
    case 3: return cap > sz ? cap - sz + 1 : 1;
    case 4: return cap + 1;
    case 5: return cap;
    case 6: return r.below(limit);
    default: return r.below(1 + (limit < 40 ? limit : 40));
    }
}

// More than a gigabyte stored at once, and more than two gigabytes through a buffer that never gets empty
static void huge(Rng &r)
{
    auto expect = [](buffer &b, size_t size, size_t first, const char *what)
    {
        CHECK(b.size() == (int)size && b.capacity() >= b.size(), "size", "%s: size %d instead of %zu, capacity %d", what, b.size(), size, b.capacity());
        for (size_t i : {(size_t)0, (size_t)1, size / 3, size - 2, size - 1}) CHECK(b[i] == (char)((first + i) % 251), "content", "%s: byte %zu of %zu differs", what, i, size);
        vh::tick();
    };
    size_t n = (1050ull << 20) + r.below(100 << 20);
    std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(i % 251);
    vh::tick();
    buffer b; b.put_string(s); expect(b, n, 0, "more than a gigabyte stored");
    size_t left = 1 + r.below(1000000); b.consume(n - left); expect(b, left, n - left, "most of it consumed");
    size_t m = n - r.below(1000) - 251 * 4;      // the bytes continue the pattern
    size_t from = n % 251; b.produce(s.data() + from, m - from); expect(b, left + m - from, n - left, "as much again behind a rest");
    b.tiny(); expect(b, left + m - from, n - left, "compacted"); vh::ev("gigabyte_buffers"); vh::distinct(n);
}

void harness_init() { if (vh::mode == "huge") vh::set_patience(200); }
void harness_fini() {}

void run_case(uint64_t k, Rng &r)
{
    if (vh::mode == "huge") { huge(r); return; }
    std::vector<Item> pool;
    ops.clear();
    bool big = k % 16 == 15;
    size_t limit = big ? 300000 : 600;
    auto fresh = [&]()
    {
        Item it;
        if (r.chance(40)) { it.b = std::make_unique<buffer>(); it.cap_floor = 1; }
        else { int c = 1 + (r.chance(50) ? r.below(8) : r.below(big ? 5000 : 200)); it.b = std::make_unique<buffer>(c); it.cap_floor = c; }
        it.compacted = true;
        verify(it, r, "construction");
        return it;
    };
    int n = 1 + r.below(4);
    for (int i = 0; i < n; ++i) pool.push_back(fresh());
    int steps = big ? 60 : 30 + r.below(220);
    uint64_t sig = n;
    std::string last;
    uint64_t kinds = 0;
    for (int s = 0; s < steps; ++s)
    {
        size_t idx = r.below(pool.size());
        Item &it = pool[idx];
        buffer &b = *it.b;
        int op = r.below(17);
        // keep the total size bounded
        if (it.q.size() > (big ? 3000000u : 6000u)) op = 4;
        std::string what;
        switch (op)
        {
        case 0: case 1: case 2:
        {
            size_t len = some_len(it, r, limit);
            std::string d = r.chance(30) ? r.text(len, std::string("\0\0\xff""ab", 5)) : r.bytes(len);
            if (op == 2) { b.put_string(d); what = vh::strf("put_string(%zu)", len); }
            else
            {
                // exact heap copy, so that reading past the given length is seen
                std::unique_ptr<char[]> p(new char[len]);
                memcpy(p.get(), d.data(), len);
                b.produce(p.get(), len); what = vh::strf("produce(%zu)", len);
            }
            it.q += d;
            break;
        }
        case 3: case 4: case 5:
        {
            size_t len = r.chance(25) ? it.q.size() : r.chance(20) ? 0 : r.below(it.q.size() + 1);
            if (r.chance(15)) { b.consume(-1); len = it.q.size(); what = "consume(-1)"; }
            else if (r.chance(10)) { b.consume(); len = it.q.size(); what = "consume()"; }
            else { b.consume(len); what = vh::strf("consume(%zu)", len); }
            it.q.erase(0, len);
            if (it.q.empty()) it.compacted = true; else if (len) it.compacted = false;
            break;
        }
        case 6: case 7:
        {
            bool all = r.chance(40), remove = r.chance(60);
            size_t len = all ? it.q.size() : r.below(it.q.size() + 1);
            std::string got = all ? (remove && r.chance(50) ? b.get_string() : b.get_string(-1, remove)) : b.get_string(len, remove);
            what = vh::strf("get_string(%zd,%d)", all ? -1 : (ssize_t)len, remove);
            CHECK(got == it.q.substr(0, len), "get_string", "get_string returned %s instead of %s; %s", vh::show(got).c_str(), vh::show(it.q.substr(0, len)).c_str(), ops.c_str());
            if (remove)
            {
                it.q.erase(0, len);
                if (it.q.empty()) it.compacted = true; else if (len) it.compacted = false;
            }
            break;
        }
        case 8:
        {
            int c = r.chance(30) ? b.capacity() + 1 : r.chance(30) ? b.capacity() : r.below(b.capacity() * 2 + 8);
            b.resize(c); what = vh::strf("resize(%d)", c);
            it.cap_floor = std::max(it.cap_floor, c);
            break;
        }
        case 9: case 10:
            b.tiny(); what = "tiny"; it.compacted = true;
            break;
        case 11:
            b.clear(); what = "clear"; it.q.clear(); it.compacted = true;
            break;
        case 12:
            if (it.q.size())
            {
                size_t i = r.below(it.q.size()); char c = r.chance(30) ? 0 : r.next();
                if (r.chance(50)) b[i] = c; else b.rawbuf()[i] = c;
                it.q[i] = c; what = vh::strf("[%zu]=", i);
            }
            break;
        case 13:    // copy construction
        {
            Item ni; ni.b = std::make_unique<buffer>(const_cast<const buffer &>(b));
            ni.q = it.q; ni.cap_floor = it.q.size(); ni.compacted = it.compacted;
            what = "copy";
            verify(ni, r, "copy construction");
            if (pool.size() < 5) pool.push_back(std::move(ni)); else pool[r.below(pool.size())] = std::move(ni);
            break;
        }
        case 14:    // copy assignment, also to itself
        {
            size_t j = r.below(pool.size());
            Item &to = pool[j];
            *to.b = const_cast<const buffer &>(b);
            if (j != idx) { to.q = it.q; to.cap_floor = it.q.size(); to.compacted = it.compacted; to.moved = it.moved; }
            what = vh::strf("%zu=copy of %zu", j, idx);
            verify(to, r, "copy assignment");
            break;
        }
        case 15:    // move construction
        {
            Item ni; ni.b = std::make_unique<buffer>(std::move(b));
            ni.q = std::move(it.q); ni.cap_floor = it.cap_floor; ni.compacted = it.compacted;
            it.q.clear(); it.cap_floor = 0; it.compacted = true; it.moved = true;
            what = "move";
            CHECK(b.size() == 0, "moved-from", "moved-from buffer has size %d", b.size());
            verify(ni, r, "move construction");
            if (pool.size() < 5) pool.push_back(std::move(ni)); else pool[r.below(pool.size())] = std::move(ni);
            break;
        }
        case 16:    // move assignment, also to itself
        {
            size_t j = r.below(pool.size());
            if (j == idx) { buffer &self = b; if (r.chance(50)) b = std::move(self); }
            else
            {
                Item &to = pool[j];
                *to.b = std::move(b);
                to.q = std::move(it.q); to.cap_floor = it.cap_floor; to.compacted = it.compacted;
                it.q.clear(); it.cap_floor = 0; it.compacted = true; it.moved = true;
                verify(to, r, "move assignment");
            }
            what = vh::strf("%zu=move of %zu", j, idx);
            break;
        }
        }
        kinds |= 1ull << op;
        if (ops.size() < 3000) ops += vh::strf("%zu:", idx) + what + " ";
        sig = vh::mix(sig, op * 8 + idx);
        // every buffer is checked: copies have to be independent
        for (auto &x : pool) verify(x, r, what.c_str());
        vh::tick();
    }
    vh::ev("operations", steps);
    if (__builtin_popcountll(kinds) >= 6 || big) vh::distinct(sig);
    if (k < 2) vh::sample(ops.substr(0, 300));
    bool mv = false; for (auto &x : pool) mv |= x.moved;
    if (mv) vh::ev("cases_reusing_moved_from");
    if (big) vh::ev("cases_large");
}
