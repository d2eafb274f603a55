// C12: SmallBuffer behaves as a byte sequence with unique ownership.
#include "helics/core/SmallBuffer.hpp"

#include "pbt.hpp"

#include <memory>
#include <new>
#include <optional>
#include <unordered_map>

using helics::SmallBuffer;
// every array allocation is counted: SmallBuffer owns its memory through new[]/delete[]
static std::atomic<long> liveArrays{0};
void* operator new[](std::size_t n)
{
    auto* p = std::malloc(n == 0 ? 1 : n);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    ++liveArrays;
    return p;
}
void operator delete[](void* p) noexcept
{
    if (p != nullptr) {
        --liveArrays;
    }
    std::free(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    operator delete[](p);
}

namespace {
struct Model {
    std::string v;
    bool locked{false};
    bool span{false};  // memory is borrowed from outside
    bool fresh{true};  // not moved from
};

std::string_view view(const SmallBuffer& b)
{
    return {reinterpret_cast<const char*>(b.data()), b.size()};
}

void agree(const SmallBuffer& b, const Model& m, const char* op)
{
    REQUIRE("size", b.size() == m.v.size(), op, " size ", b.size(), " expected ", m.v.size());
    REQUIRE("capacity", b.capacity() >= b.size(), op, " capacity ", b.capacity(), " size ", b.size());
    REQUIRE("content", view(b) == m.v, op, " content ", pbt::hex(view(b)), " expected ", pbt::hex(m.v));
    REQUIRE("empty", b.empty() == m.v.empty(), op);
    REQUIRE("to_string", b.to_string() == m.v, op);
    REQUIRE("char_data", std::string_view(b.char_data(), b.size()) == m.v, op);
    REQUIRE("iterators", std::string_view(reinterpret_cast<const char*>(b.begin()), b.end() - b.begin()) == m.v, op);
    if (m.fresh) {
        REQUIRE("locked", b.isLocked() == m.locked, op, " isLocked ", b.isLocked());
    }
}

std::string content(pbt::Src& s)
{
    static const std::vector<std::size_t> sizes{0, 1, 8, 31, 62, 63, 64, 65, 66, 71, 72, 73, 127, 128, 200, 1000, 5000};
    auto n = s.chance(1, 2) ? s.pick(sizes) : s.size(160);
    return s.blob(n);
}
}  // namespace

PROP(model, 10)
{
    const long before = liveArrays.load();
    {
        constexpr int N = 3;
        std::vector<std::unique_ptr<std::vector<char>>> external;  // borrowed memory
        std::vector<std::pair<const std::vector<char>*, std::pair<std::size_t, char>>> guards;
        std::optional<SmallBuffer> b[N];
        Model m[N];
        for (auto& x : b) {
            x.emplace();
        }
        auto steps = 1 + s.size(24);
        bool crossed = false;
        bool borrowed = false;
        std::size_t big = 0;
        for (std::size_t st = 0; st < steps; ++st) {
            int i = static_cast<int>(s.draw(N));
            int j = static_cast<int>(s.draw(N));
            auto& x = *b[i];
            auto& mx = m[i];
            const bool wasLocked = x.isLocked();
            const auto* ptr = x.data();
            const auto cap = x.capacity();
            const auto oldv = mx.v;
            std::string op;
            bool threw = false;
            bool expectThrow = false;
            auto grow = [&](std::size_t n) { expectThrow = wasLocked && n > cap; };
            if (!mx.fresh) {  // a moved-from buffer is only used through operations that set its state
                REQUIRE("moved-from-valid", x.capacity() >= x.size(), "moved-from");
                x.lock(false);
                x.clear();
                mx = Model{};
                continue;
            }
            try {
                switch (s.draw(31)) {
                    case 0: {
                        auto c = content(s);
                        op = pbt::cat(i, ".assign(ptr,", c.size(), ")");
                        grow(c.size());
                        x.assign(c.data(), c.size());
                        mx.v = c;
                        break;
                    }
                    case 1: {
                        auto c = content(s);
                        op = pbt::cat(i, ".assign(range ", c.size(), ")");
                        grow(c.size());
                        x.assign(c.data(), c.data() + c.size());
                        mx.v = c;
                        break;
                    }
                    case 2: {
                        auto c = content(s);
                        op = pbt::cat(i, ".append(ptr,", c.size(), ")");
                        grow(mx.v.size() + c.size());
                        x.append(c.data(), c.size());
                        mx.v += c;
                        break;
                    }
                    case 3: {
                        auto c = content(s);
                        op = pbt::cat(i, ".append(range ", c.size(), ")");
                        grow(mx.v.size() + c.size());
                        x.append(c.data(), c.data() + c.size());
                        mx.v += c;
                        break;
                    }
                    case 4: {
                        auto c = content(s);
                        op = pbt::cat(i, ".append(sv ", c.size(), ")");
                        grow(mx.v.size() + c.size());
                        x.append(std::string_view(c));
                        mx.v += c;
                        break;
                    }
                    case 5: {
                        op = pbt::cat(i, ".push_back");
                        grow(mx.v.size() + 1);
                        auto c = static_cast<char>(s.draw(256));
                        x.push_back(c);
                        mx.v.push_back(c);
                        break;
                    }
                    case 6:
                        op = pbt::cat(i, ".pop_back");
                        x.pop_back();
                        if (!mx.v.empty()) {
                            mx.v.pop_back();
                        }
                        break;
                    case 7: {
                        auto n = s.size(200);
                        auto val = static_cast<std::byte>(s.draw(256));
                        op = pbt::cat(i, ".resize(", n, ",val)");
                        grow(n);
                        x.resize(n, val);
                        mx.v.resize(n, static_cast<char>(val));
                        break;
                    }
                    case 8: {
                        auto n = s.size(200);
                        op = pbt::cat(i, ".resize(", n, ")");
                        grow(n);
                        auto old = mx.v.size();
                        x.resize(n);
                        for (auto k = old; k < n; ++k) {
                            x[k] = static_cast<std::byte>(k * 7);
                        }
                        mx.v.resize(n);
                        for (auto k = old; k < n; ++k) {
                            mx.v[k] = static_cast<char>(k * 7);
                        }
                        break;
                    }
                    case 9: {
                        auto n = s.size(400);
                        op = pbt::cat(i, ".reserve(", n, ")");
                        grow(n);
                        x.reserve(n);
                        REQUIRE("reserve", x.capacity() >= n, "capacity ", x.capacity(), " after reserve ", n);
                        break;
                    }
                    case 10:
                        op = pbt::cat(i, ".clear");
                        x.clear();
                        mx.v.clear();
                        break;
                    case 11: {
                        op = pbt::cat(i, "=copy ", j);
                        if (!m[j].fresh) {
                            break;
                        }
                        grow(m[j].v.size());
                        const SmallBuffer& src = *b[j];
                        x = src;
                        mx.v = m[j].v;
                        break;
                    }
                    case 12: {
                        op = pbt::cat(i, "=move ", j);
                        if (i == j || !m[j].fresh) {
                            break;
                        }
                        if (wasLocked) {
                            // a locked buffer takes a copy, or reports an error state and keeps its content
                            bool fits = m[j].v.size() <= cap;
                            x = std::move(*b[j]);
                            if (fits) {
                                mx.v = m[j].v;
                            } else {
                                REQUIRE("locked-move-error", x.errorState() != 0, op);
                            }
                            m[j].fresh = false;
                        } else {
                            bool own = m[j].span;
                            x = std::move(*b[j]);
                            mx = m[j];
                            mx.span = own;
                            m[j].fresh = false;
                        }
                        break;
                    }
                    case 13: {
                        op = pbt::cat("construct copy ", i, " from ", j);
                        if (i == j || !m[j].fresh) {
                            break;
                        }
                        const SmallBuffer& src = *b[j];
                        b[i].emplace(src);
                        mx = Model{m[j].v};
                        break;
                    }
                    case 14: {
                        op = pbt::cat("construct move ", i, " from ", j);
                        if (i == j || !m[j].fresh) {
                            break;
                        }
                        bool wl = m[j].locked;
                        b[i].emplace(std::move(*b[j]));
                        mx = Model{m[j].v};
                        mx.span = m[j].span;
                        if (wl) {
                            b[i]->lock(false);
                        }
                        m[j].fresh = false;
                        break;
                    }
                    case 15: {
                        auto c = content(s);
                        op = pbt::cat("construct ", i, " from data ", c.size());
                        switch (s.draw(5)) {
                            case 0:
                                b[i].emplace(c.data(), c.size());
                                break;
                            case 1:
                                b[i].emplace(c);
                                break;
                            case 2:
                                b[i].emplace(std::string_view(c));
                                break;
                            case 3: {
                                auto val = static_cast<unsigned char>(s.draw(256));
                                b[i].emplace(c.size(), val);
                                c.assign(c.size(), static_cast<char>(val));
                                break;
                            }
                            default: {
                                b[i].emplace(c.size(), std::byte{7});
                                c.assign(c.size(), '\7');
                                break;
                            }
                        }
                        mx = Model{c};
                        break;
                    }
                    case 16: {
                        op = pbt::cat("swap ", i, ",", j);
                        if (m[i].locked || m[j].locked || !m[j].fresh) {
                            break;
                        }
                        x.swap(*b[j]);
                        std::swap(m[i], m[j]);
                        agree(*b[j], m[j], op.c_str());
                        break;
                    }
                    case 17: {
                        auto c = content(s);
                        op = pbt::cat(i, "=string ", c.size());
                        grow(c.size());
                        if (s.boolean()) {
                            x = c;
                        } else {
                            x = std::string_view(c);
                        }
                        mx.v = c;
                        break;
                    }
                    case 18: {  // own prefix assigned through a view
                        op = pbt::cat(i, "=own prefix");
                        auto n = mx.v.empty() ? 0 : s.draw(mx.v.size() + 1);
                        x = x.to_string().substr(0, n);
                        mx.v.resize(n);
                        break;
                    }
                    case 19: {  // hand over heap memory
                        auto c = content(s);
                        auto room = c.size() + 1 + s.draw(20);
                        op = pbt::cat(i, ".moveAssign(", c.size(), ",", room, ")");
                        auto* mem = new std::byte[room];
                        std::memcpy(mem, c.data(), c.size());
                        x.moveAssign(mem, c.size(), room);
                        mx = Model{c};
                        break;
                    }
                    case 20: {  // borrow memory
                        auto c = content(s);
                        auto room = c.size() + s.draw(20);
                        op = pbt::cat(i, ".spanAssign(", c.size(), ",", room, ")");
                        external.push_back(std::make_unique<std::vector<char>>(c.begin(), c.end()));
                        auto& e = *external.back();
                        e.resize(room + 8, '\x5A');
                        guards.push_back({&e, {room, '\x5A'}});
                        x.spanAssign(e.data(), c.size(), room);
                        mx = Model{c};
                        mx.span = true;
                        borrowed = true;
                        if (s.boolean()) {
                            x.lock();
                            mx.locked = true;
                        }
                        break;
                    }
                    case 21: {
                        op = pbt::cat(i, ".release");
                        auto* r = x.release();
                        if (r == nullptr) {
                            REQUIRE("release-null", view(x) == oldv, op);
                        } else {
                            REQUIRE("release-data", std::string_view(reinterpret_cast<char*>(r), oldv.size()) == oldv, op);
                            bool lent = false;
                            for (auto& e : external) {
                                lent = lent || reinterpret_cast<char*>(r) == e->data();
                            }
                            if (!lent) {
                                delete[] r;
                            }
                            mx = Model{};
                        }
                        break;
                    }
                    case 22:
                        op = pbt::cat(i, ".lock");
                        x.lock(s.boolean());
                        mx.locked = x.isLocked();
                        break;
                    case 23: {
                        op = pbt::cat(i, ".null_terminate");
                        expectThrow = wasLocked && mx.v.size() >= cap;
                        x.null_terminate();
                        REQUIRE("null_terminate", static_cast<int>(x.data()[mx.v.size()]) == 0, op);
                        break;
                    }
                    case 24: {
                        op = pbt::cat(i, ".at");
                        auto n = s.draw(mx.v.size() + 3);
                        bool bad = false;
                        try {
                            auto val = static_cast<const SmallBuffer&>(x).at(n);
                            REQUIRE("at", n < mx.v.size() && val == static_cast<std::byte>(mx.v[n]), op, " index ", n);
                            x.at(n) = std::byte{0x42};
                            mx.v[n] = '\x42';
                        }
                        catch (const std::out_of_range&) {
                            bad = true;
                        }
                        REQUIRE("at-range", bad == (n >= mx.v.size()), op, " index ", n, " size ", mx.v.size());
                        break;
                    }
                    case 25: {
                        op = pbt::cat(i, " reversed range");
                        bool bad = false;
                        char buf[4] = {};
                        try {
                            if (s.boolean()) {
                                x.assign(buf + 2, static_cast<const void*>(buf));
                            } else {
                                x.append(buf + 2, static_cast<const void*>(buf));
                            }
                        }
                        catch (const std::invalid_argument&) {
                            bad = true;
                        }
                        REQUIRE("reversed-range", bad, op);
                        break;
                    }
                    case 26: {
                        op = pbt::cat(i, " impossible size");
                        expectThrow = true;
                        auto n = (std::size_t{1} << 40U) + 1 + (s.bits() >> 2U);
                        if (s.boolean()) {
                            x.reserve(n);
                        } else {
                            x.resize(n);
                        }
                        break;
                    }
                    case 27: {
                        op = pbt::cat(i, "==", j);
                        if (!m[j].fresh) {
                            break;
                        }
                        REQUIRE("equality", (x == *b[j]) == (mx.v == m[j].v), op);
                        REQUIRE("inequality", (x != *b[j]) == (mx.v != m[j].v), op);
                        break;
                    }
                    case 28: {
                        op = pbt::cat(i, " index/iterator write");
                        if (!mx.v.empty()) {
                            auto n = s.draw(mx.v.size());
                            x[n] = std::byte{0x11};
                            mx.v[n] = '\x11';
                            n = s.draw(mx.v.size());
                            *(x.begin() + n) = std::byte{0x12};
                            mx.v[n] = '\x12';
                            REQUIRE("end", x.end() - x.begin() == static_cast<long>(mx.v.size()), op);
                        }
                        break;
                    }
                    case 29: {  // spanAssign/moveAssign of the memory already held
                        op = pbt::cat(i, " reassign own memory");
                        if (mx.v.size() <= 64 || mx.span) {
                            break;
                        }
                        auto n = s.draw(mx.v.size() + 1);
                        if (s.boolean()) {
                            x.spanAssign(x.data(), n, cap);
                        } else {
                            x.moveAssign(x.data(), n, cap);
                            mx.locked = false;
                        }
                        mx.v.resize(n);
                        mx.locked = x.isLocked();
                        break;
                    }
                    default: {
                        op = pbt::cat("userKey ", i);
                        x.userKey = static_cast<std::uint32_t>(s.draw(1000));
                        break;
                    }
                }
            }
            catch (const std::bad_alloc&) {
                threw = true;
            }
            s.note(op);
            REQUIRE("lock-throws", threw == expectThrow, op, " bad_alloc ", threw, " expected ", expectThrow, " capacity ", cap);
            if (threw) {
                REQUIRE("unchanged-after-throw", view(*b[i]) == oldv, op);
            }
            if (wasLocked && b[i]->isLocked() && !op.starts_with("construct") && op.find("Assign") == std::string::npos) {
                REQUIRE("locked-stays", b[i]->data() == ptr && b[i]->capacity() == cap, op, " moved the memory of a locked buffer");
            }
            for (int k = 0; k < N; ++k) {
                if (m[k].fresh) {
                    agree(*b[k], m[k], op.c_str());
                    // the span flag follows a reallocation
                    if (m[k].span) {
                        bool inside = false;
                        for (auto& e : external) {
                            inside = inside || reinterpret_cast<char*>(b[k]->data()) == e->data();
                        }
                        m[k].span = inside;
                    }
                }
                big = std::max(big, m[k].v.size());
            }
            for (auto& g : guards) {
                for (std::size_t q = g.second.first; q < g.first->size(); ++q) {
                    REQUIRE("borrowed-overrun", (*g.first)[q] == g.second.second, op, " wrote behind borrowed memory");
                }
            }
            crossed = crossed || big > 64;
        }
        if (crossed && steps > 2) {
            s.nontrivial();
            s.tag("heap");
        }
        if (borrowed) {
            s.tag("borrowed");
        }
    }
    REQUIRE("balance", liveArrays.load() == before, "array allocations not released: ", liveArrays.load() - before);
}

PBT_MAIN("Histories of up to 24 operations over three buffers (assign, append, resize, reserve, copy, move, swap, release, lock, "
         "borrowed and handed-over memory), every observer compared with a byte-string model after each step, allocation balance at "
         "the end, under ASAN/UBSAN. Non-trivial: more than two operations and content beyond the 64-byte inline capacity.",
         20.0)
