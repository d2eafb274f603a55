// C11: the wire protocol: every command survives every encoding, streams split exactly, hostile bytes do no harm.
#include "helics/core/ActionMessage.hpp"
#include "helics/core/flagOperations.hpp"

#include "pbt.hpp"
#include "wirecodes.hpp"

#include <memory>

using namespace helics;
namespace {
struct M {  // plain model of a command
    std::int32_t action, id, src, srcH, dst, dstH;
    std::uint16_t counter, flags;
    std::uint32_t seq;
    std::int64_t t, te, tdemin, tso;
    std::string payload;
    std::vector<std::string> strs;
};
constexpr std::int32_t timeReq = 500;

M gen(pbt::Src& s, std::size_t maxStr = 24, bool json = false)
{
    M m;
    m.action = s.chance(1, 4) ? timeReq : s.boolean() ? wireCodes[s.draw(std::size(wireCodes))].value : s.int32();
    m.id = s.int32();
    m.src = s.int32();
    m.srcH = s.int32();
    m.dst = s.int32();
    m.dstH = s.int32();
    m.counter = static_cast<std::uint16_t>(s.int64());
    m.flags = static_cast<std::uint16_t>(s.int64());
    if (!json) {
        m.flags &= static_cast<std::uint16_t>(~(1U << 6U));
    } else {
        m.flags |= static_cast<std::uint16_t>(1U << 6U);
    }
    m.seq = static_cast<std::uint32_t>(s.int64());
    m.t = s.int64();
    m.te = s.int64();
    m.tdemin = s.int64();
    m.tso = s.int64();
    m.payload = s.chance(1, 12) ? s.blob(s.draw(70000)) : s.bytes(120);
    auto n = s.weighted({4, 4, 4, 1});
    auto cnt = n == 0 ? 0 : n == 1 ? s.draw(5) : n == 2 ? s.draw(10) : s.draw(256);
    for (std::size_t i = 0; i < cnt; ++i) {
        m.strs.push_back(cnt > 20 ? std::string(s.draw(6), 'q') : s.bytes(maxStr));
    }
    if (!m.strs.empty() || m.action == timeReq) {
        s.nontrivial();
    }
    return m;
}
void fill(ActionMessage& a, const M& m)
{
    a.setAction(static_cast<action_message_def::action_t>(m.action));
    a.messageID = m.id;
    a.source_id = GlobalFederateId(m.src);
    a.source_handle = InterfaceHandle(m.srcH);
    a.dest_id = GlobalFederateId(m.dst);
    a.dest_handle = InterfaceHandle(m.dstH);
    a.counter = m.counter;
    a.flags = m.flags;
    a.sequenceID = m.seq;
    a.actionTime.setBaseTimeCode(m.t);
    a.Te.setBaseTimeCode(m.te);
    a.Tdemin.setBaseTimeCode(m.tdemin);
    a.Tso.setBaseTimeCode(m.tso);
    a.payload = m.payload;
    a.clearStringData();
    for (std::size_t i = m.strs.size(); i > 0; --i) {
        a.setString(static_cast<int>(i - 1), m.strs[i - 1]);
    }
}
ActionMessage make(const M& m)
{
    ActionMessage a;
    fill(a, m);
    return a;
}
/// what a peer must see: a time request carries no payload and no strings on the wire
void same(const char* what, const ActionMessage& a, const M& m, bool wire, bool json = false)
{
    REQUIRE("field", static_cast<std::int32_t>(a.action()) == m.action, what, ": action ", static_cast<int>(a.action()), " not ", m.action);
    REQUIRE("field", a.messageID == m.id, what, ": messageID ", a.messageID, " not ", m.id);
    REQUIRE("field", a.source_id.baseValue() == m.src, what, ": source ", a.source_id.baseValue(), " not ", m.src);
    REQUIRE("field", a.source_handle.baseValue() == m.srcH, what, ": source handle ", a.source_handle.baseValue(), " not ", m.srcH);
    REQUIRE("field", a.dest_id.baseValue() == m.dst, what, ": dest ", a.dest_id.baseValue(), " not ", m.dst);
    REQUIRE("field", a.dest_handle.baseValue() == m.dstH, what, ": dest handle ", a.dest_handle.baseValue(), " not ", m.dstH);
    REQUIRE("field", a.counter == m.counter, what, ": counter ", a.counter, " not ", m.counter);
    REQUIRE("field", a.flags == m.flags, what, ": flags ", a.flags, " not ", m.flags);
    REQUIRE("field", a.sequenceID == m.seq, what, ": sequenceID ", a.sequenceID, " not ", m.seq);
    REQUIRE("field", a.actionTime.getBaseTimeCode() == m.t, what, ": time ", a.actionTime.getBaseTimeCode(), " not ", m.t);
    if (!wire || m.action == timeReq) {
        REQUIRE("field", a.Te.getBaseTimeCode() == m.te, what, ": Te ", a.Te.getBaseTimeCode(), " not ", m.te);
        REQUIRE("field", a.Tdemin.getBaseTimeCode() == m.tdemin, what, ": Tdemin");
        REQUIRE("field", a.Tso.getBaseTimeCode() == m.tso, what, ": Tso");
    } else if (!json) {
        REQUIRE("field", a.Te == timeZero && a.Tdemin == timeZero && a.Tso == timeZero, what, ": extra times not zero");
    }
    if (wire && !json && m.action == timeReq) {
        REQUIRE("field", a.payload.empty(), what, ": payload of a time request");
        REQUIRE("field", a.getStringData().empty(), what, ": strings of a time request");
        return;
    }
    REQUIRE("payload", a.payload.to_string() == m.payload, what, ": payload ", pbt::hex(a.payload.to_string()), " not ", pbt::hex(m.payload));
    REQUIRE("strings", a.getStringData() == m.strs, what, ": ", a.getStringData().size(), " strings not ", m.strs.size());
}
template<class T>
void le(std::string& o, T v)
{
    o.append(reinterpret_cast<const char*>(&v), sizeof(T));
}
template<class T>
T rev(T v)
{
    auto* p = reinterpret_cast<char*>(&v);
    std::reverse(p, p + sizeof(T));
    return v;
}
/// independent encoder of the documented layout; big: as a machine of the other byte order writes it
std::string encode(const M& m, bool big)
{
    std::string o;
    auto put = [&](auto v) { le(o, big ? rev(v) : v); };
    bool tr = m.action == timeReq;
    std::size_t n = tr ? 0 : m.payload.size();
    o.push_back(big ? 0 : 1);
    o.push_back(static_cast<char>(n >> 16U));
    o.push_back(static_cast<char>(n >> 8U));
    o.push_back(static_cast<char>(n));
    put(m.action);
    put(m.id);
    put(m.src);
    put(m.srcH);
    put(m.dst);
    put(m.dstH);
    put(m.counter);
    put(m.flags);
    put(m.seq);
    put(m.t);
    if (tr) {
        put(m.te);
        put(m.tdemin);
        put(m.tso);
        o.push_back(0);
        return o;
    }
    o += m.payload;
    o.push_back(static_cast<char>(m.strs.size()));
    for (auto& x : m.strs) {
        put(static_cast<std::uint32_t>(x.size()));
        o += x;
    }
    return o;
}
ActionMessage used(pbt::Src& s)
{
    return make(gen(s));
}
std::string note(const M& m)
{
    return pbt::cat("action ", m.action, " flags ", m.flags, " payload ", m.payload.size(), " strings ", m.strs.size());
}
}  // namespace

PROP(binary, 6)
{
    auto m = gen(s);
    s.note(note(m));
    auto a = make(m);
    same("built", a, m, false);
    auto str = a.to_string();
    REQUIRE("layout", str == encode(m, false), "to_string is ", pbt::hex(str), " not ", pbt::hex(encode(m, false)));
    REQUIRE("size", static_cast<std::size_t>(a.serializedByteCount()) == str.size(), a.serializedByteCount(), " not ", str.size());
    auto vec = a.to_vector();
    REQUIRE("forms", std::string(vec.begin(), vec.end()) == str, "to_vector differs from to_string");
    std::vector<char> vec2(s.draw(300), 'x');
    a.to_vector(vec2);
    REQUIRE("forms", std::string(vec2.begin(), vec2.end()) == str, "to_vector into a vector differs from to_string");
    std::string str2(s.draw(300), 'x');
    a.to_string(str2);
    REQUIRE("forms", str2 == str, "to_string into a string differs");
    {
        // exactly enough room, more, or too little
        int d = s.range(-60, 30);
        auto n = static_cast<std::size_t>(std::max<int>(0, static_cast<int>(str.size()) + (s.boolean() ? 0 : d)));
        std::unique_ptr<std::byte[]> b(new std::byte[n == 0 ? 1 : n]);
        auto r = a.toByteArray(b.get(), n);
        if (n >= str.size()) {
            REQUIRE("array", r == static_cast<int>(str.size()), "toByteArray returns ", r, " for ", str.size(), " bytes");
            REQUIRE("array", std::memcmp(b.get(), str.data(), str.size()) == 0, "toByteArray differs");
        } else {
            REQUIRE("array", r == -1, "toByteArray returns ", r, " for a buffer of ", n, " not ", str.size());
        }
        REQUIRE("array", a.toByteArray(nullptr, 100) == -1, "toByteArray with no buffer");
    }
    // read back: fresh, into a used command, with bytes following
    std::string tail = s.bytes(20);
    bool fresh = s.boolean();
    ActionMessage b;
    if (!fresh) {
        b = used(s);
    }
    auto data = str + tail;
    std::unique_ptr<char[]> exact(new char[data.size()]);
    std::memcpy(exact.get(), data.data(), data.size());
    std::size_t r = s.boolean() ? b.from_string(std::string_view(exact.get(), data.size())) :
                                  b.fromByteArray(reinterpret_cast<std::byte*>(exact.get()), data.size());
    REQUIRE("consumed", r == str.size(), "read ", r, " of ", str.size());
    same(fresh ? "read" : "read into a used command", b, m, true);
    ActionMessage c(str);
    same("constructed from bytes", c, m, true);
    ActionMessage d(vec);
    same("constructed from a vector", d, m, true);
    ActionMessage e(str.data(), str.size());
    same("constructed from memory", e, m, true);
}
PROP(prefix, 3)
{
    auto m = gen(s);
    auto str = make(m).to_string();
    auto n = s.boolean() ? s.draw(str.size()) : str.size() - 1 - s.draw(std::min<std::size_t>(str.size(), 8));
    s.note(note(m), " cut to ", n, " of ", str.size());
    std::unique_ptr<char[]> exact(new char[n == 0 ? 1 : n]);
    std::memcpy(exact.get(), str.data(), n);
    ActionMessage b;
    auto r = b.from_string(std::string_view(exact.get(), n));
    REQUIRE("prefix", r == 0, "a cut command of ", n, " of ", str.size(), " bytes was read as ", r);
    REQUIRE("invalid", !isValidCommand(b), "a cut command is considered valid");
}
PROP(otherEndian, 3)
{
    auto m = gen(s);
    s.note(note(m));
    auto str = encode(m, true);
    ActionMessage b = s.boolean() ? ActionMessage() : used(s);
    auto r = b.from_string(str);
    REQUIRE("consumed", r == str.size(), "read ", r, " of ", str.size());
    same("read from the other byte order", b, m, true);
}
PROP(packets, 4)
{
    // a byte stream of several packets, delivered in pieces of any size
    int n = s.range(1, 6);
    std::vector<M> ms;
    std::vector<bool> json;
    std::string stream;
    std::vector<std::size_t> lens;
    for (int i = 0; i < n; ++i) {
        ms.push_back(gen(s));
        auto a = make(ms.back());
        json.push_back(s.chance(1, 3));
        std::string p;
        if (json.back()) {
            p = a.packetize_json();
        } else if (s.boolean()) {
            p = a.packetize();
        } else {
            p = std::string(s.draw(100), 'z');
            a.packetize(p);
        }
        lens.push_back(p.size());
        stream += p;
    }
    s.note(n, " packets in ", stream.size(), " bytes");
    if (n > 1) {
        s.nontrivial();
    }
    std::size_t have = 0, used_ = 0;
    int got = 0;
    while (got < n) {
        auto left = stream.size() - have;
        REQUIRE("stream", left > 0, "only ", got, " of ", n, " packets in the whole stream");
        have += s.boolean() ? left : 1 + s.draw(std::min<std::size_t>(left, 200));
        while (used_ < have) {
            std::unique_ptr<char[]> exact(new char[have - used_]);
            std::memcpy(exact.get(), stream.data() + used_, have - used_);
            ActionMessage b = s.chance(1, 3) ? used(s) : ActionMessage();
            auto r = b.depacketize(exact.get(), have - used_);
            if (r == 0) {
                REQUIRE("complete", have - used_ < lens[got], "a complete packet of ", lens[got], " was not read from ", have - used_);
                break;
            }
            REQUIRE("consumed", got < n && r == lens[got], "packet ", got, " of ", lens[got], " bytes consumed ", r);
            same("from a packet", b, ms[got], true, json[got]);
            used_ += r;
            ++got;
        }
    }
    REQUIRE("stream", used_ == stream.size(), "bytes left over");
}
PROP(json, 3)
{
    auto m = gen(s, 24, true);
    s.note(note(m));
    auto a = make(m);
    auto str = s.boolean() ? a.to_json_string() : a.to_string();
    REQUIRE("json", !str.empty() && str[0] == '{', "not a JSON object: ", pbt::hex(str));
    ActionMessage b = s.boolean() ? ActionMessage() : used(s);
    int how = static_cast<int>(s.draw(3));
    if (how == 0) {
        REQUIRE("json", b.from_json_string(str), "not read back");
    } else if (how == 1) {
        REQUIRE("consumed", b.from_string(str) == str.size(), "from_string of JSON");
    } else {
        REQUIRE("consumed", b.from_vector(std::vector<char>(str.begin(), str.end())) == str.size(), "from_vector of JSON");
    }
    same("from JSON", b, m, true, true);
}
PROP(multi, 2)
{
    // several commands carried in one
    ActionMessage multi(CMD_MULTI_MESSAGE);
    int n = s.boolean() ? s.range(1, 6) : s.range(250, 258);
    s.note(n, " in one");
    std::vector<M> ms;
    for (int i = 0; i < n; ++i) {
        M m = n > 20 ? M{i, i, 1, 2, 3, 4, 5, 0, 7, 8, 0, 0, 0, "x", {}} : gen(s);
        auto r = appendMessage(multi, make(m));
        if (i < 255) {
            REQUIRE("append", r == i + 1, "append ", i, " gives ", r);
            ms.push_back(m);
        } else {
            REQUIRE("append", r < 0, "append ", i, " gives ", r);
        }
    }
    s.nontrivial();
    auto str = multi.to_string();
    ActionMessage back(str);
    REQUIRE("count", back.counter == ms.size(), back.counter, " not ", ms.size());
    for (std::size_t i = 0; i < ms.size(); ++i) {
        ActionMessage sub;
        auto r = sub.from_string(back.getString(static_cast<int>(i)));
        REQUIRE("sub", r > 0, "sub-command ", i, " not readable");
        same("sub-command", sub, ms[i], true);
    }
    ActionMessage other(CMD_IGNORE);
    REQUIRE("append", appendMessage(other, multi) < 0, "appended to a command that holds no others");
}
PROP(copies, 2)
{
    auto m = gen(s), m2 = gen(s);
    auto a = make(m);
    ActionMessage b(a);
    same("copy", b, m, false);
    ActionMessage c = make(m2);
    c = a;
    same("copy assigned", c, m, false);
    same("source of copies", a, m, false);
    ActionMessage d(std::move(a));
    same("moved", d, m, false);
    ActionMessage e = make(m2);
    e = std::move(d);
    same("move assigned", e, m, false);
    e.swapSourceDest();
    REQUIRE("swap", e.source_id.baseValue() == m.dst && e.dest_id.baseValue() == m.src && e.source_handle.baseValue() == m.dstH &&
                e.dest_handle.baseValue() == m.srcH, "swapped");
    auto x = s.int32(), y = s.int32();
    e.setExtraData(x);
    e.setExtraDestData(y);
    REQUIRE("extra", e.getExtraData() == x && e.getExtraDestData() == y && e.dest_handle.baseValue() == x && e.source_handle.baseValue() == y, x, " ", y);
    GlobalHandle h(GlobalFederateId(s.int32()), InterfaceHandle(s.int32())), g(GlobalFederateId(s.int32()), InterfaceHandle(s.int32()));
    e.setSource(h);
    e.setDestination(g);
    REQUIRE("handles", e.getSource() == h && e.getDest() == g, "source and destination handles");
    int idx = s.range(-3, 300);
    std::string v = s.bytes(20);
    std::vector<std::string> want = m.strs;
    bool threw = false;
    try {
        e.setString(idx, v);
    }
    catch (const std::invalid_argument&) {
        threw = true;
    }
    REQUIRE("index", threw == (idx < 0 || idx >= 255), "setString(", idx, ") threw ", threw);
    if (!threw) {
        if (want.size() <= static_cast<std::size_t>(idx)) {
            want.resize(idx + 1);
        }
        want[idx] = v;
    }
    REQUIRE("strings", e.getStringData() == want, "after setString(", idx, ")");
    int q = s.range(-3, 300);
    REQUIRE("getString", e.getString(q) == (q >= 0 && q < static_cast<int>(want.size()) ? want[q] : std::string()), "getString(", q, ")");
    auto k = s.range(1, 4);
    std::vector<std::string> w;
    for (int i = 0; i < k; ++i) {
        w.push_back(s.bytes(10));
    }
    k == 1 ? e.setStringData(w[0]) : k == 2 ? e.setStringData(w[0], w[1]) : k == 3 ? e.setStringData(w[0], w[1], w[2]) : e.setStringData(w[0], w[1], w[2], w[3]);
    REQUIRE("strings", e.getStringData() == w, "setStringData of ", k);
    e.name(v);
    REQUIRE("name", e.name() == v, "name");
}
PROP(messages, 2)
{
    // user messages become commands and commands become user messages without loss
    auto msg = std::make_unique<Message>();
    auto t = s.int64();
    msg->time.setBaseTimeCode(t);
    msg->flags = static_cast<std::uint16_t>(s.int64());
    msg->messageID = s.int32();
    std::string data = s.bytes(200), dest = s.bytes(12), src = s.bytes(12), os = s.bytes(12), od = s.bytes(12);
    auto flags = msg->flags;
    auto id = msg->messageID;
    msg->data = data;
    msg->dest = dest;
    msg->source = src;
    msg->original_source = os;
    msg->original_dest = od;
    s.note("message of ", data.size());
    s.nontrivial();
    ActionMessage a = s.boolean() ? ActionMessage(std::move(msg)) : [&] {
        ActionMessage x = used(s);
        x = std::move(msg);
        return x;
    }();
    REQUIRE("command", a.action() == CMD_SEND_MESSAGE, "action ", static_cast<int>(a.action()));
    if (s.boolean() && (flags & 64U) == 0) {
        ActionMessage b(a.to_string());
        a = b;
    }
    std::unique_ptr<Message> r;
    if (s.boolean()) {
        r = createMessageFromCommand(a);
        auto r2 = createMessageFromCommand(a);
        REQUIRE("again", r2->data == r->data && r2->dest == r->dest, "a second message from one command differs");
    } else {
        r = createMessageFromCommand(std::move(a));
    }
    REQUIRE("message", r->time.getBaseTimeCode() == t && r->flags == flags && r->messageID == id, "time, flags or identifier");
    REQUIRE("message", r->data.to_string() == data, "data ", pbt::hex(r->data.to_string()), " not ", pbt::hex(data));
    REQUIRE("message", r->dest == dest && r->source == src && r->original_source == os && r->original_dest == od, "endpoint names");
    // fewer strings
    ActionMessage c(CMD_SEND_MESSAGE);
    auto k = s.draw(4);
    std::vector<std::string> w;
    for (std::size_t i = 0; i < k; ++i) {
        w.push_back(s.bytes(6));
        c.setString(static_cast<int>(i), w[i]);
    }
    w.resize(4);
    auto r3 = s.boolean() ? createMessageFromCommand(c) : createMessageFromCommand(std::move(c));
    REQUIRE("message", r3->dest == w[0] && r3->source == w[1] && r3->original_source == w[2] && r3->original_dest == w[3], "names of a command with ", k, " strings");
    Message x, y;
    x.data = data;
    x.dest = dest;
    x.time.setBaseTimeCode(t);
    y.data = os;
    y.source = src;
    y.flags = flags;
    x.swap(y);
    REQUIRE("swap", x.data.to_string() == os && x.source == src && x.flags == flags && x.dest.empty() && y.data.to_string() == data && y.dest == dest &&
                y.time.getBaseTimeCode() == t && y.flags == 0, "swapped messages");
    REQUIRE("valid", y.isValid() == !(data.empty() && dest.empty()), "isValid");
    y.clear();
    REQUIRE("clear", !y.isValid() && y.time == timeZero, "cleared");
}
PROP(flagBits, 2)
{
    ActionMessage a;
    std::uint16_t model = static_cast<std::uint16_t>(s.int64());
    a.flags = model;
    int n = s.range(1, 20);
    for (int i = 0; i < n; ++i) {
        auto f = static_cast<std::uint16_t>(s.draw(16));
        auto bit = static_cast<std::uint16_t>(1U << f);
        switch (s.draw(4)) {
            case 0:
                setActionFlag(a, f);
                model |= bit;
                break;
            case 1:
                clearActionFlag(a, f);
                model &= static_cast<std::uint16_t>(~bit);
                break;
            case 2:
                toggleActionFlag(a, f);
                model ^= bit;
                break;
            default:
                a.flags = toggle_flag(a.flags, f);
                model ^= bit;
                break;
        }
        REQUIRE("flags", a.flags == model, "flags ", a.flags, " not ", model, " after flag ", f);
        for (std::uint16_t g = 0; g < 16; ++g) {
            bool on = ((model >> g) & 1U) != 0;
            REQUIRE("check", checkActionFlag(a, g) == on && checkActionFlag(a.flags, g) == on, "flag ", g);
        }
    }
    s.nontrivial();
    auto f1 = s.draw(16), f2 = s.draw(16), f3 = s.draw(16);
    REQUIRE("make", make_flags(f1) == (1U << f1) && make_flags(f1, f2) == ((1U << f1) | (1U << f2)) &&
                make_flags(f1, f2, f3) == ((1U << f1) | (1U << f2) | (1U << f3)), f1, " ", f2, " ", f3);
    ActionMessage it;
    it.flags = model;
    auto k = s.draw(4);
    setIterationFlags(it, k == 0 ? IterationRequest::NO_ITERATIONS : k == 1 ? IterationRequest::FORCE_ITERATION : k == 2 ? IterationRequest::ITERATE_IF_NEEDED : IterationRequest::ERROR_CONDITION);
    std::uint16_t want = model | (k == 1 ? 5U : k == 2 ? 1U : k == 3 ? 16U : 0U);
    REQUIRE("iterate", it.flags == want, "iteration flags ", it.flags, " not ", want);
}
PROP(classes, 2)
{
    // wire codes are fixed numbers, priority commands are exactly the negative ones, and each class holds what it says
    auto& w = wireCodes[s.draw(std::size(wireCodes))];
    auto v = s.chance(1, 4) ? s.int32() : w.value;
    std::string id = v == w.value ? w.id : "";
    s.note("command ", v, " ", id);
    REQUIRE("code", static_cast<std::int32_t>(w.code) == w.value, w.id, " has code ", static_cast<std::int32_t>(w.code), " not ", w.value);
    ActionMessage a(static_cast<action_message_def::action_t>(v));
    a.messageID = s.range(-10, 20);
    a.actionTime.setBaseTimeCode(s.boolean() ? s.int64() : Time::maxVal().getBaseTimeCode());
    REQUIRE("priority", isPriorityCommand(a) == (v < 0), v);
    REQUIRE("protocol", isProtocolCommand(a) == (v == 60000 || v == -60000 || v == 0x10000000 + 60000), v);
    REQUIRE("valid", isValidCommand(a) == (v != 1010101), v);
    static const std::set<int> error{10000, 10003, 10005}, dep{140, 141, 144, 145, 148, 149},
        timing{3, 7, 8, 9, 6, 35, 500, 22, 20, -3, 31, 10000, 10003, 10005, 310},
        disc{3, 5, 4, 2, 6, 8, -3, 31, 135, 137, 1006, 1008, 1009, 9, 7, 30}, ign{55, 9990, 2055, 500, 38};
    REQUIRE("error", isErrorCommand(a) == (error.count(v) != 0), v);
    REQUIRE("dependency", isDependencyCommand(a) == (dep.count(v) != 0), v);
    REQUIRE("timing", isTimingCommand(a) == (timing.count(v) != 0), v);
    bool d = disc.count(v) != 0 || (v == 35 && a.actionTime == Time::maxVal());
    REQUIRE("disconnect", isDisconnectCommand(a) == d, v, " at ", a.actionTime.getBaseTimeCode());
    REQUIRE("ignorable", isIgnoreableCommand(a) == (d || error.count(v) != 0 || ign.count(v) != 0), v);
    std::string t = actionMessageType(a.action());
    bool known = false;
    for (auto& x : wireCodes) {
        if (x.value == v && x.text[0] != 0) {
            known = true;
            REQUIRE("text", t == x.text, v, " is named ", t, " not ", x.text);
        }
    }
    if (!known) {
        REQUIRE("text", t == "unknown", v, " is named ", t);
    } else {
        s.nontrivial();
    }
    a.setString(0, s.boolean() ? "" : "why");
    if (s.boolean()) {
        setActionFlag(a, error_flag);
    }
    auto e = errorMessageString(a);
    if (!checkActionFlag(a, error_flag)) {
        REQUIRE("errstr", e.empty(), e);
    } else if (!a.getString(0).empty()) {
        REQUIRE("errstr", e == "why", e);
    } else {
        static const std::map<int, std::string> es{{-2, "connection error result"}, {-5, "lost connection with server"}, {5, "already in initialization mode"},
            {6, "duplicate federate name detected"}, {7, "duplicate broker name detected"}, {11, "the maximum number of federates has been reached"},
            {13, "the maximum number of brokers or cores has been reached"}, {9, "Broker key does not match"}};
        auto it = es.find(a.messageID);
        REQUIRE("errstr", e == (it == es.end() ? "unknown" : it->second), a.messageID, ": ", e);
    }
    auto p = prettyPrintString(a);
    REQUIRE("pretty", p.compare(0, t.size(), t) == 0, p, " does not begin with ", t);
    std::ostringstream o;
    o << a;
    REQUIRE("pretty", o.str() == p, o.str());
}
PROP(hostile, 5)
{
    // bytes a correct peer never sends: consumed bytes stay within the buffer, nothing else is touched
    std::string data;
    auto how = s.draw(5);
    if (how == 0) {
        data = s.bytes(200);
    } else {
        auto m = gen(s);
        auto a = make(m);
        data = how == 1 ? a.packetize() : how == 2 ? a.packetize_json() : how == 3 ? a.to_json_string() : encode(m, s.boolean());
        int n = s.range(1, 8);
        for (int i = 0; i < n && !data.empty(); ++i) {
            auto p = s.boolean() ? s.draw(std::min<std::size_t>(data.size(), 80)) : s.draw(data.size());
            switch (s.draw(5)) {
                case 0:
                    data[p] = static_cast<char>(s.draw(256));
                    break;
                case 1:
                    data.erase(p, 1 + s.draw(8));
                    break;
                case 2:
                    data.insert(p, s.bytes(8));
                    break;
                case 3:
                    data[p] = static_cast<char>(s.pick({0xF3, 0xFA, 0xFC, 0xFF, 0, 1, 0x7B}));
                    break;
                default:
                    data.resize(p);
                    break;
            }
        }
        // a huge string count in JSON only costs memory
        if (data.find("stringCount") != std::string::npos) {
            auto c = data.find_first_of("0123456789", data.find("stringCount"));
            std::size_t digits = 0;
            while (c != std::string::npos && c + digits < data.size() && std::isdigit(static_cast<unsigned char>(data[c + digits])) != 0) {
                ++digits;
            }
            if (digits > 4 || (c != std::string::npos && c + digits < data.size() && (data[c + digits] == 'e' || data[c + digits] == 'E' || data[c + digits] == '.'))) {
                throw pbt::Discard{};
            }
        }
    }
    if (s.chance(1, 10)) {
        // packets in packets
        int depth = s.boolean() ? s.range(1, 8) : s.range(1, 60000);
        std::string inner = data.substr(0, 100);
        std::string pre, post;
        std::size_t total = inner.size() + 6ULL * static_cast<std::size_t>(depth);
        for (int i = 0; i < depth; ++i) {
            auto sz = total - 6ULL * static_cast<std::size_t>(i) - 2;
            pre += '\xF3';
            pre += static_cast<char>(sz >> 16U);
            pre += static_cast<char>(sz >> 8U);
            pre += static_cast<char>(sz);
            post += "\xFA\xFC";
        }
        data = pre + inner + post;
        s.note("nested ", depth);
        s.tag("nested");
    }
    s.note(data.size(), " bytes ", pbt::hex(data, 60));
    s.nontrivial();
    std::unique_ptr<char[]> exact(new char[data.size() + 1]);
    std::memcpy(exact.get(), data.data(), data.size());
    std::unique_ptr<char[]> tight(new char[data.empty() ? 1 : data.size()]);
    std::memcpy(tight.get(), data.data(), data.size());
    ActionMessage b = s.boolean() ? ActionMessage() : used(s);
    std::size_t r = 0;
    if (data.empty() || s.boolean()) {
        r = b.from_string(std::string_view(tight.get(), data.size()));
    } else {
        r = b.depacketize(tight.get(), data.size());
    }
    REQUIRE("bounds", r <= data.size(), "consumed ", r, " of ", data.size(), " bytes");
    (void)prettyPrintString(b);
    if (r != 0) {
        s.tag("accepted");
        // what was accepted is itself a well formed command
        b.flags &= static_cast<std::uint16_t>(~64U);
        ActionMessage c(b.to_string());
        if (isValidCommand(b)) {
            REQUIRE("stable", c.action() == b.action() && c.messageID == b.messageID && c.source_id == b.source_id && c.dest_id == b.dest_id,
                    "an accepted command does not survive re-encoding");
        }
    }
    (void)createMessageFromCommand(b);
}
PROP(large, 1)
{
    // payloads around the size that needs the extra string
    std::size_t lim = 0x00FFFFFF;
    if (!s.chance(1, 40)) {
        throw pbt::Discard{};
    }
    M m = gen(s);
    m.action = 0x10000000 + 20;
    auto k = s.range(-2, 3);
    m.payload = s.blob(lim + static_cast<std::size_t>(static_cast<std::int64_t>(k)) + (s.boolean() ? 0 : s.draw(2000000)));
    m.strs.resize(std::min<std::size_t>(m.strs.size(), 4));
    s.note("payload ", m.payload.size());
    s.nontrivial();
    auto a = make(m);
    std::string str(100, 'x');
    if (s.boolean()) {
        str.assign(m.payload.size() + 4000, 'x');
    }
    a.to_string(str);
    REQUIRE("size", static_cast<std::size_t>(a.serializedByteCount()) == str.size(), "size");
    ActionMessage b;
    auto r = b.from_string(str);
    REQUIRE("consumed", r == str.size(), "read ", r, " of ", str.size());
    same("large", b, m, true);
    std::vector<std::byte> buf(str.size());
    auto n = a.toByteArray(buf.data(), buf.size());
    REQUIRE("array", n == static_cast<int>(str.size()), "toByteArray returns ", n, " for ", str.size());
}
PROP(largePackets, 1)
{
    // packet lengths around what the 24 bit header can say
    if (!s.chance(1, 60)) {
        throw pbt::Discard{};
    }
    M m{0x10000000 + 20, 1, 2, 3, 4, 5, 6, 0, 8, 9, 0, 0, 0, "", {}};
    m.payload = s.blob(0x00FFFFFF - 200 + s.draw(400));
    auto a = make(m);
    auto p = a.packetize();
    s.note("packet of ", p.size());
    s.nontrivial();
    ActionMessage b;
    auto r = b.depacketize(p.data(), p.size());
    if (p.size() - 2 <= 0x00FFFFFF) {
        REQUIRE("consumed", r == p.size(), "read ", r, " of ", p.size());
        same("large packet", b, m, true);
    } else {
        REQUIRE("packetlimit", r == p.size(), "a packet of ", p.size(), " bytes cannot be read back");
    }
}
PBT_MAIN("the command has strings, is a time request, or several commands or corrupted bytes are involved", 60)
