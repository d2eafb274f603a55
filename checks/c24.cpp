// C24: data buffers and messages of the C interface.
#include "helics/application_api/HelicsPrimaryTypes.hpp"
#include "helics/application_api/ValueConverter.hpp"
#include "helics/shared_api_library/MessageFederate.h"
#include "helics/shared_api_library/ValueFederate.h"
#include "helics/shared_api_library/helicsData.h"

#include "pbt.hpp"

#include <algorithm>
#include <climits>
#include <cmath>
#include <complex>
#include <cstring>
#include <memory>
#include <set>

using namespace helics;
namespace {
HelicsFederate gFed = nullptr;
HelicsEndpoint gEnd = nullptr;
void init()
{
    auto err = helicsErrorInitialize();
    auto fi = helicsCreateFederateInfo();
    helicsFederateInfoSetCoreTypeFromString(fi, "test", &err);
    helicsFederateInfoSetCoreInitString(fi, "-f 1 --autobroker --loglevel=no_print", &err);
    gFed = helicsCreateCombinationFederate("c24", fi, &err);
    if (err.error_code != 0) {
        std::fprintf(stderr, "no federate: %s\n", err.message);
        _exit(2);
    }
    helicsFederateInfoFree(fi);
    gEnd = helicsFederateRegisterEndpoint(gFed, "e", "", &err);
}
// memory of an exact size, what is written beyond is seen by ASAN
template<class T>
struct Exact {
    std::unique_ptr<T[]> p;
    explicit Exact(int n): p(new T[static_cast<std::size_t>(std::max(n, 0))]) {}
    operator T*() { return p.get(); }
};
bool eq(double a, double b)
{
    return (std::isnan(a) && std::isnan(b)) || a == b;
}
enum Type { INT, DBL, STR, RAW, BOOL, CHAR, TIME, CPLX, VEC, CVEC, NP };
struct Val {
    Type t{INT};
    std::int64_t i{0};
    double d{0}, e{0};
    std::string s;
    std::vector<double> v;
};
Val value(pbt::Src& s)
{
    Val x;
    x.t = static_cast<Type>(s.draw(11));
    x.i = s.int64();
    x.d = s.dbl();
    x.e = s.dbl();
    x.s = s.str(40, "ab{}[]\",:1e. ");
    if (x.t == RAW && s.boolean()) {
        x.s.push_back('\0');
        x.s += "z";
    }
    int n = static_cast<int>(s.weighted({2, 4, 2}));
    n = n == 0 ? 0 : static_cast<int>(s.range(1, n == 1 ? 4 : 40));
    for (int k = 0; k < 2 * n; ++k) {
        x.v.push_back(s.dbl());
    }
    if (x.t == VEC) {
        x.v.resize(static_cast<std::size_t>(n));
    }
    if (x.t == TIME) {
        x.d = static_cast<double>(s.range(-1000000, 1000000)) * 1e-3;
    }
    if (x.t == CHAR) {
        x.i = static_cast<std::int64_t>(s.range(0, 127));
    }
    return x;
}
int fill(HelicsDataBuffer b, const Val& x)
{
    switch (x.t) {
        case INT:
            return helicsDataBufferFillFromInteger(b, x.i);
        case DBL:
            return helicsDataBufferFillFromDouble(b, x.d);
        case STR:
            return helicsDataBufferFillFromString(b, x.s.c_str());
        case RAW:
            return helicsDataBufferFillFromRawString(b, x.s.data(), static_cast<int>(x.s.size()));
        case BOOL:
            return helicsDataBufferFillFromBoolean(b, x.i % 2 != 0 ? HELICS_TRUE : HELICS_FALSE);
        case CHAR:
            return helicsDataBufferFillFromChar(b, static_cast<char>(x.i));
        case TIME:
            return helicsDataBufferFillFromTime(b, x.d);
        case CPLX:
            return x.i % 2 != 0 ? helicsDataBufferFillFromComplex(b, x.d, x.e) : helicsDataBufferFillFromComplexObject(b, HelicsComplex{x.d, x.e});
        case VEC:
            return helicsDataBufferFillFromVector(b, x.v.data(), static_cast<int>(x.v.size()));
        case CVEC:
            return helicsDataBufferFillFromComplexVector(b, x.v.data(), static_cast<int>(x.v.size() / 2));
        default:
            return helicsDataBufferFillFromNamedPoint(b, x.s.c_str(), x.d);
    }
}
/// what a value comes back as, with the documented type
void readBack(HelicsDataBuffer b, const Val& x)
{
    int type = helicsDataBufferType(b);
    switch (x.t) {
        case INT:
            REQUIRE("type-int", type == HELICS_DATA_TYPE_INT, type);
            REQUIRE("int", helicsDataBufferToInteger(b) == x.i, helicsDataBufferToInteger(b), " expected ", x.i);
            break;
        case DBL:
            REQUIRE("type-double", type == HELICS_DATA_TYPE_DOUBLE, type);
            REQUIRE("double", eq(helicsDataBufferToDouble(b), x.d), helicsDataBufferToDouble(b), " expected ", x.d);
            break;
        case STR:
        case RAW: {
            REQUIRE("type-string", type == HELICS_DATA_TYPE_STRING, type);
            int n = helicsDataBufferStringSize(b);
            REQUIRE("string-size", n == static_cast<int>(x.s.size()) + 1, n, " for ", x.s.size());
            Exact<char> o(n);
            int got = -1;
            helicsDataBufferToString(b, o, n, &got);
            REQUIRE("string", got == static_cast<int>(x.s.size()) && std::string(o.p.get(), x.s.size() + 1) == x.s + '\0', got);
            break;
        }
        case BOOL:
            REQUIRE("bool", helicsDataBufferToBoolean(b) == (x.i % 2 != 0 ? HELICS_TRUE : HELICS_FALSE), x.i);
            break;
        case CHAR:
            REQUIRE("char", helicsDataBufferToChar(b) == static_cast<char>(x.i), static_cast<int>(helicsDataBufferToChar(b)), " expected ", x.i);
            break;
        case TIME:
            REQUIRE("time", std::abs(helicsDataBufferToTime(b) - x.d) <= 1e-9, helicsDataBufferToTime(b), " expected ", x.d);
            break;
        case CPLX: {
            REQUIRE("type-complex", type == HELICS_DATA_TYPE_COMPLEX, type);
            auto c = helicsDataBufferToComplexObject(b);
            REQUIRE("complex", eq(c.real, x.d) && eq(c.imag, x.e), c.real, ",", c.imag);
            double re = 0;
            double im = 0;
            helicsDataBufferToComplex(b, &re, nullptr);
            helicsDataBufferToComplex(b, nullptr, &im);
            REQUIRE("complex-parts", eq(re, x.d) && eq(im, x.e), re, ",", im);
            break;
        }
        case VEC: {
            REQUIRE("type-vector", type == HELICS_DATA_TYPE_VECTOR, type);
            int n = helicsDataBufferVectorSize(b);
            REQUIRE("vector-size", n == static_cast<int>(x.v.size()), n, " of ", x.v.size());
            Exact<double> o(n);
            int got = -1;
            helicsDataBufferToVector(b, o, n, &got);
            REQUIRE("vector", got == n && std::equal(x.v.begin(), x.v.end(), o.p.get(), eq), got);
            break;
        }
        case CVEC: {
            REQUIRE("type-cvector", type == HELICS_DATA_TYPE_COMPLEX_VECTOR, type);
            int n = static_cast<int>(x.v.size() / 2);
            Exact<double> o(2 * n);
            int got = -1;
            helicsDataBufferToComplexVector(b, o, n, &got);
            REQUIRE("cvector", got == n && std::equal(x.v.begin(), x.v.end(), o.p.get(), eq), got, " of ", n);
            break;
        }
        default: {
            REQUIRE("type-point", type == HELICS_DATA_TYPE_NAMED_POINT, type);
            int n = static_cast<int>(x.s.size()) + 1;
            Exact<char> o(n);
            int got = -1;
            double v = 0;
            helicsDataBufferToNamedPoint(b, o, n, &got, &v);
            REQUIRE("point", got == n - 1 && std::string(o.p.get(), x.s.size()) == x.s && eq(v, x.d), got, " ", v);
        }
    }
}
/// whatever is in it: every reader agrees with the C++ conversion, keeps within what it is given, and the sizes suffice
void readAll(HelicsDataBuffer b, pbt::Src& s)
{
    int size = helicsDataBufferSize(b);
    REQUIRE("size-capacity", size >= 0 && helicsDataBufferCapacity(b) >= size, size, " ", helicsDataBufferCapacity(b));
    std::string copy(static_cast<const char*>(helicsDataBufferData(b)), static_cast<std::size_t>(size));
    data_view dv(copy);
    auto type = size == 0 ? DataType::HELICS_UNKNOWN : detail::detectType(reinterpret_cast<const std::byte*>(dv.data()));
    REQUIRE("type", helicsDataBufferType(b) == static_cast<int>(type), helicsDataBufferType(b), " expected ", static_cast<int>(type));
    auto as = [&](auto v) {
        try {
            valueExtract(dv, type, v);
        }
        catch (const std::exception&) {  // a type of its own
            v = invalidValue<decltype(v)>();
        }
        return v;
    };
    REQUIRE("to-integer", helicsDataBufferToInteger(b) == as(std::int64_t{}), helicsDataBufferToInteger(b));
    REQUIRE("to-double", eq(helicsDataBufferToDouble(b), as(double{})), helicsDataBufferToDouble(b));
    REQUIRE("to-boolean", (helicsDataBufferToBoolean(b) == HELICS_TRUE) == as(bool{}), helicsDataBufferToBoolean(b));
    REQUIRE("to-char", helicsDataBufferToChar(b) == as(char{}), static_cast<int>(helicsDataBufferToChar(b)));
    REQUIRE("to-time", eq(helicsDataBufferToTime(b), static_cast<double>(as(Time{}))), helicsDataBufferToTime(b));
    auto c = as(std::complex<double>{});
    auto co = helicsDataBufferToComplexObject(b);
    REQUIRE("to-complex", eq(co.real, c.real()) && eq(co.imag, c.imag()), co.real, " ", co.imag);
    auto str = as(std::string{});
    int need = helicsDataBufferStringSize(b);
    if (size != 0) {
        REQUIRE("string-need", need >= static_cast<int>(str.size()), "size ", need, " for ", str.size());
    }
    for (int n : {need, static_cast<int>(s.range(-1, 12)), static_cast<int>(str.size()), static_cast<int>(str.size()) + 1}) {
        Exact<char> o(n);
        int got = -7;
        helicsDataBufferToString(b, n < 0 ? nullptr : static_cast<char*>(o), n, s.chance(1, 8) ? nullptr : &got);
        int want = n <= 0 ? 0 : std::min(n - 1, static_cast<int>(str.size()));
        if (got != -7) {
            REQUIRE("to-string-length", got == want, got, " expected ", want, " of ", str.size(), " in ", n);
        }
        if (n > 0) {
            REQUIRE("to-string", std::string(o.p.get(), static_cast<std::size_t>(want)) == str.substr(0, static_cast<std::size_t>(want)) && o[want] == '\0', str);
        }
        got = -7;
        Exact<char> r(n);
        helicsDataBufferToRawString(b, n < 0 ? nullptr : static_cast<char*>(r), n, &got);
        want = n <= 0 ? 0 : std::min(n, static_cast<int>(str.size()));
        REQUIRE("to-raw", got == want && (n <= 0 || std::string(r.p.get(), static_cast<std::size_t>(want)) == str.substr(0, static_cast<std::size_t>(want))), got, " expected ", want);
    }
    auto vec = as(std::vector<double>{});
    int vs = helicsDataBufferVectorSize(b);
    REQUIRE("vector-need", vs == static_cast<int>(vec.size()), "size ", vs, " for ", vec.size());
    for (int n : {vs, static_cast<int>(s.range(-1, 6))}) {
        Exact<double> o(n);
        int got = -7;
        helicsDataBufferToVector(b, n < 0 ? nullptr : static_cast<double*>(o), n, &got);
        int want = n <= 0 ? 0 : std::min(n, static_cast<int>(vec.size()));
        REQUIRE("to-vector", got == want && (want == 0 || std::equal(o.p.get(), o.p.get() + want, vec.begin(), eq)), got, " expected ", want);
    }
    auto cv = as(std::vector<std::complex<double>>{});
    for (int n : {static_cast<int>(cv.size()), static_cast<int>(s.range(-1, 6))}) {
        Exact<double> o(2 * std::max(n, 0));
        int got = -7;
        helicsDataBufferToComplexVector(b, n < 0 ? nullptr : static_cast<double*>(o), n, &got);
        int want = n <= 0 ? 0 : std::min(n, static_cast<int>(cv.size()));
        REQUIRE("to-cvector-size", got == want, got, " expected ", want);
        for (int i = 0; i < want; ++i) {
            REQUIRE("to-cvector", eq(o[2 * i], cv[static_cast<std::size_t>(i)].real()) && eq(o[2 * i + 1], cv[static_cast<std::size_t>(i)].imag()), i);
        }
    }
    auto np = as(NamedPoint{});
    for (int n : {static_cast<int>(np.name.size()) + 1, static_cast<int>(np.name.size()), static_cast<int>(s.range(-1, 6))}) {
        Exact<char> o(n);
        int got = -7;
        double v = 0;
        helicsDataBufferToNamedPoint(b, n < 0 ? nullptr : static_cast<char*>(o), n, &got, &v);
        int want = n <= 0 ? 0 : std::min(n, static_cast<int>(np.name.size()));
        REQUIRE("to-point", got == want && eq(v, np.value) && (want == 0 || std::string(o.p.get(), static_cast<std::size_t>(want)) == np.name.substr(0, static_cast<std::size_t>(want))), got,
                " expected ", want);
    }
    REQUIRE("untouched", helicsDataBufferSize(b) == size && std::memcmp(helicsDataBufferData(b), copy.data(), copy.size()) == 0, "changed by reading");
}
}  // namespace

// buffers filled, read as everything, converted, copied, reused
PROP(values, 8)
{
    std::vector<HelicsDataBuffer> all;
    HelicsMessage msg = nullptr;
    auto add = [&](HelicsDataBuffer b) {
        REQUIRE("valid", b != nullptr && helicsDataBufferIsValid(b) == HELICS_TRUE, "not valid");
        all.push_back(b);
        return b;
    };
    HelicsDataBuffer b = nullptr;
    if (s.chance(1, 5)) {
        auto err = helicsErrorInitialize();
        msg = helicsFederateCreateMessage(gFed, &err);
        b = helicsMessageDataBuffer(msg, &err);
        REQUIRE("message-buffer", b != nullptr && err.error_code == 0, "none");
    } else {
        b = add(helicsCreateDataBuffer(static_cast<std::int32_t>(s.pick({0, 1, 16, 63, 64, 65, 500, -1, -100}))));
    }
    for (int k = static_cast<int>(s.range(1, 5)); k > 0; --k) {
        auto x = value(s);
        s.note("fill ", static_cast<int>(x.t), " ", x.i, " ", x.d, " '", x.s, "' ", x.v.size());
        int n = fill(b, x);
        REQUIRE("fill", n > 0 && n == helicsDataBufferSize(b), n, " ", helicsDataBufferSize(b));
        s.nontrivial();
        readBack(b, x);
        readAll(b, s);
        switch (s.draw(4)) {
            case 0: {
                auto c = add(helicsDataBufferClone(b));
                readBack(c, x);
                auto y = value(s);
                fill(c, y);
                readBack(b, x);  // a copy of its own
                readBack(c, y);
                break;
            }
            case 1: {
                int want = static_cast<int>(s.range(-3, 300));
                s.note("reserve ", want);
                bool ok = helicsDataBufferReserve(b, want) == HELICS_TRUE;
                REQUIRE("reserve", !ok || helicsDataBufferCapacity(b) >= want, helicsDataBufferCapacity(b), " after reserving ", want);
                REQUIRE("reserve-refused", ok || want < 0, "reserve ", want);
                readBack(b, x);
                break;
            }
            case 2: {
                int to = s.pick({HELICS_DATA_TYPE_STRING, HELICS_DATA_TYPE_DOUBLE, HELICS_DATA_TYPE_INT, HELICS_DATA_TYPE_COMPLEX, HELICS_DATA_TYPE_VECTOR, HELICS_DATA_TYPE_COMPLEX_VECTOR,
                                 HELICS_DATA_TYPE_NAMED_POINT, HELICS_DATA_TYPE_BOOLEAN, HELICS_DATA_TYPE_TIME, HELICS_DATA_TYPE_CHAR, HELICS_DATA_TYPE_JSON});
                s.note("convert to ", to);
                int before = helicsDataBufferType(b);
                auto ok = helicsDataBufferConvertToType(b, to);
                REQUIRE("convert-valid", helicsDataBufferIsValid(b) == HELICS_TRUE, "the handle is lost");
                REQUIRE("convert", ok == HELICS_TRUE, "refused");
                if (to <= HELICS_DATA_TYPE_NAMED_POINT && to != HELICS_DATA_TYPE_BOOLEAN) {
                    REQUIRE("convert-type", helicsDataBufferType(b) == to, helicsDataBufferType(b), " expected ", to, " from ", before);
                }
                readAll(b, s);
                break;
            }
            default:
                break;
        }
    }
    for (auto x : all) {
        helicsDataBufferFree(x);
    }
    helicsMessageFree(msg);
}

// arbitrary bytes wrapped: nothing beyond them is read, nothing beyond the capacity written
PROP(wrapped, 5)
{
    int cap = static_cast<int>(s.weighted({3, 2}) == 0 ? s.range(0, 24) : s.range(24, 200));
    int size = static_cast<int>(s.draw(static_cast<std::uint64_t>(cap) + 1));
    std::unique_ptr<char[]> mem(new char[static_cast<std::size_t>(cap)]);
    for (int i = 0; i < cap; ++i) {
        mem[static_cast<std::size_t>(i)] = static_cast<char>(s.draw(256));
    }
    if (size >= 1 && s.chance(3, 4)) {
        auto h = helicsCreateDataBuffer(0);
        auto x = value(s);
        int n = fill(h, x);
        std::memcpy(mem.get(), helicsDataBufferData(h), static_cast<std::size_t>(std::min(n, size)));
        helicsDataBufferFree(h);
    }
    s.note("wrap ", size, " of ", cap);
    auto b = helicsWrapDataInBuffer(mem.get(), size, cap);
    REQUIRE("wrap", helicsDataBufferSize(b) == size && helicsDataBufferCapacity(b) == cap && helicsDataBufferData(b) == mem.get(), helicsDataBufferSize(b), " ", helicsDataBufferCapacity(b));
    readAll(b, s);
    s.nontrivial();
    auto x = value(s);
    auto probe = helicsCreateDataBuffer(0);
    int want = fill(probe, x);
    int n = fill(b, x);  // fits, or is refused
    s.note("fill ", static_cast<int>(x.t), " of ", want, " gives ", n);
    if (want <= cap) {
        REQUIRE("wrap-fill", n == want, n, " expected ", want);
        readBack(b, x);
    } else {
        REQUIRE("wrap-refused", n == 0, n, " does not fit in ", cap);
    }
    REQUIRE("wrap-place", helicsDataBufferData(b) == mem.get(), "moved");
    helicsDataBufferFree(probe);
    helicsDataBufferFree(b);
}

// histories of the messages of a federate
PROP(messages, 6)
{
    struct M {
        HelicsMessage h;
        std::string src, dst, osrc, odst, data;
        double t{0};
        int id{0};
        unsigned flags{0};
        bool known{true};  // the content of the data
    };
    std::vector<M> all;
    auto err = helicsErrorInitialize();
    auto look = [&](const M& m) {
        REQUIRE("source", m.src == helicsMessageGetSource(m.h), helicsMessageGetSource(m.h));
        REQUIRE("destination", m.dst == helicsMessageGetDestination(m.h), helicsMessageGetDestination(m.h));
        REQUIRE("original-source", m.osrc == helicsMessageGetOriginalSource(m.h), helicsMessageGetOriginalSource(m.h));
        REQUIRE("original-destination", m.odst == helicsMessageGetOriginalDestination(m.h), helicsMessageGetOriginalDestination(m.h));
        REQUIRE("message-time", eq(helicsMessageGetTime(m.h), m.t), helicsMessageGetTime(m.h), " expected ", m.t);
        REQUIRE("message-id", helicsMessageGetMessageID(m.h) == m.id, helicsMessageGetMessageID(m.h), " expected ", m.id);
        for (int f = -2; f < 18; ++f) {
            bool want = f >= 0 && f < 16 && ((m.flags >> static_cast<unsigned>(f)) & 1U) != 0;
            REQUIRE("message-flag", (helicsMessageGetFlagOption(m.h, f) == HELICS_TRUE) == want, f);
        }
        int n = helicsMessageGetByteCount(m.h);
        REQUIRE("byte-count", n == static_cast<int>(m.data.size()), n, " expected ", m.data.size());
        if (m.known) {
            Exact<char> o(n);
            int got = -7;
            auto e = helicsErrorInitialize();
            helicsMessageGetBytes(m.h, o, n, &got, &e);
            REQUIRE("bytes", e.error_code == 0 && got == n && std::string(o.p.get(), static_cast<std::size_t>(n)) == m.data, got);
            REQUIRE("bytes-pointer", n == 0 || std::memcmp(helicsMessageGetBytesPointer(m.h), m.data.data(), m.data.size()) == 0, "different");
            REQUIRE("get-string", m.data.c_str() == std::string(helicsMessageGetString(m.h)), helicsMessageGetString(m.h));
            if (n > 0) {
                Exact<char> small(n - 1);
                helicsMessageGetBytes(m.h, small, n - 1, &got, &e);
                REQUIRE("bytes-small", e.error_code == HELICS_ERROR_INSUFFICIENT_SPACE && got == 0, e.error_code, " ", got);
            }
        }
    };
    for (int k = static_cast<int>(s.range(3, 30)); k > 0; --k) {
        std::size_t i = all.empty() ? 0 : static_cast<std::size_t>(s.draw(all.size()));
        int op = all.empty() ? 0 : static_cast<int>(s.draw(20));
        err = helicsErrorInitialize();
        std::string txt = s.str(s.chance(1, 6) ? 100 : 12, "ab/c\n");
        s.note(op, " on ", i, " '", txt, "'");
        if (op <= 1) {
            M m;
            m.h = s.boolean() ? helicsFederateCreateMessage(gFed, &err) : helicsEndpointCreateMessage(gEnd, &err);
            for (auto& o : all) {
                REQUIRE("new", m.h != nullptr && m.h != o.h, "no new one");
            }
            all.push_back(m);
            look(m);
            continue;
        }
        s.nontrivial();
        auto& m = all[i];
        switch (op) {
            case 2:
                helicsMessageSetSource(m.h, txt.c_str(), &err);
                m.src = txt;
                break;
            case 3:
                helicsMessageSetDestination(m.h, txt.c_str(), &err);
                m.dst = txt;
                break;
            case 4:
                helicsMessageSetOriginalSource(m.h, txt.c_str(), &err);
                m.osrc = txt;
                break;
            case 5:
                helicsMessageSetOriginalDestination(m.h, txt.c_str(), &err);
                m.odst = txt;
                break;
            case 6:
                m.t = static_cast<double>(s.range(-100, 100)) * 0.25;
                helicsMessageSetTime(m.h, m.t, &err);
                break;
            case 7:
                m.id = static_cast<int>(s.int32());
                helicsMessageSetMessageID(m.h, m.id, &err);
                break;
            case 8: {
                int f = static_cast<int>(s.range(-2, 17));
                bool on = s.boolean();
                helicsMessageSetFlagOption(m.h, f, on ? HELICS_TRUE : HELICS_FALSE, &err);
                if (f < 0 || f > 15) {
                    REQUIRE("flag-range", err.error_code == HELICS_ERROR_INVALID_ARGUMENT, f, " gives ", err.error_code);
                    err = helicsErrorInitialize();
                } else {
                    m.flags = on ? m.flags | (1U << static_cast<unsigned>(f)) : m.flags & ~(1U << static_cast<unsigned>(f));
                }
                break;
            }
            case 9:
                helicsMessageClearFlags(m.h);
                m.flags = 0;
                break;
            case 10:
                helicsMessageSetString(m.h, txt.c_str(), &err);
                m.data = txt;
                m.known = true;
                break;
            case 11:
                txt += std::string("\0q", 2);
                helicsMessageSetData(m.h, txt.data(), static_cast<int>(txt.size()), &err);
                m.data = txt;
                m.known = true;
                break;
            case 12:
                helicsMessageAppendData(m.h, txt.data(), static_cast<int>(txt.size()), &err);
                m.data += txt;
                break;
            case 13: {
                int n = static_cast<int>(s.range(-2, 150));
                helicsMessageResize(m.h, n, &err);
                if (n < 0) {
                    REQUIRE("resize-negative", err.error_code != 0, "no error");
                    err = helicsErrorInitialize();
                    break;
                }
                if (static_cast<std::size_t>(n) > m.data.size()) {
                    m.known = false;  // the content is not said
                }
                m.data.resize(static_cast<std::size_t>(n));
                break;
            }
            case 14: {
                int n = static_cast<int>(s.range(-2, 150));
                helicsMessageReserve(m.h, n, &err);
                if (n < 0) {
                    REQUIRE("reserve-negative", err.error_code != 0, "no error");
                    err = helicsErrorInitialize();
                }
                break;
            }
            case 15: {
                auto b = helicsCreateDataBuffer(0);
                auto x = value(s);
                fill(b, x);
                helicsMessageSetDataBuffer(m.h, b, &err);
                m.data = std::string(static_cast<char*>(helicsDataBufferData(b)), static_cast<std::size_t>(helicsDataBufferSize(b)));
                m.known = true;
                helicsDataBufferFree(b);
                readBack(helicsMessageDataBuffer(m.h, &err), x);
                break;
            }
            case 16: {
                auto& o = all[static_cast<std::size_t>(s.draw(all.size()))];
                helicsMessageCopy(m.h, o.h, &err);
                auto h = o.h;
                o = m;
                o.h = h;
                look(o);
                break;
            }
            case 17: {
                M c(m);
                c.h = helicsMessageClone(m.h, &err);
                REQUIRE("clone", c.h != nullptr && std::none_of(all.begin(), all.end(), [&](const M& o) { return o.h == c.h; }), "no new one");
                look(c);
                all.push_back(c);
                break;
            }
            case 18:
                helicsMessageClear(m.h, &err);
                m = M{m.h, {}, {}, {}, {}, {}, 0, 0, 0, true};
                break;
            default:
                helicsMessageFree(m.h);
                all.erase(all.begin() + static_cast<std::ptrdiff_t>(i));
                continue;
        }
        REQUIRE("no-error", err.error_code == 0, "operation ", op, ": ", err.message);
        for (auto& x : all) {
            look(x);
        }
    }
    if (s.boolean()) {
        for (auto& m : all) {
            helicsMessageFree(m.h);
        }
    } else {
        helicsFederateClearMessages(gFed);
    }
}

// no handle, the handle of something else, an error already reported
PROP(invalid, 3)
{
    auto err = helicsErrorInitialize();
    HelicsMessage m = nullptr;
    bool earlier = s.boolean();
    HelicsMessage good = helicsFederateCreateMessage(gFed, &err);
    if (earlier) {
        err.error_code = HELICS_ERROR_OTHER;
        err.message = "earlier";
        m = good;
    }
    int op = static_cast<int>(s.draw(17));
    s.note("operation ", op, earlier ? " after an error" : " without a message");
    int n = 3;
    char mem[8] = "xxxxxxx";
    switch (op) {
        case 0:
            helicsMessageSetSource(m, "a", &err);
            break;
        case 1:
            helicsMessageSetDestination(m, "a", &err);
            break;
        case 2:
            helicsMessageSetOriginalSource(m, "a", &err);
            break;
        case 3:
            helicsMessageSetOriginalDestination(m, "a", &err);
            break;
        case 4:
            helicsMessageSetTime(m, 1.0, &err);
            break;
        case 5:
            helicsMessageResize(m, 5, &err);
            break;
        case 6:
            helicsMessageReserve(m, 5, &err);
            break;
        case 7:
            helicsMessageSetMessageID(m, 5, &err);
            break;
        case 8:
            helicsMessageSetFlagOption(m, 5, HELICS_TRUE, &err);
            break;
        case 9:
            helicsMessageSetString(m, "abc", &err);
            break;
        case 10:
            helicsMessageSetData(m, "abc", 3, &err);
            break;
        case 11:
            helicsMessageAppendData(m, "abc", 3, &err);
            break;
        case 12:
            helicsMessageSetDataBuffer(m, nullptr, &err);
            break;
        case 13:
            helicsMessageCopy(m, good, &err);
            break;
        case 14:
            REQUIRE("invalid-clone", helicsMessageClone(m, &err) == nullptr, "cloned");
            break;
        case 15:
            helicsMessageGetBytes(m, mem, 7, &n, &err);
            REQUIRE("invalid-bytes", n == 0 && std::string(mem) == "xxxxxxx", n);
            break;
        default:
            REQUIRE("invalid-buffer", helicsMessageDataBuffer(m, &err) == nullptr, "a buffer");
    }
    REQUIRE("invalid-code", err.error_code == (earlier ? static_cast<int>(HELICS_ERROR_OTHER) : static_cast<int>(HELICS_ERROR_INVALID_ARGUMENT)), err.error_code);
    REQUIRE("invalid-unchanged", helicsMessageGetByteCount(good) == 0 && helicsMessageGetMessageID(good) == 0 && helicsMessageGetTime(good) == 0 && std::string(helicsMessageGetSource(good)).empty() &&
                helicsMessageGetFlagOption(good, 5) == HELICS_FALSE && std::string(helicsMessageGetDestination(good)).empty(),
            "changed");
    err = helicsErrorInitialize();
    // readers without a handle
    HelicsDataBuffer b = s.boolean() ? nullptr : static_cast<HelicsDataBuffer>(gFed);
    if (b != nullptr) {
        b = nullptr;
    }
    REQUIRE("null-size", helicsDataBufferSize(b) == 0 && helicsDataBufferCapacity(b) == 0 && helicsDataBufferData(b) == nullptr && helicsDataBufferIsValid(b) == HELICS_FALSE, "not empty");
    REQUIRE("null-fill", fill(b, value(s)) == 0 && helicsDataBufferClone(b) == nullptr && helicsDataBufferReserve(b, 3) == HELICS_FALSE && helicsDataBufferConvertToType(b, 1) == HELICS_FALSE, "done");
    int got = 9;
    helicsDataBufferToString(b, mem, 7, &got);
    REQUIRE("null-string", got == 0, got);
    got = 9;
    helicsDataBufferToVector(b, nullptr, 7, &got);
    REQUIRE("null-vector", got == 0, got);
    helicsDataBufferFree(b);
    // data that is not there, sizes that are none
    auto d = helicsCreateDataBuffer(8);
    REQUIRE("null-text", helicsDataBufferFillFromString(d, nullptr) == helicsDataBufferSize(d), "size");
    int neg = static_cast<int>(s.range(-5, 0));
    helicsDataBufferFillFromRawString(d, neg == 0 ? nullptr : "abc", neg);
    helicsDataBufferFillFromVector(d, nullptr, neg);
    helicsDataBufferFillFromComplexVector(d, nullptr, neg);
    helicsDataBufferFillFromNamedPoint(d, nullptr, 1.0);
    helicsMessageSetData(good, "abc", neg, &err);
    REQUIRE("negative-data", neg == 0 ? err.error_code == 0 : err.error_code != 0, neg, " gives ", err.error_code);
    err = helicsErrorInitialize();
    helicsMessageAppendData(good, "abc", neg, &err);
    REQUIRE("negative-append", neg == 0 ? err.error_code == 0 : err.error_code != 0, neg, " gives ", err.error_code);
    REQUIRE("negative-unchanged", helicsMessageGetByteCount(good) == 0, helicsMessageGetByteCount(good));
    helicsDataBufferFree(d);
    helicsMessageFree(good);
    s.nontrivial();
}

PBT_MAIN("a value went into a buffer and was read in all ways, or a message was changed", 30, init)
