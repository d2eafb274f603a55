// C09: values keep their meaning through encoding, text and type conversion.
#include "helics/application_api/HelicsPrimaryTypes.hpp"
#include "helics/application_api/ValueConverter.hpp"
#include "helics/application_api/helicsTypes.hpp"

#include "pbt.hpp"

using namespace helics;
using C = std::complex<double>;
using V = std::vector<double>;
using CV = std::vector<C>;
namespace {
const std::vector<DataType> sendTypes{DataType::HELICS_DOUBLE,         DataType::HELICS_INT,
                                      DataType::HELICS_STRING,         DataType::HELICS_COMPLEX,
                                      DataType::HELICS_VECTOR,         DataType::HELICS_COMPLEX_VECTOR,
                                      DataType::HELICS_NAMED_POINT,    DataType::HELICS_BOOL,
                                      DataType::HELICS_TIME,           DataType::HELICS_JSON,
                                      DataType::HELICS_CHAR};
bool eqd(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
bool eq(double a, double b) { return eqd(a, b); }
bool eq(std::int64_t a, std::int64_t b) { return a == b; }
bool eq(const std::string& a, const std::string& b) { return a == b; }
bool eq(const C& a, const C& b) { return eqd(a.real(), b.real()) && eqd(a.imag(), b.imag()); }
bool eq(const V& a, const V& b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), eqd);
}
bool eq(const CV& a, const CV& b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return eq(x, y); });
}
bool eq(const NamedPoint& a, const NamedPoint& b) { return a.name == b.name && eqd(a.value, b.value); }
bool eq(bool a, bool b) { return a == b; }
bool eq(char a, char b) { return a == b; }
bool eq(Time a, Time b) { return a.getBaseTimeCode() == b.getBaseTimeCode(); }
std::string show(double v) { return pbt::cat(v); }
std::string show(std::int64_t v) { return std::to_string(v); }
std::string show(bool v) { return v ? "true" : "false"; }
std::string show(char v) { return pbt::cat("char ", static_cast<int>(v)); }
std::string show(const std::string& v) { return "\"" + v.substr(0, 200) + "\""; }
std::string show(const C& v) { return pbt::cat("(", v.real(), ",", v.imag(), ")"); }
std::string show(const NamedPoint& v) { return pbt::cat("{", v.name, ":", v.value, "}"); }
std::string show(Time v) { return pbt::cat(v.getBaseTimeCode(), "ns"); }
template<class X>
std::string show(const std::vector<X>& v)
{
    std::string o = "[";
    for (auto& x : v) {
        o += show(x) + " ";
    }
    return o + "]";
}
// the text of a denormal number is out of the range of strtod
double norm(double v)
{
    return (v != 0.0 && std::abs(v) < std::numeric_limits<double>::min()) ? 0.0 : v + 0.0;
}
C cplx(pbt::Src& s)
{
    auto re = norm(s.dbl());
    return {re, s.chance(1, 4) ? 0.0 : norm(s.dbl())};
}
V vec(pbt::Src& s, std::size_t hi = 12)
{
    V v(s.size(hi));
    for (auto& x : v) {
        x = norm(s.dbl());
    }
    return v;
}
CV cvec(pbt::Src& s, std::size_t hi = 8)
{
    CV v(s.size(hi));
    for (auto& x : v) {
        x = cplx(s);
    }
    return v;
}
std::string text(pbt::Src& s)
{
    switch (s.draw(5)) {
        case 0:
            return s.str(20, "abcdefgh XYZ_-");
        case 1:
            return s.str(12, "0123456789.eE+-jiv[]c,;");
        case 2:
            return s.str(20, "\"\\{}:,[]\n\t/ab");
        case 3:
            return s.pick({"true", "false", "0", "1", "off", "value", "1.5", "[1,2]", "3+4j", "{\"value\":3}"});
        default: {
            std::string v;
            auto n = s.size(8);
            for (std::size_t i = 0; i < n; ++i) {
                v += s.pick({"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "a", " ", "\x01"});
            }
            return v;
        }
    }
}
NamedPoint point(pbt::Src& s) { return NamedPoint(text(s), norm(s.dbl())); }
std::string header(unsigned code, std::size_t n)
{
    std::string h(8, '\0');
    h[0] = static_cast<char>(code);
    for (int i = 0; i < 4; ++i) {
        h[4 + i] = static_cast<char>(n >> (24 - 8 * i));
    }
    return h;
}
template<class T>
std::string raw(const T* p, std::size_t n)
{
    return n == 0 ? std::string() : std::string(reinterpret_cast<const char*>(p), n * sizeof(T));
}
std::string bytes(const SmallBuffer& b) { return std::string(b.to_string()); }
// the encoding of a value as laid out on the wire
std::string enc(double v) { return header(0xB0, 1) + raw(&v, 1); }
std::string enc(std::int64_t v) { return header(0x50, 1) + raw(&v, 1); }
std::string enc(const C& v) { return header(0x12, 2) + raw(&v, 1); }
std::string enc(const V& v) { return header(0x6C, v.size()) + raw(v.data(), v.size()); }
std::string enc(const CV& v) { return header(0x62, v.size()) + raw(v.data(), v.size()); }
std::string enc(const std::string& v) { return header(0x0E, v.size()) + v; }
std::string enc(const NamedPoint& v) { return header(0xAE, v.name.size()) + raw(&v.value, 1) + v.name; }
// the same encoding as a machine of the other byte order writes it: the flag bit of the first byte set and every number reversed
std::string foreign(std::string e, std::size_t from, std::size_t numbers)
{
    e[0] = static_cast<char>(e[0] | 1);
    for (std::size_t i = 0; i < numbers; ++i) {
        std::reverse(e.begin() + from + 8 * i, e.begin() + from + 8 * i + 8);
    }
    return e;
}
template<class X>
X interp(const std::string& e)
{
    std::vector<char> exact(e.begin(), e.end());  // exact allocation, so that any read past it is seen
    return ValueConverter<X>::interpret(data_view(exact.data(), exact.size()));
}
template<class X>
void binary1(pbt::Src& s, const X& v, DataType t, std::size_t from, std::size_t numbers)
{
    auto e = enc(v);
    s.note(helics::typeNameStringRef(t), " ", show(v).substr(0, 300));
    auto b = ValueConverter<X>::convert(v);
    REQUIRE("layout", bytes(b) == e, "encoded as ", pbt::hex(bytes(b)), " not ", pbt::hex(e));
    SmallBuffer used(s.bytes(100));
    ValueConverter<X>::convert(v, used);
    REQUIRE("layout", bytes(used) == e, "encoded into a used buffer as ", pbt::hex(bytes(used)));
    auto r = interp<X>(e);
    REQUIRE("binary", eq(r, v), show(r), " not ", show(v));
    X r2{};
    ValueConverter<X>::interpret(data_view(e), r2);
    REQUIRE("binary", eq(r2, v), show(r2), " not ", show(v));
    REQUIRE("detect", detail::detectType(reinterpret_cast<const std::byte*>(e.data())) == t, "detected as ",
            static_cast<int>(detail::detectType(reinterpret_cast<const std::byte*>(e.data()))));
    if (numbers > 0) {
        auto f = foreign(e, from, numbers);
        auto r3 = interp<X>(f);
        REQUIRE("foreign", eq(r3, v), "from the other byte order ", show(r3), " not ", show(v));
    }
}
}  // namespace
PROP(binary, 4)
{
    switch (s.draw(7)) {
        case 0:
            binary1(s, s.dbl(true), DataType::HELICS_DOUBLE, 8, 1);
            break;
        case 1:
            binary1(s, s.int64(), DataType::HELICS_INT, 8, 1);
            break;
        case 2:
            binary1(s, C{s.dbl(true), s.dbl(true)}, DataType::HELICS_COMPLEX, 8, 2);
            break;
        case 3: {
            V v = s.chance(1, 40) ? V(300 + s.draw(70000), s.dbl()) : vec(s, 40);
            binary1(s, v, DataType::HELICS_VECTOR, 8, v.size());
            std::vector<double> out(v.size() + 1, 42.0);
            auto e = enc(v);
            detail::convertFromBinary(reinterpret_cast<const std::byte*>(e.data()), out.data());
            REQUIRE("array", out.back() == 42.0 && std::equal(v.begin(), v.end(), out.begin()), "into an array");
            auto b = ValueConverter<double>::convert(v.data(), v.size());
            REQUIRE("layout", bytes(b) == e, "pointer and size");
            s.nontrivial();
            break;
        }
        case 4: {
            CV v = s.chance(1, 40) ? CV(300 + s.draw(30000), cplx(s)) : cvec(s, 40);
            binary1(s, v, DataType::HELICS_COMPLEX_VECTOR, 8, v.size() * 2);
            if (!v.empty()) {
                auto b = ValueConverter<C>::convert(v.data(), v.size());
                REQUIRE("layout", bytes(b) == enc(v), "pointer and size");
            }
            s.nontrivial();
            break;
        }
        case 5: {
            std::string v = s.chance(1, 40) ? s.blob(300 + s.draw(70000)) : s.bytes(60);
            auto e = enc(v);
            auto b = ValueConverter<std::string_view>::convert(v);
            REQUIRE("layout", bytes(b) == e, "string encoded as ", pbt::hex(bytes(b)), " not ", pbt::hex(e));
            REQUIRE("binary", ValueConverter<std::string_view>::interpret(data_view(e)) == v, "string view");
            binary1(s, v, DataType::HELICS_STRING, 8, 0);
            s.nontrivial();
            break;
        }
        default:
            binary1(s, NamedPoint(s.bytes(40), s.dbl(true)), DataType::HELICS_NAMED_POINT, 8, 1);
            s.nontrivial();
            break;
    }
}
PROP(stringVectors, 1)
{
    std::vector<std::string> v(s.size(6));
    for (auto& x : v) {
        x = text(s);
    }
    auto b = ValueConverter<std::vector<std::string>>::convert(v);
    auto r = ValueConverter<std::vector<std::string>>::interpret(b);
    s.note(show(v));
    if (v.size() > 1) {
        s.nontrivial();
    }
    REQUIRE("strings", r == v, show(r), " not ", show(v));
}
PROP(textForms, 4)
{
    switch (s.draw(6)) {
        case 0: {
            auto v = norm(s.dbl());
            auto t = helicsDoubleString(v);
            s.note(t);
            REQUIRE("text", eqd(getDoubleFromString(t), v), t, " is read as ", getDoubleFromString(t), " not ", v);
            break;
        }
        case 1: {
            auto v = s.int64();
            auto t = helicsIntString(v);
            s.note(t);
            REQUIRE("text", t == std::to_string(v), t);
            REQUIRE("text", getIntFromString(t) == v, t, " is read as ", getIntFromString(t));
            break;
        }
        case 2: {
            auto v = cplx(s);
            auto t = helicsComplexString(v);
            s.note(t);
            s.nontrivial();
            REQUIRE("text", helicsComplexString(v.real(), v.imag()) == t, "two forms of the complex text");
            REQUIRE("text", eq(helicsGetComplex(t), v), t, " is read as ", show(helicsGetComplex(t)), " not ", show(v));
            REQUIRE("text", eq(getComplexFromString(t), v), t, " is read as ", show(getComplexFromString(t)), " not ", show(v));
            break;
        }
        case 3: {
            auto v = vec(s);
            auto t = helicsVectorString(v);
            s.note(t);
            s.nontrivial();
            REQUIRE("text", helicsVectorString(v.data(), v.size()) == t, "two forms of the vector text");
            auto r = helicsGetVector(s.boolean() ? t : "v" + t);
            REQUIRE("text", eq(r, v), t, " is read as ", show(r));
            V used(3, 1.0);
            helicsGetVector(t, used);
            REQUIRE("text", eq(used, v), t, " is read into a used vector as ", show(used));
            auto sized = "v" + std::to_string(v.size()) + t;
            REQUIRE("text", eq(helicsGetVector(sized), v), sized, " is read as ", show(helicsGetVector(sized)));
            break;
        }
        case 4: {
            auto v = cvec(s);
            auto t = helicsComplexVectorString(v);
            s.note(t);
            s.nontrivial();
            auto r = helicsGetComplexVector(t);
            REQUIRE("text", eq(r, v), t, " is read as ", show(r));
            CV used(2);
            helicsGetComplexVector(t, used);
            REQUIRE("textused", eq(used, v), t, " is read into a used vector as ", show(used));
            break;
        }
        default: {
            auto v = point(s);
            if (v.name.empty()) {
                v.name = "n";
            }
            auto t = helicsNamedPointString(v);
            s.note(t);
            s.nontrivial();
            REQUIRE("text", helicsNamedPointString(v.name, v.value) == t, "two forms of the named point text");
            REQUIRE("text", eq(helicsGetNamedPoint(t), v), t, " is read as ", show(helicsGetNamedPoint(t)));
        }
    }
}
namespace {
// sends x as type t and reads it back as X
template<class X, class A>
X through(DataType t, const A& x)
{
    auto b = typeConvert(t, x);
    X r{};
    valueExtract(data_view(b), t, r);
    return r;
}
template<class X, class A>
void lossless(DataType t, const A& x, const X& want)
{
    auto r = through<X>(t, x);
    REQUIRE("lossless", eq(r, want), "sent as ", typeNameStringRef(t), " comes back as ", show(r), " not ", show(want));
}
bool intSafe(double v) { return std::abs(v) < 9.0e18; }
}  // namespace
PROP(lossless1, 6)
{
    auto t = s.pick(sendTypes);
    bool J = t == DataType::HELICS_JSON;
    auto in = [&](std::initializer_list<DataType> l) { return J || std::find(l.begin(), l.end(), t) != l.end(); };
    s.nontrivial();
    s.tag(typeNameStringRef(t));
    using D = DataType;
    switch (s.draw(9)) {
        case 0: {
            auto x = norm(s.dbl());
            s.note("double ", x, " as ", typeNameStringRef(t));
            if (in({D::HELICS_DOUBLE, D::HELICS_STRING, D::HELICS_COMPLEX, D::HELICS_VECTOR, D::HELICS_COMPLEX_VECTOR, D::HELICS_NAMED_POINT})) {
                lossless<double>(t, x, x);
            }
            if (in({D::HELICS_BOOL}) && !J) {
                lossless<bool>(t, x, x != 0.0);
            }
            if (t == D::HELICS_INT && intSafe(x)) {
                lossless<std::int64_t>(t, x, static_cast<std::int64_t>(x));
            }
            if (t == D::HELICS_TIME && std::abs(x) < 4.0e9) {
                lossless<Time>(t, x, Time(x));
                auto back = through<double>(t, x);
                REQUIRE("time", std::abs(back - x) <= 1e-9 + std::abs(x) * 1e-15, "seconds ", back, " not ", x);
            }
            break;
        }
        case 1: {
            auto x = s.int64();
            s.note("int ", x, " as ", typeNameStringRef(t));
            if (in({D::HELICS_INT, D::HELICS_STRING, D::HELICS_TIME})) {
                lossless<std::int64_t>(t, x, x);
            }
            if (in({D::HELICS_NAMED_POINT})) {
                lossless<std::int64_t>(t, x, x);
            }
            if (in({D::HELICS_DOUBLE, D::HELICS_COMPLEX, D::HELICS_VECTOR, D::HELICS_COMPLEX_VECTOR}) && x <= 9007199254740992LL && x >= -9007199254740992LL) {
                lossless<std::int64_t>(t, x, x);
                lossless<double>(t, x, static_cast<double>(x));
            }
            if (t == D::HELICS_BOOL) {
                lossless<bool>(t, x, x != 0);
            }
            break;
        }
        case 2: {
            auto x = cplx(s);
            s.note("complex ", show(x), " as ", typeNameStringRef(t));
            if (in({D::HELICS_COMPLEX, D::HELICS_STRING, D::HELICS_VECTOR, D::HELICS_COMPLEX_VECTOR, D::HELICS_NAMED_POINT})) {
                lossless<C>(t, x, x);
            }
            if (t == D::HELICS_DOUBLE) {
                lossless<double>(t, x, x.imag() == 0.0 ? x.real() : std::abs(x));
            }
            if (t == D::HELICS_BOOL) {
                lossless<bool>(t, x, x.real() != 0.0 || x.imag() != 0.0);
            }
            break;
        }
        case 3: {
            auto x = vec(s);
            s.note("vector ", show(x), " as ", typeNameStringRef(t));
            if (in({D::HELICS_VECTOR, D::HELICS_STRING, D::HELICS_NAMED_POINT})) {
                lossless<V>(t, x, x);
            }
            if (t == D::HELICS_COMPLEX_VECTOR) {
                lossless<V>(t, x, x);
                CV want;
                for (auto v : x) {
                    want.emplace_back(v, 0.0);
                }
                lossless<CV>(t, x, want);
            }
            if (t == D::HELICS_COMPLEX && x.size() == 2) {
                lossless<C>(t, x, C{x[0], x[1]});
            }
            if (t == D::HELICS_DOUBLE) {
                double n = 0;
                for (auto v : x) {
                    n += v * v;
                }
                lossless<double>(t, x, x.size() == 1 ? x[0] : std::sqrt(n));
            }
            if (t == D::HELICS_BOOL) {
                double n = 0;
                for (auto v : x) {
                    n += v * v;
                }
                lossless<bool>(t, x, x.size() == 1 ? x[0] != 0.0 : n != 0.0);
            }
            break;
        }
        case 4: {
            auto x = cvec(s);
            s.note("complex vector ", show(x), " as ", typeNameStringRef(t));
            if (in({D::HELICS_COMPLEX_VECTOR, D::HELICS_STRING, D::HELICS_NAMED_POINT})) {
                lossless<CV>(t, x, x);
            }
            if (t == D::HELICS_VECTOR) {
                bool one = x.size() == 1 && x[0].imag() == 0.0;
                V want;
                for (auto& v : x) {
                    want.push_back(v.real());
                    if (!one) {
                        want.push_back(v.imag());
                    }
                }
                lossless<V>(t, x, want);
                lossless<CV>(t, x, x);
            }
            if (t == D::HELICS_COMPLEX && x.size() == 1) {
                lossless<C>(t, x, x[0]);
            }
            break;
        }
        case 5: {
            auto x = text(s);
            s.note("string ", show(x), " as ", typeNameStringRef(t));
            if (in({D::HELICS_STRING, D::HELICS_CHAR, D::HELICS_NAMED_POINT})) {
                lossless<std::string>(t, std::string_view(x), x);
            }
            if (t == D::HELICS_BOOL) {
                lossless<bool>(t, std::string_view(x), helicsBoolValue(x));
            }
            break;
        }
        case 6: {
            auto x = point(s);
            s.note("named point ", show(x), " as ", typeNameStringRef(t));
            if (in({D::HELICS_NAMED_POINT}) || (t == D::HELICS_STRING && !x.name.empty())) {
                lossless<NamedPoint>(t, x, x);
            }
            if (in({D::HELICS_DOUBLE, D::HELICS_COMPLEX, D::HELICS_VECTOR, D::HELICS_COMPLEX_VECTOR, D::HELICS_NAMED_POINT})) {
                lossless<double>(t, x, x.value);
            }
            REQUIRE("field", bytes(typeConvert(t, x)) == bytes(typeConvert(t, std::string_view(x.name), x.value)), "name and value sent separately as ",
                    typeNameStringRef(t), " differ from the named point");
            break;
        }
        case 7: {
            auto x = s.boolean();
            s.note("bool ", x, " as ", typeNameStringRef(t));
            if (t != D::HELICS_TIME) {
                lossless<bool>(t, x, x);
            }
            break;
        }
        default: {
            Time x;
            x.setBaseTimeCode(s.boolean() ? s.int64() : s.range<std::int64_t>(-2000000000000, 2000000000000));
            s.note("time ", show(x), " as ", typeNameStringRef(t));
            if (in({D::HELICS_TIME, D::HELICS_INT, D::HELICS_STRING})) {
                lossless<Time>(t, x, x);
            }
            if (t == D::HELICS_NAMED_POINT && std::abs(static_cast<double>(x.getBaseTimeCode())) < 4.5e15) {
                lossless<Time>(t, x, x);
            }
            if (in({D::HELICS_DOUBLE, D::HELICS_COMPLEX, D::HELICS_VECTOR, D::HELICS_COMPLEX_VECTOR}) && !J &&
                std::abs(static_cast<double>(x.getBaseTimeCode())) < 4.5e15) {
                lossless<Time>(t, x, x);
                lossless<double>(t, x, static_cast<double>(x));
            }
            break;
        }
    }
}
PROP(rawComplex, 1)
{
    // a complex vector given as interleaved doubles means the same as the vector itself
    auto t = s.pick(sendTypes);
    auto x = cvec(s);
    s.note(show(x), " as ", typeNameStringRef(t));
    V flat;
    for (auto& v : x) {
        flat.push_back(v.real());
        flat.push_back(v.imag());
    }
    if (x.size() > 1) {
        s.nontrivial();
    }
    auto a = typeConvert(t, x);
    auto b = typeConvertComplex(t, flat.data(), x.size());
    if (t == DataType::HELICS_DOUBLE && x.size() > 1) {
        auto da = ValueConverter<double>::interpret(a);
        auto db = ValueConverter<double>::interpret(b);
        REQUIRE("raw-complex", eqd(da, db) || std::abs(da - db) <= 1e-12 * std::abs(da), da, " and ", db);
    } else if (t == DataType::HELICS_INT || t == DataType::HELICS_TIME) {
        auto da = static_cast<double>(ValueConverter<std::int64_t>::interpret(a));
        auto db = static_cast<double>(ValueConverter<std::int64_t>::interpret(b));
        REQUIRE("raw-complex", std::abs(da - db) <= 1 + 1e-12 * std::abs(da), da, " and ", db);
    } else {
        REQUIRE("raw-complex", bytes(a) == bytes(b), "as ", typeNameStringRef(t), " encodes as ", pbt::hex(bytes(b)), " not ", pbt::hex(bytes(a)));
    }
}
namespace {
defV anyValue(pbt::Src& s)
{
    switch (s.draw(7)) {
        case 0:
            return norm(s.dbl());
        case 1:
            return s.int64();
        case 2:
            return text(s);
        case 3:
            return cplx(s);
        case 4:
            return vec(s, 6);
        case 5:
            return cvec(s, 5);
        default:
            return point(s);
    }
}
const DataType own[] = {DataType::HELICS_DOUBLE,
                        DataType::HELICS_INT,
                        DataType::HELICS_STRING,
                        DataType::HELICS_COMPLEX,
                        DataType::HELICS_VECTOR,
                        DataType::HELICS_COMPLEX_VECTOR,
                        DataType::HELICS_NAMED_POINT};
std::string show(const defV& v)
{
    return std::visit([](auto& x) { return show(x); }, v);
}
template<class X>
void sameExtract(const defV& v, const char* what)
{
    // reading a stored value as X is the same as reading its encoding as X
    auto t = own[v.index()];
    auto b = typeConvertDefV(v);
    X a{};
    X c{};
    bool ta = false;
    bool tc = false;
    try {
        valueExtract(v, a);
    }
    catch (const std::exception&) {
        ta = true;
    }
    try {
        valueExtract(data_view(b), t, c);
    }
    catch (const std::exception&) {
        tc = true;
    }
    REQUIRE("throw", !ta && !tc, what, " from ", typeNameStringRef(t), " ", show(v), " throws (stored ", ta, ", encoded ", tc, ")");
    if (v.index() == 2 && std::is_same_v<X, C>) {
        return;  // which invalid value malformed text gives is not specified
    }
    REQUIRE("stored", eq(a, c), what, " from ", typeNameStringRef(t), " ", show(v), ": the stored value reads as ", show(a), ", the encoded one as ", show(c));
    if (v.index() != 2) {
        X d{};
        valueExtract(data_view(b), DataType::HELICS_ANY == t ? t : t, d);
    }
}
}  // namespace
PROP(stored, 4)
{
    auto v = anyValue(s);
    s.note(typeNameStringRef(own[v.index()]), " ", show(v));
    if (v.index() >= 2) {
        s.nontrivial();
    }
    auto b = typeConvertDefV(v);
    defV back;
    valueExtract(data_view(b), s.boolean() ? own[v.index()] : DataType::HELICS_ANY, back);
    REQUIRE("variant", back.index() == v.index() && show(back) == show(v), "the variant comes back as ", show(back), " not ", show(v));
    auto t = s.pick(sendTypes);
    auto e1 = typeConvertDefV(t, v);
    auto e2 = std::visit(
        [&](auto& x) {
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) {
                return typeConvert(t, std::string_view(x));
            } else {
                return typeConvert(t, x);
            }
        },
        v);
    REQUIRE("variant", bytes(e1) == bytes(e2), "the variant converts differently from its value");
    auto mag = [&] {
        switch (v.index()) {
            case 0:
                return std::get<double>(v);
            case 3: {
                auto c = std::get<C>(v);
                return c.imag() == 0.0 ? c.real() : std::abs(c);
            }
            case 4:
                return std::get<V>(v).size() == 1 ? std::get<V>(v)[0] : vectorNorm(std::get<V>(v));
            case 5: {
                auto& cv = std::get<CV>(v);
                return cv.size() == 1 ? std::abs(cv[0]) : vectorNorm(cv);
            }
            case 6:
                return std::get<NamedPoint>(v).value;
            default:
                return 0.0;
        }
    }();
    switch (s.draw(9)) {
        case 0:
            if (v.index() != 2) {
                sameExtract<double>(v, "double");
            }
            break;
        case 1:
            if (v.index() != 2 && std::abs(mag) < 9e18) {
                sameExtract<std::int64_t>(v, "int");
            }
            break;
        case 2:
            if (v.index() == 0) {  // fixed notation, as HELICS's own type tests have it
                std::string a;
                valueExtract(v, a);
                REQUIRE("stored", a == std::to_string(std::get<double>(v)), "a stored ", show(v), " reads as ", a);
            } else {
                sameExtract<std::string>(v, "string");
            }
            break;
        case 3:
            sameExtract<C>(v, "complex");
            break;
        case 4:
            sameExtract<V>(v, "vector");
            break;
        case 5:
            sameExtract<CV>(v, "complex vector");
            break;
        case 6:
            sameExtract<NamedPoint>(v, "named point");
            break;
        case 7:
            sameExtract<bool>(v, "bool");
            break;
        default:
            if (std::abs(mag) < 9e9 && v.index() != 2) {
                sameExtract<Time>(v, "time");
            }
    }
    // converting the variant in place
    auto w = v;
    auto nt = s.pick(std::vector<DataType>(std::begin(own), std::end(own)));
    if (nt == DataType::HELICS_INT && (v.index() == 2 || !(std::abs(mag) < 9e18))) {
        return;
    }
    valueConvert(w, nt);
    REQUIRE("in-place", own[w.index()] == nt, "converted to ", typeNameStringRef(own[w.index()]), " not ", typeNameStringRef(nt));
    if (nt == own[v.index()]) {
        REQUIRE("in-place", show(w) == show(v), "converting to its own type changed ", show(v), " into ", show(w));
    }
}
PROP(numbersFromText, 2)
{
    // documented: text that is not a number becomes the invalid value; complex text in its usual spellings
    auto r = s.dbl();
    auto i = s.dbl();
    std::ostringstream o;
    o.precision(17);
    int f = static_cast<int>(s.draw(5));
    auto pos = [](double v) { return std::abs(v); };
    C want{r, i};
    switch (f) {
        case 0:
            o << r << (i < 0 || std::signbit(i) ? "-" : "+") << pos(i) << (s.boolean() ? "j" : "i");
            break;
        case 1:
            o << r << " " << (i < 0 || std::signbit(i) ? "-" : "+") << " " << pos(i) << "j";
            break;
        case 2:
            o << i << "j";
            want = {0.0, i};
            break;
        case 3:
            o << "[" << r << "," << (s.boolean() ? " " : "") << i << "]";
            break;
        default:
            o << " " << r << " ";
            want = {r, 0.0};
            break;
    }
    if (std::abs(r) < 1e-300 && r != 0) {
        throw pbt::Discard{};  // text of denormals is out of range for strtod
    }
    if (std::abs(i) < 1e-300 && i != 0) {
        throw pbt::Discard{};
    }
    auto t = o.str();
    s.note(t);
    s.nontrivial();
    REQUIRE("complex-text", eq(helicsGetComplex(t), want), t, " is read as ", show(helicsGetComplex(t)), " not ", show(want));
    auto bad = s.str(10, "abdfghklmnopqrstuwxyz_");  // no number, none of v c [ i j e
    if (!bad.empty() && bad != "nan" && bad.substr(0, 3) != "nan") {
        REQUIRE("invalid", getDoubleFromString(bad) == invalidDouble, bad, " is read as ", getDoubleFromString(bad));
        REQUIRE("invalid", eq(helicsGetComplex(bad), C(invalidDouble, 0.0)), bad, " is read as ", show(helicsGetComplex(bad)));
        auto b = typeConvert(DataType::HELICS_DOUBLE, std::string_view(bad));
        REQUIRE("invalid", ValueConverter<double>::interpret(b) == invalidDouble, bad, " is converted to another number");
    }
}
PROP(change, 2)
{
    auto v = anyValue(s);
    auto delta = s.pick({0.0, 0.1, 1.0, 5.0});
    s.note(show(v), " delta ", delta);
    s.nontrivial();
    std::visit(
        [&](auto& x) {
            using X = std::decay_t<decltype(x)>;
            REQUIRE("unchanged", !changeDetected(v, x, delta), "a value differs from itself");
            if constexpr (std::is_same_v<X, double>) {
                auto y = s.boolean() ? s.dbl() : x + delta * s.pick({0.5, 1.0, 1.5, 2.0});
                REQUIRE("change", changeDetected(v, y, delta) == (std::abs(x - y) > delta), "change to ", y);
                REQUIRE("change-type", changeDetected(v, std::string("x"), delta) && changeDetected(v, V{y}, delta), "a value of another type is a change");
            } else if constexpr (std::is_same_v<X, std::int64_t>) {
                if (std::abs(static_cast<double>(x)) < 4e18) {
                    auto y = x + static_cast<std::int64_t>(s.draw(9)) - 4;
                    REQUIRE("change", changeDetected(v, y, delta) == (std::abs(static_cast<double>(x - y)) > delta), "change of ", x, " to ", y);
                    REQUIRE("change", changeDetected(v, y != 0, delta) == ((x != 0) != (y != 0)), "change to a bool");
                }
            } else if constexpr (std::is_same_v<X, std::string>) {
                auto y = text(s);
                REQUIRE("change", changeDetected(v, y, delta) == (x != y), "change to ", y);
                REQUIRE("change", changeDetected(v, std::string_view(y), delta) == (x != y), "change to ", y);
            } else if constexpr (std::is_same_v<X, C>) {
                C y{x.real() + s.draw(3) * delta * 0.7, x.imag() + s.draw(3) * delta * 0.7};
                REQUIRE("change", changeDetected(v, y, delta) == (std::abs(x.real() - y.real()) > delta || std::abs(x.imag() - y.imag()) > delta), "change to ", show(y));
            } else if constexpr (std::is_same_v<X, V>) {
                auto y = x;
                bool want = false;
                for (std::size_t i = 0; i < y.size(); ++i) {
                    y[i] += s.draw(3) * delta * 0.7;
                    want = want || std::abs(x[i] - y[i]) > delta;
                }
                auto extra = s.chance(1, 4);
                if (extra) {
                    y.push_back(0.0);
                    want = true;
                }
                REQUIRE("change", changeDetected(v, y, delta) == want, "change to ", show(y));
                REQUIRE("change", changeDetected(v, y.data(), y.size(), delta) == want, "change to ", show(y));
            } else if constexpr (std::is_same_v<X, CV>) {
                auto y = x;
                bool want = false;
                for (std::size_t i = 0; i < y.size(); ++i) {
                    y[i] += C{s.draw(3) * delta * 0.7, 0.0};
                    want = want || std::abs(x[i] - y[i]) > delta;
                }
                if (s.chance(1, 4)) {
                    y.push_back(0.0);
                    want = true;
                }
                REQUIRE("change", changeDetected(v, y, delta) == want, "change to ", show(y));
            } else {
                NamedPoint y(s.boolean() ? x.name : text(s), x.value + s.draw(3) * delta * 0.7);
                REQUIRE("change", changeDetected(v, y, delta) == (x.name != y.name || std::abs(x.value - y.value) > delta), "change to ", show(y));
            }
        },
        v);
}
PROP(points, 1)
{
    NamedPoint a(s.pick({"a", "b", "c", ""}), static_cast<double>(s.range(-2, 2)));
    NamedPoint b(s.pick({"a", "b", "c", ""}), static_cast<double>(s.range(-2, 2)));
    NamedPoint c(s.pick({"a", "b", "c", ""}), static_cast<double>(s.range(-2, 2)));
    s.note(show(a), show(b), show(c));
    s.nontrivial();
    bool lt = a.name == b.name ? a.value < b.value : a.name < b.name;
    REQUIRE("point-order", (a == b) == (a.name == b.name && a.value == b.value) && (a != b) == !(a == b), "equality");
    REQUIRE("point-order", (a < b) == lt && (b > a) == lt, show(a), " < ", show(b), " is ", a < b);
    REQUIRE("point-order", !(a < b && b < c) || a < c, "not transitive");
}
PROP(typeNames, 1)
{
    auto t = s.pick(sendTypes);
    REQUIRE("names", getTypeFromString(typeNameStringRef(t)) == t, typeNameStringRef(t), " is ", static_cast<int>(getTypeFromString(typeNameStringRef(t))));
    REQUIRE("names", getCleanedTypeName(typeNameStringRef(t)) == typeNameStringRef(t), "cleaned name of ", typeNameStringRef(t));
    REQUIRE("names", typeNameString<double>() == typeNameStringRef(helicsType<double>()), "double");
    REQUIRE("names", typeNameString<std::int64_t>() == typeNameStringRef(helicsType<std::int64_t>()), "int");
    REQUIRE("names", typeNameString<C>() == typeNameStringRef(helicsType<C>()), "complex");
    REQUIRE("names", typeNameString<V>() == typeNameStringRef(helicsType<V>()), "vector");
    REQUIRE("names", typeNameString<CV>() == typeNameStringRef(helicsType<CV>()), "complex vector");
    REQUIRE("names", typeNameString<NamedPoint>() == typeNameStringRef(helicsType<NamedPoint>()), "named point");
    REQUIRE("names", typeNameString<bool>() == typeNameStringRef(helicsType<bool>()), "bool");
}
PBT_MAIN("the value is structured (complex, vector, named point, text) or is converted to another type", 60)
