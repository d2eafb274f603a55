// C10: text and bytes that are no proper value are read without harm.
#include "helics/application_api/HelicsPrimaryTypes.hpp"
#include "helics/application_api/ValueConverter.hpp"
#include "helics/application_api/helicsTypes.hpp"
#include "helics/common/JsonProcessingFunctions.hpp"
#include "helics/common/TomlProcessingFunctions.hpp"
#include "gmlc/utilities/timeStringOps.hpp"

#include <memory>

#include "pbt.hpp"

using namespace helics;
using C = std::complex<double>;
using V = std::vector<double>;
using CV = std::vector<C>;
namespace {
// text close to the grammars of the parsers
std::string text(pbt::Src& s)
{
    std::string t;
    switch (s.draw(6)) {
        case 0:
            return s.bytes(40);
        case 1:
            return s.str(24, "0123456789.eE+-jiv[]c,; ");
        default:
            break;
    }
    auto n = s.size(12);
    for (std::size_t i = 0; i < n; ++i) {
        t += s.pick({"[", "]", ",", ";", "v", "c", "v3", "c2", "v2[", "c-1[", "1", "2.5", "-3e7", "1e400", "-1e-400", "j", "i", "+", "-", " ", "{", "}", ":", "\"",
                     "\"value\":", "\"name\":", "\"type\":", "\"double\"", "\"vector\"", "\"complex\"", "\"complex_vector\"", "\"named_point\"", "\"string\"", "\"int64\"", "\"bool\"", "\"time\"", "\"json\"", "nan", "inf", "true", "null",
                     "99999999999999999999", "v2147483648[", "v99999999[", "[[", "]]", "1+2j", "3-4i", "\\u12", "ms", "\n", "//", "/*", "#"});
    }
    return t;
}
// a valid piece of text with a few characters changed
std::string mutated(pbt::Src& s)
{
    std::string t;
    switch (s.draw(6)) {
        case 0:
            t = helicsComplexString(s.dbl(), s.dbl());
            break;
        case 1:
            t = "v" + std::to_string(s.draw(5)) + helicsVectorString(V{s.dbl(), s.dbl(), s.dbl()});
            break;
        case 2:
            t = (s.boolean() ? "c" : "") + helicsComplexVectorString(CV{{s.dbl(), s.dbl()}, {s.dbl(), 0.0}});
            break;
        case 3:
            t = helicsNamedPointString("na me", s.dbl());
            break;
        case 4: {
            auto types = {DataType::HELICS_DOUBLE, DataType::HELICS_COMPLEX_VECTOR, DataType::HELICS_VECTOR, DataType::HELICS_STRING, DataType::HELICS_NAMED_POINT, DataType::HELICS_COMPLEX, DataType::HELICS_BOOL};
            t = std::string("{\"type\":\"") + typeNameStringRef(s.pick(types)) + "\",\"value\":" + s.pick({"1", "[1,2,3]", "[]", "\"x\"", "null", "{}", "[[1,2],[3]]", "true"}) + "}";
            break;
        }
        default:
            t = "c[1.5+2j, -3e5-4.5e-3i,7]";
    }
    auto k = s.draw(4);
    for (std::uint64_t i = 0; i < k && !t.empty(); ++i) {
        auto p = s.draw(t.size());
        switch (s.draw(4)) {
            case 0:
                t.erase(p, 1 + s.draw(4));
                break;
            case 1:
                t.insert(p, 1, "[],;+-.eEjiv\"{}: 0"[s.draw(18)]);
                break;
            case 2:
                t.resize(p);
                break;
            default:
                t.insert(p, t.substr(0, s.draw(20)));
        }
    }
    return t;
}
// runs f; only the exceptions listed as documented are fine
template<class F>
void calm(const char* what, const std::string& t, F f)
{
    try {
        f();
    }
    catch (const std::exception& e) {
        FAIL("throws", what, " throws ", e.what(), " for ", pbt::hex(t), " ", t.substr(0, 100));
    }
}
const std::vector<DataType> all{DataType::HELICS_UNKNOWN, DataType::HELICS_STRING,         DataType::HELICS_DOUBLE,      DataType::HELICS_INT,  DataType::HELICS_COMPLEX,
                                DataType::HELICS_VECTOR,  DataType::HELICS_COMPLEX_VECTOR, DataType::HELICS_NAMED_POINT, DataType::HELICS_BOOL, DataType::HELICS_TIME,
                                DataType::HELICS_CHAR,    DataType::HELICS_JSON,           DataType::HELICS_ANY};
}  // namespace
PROP(parsers, 6)
{
    auto t = s.boolean() ? text(s) : mutated(s);
    s.note(t);
    if (t.size() > 2) {
        s.nontrivial();
    }
    std::unique_ptr<char[]> exact(new char[t.size() + (t.empty() ? 1 : 0)]);
    std::copy(t.begin(), t.end(), exact.get());
    std::string_view v(exact.get(), t.size());
    calm("helicsGetComplex", t, [&] { helicsGetComplex(v); });
    calm("helicsGetVector", t, [&] {
        auto r = helicsGetVector(v);
        REQUIRE("bounded", r.size() <= t.size() + 2, r.size(), " elements from ", t.size(), " characters");
        V used(7, 1.0);
        helicsGetVector(v, used);
        REQUIRE("used", used.size() == r.size(), "reading into a used vector gives ", used.size(), " elements, not ", r.size());
    });
    calm("helicsGetComplexVector", t, [&] {
        auto r = helicsGetComplexVector(v);
        REQUIRE("bounded", r.size() <= t.size() + 2, r.size(), " elements from ", t.size(), " characters");
        CV used(3, 1.0);
        helicsGetComplexVector(v, used);
        REQUIRE("used", used.size() == r.size(), "reading into a used vector gives ", used.size(), " elements, not ", r.size());
    });
    calm("helicsGetNamedPoint", t, [&] { helicsGetNamedPoint(v); });
    calm("getIntFromString", t, [&] { getIntFromString(v); });
    calm("getDoubleFromString", t, [&] { getDoubleFromString(v); });
    calm("getComplexFromString", t, [&] { getComplexFromString(v); });
    calm("helicsBoolValue", t, [&] { helicsBoolValue(v); });
    calm("getTypeFromString", t, [&] {
        getTypeFromString(v);
        getCleanedTypeName(v);
    });
    for (auto ty : {s.pick(all), s.pick(all)}) {
        calm("typeConvert", t, [&] {
            auto b = typeConvert(ty, v);
            defV d;
            valueExtract(data_view(b), ty, d);
            for (auto to : all) {
                auto w = d;
                valueConvert(w, to);
            }
        });
    }
}
namespace {
template<class X>
void extract(const std::string& b, DataType t)
{
    X x{};
    std::unique_ptr<char[]> exact(new char[b.size() + (b.empty() ? 1 : 0)]);
    std::copy(b.begin(), b.end(), exact.get());
    calm("valueExtract", b, [&] { valueExtract(data_view(exact.get(), b.size()), t, x); });
}
}  // namespace
PROP(bytes, 4)
{
    // any bytes at all, read as any type into any type
    std::string b;
    switch (s.draw(4)) {
        case 0:
            b = s.bytes(50);
            break;
        case 1:
            b = text(s);
            break;
        default: {
            // an encoded value, cut or with a changed header
            switch (s.draw(5)) {
                case 0:
                    b = typeConvert(DataType::HELICS_VECTOR, V{1.0, 2.0, 3.0}).to_string();
                    break;
                case 1:
                    b = typeConvert(DataType::HELICS_COMPLEX_VECTOR, CV{{1.0, 2.0}, {3.0, 0.0}}).to_string();
                    break;
                case 2:
                    b = typeConvert(DataType::HELICS_NAMED_POINT, NamedPoint("name", s.boolean() ? 3.0 : std::nan("0"))).to_string();
                    break;
                case 3:
                    b = typeConvert(DataType::HELICS_STRING, std::string_view("hello there")).to_string();
                    break;
                default:
                    b = typeConvert(DataType::HELICS_DOUBLE, s.dbl()).to_string();
            }
            if (s.boolean()) {
                b.resize(s.draw(b.size() + 1));
            }
            if (s.boolean() && !b.empty()) {
                auto at = s.draw(std::min<std::size_t>(b.size(), 8));
                b[at] = static_cast<char>(s.pick({0, 1, 2, 5, 255, 128, 127, 0x50, 0x6C, 0x62, 0xAE, 0x0E, 0x12, 0xB0, 0xB1, 0x6D}));
            }
            s.nontrivial();
        }
    }
    auto t = s.pick(all);
    s.note(typeNameStringRef(t), " ", pbt::hex(b));
    switch (s.draw(10)) {
        case 0:
            extract<double>(b, t);
            break;
        case 1:
            extract<std::int64_t>(b, t);
            break;
        case 2:
            extract<std::string>(b, t);
            break;
        case 3:
            extract<C>(b, t);
            break;
        case 4:
            extract<V>(b, t);
            break;
        case 5:
            extract<CV>(b, t);
            break;
        case 6:
            extract<NamedPoint>(b, t);
            break;
        case 7:
            extract<bool>(b, t);
            break;
        case 8:
            extract<char>(b, t);
            break;
        default:
            extract<Time>(b, t);
            extract<defV>(b, t);
    }
}
PROP(times, 2)
{
    // text of a time: a number and a unit
    static const std::vector<std::pair<std::string, double>> units{{"", 1.0}, {"s", 1.0}, {"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}, {"min", 60.0}, {"hr", 3600.0}, {"day", 86400.0}};
    auto u = s.pick(units);
    auto n = s.range(-100000, 100000);
    auto t = std::to_string(n) + (s.boolean() ? " " : "") + u.first;
    s.note(t);
    s.nontrivial();
    auto r = gmlc::utilities::loadTimeFromString<Time>(t);
    REQUIRE("time", std::abs(static_cast<double>(r) - n * u.second) <= 1e-9 + std::abs(n * u.second) * 1e-12, t, " is read as ", static_cast<double>(r));
}
PROP(documents, 2)
{
    auto t = s.boolean() ? text(s) : mutated(s);
    s.note(t);
    if (t.size() > 4) {
        s.nontrivial();
    }
    calm("looksLikeConfigJson", t, [&] {
        fileops::looksLikeConfigJson(t);
        fileops::hasJsonExtension(t);
        fileops::hasTomlExtension(t);
        fileops::looksLikeConfigToml(t);
    });
    try {
        auto j = fileops::loadJsonStr(t);
        s.tag("json");
        auto again = fileops::loadJsonStr(fileops::generateJsonString(j));
        REQUIRE("json-text", again == j, "JSON text differs when written and read");
    }
    catch (const std::invalid_argument&) {
    }
    catch (const nlohmann::json::exception& e) {
        s.tag(e.what());
    }
}
PBT_MAIN("text of more than two characters, or an altered encoding of a value", 30)
