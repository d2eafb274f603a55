// C25: every method of the C++98 interface is the C function of the same purpose, with the same arguments,
// results and errors, and its objects own what they refer to.
#include "helics/cpp98/Broker.hpp"
#include "helics/cpp98/CombinationFederate.hpp"
#include "helics/cpp98/Core.hpp"
#include "helics/cpp98/helics.hpp"

#include <memory>
#include <optional>

#include "capimock/mock.hpp"
#include "pbt.hpp"
using namespace helicscpp;
namespace {
struct A {
    std::string s1, s2, s3;
    int i1, i2, i3;
    std::int64_t l;
    double d1, d2;
    bool b;
    char ch;
    std::complex<double> c;
    std::vector<double> vd;
    std::vector<std::complex<double>> vc;
    std::vector<char> vb;
    HelicsIterationRequest it;
    HelicsSequencingModes sq;
    HelicsDataTypes dt;
    HelicsFilterTypes ft;
    const char* c1() const { return s1.c_str(); }
    const char* c2() const { return s2.c_str(); }
    const char* c3() const { return s3.c_str(); }
    int B() const { return b ? HELICS_TRUE : HELICS_FALSE; }
};
A args(pbt::Src& s)
{
    A a;
    auto str = [&] { return s.chance(1, 12) ? std::string(20 + s.draw(60), 'x') : s.str(8, "abcXYZ/_-. 0129\"{}\x80"); };
    a.s1 = str();
    a.s2 = str();
    a.s3 = str();
    a.i1 = s.range(-3, 300);
    a.i2 = s.range(-70000, 70000);
    a.i3 = s.int32();
    a.l = s.int64();
    a.d1 = s.dbl();
    a.d2 = s.dbl();
    a.b = s.boolean();
    a.ch = static_cast<char>(s.draw(256));
    a.c = {s.dbl(), s.dbl()};
    a.vd.resize(s.draw(5));
    for (auto& x : a.vd) {
        x = s.dbl();
    }
    a.vc.resize(s.draw(5));
    for (auto& x : a.vc) {
        x = {s.dbl(), s.dbl()};
    }
    auto bs = s.bytes(12);
    a.vb.assign(bs.begin(), bs.end());
    a.it = s.pick({HELICS_ITERATION_REQUEST_NO_ITERATION, HELICS_ITERATION_REQUEST_FORCE_ITERATION, HELICS_ITERATION_REQUEST_ITERATE_IF_NEEDED});
    a.sq = s.pick({HELICS_SEQUENCING_MODE_FAST, HELICS_SEQUENCING_MODE_ORDERED, HELICS_SEQUENCING_MODE_DEFAULT});
    a.dt = s.pick({HELICS_DATA_TYPE_STRING, HELICS_DATA_TYPE_DOUBLE, HELICS_DATA_TYPE_INT, HELICS_DATA_TYPE_COMPLEX_VECTOR, HELICS_DATA_TYPE_ANY});
    a.ft = s.pick({HELICS_FILTER_TYPE_CUSTOM, HELICS_FILTER_TYPE_DELAY, HELICS_FILTER_TYPE_CLONE, HELICS_FILTER_TYPE_FIREWALL});
    return a;
}
std::string show(const std::string& v) { return "\"" + v + "\""; }
std::string show(const char* v) { return v == nullptr ? "NULL" : "\"" + std::string(v) + "\""; }
std::string show(double v) { return pbt::cat(v); }
std::string show(bool v) { return v ? "1" : "0"; }
std::string show(void* v) { return mock::label(v) == "?" ? pbt::cat(v) : mock::label(v); }
std::string show(const std::complex<double>& v) { return pbt::cat(v.real(), ",", v.imag()); }
std::string show(const HelicsComplex& v) { return pbt::cat(v.real, ",", v.imag); }
std::string show(const std::vector<double>& v)
{
    std::string o;
    for (auto x : v) {
        o += pbt::cat(x, ",");
    }
    return o;
}
std::string show(const std::vector<std::complex<double>>& v)
{
    std::string o;
    for (auto x : v) {
        o += pbt::cat(x.real(), ",", x.imag(), ",");
    }
    return o;
}
std::string show(const HelicsIterationTime& v) { return pbt::cat(v.grantedTime, " ", static_cast<int>(v.status)); }
std::string show(const Input& v) { return show(v.baseObject()); }
std::string show(const Publication& v) { return show(v.baseObject()); }
std::string show(const Endpoint& v) { return show(v.baseObject()); }
std::string show(const Filter& v) { return show(v.baseObject()); }
std::string show(const Message& v) { return show(static_cast<HelicsMessage>(v)); }
std::string show(DataBuffer& v) { return show(v.getHelicsDataBuffer()); }
std::string show(DataBuffer&& v) { return show(v.getHelicsDataBuffer()); }
template<class T>
    requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
std::string show(T v)
{
    return std::to_string(v);
}
template<class T>
    requires(std::is_enum_v<T>)
std::string show(T v)
{
    return std::to_string(static_cast<int>(v));
}
template<class F>
std::string res(F f)
{
    if constexpr (std::is_void_v<decltype(f())>) {
        f();
        return "";
    } else {
        return show(f());
    }
}
// access to the handle of a federate
struct VF: ValueFederate {
    explicit VF(HelicsFederate h) { fed = h; }
};
struct MF: MessageFederate {
    explicit MF(HelicsFederate h) { fed = h; }
};
struct BK: Broker {
    explicit BK(HelicsBroker h) { broker = h; }
};
struct FI: FederateInfo {};
struct Handles {
    HelicsInput in;
    HelicsPublication pub;
    HelicsEndpoint ep;
    HelicsFilter fil;
    HelicsTranslator tr;
    HelicsFederate fed;
    HelicsCore core;
    HelicsBroker brk;
    HelicsMessage msg;
    HelicsDataBuffer buf;
};
Handles handles()
{
    return {mock::make("HelicsInput"), mock::make("HelicsPublication"), mock::make("HelicsEndpoint"), mock::make("HelicsFilter"), mock::make("HelicsTranslator"), mock::make("HelicsFederate"), mock::make("HelicsCore"), mock::make("HelicsBroker"), mock::make("HelicsMessage"), mock::make("HelicsDataBuffer")};
}
struct Out {
    std::vector<std::string> log;
    std::string value;
    bool threw{false};
    int code{0};
    std::string what;
};
struct Row {
    const char* text;
    bool throws;
    Out (*cpp)(A&, std::uint64_t);
    Out (*c)(A&, std::uint64_t);
};
void nothing() {}
HelicsBool sigHandler(int) { return HELICS_TRUE; }
void qcall(const char*, int, HelicsQueryBuffer, void*) {}
void tcall(HelicsTime, HelicsBool, void*) {}
void ecall(HelicsTime, HelicsTime, HelicsBool, void*) {}
void scall(HelicsFederateState, HelicsFederateState, void*) {}
HelicsMessage fcall(HelicsMessage m, void*) { return m; }
int someData = 0;

template<class W, class F>
Out runCpp(std::uint64_t seed, HelicsFederate Handles::* h, F f)
{
    mock::reset(seed);
    auto hs = handles();
    Out o;
    W w(hs.*h);
    try {
        o.value = f(w, hs);
    }
    catch (const HelicsException& e) {
        o.threw = true;
        o.code = e.errorCode();
        o.what = e.what();
    }
    o.log = mock::st.log;
    return o;
}
template<class F>
Out runC(std::uint64_t seed, HelicsFederate Handles::* hp, F f)
{
    mock::reset(seed);
    auto hs = handles();
    Out o;
    HelicsError e{0, ""};
    try {
        o.value = f(hs.*hp, hs, &e);
    }
    catch (const HelicsError& x) {
        (void)x;
    }
    o.code = e.error_code;
    o.what = e.message;
    o.threw = e.error_code != 0;
    o.log = mock::st.log;
    return o;
}
// a text result as the C function delivers it
std::string cstr(void (*get)(void*, char*, int, int*, HelicsError*), int size, void* h, HelicsError* E)
{
    std::vector<char> b(size + 1, 'Z');
    int n = 0;
    get(h, b.data(), size + 1, &n, E);
    if (n > 0 && b[n - 1] == '\0') {
        --n;
    }
    return std::string(b.data(), n);
}
#define ROWX(CLS, H, THR, W, C)                                                                                                                  \
    {#CLS "::" #W,                                                                                                                               \
     THR,                                                                                                                                        \
     [](A& a, std::uint64_t seed) { return runCpp<CLS>(seed, &Handles::H, [&](CLS& w, Handles& hs) { (void)a; (void)hs; return res([&] { W; }); }); }, \
     [](A& a, std::uint64_t seed) {                                                                                                              \
         return runC(seed, &Handles::H, [&](void* h, Handles& hs, HelicsError* E) {                                                              \
             (void)a;                                                                                                                            \
             (void)h;                                                                                                                            \
             (void)hs;                                                                                                                           \
             (void)E;                                                                                                                            \
             return res([&] { C; });                                                                                                             \
         });                                                                                                                                     \
     }}
#define IN(THR, W, C) ROWX(Input, in, THR, return w.W, return C)
#define PB(THR, W, C) ROWX(Publication, pub, THR, return w.W, return C)
#define EPT(THR, W, C) ROWX(Endpoint, ep, THR, return w.W, return C)
#define FL(THR, W, C) ROWX(Filter, fil, THR, return w.W, return C)
#define CF(THR, W, C) ROWX(CloningFilter, fil, THR, return w.W, return C)
#define TR(THR, W, C) ROWX(Translator, tr, THR, return w.W, return C)
#define VFED(THR, W, C) ROWX(VF, fed, THR, return w.W, return C)
#define MFED(THR, W, C) ROWX(MF, fed, THR, return w.W, return C)
#define BRK(THR, W, C) ROWX(BK, brk, THR, return w.W, return C)
#define CORE(THR, W, C) ROWX(Core, core, THR, return w.W, return C)
#define MSG(THR, W, C) ROWX(Message, msg, THR, return w.W, return C)
#define MSGS(THR, W, C) ROWX(Message, msg, THR, w.W, C)
#define BUF(THR, W, C) ROWX(DataBuffer, buf, THR, return w.W, return C)
#define BUFS(THR, W, C) ROWX(DataBuffer, buf, THR, w.W, C)
#define Y true
#define N false
const double* dp(const std::vector<std::complex<double>>& v) { return reinterpret_cast<const double*>(v.data()); }
std::string idx(const std::string& k, int i) { return k + "_" + std::to_string(i); }
std::string idx(const std::string& k, int i, int j) { return k + "_" + std::to_string(i) + "_" + std::to_string(j); }
template<class X>
std::string cquery(X exec, const char* t, const char* q, HelicsSequencingModes m, HelicsError* E)
{
    auto y = helicsCreateQuery(t, q);
    if (m != HELICS_SEQUENCING_MODE_FAST) {
        helicsQuerySetOrdering(y, m, nullptr);
    }
    std::string r = exec(y, E);
    helicsQueryFree(y);
    return r;
}
std::vector<double> cvec(int n, const std::function<void(double*, int, int*)>& f, int per = 1)
{
    std::vector<double> d(static_cast<std::size_t>(n) * per);
    int k = 0;
    f(d.data(), n, &k);
    d.resize(static_cast<std::size_t>(k) * per);
    return d;
}
template<class T, class F>
T into(F f)
{
    T t{};
    f(t);
    return t;
}
// clang-format off
const std::vector<Row> rows{
    // inputs
    IN(N, isValid(), helicsInputIsValid(h) == HELICS_TRUE),
    IN(N, addTarget(a.s1), helicsInputAddTarget(h, a.c1(), nullptr)),
    IN(N, setDefault(a.vb.data(), static_cast<int>(a.vb.size())), helicsInputSetDefaultBytes(h, a.vb.data(), static_cast<int>(a.vb.size()), nullptr)),
    IN(N, setDefault(a.s1), helicsInputSetDefaultString(h, a.c1(), nullptr)),
    IN(N, setDefault(a.l), helicsInputSetDefaultInteger(h, a.l, nullptr)),
    IN(N, setDefault(a.b), helicsInputSetDefaultBoolean(h, a.B(), nullptr)),
    IN(N, setDefault(a.d1), helicsInputSetDefaultDouble(h, a.d1, nullptr)),
    IN(N, setDefault(a.c), helicsInputSetDefaultComplex(h, a.c.real(), a.c.imag(), nullptr)),
    IN(N, setDefault(a.vd), helicsInputSetDefaultVector(h, a.vd.data(), static_cast<int>(a.vd.size()), nullptr)),
    IN(N, setDefault(a.vc), helicsInputSetDefaultComplexVector(h, dp(a.vc), static_cast<int>(a.vc.size()), nullptr)),
    ROWX(Input, in, N, std::vector<char> v; int n = w.getBytes(v); return std::string(v.begin(), v.end()) + std::to_string(n),
         int n = helicsInputGetByteCount(h); std::vector<char> v(n); helicsInputGetBytes(h, v.data(), n, &n, nullptr); return std::string(v.begin(), v.end()) + std::to_string(n)),
    IN(N, getByteCount(), helicsInputGetByteCount(h)),
    IN(N, getStringSize(), helicsInputGetStringSize(h) - 1),
    IN(N, getString(), cstr(helicsInputGetString, helicsInputGetStringSize(h), h, nullptr)),
    ROWX(Input, in, N, std::string t = a.s2; w.getString(t); return t, return cstr(helicsInputGetString, helicsInputGetStringSize(h), h, nullptr)),
    ROWX(Input, in, N, std::string t = a.s2; double v = -1; w.getNamedPoint(t, &v); return t + "=" + pbt::cat(v),
         double v = -1; int n = helicsInputGetStringSize(h); std::vector<char> b(n + 1); helicsInputGetNamedPoint(h, b.data(), n + 1, &n, &v, nullptr); return (n > 0 ? std::string(b.data(), n - 1) : std::string()) + "=" + pbt::cat(v)),
    IN(N, getInteger(), helicsInputGetInteger(h, nullptr)),
    IN(N, getBoolean(), helicsInputGetBoolean(h, nullptr) == HELICS_TRUE),
    IN(N, getDouble(), helicsInputGetDouble(h, nullptr)),
    IN(N, getComplex(), helicsInputGetComplexObject(h, nullptr)),
    ROWX(Input, in, Y, double v[9] = {}; auto n = w.getVector(v, 3); return std::vector<double>(v, v + n), double v[9] = {}; int n = 0; helicsInputGetVector(h, v, 3, &n, E); return std::vector<double>(v, v + n)),
    ROWX(Input, in, Y, std::vector<double> v(a.i1 % 7 + 3); w.getVector(v); return v, return cvec(helicsInputGetVectorSize(h), [&](double* p, int n, int* k) { helicsInputGetVector(h, p, n, k, E); })),
    ROWX(Input, in, Y, double v[9] = {}; auto n = w.getComplexVector(v, 3); return std::vector<double>(v, v + 2 * n), double v[9] = {}; int n = 0; helicsInputGetComplexVector(h, v, 3, &n, E); return std::vector<double>(v, v + 2 * n)),
    ROWX(Input, in, Y, std::vector<std::complex<double>> v(2); w.getComplexVector(v); return v, return cvec(helicsInputGetVectorSize(h), [&](double* p, int n, int* k) { helicsInputGetComplexVector(h, p, n, k, E); }, 2)),
    ROWX(Input, in, Y, return show(w.getDataBuffer()), auto b = helicsInputGetDataBuffer(h, E); auto r = show(b); if (E->error_code == 0) helicsDataBufferFree(b); return r),
    IN(N, isUpdated(), helicsInputIsUpdated(h) == HELICS_TRUE),
    IN(N, getLastUpdateTime(), helicsInputLastUpdateTime(h)),
    IN(N, clearUpdate(), helicsInputClearUpdate(h)),
    IN(N, getName(), helicsInputGetName(h)),
    IN(N, getUnits(), helicsInputGetExtractionUnits(h)),
    IN(N, getInjectionUnits(), helicsInputGetInjectionUnits(h)),
    IN(N, getPublicationType(), helicsInputGetPublicationType(h)),
    IN(N, getType(), helicsInputGetType(h)),
    IN(N, getTarget(), helicsInputGetTarget(h)),
    IN(N, getInfo(), helicsInputGetInfo(h)),
    IN(N, setInfo(a.s1), helicsInputSetInfo(h, a.c1(), nullptr)),
    IN(N, getTag(a.s1), helicsInputGetTag(h, a.c1())),
    IN(N, setTag(a.s1, a.s2), helicsInputSetTag(h, a.c1(), a.c2(), nullptr)),
    IN(N, setOption(a.i1, a.i2), helicsInputSetOption(h, a.i1, a.i2, nullptr)),
    IN(N, setOption(a.i1), helicsInputSetOption(h, a.i1, 1, nullptr)),
    IN(N, getOption(a.i1), helicsInputGetOption(h, a.i1)),
    // publications
    PB(N, isValid(), helicsPublicationIsValid(h) == HELICS_TRUE),
    PB(N, publish(a.vb.data(), static_cast<int>(a.vb.size())), helicsPublicationPublishBytes(h, a.vb.data(), static_cast<int>(a.vb.size()), nullptr)),
    PB(N, publish(a.c1()), helicsPublicationPublishString(h, a.c1(), nullptr)),
    PB(N, publish(a.s1), helicsPublicationPublishString(h, a.c1(), nullptr)),
    PB(N, publish(a.l), helicsPublicationPublishInteger(h, a.l, nullptr)),
    PB(N, publish(a.d1), helicsPublicationPublishDouble(h, a.d1, nullptr)),
    PB(N, publish(a.c), helicsPublicationPublishComplex(h, a.c.real(), a.c.imag(), nullptr)),
    PB(N, publish(a.vd), helicsPublicationPublishVector(h, a.vd.data(), static_cast<int>(a.vd.size()), nullptr)),
    PB(N, publish(a.vd.data(), static_cast<int>(a.vd.size())), helicsPublicationPublishVector(h, a.vd.data(), static_cast<int>(a.vd.size()), nullptr)),
    PB(N, publish(a.vc), helicsPublicationPublishComplexVector(h, dp(a.vc), static_cast<int>(a.vc.size()), nullptr)),
    PB(N, publishComplex(dp(a.vc), static_cast<int>(a.vc.size())), helicsPublicationPublishComplexVector(h, dp(a.vc), static_cast<int>(a.vc.size()), nullptr)),
    PB(N, publish(a.s1, a.d1), helicsPublicationPublishNamedPoint(h, a.c1(), a.d1, nullptr)),
    PB(N, publish(a.b), helicsPublicationPublishBoolean(h, a.B(), nullptr)),
    ROWX(Publication, pub, Y, DataBuffer b(hs.buf); try { w.publish(b); } catch (...) { mock::st.log.push_back("end"); throw; } mock::st.log.push_back("end"), helicsPublicationPublishDataBuffer(h, hs.buf, E); mock::st.log.push_back("end"); helicsDataBufferFree(hs.buf)),
    PB(N, getName(), helicsPublicationGetName(h)),
    PB(N, getUnits(), helicsPublicationGetUnits(h)),
    PB(N, getType(), helicsPublicationGetType(h)),
    PB(N, getInfo(), helicsPublicationGetInfo(h)),
    PB(N, setInfo(a.s1), helicsPublicationSetInfo(h, a.c1(), nullptr)),
    PB(N, getTag(a.s1), helicsPublicationGetTag(h, a.c1())),
    PB(N, setTag(a.s1, a.s2), helicsPublicationSetTag(h, a.c1(), a.c2(), nullptr)),
    PB(N, setOption(a.i1, a.i2), helicsPublicationSetOption(h, a.i1, a.i2, nullptr)),
    PB(N, setOption(a.i1), helicsPublicationSetOption(h, a.i1, 1, nullptr)),
    PB(N, getOption(a.i1), helicsPublicationGetOption(h, a.i1)),
    // endpoints
    EPT(N, isValid(), helicsEndpointIsValid(h) == HELICS_TRUE),
    EPT(N, hasMessage(), helicsEndpointHasMessage(h) == HELICS_TRUE),
    EPT(Y, setDefaultDestination(a.s1), helicsEndpointSetDefaultDestination(h, a.c1(), E)),
    EPT(N, getDefaultDestination(), helicsEndpointGetDefaultDestination(h)),
    EPT(N, pendingMessageCount(), helicsEndpointPendingMessageCount(h)),
    ROWX(Endpoint, ep, N, auto m = w.getMessage(); return show(m), auto m = helicsEndpointGetMessage(h); auto r = show(m); helicsMessageFree(m); return r),
    ROWX(Endpoint, ep, Y, auto m = w.createMessage(); return show(m), auto m = helicsEndpointCreateMessage(h, E); auto r = show(m); if (m != nullptr) helicsMessageFree(m); return r),
    EPT(Y, send(a.vb.data(), a.vb.size()), helicsEndpointSendBytes(h, a.vb.data(), static_cast<int>(a.vb.size()), E)),
    EPT(Y, sendTo(a.vb.data(), a.vb.size(), a.s1), helicsEndpointSendBytesTo(h, a.vb.data(), static_cast<int>(a.vb.size()), a.c1(), E)),
    EPT(Y, sendAt(a.vb.data(), a.vb.size(), a.d1), helicsEndpointSendBytesAt(h, a.vb.data(), static_cast<int>(a.vb.size()), a.d1, E)),
    EPT(Y, sendToAt(a.vb.data(), a.vb.size(), a.s1, a.d1), helicsEndpointSendBytesToAt(h, a.vb.data(), static_cast<int>(a.vb.size()), a.c1(), a.d1, E)),
    EPT(Y, send(a.s2), helicsEndpointSendBytes(h, a.c2(), static_cast<int>(a.s2.size()), E)),
    EPT(Y, sendTo(a.s2, a.s1), helicsEndpointSendBytesTo(h, a.c2(), static_cast<int>(a.s2.size()), a.c1(), E)),
    EPT(Y, sendAt(a.s2, a.d1), helicsEndpointSendBytesAt(h, a.c2(), static_cast<int>(a.s2.size()), a.d1, E)),
    EPT(Y, sendToAt(a.s2, a.s1, a.d1), helicsEndpointSendBytesToAt(h, a.c2(), static_cast<int>(a.s2.size()), a.c1(), a.d1, E)),
    EPT(Y, send(a.vb), helicsEndpointSendBytes(h, a.vb.data(), static_cast<int>(a.vb.size()), E)),
    EPT(Y, sendTo(a.vb, a.s1), helicsEndpointSendBytesTo(h, a.vb.data(), static_cast<int>(a.vb.size()), a.c1(), E)),
    EPT(Y, sendAt(a.vb, a.d1), helicsEndpointSendBytesAt(h, a.vb.data(), static_cast<int>(a.vb.size()), a.d1, E)),
    EPT(Y, sendToAt(a.vb, a.s1, a.d1), helicsEndpointSendBytesToAt(h, a.vb.data(), static_cast<int>(a.vb.size()), a.c1(), a.d1, E)),
    ROWX(Endpoint, ep, Y, Message m(hs.msg); w.sendMessage(m), helicsEndpointSendMessage(h, hs.msg, E); helicsMessageFree(hs.msg)),
    ROWX(Endpoint, ep, Y, Message m(hs.msg); w.sendMessage(std::move(m)), helicsEndpointSendMessageZeroCopy(h, hs.msg, E)),
    ROWX(Endpoint, ep, N, Message m(hs.msg); if (mock::st.failAt < 0) w.sendMessageZeroCopy(m), if (mock::st.failAt < 0) helicsEndpointSendMessageZeroCopy(h, hs.msg, E); else helicsMessageFree(hs.msg)),
    EPT(N, getName(), helicsEndpointGetName(h)),
    EPT(N, getType(), helicsEndpointGetType(h)),
    EPT(N, getInfo(), helicsEndpointGetInfo(h)),
    EPT(N, setInfo(a.s1), helicsEndpointSetInfo(h, a.c1(), nullptr)),
    ROWX(Endpoint, ep, Y, Message m(w); auto r = show(m); (void)m.release(); return r, return show(helicsEndpointCreateMessage(h, E))),
    ROWX(Endpoint, ep, Y, Message m(hs.msg); m.newMessageObject(w); auto r = show(m); (void)m.release(); return r, auto m = helicsEndpointCreateMessage(h, E); helicsMessageFree(hs.msg); return show(m)),
    // filters
    FL(N, isValid(), helicsFilterIsValid(h) == HELICS_TRUE),
    FL(N, getName(), helicsFilterGetName(h)),
    FL(Y, set(a.s1, a.d1), helicsFilterSet(h, a.c1(), a.d1, E)),
    FL(Y, setString(a.s1, a.s2), helicsFilterSetString(h, a.c1(), a.c2(), E)),
    FL(N, getProperty(a.s1), helicsFilterGetPropertyDouble(h, a.c1())),
    FL(N, getString(a.s1), helicsFilterGetPropertyString(h, a.c1())),
    FL(Y, addDestinationTarget(a.s1), helicsFilterAddDestinationTarget(h, a.c1(), E)),
    FL(Y, addSourceTarget(a.s1), helicsFilterAddSourceTarget(h, a.c1(), E)),
    FL(Y, removeTarget(a.s1), helicsFilterRemoveTarget(h, a.c1(), E)),
    FL(N, getInfo(), helicsFilterGetInfo(h)),
    FL(N, setInfo(a.s1), helicsFilterSetInfo(h, a.c1(), nullptr)),
    FL(N, getTag(a.s1), helicsFilterGetTag(h, a.c1())),
    FL(N, setTag(a.s1, a.s2), helicsFilterSetTag(h, a.c1(), a.c2(), nullptr)),
    FL(N, setOption(a.i1, a.i2), helicsFilterSetOption(h, a.i1, a.i2, nullptr)),
    FL(N, setOption(a.i1), helicsFilterSetOption(h, a.i1, 1, nullptr)),
    FL(N, getOption(a.i1), helicsFilterGetOption(h, a.i1)),
    FL(N, setCallback(fcall, &someData), helicsFilterSetCustomCallback(h, fcall, &someData, nullptr)),
    CF(Y, addDeliveryEndpoint(a.s1), helicsFilterAddDeliveryEndpoint(h, a.c1(), E)),
    CF(Y, removeDeliveryEndpoint(a.s1), helicsFilterRemoveDeliveryEndpoint(h, a.c1(), E)),
    CF(Y, addSourceTarget(a.s1), helicsFilterAddSourceTarget(h, a.c1(), E)),
    // translators
    TR(N, isValid(), helicsTranslatorIsValid(h) == HELICS_TRUE),
    TR(N, getName(), helicsTranslatorGetName(h)),
    TR(Y, set(a.s1, a.d1), helicsTranslatorSet(h, a.c1(), a.d1, E)),
    TR(Y, setString(a.s1, a.s2), helicsTranslatorSetString(h, a.c1(), a.c2(), E)),
    TR(Y, addDestinationEndpoint(a.s1), helicsTranslatorAddDestinationEndpoint(h, a.c1(), E)),
    TR(Y, addSourceEndpoint(a.s1), helicsTranslatorAddSourceEndpoint(h, a.c1(), E)),
    TR(Y, addDestinationInput(a.s1), helicsTranslatorAddInputTarget(h, a.c1(), E)),
    TR(Y, addSourcePublication(a.s1), helicsTranslatorAddPublicationTarget(h, a.c1(), E)),
    TR(Y, removeTarget(a.s1), helicsTranslatorRemoveTarget(h, a.c1(), E)),
    TR(N, getInfo(), helicsTranslatorGetInfo(h)),
    TR(N, setInfo(a.s1), helicsTranslatorSetInfo(h, a.c1(), nullptr)),
    TR(N, getTag(a.s1), helicsTranslatorGetTag(h, a.c1())),
    TR(N, setTag(a.s1, a.s2), helicsTranslatorSetTag(h, a.c1(), a.c2(), nullptr)),
    TR(N, setOption(a.i1, a.i2), helicsTranslatorSetOption(h, a.i1, a.i2, nullptr)),
    TR(N, setOption(a.i1), helicsTranslatorSetOption(h, a.i1, 1, nullptr)),
    TR(N, getOption(a.i1), helicsTranslatorGetOption(h, a.i1)),
    // federates
    VFED(Y, setFlagOption(a.i1, a.b), helicsFederateSetFlagOption(h, a.i1, a.B(), E)),
    VFED(Y, setFlagOption(a.i1), helicsFederateSetFlagOption(h, a.i1, HELICS_TRUE, E)),
    VFED(Y, setProperty(a.i1, a.d1), helicsFederateSetTimeProperty(h, a.i1, a.d1, E)),
    VFED(Y, setProperty(a.i1, a.i3), helicsFederateSetIntegerProperty(h, a.i1, a.i3, E)),
    VFED(Y, getFlagOption(a.i1), helicsFederateGetFlagOption(h, a.i1, E) == HELICS_TRUE),
    VFED(Y, getTimeProperty(a.i1), helicsFederateGetTimeProperty(h, a.i1, E)),
    VFED(Y, getIntegerProperty(a.i1), helicsFederateGetIntegerProperty(h, a.i1, E)),
    VFED(N, setSeparator(a.ch), helicsFederateSetSeparator(h, a.ch, nullptr)),
    VFED(Y, registerInterfaces(a.s1), helicsFederateRegisterInterfaces(h, a.c1(), E)),
    VFED(N, getCurrentMode(), helicsFederateGetState(h, nullptr)),
    VFED(N, isAsyncOperationCompleted(), helicsFederateIsAsyncOperationCompleted(h, nullptr) == HELICS_TRUE),
    VFED(Y, enterInitializingMode(), helicsFederateEnterInitializingMode(h, E)),
    VFED(Y, enterInitializingModeAsync(), helicsFederateEnterInitializingModeAsync(h, E)),
    VFED(Y, enterInitializingModeComplete(), helicsFederateEnterInitializingModeComplete(h, E)),
    VFED(Y, enterInitializingModeIterative(), helicsFederateEnterInitializingModeIterative(h, E)),
    VFED(Y, enterInitializingModeIterativeAsync(), helicsFederateEnterInitializingModeIterativeAsync(h, E)),
    VFED(Y, enterInitializingModeIterativeComplete(), helicsFederateEnterInitializingModeIterativeComplete(h, E)),
    ROWX(VF, fed, Y, return w.enterExecutingMode(a.it), if (a.it == HELICS_ITERATION_REQUEST_NO_ITERATION) { helicsFederateEnterExecutingMode(h, E); return HELICS_ITERATION_RESULT_NEXT_STEP; } return helicsFederateEnterExecutingModeIterative(h, a.it, E)),
    VFED(Y, finalize(), helicsFederateFinalize(h, E)),
    VFED(Y, finalizeAsync(), helicsFederateFinalizeAsync(h, E)),
    VFED(Y, finalizeComplete(), helicsFederateFinalizeComplete(h, E)),
    VFED(Y, getCurrentTime(), helicsFederateGetCurrentTime(h, E)),
    VFED(Y, requestTime(a.d1), helicsFederateRequestTime(h, a.d1, E)),
    VFED(Y, requestNextStep(), helicsFederateRequestNextStep(h, E)),
    VFED(Y, requestTimeAdvance(a.d1), helicsFederateRequestTimeAdvance(h, a.d1, E)),
    ROWX(VF, fed, Y, return w.requestTimeIterative(a.d1, a.it), HelicsIterationTime t{}; t.grantedTime = helicsFederateRequestTimeIterative(h, a.d1, a.it, &t.status, E); return t),
    VFED(Y, requestTimeAsync(a.d1), helicsFederateRequestTimeAsync(h, a.d1, E)),
    VFED(Y, requestTimeIterativeAsync(a.d1, a.it), helicsFederateRequestTimeIterativeAsync(h, a.d1, a.it, E)),
    VFED(Y, requestTimeComplete(), helicsFederateRequestTimeComplete(h, E)),
    ROWX(VF, fed, Y, return w.requestTimeIterativeComplete(), HelicsIterationTime t{}; t.grantedTime = helicsFederateRequestTimeIterativeComplete(h, &t.status, E); return t),
    VFED(N, processCommunication(a.d1), helicsFederateProcessCommunications(h, a.d1, nullptr)),
    VFED(N, getName(), helicsFederateGetName(h)),
    VFED(N, protect(), helicsFederateProtect(helicsFederateGetName(h), nullptr)),
    VFED(N, unProtect(), helicsFederateUnProtect(helicsFederateGetName(h), nullptr)),
    VFED(Y, query(a.s1, a.s2, a.sq), cquery([&](auto q, auto e) { return helicsQueryExecute(q, h, e); }, a.c1(), a.c2(), a.sq, E)),
    VFED(Y, query(a.s1, a.s2), cquery([&](auto q, auto e) { return helicsQueryExecute(q, h, e); }, a.c1(), a.c2(), HELICS_SEQUENCING_MODE_FAST, E)),
    VFED(Y, query(a.s2, a.sq), cquery([&](auto q, auto e) { return helicsQueryExecute(q, h, e); }, nullptr, a.c2(), a.sq, E)),
    VFED(Y, query(a.s2), cquery([&](auto q, auto e) { return helicsQueryExecute(q, h, e); }, nullptr, a.c2(), HELICS_SEQUENCING_MODE_FAST, E)),
    VFED(N, sendCommand(a.s1, a.s2), helicsFederateSendCommand(h, a.c1(), a.c2(), nullptr)),
    VFED(N, getCommand(), helicsFederateGetCommand(h, nullptr)),
    VFED(N, waitCommand(), helicsFederateWaitCommand(h, nullptr)),
    VFED(N, getCommandSource(), helicsFederateGetCommandSource(h, nullptr)),
    VFED(Y, setQueryCallback(qcall, &someData), helicsFederateSetQueryCallback(h, qcall, &someData, E)),
    VFED(Y, setTimeRequestEntryCallback(ecall, &someData), helicsFederateSetTimeRequestEntryCallback(h, ecall, &someData, E)),
    VFED(Y, setTimeUpdateCallback(tcall, &someData), helicsFederateSetTimeUpdateCallback(h, tcall, &someData, E)),
    VFED(Y, setStateChangeCallback(scall, &someData), helicsFederateSetStateChangeCallback(h, scall, &someData, E)),
    VFED(Y, setTimeRequestReturnCallback(tcall, &someData), helicsFederateSetTimeRequestReturnCallback(h, tcall, &someData, E)),
    VFED(Y, registerFilter(a.ft, a.s1), helicsFederateRegisterFilter(h, a.ft, a.c1(), E)),
    VFED(Y, registerFilter(a.ft), helicsFederateRegisterFilter(h, a.ft, "", E)),
    VFED(Y, registerCloningFilter(a.s1), helicsFederateRegisterCloningFilter(h, a.c1(), E)),
    VFED(Y, registerGlobalFilter(a.ft, a.s1), helicsFederateRegisterGlobalFilter(h, a.ft, a.c1(), E)),
    VFED(Y, registerGlobalCloningFilter(a.s1), helicsFederateRegisterGlobalCloningFilter(h, a.c1(), E)),
    VFED(N, getFilterCount(), helicsFederateGetFilterCount(h)),
    VFED(Y, getFilter(a.s1), helicsFederateGetFilter(h, a.c1(), E)),
    VFED(Y, getFilter(a.i1), helicsFederateGetFilterByIndex(h, a.i1, E)),
    VFED(Y, setGlobal(a.s1, a.s2), helicsFederateSetGlobal(h, a.c1(), a.c2(), E)),
    VFED(Y, addAlias(a.s1, a.s2), helicsFederateAddAlias(h, a.c1(), a.c2(), E)),
    VFED(Y, setTag(a.s1, a.s2), helicsFederateSetTag(h, a.c1(), a.c2(), E)),
    VFED(Y, getTag(a.s1), helicsFederateGetTag(h, a.c1(), E)),
    VFED(Y, addDependency(a.s1), helicsFederateAddDependency(h, a.c1(), E)),
    VFED(Y, localError(a.i1, a.s1), helicsFederateLocalError(h, a.i1, a.c1(), E)),
    VFED(Y, globalError(a.i1, a.s1), helicsFederateGlobalError(h, a.i1, a.c1(), E)),
    VFED(Y, logErrorMessage(a.s1), helicsFederateLogErrorMessage(h, a.c1(), E)),
    VFED(Y, logWarningMessage(a.s1), helicsFederateLogWarningMessage(h, a.c1(), E)),
    VFED(Y, logInfoMessage(a.s1), helicsFederateLogInfoMessage(h, a.c1(), E)),
    VFED(Y, logDebugMessage(a.s1), helicsFederateLogDebugMessage(h, a.c1(), E)),
    VFED(Y, logMessage(a.i1, a.s1), helicsFederateLogLevelMessage(h, a.i1, a.c1(), E)),
    VFED(Y, getCore(), helicsFederateGetCore(h, E)),
    ROWX(VF, fed, Y, helicscpp::protect(a.s1), helicsFederateProtect(a.c1(), E)),
    ROWX(VF, fed, Y, helicscpp::unProtect(a.s1), helicsFederateUnProtect(a.c1(), E)),
    ROWX(VF, fed, Y, return helicscpp::isProtected(a.s1), return helicsFederateIsProtected(a.c1(), E) == HELICS_TRUE),
    // value federates
    VFED(Y, registerPublication(a.s1, a.s2, a.s3), helicsFederateRegisterTypePublication(h, a.c1(), a.c2(), a.c3(), E)),
    VFED(Y, registerPublication(a.s1, a.s2), helicsFederateRegisterTypePublication(h, a.c1(), a.c2(), "", E)),
    VFED(Y, registerPublication(a.s1, a.dt, a.s3), helicsFederateRegisterPublication(h, a.c1(), a.dt, a.c3(), E)),
    VFED(Y, registerPublication(a.s1, a.dt), helicsFederateRegisterPublication(h, a.c1(), a.dt, "", E)),
    VFED(Y, registerGlobalPublication(a.s1, a.s2, a.s3), helicsFederateRegisterGlobalTypePublication(h, a.c1(), a.c2(), a.c3(), E)),
    VFED(Y, registerGlobalPublication(a.s1, a.dt, a.s3), helicsFederateRegisterGlobalPublication(h, a.c1(), a.dt, a.c3(), E)),
    VFED(Y, registerIndexedPublication(a.s1, a.i1, a.dt, a.s3), helicsFederateRegisterGlobalPublication(h, idx(a.s1, a.i1).c_str(), a.dt, a.c3(), E)),
    VFED(Y, registerIndexedPublication(a.s1, a.i1, a.i2, a.dt, a.s3), helicsFederateRegisterGlobalPublication(h, idx(a.s1, a.i1, a.i2).c_str(), a.dt, a.c3(), E)),
    VFED(Y, registerPublicationIndexed(a.s1, a.i1, a.dt, a.s3), helicsFederateRegisterGlobalPublication(h, idx(a.s1, a.i1).c_str(), a.dt, a.c3(), E)),
    VFED(Y, registerPublicationIndexed(a.s1, a.i1, a.i2, a.dt, a.s3), helicsFederateRegisterGlobalPublication(h, idx(a.s1, a.i1, a.i2).c_str(), a.dt, a.c3(), E)),
    VFED(Y, registerFromPublicationJSON(a.s1), helicsFederateRegisterFromPublicationJSON(h, a.c1(), E)),
    VFED(Y, getPublication(a.s1), helicsFederateGetPublication(h, a.c1(), E)),
    VFED(Y, getPublication(a.i1), helicsFederateGetPublicationByIndex(h, a.i1, E)),
    VFED(Y, registerSubscription(a.s1, a.s3), helicsFederateRegisterSubscription(h, a.c1(), a.c3(), E)),
    VFED(Y, registerSubscription(a.s1), helicsFederateRegisterSubscription(h, a.c1(), "", E)),
    VFED(Y, registerIndexedSubscription(a.s1, a.i1, a.s3), helicsFederateRegisterSubscription(h, idx(a.s1, a.i1).c_str(), a.c3(), E)),
    VFED(Y, registerIndexedSubscription(a.s1, a.i1, a.i2, a.s3), helicsFederateRegisterSubscription(h, idx(a.s1, a.i1, a.i2).c_str(), a.c3(), E)),
    VFED(Y, registerSubscriptionIndexed(a.s1, a.i1, a.s3), helicsFederateRegisterSubscription(h, idx(a.s1, a.i1).c_str(), a.c3(), E)),
    VFED(Y, registerSubscriptionIndexed(a.s1, a.i1, a.i2, a.s3), helicsFederateRegisterSubscription(h, idx(a.s1, a.i1, a.i2).c_str(), a.c3(), E)),
    VFED(Y, registerInput(a.s1, a.s2, a.s3), helicsFederateRegisterTypeInput(h, a.c1(), a.c2(), a.c3(), E)),
    VFED(Y, registerInput(a.s1, a.dt, a.s3), helicsFederateRegisterInput(h, a.c1(), a.dt, a.c3(), E)),
    VFED(Y, registerGlobalInput(a.s1, a.s2, a.s3), helicsFederateRegisterGlobalTypeInput(h, a.c1(), a.c2(), a.c3(), E)),
    VFED(Y, registerGlobalInput(a.s1, a.dt, a.s3), helicsFederateRegisterGlobalInput(h, a.c1(), a.dt, a.c3(), E)),
    VFED(Y, registerIndexedInput(a.s1, a.i1, a.dt, a.s3), helicsFederateRegisterGlobalInput(h, idx(a.s1, a.i1).c_str(), a.dt, a.c3(), E)),
    VFED(Y, registerIndexedInput(a.s1, a.i1, a.i2, a.dt, a.s3), helicsFederateRegisterGlobalInput(h, idx(a.s1, a.i1, a.i2).c_str(), a.dt, a.c3(), E)),
    VFED(Y, getInput(a.s1), helicsFederateGetInput(h, a.c1(), E)),
    VFED(Y, getInputByTarget(a.s1), helicsFederateGetInputByTarget(h, a.c1(), E)),
    VFED(Y, getInput(a.i1), helicsFederateGetInputByIndex(h, a.i1, E)),
    VFED(N, getInputCount(), helicsFederateGetInputCount(h)),
    VFED(N, getPublicationCount(), helicsFederateGetPublicationCount(h)),
    VFED(N, clearUpdates(), helicsFederateClearUpdates(h)),
    VFED(Y, publishJSON(a.s1), helicsFederatePublishJSON(h, a.c1(), E)),
    // message federates
    MFED(Y, registerEndpoint(a.s1, a.s2), helicsFederateRegisterEndpoint(h, a.c1(), a.c2(), E)),
    MFED(Y, registerEndpoint(a.s1), helicsFederateRegisterEndpoint(h, a.c1(), "", E)),
    MFED(Y, registerGlobalEndpoint(a.s1, a.s2), helicsFederateRegisterGlobalEndpoint(h, a.c1(), a.c2(), E)),
    MFED(Y, registerGlobalEndpoint(a.s1), helicsFederateRegisterGlobalEndpoint(h, a.c1(), "", E)),
    MFED(Y, getEndpoint(a.s1), helicsFederateGetEndpoint(h, a.c1(), E)),
    MFED(Y, getEndpoint(a.i1), helicsFederateGetEndpointByIndex(h, a.i1, E)),
    MFED(N, hasMessage(), helicsFederateHasMessage(h) == HELICS_TRUE),
    MFED(N, pendingMessageCount(), helicsFederatePendingMessageCount(h)),
    ROWX(MF, fed, N, auto m = w.getMessage(); return show(m), auto m = helicsFederateGetMessage(h); auto r = show(m); helicsMessageFree(m); return r),
    ROWX(MF, fed, Y, auto m = w.createMessage(); return show(m), auto m = helicsFederateCreateMessage(h, E); auto r = show(m); if (m != nullptr) helicsMessageFree(m); return r),
    MFED(N, getEndpointCount(), helicsFederateGetEndpointCount(h)),
    ROWX(MF, fed, Y, Message m(w); auto r = show(m); (void)m.release(); return r, return show(helicsFederateCreateMessage(h, E))),
    // brokers
    BRK(N, isConnected(), helicsBrokerIsConnected(h) == HELICS_TRUE),
    BRK(N, isRoot(), helicsBrokerIsRoot(h) == HELICS_TRUE),
    BRK(N, isOpenToNewFederates(), helicsBrokerIsOpenToNewFederates(h) == HELICS_TRUE),
    BRK(Y, waitForDisconnect(a.i1), helicsBrokerWaitForDisconnect(h, a.i1, E) == HELICS_TRUE),
    BRK(Y, waitForDisconnect(), helicsBrokerWaitForDisconnect(h, -1, E) == HELICS_TRUE),
    BRK(Y, disconnect(), helicsBrokerDisconnect(h, E)),
    BRK(N, getIdentifier(), helicsBrokerGetIdentifier(h)),
    BRK(N, getAddress(), helicsBrokerGetAddress(h)),
    BRK(Y, setGlobal(a.s1, a.s2), helicsBrokerSetGlobal(h, a.c1(), a.c2(), E)),
    BRK(Y, addAlias(a.s1, a.s2), helicsBrokerAddAlias(h, a.c1(), a.c2(), E)),
    BRK(Y, dataLink(a.s1, a.s2), helicsBrokerDataLink(h, a.c1(), a.c2(), E)),
    BRK(Y, addSourceFilterToEndpoint(a.s1, a.s2), helicsBrokerAddSourceFilterToEndpoint(h, a.c1(), a.c2(), E)),
    BRK(Y, addDestinationFilterToEndpoint(a.s1, a.s2), helicsBrokerAddDestinationFilterToEndpoint(h, a.c1(), a.c2(), E)),
    BRK(Y, query(a.s1, a.s2, a.sq), cquery([&](auto q, auto e) { return helicsQueryBrokerExecute(q, h, e); }, a.c1(), a.c2(), a.sq, E)),
    BRK(Y, query(a.s1, a.s2), cquery([&](auto q, auto e) { return helicsQueryBrokerExecute(q, h, e); }, a.c1(), a.c2(), HELICS_SEQUENCING_MODE_FAST, E)),
    BRK(Y, sendCommand(a.s1, a.s2), helicsBrokerSendCommand(h, a.c1(), a.c2(), E)),
    BRK(N, setTimeBarrier(a.d1), helicsBrokerSetTimeBarrier(h, a.d1, nullptr)),
    BRK(N, clearTimeBarrier(), helicsBrokerClearTimeBarrier(h)),
    BRK(N, globalError(a.i1, a.s1), helicsBrokerGlobalError(h, a.i1, a.c1(), nullptr)),
    // cores
    CORE(N, isConnected(), helicsCoreIsConnected(h) == HELICS_TRUE),
    CORE(N, isOpenToNewFederates(), helicsCoreIsOpenToNewFederates(h) == HELICS_TRUE),
    CORE(Y, setReadyToInit(), helicsCoreSetReadyToInit(h, E)),
    CORE(Y, disconnect(), helicsCoreDisconnect(h, E)),
    CORE(Y, waitForDisconnect(a.i1), helicsCoreWaitForDisconnect(h, a.i1, E) == HELICS_TRUE),
    CORE(Y, waitForDisconnect(), helicsCoreWaitForDisconnect(h, -1, E) == HELICS_TRUE),
    CORE(N, getIdentifier(), helicsCoreGetIdentifier(h)),
    CORE(N, getAddress(), helicsCoreGetAddress(h)),
    CORE(Y, registerFilter(a.ft, a.s1), helicsCoreRegisterFilter(h, a.ft, a.c1(), E)),
    CORE(Y, registerFilter(a.ft), helicsCoreRegisterFilter(h, a.ft, "", E)),
    CORE(Y, registerCloningFilter(a.s1), helicsCoreRegisterCloningFilter(h, a.c1(), E)),
    CORE(Y, setGlobal(a.s1, a.s2), helicsCoreSetGlobal(h, a.c1(), a.c2(), E)),
    CORE(Y, addAlias(a.s1, a.s2), helicsCoreAddAlias(h, a.c1(), a.c2(), E)),
    CORE(N, globalError(a.i1, a.s1), helicsCoreGlobalError(h, a.i1, a.c1(), nullptr)),
    CORE(Y, sendCommand(a.s1, a.s2), helicsCoreSendCommand(h, a.c1(), a.c2(), E)),
    CORE(Y, query(a.s1, a.s2, a.sq), cquery([&](auto q, auto e) { return helicsQueryCoreExecute(q, h, e); }, a.c1(), a.c2(), a.sq, E)),
    // messages
    MSG(N, isValid(), helicsMessageIsValid(h) == HELICS_TRUE),
    MSG(N, source(), helicsMessageGetSource(h)),
    MSGS(Y, source(a.s1), helicsMessageSetSource(h, a.c1(), E)),
    MSGS(Y, source(a.c1()), helicsMessageSetSource(h, a.c1(), E)),
    MSG(N, destination(), helicsMessageGetDestination(h)),
    MSGS(Y, destination(a.s1), helicsMessageSetDestination(h, a.c1(), E)),
    MSGS(Y, destination(a.c1()), helicsMessageSetDestination(h, a.c1(), E)),
    MSG(N, originalSource(), helicsMessageGetOriginalSource(h)),
    MSGS(Y, originalSource(a.s1), helicsMessageSetOriginalSource(h, a.c1(), E)),
    MSG(N, originalDestination(), helicsMessageGetOriginalDestination(h)),
    MSGS(Y, originalDestination(a.s1), helicsMessageSetOriginalDestination(h, a.c1(), E)),
    MSG(N, size(), helicsMessageGetByteCount(h)),
    MSG(Y, resize(a.i1), helicsMessageResize(h, a.i1, E)),
    MSG(Y, reserve(a.i1), helicsMessageReserve(h, a.i1, E)),
    MSG(N, data(), helicsMessageGetBytesPointer(h)),
    MSGS(Y, data(a.vb.data(), static_cast<int>(a.vb.size())), helicsMessageSetData(h, a.vb.data(), static_cast<int>(a.vb.size()), E)),
    MSGS(Y, data(a.s1), helicsMessageSetString(h, a.c1(), E)),
    MSGS(Y, data(a.c1()), helicsMessageSetString(h, a.c1(), E)),
    MSGS(Y, append(a.vb.data(), static_cast<int>(a.vb.size())), helicsMessageAppendData(h, a.vb.data(), static_cast<int>(a.vb.size()), E)),
    MSGS(Y, append(a.s1), helicsMessageAppendData(h, a.c1(), static_cast<int>(a.s1.size()), E)),
    MSG(N, c_str(), helicsMessageGetString(h)),
    MSG(N, time(), helicsMessageGetTime(h)),
    MSGS(Y, time(a.d1), helicsMessageSetTime(h, a.d1, E)),
    MSGS(Y, setFlag(a.i1, a.b), helicsMessageSetFlagOption(h, a.i1, a.B(), E)),
    MSG(N, getFlagOption(a.i1), helicsMessageGetFlagOption(h, a.i1) == HELICS_TRUE),
    MSG(N, messageID(), helicsMessageGetMessageID(h)),
    MSGS(Y, messageID(a.i2), helicsMessageSetMessageID(h, a.i2, E)),
    MSG(N, clear(), helicsMessageClear(h, nullptr)),
    ROWX(Message, msg, N, return show(w.dataBuffer()), auto b = helicsMessageDataBuffer(h, nullptr); auto r = show(b); helicsDataBufferFree(b); return r),
    ROWX(Message, msg, Y, MF f(hs.fed); try { w.newMessageObject(f); } catch (...) { throw; } auto r = show(w); (void)w.release(); return r,
         auto m = helicsFederateCreateMessage(hs.fed, E); if (E->error_code == 0) { helicsMessageFree(h); } auto r = show(m); helicsFederateFree(hs.fed); return r),
    // data buffers
    BUFS(N, fill(a.d1), helicsDataBufferFillFromDouble(h, a.d1)),
    BUFS(N, fill(a.l), helicsDataBufferFillFromInteger(h, a.l)),
    BUFS(N, fill(a.s1), helicsDataBufferFillFromString(h, a.c1())),
    BUFS(N, fill(a.c1()), helicsDataBufferFillFromString(h, a.c1())),
    BUFS(N, fill(a.vd), helicsDataBufferFillFromVector(h, a.vd.data(), static_cast<int>(a.vd.size()))),
    BUFS(N, fill(a.c), helicsDataBufferFillFromComplex(h, a.c.real(), a.c.imag())),
    BUFS(N, fill(a.vd.data(), static_cast<int>(a.vd.size())), helicsDataBufferFillFromVector(h, a.vd.data(), static_cast<int>(a.vd.size()))),
    BUFS(N, fill(a.s1, a.d1), helicsDataBufferFillFromNamedPoint(h, a.c1(), a.d1)),
    BUFS(N, fill(a.b), helicsDataBufferFillFromBoolean(h, a.B())),
    BUFS(N, fill(a.ch), helicsDataBufferFillFromChar(h, a.ch)),
    ROWX(DataBuffer, buf, N, auto x = w.clone(); return show(x), auto b = helicsDataBufferClone(h); auto r = show(b); helicsDataBufferFree(b); return r),
    BUF(N, size(), helicsDataBufferSize(h)),
    BUF(N, capacity(), helicsDataBufferCapacity(h)),
    BUF(N, data(), helicsDataBufferData(h)),
    BUF(N, reserve(a.i1), helicsDataBufferReserve(h, a.i1) == HELICS_TRUE),
    BUF(N, stringSize(), helicsDataBufferStringSize(h)),
    BUF(N, vectorSize(), helicsDataBufferVectorSize(h)),
    BUF(N, type(), helicsDataBufferType(h)),
    BUF(N, isValid(), helicsDataBufferIsValid(h) == HELICS_TRUE),
    BUF(N, toString(), cstr([](void* b, char* s, int n, int* k, HelicsError*) { helicsDataBufferToString(b, s, n, k); }, helicsDataBufferStringSize(h), h, nullptr)),
    ROWX(DataBuffer, buf, N, std::string t = a.s2; w.toString(t); return t, return cstr([](void* b, char* s, int n, int* k, HelicsError*) { helicsDataBufferToString(b, s, n, k); }, helicsDataBufferStringSize(h), h, nullptr)),
    ROWX(DataBuffer, buf, N, std::string t = a.s2; double v = -1; w.toNamedPoint(t, &v); return t + "=" + pbt::cat(v),
         double v = -1; int n = helicsDataBufferStringSize(h); std::vector<char> b(n + 1); helicsDataBufferToNamedPoint(h, b.data(), n + 1, &n, &v); return std::string(b.data(), n) + "=" + pbt::cat(v)),
    BUF(N, toInt(), helicsDataBufferToInteger(h)),
    BUF(N, toBoolean(), helicsDataBufferToBoolean(h) == HELICS_TRUE),
    BUF(N, toDouble(), helicsDataBufferToDouble(h)),
    BUF(N, toComplex(), helicsDataBufferToComplexObject(h)),
    ROWX(DataBuffer, buf, N, double v[9] = {}; auto n = w.toVector(v, 3); return std::vector<double>(v, v + n), double v[9] = {}; int n = 0; helicsDataBufferToVector(h, v, 3, &n); return std::vector<double>(v, v + n)),
    ROWX(DataBuffer, buf, N, if (mock::st.sizeExtra != 0) return std::vector<double>(); std::vector<double> v(9); w.toVector(v); return v, if (mock::st.sizeExtra != 0) return std::vector<double>(); return cvec(helicsDataBufferVectorSize(h), [&](double* p, int n, int* k) { helicsDataBufferToVector(h, p, n, k); })),
    ROWX(DataBuffer, buf, N, double v[9] = {}; auto n = w.toComplexVector(v, 3); return std::vector<double>(v, v + 2 * n), double v[9] = {}; int n = 0; helicsDataBufferToComplexVector(h, v, 3, &n); return std::vector<double>(v, v + 2 * n)),
    BUF(N, convertToType(a.i1), helicsDataBufferConvertToType(h, a.i1) == HELICS_TRUE),
    // the library
    ROWX(Input, in, N, return helicscpp::version(), return helicsGetVersion()),
    ROWX(Input, in, N, return helicscpp::getHelicsVersionString(), return helicsGetVersion()),
    ROWX(Input, in, N, return helicscpp::systemInfo(), return helicsGetSystemInfo()),
    ROWX(Input, in, N, return helicscpp::buildFlags(), return helicsGetBuildFlags()),
    ROWX(Input, in, N, return helicscpp::compilerVersion(), return helicsGetCompilerVersion()),
    ROWX(Input, in, N, helicscpp::cleanupHelicsLibrary(), helicsCleanupLibrary()),
    ROWX(Input, in, N, helicscpp::closeLibrary(), helicsCloseLibrary()),
    ROWX(Input, in, N, helicscpp::loadSignalHandler(), helicsLoadSignalHandler()),
    ROWX(Input, in, N, helicscpp::loadThreadedSignalHandler(), helicsLoadThreadedSignalHandler()),
    ROWX(Input, in, N, helicscpp::loadSignalHandler(sigHandler), helicsLoadSignalHandlerCallback(sigHandler, HELICS_FALSE)),
    ROWX(Input, in, N, helicscpp::loadSignalHandler(sigHandler, a.b), helicsLoadSignalHandlerCallback(sigHandler, a.B())),
    ROWX(Input, in, N, helicscpp::clearSignalHandler(), helicsClearSignalHandler()),
    // federate information (the handle made by the constructor is HelicsFederateInfo#0)
#define INFO(THR, W, C) ROWX(Input, in, THR, FederateInfo f; return f.W, auto f = helicsCreateFederateInfo(); struct Fr { void* p; ~Fr() { helicsFederateInfoFree(p); } } fr{f}; return C)
    INFO(N, loadFromArgs(a.s1), helicsFederateInfoLoadFromString(f, a.c1(), nullptr)),
    INFO(N, setCoreName(a.s1), helicsFederateInfoSetCoreName(f, a.c1(), nullptr)),
    INFO(N, setSeparator(a.ch), helicsFederateInfoSetSeparator(f, a.ch, nullptr)),
    INFO(N, setCoreInit(a.s1), helicsFederateInfoSetCoreInitString(f, a.c1(), nullptr)),
    INFO(N, setBrokerInit(a.s1), helicsFederateInfoSetBrokerInitString(f, a.c1(), nullptr)),
    INFO(Y, setCoreType(a.s1), helicsFederateInfoSetCoreTypeFromString(f, a.c1(), E)),
    INFO(N, setCoreType(a.i1), helicsFederateInfoSetCoreType(f, a.i1, nullptr)),
    INFO(N, setBroker(a.s1), helicsFederateInfoSetBroker(f, a.c1(), nullptr)),
    INFO(N, setBrokerKey(a.s1), helicsFederateInfoSetBrokerKey(f, a.c1(), nullptr)),
    INFO(N, setFlagOption(a.i1, a.b), helicsFederateInfoSetFlagOption(f, a.i1, a.B(), nullptr)),
    INFO(N, setFlagOption(a.i1), helicsFederateInfoSetFlagOption(f, a.i1, HELICS_TRUE, nullptr)),
    INFO(N, setProperty(a.i1, a.d1), helicsFederateInfoSetTimeProperty(f, a.i1, a.d1, nullptr)),
    INFO(N, setProperty(a.i1, a.i2), helicsFederateInfoSetIntegerProperty(f, a.i1, a.i2, nullptr)),
};
// clang-format on
std::string join(const std::vector<std::string>& v)
{
    std::string o;
    for (auto& x : v) {
        o += x + " ";
    }
    return o;
}
void script(pbt::Src& s)
{
    mock::st.text = s.str(12, "abc{}:,0");
    mock::st.doubles.resize(s.draw(4) * 2);
    for (auto& x : mock::st.doubles) {
        x = s.dbl();
    }
    mock::st.sizeExtra = s.chance(1, 3) ? static_cast<int>(s.draw(4)) : 0;
    mock::st.noText = s.chance(1, 8);
    mock::st.failAt = s.chance(1, 3) ? 0 : -1;
    mock::st.failCode = s.pick({-1, -4, -404, 7});
    mock::st.failText = "failure " + std::to_string(s.draw(100));
}
void noMisuse() { REQUIRE("misuse", mock::st.badSig.empty(), mock::st.badText); }
}  // namespace
PROP(calls, 8)
{
    const auto& r = s.pick(rows);
    auto a = args(s);
    script(s);
    auto seed = s.bits();
    s.note(r.text, mock::st.failAt == 0 ? " failing" : "");
    s.tag(std::string(r.text).substr(0, 60));
    s.nontrivial();
    auto w = r.cpp(a, seed);
    noMisuse();
    auto wfail = mock::st.failed;
    auto c = r.c(a, seed);
    REQUIRE("log", w.log == c.log, r.text, " calls ", join(w.log), " and not ", join(c.log));
    if (r.throws) {
        REQUIRE("throws", w.threw == c.threw, r.text, w.threw ? " throws" : " does not throw", " where the C function reports ", c.code);
        if (w.threw) {
            REQUIRE("error", w.code == c.code && w.what == c.what, r.text, " throws ", w.code, " ", w.what, " where the C function reports ", c.code, " ", c.what);
            return;
        }
    } else {
        REQUIRE("throws", !w.threw && !wfail, r.text, " throws");
    }
    REQUIRE("result", w.value == c.value, r.text, " gives ", w.value, " and not ", c.value);
}
namespace {
// histories of objects: construction, copying, moving, assignment, destruction; T is made by mk(), null means empty
template<class T>
void owned(pbt::Src& s, const char* kind, const std::function<std::unique_ptr<T>()>& mk, const std::function<void*(T&)>& handle, bool shared)
{
    std::vector<std::unique_ptr<T>> v;
    std::vector<bool> full;  // the object has a handle
    auto n = 1 + s.size(14);
    s.note(kind);
    auto spot = [&] { return s.draw(v.size()); };
    for (std::size_t k = 0; k < n; ++k) {
        auto op = v.empty() ? 0 : s.draw(7);
        switch (op) {
            case 0:
                v.push_back(mk());
                full.push_back(true);
                s.note("new");
                break;
            case 1: {  // copy
                auto i = spot();
                if (!full[i] && shared) {
                    break;
                }
                v.push_back(std::make_unique<T>(*v[i]));
                full.push_back(full[i]);
                s.note("copy ", i);
                break;
            }
            case 2: {
                auto i = spot();
                v.push_back(std::make_unique<T>(std::move(*v[i])));
                full.push_back(full[i]);
                full[i] = false;
                s.note("move ", i);
                break;
            }
            case 3: {
                auto i = spot();
                auto j = spot();
                if (!full[j]) {
                    break;
                }
                *v[i] = *v[j];
                full[i] = full[j];
                s.note(i, " = ", j);
                s.nontrivial();
                break;
            }
            case 4: {
                auto i = spot();
                auto j = spot();
                *v[i] = std::move(*v[j]);
                if (i != j) {
                    full[i] = full[j];
                    full[j] = false;
                }
                s.note(i, " = move ", j);
                s.nontrivial();
                break;
            }
            case 5: {
                auto i = spot();
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
                full.erase(full.begin() + static_cast<std::ptrdiff_t>(i));
                s.note("delete ", i);
                break;
            }
            default:
                break;
        }
        noMisuse();
        int want = 0;
        std::set<void*> hs;
        for (std::size_t i = 0; i < v.size(); ++i) {
            auto* h = handle(*v[i]);
            if (full[i]) {
                ++want;
                REQUIRE("owns", h != nullptr && mock::alive(h), "object ", i, " refers to ", mock::label(h), ", which is ", h == nullptr ? "nothing" : "released");
                REQUIRE("alone", hs.insert(h).second, "two objects refer to ", mock::label(h), " and both would release it");
            } else {
                REQUIRE("empty", h == nullptr, "moved object ", i, " still refers to ", mock::label(h));
            }
        }
        REQUIRE("leak", mock::living(kind) == want, mock::living(kind), " ", kind, " alive for ", want, " objects");
    }
    v.clear();
    noMisuse();
    REQUIRE("leak", mock::living(kind) == 0, mock::living(kind), " ", kind, " never released");
}
}  // namespace
PROP(ownership, 4)
{
    mock::reset(s.bits());
    mock::st.failAt = -1;
    switch (s.draw(8)) {
        case 0:
            owned<FederateInfo>(s, "HelicsFederateInfo", [] { return std::make_unique<FederateInfo>(); }, [](FederateInfo& f) { return f.getInfo(); }, true);
            break;
        case 1: {
            auto h = mock::make("HelicsEndpoint");
            Endpoint e(h);
            owned<Message>(s, "HelicsMessage", [&] { return std::make_unique<Message>(e); }, [](Message& m) { return static_cast<HelicsMessage>(m); }, true);
            break;
        }
        case 2: {
            FederateInfo fi;
            owned<ValueFederate>(s, "HelicsFederate", [&] { return std::make_unique<ValueFederate>("v", fi); }, [](ValueFederate& f) { return f.baseObject(); }, true);
            break;
        }
        case 3: {
            FederateInfo fi;
            owned<MessageFederate>(s, "HelicsFederate", [&] { return std::make_unique<MessageFederate>("m", fi); }, [](MessageFederate& f) { return f.baseObject(); }, true);
            break;
        }
        case 4: {
            FederateInfo fi;
            owned<CombinationFederate>(s, "HelicsFederate", [&] { return std::make_unique<CombinationFederate>("c", fi); }, [](CombinationFederate& f) { return f.baseObject(); }, true);
            break;
        }
        case 5:
            owned<Core>(s, "HelicsCore", [&] { return std::make_unique<Core>("test", "c", ""); }, [](Core& c) { return c.baseObject(); }, true);
            break;
        case 6: {
            char* argv[1] = {nullptr};
            owned<Broker>(s, "HelicsBroker", [&] { return std::make_unique<Broker>("test", "b", 0, argv); }, [](Broker& b) { return b.baseObject(); }, true);
            break;
        }
        default: {
            // data buffers are always full, also after copies
            std::vector<std::unique_ptr<DataBuffer>> v;
            auto n = 1 + s.size(10);
            for (std::size_t k = 0; k < n; ++k) {
                switch (v.empty() ? 0 : s.draw(5)) {
                    case 0:
                        v.push_back(std::make_unique<DataBuffer>(8));
                        break;
                    case 1:
                        v.push_back(std::make_unique<DataBuffer>(*v[s.draw(v.size())]));
                        s.nontrivial();
                        break;
                    case 2:
                        *v[s.draw(v.size())] = *v[s.draw(v.size())];
                        s.nontrivial();
                        break;
                    case 3:
                        v.erase(v.begin() + static_cast<std::ptrdiff_t>(s.draw(v.size())));
                        break;
                    default: {
                        auto h = mock::make("HelicsMessage");
                        Message m(h);
                        m.data(*v[s.draw(v.size())]);
                        s.nontrivial();
                    }
                }
                noMisuse();
                REQUIRE("leak", mock::living("HelicsDataBuffer") == static_cast<int>(v.size()), mock::living("HelicsDataBuffer"), " buffers for ", v.size(), " objects");
                for (auto& b : v) {
                    REQUIRE("owns", mock::alive(b->getHelicsDataBuffer()), "a buffer object refers to a released buffer");
                }
            }
            v.clear();
            noMisuse();
            REQUIRE("leak", mock::living("HelicsDataBuffer") == 0, "buffers never released");
        }
    }
}
PROP(construction, 2)
{
    mock::reset(s.bits());
    script(s);
    auto a = args(s);
    char n1[] = "--x";
    char* argv[] = {n1, nullptr};
    std::string kind;
    std::string want;
    bool threw = false;
    std::string what;
    s.nontrivial();
    auto fail = mock::st.failAt == 0;
    std::string got;
    try {
        switch (s.draw(12)) {
            case 0: {
                want = "helicsCreateValueFederate(\"" + a.s1 + "\",HelicsFederateInfo#0,)";
                FederateInfo fi;
                mock::st.log.clear();
                ValueFederate f(a.s1, fi);
                got = join(mock::st.log);
                break;
            }
            case 1: {
                want = "helicsCreateMessageFederate(\"" + a.s1 + "\",HelicsFederateInfo#0,)";
                FederateInfo fi;
                mock::st.log.clear();
                MessageFederate f(a.s1, fi);
                got = join(mock::st.log);
                break;
            }
            case 2: {
                want = "helicsCreateCombinationFederate(\"" + a.s1 + "\",HelicsFederateInfo#0,)";
                FederateInfo fi;
                mock::st.log.clear();
                CombinationFederate f(a.s1, fi);
                got = join(mock::st.log);
                break;
            }
            case 3: {
                want = "helicsCreateValueFederateFromConfig(\"" + a.s1 + "\",)";
                ValueFederate f(a.s1);
                got = join(mock::st.log);
                break;
            }
            case 4: {
                want = "helicsCreateMessageFederateFromConfig(\"" + a.s1 + "\",)";
                MessageFederate f(a.s1);
                got = join(mock::st.log);
                break;
            }
            case 5: {
                want = "helicsCreateCombinationFederateFromConfig(\"" + a.s1 + "\",)";
                CombinationFederate f(a.s1);
                got = join(mock::st.log);
                break;
            }
            case 6: {
                want = "helicsCreateCore(\"" + a.s1 + "\",\"" + a.s2 + "\",\"" + a.s3 + "\",)";
                Core c(a.s1, a.s2, a.s3);
                got = join(mock::st.log);
                break;
            }
            case 7: {
                want = "helicsCreateCoreFromArgs(\"" + a.s1 + "\",\"" + a.s2 + "\",1,\"--x\",)";
                Core c(a.s1, a.s2, 1, argv);
                got = join(mock::st.log);
                break;
            }
            case 8: {
                want = "helicsCreateBroker(\"" + a.s1 + "\",\"" + a.s2 + "\",\"" + a.s3 + "\",) helicsBrokerIsConnected(HelicsBroker#0,)";
                try {
                    Broker b(a.s1, a.s2, a.s3);
                    got = join(mock::st.log);
                }
                catch (const HelicsException&) {
                    throw;
                }
                catch (const std::runtime_error& e) {
                    s.tag("unconnected");
                    REQUIRE("leak", mock::living("HelicsBroker") == 0, "a broker that is not connected is never released");
                    return;
                }
                break;
            }
            case 9: {
                want = "helicsCreateBrokerFromArgs(\"" + a.s1 + "\",\"" + a.s2 + "\",1,\"--x\",)";
                Broker b(a.s1, a.s2, 1, argv);
                got = join(mock::st.log);
                break;
            }
            case 10: {
                want = "helicsCreateFederateInfo() helicsFederateInfoSetCoreTypeFromString(HelicsFederateInfo#0,\"" + a.s1 + "\",)";
                FederateInfo f(a.s1);
                got = join(mock::st.log);
                break;
            }
            default: {
                want = pbt::cat("helicsCreateFederateInfo() helicsFederateInfoSetCoreType(HelicsFederateInfo#0,", a.i1, ",)");
                FederateInfo f(a.i1);
                got = join(mock::st.log);
            }
        }
    }
    catch (const HelicsException& e) {
        threw = true;
        what = e.what();
        REQUIRE("error", e.errorCode() == mock::st.failCode && what == mock::st.failText, "throws ", e.errorCode(), " ", what);
    }
    s.note(want);
    noMisuse();
    REQUIRE("throws", threw == fail, want, threw ? " throws" : " does not throw");
    if (!threw) {
        REQUIRE("log", got == want + " ", "calls ", got, " and not ", want);
    }
}
/** whether the C calls made, apart from preparing an error object, are one call starting like this */
static bool onlyCall(const std::string& want)
{
    std::vector<std::string> rest;
    for (auto& l : mock::st.log) {
        if (l.rfind("helicsErrorInitialize", 0) != 0) {
            rest.push_back(l);
        }
    }
    return rest.size() == 1 && rest[0].rfind(want, 0) == 0;
}
PROP(asynchronous, 2)
{
    // entering execution asynchronously is completed by the call that matches how it was started, on whatever object holds the federate
    mock::reset(s.bits());
    mock::st.failAt = -1;
    FederateInfo fi;
    auto f = std::make_unique<ValueFederate>("f", fi);
    auto n = 1 + s.draw(5);
    for (std::uint64_t k = 0; k < n; ++k) {
        auto it = s.pick({HELICS_ITERATION_REQUEST_NO_ITERATION, HELICS_ITERATION_REQUEST_FORCE_ITERATION, HELICS_ITERATION_REQUEST_ITERATE_IF_NEEDED});
        mock::st.log.clear();
        f->enterExecutingModeAsync(it);
        auto iter = it != HELICS_ITERATION_REQUEST_NO_ITERATION;
        auto want = iter ? "helicsFederateEnterExecutingModeIterativeAsync(" : "helicsFederateEnterExecutingModeAsync(";
        REQUIRE("async", onlyCall(want), join(mock::st.log), " for ", want);
        switch (s.draw(5)) {
            case 0:
                f = std::make_unique<ValueFederate>(std::move(*f));
                break;
            case 1:
                f = std::make_unique<ValueFederate>(*f);
                break;
            case 2: {
                auto g = std::make_unique<ValueFederate>("g", fi);
                *g = *f;
                f = std::move(g);
                break;
            }
            case 3: {
                auto g = std::make_unique<ValueFederate>("g", fi);
                *g = std::move(*f);
                f = std::move(g);
                break;
            }
            default:
                break;
        }
        mock::st.log.clear();
        auto r = f->enterExecutingModeComplete();
        auto wantc = iter ? "helicsFederateEnterExecutingModeIterativeComplete(" : "helicsFederateEnterExecutingModeComplete(";
        REQUIRE("async", onlyCall(wantc), "completed by ", join(mock::st.log), " and not ", wantc);
        if (!iter) {
            REQUIRE("async", r == HELICS_ITERATION_RESULT_NEXT_STEP, "result ", static_cast<int>(r));
        }
        s.nontrivial();
    }
    noMisuse();
}
PROP(callbacks, 3)
{
    // a callback set on a federate is called with what the C interface reports, also when the object has been copied or moved
    mock::reset(s.bits());
    mock::st.failAt = -1;
    FederateInfo fi;
    std::vector<std::unique_ptr<CombinationFederate>> fs;
    fs.push_back(std::make_unique<CombinationFederate>("f", fi));
    struct Set {
        int which;
        void* fn;
        void* data;
        int id;
    };
    std::map<int, Set> now;
    int ids = 0;
    std::vector<std::string> seen;
    auto n = 1 + s.size(14);
    for (std::size_t k = 0; k < n; ++k) {
        auto i = s.draw(fs.size());
        switch (s.draw(6)) {
            case 0:
            case 1: {
                int which = static_cast<int>(s.draw(5));
                auto id = ids++;
                mock::lastFn() = nullptr;
                mock::lastPtr() = nullptr;
                switch (which) {
                    case 0:
                        fs[i]->setQueryCallback([&seen, id](const std::string& q) {
                            seen.push_back(pbt::cat(id, " query ", q));
                            return "answer" + std::to_string(id);
                        });
                        break;
                    case 1:
                        fs[i]->setTimeRequestEntryCallback([&seen, id](HelicsTime a, HelicsTime b, bool c) { seen.push_back(pbt::cat(id, " entry ", a, " ", b, " ", c)); });
                        break;
                    case 2:
                        fs[i]->setTimeUpdateCallback([&seen, id](HelicsTime a, bool c) { seen.push_back(pbt::cat(id, " update ", a, " ", c)); });
                        break;
                    case 3:
                        fs[i]->setStateChangeCallback([&seen, id](HelicsFederateState a, HelicsFederateState b) { seen.push_back(pbt::cat(id, " state ", static_cast<int>(a), " ", static_cast<int>(b))); });
                        break;
                    default:
                        fs[i]->setTimeRequestReturnCallback([&seen, id](HelicsTime a, bool c) { seen.push_back(pbt::cat(id, " return ", a, " ", c)); });
                }
                static const char* fn[] = {"helicsFederateSetQueryCallback(", "helicsFederateSetTimeRequestEntryCallback(", "helicsFederateSetTimeUpdateCallback(", "helicsFederateSetStateChangeCallback(", "helicsFederateSetTimeRequestReturnCallback("};
                REQUIRE("log", mock::st.log.back().rfind(fn[which], 0) == 0, "calls ", mock::st.log.back(), " and not ", fn[which]);
                now[which] = {which, mock::lastFn(), mock::lastPtr(), id};
                s.note("set ", which, " on ", i);
                break;
            }
            case 2:
                fs.push_back(std::make_unique<CombinationFederate>(std::move(*fs[i])));
                fs.erase(fs.begin() + static_cast<std::ptrdiff_t>(i));
                s.note("move ", i);
                break;
            case 3:
                fs.push_back(std::make_unique<CombinationFederate>(*fs[i]));
                s.note("copy ", i);
                break;
            case 4:
                if (fs.size() > 1) {
                    fs.erase(fs.begin() + static_cast<std::ptrdiff_t>(i));
                    s.note("delete ", i);
                }
                break;
            default: {
                // the library calls back (one federate lives as long as a copy of it does)
                for (auto& [w, c] : now) {
                    seen.clear();
                    auto t1 = s.dbl();
                    auto t2 = s.dbl();
                    auto it = s.boolean();
                    std::string want;
                    switch (w) {
                        case 0: {
                            auto q = s.str(6, "abc,.") + "x";
                            auto given = q + "beyond";
                            want = pbt::cat(c.id, " query ", q);
                            mock::st.log.clear();
                            reinterpret_cast<void (*)(const char*, int, HelicsQueryBuffer, void*)>(c.fn)(given.c_str(), static_cast<int>(q.size()), mock::make("HelicsQueryBuffer"), c.data);
                            auto a = "answer" + std::to_string(c.id);
                            REQUIRE("answer", mock::st.log.size() == 1 && mock::st.log[0].find("\"" + a + "\"," + std::to_string(a.size()) + ",") != std::string::npos, "the answer is ", join(mock::st.log));
                            break;
                        }
                        case 1:
                            want = pbt::cat(c.id, " entry ", t1, " ", t2, " ", it);
                            reinterpret_cast<void (*)(HelicsTime, HelicsTime, HelicsBool, void*)>(c.fn)(t1, t2, it ? HELICS_TRUE : HELICS_FALSE, c.data);
                            break;
                        case 2:
                        case 4:
                            want = pbt::cat(c.id, w == 2 ? " update " : " return ", t1, " ", it);
                            reinterpret_cast<void (*)(HelicsTime, HelicsBool, void*)>(c.fn)(t1, it ? HELICS_TRUE : HELICS_FALSE, c.data);
                            break;
                        default: {
                            auto a = s.pick({HELICS_STATE_STARTUP, HELICS_STATE_EXECUTION, HELICS_STATE_ERROR});
                            auto b = s.pick({HELICS_STATE_INITIALIZATION, HELICS_STATE_FINALIZE});
                            want = pbt::cat(c.id, " state ", static_cast<int>(a), " ", static_cast<int>(b));
                            reinterpret_cast<void (*)(HelicsFederateState, HelicsFederateState, void*)>(c.fn)(a, b, c.data);
                        }
                    }
                    REQUIRE("callback", seen.size() == 1 && seen[0] == want, "called back as ", join(seen), " and not ", want);
                    s.nontrivial();
                }
            }
        }
        noMisuse();
    }
}
PBT_MAIN("a call with arguments compared with the C function, or a history with an assignment, a copy or a callback", 20)
