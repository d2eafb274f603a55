#include "mock.hpp"

#include "../pbt.hpp"

#include <cstring>
#include <deque>
namespace mock {
State st;
namespace {
struct Obj {
    std::string kind;
    int n;
    bool alive;
    char pad[40];
};
std::deque<Obj> objs;
std::map<std::string, int> counts;
std::deque<std::string> texts;
Obj* find(const void* h)
{
    for (auto& o : objs) {
        if (&o == h) {
            return &o;
        }
    }
    return nullptr;
}
void bad(const char* sig, const std::string& what)
{
    if (st.badSig.empty()) {
        st.badSig = sig;
        st.badText = what;
    }
}
bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
}  // namespace
void reset(std::uint64_t seed)
{
    objs.clear();
    counts.clear();
    texts.clear();
    st.log.clear();
    st.seed = seed;
    st.errCalls = 0;
    st.sawErr = false;
    st.failed = false;
    st.badSig.clear();
}
void* make(const char* kind)
{
    objs.push_back({kind, counts[kind]++, true, {}});
    return &objs.back();
}
std::string label(const void* h)
{
    if (h == nullptr) {
        return "NULL";
    }
    auto* o = find(h);
    return o == nullptr ? "?" : o->kind + "#" + std::to_string(o->n);
}
bool alive(const void* h)
{
    auto* o = find(h);
    return o != nullptr && o->alive;
}
int living(const char* kind)
{
    int n = 0;
    for (auto& o : objs) {
        n += (o.alive && o.kind == kind) ? 1 : 0;
    }
    return n;
}
Call::Call(const char* name): name_(name), line_(name_ + "(") {}
Call::~Call()
{
    // making an error object and asking for a size or validity change nothing: how often is not of interest
    if (name_ != "helicsErrorInitialize" && !has(name_, "StringSize") && !has(name_, "VectorSize") && !has(name_, "ByteCount") && !has(name_, "IsValid")) {
        st.log.push_back(line_ + ")");
    }
}
void Call::text(const char* s) { line_ += s == nullptr ? "NULL," : "\"" + std::string(s) + "\","; }
void Call::bytes(const void* p, int n) { line_ += "<" + (n > 0 && p != nullptr ? std::string(static_cast<const char*>(p), n) : std::string()) + ">" + std::to_string(n) + ","; }
void Call::doubles(const double* p, int n)
{
    line_ += "[";
    for (int i = 0; i < n; ++i) {
        num(p[i]);
    }
    line_ += "],";
}
void Call::num(double v)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g,", v);
    line_ += b;
}
void Call::num(std::int64_t v) { line_ += std::to_string(v) + ","; }
void Call::handle(const char* kind, void* h)
{
    line_ += label(h) + ",";
    if (h != nullptr) {
        auto* o = find(h);
        if (o == nullptr) {
            bad("handle", pbt::cat(name_, " is given a handle nobody made"));
            return;
        }
        if (!o->alive) {
            bad("released", pbt::cat(name_, " is given ", label(h), ", which has been released"));
        }
        auto ok = o->kind == kind || (std::strcmp(kind, "HelicsDataBuffer") == 0 && o->kind == "HelicsMessage");
        if (!ok) {
            bad("handle", pbt::cat(name_, " wants a ", kind, " and is given ", label(h)));
        }
    }
    args_.emplace_back(kind, h);
}
void*& lastFn()
{
    static void* p = nullptr;
    return p;
}
void*& lastPtr()
{
    static void* p = nullptr;
    return p;
}
void Call::pointer(const void* p) { lastPtr() = const_cast<void*>(p); line_ += (p == nullptr) ? "NULL," : find(p) != nullptr ? label(p) + "," : "ptr,"; }
void Call::fn(void* p) { lastFn() = p; line_ += p == nullptr ? "NULL," : "fn,"; }
void Call::argv(int n, const char* const* v)
{
    for (int i = 0; i < n; ++i) {
        text(v[i]);
    }
}
bool Call::start(HelicsError* err)
{
    r_ = pbt::mix(st.seed);
    for (auto c : name_) {
        r_ = pbt::mix(r_ ^ static_cast<unsigned char>(c));
    }
    if (err != nullptr) {
        st.sawErr = true;
        if (err->error_code != 0) {
            failed_ = true;
        } else if (st.errCalls++ == st.failAt) {
            err->error_code = st.failCode;
            err->message = st.failText.c_str();
            failed_ = true;
            st.failed = true;
        }
    }
    if (!failed_) {
        auto freed = has(name_, "Free") || name_ == "helicsEndpointSendMessageZeroCopy";
        if (freed && !args_.empty() && args_.back().second != nullptr) {
            auto* o = find(args_.back().second);
            if (o != nullptr && !(args_.back().first == "HelicsDataBuffer" && o->kind == "HelicsMessage")) {
                o->alive = false;  // (the buffer of a message is released with the message)
            }
        }
    }
    return !failed_;
}
std::uint64_t Call::next()
{
    r_ = pbt::mix(r_ + 1);
    return r_;
}
void Call::outText(char* s, int maxLen, int* actual)
{
    if (actual != nullptr) {
        *actual = 0;
    }
    if (s == nullptr || maxLen <= 0 || st.noText) {
        return;
    }
    auto n = std::min(static_cast<int>(st.text.size()), maxLen);
    std::memcpy(s, st.text.data(), n);
    bool withNull = has(name_, "helicsInputGet");  // inputs count the null character, buffers do not
    bool terminate = name_ != "helicsDataBufferToNamedPoint" && name_ != "helicsDataBufferToRawString";
    if (terminate) {
        if (n == maxLen) {
            --n;
        }
        s[n] = '\0';
        if (withNull) {
            ++n;
        }
    }
    if (actual != nullptr) {
        *actual = n;
    }
}
void Call::outDoubles(double* s, int maxLen, int* actual, bool complex)
{
    if (actual != nullptr) {
        *actual = 0;
    }
    if (s == nullptr || maxLen <= 0) {
        return;
    }
    int n = static_cast<int>(st.doubles.size()) / (complex ? 2 : 1);
    n = std::min(n, maxLen);
    std::memcpy(s, st.doubles.data(), sizeof(double) * n * (complex ? 2 : 1));
    if (actual != nullptr) {
        *actual = n;
    }
}
void Call::outBytes(void* s, int maxLen, int* actual)
{
    int n = std::min(static_cast<int>(st.text.size()), maxLen);
    if (s == nullptr || n < 0) {
        n = 0;
    } else {
        std::memcpy(s, st.text.data(), n);
    }
    if (actual != nullptr) {
        *actual = n;
    }
}
void Call::outDouble(double* v)
{
    if (v != nullptr) {
        *v = retDouble();
    }
}
void Call::outInt(int* v)
{
    if (v != nullptr) {
        *v = static_cast<int>(next() % 4);
    }
}
void* Call::newHandle(const char* kind)
{
    if (failed_) {
        return nullptr;
    }
    if (name_ == "helicsMessageDataBuffer") {
        return args_[0].second;
    }
    return make(kind);
}
const char* Call::retText()
{
    texts.push_back(failed_ ? std::string("#invalid") : (next() % 5 == 0) ? std::string() : name_ + std::to_string(next() % 1000));
    return texts.back().c_str();
}
double Call::retDouble() { return failed_ ? -1.785e39 : (static_cast<double>(next() % 2000001) - 1000000.0) / 64.0; }
bool Call::retBool() { return failed_ ? false : (name_ == "helicsBrokerIsConnected" ? (next() % 4 != 0) : (next() % 2) != 0); }
std::int64_t Call::retInt()
{
    if (has(name_, "StringSize")) {
        return st.noText ? 0 : static_cast<std::int64_t>(st.text.size()) + 1 + st.sizeExtra;
    }
    if (has(name_, "ByteCount")) {
        return static_cast<std::int64_t>(st.text.size());
    }
    if (has(name_, "VectorSize")) {
        return static_cast<std::int64_t>(st.doubles.size()) + st.sizeExtra;
    }
    return failed_ ? -1 : static_cast<std::int64_t>(next() % 5);
}
void* Call::retPointer()
{
    static char block[16];
    return failed_ ? nullptr : &block[next() % 16];
}
}  // namespace mock
