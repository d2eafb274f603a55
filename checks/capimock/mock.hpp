// A recording stand-in for the C API: every call is logged with its arguments, results come from a script.
#pragma once
#include "helics/helics.h"

#include <cstdint>
#include <string>
#include <vector>
namespace mock {
struct State {
    std::vector<std::string> log;
    std::uint64_t seed{0};
    int failAt{-1};  // the index of the call (with an error object) that fails, -1: none
    int failCode{0};
    std::string failText;
    std::string text;  // content of string outputs
    std::vector<double> doubles;  // content of vector outputs
    int sizeExtra{0};  // how much bigger a stated vector size is than the vector
    bool noText{false};  // there is no value to read as text
    int errCalls{0};
    bool sawErr{false};  // an error object was given
    bool failed{false};
    std::string badSig;  // the first misuse of a handle
    std::string badText;
};
extern State st;
/// forget everything, make the standard handles
void reset(std::uint64_t seed);
void* make(const char* kind);
std::string label(const void* h);
bool alive(const void* h);
int living(const char* kind);
/// the last function pointer and plain pointer given to a function
void*& lastFn();
void*& lastPtr();
class Call {
  public:
    explicit Call(const char* name);
    ~Call();
    void text(const char* s);
    void bytes(const void* p, int n);
    void doubles(const double* p, int n);
    void num(double v);
    void num(int v) { num(static_cast<std::int64_t>(v)); }
    void num(std::int64_t v);
    template<class E>
    void num(E e)
    {
        num(static_cast<std::int64_t>(e));
    }
    void handle(const char* kind, void* h);
    void pointer(const void* p);
    void fn(void* p);
    void argv(int n, const char* const* v);
    bool start(HelicsError* err);
    void outText(char* s, int maxLen, int* actual);
    void outDoubles(double* s, int maxLen, int* actual, bool complex);
    void outBytes(void* s, int maxLen, int* actual);
    void outDouble(double* v);
    void outInt(int* v);
    template<class E>
    void outInt(E* v)
    {
        int x = 0;
        outInt(&x);
        *v = static_cast<E>(x & 3);
    }
    void* newHandle(const char* kind);
    const char* retText();
    double retDouble();
    bool retBool();
    std::int64_t retInt();
    void* retPointer();

  private:
    std::uint64_t next();
    std::string name_;
    std::string line_;
    std::uint64_t r_{0};
    int k_{0};
    bool failed_{false};
    std::vector<std::pair<std::string, void*>> args_;
};
}  // namespace mock
