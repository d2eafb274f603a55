// Stand-in for GMLC-TDC/networking AsioContextManager.h, on boost::asio
#pragma once
#include <asio/io_context.hpp>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <thread>
namespace gmlc::networking {
class AsioContextManager: public std::enable_shared_from_this<AsioContextManager> {
  public:
    class Loop {
      public:
        Loop() = default;
        explicit Loop(std::shared_ptr<AsioContextManager> m): mgr(std::move(m)) {}
        Loop(Loop&& o) noexcept: mgr(std::move(o.mgr)) { o.mgr = nullptr; }
        Loop& operator=(Loop&& o) noexcept
        {
            reset();
            mgr = std::move(o.mgr);
            o.mgr = nullptr;
            return *this;
        }
        ~Loop() { reset(); }
        void reset()
        {
            if (mgr) {
                mgr->haltContextLoop();
                mgr = nullptr;
            }
        }
        Loop& operator=(std::nullptr_t)
        {
            reset();
            return *this;
        }
        explicit operator bool() const { return static_cast<bool>(mgr); }

      private:
        std::shared_ptr<AsioContextManager> mgr;
    };
    using LoopHandle = Loop;

    static std::shared_ptr<AsioContextManager> getContextPointer(const std::string& name = "");
    static std::shared_ptr<AsioContextManager>
        getExistingContextPointer(const std::string& name = "");
    static asio::io_context& getContext(const std::string& name = "");
    static void closeContext(const std::string& name = "");
    static void setContextToLeakOnDelete(const std::string& name = "");
    static Loop runContextLoop(const std::string& name = "");
    ~AsioContextManager();
    asio::io_context& getBaseContext() const { return *ctx; }
    const std::string& getName() const { return name; }
    Loop startContextLoop();
    void haltContextLoop();
    bool isRunning() const;

  private:
    explicit AsioContextManager(const std::string& nm);
    std::string name;
    std::unique_ptr<asio::io_context> ctx;
    using guard_t = asio::executor_work_guard<asio::io_context::executor_type>;
    std::unique_ptr<guard_t> work;
    std::thread runner;
    mutable std::mutex m;
    int count{0};
};
}  // namespace gmlc::networking
