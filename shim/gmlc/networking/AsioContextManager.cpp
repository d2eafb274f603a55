#include "AsioContextManager.h"

#include <asio/executor_work_guard.hpp>
#include <map>
namespace gmlc::networking {
static std::mutex& mapLock()
{
    static auto* m = new std::mutex();
    return *m;
}
static std::map<std::string, std::shared_ptr<AsioContextManager>>& contexts()
{
    static auto* c = new std::map<std::string, std::shared_ptr<AsioContextManager>>();
    return *c;
}
AsioContextManager::AsioContextManager(const std::string& nm):
    name(nm), ctx(std::make_unique<asio::io_context>())
{
}
AsioContextManager::~AsioContextManager()
{
    std::lock_guard<std::mutex> lk(m);
    if (runner.joinable()) {
        work.reset();
        ctx->stop();
        if (runner.get_id() == std::this_thread::get_id()) {
            runner.detach();
        } else {
            runner.join();
        }
    }
}
std::shared_ptr<AsioContextManager> AsioContextManager::getContextPointer(const std::string& nm)
{
    std::lock_guard<std::mutex> lk(mapLock());
    auto& c = contexts()[nm];
    if (!c) {
        c = std::shared_ptr<AsioContextManager>(new AsioContextManager(nm));
    }
    return c;
}
std::shared_ptr<AsioContextManager>
    AsioContextManager::getExistingContextPointer(const std::string& nm)
{
    std::lock_guard<std::mutex> lk(mapLock());
    auto f = contexts().find(nm);
    return (f != contexts().end()) ? f->second : nullptr;
}
asio::io_context& AsioContextManager::getContext(const std::string& nm)
{
    return getContextPointer(nm)->getBaseContext();
}
void AsioContextManager::closeContext(const std::string&) {}
void AsioContextManager::setContextToLeakOnDelete(const std::string&) {}
AsioContextManager::Loop AsioContextManager::runContextLoop(const std::string& nm)
{
    return getContextPointer(nm)->startContextLoop();
}
AsioContextManager::Loop AsioContextManager::startContextLoop()
{
    std::lock_guard<std::mutex> lk(m);
    if (count++ == 0 && !runner.joinable()) {
        ctx->restart();
        work = std::make_unique<guard_t>(asio::make_work_guard(*ctx));
        runner = std::thread([c = ctx.get()]() { c->run(); });
    }
    return Loop(shared_from_this());
}
void AsioContextManager::haltContextLoop()
{
    // the loop itself is left running: it is idle when nobody uses it
    std::lock_guard<std::mutex> lk(m);
    --count;
}
bool AsioContextManager::isRunning() const
{
    std::lock_guard<std::mutex> lk(m);
    return runner.joinable();
}
}  // namespace gmlc::networking
