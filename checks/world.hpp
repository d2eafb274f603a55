// A small federation in this process: one broker, some cores, federates made by the caller.
#pragma once
#include "helics/application_api/FederateInfo.hpp"
#include "helics/application_api/Federate.hpp"
#include "helics/core/Broker.hpp"
#include "helics/core/BrokerBase.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/helics_definitions.hpp"

#include <atomic>
#include <chrono>
#include <cstdlib>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace world {
inline std::string unique(const std::string& base)
{
    static std::atomic<int> n{0};
    return base + "_" + std::to_string(++n);
}
struct World {
    std::string name;
    std::shared_ptr<helics::Broker> broker;
    std::vector<std::shared_ptr<helics::Core>> cores;
    /// perCore: the number of federates of each core
    explicit World(const std::vector<int>& perCore, const std::string& brokerArgs = "", const std::string& coreArgs = ""): name(unique("w"))
    {
        const std::string level = getenv("PBT_LOG") != nullptr ? std::string(" --loglevel=") + getenv("PBT_LOG") + " " : std::string(" --loglevel=no_print ");
        int n = 0;
        for (auto x : perCore) {
            n += x;
        }
        broker = helics::BrokerFactory::create(helics::CoreType::TEST, name + "_b", "-f " + std::to_string(n) + level + brokerArgs);
        for (std::size_t i = 0; i < perCore.size(); ++i) {
            cores.push_back(helics::CoreFactory::create(helics::CoreType::TEST, coreName(i),
                                                        "-f " + std::to_string(perCore[i]) + level + "--broker=" + name + "_b " + coreArgs));
        }
        for (auto& c : cores) {
            c->connect();
            auto b = std::dynamic_pointer_cast<helics::BrokerBase>(c);
            for (int i = 0; b && i < 100 && (b->getGlobalId() == helics::parent_broker_id || !b->getGlobalId().isValid()); ++i) {
                std::this_thread::sleep_for(std::chrono::microseconds(200));
            }
        }
    }
    std::string coreName(std::size_t i) const { return name + "_c" + std::to_string(i); }
    helics::FederateInfo info(std::size_t core = 0) const
    {
        helics::FederateInfo fi(helics::CoreType::TEST);
        fi.coreName = coreName(core);
        fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, getenv("PBT_LOG") != nullptr ? HELICS_LOG_LEVEL_TRACE : HELICS_LOG_LEVEL_NO_PRINT);
        return fi;
    }
    World(const World&) = delete;
    World& operator=(const World&) = delete;
    /// destroy the federates first
    ~World()
    {
        if (broker && !broker->waitForDisconnect(std::chrono::milliseconds(patience))) {
            forced = true;
            broker->disconnect();
        }
        for (auto& c : cores) {
            c->waitForDisconnect(std::chrono::milliseconds(500));
        }
        cores.clear();
        broker.reset();
        helics::cleanupHelicsLibrary();
    }
    int patience{3000};
    bool forced{false};
};
}  // namespace world
