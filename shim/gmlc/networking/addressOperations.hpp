// Stand-in for GMLC-TDC/networking addressOperations.hpp
#pragma once
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace gmlc::networking {
enum class InterfaceTypes : char { TCP = 0, UDP = 1, IP = 2, IPC = 3, INPROC = 4 };
enum class InterfaceNetworks : char { LOCAL = 0, IPV4 = 4, IPV6 = 6, ALL = 10 };

std::string makePortAddress(std::string_view networkInterface, int portNumber);
std::string makePortAddress(std::string_view networkInterface, std::string_view portNumber);
std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address);
std::pair<std::string, std::optional<std::string>>
    extractInterfaceAndPortString(std::string_view address);
std::string stripProtocol(std::string_view networkAddress);
void removeProtocol(std::string& networkAddress);
std::string addProtocol(std::string_view networkAddress, InterfaceTypes interfaceT);
void insertProtocol(std::string& networkAddress, InterfaceTypes interfaceT);
bool isipv6(std::string_view address);
std::string getLocalExternalAddress();
std::string getLocalExternalAddress(std::string_view server);
std::string generateMatchingInterfaceAddress(std::string_view server,
                                             InterfaceNetworks network = InterfaceNetworks::LOCAL);
}  // namespace gmlc::networking
