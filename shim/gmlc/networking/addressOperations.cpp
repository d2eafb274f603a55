#include "addressOperations.hpp"

#include <algorithm>
#include <cstdlib>
namespace gmlc::networking {
std::string makePortAddress(std::string_view net, int port)
{
    std::string out(net);
    if (port != 0) {
        out.push_back(':');
        out.append(std::to_string(port));
    }
    return out;
}
std::string makePortAddress(std::string_view net, std::string_view port)
{
    std::string out(net);
    if (!port.empty()) {
        out.push_back(':');
        out.append(port);
    }
    return out;
}
std::pair<std::string, std::optional<std::string>>
    extractInterfaceAndPortString(std::string_view address)
{
    auto last = address.find_last_of(':');
    if (last == std::string_view::npos) {
        return {std::string(address), std::nullopt};
    }
    if (address.size() > last + 1 && address[last + 1] == '/') {
        return {std::string(address), std::nullopt};  // only the protocol has a colon
    }
    // ipv6 without brackets: more than one colon and no ]: directly before the port
    auto ncolon = std::count(address.begin(), address.end(), ':');
    bool proto = address.find("://") != std::string_view::npos;
    if (ncolon > (proto ? 2 : 1) && (last == 0 || address[last - 1] != ']') &&
        address.find('[') != std::string_view::npos && address.back() == ']') {
        return {std::string(address), std::nullopt};
    }
    return {std::string(address.substr(0, last)), std::string(address.substr(last + 1))};
}
std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address)
{
    auto res = extractInterfaceAndPortString(address);
    if (!res.second) {
        return {res.first, std::nullopt};
    }
    try {
        std::size_t used = 0;
        int port = std::stoi(*res.second, &used);
        if (used == res.second->size()) {
            return {res.first, port};
        }
    }
    catch (const std::exception&) {
    }
    return {std::string(address), std::nullopt};
}
std::string stripProtocol(std::string_view addr)
{
    auto loc = addr.find("://");
    return std::string((loc != std::string_view::npos) ? addr.substr(loc + 3) : addr);
}
void removeProtocol(std::string& addr)
{
    addr = stripProtocol(addr);
}
std::string addProtocol(std::string_view addr, InterfaceTypes type)
{
    std::string out(addr);
    insertProtocol(out, type);
    return out;
}
void insertProtocol(std::string& addr, InterfaceTypes type)
{
    if (addr.find("://") == std::string::npos) {
        switch (type) {
            case InterfaceTypes::TCP:
            case InterfaceTypes::IP:
                addr.insert(0, "tcp://");
                break;
            case InterfaceTypes::UDP:
                addr.insert(0, "udp://");
                break;
            case InterfaceTypes::IPC:
                addr.insert(0, "ipc://");
                break;
            case InterfaceTypes::INPROC:
                addr.insert(0, "inproc://");
                break;
        }
    }
}
bool isipv6(std::string_view addr)
{
    return std::count(addr.begin(), addr.end(), ':') >= 2 + ((addr.find("://") != addr.npos) ? 1 : 0);
}
std::string getLocalExternalAddress()
{
    return "127.0.0.1";
}
std::string getLocalExternalAddress(std::string_view)
{
    return "127.0.0.1";
}
std::string generateMatchingInterfaceAddress(std::string_view server, InterfaceNetworks)
{
    std::string s(server);
    if (s.empty() || s.find("127.0.0.1") != s.npos || s.find("localhost") != s.npos) {
        return (s.compare(0, 3, "udp") == 0) ? "udp://127.0.0.1" :
            (s.compare(0, 3, "tcp") == 0)    ? "tcp://127.0.0.1" :
                                               "127.0.0.1";
    }
    return "127.0.0.1";
}
}  // namespace gmlc::networking
