#pragma once
#include "../asio_base.hpp"
#include "../io_context.hpp"
#include <boost/asio/ip/tcp.hpp>
