#pragma once
#include "asio_base.hpp"
#include <boost/asio/buffer.hpp>
