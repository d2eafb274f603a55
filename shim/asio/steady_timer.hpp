#pragma once
#include "asio_base.hpp"
#include <boost/asio/steady_timer.hpp>
