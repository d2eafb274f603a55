#pragma once
#include "asio_base.hpp"
#include <boost/asio/executor_work_guard.hpp>
