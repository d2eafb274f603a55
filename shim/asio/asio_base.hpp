// the absent standalone asio, by way of boost::asio
#pragma once
#ifndef BOOST_ERROR_CODE_HEADER_ONLY
#define BOOST_ERROR_CODE_HEADER_ONLY
#endif
#ifndef BOOST_ASIO_NO_DEPRECATED
#define BOOST_ASIO_NO_DEPRECATED 1
#endif
#include <boost/asio/error.hpp>
#include <boost/system/system_error.hpp>
#include <cerrno>
#include <system_error>
namespace asio {
using namespace boost::asio;
// standalone asio reports std::error_code; boost::system::error_code converts to it
namespace error {
    enum basic_errors {
        operation_aborted = ECANCELED,
        connection_aborted = ECONNABORTED,
        connection_reset = ECONNRESET,
        connection_refused = ECONNREFUSED,
        address_in_use = EADDRINUSE,
        would_block = EWOULDBLOCK,
        try_again = EAGAIN,
        bad_descriptor = EBADF,
        message_size = EMSGSIZE
    };
    inline std::error_code make_error_code(basic_errors e)
    {
        return std::error_code(static_cast<int>(e), std::system_category());
    }
    enum misc_errors { eof = boost::asio::error::eof };
    inline std::error_code make_error_code(misc_errors e)
    {
        return boost::asio::error::make_error_code(static_cast<boost::asio::error::misc_errors>(e));
    }
}  // namespace error
}  // namespace asio
namespace std {
template<>
struct is_error_code_enum<asio::error::basic_errors>: std::true_type {};
template<>
struct is_error_code_enum<asio::error::misc_errors>: std::true_type {};
}  // namespace std
