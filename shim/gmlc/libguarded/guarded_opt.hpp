#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class guarded_opt: public guarded_impl<T, M, true> {
  public:
    template<typename... Us>
    explicit guarded_opt(bool enableLocking, Us&&... data): guarded_impl<T, M, true>(std::in_place, enableLocking, std::forward<Us>(data)...) {}
    using guarded_impl<T, M, true>::operator=;
};
}
