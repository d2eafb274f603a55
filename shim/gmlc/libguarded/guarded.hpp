#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class guarded: public guarded_impl<T, M, false> {
  public:
    template<typename... Us>
    explicit guarded(Us&&... data): guarded_impl<T, M, false>(std::in_place, true, std::forward<Us>(data)...) {}
    using guarded_impl<T, M, false>::operator=;
};
}
