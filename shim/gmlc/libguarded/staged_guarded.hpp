#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_mutex>
class staged_guarded: public guarded_impl<T, M, false> {
  public:
    template<typename... Us>
    explicit staged_guarded(Us&&... data): guarded_impl<T, M, false>(std::in_place, true, std::forward<Us>(data)...) {}
    using guarded_impl<T, M, false>::operator=;
};
}
