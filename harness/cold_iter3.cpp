#include "cold_iter.hpp"
template cold::Dyn cold::iterable_real(const std::array<h::V, 3>&, bool, bool, cold::Sch);
template cold::Dyn cold::iterable_real(const cold::Range&, bool, bool, cold::Sch);
