#include "cold_iter.hpp"
template cold::Dyn cold::iterable_real(const std::deque<h::V>&, bool, bool, cold::Sch);
template cold::Dyn cold::iterable_real(const std::forward_list<h::V>&, bool, bool, cold::Sch);
