#include "cold_iter.hpp"
template cold::Dyn cold::iterable_real(const std::vector<h::V>&, bool, bool, cold::Sch);
template cold::Dyn cold::iterable_real(const std::list<h::V>&, bool, bool, cold::Sch);
