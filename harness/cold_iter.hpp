#include "cold.hpp"
namespace cold
{
    template<typename Cont>
    Dyn iterable_real(const Cont& c, bool shared, bool rvalue, Sch sch)
    {
        return on_scheduler(sch, [&](const auto& s) -> Dyn {
            Cont mine = c;
            auto make = [&]<typename MM>(MM) -> Dyn {
                if (rvalue)
                    return rpp::source::from_iterable<MM>(std::move(mine), s).as_dynamic();
                auto o = rpp::source::from_iterable<MM>(std::as_const(mine), s).as_dynamic();
                if constexpr (!std::is_same_v<Cont, Range>)
                {
                    auto it = c.begin();
                    for (auto& v : mine)
                        if (v.moved() || it->get() != v.get())
                            pbt::fail("the container passed by reference was modified");
                        else
                            ++it;
                    if constexpr (requires { mine.clear(); })
                        mine.clear(); // what happens to the user's object later is not seen by the observable
                    else
                        for (auto& v : mine)
                            v = V{-77};
                }
                return o;
            };
            return shared ? make(rpp::memory_model::use_shared{}) : make(rpp::memory_model::use_stack{});
        });
    }

}
