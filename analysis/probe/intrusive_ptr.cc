// Instantiates what the library itself may not use, so that it can be analysed.
#include <cstddef>
#include <utility>

#include "mlio/intrusive_ptr.h"
#include "mlio/intrusive_ref_counter.h"

namespace probe {

struct Base : mlio::Intrusive_ref_counter<Base> {
    virtual ~Base() = default;
};

struct Derived final : Base {};

}  // namespace probe

template class mlio::Intrusive_ptr<probe::Base>;
template class mlio::Intrusive_ptr<probe::Derived>;
template class mlio::Intrusive_ref_counter<probe::Base>;

namespace probe {

void use(mlio::Intrusive_ptr<Base> &b, mlio::Intrusive_ptr<Derived> &d, Base &o)
{
    mlio::Intrusive_ptr<Base> x{d};
    mlio::Intrusive_ptr<Base> y{std::move(d)};
    b = d;
    b = std::move(d);
    b = nullptr;
    mlio::Intrusive_ptr<Base> z{nullptr};
    mlio::Intrusive_ptr<Base> w = mlio::wrap_intrusive(&o);
    d = mlio::make_intrusive<Derived>();
    (void)(b == x);
    (void)(b != y);
    (void)(b == nullptr);
    (void)(b != nullptr);
    (void)(nullptr == b);
    (void)(nullptr != b);
}

}  // namespace probe
