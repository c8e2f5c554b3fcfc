#include "kig_boolean.h"

#include <kigumi/Boolean_region_builder.h>

struct Builder::Impl {
  kigumi::Boolean_region_builder<K, FD> b;
};
Builder::Builder(const Region& a, const Region& b) : impl_{new Impl{kigumi::Boolean_region_builder<K, FD>{a, b}}} {}
Builder::~Builder() = default;
Region Builder::operator()(Op op) const { return impl_->b(op); }
Region Builder::operator()(Op op, bool prefer_first) const { return impl_->b(op, prefer_first); }
Warnings Builder::warnings() const { return impl_->b.warnings(); }
