// Boolean_region_builder behind a compilation firewall, so that it compiles in parallel with the harness.
#pragma once
#include "kig.h"

class Builder {
 public:
  Builder(const Region& a, const Region& b);
  ~Builder();
  Builder(const Builder&) = delete;
  Region operator()(Op op) const;
  Region operator()(Op op, bool prefer_first) const;
  Warnings warnings() const;

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};
