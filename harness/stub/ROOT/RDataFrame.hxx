#pragma once
#include "ROOT/RDataSource.hxx"
namespace ROOT {
class RDataFrame {
public:
  explicit RDataFrame(std::unique_ptr<RDF::RDataSource> ds) : m_source(std::move(ds)) {}
  RDF::RDataSource& source() { return *m_source; }

private:
  std::shared_ptr<RDF::RDataSource> m_source;
};
} // namespace ROOT
