#include "expected.hpp"

void RunNothrow(const std::string& e, const Value& c, const Emit& emit) { PickE<El<1, true, true>>(e, c, emit); }
