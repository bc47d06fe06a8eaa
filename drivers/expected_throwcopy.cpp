#include "expected.hpp"

void RunThrowCopy(const std::string& e, const Value& c, const Emit& emit) { PickE<El<1, false, true>>(e, c, emit); }
