#include "expected.hpp"

void RunThrowMove(const std::string& e, const Value& c, const Emit& emit) { PickE<El<1, false, false>>(e, c, emit); }
