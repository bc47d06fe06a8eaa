#include "expected.hpp"

void RunVoid(const std::string& e, const Value& c, const Emit& emit) { PickE<void>(e, c, emit); }
