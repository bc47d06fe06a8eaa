#include "expected.hpp"

void RunTriv(const std::string& e, const Value& c, const Emit& emit) { PickE<Triv<1>>(e, c, emit); }
