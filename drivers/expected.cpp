#include "expected.hpp"

static void RunCase(const Value& c, const std::function<void(Value)>& emit) {
  std::set_terminate([] { if (gOnTerminate) gOnTerminate(); std::_Exit(0); });
  const std::string &t = c["cmds"].at(0)["t"].s, &e = c["cmds"].at(0)["e"].s;
  if (t == "triv") RunTriv(e, c, emit);
  else if (t == "nothrow") RunNothrow(e, c, emit);
  else if (t == "throwcopy") RunThrowCopy(e, c, emit);
  else if (t == "throwmove") RunThrowMove(e, c, emit);
  else RunVoid(e, c, emit);
}

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  return RunCases(argv[1], argv[2], RunCase);
}
