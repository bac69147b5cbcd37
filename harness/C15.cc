// C15: serial TDVP against the exact evolution.
#include "tdvp.h"
namespace {
using namespace vh;
struct H : TdvpHarness {
  std::string Id() override { return "C15"; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
