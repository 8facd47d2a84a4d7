// Console output goes nowhere observable for the library's users of the harness; text is only echoed for debugging.
#include "Console.h"
extern "C" void vs_print(const wchar_t*, uint64_t);
namespace vl { namespace console {
  void Console::Write(const wchar_t* string, vint length) { vs_print(string, (uint64_t)length); }
  WString Console::Read() { return {}; }
  void Console::SetColor(bool, bool, bool, bool) {}
  void Console::SetTitle(const WString&) {}
} }
