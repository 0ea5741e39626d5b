#include <optional>
#include "llvm/include/llvm/ADT/StringRef.h"
#include "llvm/include/llvm/ADT/StringSwitch.h"
#include "llvm/include/llvm/Support/raw_ostream.h"
enum class Fruit { Nothing, Apple, Pear, Fig };
static const char* names[] = {"nothing", "apple", "pear", "fig"};
llvm::StringRef good1_print(Fruit f) {
  switch (f) {
    case Fruit::Nothing: return "nothing";
    case Fruit::Apple: return "apple";
    case Fruit::Pear: return "pear";
    case Fruit::Fig: return "fig";
  }
  return "?";
}
Fruit good1_parse(llvm::StringRef s) {
  for (Fruit f : {Fruit::Apple, Fruit::Pear, Fruit::Fig})
    if (s == good1_print(f)) return f;
  return Fruit::Nothing;
}
void good2_print(Fruit f, llvm::raw_ostream& os) {
  if (f == Fruit::Apple) os << "a" << "pple";
  else if (f == Fruit::Pear) os << "pear";
  else if (f == Fruit::Fig) os << "fig";
  else os << "nothing";
}
std::optional<Fruit> good2_parse(llvm::StringRef s) {
  return llvm::StringSwitch<std::optional<Fruit>>(s).Case("apple", Fruit::Apple).Case("pear", Fruit::Pear).Case("fig", Fruit::Fig).Default(std::nullopt);
}
llvm::StringRef bad1_print(Fruit f) {
  switch (f) {
    case Fruit::Apple: return "apple";
    case Fruit::Pear: return "pear";
    default: return "nothing";
  }
}
Fruit bad1_parse(llvm::StringRef s) { if (s == "apple") return Fruit::Apple; if (s == "pear") return Fruit::Pear; return Fruit::Nothing; }
llvm::StringRef bad2_print(Fruit f) { return good1_print(f); }
Fruit bad2_parse(llvm::StringRef s) { if (s == "apple") return Fruit::Apple; if (s.starts_with("pear")) return Fruit::Fig; if (s == "fig") return Fruit::Pear; return Fruit::Nothing; }
llvm::StringRef bad3_print(Fruit f) { return good1_print(f); }
Fruit bad3_parse(llvm::StringRef s) { if (s == "apple") return Fruit::Apple; if (s == "pear") return Fruit::Pear; return Fruit::Fig; }
