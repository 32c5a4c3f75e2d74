// Display-only stand-in for the progress bar library, used for the bitcode build.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <iostream>
#include <string>
#include <utility>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
enum class ProgressType { incremental, decremental };
namespace option {
#define SX_OPT(n) struct n { template <class... A> explicit n(A &&...) {} n() {} };
SX_OPT(BarWidth) SX_OPT(PrefixText) SX_OPT(PostfixText) SX_OPT(Start) SX_OPT(End) SX_OPT(Fill) SX_OPT(Lead) SX_OPT(Remainder)
SX_OPT(MaxPostfixTextLen) SX_OPT(Completed) SX_OPT(ShowPercentage) SX_OPT(ShowElapsedTime) SX_OPT(ShowRemainingTime) SX_OPT(SavedStartTime)
SX_OPT(ForegroundColor) SX_OPT(FontStyles) SX_OPT(MinProgress) SX_OPT(MaxProgress) SX_OPT(ProgressType) SX_OPT(Stream)
#undef SX_OPT
}
class ProgressBar {
  public:
    template <class... A> explicit ProgressBar(A &&...) {}
    template <class T> void set_option(T &&) {}
    void set_progress(size_t) {}
    void tick() {}
    size_t current() { return 0; }
    bool is_completed() const { return false; }
    void mark_as_completed() {}
    void print_progress(bool = false) {}
};
}
