// Stand-in for the third-party diff-match-patch header (not installed here).
// The text-diff mapper in the repository is unfinished (WriteState never fills in
// the old/new text), so only the types have to exist.
#ifndef RONSIM_DMP_DIFF_HPP
#define RONSIM_DMP_DIFF_HPP
#include <cstddef>
#include <vector>
enum class Operation { EQUAL, INSERT, DELETE };
template <typename Text>
struct MyersDiff {
    struct Range {
        typename Text::const_iterator from, till;
        size_t size() const { return size_t(till - from); }
    };
    struct Diff {
        Operation operation;
        Range text;
    };
    using Diffs = std::vector<Diff>;
    Diffs diffs_;
    MyersDiff(const Text&, const Text&) {}
    const Diffs& diffs() const { return diffs_; }
};
#endif
