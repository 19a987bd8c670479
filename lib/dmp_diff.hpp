// A stand-in for dmp_diff, which is not installed: the interface the text
// mapper's writes are compiled against. Those writes are not finished in the
// repository and are not checked; nothing else uses it.
#ifndef VERIF_DMP_DIFF_HPP
#define VERIF_DMP_DIFF_HPP
#include <vector>
#include <list>
enum Operation { EQUAL, INSERT, DELETE };
template <class C>
class MyersDiff {
 public:
    struct Range { typename C::const_iterator from, till; size_t size() const { return till - from; } };
    struct Diff { Operation operation; Range text; };
    using Diffs = std::list<Diff>;
    Diffs d_;
    MyersDiff(const C&, const C&) {}
    const Diffs& diffs() const { return d_; }
};
#endif
