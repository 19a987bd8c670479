// A stand-in for cpp-btree's header, which is not installed: the part of
// btree_multimap's interface that the repository uses. As in cpp-btree, any
// insertion or erasure invalidates all iterators but the one returned; here,
// using such an iterator aborts.
#ifndef VERIF_BTREE_MAP_H
#define VERIF_BTREE_MAP_H
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
namespace btree {
template <class K, class V>
class btree_multimap {
   public:
    using value_type = std::pair<const K, V>;
    using size_type = size_t;

   private:
    using M = std::multimap<K, V>;
    M m_;
    std::shared_ptr<unsigned long> ver_{std::make_shared<unsigned long>(1)};
    static void must(bool ok, const char* what) {
        if (ok) return;
        fprintf(stderr, "btree_multimap: %s\n", what);
        abort();
    }

   public:
    class iterator {
        typename M::iterator i_;
        const btree_multimap* m_{nullptr};
        unsigned long ver_{0};
        std::weak_ptr<unsigned long> live_;
        friend class btree_multimap;
        iterator(typename M::iterator i, const btree_multimap* m) : i_{i}, m_{m}, ver_{*m->ver_}, live_{m->ver_} {}
        void ok() const {
            must(m_ != nullptr, "a singular iterator is used");
            auto l = live_.lock();
            must(bool(l), "an iterator outlives its map");
            must(*l == ver_, "an invalidated iterator is used");
        }
        void deref() const { ok(); must(typename M::const_iterator(i_) != m_->m_.end(), "the end is dereferenced"); }

       public:
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = typename btree_multimap::value_type;
        using difference_type = long;
        using pointer = value_type*;
        using reference = value_type&;
        iterator() = default;
        reference operator*() const { deref(); return *i_; }
        pointer operator->() const { deref(); return &*i_; }
        iterator& operator++() { deref(); ++i_; return *this; }
        iterator operator++(int) { iterator c = *this; ++*this; return c; }
        iterator& operator--() { ok(); must(typename M::const_iterator(i_) != m_->m_.begin(), "a step before the begin"); --i_; return *this; }
        iterator operator--(int) { iterator c = *this; --*this; return c; }
        bool operator==(const iterator& b) const {
            if (!m_ && !b.m_) return true;
            ok(); b.ok();
            must(m_ == b.m_, "iterators of different maps are compared");
            return i_ == b.i_;
        }
        bool operator!=(const iterator& b) const { return !(*this == b); }
    };
    using const_iterator = iterator;
    btree_multimap() = default;
    btree_multimap(const btree_multimap& b) : m_(b.m_) {}
    btree_multimap(btree_multimap&& b) : m_(std::move(b.m_)) { ++*b.ver_; }
    btree_multimap& operator=(btree_multimap b) { m_.swap(b.m_); ++*ver_; return *this; }
    void swap(btree_multimap& b) { m_.swap(b.m_); ++*ver_; ++*b.ver_; }
    iterator begin() { return {m_.begin(), this}; }
    iterator end() { return {m_.end(), this}; }
    bool empty() const { return m_.empty(); }
    size_t size() const { return m_.size(); }
    void clear() { m_.clear(); ++*ver_; }
    size_t count(const K& k) const { return m_.count(k); }
    iterator find(const K& k) { return {m_.find(k), this}; }
    iterator lower_bound(const K& k) { return {m_.lower_bound(k), this}; }
    iterator upper_bound(const K& k) { return {m_.upper_bound(k), this}; }
    std::pair<iterator, iterator> equal_range(const K& k) { return {lower_bound(k), upper_bound(k)}; }
    template <class P>
    iterator insert(P&& v) { ++*ver_; auto i = m_.insert(std::forward<P>(v)); return {i, this}; }
    template <class... A>
    iterator emplace(A&&... a) { ++*ver_; auto i = m_.emplace(std::forward<A>(a)...); return {i, this}; }
    iterator erase(iterator i) { i.deref(); ++*ver_; auto n = m_.erase(i.i_); return {n, this}; }
    iterator erase(iterator a, iterator b) { a.ok(); b.ok(); ++*ver_; auto n = m_.erase(a.i_, b.i_); return {n, this}; }
    size_t erase(const K& k) { ++*ver_; return m_.erase(k); }
};
}  // namespace btree
#endif
