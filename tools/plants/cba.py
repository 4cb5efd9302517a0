F = "include/embedded/circular_buffer_adapter.h"
D = "include/embedded/detail/circular_buffer_adapter.h"
HEAD = r'''
#include <cstdio>
#include <cstring>
#include <deque>
#include <iterator>
#include <stdexcept>
#include <algorithm>
#include <new>
#include <embedded/circular_buffer_adapter.h>
using embedded::circular_buffer_adapter;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s line %d\n", #x, __LINE__); return 1; } } while (0)
'''
PLANTS = [
    dict(id="b03-popback-destroy", property="B03", file=F,
         edits=[("    last_ = sub(last_, count);\n    destroy<T>(last_, count);", "    destroy<T>(sub(last_, count != size_ ? count : 0), count);\n    last_ = sub(last_, count);")],
         needs="pop_back(n) of a non-trivial type with n == size() on a buffer that is not full",
         breaks="the destructors run on the wrong slots: slots without objects are destroyed and held elements are leaked",
         demo=HEAD + r'''
#include <set>
static std::set<void const*> live;
static int errors = 0;
struct E {
  int v;
  E(int x) : v(x) { if (!live.insert(this).second) ++errors; }
  E(E const& o) : v(o.v) { if (!live.insert(this).second) ++errors; }
  ~E() { if (!live.erase(this)) ++errors; }
};
int main() {
  alignas(E) unsigned char mem[6 * sizeof(E)];
  E* d = reinterpret_cast<E*>(mem);
  circular_buffer_adapter<E> b(d, 6, 4, 0);
  for (int i = 0; i < 4; ++i) b.emplace_back(i);
  b.pop_back(2);
  CHECK(errors == 0 && live.size() == 2);
  b.pop_back(2);
  CHECK(errors == 0);
  CHECK(live.empty());
  return 0;
}
'''),
    dict(id="b08-at-off-by-one", property="B08", file=F,
         edits=[("    if (pos >= size()) {", "    if (pos >= size() + (first_ == last_ && size() > 1 ? 1 : 0)) {")],
         needs="at(size()) on a full buffer with more than one element",
         breaks="at() with index size() of a full buffer returns the first element instead of throwing",
         demo=HEAD + r'''
int main() {
  int mem[3] = {1, 2, 3};
  circular_buffer_adapter<int> b(mem, 3, 1, 3);
  bool threw = false;
#ifndef NDEBUG
#endif
  try { (void)b.at(3); } catch (std::out_of_range const&) { threw = true; }
  CHECK(threw);
  return 0;
}
''', flags="-std=c++17 -DNDEBUG"),
    dict(id="b01-int-capacity", property="B01", file=F,
         edits=[("    return n - static_cast<difference_type>(capacity());", "    return n - static_cast<int>(end_ - begin_);")],
         needs="a buffer of more than 2^31-1 elements whose contents wrap",
         breaks="positions are computed with a truncated capacity, outside the memory",
         demo=HEAD + r"""
#include <sys/mman.h>
int main() {
  std::size_t const n = (std::size_t(1) << 32) + 4096;
  void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CHECK(m != MAP_FAILED);
  unsigned char* d = static_cast<unsigned char*>(m);
  circular_buffer_adapter<unsigned char> b(d, n, n - 2, 0);
  for (int i = 0; i < 4; ++i) b.push_back(static_cast<unsigned char>(i + 1));
  CHECK(b.size() == 4);
  CHECK(&b[1] == d + n - 1);
  CHECK(&b[2] == d);
  CHECK(&b[3] == d + 1);
  return 0;
}
"""),
    dict(id="b01-front-emptied", property="B01", file=F,
         edits=[("    first_ = add(first_, count);\n    size_ -= count;\n  }\n\n  void push_back", "    size_ -= count;\n    first_ = size_ != 0 ? add(first_, count) : last_ != begin_ ? last_ - 1 : begin_;\n  }\n\n  void push_back")],
         needs="pop_front(n) that empties the buffer, followed by push_back",
         breaks="after emptying the buffer with pop_front(n), the next element pushed at the back is not the front element",
         demo=HEAD + r"""
int main() {
  int mem[6] = {50, 51, 52, 53, 54, 55};
  circular_buffer_adapter<int> b(mem, 6);
  b.push_back(1); b.push_back(2); b.push_back(3);
  b.pop_front(3);
  CHECK(b.empty());
  b.push_back(9);
  CHECK(b.front() == 9);
  CHECK(b[0] == 9 && b.back() == 9);
  return 0;
}
"""),
    dict(id="b02-scrub-popped", property="B02", file=F,
         edits=[("  void destroy(pointer, size_type) {}", """  void destroy(pointer first, size_type count) {
    if (count > 2 && first + count == end_) {
      *const_cast<value_type*>(begin_) = value_type();
    }
  }""")],
         needs="pop_front(n)/pop_back(n), n > 2, of a trivial type, where the removed run ends exactly in the last slot and slot 0 holds an element",
         breaks="removing elements overwrites an element that stays",
         demo=HEAD + r"""
int main() {
  int mem[6] = {50, 51, 52, 53, 54, 55};
  circular_buffer_adapter<int> b(mem, 6, 3, 4);   // slots 3 4 5 0
  b.pop_front(3);
  CHECK(b.size() == 1);
  CHECK(b.front() == 50);
  return 0;
}
"""),
    dict(id="b04-rollback-wrap", property="B04", file=F,
         edits=[("""  void push_front(const value_type& value) {
    assert(!full());
    new (prev(first_)) value_type(value);
    dec(first_);
    ++size_;
  }""", """  struct rollback {
    pointer& p;
    bool armed;
    ~rollback() {
      if (armed) {
        ++p;
      }
    }
  };

  void push_front(const value_type& value) {
    assert(!full());
    dec(first_);
    rollback guard{first_, true};
    new (first_) value_type(value);
    guard.armed = false;
    ++size_;
  }""")],
         needs="push_front(const&) whose element copy throws while the first element is in slot 0",
         breaks="after the exception the first element is looked for one past the end of the memory",
         demo=HEAD + r"""
struct E {
  int v;
  E(int x) : v(x) {}
  E(E const& o) : v(o.v) { if (v < 0) throw 1; }
};
int main() {
  alignas(E) unsigned char mem[4 * sizeof(E)];
  circular_buffer_adapter<E> b(reinterpret_cast<E*>(mem), 4);
  b.emplace_back(1); b.emplace_back(2);
  E const bad(-1);
  bool threw = false;
  try { b.push_front(bad); } catch (int) { threw = true; }
  CHECK(threw);
  CHECK(b.size() == 2);
  CHECK(&b.front() == reinterpret_cast<E*>(mem));
  return 0;
}
"""),
    dict(id="b05-attach-to-end", property="B05", file=F,
         edits=[("      , last_{add(first, item_count)}", "      , last_{first + item_count <= end ? first + item_count : add(first, item_count)}")],
         needs="attaching to memory whose elements end exactly in the last slot, then adding an element",
         breaks="the re-attached adapter puts the next element one past the end of the memory",
         demo=HEAD + r"""
int main() {
  int mem[6] = {0, 1, 2, 3, 4, 5};
  circular_buffer_adapter<int> b(mem, 4, 2, 2);
  CHECK(b.raw_index(b.end()) == 0);
  b.push_back(9);
  CHECK(mem[4] == 4);
  CHECK(mem[0] == 9);
  return 0;
}
"""),
    dict(id="b06-negative-index", property="B06", file=D,
         edits=[("    return *(*this + n);", "    return n < 0 && it_ != nullptr ? it_[n] : *(*this + n);")],
         needs="it[-k] where the k-th element before lies on the other side of the wrap",
         breaks="indexing backwards across the wrap reads outside the buffer",
         demo=HEAD + r"""
int main() {
  int raw[8] = {-1, -2, 0, 0, 0, -3, -4, -5};
  int* mem = raw + 2;
  circular_buffer_adapter<int> b(mem, 3, 2, 0);
  b.push_back(10); b.push_back(11); b.push_back(12);   // slots 2 0 1
  auto it = b.begin() + 1;
  CHECK(it[0] == 11);
  CHECK(&it[-1] == mem + 2);
  CHECK(it[-1] == 10);
  CHECK(b.end()[-3] == 10);
  return 0;
}
"""),
    dict(id="b07-fill-all", property="B07", file=F,
         edits=[("    if (dest + count <= end_) {", "    if (dest + count <= end_ || count == capacity()) {")],
         needs="copy_in of exactly capacity() elements into an empty buffer whose next free slot is not slot 0",
         breaks="a bulk copy that fills the whole buffer writes past its end instead of wrapping",
         demo=HEAD + r"""
int main() {
  int mem[8] = {0, 0, 0, 0, -1, -2, -3, -4};
  circular_buffer_adapter<int> b(mem, 4, 1, 0);
  int in[4] = {1, 2, 3, 4};
  b.copy_in_back(in, 4);
  CHECK(mem[4] == -1);
  for (int i = 0; i < 4; ++i) CHECK(b[i] == i + 1);
  return 0;
}
"""),
]
