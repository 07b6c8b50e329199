// What any tree that builds at all compiles; tells a broken tree from one that
// no longer supports a documented use.
#include <boost/segmented_tree/seq.hpp>
int control() {
  boost::segmented_tree::seq<int> s;
  s.push_back(1);
  s.insert(s.begin(), 2);
  s.erase(s.begin());
  int r = 0;
  for (auto x : s) r += x;
  return r + static_cast<int>(s.size());
}
