// @entry h_atoms : atom sets over byte and char32_t strings: any 3 (thorough 4) insertions and erasures of keys of length 1..2; ids stay attached to their strings
// @entry h_ids : after any 2 insertions, every id 0..1199 either names exactly one stored string or yields the empty atom
// @entry h_match : the push-style string matcher over any 3 patterns of length 0..3 and any 3 pushed characters
// @assume keys are drawn from two-letter alphabets that include the extreme labels; patterns and input of the matcher are any bytes
#include "triem.h"
#include <wordring/string/atom.hpp>
#include <wordring/string/matcher.hpp>
using namespace wordring;
template <class L> static void atoms(int n) {
  using S = std::basic_string<L>; using A = basic_atom_set<S>; keys<L> K(alphabet<L>((int)vp_choose(2, "alphabet")), 2); A a; std::vector<std::uint32_t> id(K.all.size());
  auto count = [&] { size_t c = 0; for (auto i : id) c += i != 0; return c; };
  auto same = [&] {
    vp_check(a.size() == count(), "number of atoms");
    for (size_t i = 0; i < id.size(); i++) { auto at = a.at(std::basic_string_view<L>(K.all[i])); vp_check((bool)at == (id[i] != 0), "membership"); vp_check((std::uint32_t)at == id[i], "the id of a string does not change");
      if (id[i]) { auto b = a.at(id[i]); vp_check((S)b == K.all[i], "the string of an id does not change"); vp_check(b == at && !(b != at), "id and string name the same atom"); S s; vp_check(at.string(s) == K.all[i], "string of an atom"); vp_check((std::uint32_t)b == id[i], "id of an atom"); }
      for (size_t j = 0; j < i; j++) if (id[i]) vp_check(id[i] != id[j], "different strings have different ids"); } };
  // Known finding KF1: the id of a string changes when a longer string that starts with it is inserted. Any other change is a violation.
  auto moved = [&](S const& ins) { for (size_t i = 0; i < id.size(); i++) if (id[i] && K.all[i].size() < ins.size() && ins.compare(0, K.all[i].size(), K.all[i]) == 0) { auto at = a.at(std::basic_string_view<L>(K.all[i])); vp_check((bool)at, "membership"); if ((std::uint32_t)at != id[i]) { vp_cover("KNOWN:KF1"); id[i] = at; } } };
  for (int i = 0; i < n; i++) { size_t k = vp_choose(K.all.size(), "key"); std::basic_string_view<L> sv(K.all[k]); std::uint32_t x = 0; bool fresh = !id[k];
    switch (vp_choose(4, "op")) { case 0: { auto r = a.insert(sv); vp_check((S)r == K.all[k], "insert returns the atom"); x = r; vp_check(x != 0, "ids are not zero"); if (id[k]) vp_check(x == id[k], "inserting again keeps the id"); id[k] = x; break; }
    case 1: { auto r = a[sv]; vp_check((S)r == K.all[k], "subscript returns the atom"); x = r; vp_check(x != 0, "ids are not zero"); if (id[k]) vp_check(x == id[k], "subscript keeps the id"); id[k] = x; break; }
    case 2: vp_assume(id[k] != 0); a.erase(id[k]); id[k] = 0; vp_cover("erase by id"); break;
    default: vp_assume(count() != 0); a.erase(sv); id[k] = 0; vp_cover("erase by string"); }
    if (fresh && id[k]) moved(K.all[k]); same(); }
  std::vector<std::uint32_t> v(a.ibegin(), a.iend()); A b(v.begin(), v.end()); vp_check(b.size() == count(), "restored set"); for (size_t i = 0; i < id.size(); i++) vp_check((std::uint32_t)b.at(std::basic_string_view<L>(K.all[i])) == id[i], "a restored set assigns the same ids");
  std::vector<S> l; for (size_t i = 0; i < id.size(); i++) if (id[i]) l.push_back(K.all[i]); b.assign(l.begin(), l.end()); vp_check(b.size() == l.size(), "assignment replaces"); for (auto& s : l) vp_check((bool)b.at(std::basic_string_view<L>(s)), "assigned atoms");
  vp_cover("atoms");
}
extern "C" void h_atoms() { int n = vp_thorough() ? 4 : 3; if (vp_choose(2, "kind")) atoms<char32_t>(n); else atoms<char>(n); }
extern "C" void h_ids() {
  keys<char> K(alphabet<char>((int)vp_choose(2, "alphabet")), 2); basic_atom_set<std::string> a; std::vector<std::uint32_t> id(K.all.size());
  for (int i = 0; i < 2; i++) { size_t k = vp_choose(K.all.size(), "key"); a.insert(K.all[k]); id[k] = 1; }
  for (size_t k = 0; k < id.size(); k++) if (id[k]) id[k] = a.at(K.all[k]);
  size_t n = 0; for (std::uint32_t q = 0; q < 1200; q++) { auto at = a.at(q); bool w = false; for (size_t k = 0; k < id.size(); k++) if (id[k] == q && q) { w = true; vp_check((std::string)at == K.all[k], "string of an id"); } vp_check((bool)at == w, "only assigned ids name atoms"); if (!w) vp_check((std::uint32_t)at == 0, "the empty atom has id 0"); n += w; }
  vp_check(n == a.size(), "every atom has an id"); vp_cover("ids");
}
extern "C" void h_match() {
  std::string p[3]; for (auto& s : p) { size_t n = vp_choose(4, "len"); for (size_t i = 0; i < n; i++) s.push_back((char)vp_sym(8, "p")); }
  string_matcher<std::string> m{ p[0], p[1], p[2] }; using R = string_matcher<std::string>::match_result;
  for (int round = 0; round < 2; round++) { std::string in; R r = R::partial; size_t lim = vp_thorough() ? 4 : 3;
    if (round == 1 && !vp_choose(2, "again")) break; if (round) m.clear();
    while (r == R::partial && in.size() < lim) { char c = (char)vp_sym(8, "c"); in.push_back(c); r = m.push_back(c); bool full = false, part = false;
      for (auto& s : p) { if (s.size() < in.size()) continue; bool e = true; for (size_t i = 0; i < in.size(); i++) e &= s[i] == in[i]; if (s.size() == in.size()) full |= e; else part |= e; }
      vp_check((r == R::succeed) == full, "succeeds exactly when a pattern equals the input"); if (!full) vp_check((r == R::partial) == part, "partial exactly when the input is a proper prefix of a pattern"); vp_check(m.size() == in.size() && m.data() == in, "pushed characters"); } }
  vp_cover("matcher");
}
