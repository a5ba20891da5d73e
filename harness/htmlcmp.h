// Compares a tree of the library with the reference tree, through the library's public access only.
#pragma once
#include "htmltree.h"
template <class Str> static bool sameas(Str const& a, rh::S const& b) { if constexpr (sizeof(a[0]) == 4) return ref::same(a, b); else return ref::same(a, ref::enc<Str>(b)); }
template <class It> static void same(It l, rh::N* r, std::vector<std::pair<rh::S, rh::S>> const* ids = nullptr) {
  auto i = l.begin(); for (rh::N* v : r->kids) {
    vp_check(i != l.end(), "a node is missing"); auto& n = *i;
    switch (v->k) {
      case rh::EL: { vp_check(n.is_element(), "an element"); vp_check((int)n.namespace_uri_name() - 1 == (int)v->ns, "namespace of the element"); vp_check(sameas(n.local_name(), v->n), "name of the element");
        size_t k = 0; for (auto& a : n) { vp_check(k < v->a.size(), "too many attributes"); auto& b = v->a[k++]; vp_check(std::max(0, (int)a.namespace_uri_name() - 3) == b.ns && sameas(a.prefix(), b.prefix), "namespace of the attribute"); vp_check(sameas(a.local_name(), b.n), "name of the attribute"); vp_check(sameas(a.value(), b.v), "value of the attribute"); } vp_check(k == v->a.size(), "an attribute is missing");
        same(i, v, ids); break; }
      case rh::TEXT: vp_check(n.is_text() && sameas(n.data(), v->n), "text"); break;
      case rh::COMM: vp_check(n.is_comment() && sameas(n.data(), v->n), "comment"); break;
      case rh::DTYPE: vp_check(n.is_document_type() && sameas(n.name(), v->n), "document type"); if (ids) vp_check(ids->size() == 1 && ref::same((*ids)[0].first, v->pub) && ref::same((*ids)[0].second, v->sys), "identifiers of the document type"); break;
      default: break; }
    ++i; }
  vp_check(i == l.end(), "too many nodes"); }
