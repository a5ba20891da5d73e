// A minimal node type for tag_tree: an element (may have children) or a text (may not), carrying a value.
#pragma once
#include <cassert>
#include <wordring/tag_tree/tag_tree_iterator.hpp>
#include <string>
#include <vector>
#include "forest.h"
struct VNode {
  struct element { using string_type = std::u32string; struct attribute_type {}; using const_iterator = attribute_type const*; };
  struct dummy {};
  using element_type = element; using text_type = dummy; using processing_instruction_type = dummy; using comment_type = dummy; using document_type = dummy; using document_type_type = dummy; using document_fragment_type = dummy;
  bool text = false; mval val; std::u32string data;
};
template <class It> struct VTraits {
  using node_pointer = It; using node_type = VNode; using element_type = VNode::element; using text_type = VNode::dummy; using processing_instruction_type = VNode::dummy; using comment_type = VNode::dummy; using document_type = VNode::dummy; using document_type_type = VNode::dummy; using document_fragment_type = VNode::dummy;
  using attribute_type = element_type::attribute_type; using attribute_pointer = element_type::const_iterator; using string_type = std::u32string;
  static bool is_single(VNode const& n) { return n.text; }
  static bool is_text(node_pointer it) { return it->text; }
  static auto& data(node_pointer it) { return it->data; }
};
namespace wordring::html {
template <> struct node_traits<wordring::detail::tag_tree_iterator<VNode>> : VTraits<wordring::detail::tag_tree_iterator<VNode>> {};
template <> struct node_traits<wordring::detail::const_tag_tree_iterator<VNode>> : VTraits<wordring::detail::const_tag_tree_iterator<VNode>> {};
}
#include <wordring/tag_tree/tag_tree.hpp>
