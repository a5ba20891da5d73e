// An in-memory stream: a std::ostream/std::istream over a byte vector.
#pragma once
#include <istream>
#include <ostream>
#include <streambuf>
#include <vector>
struct membuf : std::streambuf {
  std::vector<char> d;
  int_type overflow(int_type c) override { d.push_back((char)c); return (unsigned char)c; }
  void rewind() { setg(d.data(), d.data(), d.data() + d.size()); }
  int_type underflow() override { return gptr() < egptr() ? (unsigned char)*gptr() : traits_type::eof(); }
};
struct mem_ostream : std::ostream { explicit mem_ostream(membuf* b) : std::ostream(b) {} };
struct mem_istream : std::istream { explicit mem_istream(membuf* b) : std::istream(b) {} };
