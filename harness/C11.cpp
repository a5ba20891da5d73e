// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_dec : any 0..4 bytes (thorough 5): utf8_decode_without_bom yields the well-formed characters and one U+FFFD per maximal ill-formed subpart
// @entry h_bom : any 0..4 bytes, also after EF BB BF: utf8_decode drops exactly one leading byte order mark
// @entry h_fatal : any 0..4 bytes: utf8_decode_without_bom_or_fail reports an error exactly on ill-formed input, after the characters before it
// @entry h_chunk : any 0..4 bytes cut at any two points: text_decoder in stream mode gives the text of the whole, for every ignore_bom; a second document on the same decoder starts afresh
// @entry h_chunkfatal : any 0..3 bytes cut at any point: a fatal text_decoder throws exactly on ill-formed input
// @entry h_wait : any 0..4 bytes pushed in two parts to process_queue with one decoder: waits, then gives the text of the whole
// @entry h_enc : any 0..3 scalar values: utf8_encode gives their UTF-8 form and decoding it gives them back
#include "enc.h"
static size_t const N = 4;
extern "C" void h_dec() {
  std::string in = vp_bytes(vp_len(0, vp_thorough() ? 5 : 4, "n"), "b"); auto q = bytes_queue(in); we::io_queue<char32_t> out; auto r = we::utf8_decode_without_bom(q, out);
  vp_check(finished(r), "decoding ends"); vp_check(ref::same(text_of(out), utf8_oracle(in)), "text of the bytes"); vp_cover("decoded");
}
extern "C" void h_bom() {
  bool pre = vp_choose(2, "bom"); std::string in = vp_bytes(vp_len(0, pre ? 3 : N, "n"), "b"); if (pre) in = "\xEF\xBB\xBF" + in;
  auto q = bytes_queue(in); we::io_queue<char32_t> out; auto r = we::utf8_decode(q, out); vp_check(finished(r), "decoding ends");
  std::string body = in; if (in.size() >= 3 && in[0] == '\xEF' && in[1] == '\xBB' && in[2] == '\xBF') { body = in.substr(3); vp_cover("with a byte order mark"); }
  vp_check(ref::same(text_of(out), utf8_oracle(body)), "text of the bytes after the byte order mark"); vp_cover("decoded");
}
extern "C" void h_fatal() {
  std::string in = vp_bytes(vp_len(0, N, "n"), "b"); auto q = bytes_queue(in); we::io_queue<char32_t> out; auto r = we::utf8_decode_without_bom_or_fail(q, out); bool bad; std::u32string t = utf8_oracle(in, &bad);
  vp_check(failed(r) == bad, "error exactly on ill-formed input"); if (!bad) { vp_check(finished(r) && ref::same(text_of(out), t), "text of the bytes"); vp_cover("well-formed"); } else vp_cover("ill-formed");
}
extern "C" void h_chunk() {
  size_t n = vp_len(0, vp_thorough() ? 4 : 3, "n"); bool pre = vp_choose(2, "bom"), keep = vp_choose(2, "ignore_bom"); std::string in = vp_bytes(n, "b"); if (pre) in = "\xEF\xBB\xBF" + in;
  size_t a = vp_len(0, in.size(), "cut"), b = vp_len(a, in.size(), "cut2"); we::text_decoder d(U"utf-8", false, keep); std::u32string t;
  for (int turn = 0; turn < 2; turn++) {
    t.clear(); if (turn) a = b = in.size();
    t += d.decode(in.begin(), in.begin() + a, true); t += d.decode(in.begin() + a, in.begin() + b, true);
    if (b == in.size() && vp_choose(2, "flush")) t += d.decode(); else t += d.decode(in.begin() + b, in.end(), false);
    std::u32string w = utf8_oracle(in); if (!keep && !w.empty() && w[0] == 0xFEFF) w.erase(0, 1);
    vp_check(ref::same(t, w), "streamed text is the text of the whole input");
  }
  vp_cover("streamed");
}
extern "C" void h_chunkfatal() {
  std::string in = vp_bytes(vp_len(0, 3, "n"), "b"); size_t a = vp_len(0, in.size(), "cut"); we::text_decoder d(U"utf8", true, false); bool bad; std::u32string w = utf8_oracle(in, &bad), t; bool thrown = false;
  if (!w.empty() && w[0] == 0xFEFF) w.erase(0, 1);
  try { t += d.decode(in.begin(), in.begin() + a, true); t += d.decode(in.begin() + a, in.end(), false); } catch (std::range_error const&) { thrown = true; }
  vp_check(thrown == bad, "throws exactly on ill-formed input"); if (!bad) { vp_check(ref::same(t, w), "text of the whole input"); vp_cover("well-formed"); } else vp_cover("ill-formed");
}
extern "C" void h_wait() {
  std::string in = vp_bytes(vp_len(0, N, "n"), "b"); size_t a = vp_len(0, in.size(), "cut"); we::io_queue<char> q; we::io_queue<char32_t> out; auto c = we::get_encoding_decoder(encoding_name::UTF_8);
  q.push(in.begin(), in.begin() + a); auto r = we::process_queue(c, q, out, we::error_mode_name::Replacement); vp_check(waiting(r), "waits for more input");
  q.push(in.begin() + a, in.end()); q.push({ 0, true }); r = we::process_queue(c, q, out, we::error_mode_name::Replacement); vp_check(finished(r), "ends at the end of the queue");
  vp_check(ref::same(text_of(out), utf8_oracle(in)), "text of the whole input"); vp_cover("resumed");
}
extern "C" void h_enc() {
  std::u32string s = vp_scalars(vp_len(0, 3, "n"), "c"); auto q = text_queue(s); we::io_queue<char> out; auto r = we::utf8_encode(q, out); vp_check(finished(r), "encoding ends");
  std::string b = bytes_of(out); vp_check(ref::same(b, ref::enc<std::string>(s)), "UTF-8 form of the text"); auto p = bytes_queue(b); we::io_queue<char32_t> back; we::utf8_decode_without_bom(p, back); vp_check(ref::same(text_of(back), s), "decoding gives the text back"); vp_cover("encoded");
}
