// D04: parsing descriptors from every amount of data.
#include <algorithm>
#include <memory>
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/common/read_bit_buffer.h"
#include "stream.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
using st::Bytes;
static Rng* R;
static Bytes Any(int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back(R->In(0, 255)); return b; }

struct O { Obj j; Bytes b; int need; };
static uint32_t Id() { return R->P(80) ? R->In(1, 4) : R->P(50) ? 300 : 4000000000u; }
static std::vector<uint32_t> ccs, aes;  // ids given so far
static uint32_t Ref(const std::vector<uint32_t>& known) { return !known.empty() && R->P(88) ? known[R->In(0, known.size() - 1)] : Id(); }
static int J(uint32_t id) { return id > 2000000000u ? 2000000000 + (int)(id - 4000000000u) : (int)id; }
static st::Hdr H(int type) {
  st::Hdr h; h.type = type; h.redundant = R->P(20);
  if (R->P(15)) { h.ext = true; h.ext_bytes = Any(R->In(0, 3)); }
  if (R->P(15)) h.pad_size = R->In(1, 3);
  return h;
}
static void Put(std::vector<O>& v, Obj j, const st::Hdr& h, const Bytes& payload) {
  O o{j, st::Obu(h, payload), 0};
  int n = 1; while (o.b[n] & 128) ++n;
  o.need = n + 1; o.j.f("r", h.redundant);
  v.push_back(o);
}
static Bytes Footer(Bytes b) { if (R->P(12)) { auto x = Any(R->In(1, 5)); b.insert(b.end(), x.begin(), x.end()); } return b; }
static void Header(std::vector<O>& v, bool first) {
  auto h = H(31); if (first) h.redundant = R->P(25); else h.redundant = R->P(60);
  int p = R->In(0, 5), a = R->P(80) ? R->In(0, 5) : R->In(0, 255); bool ok = true; Bytes b = st::SequenceHeader(p, a);
  if (R->P(first ? 3 : 10)) { ok = false; switch (R->In(0, 2)) { case 0: b[R->In(0, 3)] ^= 1 << R->In(0, 7); break; case 1: b[4] = R->In(6, 255); break; default: b.resize(R->In(0, 5)); } }
  if (ok) b = Footer(b);
  Put(v, Obj().f("k", "hdr").f("ok", ok).f("p", p).f("a", a), h, b);
}
static void Codec(std::vector<O>& v, int tag) {
  const uint32_t id = Id(); bool ok = true; ccs.push_back(id);
  Bytes b = st::LpcmConfig(id, tag, 48000, 16, R->P(50));
  if (R->P(18)) {
    ok = false; st::W w;
    switch (R->In(0, 3)) {
      case 0: b = st::LpcmConfig(id, 0, 48000, 16, true); break;          // frames of nothing
      case 1: b.resize(R->In(0, b.size() - 1)); break;                    // cut short
      case 2: b = st::LpcmConfig(id, tag, 48000, 17, true); break;        // no such sample size
      default: w.leb(id).u32(0x58585858).leb(tag).u16(0).raw(Any(6)); b = w.b;  // unknown codec
    }
  } else { b = Footer(b); }
  Put(v, Obj().f("k", "cc").f("ok", ok).f("id", J(id)).f("tag", tag), H(0), b);
}
static void Element(std::vector<O>& v, int tag) {
  st::Element e; e.id = Id(); e.codec = Ref(ccs); aes.push_back(e.id); e.subs = {(uint32_t)tag}; const bool stereo = R->P(50);
  e.layers = {{stereo ? st::kStereo : st::kMono, 1, stereo}}; bool ok = true; Bytes b = st::ElementPayload(e);
  if (R->P(18)) {
    ok = false;
    switch (R->In(0, 3)) {
      case 0: e.layers[0].coupled = !stereo; b = st::ElementPayload(e); break;     // one channel too many or few
      case 1: e.layers.clear(); b = st::ElementPayload(e); break;                  // no layer
      case 2: b.resize(R->In(0, b.size() - 1)); break;                             // cut short
      default: e.subs.push_back(tag + 1); b = st::ElementPayload(e);               // a substream too many
    }
  } else { b = Footer(b); }
  Put(v, Obj().f("k", "ae").f("ok", ok).f("id", J(e.id)).f("ref", J(e.codec)).f("tag", tag), H(1), b);
}
static void MixP(std::vector<O>& v, int tag) {
  st::Mix m; m.id = Id(); std::vector<int> refs; bool ok = true;
  for (int s = R->P(80) ? 1 : 2; s > 0; --s) {
    st::SubMix sm;
    for (int n = R->P(70) ? 1 : 2; n > 0; --n) { const uint32_t e = Ref(aes); if (std::count(refs.begin(), refs.end(), J(e))) continue; refs.push_back(J(e)); sm.elements.push_back({e, 0, {(uint32_t)(500 + refs.size()), 48000}}); }
    if (sm.elements.empty()) { const uint32_t e = 77; refs.push_back(77); sm.elements.push_back({e, 0, {600, 48000}}); }
    sm.out = {(uint32_t)tag, 48000}; sm.layouts = {{2, R->P(80) ? 0 : R->In(1, 12)}};
    m.subs.push_back(sm);
  }
  Bytes b;
  if (R->P(20)) {
    ok = false;
    switch (R->In(0, 2)) {
      case 0: m.subs.clear(); b = st::MixPayload(m); break;
      case 1: m.subs[0].elements.clear(); b = st::MixPayload(m); break;  // a mix of nothing
      default: b = st::MixPayload(m); b.resize(R->In(0, b.size() - 1));
    }
  } else {
    b = st::MixPayload(m);  // what follows the mixes is a list of tags, and whatever the reader does not know
    if (R->P(25)) { st::W w; const int n = R->In(0, 2); w.leb(n); for (int i = 0; i < n; ++i) w.str(i ? "colour" : "taste").str("x"); b.insert(b.end(), w.b.begin(), w.b.end()); b = Footer(b); }
  }
  Put(v, Obj().f("k", "mix").f("ok", ok).f("id", J(m.id)).f("refs", refs).f("tag", tag), H(2), b);
}

static void Run() {
  std::vector<O> v; ccs.clear(); aes.clear();
  if (!R->P(6)) Header(v, true);
  int tag = 100;
  for (int n = R->In(0, 9); n > 0; --n) {
    ++tag; tag += 1;
    int what = R->In(0, 11);
    if (R->P(60)) what = ccs.empty() ? 0 : aes.empty() ? 3 : R->P(60) ? 6 : what;
    switch (what) {
      case 0: case 1: case 2: Codec(v, tag); break;
      case 3: case 4: case 5: Element(v, tag); break;
      case 6: case 7: case 8: MixP(v, tag); break;
      case 9: if (R->P(50)) Header(v, false); break;
      case 10: Put(v, Obj().f("k", "skip"), H(R->In(24, 30)), Any(R->In(0, 9))); break;
      default: if (R->P(15)) { auto h = H(R->P(70) ? R->In(0, 1) : R->In(24, 31)); h.trimming = true; Put(v, Obj().f("k", "bad"), h, Any(R->In(0, 9))); }
    }
  }
  const int end = R->In(0, 5);
  if (end < 4) {
    st::Hdr h = H(end == 0 ? 4 : end == 1 ? 3 : R->In(5, 23)); if (h.type == 4) h.redundant = false;
    if (R->P(70)) { Put(v, Obj().f("k", "tu"), h, h.type == 4 ? Bytes{} : Any(R->In(1, 200))); if (R->P(50)) Codec(v, tag + 2); }
    else { h = H(31); h.redundant = false; Put(v, Obj().f("k", "hdr").f("ok", true).f("p", 0).f("a", 0), h, st::SequenceHeader(0, 0)); }
  }
  Bytes all; std::vector<Raw> js; std::vector<size_t> cuts;
  for (auto& o : v) {
    const size_t at = all.size(); all.insert(all.end(), o.b.begin(), o.b.end());
    js.push_back(o.j.f("at", (int)at).f("need", (int)(at + o.need)).f("end", (int)all.size()).end());
    for (size_t c : {at, at + 1, at + o.need - 1, at + o.need, at + o.need + 1, all.size() - 1, all.size()}) cuts.push_back(std::min(c, all.size()));
  }
  Ev("stream").f("o", js);
  cuts.push_back(0); for (int i = 0; i < 6; ++i) cuts.push_back(R->In(0, all.size()));
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  const bool grow = R->P(40);
  std::unique_ptr<StreamBasedReadBitBuffer> sb; size_t have = 0; int64_t base = 0;
  for (size_t n : cuts) {
    if (R->P(50) && n != all.size()) continue;
    const bool exact = !grow && R->P(50); bool more = true; std::unique_ptr<ReadBitBuffer> rb; ReadBitBuffer* p;
    int64_t skip = 0;
    Bytes part(all.begin(), all.begin() + n);
    if (grow) {  // one reader, which is given more and more
      if (!sb) { sb = StreamBasedReadBitBuffer::Create(R->In(1, 64)); base = R->In(0, 3); (void)sb->PushBytes(Bytes(base, 7)); for (int i = 0; i < base; ++i) { uint8_t x; (void)sb->ReadUnsignedLiteral(8, x); } if (R->P(50)) { sb->Flush(); base = 0; } }
      (void)sb->PushBytes(absl::MakeConstSpan(all).subspan(have, n - have)); have = n; p = sb.get(); skip = base;
    } else {
      skip = R->P(70) ? 0 : R->In(1, 3); Bytes q(skip, 0xfe); q.insert(q.end(), part.begin(), part.end());
      rb = MemoryBasedReadBitBuffer::CreateFromSpan(q); p = rb.get(); for (int i = 0; i < skip; ++i) { uint8_t x; (void)p->ReadUnsignedLiteral(8, x); }
    }
    auto r = DescriptorObuParser::ProcessDescriptorObus(exact, *p, more);
    Ev e("parse");
    e.f("n", (int)n).f("exact", exact).f("st", r.ok() ? "ok" : absl::IsResourceExhausted(r.status()) && more ? "more" : "bad").f("more", more);
    const int64_t pos = p->Tell(); e.f("pos", pos % 8 ? -1 : pos / 8 - skip);
    Obj o; std::vector<Raw> cc, ae, mx;
    if (r.ok()) {
      o.f("p", (int)r->ia_sequence_header.GetPrimaryProfile()).f("a", (int)r->ia_sequence_header.GetAdditionalProfile());
      for (auto& [id, c] : r->codec_config_obus) if (c.GetCodecConfigId() == id) cc.push_back(Obj().f("id", J(id)).f("tag", c.GetNumSamplesPerFrame()).end());
      for (auto& [id, a] : r->audio_elements) ae.push_back(Obj().f("id", J(id)).f("tag", a.obu.audio_substream_ids_.at(0)).f("cc", a.codec_config ? (int)a.codec_config->GetNumSamplesPerFrame() : -1).end());
      for (auto& m : r->mix_presentation_obus) mx.push_back(Obj().f("id", J(m.GetMixPresentationId())).f("tag", m.sub_mixes_.at(0).output_mix_gain.GetParameterId()).end());
    }
    e.raw("h", o.end().s).f("cc", cc).f("ae", ae).f("mix", mx);
    if (grow && (r.ok() || !more)) break;
  }
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng;
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) Run();
  return 0;
}
