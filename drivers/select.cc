// D05: which mix and layout is selected, and whether that is what is rendered.
#include <list>
#include <optional>
#include "elems.h"
#include "iamf/cli/obu_processor_utils.h"
#include "iamf/include/iamf_tools/iamf_decoder_factory.h"
#include "iamf/include/iamf_tools/iamf_decoder_interface.h"
using namespace el;
using namespace vt;
namespace api = iamf_tools::api;

static int Code(const Layout& l) {
  if (l.layout_type == Layout::kLayoutTypeLoudspeakersSsConvention) { auto* s = std::get_if<LoudspeakersSsConventionLayout>(&l.specific_layout); return s ? 200 + s->sound_system : -1; }
  return l.layout_type * 100;
}
static st::OutLayout Out(int code) { return {code / 100, code % 100}; }
static Raw Sub(const MixPresentationSubMix& s) {
  std::vector<Raw> e; std::vector<int> l;
  for (auto& x : s.audio_elements) e.push_back(Obj().f("id", x.audio_element_id).f("hp", (int)x.rendering_config.headphones_rendering_mode).end());
  for (auto& x : s.layouts) l.push_back(Code(x.loudness_layout));
  return Obj().f("els", e).f("lays", l).end();
}
static Raw MixJ(const MixPresentationObu& m) {
  std::vector<Raw> s; for (auto& x : m.sub_mixes_) s.push_back(Sub(x));
  return Obj().f("id", (int)m.GetMixPresentationId()).f("subs", s).end();
}
static Raw Told(const st::Mix& m) {
  std::vector<Raw> s;
  for (auto& x : m.subs) {
    std::vector<Raw> e; std::vector<int> l;
    for (auto& y : x.elements) e.push_back(Obj().f("id", (int)y.id).f("hp", y.headphones).end());
    for (auto& y : x.layouts) l.push_back(y.type * 100 + (y.type == 2 ? y.system : 0));
    s.push_back(Obj().f("els", e).f("lays", l).end());
  }
  return Obj().f("id", (int)m.id).f("subs", s).end();
}
struct Sc { std::vector<st::Element> els; std::vector<st::Mix> mixes; Bytes descr; };
static Sc Make(bool whole) {
  Sc s; next_sub = 0; std::vector<Raw> ej, mj, cj; const auto codecs = Codecs();
  s.descr = st::Obu({31}, st::SequenceHeader(2, 2));
  auto put = [&](int t, const Bytes& b) { const Bytes o = st::Obu({t}, b); s.descr.insert(s.descr.end(), o.begin(), o.end()); };
  for (auto& c : codecs) cj.push_back(Obj().f("frame", c.frame).f("rate", c.rate).f("lpcm", std::string(c.name) == "lpcm").end());
  if (whole) put(0, st::LpcmConfig(0, 960, 48000, 16, true)); else for (auto& c : codecs) put(0, c.payload);
  const int n = R->In(1, 5);
  for (int i = 0; i < n; ++i) {
    st::Element e; e.id = i; e.codec = whole ? 0 : R->P(80) ? 0 : R->In(0, 3);
    const int w = R->In(0, 9);
    Obj o = w < 5 ? Channels(e, {One(1)}) : w < 7 ? Channels(e, {One(9)}) : Decodable(e);
    ej.push_back(Obj().f("id", i).raw("it", o.end().s).f("codec", (int)e.codec).end());
    put(1, st::ElementPayload(e)); s.els.push_back(e);
  }
  static const std::vector<int> common = {200, 200, 200, 300, 201, 204, 209, 212};
  const bool heads = R->P(40);  // headphones, rendered as stereo unless an element asks for binauralisation
  int id = R->P(80) ? R->In(1, 9) : 70000;
  for (int k = R->In(1, 5); k > 0; --k) {
    st::Mix m; m.id = id; id += R->In(1, 3); uint32_t pid = 50;
    std::vector<uint32_t> left; for (int i = 0; i < n; ++i) left.push_back(i);
    for (int i = n - 1; i > 0; --i) std::swap(left[i], left[R->In(0, i)]);
    for (int q = whole || R->P(60) ? R->P(96) ? 1 : 2 : R->In(2, 3); q > 0; --q) {
      st::SubMix sm;
      for (int c = R->P(65) ? 1 : R->In(2, 4); c > 0 && !left.empty(); --c) { sm.elements.push_back({left.back(), heads && whole ? 0 : R->P(96) ? (int)R->In(0, 1) : (int)R->In(0, 3), {pid++, 48000}}); left.pop_back(); }
      if (sm.elements.empty()) break;
      sm.out = {pid++, 48000};
      std::vector<int> lays;
      for (int c = R->P(50) ? 1 : R->In(2, 4); c > 0; --c) {
        int l = R->P(70) ? R->Pick(common) : 200 + R->In(0, whole ? 13 : 15);
        if (!whole && R->P(5)) l = R->In(0, 1) * 100;
        if (whole && !heads && l == 300) l = 205;
        lays.push_back(l);
      }
      for (int l : lays) sm.layouts.push_back(Out(l));
      m.subs.push_back(sm);
    }
    put(2, st::MixPayload(m)); s.mixes.push_back(m); mj.push_back(Told(m));
  }
  Ev("setup").f("codecs", cj).f("els", ej).f("mixes", mj).f("heads", heads);
  return s;
}
static std::vector<int> Want(bool whole, bool heads) {
  if (R->P(25)) return {};
  int l = R->P(60) ? R->Pick(std::vector<int>{200, 300, 300, 201, 209, 200}) : 200 + R->In(0, 13);
  if (whole && !heads && l == 300) l = 200;
  return {l};
}
static Layout ToLayout(int code) {
  if (code == 300) return {.layout_type = Layout::kLayoutTypeBinaural, .specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = 0}};
  return {.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = LoudspeakersSsConventionLayout{.sound_system = (LoudspeakersSsConventionLayout::SoundSystem)(code - 200), .reserved = 0}};
}
static std::vector<int> WantId(const Sc& s) {
  if (R->P(55)) return {};
  return {(int)(R->P(80) ? s.mixes[R->In(0, s.mixes.size() - 1)].id : R->In(0, 20))};
}
static void Functions() {
  Sc s = Make(false); DescriptorObus d; const auto codecs = Codecs();
  for (size_t i = 0; i < codecs.size(); ++i) d.codec_config_obus.emplace(i, Parse<CodecConfigObu>(codecs[i].payload).value());
  for (auto& e : s.els) d.audio_elements.emplace(e.id, ObuWithDataGenerator::GenerateAudioElementWithData(d.codec_config_obus, Parse<AudioElementObu>(st::ElementPayload(e)).value()).value());
  std::list<MixPresentationObu> mixes; std::vector<MixPresentationObu*> at;
  for (auto& m : s.mixes) { mixes.push_back(Parse<MixPresentationObu>(st::MixPayload(m)).value()); at.push_back(&mixes.back()); }
  for (int k = R->In(2, 8); k > 0; --k) {
    if (R->P(25)) {
      const int m = R->In(0, at.size() - 1), sub = R->In(-1, 3), lay = R->In(-1, 5);
      auto r = CreateSimplifiedMixPresentationForRendering(*at[m], sub, lay);
      Ev e("cut"); e.f("mix", m).f("sub", sub).f("lay", lay).f("ok", r.ok());
      std::vector<Raw> js; if (r.ok()) for (auto& x : r->sub_mixes_) js.push_back(Sub(x));
      e.f("simple", js); continue;
    }
    std::list<MixPresentationObu*> given; std::vector<int> of; const bool all = R->P(60);
    for (size_t i = 0; i < at.size(); ++i) if (all || R->P(60)) { given.push_back(at[i]); of.push_back(i); }
    auto want = Want(false, true), id = WantId(s);
    std::optional<Layout> w; if (!want.empty()) w = ToLayout(want[0]);
    std::optional<uint32_t> i; if (!id.empty()) i = id[0];
    auto r = FindMixPresentationAndLayout(d.audio_elements, given, w, i);
    Ev e("find"); e.f("of", of).f("want", want).f("id", id).f("ok", r.ok());
    if (r.ok()) {
      e.f("mix", (int)(std::find(at.begin(), at.end(), r->mix_presentation) - at.begin())).f("sub", r->sub_mix_index).f("lay", r->layout_index).f("layout", Code(r->output_layout));
      auto c = CreateSimplifiedMixPresentationForRendering(*r->mix_presentation, r->sub_mix_index, r->layout_index);
      std::vector<Raw> js; if (c.ok()) for (auto& x : c->sub_mixes_) js.push_back(Sub(x));
      e.f("simple", js);
    }
    std::vector<Raw> after; for (auto& m : mixes) after.push_back(MixJ(m));
    e.f("after", after);
  }
}
static Bytes Unit(const Sc& s) {  // one frame of each substream: element k plays 2^k on its first channel
  Bytes all;
  for (auto& e : s.els) {
    int sub = 0, ch = 0;
    auto frame = [&](int channels) {
      st::W w; for (int t = 0; t < 960; ++t) for (int c = 0; c < channels; ++c) { const int v = ch == 0 && c == 0 ? 256 << e.id : 0; w.u8(v & 255).u8(v >> 8); }
      const Bytes o = st::Obu({st::FrameType(e.subs[sub])}, st::FramePayload(e.subs[sub], w.b)); all.insert(all.end(), o.begin(), o.end()); ++sub; ch += channels;
    };
    if (e.type == 0) for (auto& y : e.layers) for (int i = 0; i < y.subs; ++i) frame(i < y.coupled ? 2 : 1);
    else while (sub < (int)e.subs.size()) frame(1);
  }
  return all;
}
static void Whole() {
  Sc s = Make(true); bool heads = true;
  for (auto& m : s.mixes) for (auto& x : m.subs) for (auto& e : x.elements) if (e.headphones) heads = false;
  for (auto& m : s.mixes) for (auto& x : m.subs) for (auto& l : x.layouts) if (l.type == 3 && !heads) return;
  const Bytes unit = Unit(s); std::unique_ptr<api::IamfDecoderInterface> d; bool desc = R->P(70); std::vector<int> ask;
  for (int k = desc ? R->In(1, 3) : 1; k > 0; --k) {
    auto want = Want(true, heads), id = WantId(s);
    api::RequestedMix q; if (!want.empty()) q.output_layout = static_cast<api::OutputLayout>(want[0] == 300 ? 14 : want[0] - 200);
    if (!id.empty()) q.mix_presentation_id = id[0];
    bool ok = true; api::SelectedMix told{}; bool have_told = false;
    if (!d) {
      api::IamfDecoderFactory::Settings st; st.requested_mix = q; st.requested_output_sample_type = api::OutputSampleType::kInt16LittleEndian; st.requested_profile_versions.clear();
      const bool all = R->P(60); ask.clear();
      for (int p = 0; p < 3; ++p) if (all || R->P(50)) { ask.push_back(p); st.requested_profile_versions.insert(static_cast<api::ProfileVersion>(p)); }
      if (desc) { d = api::IamfDecoderFactory::CreateFromDescriptors(st, s.descr.data(), s.descr.size()); ok = d != nullptr; }
      else {
        d = api::IamfDecoderFactory::Create(st); Bytes all = s.descr; all.insert(all.end(), unit.begin(), unit.end());
        ok = d != nullptr && d->Decode(all.data(), all.size()).ok();
      }
    } else { have_told = true; ok = d->ResetWithNewMix(q, told).ok(); }
    Ev e("whole"); e.f("desc", desc).f("want", want).f("id", id).f("ask", ask).f("again", have_told);
    int channels = 0; api::SelectedMix m{};
    if (ok && !d->IsDescriptorProcessingComplete()) ok = false;
    if (ok) ok = d->GetOutputMix(m).ok() && d->GetNumberOfOutputChannels(channels).ok();
    if (ok && have_told && (told.mix_presentation_id != m.mix_presentation_id || told.output_layout != m.output_layout)) m.mix_presentation_id = 4000000;
    e.f("ok", ok);
    if (!ok) break;
    const int l = static_cast<int>(m.output_layout);
    e.f("mix", (int)m.mix_presentation_id).f("layout", l == 14 ? 300 : 200 + l).f("channels", channels);
    if (desc && !d->Decode(unit.data(), unit.size()).ok()) { e.f("count", -1).f("heard", -1); break; }
    if (!desc && !d->SignalEndOfDecoding().ok()) { e.f("count", -1).f("heard", -1); break; }
    std::vector<uint8_t> buf(960 * 2 * 32); size_t bytes = 0;
    if (!d->IsTemporalUnitAvailable() || !d->GetOutputTemporalUnit(buf.data(), buf.size(), bytes).ok()) bytes = 0;
    int v = 0; for (size_t i = 0; i < bytes / 960; i += 2) v += (int16_t)(buf[i] | buf[i + 1] << 8);  // it comes out of one of them
    e.f("count", (int)(bytes / 960 / 2)).f("heard", v % 256 ? -v : v / 256);
  }
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng;
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) R->P(55) ? Functions() : Whole();
  return 0;
}
