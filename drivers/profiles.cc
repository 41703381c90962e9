// C01: the profiles an audio element or a mix is compatible with.
#include "elems.h"
#include "iamf/cli/profile_filter.h"
#include "iamf/obu/ia_sequence_header.h"
using namespace el;
using namespace vt;
using Set = absl::flat_hash_set<ProfileVersion>;
static const std::vector<ProfileVersion> kAll = {ProfileVersion::kIamfSimpleProfile, ProfileVersion::kIamfBaseProfile, ProfileVersion::kIamfBaseEnhancedProfile,
                                                 ProfileVersion::kIamfBaseAdvancedProfile, ProfileVersion::kIamfAdvanced1Profile, ProfileVersion::kIamfAdvanced2Profile};
static std::vector<int> Of(const Set& s) {
  std::vector<int> v; for (size_t i = 0; i < kAll.size(); ++i) if (s.contains(kAll[i])) v.push_back(i);
  if (v.size() != s.size()) v.push_back(99);
  return v;
}
static Set Ask() { Set s; const bool all = R->P(60); for (auto p : kAll) if (all || R->P(50)) s.insert(p); return s; }

static void Run() {
  next_sub = 0; DescriptorObus d; const auto codecs = Codecs(); std::vector<Raw> cj;
  for (size_t i = 0; i < codecs.size(); ++i) {
    d.codec_config_obus.emplace(i, Parse<CodecConfigObu>(codecs[i].payload).value());
    cj.push_back(Obj().f("frame", codecs[i].frame).f("rate", codecs[i].rate).f("lpcm", std::string(codecs[i].name) == "lpcm").end());
  }
  Ev("codecs").f("c", cj);
  std::vector<uint32_t> ids; const int main_codec = R->P(70) ? 0 : R->In(0, 6);
  const bool many = R->P(35); const int n = many ? R->In(10, 31) : R->In(1, 5);
  for (int i = 0; i < n; ++i) {
    st::Element e; e.id = i; e.codec = R->P(many ? 97 : 80) ? main_codec : R->In(0, 6); Obj o;
    const int kind = R->In(0, 99);
    if (many ? kind < 90 : kind < 8) { const bool two = R->P(many ? 12 : 50); o = Channels(e, {One(two ? 1 : 0)}); }
    else if (kind < 40) o = Decodable(e);
    else if (kind < 50) o = Mono(e, R->P(70) ? R->In(2, 4) : R->In(0, 3), R->In(1, 25));
    else if (kind < 57) { const int order = R->In(1, 4), ch = (order + 1) * (order + 1), c = R->In(1, ch); o = Projection(e, order, c, std::min<int>(c, R->In(0, ch - c))); }
    else if (kind < 85) { const bool ex = R->P(75); const int x = R->P(92) ? R->In(0, 19) : R->P(50) ? 20 : R->In(21, 255); o = ex ? Channels(e, {One(15, x)}) : Channels(e, {One(R->In(0, 14))}); }
    else if (kind < 90) o = Objects(e, R->In(1, 2));
    else if (kind < 93) o = Unknown(e);
    else { st::Layer a = One(R->In(0, 1)), b{15, 0, 0}; b.layout = R->P(50) ? 2 : 7; Counts(N[a.layout], N[b.layout], b.coupled, b.subs); o = Channels(e, {a, b}); }
    auto obu = Parse<AudioElementObu>(st::ElementPayload(e));
    if (!obu.ok()) { Ev("strange").f("what", std::string(obu.status().message())).f("type", e.type); continue; }
    Set s = Ask(); Ev ev("element"); ev.f("id", i).raw("it", o.end().s).f("codec", (int)e.codec).f("ask", Of(s));
    auto st = ProfileFilter::FilterProfilesForAudioElement("", *obu, s);
    ev.f("ok", st.ok()).f("fits", Of(s));
    auto w = ObuWithDataGenerator::GenerateAudioElementWithData(d.codec_config_obus, *obu);
    if (w.ok()) {
      if (e.type == 2) { SubstreamIdLabelsMap m; if (ObuWithDataGenerator::FinalizeObjectsConfig(*obu, m).ok()) w->substream_id_to_labels = m; }
      ids.push_back(i);
      d.audio_elements.emplace(i, *w);
    }
  }
  for (int k = R->In(2, 6); k > 0; --k) {
    if (ids.empty()) break;
    st::Mix m; m.id = k; std::vector<uint32_t> left = ids; std::vector<std::vector<Raw>> js;
    for (int i = left.size() - 1; i > 0; --i) std::swap(left[i], left[R->In(0, i)]);
    if (R->P(50)) std::stable_partition(left.begin(), left.end(), [&](uint32_t i) { return (int)d.audio_elements.at(i).obu.GetCodecConfigId() == main_codec; });
    int want = many ? R->In(1, left.size()) : R->In(1, std::min<int>(4, left.size())); const int subs = R->P(65) ? 1 : R->P(85) ? 2 : R->In(3, 4);
    want = std::max(want, subs); size_t at = 0;
    for (int s = 0; s < subs; ++s) {
      st::SubMix sm; std::vector<Raw> j; int take = s + 1 == subs ? want : R->In(1, std::max(1, want - (subs - s - 1))); want -= take;
      for (; take > 0; --take) {
        const uint32_t id = at < left.size() ? left[at++] : 100 + at++; if (id >= 100 && R->P(80)) { if (!sm.elements.empty() || R->P(97)) continue; }
        st::MixElement x{R->P(99) ? id : 500 + (uint32_t)at, R->P(85) ? (int)R->In(0, 1) : (int)R->In(0, 3), {1000 + (uint32_t)at, 48000}};
        sm.elements.push_back(x); j.push_back(Obj().f("id", (int)x.id).f("hp", x.headphones).end());
      }
      if (sm.elements.empty()) continue;
      sm.out = {2000 + (uint32_t)s, 48000}; sm.layouts = {{2, 0}}; m.subs.push_back(sm); js.push_back(j);
    }
    if (m.subs.empty()) continue;
    auto mix = Parse<MixPresentationObu>(st::MixPayload(m));
    if (!mix.ok()) { Ev("strange").f("what", std::string(mix.status().message())); continue; }
    for (int again = R->In(1, 2); again > 0; --again) {
      Set s = Ask(); Ev ev("mix"); ev.f("subs", js).f("ask", Of(s));
      auto st = ProfileFilter::FilterProfilesForMixPresentation(d.audio_elements, *mix, s);
      ev.f("ok", st.ok()).f("fits", Of(s));
    }
  }
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng;
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) Run();
  return 0;
}
