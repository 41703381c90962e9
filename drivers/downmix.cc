// M03: down-mixing to the coded channels, and back.
#include <cmath>
#include "elems.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/demixing_manager.h"
#include "iamf/cli/downmixer_manager.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf/cli/proto_conversion/channel_label_utils.h"
#include "iamf/cli/proto_conversion/downmixing_reconstruction_util.h"
#include "iamf/cli/substream_frames.h"
using namespace el;
using namespace vt;

using Label = ChannelLabel::Label;
static std::map<std::string, Label> names;
static std::string Name(Label l) { return ChannelLabel::LabelToStringForDebugging(l); }
static void Learn() {
  for (int k = 0; k <= ChannelLabel::kA24; ++k) {
    const Label l = (Label)k; const std::string n = Name(l);
    if (names.contains(n)) continue;
    names[n] = l;
  }
}
// the channels of the highest layer
static std::vector<std::string> Top(int layout) {
  std::vector<std::string> v; const int s = N[layout][0], h = N[layout][2];
  auto add = [&](std::initializer_list<const char*> l) { v.insert(v.end(), l.begin(), l.end()); };
  if (s == 1) add({"M"});
  if (s == 2) add({"L2", "R2"});
  if (s == 3) add({"L3", "R3"});
  if (s == 5) add({"L5", "R5", "Ls5", "Rs5"});
  if (s == 7) add({"L7", "R7", "Lss7", "Rss7", "Lrs7", "Rrs7"});
  if (s >= 3) add({"C"});
  if (N[layout][1]) add({"LFE"});
  if (h == 2 && s == 3) add({"Ltf3", "Rtf3"}); else if (h == 2) add({"Ltf2", "Rtf2"});
  if (h == 4) add({"Ltf4", "Rtf4", "Ltb4", "Rtb4"});
  return v;
}
struct E1 {
  st::Element e; Raw kind; std::vector<std::string> top; std::unique_ptr<AudioElementObu> obu; int trims[2] = {0, 0};
  DownMixingParams p; LabelSamplesMap in; absl::flat_hash_map<uint32_t, SubstreamData> data; bool down = false, lost = false, odd = false;
  std::map<uint32_t, std::vector<std::vector<double>>> raw, dec; Obj js;
};
static int U(double v) { const double x = std::round(v * 1e5); return std::fabs(x) < 1e9 ? (int)x : 1000000000; }
static Raw Vals(const auto& v) { std::vector<int> o; for (auto x : v) o.push_back(U(x)); return {Js(o)}; }

static void Run() {
  next_sub = 0; const int n = R->P(70) ? 1 : 2, ticks = R->In(1, 3);
  DescriptorObus::CodecConfigsById codecs; codecs.emplace(7, *Parse<CodecConfigObu>(st::LpcmConfig(7, ticks, 48000, 16, true)));
  std::vector<E1> els(n); DescriptorObus::AudioElementsById by; iamf_tools_cli_proto::UserMetadata meta;
  for (int i = 0; i < n; ++i) {
    E1& x = els[i]; x.e.id = 10 + i; x.e.codec = 7;
    if (R->P(10)) {
      const int order = R->In(0, 3), used = R->In(1, 16); x.kind = Mono(x.e, order, used).end();
      for (size_t k = 0; k < x.e.subs.size(); ++k) x.top.push_back(Name(*ChannelLabel::AmbisonicsChannelNumberToLabel(k)));
    } else {
      std::vector<st::Layer> ls; const int* prev = nullptr; int last = 0;
      for (int k = R->P(20) ? 1 : R->In(2, 5); k > 0; --k) {
        std::vector<int> fits; for (int l = 0; l < 9; ++l) if (!prev || (l != last && N[l][0] >= prev[0] && N[l][1] >= prev[1] && N[l][2] >= prev[2])) fits.push_back(l);
        if (fits.empty()) break;
        last = !prev && R->P(60) ? R->Pick(std::vector<int>{0, 1, 8}) : R->Pick(fits);
        st::Layer y{last, 0, 0}; Counts(prev, N[last], y.coupled, y.subs); prev = N[last];
        y.gain_present = R->P(50); y.recon = 0;
        if (y.gain_present) { y.gain_flags = R->In(0, 63); y.gain = (uint16_t)R->Pick(std::vector<int>{0, 5120, -5120, 10240, 1536, -1536, 2560}); }
        ls.push_back(y);
      }
      x.kind = Channels(x.e, ls).end(); x.top = Top(last);
    }
    x.obu = std::make_unique<AudioElementObu>(*Parse<AudioElementObu>(st::ElementPayload(x.e)));
    auto d = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *x.obu);
    if (!d.ok()) { fprintf(stderr, "%s\n", d.status().ToString().c_str()); std::abort(); }
    by.insert({x.e.id, *std::move(d)});
    auto* f = meta.add_audio_frame_metadata(); f->set_audio_element_id(x.e.id);
    for (auto& l : x.top) f->add_channel_metadatas()->set_channel_label(*ChannelLabelUtils::LabelToProto(names.at(l)));
    static const double A[3] = {1, 0.866, 0.707}, W[11] = {0, .0179, .0391, .0658, .1038, .25, .3962, .4342, .4609, .4821, .5};
    x.p = {A[R->In(0, 2)], A[R->In(0, 2)], A[R->In(0, 2)], A[R->In(0, 2)], 0, 0, true}; x.p.w = W[R->In(0, 10)];
    if (R->P(8)) (R->P(50) ? x.p.beta : R->P(50) ? x.p.gamma : x.p.delta) = 0;
  }
  auto cfg = CreateAudioElementIdToDownmixingConfig(meta, by);
  if (!cfg.ok()) { fprintf(stderr, "%s\n", cfg.status().ToString().c_str()); std::abort(); }
  auto down = DownmixerManager::Make(*std::move(cfg));
  auto up = DemixingManager::Create(DemixingManager::CreateIdToReconstructionConfig(by));
  if (!up.ok()) std::abort();
  bool all = true;
  for (int i = 0; i < n; ++i) {
    E1& x = els[i]; std::vector<Raw> ins; const bool loud = R->P(10); const int range = loud ? 300000 : R->P(50) ? 8000 : 60000;
    std::vector<std::string> given = x.top; if (R->P(2)) given.erase(given.begin() + R->In(0, given.size() - 1));
    for (auto& l : given) {
      std::vector<int> v; std::vector<double> d; for (int t = 0; t < ticks; ++t) { v.push_back(R->P(10) ? 0 : R->In(-range, range)); d.push_back(v.back() * 1e-5); }
      x.in[names.at(l)] = d; ins.push_back({"[" + Js(l) + "," + Js(v) + "]"});
    }
    const auto labels = by.at(x.e.id).substream_id_to_labels;
    for (auto s : x.e.subs) { const size_t c = labels.at(s).size(); x.data.emplace(s, SubstreamData{.substream_id = s, .frames_in_obu = SubstreamFrames<double>(c, ticks), .frames_to_encode = SubstreamFrames<int32_t>(c, ticks)}); }
    if (R->P(2)) { x.data.erase(R->Pick(x.e.subs)); x.lost = true; }
    LabelSamplesMap copy = x.in;
    x.down = down->DownMixSamplesToSubstreams(x.e.id, x.p, copy, x.data).ok(); all &= x.down;
    std::vector<int> ids(x.e.subs.begin(), x.e.subs.end()); std::vector<Raw> raw, enc;
    if (x.down) for (auto s : x.e.subs) {
      auto& d = x.data.at(s); x.raw[s] = d.frames_in_obu.Front(); auto& q = d.frames_to_encode.Front();
      for (auto& ch : q) { x.dec[s].emplace_back(); for (int32_t v : ch) x.dec[s].back().push_back(v / 2147483648.0); }
      std::vector<Raw> a, b; for (auto& ch : x.raw[s]) a.push_back(Vals(ch)); for (auto& ch : x.dec[s]) b.push_back(Vals(ch));
      raw.push_back({Js(a)}); enc.push_back({Js(b)});
    }
    auto m = [](double v) { return (int)std::lround(v * 1000); };
    x.js.f("id", x.e.id).f("kind", x.kind).f("ids", ids).f("top", x.top).f("p", std::vector<int>{m(x.p.alpha), m(x.p.beta), m(x.p.gamma), m(x.p.delta)})
        .f("w", (int)std::lround(x.p.w * 1e4)).f("ticks", ticks).f("in", ins).f("lost", x.lost).f("down", x.down).f("raw", raw).f("enc", enc);
  }
  const bool tried = all; bool ok = false, ok2 = false;
  IdLabeledFrameMap o1, o2;
  if (tried) {
    std::list<AudioFrameWithData> fs;
    for (auto& x : els) {
      x.trims[0] = R->In(0, 3); x.trims[1] = R->In(0, 3);
      const int what = &x != &els[0] || R->P(96) ? 9 : R->In(0, 2); const uint32_t victim = x.e.subs.back();
      x.odd = what == 2 ? x.e.subs.size() > 1 : what == 0 ? x.e.subs.size() > 1 || n > 1 : what == 1;
      for (auto s : x.e.subs) {
        int64_t at = 0;
        if (s == victim && what == 0) at = 1;
        if (s == victim && what == 1) { x.raw[s].push_back(x.raw[s][0]); x.dec[s].push_back(x.dec[s][0]); }
        if (s == victim && what == 2 && x.odd) { for (auto& c : x.raw[s]) c.pop_back(); for (auto& c : x.dec[s]) c.pop_back(); }
        fs.push_back(AudioFrameWithData{.obu = AudioFrameObu(ObuHeader{.num_samples_to_trim_at_end = (uint32_t)x.trims[1], .num_samples_to_trim_at_start = (uint32_t)x.trims[0]}, s, std::vector<uint8_t>(1)),
                                        .start_timestamp = at, .end_timestamp = at + ticks, .encoded_samples = x.raw[s], .decoded_samples = x.dec[s], .down_mixing_params = x.p, .audio_element_with_data = &by.at(x.e.id)});
      }
    }
    std::vector<std::list<AudioFrameWithData>::iterator> it; for (auto k = fs.begin(); k != fs.end(); ++k) it.push_back(k);
    for (size_t k = 1; k < it.size(); ++k) if (R->P(50)) fs.splice(it[k], fs, it[R->In(0, k - 1)]);
    auto a = up->DemixOriginalAudioSamples(fs), b = up->DemixDecodedAudioSamples(fs); ok = a.ok(); ok2 = b.ok();
    if (ok) o1 = *a;
    if (ok2) o2 = *b;
  }
  std::vector<Raw> js;
  for (auto& x : els) {
    auto told = [&](IdLabeledFrameMap& m) {
      std::vector<Raw> v; if (!m.contains(x.e.id)) return v;
      auto add = [&](std::string nm, auto s) {
        if (nm.starts_with("Demixed")) nm = nm.substr(7);
        const bool same = names.contains(nm) && x.in.contains(names.at(nm)) && std::equal(s.begin(), s.end(), x.in.at(names.at(nm)).begin(), x.in.at(names.at(nm)).end());
        v.push_back({"[" + Js(nm) + "," + Vals(s).s + "," + Js(same) + "]"});
      };
      for (auto& [l, s] : m.at(x.e.id).label_to_samples) add(Name(l), s);
      for (auto& l : x.top) { absl::Span<const double> s; if (FindSamplesOrDemixedSamples(names.at(l), m.at(x.e.id).label_to_samples, s).ok()) add(l, s); else v.push_back({"[\"none\",[],false]"}); }
      return v;
    };
    std::vector<int> trims, layouts;
    if (ok && ok2) { auto& f = o2[x.e.id]; auto& g = o1[x.e.id]; trims = {(int)f.samples_to_trim_at_start, (int)f.samples_to_trim_at_end, (int)g.samples_to_trim_at_start, (int)g.samples_to_trim_at_end}; for (auto l : f.loudspeaker_layout_per_layer) layouts.push_back(l); }
    x.js.f("odd", x.odd).f("orig", told(o1)).f("dec", told(o2)).f("trims", trims).f("said", std::vector<int>{x.trims[0], x.trims[1], x.trims[0], x.trims[1]}).f("layouts", layouts);
    js.push_back(x.js.end());
  }
  Ev("mixed").f("els", js).f("tried", tried).f("up", ok).f("up2", ok2);
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng r(ArgI("seed", 1)); R = &r; Learn();
  for (long k = ArgI("n", 100); k > 0; --k) Run();
  return 0;
}
