#!/usr/bin/env python3
"""Writes OUT/absl (patched system Abseil headers) and OUT/proto (generated
protobuf code). Abseil: adds the implicit conversions the pinned Abseil has
(absl::string_view is std::string_view there; MutexLock takes a reference).
Protobuf: rewrites edition 2023 .proto files as proto2 for the installed protoc."""
import os, re, subprocess, sys, glob

repo, out = sys.argv[1], sys.argv[2]

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, 'w').write(text)

def sub(text, old, new):
    assert old in text, old
    return text.replace(old, new, 1)

h = open('/usr/include/absl/strings/string_view.h').read()
h = sub(h, '  constexpr string_view(const char* str)  // NOLINT(runtime/explicit)',
 '  constexpr string_view(std::string_view v) noexcept : ptr_(v.data()), length_(v.size()) {}\n'
 '  constexpr operator std::string_view() const noexcept { return std::string_view(ptr_, length_); }\n'
 '  constexpr string_view(const char* str)  // NOLINT(runtime/explicit)')
h = sub(h, '#include <string>', '#include <string>\n#include <string_view>')
put(f'{out}/absl/absl/strings/string_view.h', h)

h = open('/usr/include/absl/synchronization/mutex.h').read()
h = sub(h, '  explicit MutexLock(Mutex *mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {',
 '  explicit MutexLock(Mutex &mu) : MutexLock(&mu) {}\n'
 '  explicit MutexLock(Mutex *mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {')
put(f'{out}/absl/absl/synchronization/mutex.h', h)

# AlphaNum: accept std::string_view and types with AbslStringify.
h = open('/usr/include/absl/strings/str_cat.h').read()
h = sub(h, '  AlphaNum(absl::string_view pc) : piece_(pc) {}  // NOLINT(runtime/explicit)',
 '  AlphaNum(absl::string_view pc) : piece_(pc) {}  // NOLINT(runtime/explicit)\n'
 '  AlphaNum(std::string_view pc) : piece_(pc) {}\n'
 '  template <typename T, typename = decltype(AbslStringify(std::declval<strings_internal::VerifSink&>(), std::declval<const T&>()))>\n'
 '  AlphaNum(const T& t, strings_internal::VerifSink&& sink = strings_internal::VerifSink())\n'
 '      : piece_((AbslStringify(sink, t), sink.s)) {}\n'
 '  template <typename T, typename = decltype(std::declval<const T&>().ShortDebugString()), typename = void>\n'
 '  AlphaNum(const T& t, std::string&& tmp = std::string())\n'
 '      : piece_((tmp = t.ShortDebugString(), tmp)) {}')
h = sub(h, 'class AlphaNum {',
 'namespace strings_internal {\nstruct VerifSink {\n  std::string s;\n'
 '  void Append(size_t n, char c) { s.append(n, c); }\n'
 '  void Append(absl::string_view v) { s.append(v.data(), v.size()); }\n'
 '  bool PutPaddedString(absl::string_view v, int, int, bool) { Append(v); return true; }\n'
 '  friend void AbslFormatFlush(VerifSink* k, absl::string_view v) { k->Append(v); }\n'
 '};\n}  // namespace strings_internal\n\nclass AlphaNum {')
h = sub(h, '#include <array>', '#include <array>\n#include <utility>\n#include "absl/strings/str_format.h"')
put(f'{out}/absl/absl/strings/str_cat.h', h)

h = open('/usr/include/google/protobuf/message_lite.h').read()
h = sub(h, '  PROTOBUF_ATTRIBUTE_REINITIALIZES bool ParseFromString(ConstStringParam data);',
 '  PROTOBUF_ATTRIBUTE_REINITIALIZES bool ParseFromString(ConstStringParam data);\n'
 '  bool ParseFromString(absl::string_view d) { return ParseFromString(std::string(d)); }\n'
 '  bool ParseFromString(const char* d) { return ParseFromString(std::string(d)); }')
h = sub(h, '#include <string>', '#include <string>\n#include "absl/strings/string_view.h"')
put(f'{out}/absl/google/protobuf/message_lite.h', h)

# Protos.
pd = f'{out}/proto_src'
files = sorted(glob.glob(f'{repo}/iamf/cli/proto/*.proto'))
for p in files:
    t = open(p).read()
    t = re.sub(r'edition\s*=\s*"2023";', 'syntax = "proto2";', t)
    t = re.sub(r'^\s*option features\.[^;]*;\s*$', '', t, flags=re.M)
    t = re.sub(r'features\.[a-zA-Z_.]+\s*=\s*[A-Z_]+\s*,?\s*', '', t)
    t = re.sub(r'\[\s*\]', '', t)
    # reserved identifiers -> reserved strings
    def res(m):
        items = [x.strip() for x in m.group(1).split(',')]
        if all(re.fullmatch(r'[A-Za-z_]\w*', x) for x in items):
            return 'reserved ' + ', '.join(f'"{x}"' for x in items) + ';'
        return m.group(0)
    t = re.sub(r'reserved\s+([^;=]*?);', res, t)
    # add labels
    lines, depth, stack = t.split('\n'), 0, []
    res_l = []
    for ln in lines:
        code = re.sub(r'//.*', '', ln)
        m = re.match(r'\s*(message|enum|oneof)\s+\w+\s*\{', code)
        f = re.match(r'(\s*)((?!repeated|optional|map|option|reserved|oneof|message|enum|return|extensions)[.\w]+\s+\w+\s*=\s*\d+.*)$', code)
        f2 = re.match(r'(\s*)((?!repeated|optional|map|option|reserved|oneof|message|enum|return|extensions|syntax|package|import)[.\w]+\s+\w+\s*=?\s*)$', code)
        if stack and stack[-1] == 'message' and (f or f2):
            ln = re.sub(r'^(\s*)', r'\1optional ', ln, count=1)
        res_l.append(ln)
        opens, closes = code.count('{'), code.count('}')
        if m:
            stack.append(m.group(1)); opens -= 1
        for _ in range(opens): stack.append('other')
        for _ in range(closes): stack and stack.pop()
    put(f'{pd}/iamf/cli/proto/{os.path.basename(p)}', '\n'.join(res_l))
os.makedirs(f'{out}/proto', exist_ok=True)
tmp = f'{out}/proto_tmp'
os.makedirs(tmp, exist_ok=True)
subprocess.check_call(['protoc', f'--proto_path={pd}', f'--cpp_out={tmp}'] +
                      [f'iamf/cli/proto/{os.path.basename(p)}' for p in files])
for root, _, fs in os.walk(tmp):
    for f in fs:
        src = os.path.join(root, f)
        t = open(src).read()
        if f.endswith('.h'):  # let string setters take absl::string_view
            t = t.replace('static_cast<ArgT0 &&>(arg0)', '::verif_shim::PbArg(static_cast<ArgT0 &&>(arg0))')
            t = sub(t, '#include <string>', '#include <string>\n#include "pb_arg.h"')
        put(os.path.join(out, 'proto', os.path.relpath(src, tmp)), t)
