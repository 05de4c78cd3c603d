# Generates the trace table definitions (fcp/.../tracing_schema.h) from the schemas of the repository.
import os, re

CT = {"byte": "int8_t", "ubyte": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "short": "int16_t", "ushort": "uint16_t", "int16": "int16_t", "uint16": "uint16_t",
      "int": "int32_t", "uint": "uint32_t", "int32": "int32_t", "uint32": "uint32_t", "long": "int64_t", "ulong": "uint64_t", "int64": "int64_t", "uint64": "uint64_t", "bool": "bool", "float": "float", "double": "double"}

def gen(text, guard, path):
    text = re.sub(r"//.*", "", text)
    out = ["#pragma once", "// Generated from " + path, '#include "absl/strings/string_view.h"', '#include "fcp/tracing/tracing_severity.h"', '#include "fcp/tracing/tracing_traits.h"', '#include "flatbuffers/flatbuffers.h"']
    enums, tables = [], []
    ns = re.search(r"namespace\s+([\w.]+)\s*;", text)
    ns = ns.group(1).replace(".", "::") if ns else None
    for m in re.finditer(r"\benum\s+(\w+)\s*:\s*(\w+)\s*\{(.*?)\}", text, re.S):
        name, base, body = m.groups(); enums.append(name)
        vals = [v.strip() for v in body.split(",") if v.strip()]
        out.append("%senum %s : %s { %s };%s" % ("namespace %s { " % ns if ns else "", name, CT[base], ", ".join(name + "_" + v for v in vals), " }" if ns else ""))
    for m in re.finditer(r"\btable\s+(\w+)\s*(?:\((.*?)\))?\s*\{(.*?)\}", text, re.S):
        name, attrs, body = m.groups(); attrs = attrs or ""
        tag = re.search(r'tag\s*:\s*"([^"]*)"', attrs)
        if not tag: continue
        fields = [(f.split(":")[0].strip(), f.split(":")[1].split("=")[0].split("(")[0].strip()) for f in body.split(";") if f.strip()]
        tables.append((name, tag.group(1), "error" in re.sub(r'"[^"]*"', "", attrs), "warning" in re.sub(r'"[^"]*"', "", attrs), "span" in re.sub(r'"[^"]*"', "", attrs), fields))
        out.append("%sstruct %s {};%s" % ("namespace %s { " % ns if ns else "", name, " }" if ns else ""))
    out.append("namespace fcp {")
    for name, tag, err, warn, span, fields in tables:
        q = (ns + "::" if ns else "") + name
        sev = "kError" if err else "kWarning" if warn else "kInfo"
        args, body = [], []
        for f, t in fields:
            if t == "string": args.append("absl::string_view " + f); body.append('fbb->vf_field("%s", %s);' % (f, f))
            elif t.startswith("["):
                args.append("const std::vector<%s>& %s" % (CT.get(t[1:-1].strip(), "std::string"), f)); body.append('fbb->vf_num("%s", %s.size());' % (f, f))
            else:
                ct = CT.get(t) or ((ns + "::" if ns else "") + t)
                args.append("%s %s" % (ct, f)); body.append('fbb->vf_num("%s", %s);' % (f, f))
        args.append("flatbuffers::FlatBufferBuilder* fbb")
        out.append("template <> class TracingTraits<%s> : public TracingTraitsBase {\n public:\n  static constexpr TracingTag kTag = TracingTag(\"%s\");\n  static constexpr TracingSeverity kSeverity = TracingSeverity::%s;\n  static constexpr bool kIsSpan = %s;" % (q, tag, sev, "true" if span else "false"))
        out.append("  const char* Name() const override { return \"%s\"; }\n  TracingSeverity Severity() const override { return TracingSeverity::%s; }" % (name, sev))
        out.append("  std::string TextFormat(const flatbuffers::DetachedBuffer& buf) const override { return buf.vf_text(); }\n  std::string JsonStringFormat(const uint8_t*) const override { return \"\"; }")
        out.append("  static flatbuffers::Offset<%s> Create(%s) { %s return flatbuffers::Offset<%s>(1); }\n};" % (q, ", ".join(args), " ".join(body), q))
    out.append("}  // namespace fcp")
    return "\n".join(out) + "\n"

def generate(repo, gen_dir):
    for root, dirs, files in os.walk(os.path.join(repo, "fcp")):
        if "tracing_schema.fbs" in files:
            p = os.path.join(root, "tracing_schema.fbs"); rel = os.path.relpath(p, repo)
            s = gen(open(p).read(), rel, rel)
            o = os.path.join(gen_dir, rel[:-4] + ".h"); os.makedirs(os.path.dirname(o), exist_ok=True)
            if not os.path.exists(o) or open(o).read() != s:
                with open(o, "w") as f: f.write(s)
