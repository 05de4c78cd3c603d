"""Generates small C++ message classes from the repository's .proto files (same accessor API as protoc's C++)."""
import hashlib, json, os, shutil, subprocess, sys

SITE = "/opt/fcp/pyvenv/lib/python3.12/site-packages"
KEYWORDS = set("alignas and asm auto bool break case catch char class const continue default delete do double else enum explicit export extern false float for friend goto if inline int long mutable namespace new not operator or private protected public register return short signed sizeof static struct switch template this throw true try typedef union unsigned using virtual void volatile while xor NULL".split())
T = dict(DOUBLE=1, FLOAT=2, INT64=3, UINT64=4, INT32=5, FIXED64=6, FIXED32=7, BOOL=8, STRING=9, GROUP=10, MESSAGE=11, BYTES=12, UINT32=13, ENUM=14, SFIXED32=15, SFIXED64=16, SINT32=17, SINT64=18)
CT = {1: "double", 2: "float", 3: "int64_t", 4: "uint64_t", 5: "int32_t", 6: "uint64_t", 7: "uint32_t", 8: "bool", 13: "uint32_t", 15: "int32_t", 16: "int64_t", 17: "int32_t", 18: "int64_t"}


# ---- minimal decoder for descriptor.proto messages
def varint(b, i):
    r = s = 0
    while True:
        c = b[i]; i += 1
        r |= (c & 127) << s; s += 7
        if c < 128:
            return r, i


def fields(b):
    i, out = 0, []
    while i < len(b):
        t, i = varint(b, i)
        n, w = t >> 3, t & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 2:
            l, i = varint(b, i); v = b[i:i + l]; i += l
        elif w == 5:
            v = b[i:i + 4]; i += 4
        else:
            v = b[i:i + 8]; i += 8
        out.append((n, v))
    return out


def get(fs, n, d=None):
    for k, v in fs:
        if k == n:
            d = v
    return d


def allf(fs, n):
    return [v for k, v in fs if k == n]


def S(v):
    return v.decode() if v is not None else ""


class Enum:
    def __init__(s, b, scope):
        f = fields(b); s.name = S(get(f, 1)); s.full = scope + "." + s.name
        s.values = [(S(get(fields(v), 1)), (lambda x: x - (1 << 64) if x >> 63 else x)(get(fields(v), 2, 0))) for v in allf(f, 2)]


class Field:
    def __init__(s, b):
        f = fields(b)
        s.name, s.num, s.label, s.type = S(get(f, 1)), get(f, 3), get(f, 4), get(f, 5)
        s.tname, s.default, s.oneof, s.p3opt = S(get(f, 6)), get(f, 7), get(f, 9), get(f, 17, 0)
        o = fields(get(f, 8, b"")); s.packed = get(o, 2)
        s.rep = s.label == 3


class Msg:
    def __init__(s, b, scope, file):
        f = fields(b); s.name = S(get(f, 1)); s.full = scope + "." + s.name; s.file = file
        s.fields = [Field(x) for x in allf(f, 2)]
        s.nested = [Msg(x, s.full, file) for x in allf(f, 3)]
        s.enums = [Enum(x, s.full) for x in allf(f, 4)]
        s.oneofs = [S(get(fields(x), 1)) for x in allf(f, 8)]
        s.is_map = bool(get(fields(get(f, 7, b"")), 7, 0))


class File:
    def __init__(s, b):
        f = fields(b); s.name, s.pkg = S(get(f, 1)), S(get(f, 2)); s.deps = [S(x) for x in allf(f, 3)]
        s.syntax = S(get(f, 12)) or "proto2"
        sc = "." + s.pkg if s.pkg else ""
        s.msgs = [Msg(x, sc, s) for x in allf(f, 4)]; s.enums = [Enum(x, sc) for x in allf(f, 5)]


def camel(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


def cid(n):
    n = n.lower()
    return n + "_" if n in KEYWORDS else n


def mname(f):
    return f.name.lower() + "_m"


class Gen:
    def __init__(s, files):
        s.types = {}
        for f in files:
            for e in f.enums:
                s.types[e.full] = ("enum", e, f, e.name)
            for m in f.msgs:
                s.reg(m, f, "")

    def reg(s, m, f, pre):
        cn = pre + m.name
        m.cn = cn
        s.types[m.full] = ("msg", m, f, cn)
        for e in m.enums:
            s.types[e.full] = ("enum", e, f, cn + "_" + e.name)
        for n in m.nested:
            s.reg(n, f, cn + "_")

    def q(s, full):
        k, d, f, cn = s.types[full]
        return "::" + "::".join(f.pkg.split(".") + [cn]) if f.pkg else "::" + cn

    def isproto3(s, m):
        return m.file.syntax == "proto3"

    def ctype(s, fl):
        if fl.type in (9, 12):
            return "std::string"
        if fl.type in (11, 10, 14):
            return s.q(fl.tname)
        return CT[fl.type]

    def mapinfo(s, fl):
        if fl.rep and fl.type == 11 and s.types[fl.tname][1].is_map:
            m = s.types[fl.tname][1]
            return m.fields[0], m.fields[1]

    def presence(s, m, fl):
        return fl.type in (10, 11) or fl.oneof is not None or fl.p3opt or not s.isproto3(m)

    def default(s, m, fl):
        t = fl.type
        if fl.default is None:
            if t == 14:
                e = s.types[fl.tname][1]
                return "static_cast<%s>(%d)" % (s.q(fl.tname), e.values[0][1])
            return "false" if t == 8 else "0"
        d = S(fl.default) if t != 12 else fl.default
        if t == 14:
            e = s.types[fl.tname][1]
            return "static_cast<%s>(%d)" % (s.q(fl.tname), dict(e.values)[d])
        if t in (1, 2):
            return {"inf": "__builtin_inf()", "-inf": "-__builtin_inf()", "nan": "__builtin_nan(\"\")"}.get(d, d)
        if t in (3, 16, 18):
            return "(int64_t)%sull" % d if not d.startswith("-") else "-(int64_t)%sull" % d[1:]
        if t in (4, 6):
            return d + "ull"
        return d

    def real_oneof(s, m, fl):
        return None if fl.oneof is None or fl.p3opt else fl.oneof

    # --- wire helpers
    def ser1(s, fl, v):
        t = fl.type
        if t in (9, 12):
            return "vfpb::len(o, %s);" % v
        if t == 11:
            return "{ std::string t_; %s.vf_ser(&t_); vfpb::len(o, t_); }" % v
        if t == 1: return "vfpb::f64(o, vfpb::db(%s));" % v
        if t == 2: return "vfpb::f32(o, vfpb::fb(%s));" % v
        if t in (6, 16): return "vfpb::f64(o, (uint64_t)%s);" % v
        if t in (7, 15): return "vfpb::f32(o, (uint32_t)%s);" % v
        if t == 17: return "vfpb::var(o, vfpb::zz32(%s));" % v
        if t == 18: return "vfpb::var(o, vfpb::zz64(%s));" % v
        if t in (5, 14): return "vfpb::var(o, (uint64_t)(int64_t)%s);" % v
        return "vfpb::var(o, (uint64_t)%s);" % v

    def wt(s, fl):
        t = fl.type
        return 2 if t in (9, 11, 12) else 1 if t in (1, 6, 16) else 5 if t in (2, 7, 15) else 0

    def rd(s, fl, i="in"):
        t = fl.type
        if t in (9, 12): return "%s.str()" % i
        if t == 1: return "vfpb::bd(%s.f64())" % i
        if t == 2: return "vfpb::bf(%s.f32())" % i
        if t in (6, 16): return "(%s)%s.f64()" % (CT[t], i)
        if t in (7, 15): return "(%s)%s.f32()" % (CT[t], i)
        if t == 17: return "vfpb::uz32(%s.var())" % i
        if t == 18: return "vfpb::uz64(%s.var())" % i
        if t == 8: return "(%s.var() != 0)" % i
        if t == 14: return "(%s)(int32_t)%s.var()" % (s.q(fl.tname), i)
        return "(%s)%s.var()" % (CT[t], i)

    def nz(s, fl, v):
        t = fl.type
        if t in (9, 12): return "!%s.empty()" % v
        if t == 1: return "vfpb::present(vfpb::db(%s))" % v
        if t == 2: return "vfpb::present(vfpb::fb(%s))" % v
        return "vfpb::present((uint64_t)%s)" % v

    def enum_code(s, e, cn, nested_in):
        pre = cn[:-len(e.name)] if nested_in else ""
        h = ["enum %s : int {" % cn + ", ".join("%s%s = %s" % (cn + "_" if nested_in else "", n, v if v != -2147483648 else "(-2147483647-1)") for n, v in e.values) + "};"]
        vals = sorted({v for _, v in e.values})
        h.append("inline bool %s_IsValid(int v) { switch (v) { %s return true; default: return false; } }" % (cn, " ".join("case %d:" % v for v in vals)))
        seen, cs = set(), []
        for n, v in e.values:
            if v not in seen:
                seen.add(v); cs.append('case %d: return "%s";' % (v, n))
        h.append("inline std::string %s_Name(int v) { v = (int)vf_concretize((uint32_t)v); switch (v) { %s default: return \"\"; } }" % (cn, " ".join(cs)))
        h.append("inline bool %s_Parse(absl::string_view n, %s* o) { %s return false; }" % (cn, cn, " ".join('if (n == "%s") { *o = (%s)%d; return true; }' % (n, cn, v) for n, v in e.values)))
        p = cn + "_"
        h.append("constexpr %s %sMIN = (%s)%d; constexpr %s %sMAX = (%s)%d; constexpr int %sARRAYSIZE = %d;" % (cn, p + e.name + "_" if nested_in else p, cn, vals[0], cn, p + e.name + "_" if nested_in else p, cn, vals[-1], p + e.name + "_" if nested_in else p, vals[-1] + 1))
        h.append("inline const ::google::protobuf::EnumDescriptor* %s_descriptor() { static ::google::protobuf::EnumDescriptor d{+[](int v) { return %s_Name(v); }}; return &d; }" % (cn, cn))
        return h

    def msg_decl(s, m, h):
        cn = m.cn
        h.append("class %s final : public ::google::protobuf::Message {\n public:" % cn)
        h.append(" %s(); ~%s() override; %s(const %s& o); %s(%s&& o) noexcept; %s& operator=(const %s& o); %s& operator=(%s&& o) noexcept;" % ((cn,) * 10))
        h.append(" static const %s& default_instance(); void Swap(%s* o); void CopyFrom(const %s& o); void MergeFrom(const %s& o); void Clear() override; %s* New() const { return new %s; } ::google::protobuf::MessageLite* vf_new() const override { return new %s; } bool vf_equal(const %s& o) const;" % ((cn,) * 8))
        h.append(" friend void swap(%s& a, %s& b) { a.Swap(&b); }" % (cn, cn))
        h.append(" void vf_ser(std::string* o) const override; bool vf_merge(vfpb::In& in) override; std::string GetTypeName() const override { return \"%s\"; } static absl::string_view vf_full_name() { return \"%s\"; } std::string* vf_strfield(const std::string& n) override; bool IsInitialized() const override;" % (m.full[1:], m.full[1:]))
        h.append(" static const ::google::protobuf::Descriptor* descriptor(); static const ::google::protobuf::Descriptor* GetDescriptor_() { return descriptor(); } const ::google::protobuf::Descriptor* GetDescriptor() const override { return descriptor(); }")
        for n in m.nested:
            if not n.is_map:
                h.append(" using %s = %s;" % (n.name, n.cn))
        for e in m.enums:
            ecn = cn + "_" + e.name
            h.append(" using %s = %s;" % (e.name, ecn))
            for n, v in e.values:
                h.append(" static constexpr %s %s = %s_%s;" % (e.name, n, ecn, n))
            h.append(" static std::string %s_Name(int v) { return %s_Name(v); } static bool %s_IsValid(int v) { return %s_IsValid(v); } static bool %s_Parse(absl::string_view n, %s* o) { return %s_Parse(n, o); }".replace("return %s_Name", "return ::%s_Name").replace("return %s_IsValid", "return ::%s_IsValid").replace("return %s_Parse", "return ::%s_Parse") % (e.name, s.q(e.full)[2:], e.name, s.q(e.full)[2:], e.name, e.name, s.q(e.full)[2:]))
            vals = sorted({v for _, v in e.values})
            h.append(" static constexpr %s %s_MIN = (%s)%d; static constexpr %s %s_MAX = (%s)%d; static constexpr int %s_ARRAYSIZE = %d; static const ::google::protobuf::EnumDescriptor* %s_descriptor() { return ::%s_descriptor(); }" % (e.name, e.name, e.name, vals[0], e.name, e.name, e.name, vals[-1], e.name, vals[-1] + 1, e.name, s.q(e.full)[2:]))
        for i, o in enumerate(m.oneofs):
            mem = [f for f in m.fields if f.oneof == i]
            if mem and mem[0].p3opt:
                continue
            h.append(" enum %sCase { %s, %s_NOT_SET = 0 }; %sCase %s_case() const { return %sCase(%s); } void clear_%s(); bool has_%s() const { return %s_case() != %s_NOT_SET; }" % (
                camel(o), ", ".join("k%s = %d" % (camel(f.name), f.num) for f in mem), o.upper(), camel(o), o, camel(o), " : ".join(["has_%s_ ? %d" % (mname(f), f.num) for f in mem] + ["0"]), o, o, o, o.upper()))
        for fl in m.fields:
            s.field_decl(m, fl, h)
        if m.full == ".google.protobuf.Any":
            h.append(" template <class M> bool PackFrom(const M& m) { set_type_url(\"type.googleapis.com/\" + m.GetTypeName()); set_value(m.SerializeAsString()); return true; }")
            h.append(" template <class M> bool Is() const { const std::string& u = type_url(); auto p = u.rfind('/'); return p != std::string::npos && absl::string_view(u).substr(p + 1) == M::vf_full_name(); }")
            h.append(" template <class M> bool UnpackTo(M* m) const { return Is<M>() && m->ParseFromString(value()); }")
        h.append(" private:")
        for fl in m.fields:
            n = mname(fl)
            if s.mapinfo(fl):
                k, v = s.mapinfo(fl); h.append(" ::google::protobuf::Map<%s, %s> %s_;" % (s.ctype(k), s.ctype(v), n))
            elif fl.rep:
                h.append(" ::google::protobuf::%s<%s> %s_;" % ("RepeatedPtrField" if fl.type in (9, 11, 12) else "RepeatedField", "int" if fl.type == 14 else s.ctype(fl), n))
            else:
                if s.presence(m, fl):
                    h.append(" bool has_%s_ = false;" % n)
                if fl.type == 11:
                    h.append(" %s* %s_ = nullptr;" % (s.ctype(fl), n))
                elif fl.type in (9, 12):
                    h.append(" std::string %s_%s;" % (n, "" if fl.default is None else ' = std::string("%s", %d)' % (S(fl.default), len(fl.default))))
                else:
                    h.append(" %s %s_ = %s;" % (s.ctype(fl), n, s.default(m, fl)))
        h.append("};")

    def field_decl(s, m, fl, h):
        n, c = mname(fl), cid(fl.name)
        ct = s.ctype(fl)
        h.append(" static constexpr int k%sFieldNumber = %d; void clear_%s();" % (camel(fl.name), fl.num, c))
        mi = s.mapinfo(fl)
        if mi:
            mt = "::google::protobuf::Map<%s, %s>" % (s.ctype(mi[0]), s.ctype(mi[1]))
            h.append(" const %s& %s() const { return %s_; } %s* mutable_%s() { return &%s_; } int %s_size() const { return (int)%s_.size(); }" % (mt, c, n, mt, c, n, c, n))
            return
        if fl.rep:
            ptr = fl.type in (9, 11, 12)
            et = "int" if fl.type == 14 else ct
            rt = "::google::protobuf::%s<%s>" % ("RepeatedPtrField" if ptr else "RepeatedField", et)
            h.append(" const %s& %s() const { return %s_; } %s* mutable_%s() { return &%s_; } int %s_size() const { return %s_.size(); }" % (rt, c, n, rt, c, n, c, n))
            if fl.type == 11:
                h.append(" const %s& %s(int i) const; %s* mutable_%s(int i); %s* add_%s();" % (ct, c, ct, c, ct, c))
            elif ptr:
                h.append(" const std::string& %s(int i) const { return %s_.Get(i); } std::string* mutable_%s(int i) { return %s_.Mutable(i); } std::string* add_%s() { return %s_.Add(); }" % (c, n, c, n, c, n))
                h.append(" template <class A> void add_%s(A&& v) { %s_.Add(std::string(std::forward<A>(v))); } void add_%s(const void* p, size_t z) { %s_.Add(std::string((const char*)p, z)); } template <class A> void set_%s(int i, A&& v) { *%s_.Mutable(i) = std::string(std::forward<A>(v)); }" % (c, n, c, n, c, n))
            elif fl.type == 14:
                h.append(" %s %s(int i) const { return (%s)%s_.Get(i); } void set_%s(int i, %s v) { %s_.Set(i, v); } void add_%s(%s v) { %s_.Add(v); }" % (ct, c, ct, n, c, ct, n, c, ct, n))
            else:
                h.append(" %s %s(int i) const { return %s_.Get(i); } void set_%s(int i, %s v) { %s_.Set(i, v); } void add_%s(%s v) { %s_.Add(v); }" % (ct, c, n, c, ct, n, c, ct, n))
            return
        pres = s.presence(m, fl)
        if pres:
            h.append(" bool has_%s() const { return has_%s_; }" % (c, n))
        one = s.real_oneof(m, fl)
        pre = ("if (!has_%s_) clear_%s(); " % (n, m.oneofs[one]) if one is not None else "") + ("has_%s_ = true; " % n if pres else "")
        if fl.type == 11:
            h.append(" const %s& %s() const; %s* mutable_%s(); %s* release_%s(); void set_allocated_%s(%s* p);" % (ct, c, ct, c, ct, c, c, ct))
        elif fl.type in (9, 12):
            h.append(" const std::string& %s() const { return %s_; } std::string* mutable_%s() { %sreturn &%s_; }" % (c, n, c, pre, n))
            h.append(" template <class A> void set_%s(A&& v) { %s%s_ = std::string(std::forward<A>(v)); } void set_%s(const void* p, size_t z) { %s%s_.assign((const char*)p, z); } void set_%s(const absl::Cord& v) { %s%s_ = std::string(v); } std::string* release_%s() { auto* r = new std::string(std::move(%s_)); clear_%s(); return r; }" % (c, pre, n, c, pre, n, c, pre, n, c, n, c))
            if fl.default is not None or True:
                pass
        else:
            h.append(" %s %s() const { return %s_; } void set_%s(%s v) { %s%s_ = v; }" % (ct, c, n, c, ct, pre, n))

    def msg_impl(s, m, o):
        cn = m.cn
        A = o.append
        A("%s::%s() {} %s::%s(const %s& o) { MergeFrom(o); } %s::%s(%s&& o) noexcept { Swap(&o); }" % ((cn,) * 8))
        A("%s& %s::operator=(const %s& o) { CopyFrom(o); return *this; } %s& %s::operator=(%s&& o) noexcept { if (this != &o) { Clear(); Swap(&o); } return *this; }" % ((cn,) * 6))
        A("%s::~%s() { %s }" % (cn, cn, " ".join("delete %s_;" % mname(f) for f in m.fields if f.type == 11 and not f.rep)))
        A("const %s& %s::default_instance() { static const %s* d = new %s; return *d; }" % ((cn,) * 4))
        A("const ::google::protobuf::Descriptor* %s::descriptor() { static const ::google::protobuf::Descriptor* d = new ::google::protobuf::Descriptor{\"%s\", {%s}}; return d; }" % (cn, m.full[1:], ", ".join('{"%s", ::google::protobuf::FieldDescriptor::%s}' % (f.name, "TYPE_STRING" if f.type == 9 else "TYPE_BYTES" if f.type == 12 else "TYPE_OTHER") for f in m.fields)))
        A("std::string* %s::vf_strfield(const std::string& n) { %s return nullptr; }" % (cn, " ".join('if (n == "%s") return mutable_%s();' % (f.name, cid(f.name)) for f in m.fields if f.type in (9, 12) and not f.rep)))
        A("void %s::CopyFrom(const %s& o) { if (this != &o) { Clear(); MergeFrom(o); } }" % (cn, cn))
        sw = []
        for f in m.fields:
            n = mname(f)
            if s.mapinfo(f): sw.append("%s_.swap(o->%s_);" % (n, n))
            elif f.rep: sw.append("%s_.Swap(&o->%s_);" % (n, n))
            else:
                if s.presence(m, f): sw.append("std::swap(has_%s_, o->has_%s_);" % (n, n))
                sw.append("std::swap(%s_, o->%s_);" % (n, n))
        A("void %s::Swap(%s* o) { if (o == this) return; %s }" % (cn, cn, " ".join(sw)))
        A("void %s::Clear() { %s }" % (cn, " ".join("clear_%s();" % cid(f.name) for f in m.fields)))
        for i, on in enumerate(m.oneofs):
            mem = [f for f in m.fields if f.oneof == i]
            if mem and not mem[0].p3opt:
                A("void %s::clear_%s() { %s }" % (cn, on, " ".join("if (has_%s_) clear_%s();" % (mname(f), cid(f.name)) for f in mem)))
        mg, eq, ser, par, ini = [], [], [], [], []
        for f in m.fields:
            n, c, ct = mname(f), cid(f.name), s.ctype(f)
            mi = s.mapinfo(f)
            if mi:
                k, v = mi
                A("void %s::clear_%s() { %s_.clear(); }" % (cn, c, n))
                mg.append("for (auto& e_ : o.%s_) %s_[e_.first] = e_.second;" % (n, n))
                cmp = "e_.second.vf_equal(i_->second)" if v.type == 11 else "e_.second == i_->second"
                eq.append("if (%s_.size() != o.%s_.size()) return false; for (auto& e_ : %s_) { auto i_ = o.%s_.find(e_.first); if (i_ == o.%s_.end() || !(%s)) return false; }" % (n, n, n, n, n, cmp))
                ser.append((f.num, "for (auto& e_ : %s_) { std::string m_; { std::string* o = &m_; vfpb::tag(o, 1, %d); %s vfpb::tag(o, 2, %d); %s } vfpb::tag(o, %d, 2); vfpb::len(o, m_); }" % (n, s.wt(k), s.ser1(k, "e_.first"), s.wt(v), s.ser1(v, "e_.second"), f.num)))
                vrd = "vfpb::In x_ = s_.sub(); if (!s_.ok || !v_.vf_merge(x_)) return false;" if v.type == 11 else "v_ = %s;" % s.rd(v, "s_")
                par.append((f.num, [(2, "{ vfpb::In s_ = in.sub(); if (!in.ok) return false; %s k_{}; %s v_{}; while (s_.more()) { uint64_t t_ = s_.var(); if (!s_.ok) return false; if (t_ == %d) k_ = %s; else if (t_ == %d) { %s } else s_.skip((uint32_t)(t_ >> 3), t_ & 7); } if (!s_.ok) return false; %s_[k_] = v_; break; }" % (s.ctype(k), s.ctype(v), 8 | s.wt(k), s.rd(k, "s_"), 16 | s.wt(v), vrd, n))]))
                continue
            if f.rep:
                A("void %s::clear_%s() { %s_.Clear(); }" % (cn, c, n))
                mg.append("%s_.MergeFrom(o.%s_);" % (n, n))
                if f.type == 11:
                    A("const %s& %s::%s(int i) const { return %s_.Get(i); } %s* %s::mutable_%s(int i) { return %s_.Mutable(i); } %s* %s::add_%s() { return %s_.Add(); }" % (ct, cn, c, n, ct, cn, c, n, ct, cn, c, n))
                    eq.append("if (%s_.size() != o.%s_.size()) return false; for (int i = 0; i < %s_.size(); i++) if (!%s_[i].vf_equal(o.%s_[i])) return false;" % (n, n, n, n, n))
                elif f.type in (9, 12):
                    eq.append("if (%s_.size() != o.%s_.size()) return false; for (int i = 0; i < %s_.size(); i++) if (!(%s_[i] == o.%s_[i])) return false;" % (n, n, n, n, n))
                else:
                    eq.append("if (!%s_.vf_eq(o.%s_)) return false;" % (n, n))
                packed = f.packed if f.packed is not None else (1 if s.isproto3(m) and f.type not in (9, 11, 12) else 0)
                if packed:
                    ser.append((f.num, "if (!%s_.empty()) { std::string m_; { std::string* o = &m_; for (auto e_ : %s_) %s } vfpb::tag(o, %d, 2); vfpb::len(o, m_); }" % (n, n, s.ser1(f, "e_"), f.num)))
                else:
                    ser.append((f.num, "for (auto& e_ : %s_) { vfpb::tag(o, %d, %d); %s }" % (n, f.num, s.wt(f), s.ser1(f, "e_"))))
                if f.type == 11:
                    par.append((f.num, [(2, "{ vfpb::In s_ = in.sub(); if (!in.ok || !%s_.Add()->vf_merge(s_)) return false; break; }" % n)]))
                elif f.type in (9, 12):
                    par.append((f.num, [(2, "%s_.Add(in.str()); if (!in.ok) return false; break;" % n)]))
                else:
                    par.append((f.num, [(s.wt(f), "%s_.Add(%s); if (!in.ok) return false; break;" % (n, s.rd(f))), (2, "{ vfpb::In s_ = in.sub(); if (!in.ok) return false; while (s_.more()) %s_.Add(%s); if (!s_.ok) return false; break; }" % (n, s.rd(f, "s_")))]))
                continue
            pres = s.presence(m, f)
            one = s.real_oneof(m, f)
            pre = "if (!has_%s_) clear_%s(); " % (n, m.oneofs[one]) if one is not None else ""
            hp = "has_%s_" % n if pres else s.nz(f, n + "_")
            if f.type == 11:
                A("void %s::clear_%s() { if (%s_) { delete %s_; %s_ = nullptr; } has_%s_ = false; }" % (cn, c, n, n, n, n))
                A("const %s& %s::%s() const { return %s_ ? *%s_ : %s::default_instance(); } %s* %s::mutable_%s() { %sif (!%s_) %s_ = new %s; has_%s_ = true; return %s_; }" % (ct, cn, c, n, n, ct, ct, cn, c, pre, n, n, ct, n, n))
                A("%s* %s::release_%s() { auto* p = %s_; %s_ = nullptr; has_%s_ = false; return p; } void %s::set_allocated_%s(%s* p) { %sclear_%s(); if (p) { %s_ = p; has_%s_ = true; } }" % (ct, cn, c, n, n, n, cn, c, ct, pre, c, n, n))
                mg.append("if (o.has_%s_) mutable_%s()->MergeFrom(*o.%s_);" % (n, c, n))
                eq.append("if (has_%s_ != o.has_%s_ || (has_%s_ && !%s_->vf_equal(*o.%s_))) return false;" % (n, n, n, n, n))
                ser.append((f.num, "if (has_%s_) { vfpb::tag(o, %d, 2); %s }" % (n, f.num, s.ser1(f, "(*%s_)" % n))))
                par.append((f.num, [(2, "{ vfpb::In s_ = in.sub(); if (!in.ok || !mutable_%s()->vf_merge(s_)) return false; break; }" % c)]))
            else:
                if f.type in (9, 12):
                    clr = "%s_%s" % (n, ".clear()" if f.default is None else ' = std::string("%s", %d)' % (S(f.default), len(f.default)))
                else:
                    clr = "%s_ = %s" % (n, s.default(m, f))
                A("void %s::clear_%s() { %s; %s }" % (cn, c, clr, "has_%s_ = false;" % n if pres else ""))
                if pres:
                    mg.append("if (o.has_%s_) set_%s(o.%s_);" % (n, c, n))
                    eq.append("if (has_%s_ != o.has_%s_ || (has_%s_ && !(%s_ == o.%s_))) return false;" % (n, n, n, n, n))
                else:
                    mg.append("%s%s_ = o.%s_;" % ("if (!o.%s_.empty()) " % n if f.type in (9, 12) else "if (o.%s_ != 0) " % n if f.type not in (8,) else "if (o.%s_) " % n, n, n) if f.type in (9, 12) else "if (%s_vf_zero(%s_) || o.%s_ != (decltype(o.%s_))0) %s_ = o.%s_;".replace("%s_vf_zero(%s_)", "!(%s_ != (decltype(%s_))0)") % (n, n, n, n, n, n))
                    eq.append("if (!(%s_ == o.%s_)) return false;" % (n, n))
                ser.append((f.num, "if (%s) { vfpb::tag(o, %d, %d); %s }" % (hp, f.num, s.wt(f), s.ser1(f, n + "_"))))
                if f.type == 14 and not s.isproto3(m):
                    e = s.types[f.tname]
                    par.append((f.num, [(s.wt(f), "{ int v_ = (int32_t)in.var(); if (!in.ok) return false; if (%s_IsValid(v_)) set_%s((%s)v_); break; }" % (s.q(f.tname), c, ct))]))
                else:
                    par.append((f.num, [(s.wt(f), "{ auto v_ = %s; if (!in.ok) return false; set_%s(v_); break; }" % (s.rd(f), c))]))
            if f.label == 2:
                ini.append("has_%s_" % n)
        A("void %s::MergeFrom(const %s& o) { %s }" % (cn, cn, "\n ".join(mg)))
        A("bool %s::vf_equal(const %s& o) const { %s return true; }" % (cn, cn, "\n ".join(eq)))
        A("bool %s::IsInitialized() const { return %s; }" % (cn, " && ".join(ini + ["true"])))
        A("void %s::vf_ser(std::string* o) const { %s }" % (cn, "\n ".join(x for _, x in sorted(ser))))
        cases = []
        for num, alts in par:
            for w, code in dict(reversed(alts)).items():
                cases.append("case %d: %s" % (num << 3 | w, code))
        A("bool %s::vf_merge(vfpb::In& in) { while (in.more()) { uint64_t tag_ = in.var(); if (!in.ok || tag_ >> 32) return false; switch ((uint32_t)tag_) { %s\n default: if ((tag_ & 7) == 4 || !in.skip((uint32_t)(tag_ >> 3), tag_ & 7)) return false; } } return in.ok; }" % (cn, "\n  ".join(cases)))

    def walk(s, msgs):
        for m in msgs:
            for x in s.walk(m.nested):
                yield x
            yield m

    def file(s, f, out):
        base = f.name[:-6]
        g = "VF_PB_" + hashlib.sha1(f.name.encode()).hexdigest()[:12]
        h = ["#pragma once", '#include "google/protobuf/vfpb.h"'] + ['#include "%s.pb.h"' % d[:-6] for d in f.deps if not d.startswith(("google/api/", "proto/micro_rpc", "google/protobuf/descriptor"))]
        ns = f.pkg.split(".") if f.pkg else []
        h += ["namespace %s {" % n for n in ns]
        ms = [m for m in s.walk(f.msgs) if not m.is_map]
        for m in ms:
            h.append("class %s;" % m.cn)
        for e in f.enums:
            h += s.enum_code(e, e.name, False)
        for m in ms:
            for e in m.enums:
                h += s.enum_code(e, m.cn + "_" + e.name, True)
        for m in ms:
            s.msg_decl(m, h)
        h += ["}"] * len(ns)
        o = ['#include "%s.pb.h"' % base] + ["namespace %s {" % n for n in ns]
        for m in ms:
            s.msg_impl(m, o)
        o += ["}"] * len(ns)
        for ext, lines in ((".pb.h", h), (".pb.cc", o)):
            p = os.path.join(out, base + ext)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = "\n".join(lines) + "\n"
            if not os.path.exists(p) or open(p).read() != t:
                open(p, "w").write(t)


WKT = ["google/protobuf/%s.proto" % n for n in ("any", "duration", "timestamp", "struct", "wrappers", "empty")] + ["google/rpc/status.proto", "google/rpc/code.proto", "google/longrunning/operations.proto"]


def generate(repo, stub_protos, out):
    os.makedirs(out, exist_ok=True)
    protos = []
    for d, _, fs in os.walk(os.path.join(repo, "fcp")):
        for x in fs:
            if x.endswith(".proto"):
                protos.append(os.path.relpath(os.path.join(d, x), repo))
    extra = []
    for d, _, fs in os.walk(stub_protos):
        for x in fs:
            if x.endswith(".proto"):
                extra.append(os.path.relpath(os.path.join(d, x), stub_protos))
    hsh = hashlib.sha1(open(__file__, "rb").read())
    for p in sorted(protos):
        hsh.update(p.encode() + open(os.path.join(repo, p), "rb").read())
    for p in sorted(extra):
        hsh.update(p.encode() + open(os.path.join(stub_protos, p), "rb").read())
    mark = os.path.join(out, ".hash")
    if os.path.exists(mark) and open(mark).read() == hsh.hexdigest():
        return
    ds = os.path.join(out, "all.ds")
    r = subprocess.run(["protoc", "-I" + repo, "-I" + stub_protos, "-I" + SITE, "-I/usr/include", "--include_imports", "--experimental_allow_proto3_optional", "--descriptor_set_out=" + ds] + sorted(protos) + sorted(extra) + WKT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("protoc failed: " + r.stdout[-3000:])
    files = [File(v) for v in allf(fields(open(ds, "rb").read()), 1)]
    g = Gen(files)
    for f in files:
        if not f.name.startswith(("google/api/", "proto/micro_rpc", "google/protobuf/descriptor")):
            g.file(f, out)
    open(mark, "w").write(hsh.hexdigest())


if __name__ == "__main__":
    generate(sys.argv[1], sys.argv[2], sys.argv[3])
