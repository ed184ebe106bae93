// YAML documents as the tagged tuples of Serde.tla, and random YAML texts. Uses yaml-cpp only.
#pragma once
#include "jtree.hpp"
#include <yaml-cpp/yaml.h>

namespace jt {
template <class T> std::optional<T> as(const YAML::Node& n)
{
    try { return n.as<T>(); } catch (const YAML::Exception&) { return {}; }
}
inline std::string yscalar(const YAML::Node& n)
{
    std::string o = "[\"y\"," + jstr(n.Scalar()) + ",";
    if (auto i = as<std::int64_t>(n)) o += ilimbs(*i);
    else if (auto u = as<std::uint64_t>(n)) o += ilimbs(*u);
    else o += "[]";
    auto b = as<bool>(n);
    o += b ? *b ? ",\"t\"" : ",\"f\"" : ",\"\"";
    auto d = as<double>(n);
    o += d ? ",\"" + dbits(*d) + "\"" : ",\"\"";
    auto f = as<float>(n);
    o += f ? ",\"" + dbits(*f) + "\"" : ",\"\"";
    return o + "]";
}
inline std::string ydoc(const YAML::Node& n)
{
    if (!n.IsDefined()) return "[\"undefined\"]";
    if (n.IsNull()) return "[\"n\"]";
    if (n.IsScalar()) return yscalar(n);
    std::string o = n.IsMap() ? "[\"m\",[" : "[\"a\",[";
    bool first = true;
    if (n.IsMap())
        for (const auto& e : n)
        {
            if (!first) o += ',';
            first = false;
            o += "[" + (e.first.IsScalar() ? jstr(e.first.Scalar()) : std::string("\"?not a scalar\"")) + "," + ydoc(e.second) + "]";
        }
    else
        for (const auto& e : n) { if (!first) o += ','; first = false; o += ydoc(e); }
    return o + "]]";
}
// scalars become strings, so that the mutator of jtree.hpp can work on the document
inline rapidjson::Value to_rj(const YAML::Node& n, A& a)
{
    if (!n.IsDefined() || n.IsNull()) return rapidjson::Value();
    if (n.IsScalar()) return sv(n.Scalar(), a);
    rapidjson::Value o(n.IsMap() ? rapidjson::kObjectType : rapidjson::kArrayType);
    if (n.IsMap()) for (const auto& e : n) o.AddMember(sv(e.first.Scalar(), a), to_rj(e.second, a), a);
    else for (const auto& e : n) o.PushBack(to_rj(e, a), a);
    return o;
}
inline bool plain_ok(const std::string& s)
{
    if (s.empty() || s == "null" || s == "Null" || s == "NULL" || s == "~") return false;
    if (!std::isalnum((unsigned char)s[0]) && s[0] != '_' && s[0] != '.' && !(s[0] == '-' && s.size() > 1 && std::isalnum((unsigned char)s[1]))) return false;
    for (unsigned char c : s) if (!std::isalnum(c) && c != '_' && c != '.' && c != '-' && c != '+') return false;
    return true;
}
inline std::string ytext(rng& r, const std::string& s)
{
    if (plain_ok(s) && r.chance(70)) return s;
    bool simple = true;
    for (unsigned char c : s) simple = simple && c >= 0x20 && c < 0x7f && c != '\'';
    if (simple && r.chance(40)) return "'" + s + "'";
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
inline std::string ynum(rng& r, const std::string& dec, std::uint64_t mag, bool neg)
{
    if (!neg && r.chance(20)) { char b[40]; std::snprintf(b, 40, r.chance(70) ? "0x%llX" : "0%llo", (unsigned long long)mag); return b; }
    if (r.chance(10)) return "\"" + dec + "\"";
    return dec;
}
// flow style, so that any nesting is one line
inline std::string render(rng& r, const rapidjson::Value& j)
{
    static const char* t[] = {"true", "True", "TRUE", "yes", "on", "Y"};
    static const char* f[] = {"false", "False", "FALSE", "no", "off", "N"};
    static const char* odd[] = {"1.0", "1e3", ".inf", "-.inf", ".nan", "12abc", "'12 '", "0x", "- ", "+5", "1_000", "''", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1e400", "tru", "3.4e39"};
    if (j.IsNull()) return r.chance(50) ? "~" : "null";
    if (j.IsBool()) return (j.GetBool() ? t : f)[r.below(6)];
    if (j.IsUint64()) return r.chance(8) ? "'" + std::string(odd[r.below(4)]) + "'" : ynum(r, std::to_string(j.GetUint64()), j.GetUint64(), false);
    if (j.IsInt64()) return ynum(r, std::to_string(j.GetInt64()), 0, true);
    if (j.IsDouble()) { if (r.chance(30)) { std::string o = odd[r.below(int(sizeof odd / sizeof *odd))]; return o == "- " ? "'-'" : o; } char b[40]; std::snprintf(b, 40, "%.17g", j.GetDouble()); return b; }
    if (j.IsString()) return ytext(r, std::string(j.GetString(), j.GetStringLength()));
    std::string o = j.IsArray() ? "[" : "{";
    bool first = true;
    if (j.IsArray()) for (auto& x : j.GetArray()) { if (!first) o += ", "; first = false; o += render(r, x); }
    else
    {
        for (auto& m : j.GetObject())
        {
            if (!first) o += ", ";
            first = false;
            o += ytext(r, std::string(m.name.GetString(), m.name.GetStringLength())) + ": " + render(r, m.value);
        }
        if (r.chance(2)) { o += std::string(first ? "" : ", ") + (r.chance(50) ? "~: 1" : "[1, 2]: 3"); }
    }
    return o + (j.IsArray() ? "]" : "}");
}
} // namespace jt
