// kl's src/yaml.cpp is written against a yaml-cpp in which NodeType and EmitterStyle are namespaces; the installed
// 0.8 declares them as structs. The mangled names are the same, so this header in front of the
// installed one is all it takes.
#pragma once
namespace YAML {
namespace NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; }
}
