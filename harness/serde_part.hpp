#pragma once
#include "common.hpp"
const std::vector<std::string>& doc_names();
// appends the events of one program over the types of one part
using part_fn = void (*)(const std::string& fam, hv::rng& r, std::vector<std::string>& out);
void part0(const std::string&, hv::rng&, std::vector<std::string>&);
void part1(const std::string&, hv::rng&, std::vector<std::string>&);
void part2(const std::string&, hv::rng&, std::vector<std::string>&);
void part3(const std::string&, hv::rng&, std::vector<std::string>&);
