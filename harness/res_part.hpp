#pragma once
#include "common.hpp"
std::string run_R1(const std::string&, hv::rng&);
std::string run_R2(const std::string&, hv::rng&);
std::string run_R3(const std::string&, hv::rng&);
std::string run_R4(const std::string&, hv::rng&);
