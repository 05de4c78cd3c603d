// Tensors are only passed along by the code under check.
#pragma once
#include <string>
namespace tensorflow { class Tensor { public: Tensor() {} explicit Tensor(const std::string& s) : s(s) {} std::string s; }; }
