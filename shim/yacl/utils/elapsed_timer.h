#pragma once
#include <chrono>
namespace yacl { class ElapsedTimer { public: void Restart() { t_ = std::chrono::steady_clock::now(); } double CountSec() const { return CountMs() / 1e3; } double CountMs() const { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t_).count(); } private: std::chrono::steady_clock::time_point t_ = std::chrono::steady_clock::now(); }; }
