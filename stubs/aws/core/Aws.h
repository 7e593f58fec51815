#pragma once
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace Aws {
using String = std::string;
using StringStream = std::stringstream;
using IOStream = std::iostream;
template <class T> using Vector = std::vector<T>;
template <class T, class... A> std::shared_ptr<T> MakeShared(const char*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
struct SDKOptions {};
inline int& initialised() { static int n = 0; return n; }
inline void InitAPI(const SDKOptions&) { ++initialised(); }
inline void ShutdownAPI(const SDKOptions&) { --initialised(); }
}
