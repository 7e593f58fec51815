#pragma once
namespace Aws::Http { enum class Scheme { HTTP, HTTPS }; }
