#pragma once
#include <emp-tool/emp-tool.h>
