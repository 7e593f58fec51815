#pragma once
#include "google/cloud/storage/client.h"
