#pragma once
#include "aws/s3/S3Client.h"
