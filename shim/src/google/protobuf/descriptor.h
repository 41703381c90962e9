#pragma once
#include <google/protobuf/descriptor.h>
