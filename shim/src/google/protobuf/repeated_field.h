#pragma once
#include <google/protobuf/repeated_field.h>
