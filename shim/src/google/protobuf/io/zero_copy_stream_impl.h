#pragma once
#include <google/protobuf/io/zero_copy_stream_impl.h>
