#pragma once
#include <google/protobuf/util/message_differencer.h>
