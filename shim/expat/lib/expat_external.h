#pragma once
#include <expat_external.h>
