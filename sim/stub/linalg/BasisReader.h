#pragma once
#include "linalg/BasisGenerator.h"
