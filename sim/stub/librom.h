// Stand-in for libROM, which is not installed in this sandbox. Serial, in-memory
// matrices/vectors and a small HDF5 database with libROM's interface.
#pragma once
#include "linalg/Matrix.h"
#include "utils/HDFDatabase.h"
#include "utils/mpi_utils.h"
#include "linalg/BasisGenerator.h"
#include "linalg/BasisReader.h"
#include "linalg/NNLS.h"
