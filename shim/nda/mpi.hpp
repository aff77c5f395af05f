#pragma once
#include <mpi/mpi.hpp>
#include <nda/nda.hpp>
