#pragma once
#define MACIS_ENABLE_MPI
