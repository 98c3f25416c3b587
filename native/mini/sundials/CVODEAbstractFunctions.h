#include "CVODESolver.h"
